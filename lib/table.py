#!/usr/bin/env python3
"""The properties, and from them /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = 'crates/seam/src/parse/expander.rs'
L = 'crates/seam/src/parse/lexer.rs'
P = 'crates/seam/src/parse/parser.rs'
T = 'crates/seam/src/parse/tokens.rs'
M = 'crates/seam/src/parse/macros.rs'
A = 'crates/seam/src/assemble/'
SIX = 'The six tests run ten fixed documents about sorting, reversing and dates through one output format'

# id, title, statement, over, quantifier, why tests cannot, files, [(mechanism, where)], observe_at, model, trace spec
PROPS = [
('C01', 'Reading a document loses none of its text',
 'The tokens of a document, in order, together with the white space kept before each of them and the comments between them, spell out the document exactly. Each token reports precisely the bytes it was read from, and the white space kept before a token is what separates it from the previous token or from the end of the last comment line (line break included).',
 ['inputs'], 'all texts', SIX + '; none looks at tokens or white space, and texts are unbounded.',
 [L, T], [('one token at a time, white space attached to the following token', 'Lexer::consume, consume_whitespace')], ['Lexer tokens'],
 'MC_Reader (Tiling, Complete)', 'Trace_Reader, level tokens'),
('C02', 'Accepted exactly when well-formed; the tree mirrors the text',
 'A document is read successfully if and only if its parentheses balance, every string is closed and has only valid escapes, and every keyword is followed by a value; otherwise an error is reported. The tree that results has one node for each atom, list and attribute, nested and ordered as they are written, each with the white space written before it and before its closing parenthesis.',
 ['inputs'], 'all texts', SIX + '; all of them are well-formed.',
 [P, L], [('recursive descent over tokens', 'Parser::parse, parse_expr, parse_list, parse_keyword')], ['Parser::parse'],
 'MC_Reader (AcceptsExactly, Mirrors)', 'Trace_Reader, level shape'),
('C03', 'Atoms get their kind and value from how they are written',
 'What starts with a digit or a sign is a number, what is quoted (singly or triply) is a string, what starts with a colon is a keyword and everything else is a symbol; a backslash makes the next character an ordinary one in symbols and numbers. The value of a string is its text with every escape (named, hexadecimal, octal, Unicode) replaced by the character it stands for, and an invalid escape is an error.',
 ['inputs'], 'all texts', SIX + '; they contain no escape at all.',
 [P, L], [('character classes', 'lexer::character_kind'), ('escape processing', 'parser::escape_sanitize, escape_string')], ['Parser::parse'],
 'MC_Reader', 'Trace_Reader, level atoms'),
('C04', 'Every node and every error knows where it is',
 'The position of each token and node names its file, byte offset, line, offset within the line, and extent in the text exactly, whatever comes before it (comments, multi-line strings, escaped newlines, multi-byte characters). A reading error is located at the construct that is wrong, and an expansion or generation error at a place in the document or in the file it included.',
 ['inputs', 'programs'], 'all texts and programs', SIX + '; no test looks at a position or at an error.',
 [L, T, P], [('offset bookkeeping', 'Lexer::increment_byte_offsets, next_line'), ('columns', 'Site::line_column, start_of_line')], ['Site fields of nodes and errors'],
 'MC_Reader (Places, ErrorPlace)', 'Trace_Reader, level places; Trace_Expander, level places'),
('C05', 'Expansion leaves macro-free text alone and no macro behind',
 'Expanding a document that has no macro in it yields the very same tree, white space and positions included. In any document whatever is not part of a macro invocation comes out unchanged, in place and in order; a macro invocation is replaced by what it stands for.',
 ['programs'], 'all documents', SIX + '; each is a single macro call.',
 [E], [('structural recursion over nodes', 'Expander::expand_node, expand_nodes')], ['expanded tree'],
 'MC_Session (Identity, Expanded, Grows), MC_Laws (Again, Plain)', 'Trace_Expander'),
('C06', 'Variables are evaluated once when defined, functions when used',
 'The value of a variable is expanded when it is defined and stays what it was, whatever is redefined later; the body of a function is expanded each time it is called, with what is defined at that time. A definition itself produces nothing, the latest definition of a name counts, and what a variable stands for takes the place and the white space of its use.',
 ['programs', 'histories'], 'all sequences of definitions and uses', SIX + '; at most one definition each.',
 [E], [('definitions', 'Expander::expand_define_macro, create_macro'), ('uses', 'Expander::expand_node, apply_macro')], ['expanded tree'],
 'MC_Session (Identified, Values0), MC_Laws (Define)', 'Trace_Expander (one step per top-level form, environment carried along)'),
('C07', 'Definitions never leak out of their scope',
 'Parameters of a function, names bound by a match pattern or a loop, and anything defined inside of the body of a called function, a match arm, a loop or a namespace, are visible only within it (and in what it calls) and are gone afterwards, whether expansion of it succeeds or fails over to something else. What they shadowed is visible again, unchanged; names that are not defined are reported.',
 ['programs', 'histories'], 'all nestings of scopes and all sequences of definitions and uses', SIX + '; no test has two scopes.',
 [E], [('stack of scopes', 'Expander::create_subcontext, remove_subcontext, insert_variable')], ['expanded tree', 'errors for undefined names'],
 'MC_Session (Scoped), MC_Laws (Scope)', 'Trace_Expander'),
('C08', 'Arguments reach parameters by position, by name, and in order',
 'Positional arguments match positional parameters in order; named ones match by name in any order, take their default when not given, and the last of several counts. A rest parameter gets all excess positional arguments, and a named-rest parameter all unknown named ones, in the order given; too few or too many arguments, or an unknown name without a rest to take it, is an error.',
 ['programs', 'inputs'], 'all parameter lists and argument lists', SIX + '; one of them calls a user function, with one positional argument.',
 [E], [('binding', 'Expander::bind_list')], ['expanded tree', 'errors'],
 'MC_Bind (Decided, Frame, Reaches, Commutes)', 'Trace_Expander'),
('C09', 'Pattern matching takes the first arm that matches',
 'A match expands its subject once and yields the expansion of the first arm whose pattern matches, and nothing if none does. A symbol in a pattern matches anything and stands for it in the arm; numbers, strings, lists and attributes match structurally; what a failed pattern bound is not visible in later arms or afterwards.',
 ['programs', 'inputs'], 'all patterns, subjects and arm orders', SIX + '; none uses match.',
 [E], [('match', 'Expander::expand_match_macro'), ('structural binding', 'Expander::bind')], ['expanded tree'],
 'MC_Bind (MatchSound), MC_Laws (Match)', 'Trace_Expander'),
('C10', 'Conditional expansion tests definedness and is lazy',
 'A conditional takes its first branch exactly if the name it tests is defined at that point, in this or an enclosing scope, and its second (or nothing) otherwise. The branch not taken is not expanded: it can neither fail, nor log, nor define anything.',
 ['programs', 'histories'], 'all states of the environment and all branches', SIX + '; none uses a conditional.',
 [E], [('ifdef', 'Expander::expand_ifdef_macro, has_variable')], ['expanded tree', 'log'],
 'MC_Laws (Lazy)', 'Trace_Expander'),
('C11', 'Loops, map, filter and apply visit every item once, in order',
 'A loop expands its body once for each item of its list, in order, with the pattern bound to that item; map calls its function once for each item, in order, and keeps every result; filter does so and drops the results that are empty lists; apply passes all items as arguments of one call. Anonymous functions behave as named ones do.',
 ['programs', 'inputs'], 'all lists, bodies and functions', SIX + '; one uses an anonymous function as sort key.',
 [E], [('iteration', 'Expander::expand_for_macro, expand_map_macro, expand_filter_macro, expand_apply_macro, expand_lambda_macro')], ['expanded tree', 'log'],
 'MC_Laws (Each)', 'Trace_Expander'),
('C12', 'Sorting yields an ordered permutation, stably',
 'The result of sorting a list has the same items, ordered by their keys: numbers by value and before everything else, other text by its characters; items with equal keys keep their relative order, and descending is the reverse comparison, still stable. Reversing a list yields its items back to front; the n-th place of a list keeps its white space in both.',
 ['inputs'], 'all lists and key functions, of any length', SIX + '; they sort lists of at most eight items, with distinct keys.',
 [E], [('sort', 'Expander::expand_sort_macro'), ('reverse', 'Expander::expand_reverse_macro')], ['expanded tree'],
 'MC_Sort (Permutation, Ordered, Stable, NumbersFirst, Total, Idempotent)', 'Trace_Expander'),
('C13', 'Value macros convert, combine and take apart values exactly',
 'Grouping, splicing, stripping, conversion between symbols, numbers, strings and raw text, joining, concatenation and lookup by path yield precisely the values described for them, with nothing lost, duplicated or reordered. Lookup follows each step of its path by index or by name and fails when a step leads nowhere; conversion of something that is not a single value is an error.',
 ['inputs', 'programs'], 'all values and nestings of these macros', SIX + '; none of these macros is tested.',
 [E], [('value macros', 'Expander::expand_list_macro, expand_splat_macro, expand_strip_macro, expand_string_macro, expand_raw_macro, expand_join_macro, expand_concat_macro, expand_get_macro')], ['expanded tree'],
 'MC_Laws (Value)', 'Trace_Expander'),
('C14', 'Namespaces export everything defined in them, and nothing else',
 'After a namespace every name newly defined within it is defined under the prefix of the namespace, separator included, with the value it had at the end; without the prefix it is not visible, and nothing that was defined before is exported or changed. What else was inside of the namespace is its output.',
 ['programs', 'histories'], 'all namespaces, nestings and prior definitions', SIX + '; none uses a namespace.',
 [E], [('export of definitions', 'Expander::expand_namespace_macro')], ['expanded tree', 'errors for undefined names'],
 'MC_Laws (Exports)', 'Trace_Expander'),
('C15', 'Includes resolve in order and act as if written in place',
 'A file is looked for next to the working directory and then in the include directories in the order given, with and without the source extension; the first that can be read is taken, and none is an error. Including source has the effect of writing its forms in place of the include, definitions included, at any depth; embedding a file yields its exact text.',
 ['configurations', 'programs'], 'all include paths, file layouts and nestings', SIX + '; no test reads a file.',
 [E, 'crates/seam/src/lib.rs'], [('search', 'Expander::expand_include_macro, expand_embed_macro, add_includes'), ('lifetime of included text', 'Expander::register_parser')], ['expanded tree', 'errors'],
 'MC_Laws (Inline)', 'Trace_Expander'),
('C16', 'Built-in macros reject arguments they do not understand',
 'A built-in macro called with too few or too many arguments, one of the wrong kind, an unknown option or an option value out of its set reports an error at the offending place; otherwise it takes every argument, in any interleaving of options and positional arguments, for what it is. Options have their documented defaults.',
 ['inputs', 'programs'], 'all argument lists of all built-in macros', SIX + '; no error is tested.',
 [M, E], [('argument specifications', 'macros.rs: ArgRules, arguments!, extract'), ('own checks', 'Expander::expand_*_macro')], ['success or error of expansion'],
 'MC_Args (Decides, Taken, Interleaves)', 'Trace_Expander'),
('C17', 'YAML, JSON and TOML become values and definitions faithfully',
 'A structured document becomes a value that has every mapping as a list of attributes, every sequence as a list, and every scalar with its text (numbers as numbers in TOML), in order; and every member, at any depth, is also defined under the path to it, joined by the separator. Malformed documents are errors; Markdown becomes HTML, and its front matter, in either notation, acts as such a document.',
 ['inputs'], 'all documents of these notations', SIX + '; no structured document is tested.',
 [E], [('conversion', 'expand_yaml, expand_toml'), ('front matter', 'Expander::expand_markdown_macro')], ['expanded tree', 'definitions'],
 'MC_Data (Complete, Addressable, Agree, Separated, InKeyOrder)', 'Trace_Expander'),
('C18', 'Dates and timestamps convert correctly, and back',
 'Formatting a time with a format and a time zone shows the calendar date and clock time of that moment at that offset, for all moments before and after 1970 including leap years and fractional-hour offsets; parsing a date yields the moment it denotes, an offset in the text taking precedence over the option. Formatting and then parsing by a format that shows date, time and offset (in whatever way: days of months, of years or of weeks, with 12 or 24 hours) is the identity; malformed formats, texts and offsets, and texts that contradict themselves, are errors.',
 ['inputs'], 'all moments, formats and offsets', 'The tests check two formats at a few moments with offsets of whole hours.',
 [E], [('date', 'Expander::expand_date_macro'), ('timestamp', 'Expander::expand_timestamp_macro')], ['expanded tree'],
 'MC_Calendar (Consecutive, Weeks, Determined, RoundTrip, Wins)', 'Trace_Expander'),
('C19', 'Formatting fills every placeholder from its argument',
 'Each placeholder of a format string is replaced by the argument it names, by position, by number or by name, padded, aligned and truncated as it says; all other text, doubled braces and the text of the arguments themselves are kept as they are. A placeholder without argument or a malformed format string is an error.',
 ['inputs'], 'all format strings and arguments', SIX + '; none formats.',
 [E], [('format', 'Expander::expand_format_macro')], ['expanded tree'],
 'MC_Format (Decided, Fills, Unused, Balanced)', 'Trace_Expander'),
('C20', 'Globbing lists exactly the matching paths, as ordered',
 'Globbing yields every existing path that matches the pattern and has the requested type, each once, and no other path; ordered by name, type, creation or modification time as requested, in the requested direction. Paths that differ in nothing but age, kind or depth are never confused; a malformed pattern is an error.',
 ['configurations', 'inputs'], 'all directory trees, patterns and options', SIX + '; no test reads a directory.',
 [E], [('glob', 'Expander::expand_glob_macro')], ['expanded tree'],
 'MC_Glob (Sound, Kinds, InOrder)', 'Trace_Expander'),
('C21', 'HTML output mirrors the tree and stays well-formed',
 'Each list becomes one element with its attributes and contents in order. Void elements have no closing tag, all others are closed by their name (in lower case), and nesting is that of the tree. White space between nodes is kept, except before the first node of an element on the same line. Text and attribute values are escaped so that they read back as exactly the text given; raw text is passed through unchanged. What cannot be an element is an error located where it stands: an empty list, a head that is no symbol, contents of a void element, an attribute after contents or with a value that is no atom.',
 ['inputs', 'programs'], 'all trees', SIX + '; none generates HTML elements.',
 [A + 'html.rs', A + 'xml.rs', A + 'mod.rs'], [('nodes', 'HTMLFormatter::generate_html_node'), ('escaping', 'escape_xml, display_attribute')], ['generated text'],
 'MC_Markup (Balanced, Escaped, Placed, Monotone)', 'Trace_Markup, target html'),
('C22', 'An HTML document gets exactly the scaffolding it lacks',
 'Generating a whole HTML document from a tree without a document type adds one. If the tree has no root element either, a root is added, and in it an empty head and a body exactly where the tree has none (looked for in its top-level elements and those directly inside of them). What is given is kept, once and in order, inside of the body that is added, except for a head that comes first. A tree with a document type is generated as it is, an empty tree becomes an empty page, and generating a fragment adds nothing.',
 ['inputs'], 'all trees, with and without each part', SIX + '; none generates a document.',
 [A + 'html.rs'], [('document', 'HTMLFormatter::document')], ['generated text'],
 'MC_Document (Complete, Rooted, Added, Ordered, Empty)', 'Trace_Markup, target html!'),
('C23', 'XML output mirrors the tree and stays well-formed',
 'Each list becomes one element with its attributes and contents in order, always closed by its name, and nesting is that of the tree. Text and attribute values are escaped so that they read back as the text given. Declarations and processing instructions show their words and attributes in order, and a document gets an XML declaration exactly if it does not start with one. Raw text between elements, attributes after contents, and values that are no atoms are errors located where they stand.',
 ['inputs', 'programs'], 'all trees', SIX + '; none generates XML.',
 [A + 'xml.rs', A + 'mod.rs'], [('nodes', 'XMLFormatter::generate_xml_node'), ('document', 'XMLFormatter::document')], ['generated text'],
 'MC_Markup (Balanced, Escaped, Placed, Monotone)', 'Trace_Markup, targets xml and xml!'),
('C24', 'CSS output has every rule, selector and property, balanced',
 'Each rule becomes its selectors, in order, followed by a block with each of its properties and values in order. Lists in values become calls of CSS functions (arguments separated by spaces, or by commas for rgba and hsla), parenthesised arithmetic, or else words in order; values that contain white space are quoted, as strings that CSS reads as the same text, and raw text is shown as it is. At-rules enclose their nested rules in one block or end in a semicolon; braces always balance, and what is no rule is an error located where it stands.',
 ['inputs', 'programs'], 'all trees', SIX + '; none generates CSS.',
 [A + 'css.rs'], [('rules', 'generate_css_rule, generate_special_selector'), ('values', 'convert_value, css_value')], ['generated text'],
 'MC_Css (Braces, Parens, InOrder, Errors, strings read back)', 'Trace_Markup, target css'),
('C25', 'S-expression output reads back as the same tree',
 'Writing an expanded tree as S-expressions and reading the result yields the same tree: the same structure, kinds, values and white space (if its names need no escapes and neighbouring words are separated). Plain text output is precisely the white space and values of the nodes in order, lists in their parentheses and attributes with their names, with the escapes of strings resolved and no quotes.',
 ['inputs', 'programs'], 'all trees', 'The tests compare S-expression output for trees of symbols and numbers only.',
 [A + 'sexp.rs', A + 'text.rs'], [('nodes', 'SExpFormatter::generate_node, PlainTextFormatter::generate_node')], ['generated text'],
 'MC_Sexp (RoundTrip, TextOf)', 'Trace_Markup, targets sexp and text; Trace_Sexp'),
('C26', 'Style, script, title, svg and preformatted text inside HTML keep their meaning',
 'Inside of HTML, the contents of a style element are generated as CSS rules (or are one string, shown as it is), the contents of a script as S-expression text, of title and textarea as plain text, none of it escaped, and those of svg and math as XML. Preformatted elements keep the source text of their contents, from the first node to the closing parenthesis, white space and comments included and macros not expanded. Everything around them is generated as usual.',
 ['inputs', 'programs'], 'all contents of these elements', SIX + '; none of these elements is tested.',
 [A + 'html.rs', A + 'css.rs', A + 'text.rs'], [('special tags', 'HTMLFormatter::generate_html_node, raw_text')], ['generated text'],
 'MC_Css and MC_Sexp (Embedded)', 'Trace_Markup, target html'),
('C27', 'Equal documents give equal results, and documents are independent',
 'Running the same document with the same files, environment and options yields the same tree, output, log and error every time, in the same process or another. Documents processed before or alongside it have no influence.',
 ['histories', 'schedules', 'configurations'], 'all histories of documents processed', SIX + '; each runs one document once.',
 [E, 'crates/seam/src/lib.rs'], [('no global state', 'Expander::new'), ('hash maps are never iterated into output', 'bind_list, expand_namespace_macro')], ['everything observable'],
 'MC_Many (Independent, Repeats, Separate)', 'Trace_Many: histories of several documents in several processes and threads'),
('C28', 'Every input ends in output or a located error',
 'Reading, expanding and generating end, for every finite document without unbounded recursion, with a result or with an error that has a place in a source and a message; they never crash the process, hang or corrupt memory. Bad documents, files that cannot be read and bad arguments are such errors.',
 ['inputs', 'programs', 'fault_sequences'], 'all documents, well-formed or not', SIX + '; all of them succeed.',
 [L, P, E, A + 'html.rs', A + 'xml.rs', A + 'css.rs'], [('error values instead of panics', 'LexError, ParseError, ExpansionError, GenerationError')], ['how processing ends'],
 'MC_System (Located, Shown0, Result0, OneStep, Terminates)', 'Trace_Total: every run ends in a final state of the specification'),
('C29', 'The command line does what its options say',
 'The program reads standard input if no file is named (or if asked to), and then each named file, and for each writes the text generated in the chosen format and a newline to standard output, as a whole document unless told not to, and exits with status 0; include options add search directories, in order. An unknown option, a missing file or a missing format is refused before anything is read; any error in an input ends the program with no output for that input, a message with the place of the error on standard error, and a nonzero exit status.',
 ['configurations', 'inputs', 'fault_sequences'], 'all combinations of options and inputs', SIX + '; the binary is never run.',
 ['crates/seam/src/bin.rs'], [('options', 'bin.rs main'), ('generation', 'generate_and_print')], ['stdout, stderr, exit status'],
 'MC_Cli (Exclusive, Separate, Mistake, NoTarget, Terminates)', 'Trace_Cli: recorded runs of the real binary'),
('C30', 'Log messages appear once, in order of evaluation',
 'Each log call that is expanded writes exactly one message with its arguments, in the order in which expansion reaches them; a call that is not expanded writes none. Logging produces no output, and logging or not does not change what is generated.',
 ['programs', 'histories'], 'all programs with log calls', SIX + '; none logs.',
 [E], [('log', 'Expander::expand_log_macro'), ('order of evaluation', 'expand_nodes')], ['standard error', 'expanded tree'],
 'MC_Session (Grows), MC_Laws (Logs)', 'Trace_Expander'),
('C31', 'An error report quotes its line and marks the place',
 'The report of every error, of reading, expanding or generating, shows the number and the whole text of the line the error begins on, below it tildes up to the place of the error and as many carets as the text it is about is wide on a terminal, and then the kind of error, the source, line and column, and what is wrong; if the error is in an included file then all of these are of that file. In colours nothing but escape sequences is added. The program writes exactly this report to standard error.',
 ['inputs', 'programs', 'configurations'], 'all documents with an error anywhere, under any source name', SIX + '; none of them fails.',
 [L, P, E, 'crates/seam/src/parse/tokens.rs', A + 'mod.rs', 'crates/seam/src/bin.rs'], [('reports', 'Display of LexError, ParseError, ExpansionError, GenerationError'), ('places', 'Site: line_slice, line_column, width')], ['message of the error', 'standard error'],
 'MC_Report (ItsLine, TwoRows, Below, Above, Known)', 'Trace_Report: recorded reports, plain and in colours, of the library and the binary'),
('C32', 'Trees are equal, shown and searched by what they are',
 'Two nodes are equal exactly if they are of the same kind and have the same value and equal contents in the same order, whatever their positions and white space; equal nodes have equal hashes, and copies equal their originals. What a node says of itself agrees with what was read: its kind, value, contents, position and white space, the number or word it stands for (an integer exactly if it is written as one and fits into 64 bits), and its text when shown, which is as written but with strings in escaped quotes. A search finds the first node in the order of the document, no deeper than the level given, of the kind and with the value asked for (a list by its first atom, the value of an attribute by its name, or an atom; in any case of letters if so asked), and nothing exactly if there is none.',
 ['inputs', 'programs'], 'all documents, all pairs of their nodes and all searches', SIX + '; none compares, shows or searches a tree.',
 [P, E], [('equality', 'PartialEq and Hash of ParseNode and Node'), ('accessors', 'ParseNode::atomic, list, attribute, into_value, ..'), ('showing', 'Display of ParseNode'), ('searching', 'SearchTree::search_node')], ['public methods of ParseNode and ParseTree'],
 'MC_Trees (equality is an equivalence; first and shallow enough; shown alike)', 'Trace_Trees: recorded facts, equalities and searches of the library'),
('C33', 'Looking ahead, copies and pieces read the same text',
 'A program that reads a document token by token or expression by expression gets exactly the tokens and expressions of the document, each once and in order, whatever it does in between: looking ahead says what comes and takes nothing, the end is reported exactly at the end, and a copy of a lexer or parser goes on from where the original was, neither affecting the other. A text that is read from a stream, from a file or given as it is means the same, under the name it came by, wherever the stream is cut into pieces, in the middle of characters too; interruptions make no difference, and a stream that breaks or bytes that are not UTF-8 are an error and never a part of a document.',
 ['inputs', 'histories', 'fault_sequences'], 'all texts, all sequences of operations on readers and their copies, all ways to cut a stream, all faults of it', SIX + '; each reads one whole text once.',
 [L, P, 'crates/seam/src/lib.rs'], [('one token at a time, with offsets kept in cells', 'Lexer::consume, peek, restore, eof, clone'), ('parsers on lexers', 'Parser::parse_expr, parse, clone'), ('sources', 'lib.rs: tree_builder, tree_builder_file, tree_builder_stream, parser_for_file')], ['public methods of Lexer and Parser', 'tree_builder, tree_builder_file, tree_builder_stream'],
 'MC_Stream (InOrder, Others, AllOfIt, Before0, decoding)', 'Trace_Stream: recorded operations and texts in pieces'),
('C34', 'Every way to generate gives the same text',
 'Whatever the format, all ways to generate text of a tree (as a string, printed, or into any writer) give the same text, as often as one asks, in any order, and from copies of the formatter after the original is gone; where one fails all fail, at the same place. A writer that fails after some amount of text has received exactly the beginning of that text, and the failure is reported: success is reported exactly if all of it was written.',
 ['inputs', 'histories', 'fault_sequences'], 'all expanded trees in every format, all sequences of generations, all points at which a writer fails', SIX + '; they only use display.',
 [A + 'mod.rs', A + 'html.rs', A + 'xml.rs', A + 'css.rs', A + 'sexp.rs', A + 'text.rs', 'crates/seam/src/lib.rs'], [('one trait for all formats', 'MarkupFormatter: generate, document, display'), ('copies', 'lib.rs: impl_clone_box!'), ('write errors', 'the ? operator on write!')], ['MarkupFormatter and Display, with any std::fmt::Write'],
 'MC_Writer (Beginning, Told, Tight, More, Document, Ends0)', 'Trace_Writer: recorded generations'),
('C35', 'A builder used piece by piece remembers what it did, and only that',
 'A program that expands the forms of a document one or several at a time, in any order and as often as it likes, gets for each what it means with everything that builder has defined so far; the forms one after the other yield, log and define precisely what the whole document does at once (which is read once), and what comes after a failure sees what was defined before it. A copy of a builder starts from what the original had defined and the directories it searches, and from then on neither affects the other; directories that are added are searched after those there already. What a builder has yielded stays as it was, whatever is done with it, or with its copies, later.',
 ['inputs', 'histories'], 'all documents, all sequences of operations on builders and their copies', SIX + '; each expands one whole document once, with a new builder.',
 [E, 'crates/seam/src/lib.rs'], [('definitions in a scope of the builder', 'Expander::definitions, insert_variable, get_variable'), ('subcontexts made for calls and dropped afterwards', 'Expander::create_subcontext, remove_subcontext'), ('shared included files', 'Expander::subparsers')], ['Expander::expand, expand_node, expand_nodes, add_includes, clone, get_source'],
 'MC_Steps (Pieces, Independent, Searched, Keeps)', 'Trace_Steps: recorded histories of builders'),
]

CLAIMED = sys.argv[1:] if len(sys.argv) > 1 else None


def claimed():
    """A property is claimed when check.py knows a check of it."""
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    import importlib
    mods = [importlib.import_module(m) for m in open(os.path.join(VERIF, 'lib', 'modules.txt')).read().split()]
    return {p[0] for p in PROPS if any(hasattr(m, p[0]) for m in mods)}


def main():
    have = claimed()
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, text, why, files, mech, obs, _, _) in PROPS:
            f.write(json.dumps({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                                'why_tests_cant': why,
                                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                            'observe_at': obs, 'hook_needed': None}}) + '\n')
    checks, rest = [], []
    for p in PROPS:
        if p[0] in have:
            checks.append({'property': p[0], 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p[0],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p[0],
                           'technique': 'TLA+ specification: %s checked with TLC; %s validates recorded runs of the real code' % (p[9], p[10]),
                           'level': 'model_checking',
                           'level_note': 'Bounded model checking of the specification, and conformance of the real code on exhaustive small and seeded random cases; no proof beyond those. Trusts TLC, rustc and the recording harness.'})
        else:
            rest.append({'property': p[0], 'reason': 'Check not built yet.'})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': rest,
         'notes': 'No hooks in /repo: everything is observed through the public API of the crate and the binary.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed;', [r['property'] for r in rest])


if __name__ == '__main__':
    main()
