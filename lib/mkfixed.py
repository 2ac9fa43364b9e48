"""Write known_findings.json from the fix: commits of /repo."""
import json, os, subprocess
WHAT = [
 ('no longer hangs', 'C28', 'a backslash as last character of a document made the lexer loop for ever'),
 ('newlines inside strings', 'C04', 'a newline in a string or after a backslash was counted twice: lines after it were wrong'),
 ('escaped backslash in symbols', 'C03', 'a\\\\\\\\b lost its backslash'),
 ('first line of symbols', 'C04', 'a symbol with an escaped newline was located at its last line'),
 ('expands to nothing', 'C28', ':k (%define a b) panicked'),
 ('stable address', 'C28', 'nodes of invocations moved when the list of them grew (use after free)'),
 ('outlive the scope', 'C15', 'source included inside of a function or namespace was freed while its nodes were used'),
 ('named arguments in the order', 'C08', '&&rest received named arguments in hash order (C27 as well)'),
 ('total order', 'C12', 'sorting numbers among text used an inconsistent comparison: result unordered or panic'),
 ('bad formats and offsets', 'C18', '%date and %timestamp panicked on a malformed format or an offset of a day or more'),
 ('cannot stat', 'C20', '%glob panicked on a dangling symbolic link when sorting by time'),
 ('YAML aliases', 'C17', 'aliases and complex keys in YAML panicked'),
 ('tags with an empty name', 'C21', 'an element with an empty name produced < > markup, or panicked'),
 ('<pre> contents', 'C26', '<pre> with generated contents panicked'),
 ('without a selector', 'C24', 'a CSS rule without a selector panicked'),
 ('balance braces', 'C24', '@-rules without nested rules lacked a closing brace'),
 ('escape attribute values', 'C21', 'attribute values were not escaped: " & < in them broke the markup (C23 as well)'),
 ('items of XML declarations', 'C23', 'words of <?xml ..?> and <!..> ran together'),
 ('include directories', 'C15', 'include directories were searched in another order than given'),
 ('only exports', 'C14', '%namespace exported what had been defined before it as well'),
 ('containing dashes', 'C29', 'an option value or name with dashes in it was mangled'),
 ('misplaced braces', 'C19', '%format panicked on { } in wrong places and on huge widths'),
 ('containing braces', 'C19', 'arguments of %format that contain braces were taken for placeholders'),
 ('leading head stays', 'C22', 'a head given without a body was put inside of the body that is added'),
 ('null characters', 'C25', 'a null character before an octal digit was written so that it read back as another character'),
 ('without properties', 'C24', 'a rule without properties was an error'),
 ('impossible timezone offsets', 'C18', '%timestamp ignored an offset of a day or more in the text and took the option instead'),
 ('contradictory timezones', 'C18', '%timestamp took the timezone of the option for a moment and a date that contradict each other at the timezone given'),
 ('preformatted text is not doubled', 'C26', 'white space before the end of <pre> appeared twice'),
 ('literal [curly=open]', 'C19', 'the text [curly=open] in a format string or argument became a brace'),
 ('path more than once', 'C20', '%glob with several ** and no order listed paths repeatedly'),
 ('parts of a placeholder', 'C19', '%format ignored what it did not understand of a placeholder, as in {:5d}'),
 ('not valid Unicode are refused', 'C29', 'an argument that is not valid Unicode crashed the program'),
 ('cannot be read is named', 'C29', 'a directory or undecodable file as input was an error that named no file'),
 ('names what is missing in the same order', 'C27', 'an error of %format listed what is missing in another order each time'),
 ('only seems to start with frontmatter', 'C17', 'markdown that starts with a fence but has no frontmatter panicked, or lost its blocks (C28 as well)'),
 ('panic of the markdown crate', 'C28', 'the markdown crate panics on some texts'),
 ('escaped as CSS escapes', 'C24', 'control characters in quoted CSS values were written as Rust escapes, which CSS reads as other text'),
 ('errors far along a line', 'C28', 'reporting an error beyond column 65535, or about more than 65535 columns of text, crashed the program'),
 ('cloning a boxed formatter', 'C34', 'cloning a boxed formatter called itself until the stack overflowed'),
 ('leaves no copy of its scope', 'C35', 'each call that failed doubled the memory of the builder that went on'),
 ('named by its own character', 'C03', 'the error for an invalid escape named a character one further on (or ?), as characters were counted as bytes'),
 ('puts pipes, sockets', 'C20', ':sort type had no order for pipes, sockets and devices: folder < file < pipe < folder'),
 ('output that cannot be written', 'C28', 'the program crashed when its output could not be written'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.split('\n')
fixed = []
for line in reversed(log):
    if ' fix: ' not in line: continue
    c, s = line.split(' ', 1)
    hit = [w for w in WHAT if w[0] in s]
    assert len(hit) == 1, (s, hit)
    fixed.append('fixed: property=%s %s %s' % (hit[0][1], c, hit[0][2]))
assert len(fixed) == len(WHAT), (len(fixed), len(WHAT))
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
old = json.load(open(p)) if os.path.exists(p) else {'findings': []}
json.dump({'findings': old['findings'], 'fixed': fixed}, open(p, 'w'), indent=1)
