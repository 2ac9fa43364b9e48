------------------------------- MODULE System -------------------------------
(* The whole of seam: from the text of a document to the text generated.     *)
(* A text is a sequence of characters [c, b, w] (see Reader).                *)
EXTENDS Expander
R == INSTANCE Reader
M == INSTANCE Markup

\* Trees as read, with the name of their source in every place.
RECURSIVE In(_, _)
In(name, n) ==
  CASE n.t = "l" -> [n EXCEPT !.p = <<name>> \o @, !.q = <<name>> \o @, !.k = TLCEval([j \in 1..Len(n.k) |-> In(name, n.k[j])])]
    [] n.t = "a" -> [n EXCEPT !.p = <<name>> \o @, !.n = In(name, @)]
    [] OTHER -> [n EXCEPT !.p = <<name>> \o @]
String(text) == Cat([j \in 1..Len(text) |-> text[j].c])
Offsets(text) == FoldLeft(LAMBDA a, ch : [n |-> a.n + ch.b, s |-> Append(a.s, <<ch.c, a.n>>)], [n |-> 0, s |-> <<>>], text).s
\* A document in a source: its text, and its forms if it can be read.
Source(name, text) ==
  LET r == R!Read(text) IN
  [name |-> name, ok |-> r.ok, text |-> String(text), offs |-> Offsets(text),
   tree |-> IF r.ok THEN TLCEval([j \in 1..Len(r.tree) |-> In(name, r.tree[j])]) ELSE <<>>,
   p |-> IF r.ok THEN <<>> ELSE <<name>> \o r.p]

\* The surroundings of a document.
Around(dirs, files, vars) ==
  [dirs |-> dirs, files |-> [f \in DOMAIN files |-> Source(f, files[f])], vars |-> vars, docs |-> <<>>, md |-> <<>>, paths |-> <<>>]

\* From a document to its generated text: [ok, out, log, stage, p].  An error has
\* a place; where an expansion fails is only known to be in some source.
Compile(doc, target, x) ==
  IF ~doc.ok THEN [ok |-> FALSE, out |-> "", log |-> <<>>, stage |-> "read", p |-> doc.p]
  ELSE LET r == ExpNodes(doc.tree, Fresh(x)) IN
       IF ~r.ok THEN [ok |-> FALSE, out |-> "", log |-> r.st.log, stage |-> "expand", p |-> <<>>]
       ELSE LET g == M!Generate(target, r.out, [f \in DOMAIN x.files \cup {doc.name} |-> IF f = doc.name THEN doc.offs ELSE x.files[f].offs]) IN
            IF g.err # <<>> THEN [ok |-> FALSE, out |-> "", log |-> r.st.log, stage |-> "generate", p |-> g.err[1]]
            ELSE [ok |-> TRUE, out |-> g.out, log |-> r.st.log, stage |-> "done", p |-> <<>>]
=============================================================================
