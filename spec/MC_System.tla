----------------------------- MODULE MC_System -----------------------------
(* Every text of a few pieces, from reading to generating, in every format.  *)
EXTENDS System
T == INSTANCE Total
CONSTANTS Pieces, Longest, Formats
VARIABLES n, text, target, m, doc, tree, log, out, p
vars == <<n, text, target, m, doc, tree, log, out, p>>

Letters(t) == [j \in 1..Len(t) |-> [c |-> Ch(t, j), b |-> 1, w |-> 1]]
Files0 == ("./q" :> Letters("x (%log q)\n(p\n  :k)")) @@ ("./r" :> Letters(" (%log r)%x")) @@ ("./s" :> Letters("\n s (%no)"))
X0 == Around(<<".">>, Files0, "//" :> "")

Init == n = 0 /\ text = "" /\ target \in Formats /\ m = "write" /\ doc = <<>> /\ tree = <<>> /\ log = <<>> /\ out = "" /\ p = <<>>
Write(t) == m = "write" /\ text' = text \o t /\ n' = n + 1 /\ UNCHANGED <<target, m, doc, tree, log, out, p>>
Reads == /\ m = "write" /\ UNCHANGED <<n, text, target, log, out, tree>>
         /\ doc' = Source("<stdin>", Letters(text))
         /\ m' = IF doc'.ok THEN "expand" ELSE "failed"
         /\ p' = doc'.p
Expands == /\ m = "expand" /\ UNCHANGED <<n, text, target, doc, out, p>>
           /\ LET r == ExpNodes(doc.tree, Fresh(X0)) IN
              m' = (IF r.ok THEN "generate" ELSE "unexpanded") /\ tree' = r.out /\ log' = r.st.log
Generates == /\ m = "generate" /\ UNCHANGED <<n, text, target, doc, tree, log>>
             /\ LET c == Compile(doc, target, X0) IN
                /\ m' = IF c.ok THEN "done" ELSE "failed"
                /\ out' = c.out /\ p' = c.p
Ended == m \in {"done", "failed", "unexpanded"}
Next == \/ \E t \in Pieces : n < Longest /\ Write(t)
        \/ Reads \/ Expands \/ Generates
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Srcs == [f \in DOMAIN Files0 \cup {"<stdin>"} |->
           LET t == IF f = "<stdin>" THEN Letters(text) ELSE Files0[f] IN
            [text |-> [j \in 1..Len(t) |-> <<t[j].c, j - 1, 1>>], size |-> Len(t)]]
\* An error has a place, and what is shown of it starts with what it is about.
Located == m = "failed" => T!Place(Srcs, p) /\ p[5] > 0
Shown0 == m = "failed" => LET s == T!Shows(Srcs, p) IN
            /\ Len(SelectSeq(Chars(s), LAMBDA c : c = NL)) = 2
            /\ HasChar(s, "^")
\* A result has no macros left, and was made from a text that can be read.
RECURSIVE Plain(_)
Plain(a) == CASE a.t = "y" -> ~StartsWith(a.v, "%") [] a.t = "l" -> \A k \in 1..Len(a.k) : Plain(a.k[k]) [] a.t = "a" -> Plain(a.n) [] OTHER -> TRUE
Result0 == m \in {"generate", "done"} => doc.ok /\ \A k \in 1..Len(tree) : Plain(tree[k])
\* Formats agree on what was read and expanded; compiling is all steps in one.
OneStep == Ended => LET c == Compile(Source("<stdin>", Letters(text)), target, X0) IN
             /\ c.ok = (m = "done") /\ c.out = out /\ c.p = p
             /\ c.log = log
Terminates == <>Ended
=============================================================================
