---------------------------- MODULE MC_Document ----------------------------
(* Every page made of a few parts: what is lacking is added once, what is    *)
(* given is kept, and in the order doctype, root, head, body.                *)
EXTENDS Markup
CONSTANT Bound
P0 == <<"mc", 0, 1, 0, 1>>
A(v) == [t |-> "y", v |-> v, w |-> "", p |-> P0]
E(k) == [t |-> "l", k |-> k, w |-> "", e |-> "", p |-> P0, q |-> P0]
Parts == <<E(<<A("!doctype"), A("html")>>), E(<<A("html")>>), E(<<A("HTML"), E(<<A("head")>>), E(<<A("body")>>)>>), E(<<A("head")>>), E(<<A("Head"), E(<<A("b")>>)>>),
           E(<<A("body")>>), E(<<A("BODY"), A("x")>>), A("z"), E(<<A("p"), A("x")>>), E(<<A("p"), E(<<A("head")>>)>>), E(<<A("p"), E(<<A("b"), E(<<A("body")>>)>>)>>)>>
VARIABLES ks, target
vars == <<ks, target>>
Init == ks = <<>> /\ target = "html!"
Next == Len(ks) < Bound /\ (\E k \in 1..Len(Parts) : ks' = Append(ks, k)) /\ UNCHANGED target
Spec == Init /\ [][Next]_vars
Tree == [k \in 1..Len(ks) |-> Parts[ks[k]]]
Out == ToLower(Generate("html!", Tree, <<>>).out)
Inner == ToLower(Generate("html", Tree, <<>>).out)
RECURSIVE Times(_, _)
Times(v, p) == LET i == Index(v, p) IN IF i = 0 THEN 0 ELSE 1 + Times(SubSeq(v, i + Len(p), Len(v)), p)
Tags == <<"<!doctype", "<html>", "<head>", "<body>">>
Given(k) == Times(Inner, Tags[k])
Made(k) == Times(Out, Tags[k])
TopDoctype == \E k \in 1..Len(ks) : ks[k] = 1
TopHtml == \E k \in 1..Len(ks) : ks[k] \in {2, 3}
Deep == \E k \in 1..Len(ks) : ks[k] = 11          \* too deep to be found

NonEmpty == ks # <<>>
\* With a doctype nothing is added; with a root, only the doctype.
Complete == NonEmpty /\ TopDoctype => Out = Inner
Rooted == NonEmpty /\ ~TopDoctype /\ TopHtml => Out = "<!doctype html>\n" \o Inner
\* Otherwise each part is added exactly if it is lacking.
Added == (NonEmpty /\ ~TopDoctype /\ ~TopHtml /\ ~Deep) =>
           \A k \in 1..4 : Made(k) = IF Given(k) = 0 THEN 1 ELSE Given(k)
\* In order, with all that was given inside of the body that was added, but for a head that comes first.
Ordered == (NonEmpty /\ ~TopDoctype /\ ~TopHtml) =>
           /\ StartsWith(Out, "<!doctype html>\n<html>\n") /\ EndsWith(Out, "\n</html>")
           /\ (Given(4) = 0) =>
                LET b == Index(Out, "<body>\n")
                    lead == ks[1] \in {4, 5}
                IN /\ EndsWith(Out, "\n</body>\n</html>")
                   /\ lead => Index(Out, "</head>") < b
                   /\ LET rest == ToLower(Generate("html", IF lead THEN Tail(Tree) ELSE Tree, <<>>).out)
                      IN SubSeq(Out, b + Len("<body>\n"), Len(Out) - Len("\n</body>\n</html>")) = rest
           /\ (Given(3) = 0) => Index(Out, "<head></head>\n") = Len("<!doctype html>\n<html>\n") + 1
Empty == ks = <<>> => Out = ToLower(EmptyHtml)
=============================================================================
