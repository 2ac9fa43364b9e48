------------------------------ MODULE MC_Markup ------------------------------
(* Every tree of a few nodes, written one item at a time as HTML and as XML: *)
(* at each step what is open is what is still to be closed, and at the end   *)
(* the text read by a scanner that knows nothing of the tree says what the   *)
(* tree says.                                                                *)
EXTENDS Markup
CONSTANTS Top, Depth, Kids, Ends0
P0 == <<"mc", 0, 1, 0, 1>>
A(t, v, w) == [t |-> t, v |-> v, w |-> w, p |-> P0]
At(v, n, w) == [t |-> "a", v |-> v, n |-> n, w |-> w, p |-> P0]
L(k, w, e) == [t |-> "l", k |-> k, w |-> w, e |-> e, p |-> P0, q |-> P0]

Leaves == {A("y", "x", " "), A("s", "<p>&" \o DQ \o "'", "\n ")}
Attrs == {<<>>, <<At("k", A("s", ">" \o DQ \o "<&", " "), " ")>>, <<At("k", A("y", "v", " "), ""), At("l", A("n", "1", " "), "\n")>>}
Heads == {"p", "BR", "svg", "!d", "?x"}
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
RECURSIVE Nodes(_)
Nodes(d) == IF d = 0 THEN Leaves
            ELSE Leaves \cup {L(<<A("y", h, "")>> \o a \o k, " ", e) :
                              h \in Heads, a \in Attrs, k \in SeqsUpTo(Nodes(d - 1), Kids), e \in Ends0}
Odd == {L(<<>>, " ", ""), L(<<A("s", "p", "")>>, "", ""), L(<<A("y", "p", ""), At("k", L(<<>>, "", ""), " ")>>, "", ""), At("k", A("y", "v", " "), " "), A("r", "<b>", " ")}
Pool == Nodes(Depth) \cup Odd

VARIABLES m, tree, s
vars == <<m, tree, s>>
Init == m \in {"html", "xml"} /\ tree = <<>> /\ s = MarkInit(m, <<>>)
Grow == /\ s.todo = <<>> /\ s.err = <<>> /\ Len(tree) < Top
        /\ \E n \in Pool : /\ tree' = Append(tree, n)
                           /\ s' = [s EXCEPT !.todo = Items(m, <<n>>)]
        /\ m' = m
Write == s.todo # <<>> /\ s' = MarkStep(s, <<>>) /\ UNCHANGED <<m, tree>>
Next == Grow \/ Write
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* A scanner of tags: what is open, the text, and the attributes.
ScanInit == [at |-> "text", name |-> "", key |-> "", val |-> "", open |-> <<>>, text |-> "", attrs |-> <<>>, ok |-> TRUE]
InXml(z) == m = "xml" \/ \E k \in 1..Len(z.open) : z.open[k] = "svg"
NameOf(z, name) == IF InXml(z) THEN name ELSE ToLower(name)
Opened(z) == LET n == NameOf(z, z.name) IN
  IF Ch(n, 1) = "!" \/ (InXml(z) /\ Ch(n, 1) = "?") \/ (~InXml(z) /\ n \in Void) THEN [z EXCEPT !.at = "text", !.name = ""]
  ELSE [z EXCEPT !.at = "text", !.name = "", !.open = Append(@, n)]
Closed(z) == LET n == Drop(z.name, 1)  top == IF z.open = <<>> THEN "" ELSE z.open[Len(z.open)] IN
  [z EXCEPT !.at = "text", !.name = "", !.ok = @ /\ n = top, !.open = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1)]
Ends(z) == IF StartsWith(z.name, "/") THEN Closed(z) ELSE Opened(z)
Scan1(z, c) ==
  CASE z.at = "text" -> IF c = "<" THEN [z EXCEPT !.at = "name"] ELSE [z EXCEPT !.text = @ \o c, !.ok = @ /\ c \notin {">", DQ, "'"}]
    [] z.at = "name" -> IF c = ">" THEN Ends(z) ELSE IF c \in Ws THEN [z EXCEPT !.at = "key", !.key = ""] ELSE [z EXCEPT !.name = @ \o c]
    [] z.at = "key" -> CASE c = ">" -> Ends(z)
                         [] c \in Ws -> [z EXCEPT !.key = ""]
                         [] c = "=" -> [z EXCEPT !.at = "quote"]
                         [] OTHER -> [z EXCEPT !.key = @ \o c]
    [] z.at = "quote" -> [z EXCEPT !.at = "val", !.val = "", !.ok = @ /\ c = DQ]
    [] z.at = "val" -> IF c = DQ THEN [z EXCEPT !.at = "key", !.key = "", !.attrs = Append(@, <<z.key, z.val>>)]
                       ELSE [z EXCEPT !.val = @ \o c, !.ok = @ /\ c # "<"]
Scan(text) == FoldLeft(Scan1, ScanInit, Chars(text))

RECURSIVE Decode(_)
Entities == <<<<"&lt;", "<">>, <<"&gt;", ">">>, <<"&quot;", DQ>>, <<"&apos;", "'">>, <<"&amp;", "&">>>>
Decode(v) == IF v = "" THEN ""
             ELSE LET es == {k \in 1..5 : StartsWith(v, Entities[k][1])} IN
                  IF es # {} THEN LET e == Entities[CHOOSE k \in es : TRUE] IN e[2] \o Decode(Drop(v, Len(e[1])))
                  ELSE IF Ch(v, 1) = "&" THEN "MALFORMED" ELSE Ch(v, 1) \o Decode(Drop(v, 1))
Bare(v) == MapChars(LAMBDA c : IF c \in Ws THEN "" ELSE c, v)

\* What the tree says: its text, and its attributes, in order.
RECURSIVE Says(_), SaysAll(_), Has1(_), HasAll(_)
Quiet(n) == Ch(n.k[1].v, 1) = "!" \/ (Ch(n.k[1].v, 1) = "?" /\ m = "xml")
Says(n) == CASE n.t = "l" -> IF Ch(n.k[1].v, 1) \in {"!", "?"} THEN "" ELSE SaysAll(Tail(n.k))
             [] n.t = "a" -> ""
             [] OTHER -> n.v
SaysAll(ns) == Cat([k \in 1..Len(ns) |-> Says(ns[k])])
Has1(n) == CASE n.t = "l" -> HasAll(Tail(n.k)) [] n.t = "a" -> <<<<n.v, n.n.v>>>> [] OTHER -> <<>>
HasAll(ns) == FoldLeft(LAMBDA a, n : a \o Has1(n), <<>>, ns)
RECURSIVE Mentions(_, _)
Mentions(n, h) == n.t = "l" /\ n.k # <<>> /\ (n.k[1].v = h \/ \E k \in 1..Len(n.k) : Mentions(n.k[k], h))

Closers == LET cs == SelectSeq(s.todo, LAMBDA it : it.i = "close") IN [k \in 1..Len(cs) |-> cs[Len(cs) + 1 - k].tag]
Z == Scan(s.out)
Simple1(n) == ~Mentions(n, "?x") /\ ~Mentions(n, "!d") /\ n.t # "r"
\* What is open is what is still to be closed.
Balanced == (s.err = <<>> /\ \A k \in 1..Len(tree) : tree[k].t # "r") => Z.ok /\ Z.at = "text" /\ Z.open = Closers
\* Text and attributes read back as given.
Escaped == (s.err = <<>> /\ s.todo = <<>> /\ \A k \in 1..Len(tree) : Simple1(tree[k])) =>
             /\ Bare(Decode(Z.text)) = Bare(SaysAll(tree))
             /\ LET want == HasAll(tree) IN /\ Len(Z.attrs) = Len(want)
                                           /\ \A k \in 1..Len(want) : Z.attrs[k][1] = want[k][1] /\ Decode(Z.attrs[k][2]) = want[k][2]
\* Every failure is at some node.
Placed == s.err # <<>> => s.err = <<P0>>
\* What was written stays written.
Monotone == [][s'.err = <<>> => StartsWith(s'.out, s.out)]_vars
=============================================================================
