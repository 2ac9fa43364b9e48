------------------------------ MODULE MC_Trees -------------------------------
(* Trees that grow by one node at a time anywhere, and every way to search   *)
(* them: equality is what it should be, and what is found is the first that  *)
(* is looked for, as the list of nodes with their depths says.               *)
EXTENDS Trees
CONSTANTS Bound, Deep
P0 == <<"mc", 0, 1, 0, 1>>
Values == {"a", "A", "1"}
Spaces == {"", " "}
VARIABLE tree
Leaves == {[t |-> t, v |-> v, w |-> w, p |-> P0] : t \in {"y", "s"}, v \in {"a", "A"}, w \in Spaces} \cup {[t |-> "n", v |-> "1", w |-> "", p |-> P0], [t |-> "r", v |-> "a", w |-> "", p |-> P0]}
Lists == {[t |-> "l", k |-> <<>>, w |-> w, e |-> "", p |-> P0, q |-> P0] : w \in Spaces}
Att(n) == [t |-> "a", v |-> "a", n |-> n, w |-> " ", p |-> P0]
New == Leaves \cup Lists
\* A node added at the end of a list of nodes, at any depth: there are few of them, so that all positions come up.
RECURSIVE Grown(_, _), Grown1(_, _)
Grown1(n, d) == CASE n.t = "l" -> {[n EXCEPT !.k = x] : x \in Grown(n.k, d - 1)}
                  [] n.t = "a" -> {[n EXCEPT !.n = x] : x \in Grown1(n.n, d - 1)}
                  [] OTHER -> {}
Grown(ns, d) == IF d = 0 THEN {}
                ELSE {Append(ns, n) : n \in New} \cup {Append(ns, Att(n)) : n \in New}
                     \cup (IF ns = <<>> THEN {} ELSE {[ns EXCEPT ![Len(ns)] = x] : x \in Grown1(ns[Len(ns)], d)})
Init == tree = <<>>
Next == Len(Walk(tree)) < Bound /\ tree' \in Grown(tree, Deep)
Spec == Init /\ [][Next]_tree

All == Walk(tree)
N == Len(All)
Node0(j) == All[j][1]
Low == [s \in Values |-> IF s = "A" THEN "a" ELSE s]
Queries == [kind : {"any", "head", "member", "symbol", "number", "string", "attribute"}, value : Values, any : BOOLEAN, level : 0..(Deep + 1), from : {0}]
\* What answers a question, without recursion: numbers of nodes and what they give.
Equal(q, v) == IF q.any THEN Low[v] = Low[q.value] ELSE v = q.value
Answer(q, j) ==
  LET n == Node0(j) IN
  CASE n.t = "l" -> IF q.kind \in {"any", "head"} /\ Len(n.k) > 0 /\ Atom(n.k[1]) /\ Equal(q, n.k[1].v) THEN j ELSE 0
    [] n.t = "a" -> IF q.kind \in {"any", "attribute"} /\ Equal(q, n.v) THEN j + 1 ELSE 0
    [] n.t = "y" -> IF q.kind \in {"any", "symbol"} /\ Equal(q, n.v) THEN j ELSE 0
    [] n.t = "n" -> IF q.kind \in {"any", "number"} /\ Equal(q, n.v) THEN j ELSE 0
    [] OTHER -> IF q.kind \in {"any", "string"} /\ Equal(q, n.v) THEN j ELSE 0
FirstFound == \A q \in Queries :
  LET hits == {j \in 1..N : All[j][2] <= q.level /\ Answer(q, j) # 0} IN
  Find(tree, q, Low) = IF hits = {} THEN 0 ELSE Answer(q, CHOOSE j \in hits : \A x \in hits : j <= x)
\* From a node: as from a tree of only that.
FromNode == \A q \in {x \in Queries : x.level \in {1, Deep}}, j \in 1..N :
  LET r == Find(<<Node0(j)>>, q, Low) IN
  Find(tree, [q EXCEPT !.from = j], Low) = IF r = 0 THEN 0 ELSE r + j - 1
Nothing == \A q \in Queries : (q.level = 0 \/ q.kind = "member") => Find(tree, q, Low) = 0
Deeper == \A q \in Queries : LET r == Find(tree, q, Low) IN (r # 0 /\ q.level <= Deep) => Find(tree, [q EXCEPT !.level = @ + 1], Low) # 0

\* Equality: of trees without their spaces and places.
RECURSIVE Bare(_)
Bare(n) == CASE n.t = "l" -> <<"l", [k \in 1..Len(n.k) |-> Bare(n.k[k])]>> [] n.t = "a" -> <<"a", n.v, Bare(n.n)>> [] OTHER -> <<n.t, n.v>>
Equality == \A a, b \in 1..N : Alike(Node0(a), Node0(b)) <=> Bare(Node0(a)) = Bare(Node0(b))
Equivalence == \A a, b, c \in 1..N : /\ Alike(Node0(a), Node0(a))
                                     /\ Alike(Node0(a), Node0(b)) => Alike(Node0(b), Node0(a))
                                     /\ Alike(Node0(a), Node0(b)) /\ Alike(Node0(b), Node0(c)) => Alike(Node0(a), Node0(c))
\* A node is of one type; what is symbolic or a string is atomic, and so on.
OneType == \A j \in 1..N : LET n == Node0(j) IN
  /\ Cardinality({w \in {"symbol", "number", "string", "list", "attribute"} : Is(n, w)}) = 1
  /\ Is(n, "atomic") <=> Is(n, "symbolic") \/ Is(n, "string")
  /\ Is(n, "null") => Is(n, "list")
\* What is shown is the parts in order.
Size0 == N = FoldLeft(LAMBDA acc, n : acc + Size(n), 0, tree)
InOrder == \A j \in 1..N : LET n == Node0(j)  s == Printed(n) IN
  /\ StartsWith(s, n.w)
  /\ \A x \in 1..Len(Within(n)) : Index(s, Printed(Within(n)[x])) # 0
  /\ Printed([n EXCEPT !.w = "  "]) = "  " \o Drop(s, Len(n.w))
Int64(s) == Fixed(s, Widths[1])
Numbers64 == /\ Int64("9223372036854775807") # <<>> /\ Int64("9223372036854775808") = <<>> /\ Int64("-9223372036854775808") # <<>>
             /\ Int64("-9223372036854775809") = <<>> /\ Int64("-00") = <<"0">> /\ Int64("+007") = <<"7">> /\ Int64("1.0") = <<>> /\ Int64("+") = <<>>
             /\ Int64("00009223372036854775808") = <<>>
             /\ Fixed("-0", Widths[4]) = <<>> /\ Fixed("+0", Widths[4]) = <<"0">> /\ Fixed("4294967295", Widths[4]) # <<>> /\ Fixed("4294967296", Widths[4]) = <<>>
             /\ Fixed("-2147483648", Widths[3]) = <<"-2147483648">> /\ Fixed("2147483648", Widths[3]) = <<>>
ASSUME Numbers64
=============================================================================
