------------------------------- MODULE MC_Data -------------------------------
(* Documents that grow by one member at a time, anywhere: what they present. *)
EXTENDS Expander
CONSTANTS Keys, Values0, Largest, Sep
VARIABLES doc, size
vars == <<doc, size>>

Leaf == {[y |-> "s", v |-> v] : v \in Values0}
Empty == {[y |-> "map", e |-> <<>>], [y |-> "seq", e |-> <<>>]}
RECURSIVE Grown(_)
Grown(d) ==
  CASE d.y = "map" -> {[d EXCEPT !.e = Append(@, [k |-> k, v |-> v])] : k \in Keys, v \in Leaf \cup Empty}
                      \cup UNION {{[d EXCEPT !.e[i].v = g] : g \in Grown(d.e[i].v)} : i \in 1..Len(d.e)}
    [] d.y = "seq" -> {[d EXCEPT !.e = Append(@, v)] : v \in Leaf \cup Empty}
                      \cup UNION {{[d EXCEPT !.e[i] = g] : g \in Grown(d.e[i])} : i \in 1..Len(d.e)}
    [] OTHER -> {}
Init == doc \in Leaf \cup Empty /\ size = 1
Next == size < Largest /\ size' = size + 1 /\ doc' \in Grown(doc)
Spec == Init /\ [][Next]_vars

Site == <<"d", 0, 1, 0, 1>>
R == Present("yaml", doc, Sep, Site)
Value == R.nodes[1]

\* Everything that is in a document, with the ways to it, in order.
RECURSIVE Members(_, _)
Members(d, way) ==
  IF d.y \notin {"map", "seq"} THEN <<>>
  ELSE LET One(i) == LET w == Append(way, IF d.y = "map" THEN d.e[i].k ELSE ToString(i - 1))
                         m == IF d.y = "map" THEN d.e[i].v ELSE d.e[i]
                     IN <<[way |-> w, doc |-> m]>> \o Members(m, w)
       IN FlattenSeq([i \in 1..Len(d.e) |-> One(i)])
M == Members(doc, <<>>)
RECURSIVE Unique(_)
Unique(d) == CASE d.y = "map" -> /\ \A i, j \in 1..Len(d.e) : d.e[i].k = d.e[j].k => i = j
                                 /\ \A i \in 1..Len(d.e) : Unique(d.e[i].v)
               [] d.y = "seq" -> \A i \in 1..Len(d.e) : Unique(d.e[i])
               [] OTHER -> TRUE

\* A node says the same as a document.
RECURSIVE Says(_, _)
Says(n, d) ==
  CASE d.y = "map" -> n.t = "l" /\ Len(n.k) = Len(d.e)
                      /\ \A i \in 1..Len(d.e) : n.k[i].t = "a" /\ n.k[i].v = d.e[i].k /\ Says(n.k[i].n, d.e[i].v)
    [] d.y = "seq" -> n.t = "l" /\ Len(n.k) = Len(d.e) /\ \A i \in 1..Len(d.e) : Says(n.k[i], d.e[i])
    [] OTHER -> n.t = d.y /\ n.v = d.v
Complete == Len(R.nodes) = 1 /\ Says(Value, doc)
\* What is defined: each member, under the way to it, and nothing else.
Addressable ==
  /\ Len(R.defs) = Len(M)
  /\ {R.defs[i].name : i \in 1..Len(R.defs)} = {Join(M[i].way, Sep) : i \in 1..Len(M)}
  /\ Unique(doc) => \A i \in 1..Len(M) : \E j \in 1..Len(R.defs) :
       R.defs[j].name = Join(M[i].way, Sep) /\ Says(R.defs[j].node, M[i].doc)
\* Looking a member up in the value finds what is defined under its name.
Agree == Unique(doc) => \A i \in 1..Len(M) :
           LET g == GetFrom(M[i].way, 1, Value) IN g # <<>> /\ Says(g[1], M[i].doc)
\* White space separates what is side by side, and keys from their values.
RECURSIVE Spaced(_)
Spaced(n) == CASE n.t = "a" -> n.n.w # "" /\ Spaced(n.n)
               [] n.t = "l" -> \A i \in 1..Len(n.k) : (n.k[i].w = "") = (i = 1) /\ Spaced(n.k[i])
               [] OTHER -> TRUE
Separated == Spaced(Value)
\* TOML: the same, except for the order of the keys.
RECURSIVE Sorted(_)
Sorted(d) == CASE d.y = "map" -> /\ \A i, j \in 1..Len(d.e) : i < j => ~Before(d.e[j].k, d.e[i].k)
                                 /\ \A i \in 1..Len(d.e) : Sorted(d.e[i].v)
               [] d.y = "seq" -> \A i \in 1..Len(d.e) : Sorted(d.e[i])
               [] OTHER -> TRUE
InKeyOrder == LET o == Ordered(doc)  m == Members(o, <<>>) IN
              /\ Sorted(o) /\ Ordered(o) = o
              /\ Unique(doc) => \A i \in 1..Len(M) : \E j \in 1..Len(m) : m[j].way = M[i].way
              /\ Len(m) = Len(M)
=============================================================================
