-------------------------------- MODULE Data --------------------------------
(* What a YAML (JSON) or TOML document presents: a value made of nodes, and  *)
(* one definition for each thing in it, named by the way to it.              *)
(* A document is [y |-> "map", e |-> <<[k |-> name, v |-> document]...>>],   *)
(* [y |-> "seq", e |-> <<document...>>], or an atom [y |-> s, n or y, v].    *)
EXTENDS Txt

Qualified(prefix, name, sep) == Join(Append(prefix, name), sep)
ListNode(nodes, w, p) == [t |-> "l", k |-> nodes, w |-> w, e |-> "", p |-> p, q |-> p]
AttrNode(name, node, w, p) == [t |-> "a", v |-> name, n |-> node, w |-> w, p |-> p]

\* The value of d, preceded by w; and the definitions for what is inside of d.
RECURSIVE Shown(_, _, _, _, _), Entries(_, _, _, _, _, _)
Shown(d, prefix, sep, w, p) ==
  IF d.y \in {"map", "seq"}
  THEN LET r == Entries(d, 1, prefix, sep, p, [nodes |-> <<>>, defs |-> <<>>])
       IN [node |-> ListNode(r.nodes, w, p), defs |-> r.defs]
  ELSE [node |-> [t |-> d.y, v |-> d.v, w |-> w, p |-> p], defs |-> <<>>]
Entries(d, i, prefix, sep, p, acc) ==
  IF i > Len(d.e) THEN acc
  ELSE LET w == IF i = 1 THEN "" ELSE " "
           name == IF d.y = "map" THEN d.e[i].k ELSE ToString(i - 1)
           item == IF d.y = "map" THEN d.e[i].v ELSE d.e[i]
           r == Shown(item, Append(prefix, name), sep, IF d.y = "map" THEN " " ELSE w, p)
           node == IF d.y = "map" THEN AttrNode(name, r.node, w, p) ELSE r.node
       IN Entries(d, i + 1, prefix, sep, p,
            [nodes |-> Append(acc.nodes, node),
             defs |-> acc.defs \o r.defs \o <<[name |-> Qualified(prefix, name, sep), node |-> r.node]>>])

\* TOML tables are in the order of their keys.
RECURSIVE Ordered(_)
Rank == TLCEval([c \in {Table.low[k] : k \in 33..127} |-> CHOOSE k \in 33..127 : Table.low[k] = c])
Before(a, b) == IF \E i \in 1..Len(a) : i <= Len(b) /\ Ch(a, i) # Ch(b, i)
                THEN LET i == CHOOSE i \in 1..Len(a) : i <= Len(b) /\ Ch(a, i) # Ch(b, i) /\ \A j \in 1..(i - 1) : Ch(a, j) = Ch(b, j)
                     IN Rank[Ch(a, i)] < Rank[Ch(b, i)]
                ELSE Len(a) < Len(b)
Ordered(d) == CASE d.y = "map" -> [d EXCEPT !.e = SortSeq(TLCEval([i \in 1..Len(d.e) |-> [k |-> d.e[i].k, v |-> Ordered(d.e[i].v)]]),
                                                         LAMBDA a, b : Before(a.k, b.k))]
                [] d.y = "seq" -> [d EXCEPT !.e = TLCEval([i \in 1..Len(d.e) |-> Ordered(d.e[i])])]
                [] OTHER -> d

\* An empty document presents nothing.
Present(lang, doc, sep, p) ==
  IF doc.y = "none" THEN [nodes |-> <<>>, defs |-> <<>>]
  ELSE LET r == Shown(IF lang = "toml" THEN Ordered(doc) ELSE doc, <<>>, sep, "", p)
       IN [nodes |-> <<r.node>>, defs |-> r.defs]
=============================================================================
