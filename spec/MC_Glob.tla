------------------------------- MODULE MC_Glob -------------------------------
(* Directory trees that grow and are touched, one step at a time: what every *)
(* pattern lists of them.                                                    *)
EXTENDS Glob
CONSTANTS Names, Patterns, Most
VARIABLES tree, clock
vars == <<tree, clock>>

\* tree: the paths, in the order in which they were made
Entry(parts, kind) == [path |-> Join(parts, "/"), parts |-> parts, kind |-> kind, age |-> 0 - clock, born |-> 0 - clock]
Dirs == {<<>>} \cup {tree[i].parts : i \in {j \in 1..Len(tree) : tree[j].kind = "dir"}}
Taken(parts) == \E i \in 1..Len(tree) : tree[i].parts = parts
Make == /\ Len(tree) < Most
        /\ \E d \in Dirs, n \in Names, k \in {"dir", "file", "other"} :
             (k = "other" => n = "ab") /\
             ~Taken(Append(d, n)) /\ tree' = Append(tree, Entry(Append(d, n), k))
        /\ clock' = clock + 1
\* Several paths may be of one age.
Touch == /\ clock <= Most
         /\ \E i \in 1..Len(tree), same \in BOOLEAN : tree' = [tree EXCEPT ![i].age = 0 - (IF same THEN clock - 1 ELSE clock)]
         /\ clock' = clock + 1
Init == tree = <<>> /\ clock = 1
Next == Make \/ Touch
Spec == Init /\ [][Next]_vars

X == [paths |-> tree]
Types == {"file", "directory", "any"}
Sorts == {"modified", "created", "name", "type"}
Orders == {"ascending", "descending"}
L(p, type, by, order) == GlobPaths(X, p, type, by, order)

\* What a walk through the tree finds, matching names by the set of tokens reached.
Reached(ts, name) ==
  LET Skip(S) == S \cup {j \in 2..(Len(ts) + 1) : \E i \in S : i < j /\ \A k \in i..(j - 1) : ts[k].k = "some"}
      Step(S, c) == Skip({i \in 1..(Len(ts) + 1) : \/ i \in S /\ i <= Len(ts) /\ ts[i].k = "some"
                                                   \/ i > 1 /\ (i - 1) \in S /\ ts[i - 1].k # "some" /\ TokFits(ts[i - 1], c)})
  IN FoldLeft(LAMBDA S, c : Step(S, c), Skip({1}), Chars(name))
Children(at) == {f \in {tree[i] : i \in 1..Len(tree)} : Len(f.parts) = Len(at) + 1 /\ SubSeq(f.parts, 1, Len(at)) = at}
RECURSIVE Walk(_, _)
Walk(ps, at) ==
  IF ps = <<>> THEN {at}
  ELSE IF ps[1].deep
       THEN UNION {{c.parts : x \in {y \in {1} : Len(ps) = 1}} \cup Walk(ps, c.parts) : c \in {d \in Children(at) : d.kind = "dir"}}
            \cup (IF Len(ps) = 1 THEN {} ELSE Walk(Tail(ps), at))
  ELSE UNION {Walk(Tail(ps), c.parts) : c \in {d \in Children(at) : Len(ps[1].ts) + 1 \in Reached(ps[1].ts, d.parts[Len(d.parts)])}}
IsDir(parts) == \E i \in 1..Len(tree) : tree[i].parts = parts /\ tree[i].kind = "dir"
Found(p) == LET q == Pattern(p) IN {Join(w, "/") : w \in {v \in Walk(q.ps, <<>>) : q.dirs => IsDir(v)}}

At(path) == tree[CHOOSE i \in 1..Len(tree) : tree[i].path = path]
Sound == \A p \in Patterns : LET r == L(p, "any", "name", "ascending") IN
           r.ok /\ ToSet(r.paths) = Found(p) /\ Len(r.paths) = Cardinality(Found(p))
Kinds == \A p \in Patterns, by \in Sorts :
           LET Of(t) == L(p, t, by, "ascending").paths IN
           /\ ToSet(Of("file")) \cap ToSet(Of("directory")) = {}
           /\ SelectSeq(Of("any"), LAMBDA f : f \in ToSet(Of("directory"))) = Of("directory")
           /\ SelectSeq(Of("any"), LAMBDA f : f \in ToSet(Of("file"))) = Of("file")
           /\ Len(Of("any")) = Len(Of("file")) + Len(Of("directory")) + Cardinality({f \in ToSet(Of("any")) : At(f).kind = "other"})
InOrder == \A p \in Patterns, by \in Sorts :
             LET r == L(p, "any", by, "ascending").paths IN
             /\ \A i, j \in 1..Len(r) : i < j =>
                  LET a == At(r[i]) b == At(r[j]) IN
                  CASE by = "modified" -> a.age <= b.age
                    [] by = "created" -> a.born < b.born
                    [] by = "type" -> (b.kind = "dir" => a.kind = "dir")
                    [] OTHER -> TRUE
             /\ L(p, "any", by, "descending").paths = Reverse(r)
=============================================================================
