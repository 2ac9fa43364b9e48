-------------------------------- MODULE Glob --------------------------------
(* Patterns of paths, and the listings that they select from what is on      *)
(* disk.  A path is [path, parts, kind, age, born]: the names of its parts,  *)
(* its kind (dir, file, other: a pipe, socket or device, or dangling: a link *)
(* to nothing), and how long ago it was modified and created (as ranks: less *)
(* is newer).                                                                *)
EXTENDS Numbers

\* The tokens of one component of a pattern: character, any, some, class.
RECURSIVE Stars(_, _), GlobToks(_, _, _)
Stars(p, i) == IF i <= Len(p) /\ Ch(p, i) = "*" THEN Stars(p, i + 1) ELSE i
BadToks == [ok |-> FALSE, ts |-> <<>>]
GlobToks(p, i, out) ==
  IF i > Len(p) THEN [ok |-> TRUE, ts |-> out]
  ELSE LET c == Ch(p, i) IN
    CASE c = "?" -> GlobToks(p, i + 1, Append(out, [k |-> "any", v |-> ""]))
      [] c = "*" -> IF Stars(p, i) = i + 1 THEN GlobToks(p, i + 1, Append(out, [k |-> "some", v |-> ""])) ELSE BadToks
      [] c = "[" -> LET neg == i < Len(p) /\ Ch(p, i + 1) = "!"
                        from == IF neg THEN i + 2 ELSE i + 1
                        e == IndexFrom(p, "]", from + 1)        \* the first one of a class is not its end
                    IN IF e = 0 THEN BadToks
                       ELSE GlobToks(p, e + 1, Append(out, [k |-> IF neg THEN "except" ELSE "within", v |-> SubSeq(p, from, e - 1)]))
      [] OTHER -> GlobToks(p, i + 1, Append(out, [k |-> "char", v |-> c]))

RECURSIVE InClass(_, _)
InClass(c, s) ==
  IF s = "" THEN FALSE
  ELSE IF Len(s) >= 3 /\ Ch(s, 2) = "-"
       THEN (Code(Ch(s, 1)) <= Code(c) /\ Code(c) <= Code(Ch(s, 3))) \/ InClass(c, Drop(s, 3))
  ELSE Ch(s, 1) = c \/ InClass(c, Drop(s, 1))
TokFits(t, c) == CASE t.k = "char" -> t.v = c [] t.k = "any" -> TRUE
                   [] t.k = "within" -> InClass(c, t.v) [] OTHER -> ~InClass(c, t.v)
RECURSIVE NameFits(_, _)
NameFits(ts, s) ==
  IF ts = <<>> THEN s = ""
  ELSE IF ts[1].k = "some" THEN NameFits(Tail(ts), s) \/ (s # "" /\ NameFits(ts, Drop(s, 1)))
  ELSE s # "" /\ TokFits(ts[1], Ch(s, 1)) /\ NameFits(Tail(ts), Drop(s, 1))

\* A pattern: its components, whether it asks for directories, whether it is one at all.
RECURSIVE NoDots(_)
NoDots(cs) == IF Len(cs) > 1 /\ cs[1] = "." THEN NoDots(Tail(cs)) ELSE cs
Pattern(text) ==
  LET all == NoDots(Split(text, "/"))
      dirs == Len(all) > 1 /\ all[Len(all)] = ""
      cs == IF dirs THEN SubSeq(all, 1, Len(all) - 1) ELSE all
      One(c) == IF c = "**" THEN [ok |-> TRUE, deep |-> TRUE, ts |-> <<>>]
                ELSE LET t == GlobToks(c, 1, <<>>) IN [ok |-> t.ok, deep |-> FALSE, ts |-> t.ts]
      ps == TLCEval([i \in 1..Len(cs) |-> One(cs[i])])
  IN [ok |-> \A i \in 1..Len(ps) : ps[i].ok, ps |-> ps,
      dirs |-> dirs \/ ps[Len(ps)].deep,
      wild |-> \/ Len(ps) > 1 /\ ps[Len(ps) - 1].deep
               \/ ~ps[Len(ps)].deep /\ \E i \in 1..Len(ps[Len(ps)].ts) : ps[Len(ps)].ts[i].k # "char"]
RECURSIVE PathFits(_, _)
PathFits(ps, ss) ==
  IF ps = <<>> THEN ss = <<>>
  ELSE IF ps[1].deep
       THEN IF Len(ps) = 1 THEN ss # <<>>
            ELSE PathFits(Tail(ps), ss) \/ (ss # <<>> /\ PathFits(ps, Tail(ss)))
  ELSE ss # <<>> /\ NameFits(ps[1].ts, ss[1]) /\ PathFits(Tail(ps), Tail(ss))
Globs(p, f) == PathFits(p.ps, f.parts) /\ (p.dirs => f.kind = "dir")

RECURSIVE PartsLess(_, _)
PartsLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                   ELSE IF a[1] = b[1] THEN PartsLess(Tail(a), Tail(b)) ELSE StrLess(a[1], b[1])
Extension(f) == LET n == f.parts[Len(f.parts)]
                    dots == {i \in 2..Len(n) : Ch(n, i) = "."}
                IN IF dots = {} THEN <<>> ELSE <<Drop(n, CHOOSE i \in dots : \A j \in dots : j <= i)>>
PathLess(by, a, b) ==
  CASE by = "modified" -> IF a.age = b.age THEN PartsLess(a.parts, b.parts) ELSE a.age < b.age
    [] by = "created" -> IF a.born = b.born THEN PartsLess(a.parts, b.parts) ELSE a.born < b.born
    [] by = "type" -> IF (a.kind = "dir") # (b.kind = "dir") THEN a.kind = "dir"
                      ELSE LET x == Extension(a)  y == Extension(b) IN
                           IF x = y THEN PartsLess(a.parts, b.parts)
                           ELSE IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE ELSE StrLess(x[1], y[1])
    [] OTHER -> PartsLess(a.parts, b.parts)
\* Without a requested order the paths may come in any; they are in order of name here.
GlobPaths(x, text, type, by, order) ==
  LET p == TLCEval(Pattern(text))
      hit == SelectSeq(x.paths, LAMBDA f : Globs(p, f) /\ (p.wild \/ f.kind # "dangling"))
      kind == SelectSeq(hit, LAMBDA f : (type = "file" => f.kind = "file") /\ (type = "directory" => f.kind = "dir"))
      up == SortSeq(kind, LAMBDA a, b : PathLess(by, a, b))
      paths == [i \in 1..Len(up) |-> up[i].path]
  IN IF ~p.ok THEN [ok |-> FALSE, paths |-> <<>>]
     \* a dangling link that is found cannot be listed; one that is named does not exist
     ELSE IF p.wild /\ \E i \in 1..Len(hit) : hit[i].kind = "dangling" THEN [ok |-> FALSE, paths |-> <<>>]
     ELSE [ok |-> TRUE, paths |-> IF order = "ascending" THEN paths ELSE Reverse(paths)]
=============================================================================
