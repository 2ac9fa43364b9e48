-------------------------------- MODULE Trees --------------------------------
(* Trees as the library's users see them: which are equal, what a node says  *)
(* of itself, how it is shown, and how one is found.                         *)
EXTENDS Numbers
LOCAL M == INSTANCE Markup

Atom(n) == n.t \in {"y", "n", "s", "r"}
Within(n) == CASE n.t = "l" -> n.k [] n.t = "a" -> <<n.n>> [] OTHER -> <<>>
\* All nodes of some trees, each before what it holds: <<node, depth>>.
RECURSIVE WalkFrom(_, _)
WalkFrom(ns, d) == FoldLeft(LAMBDA acc, n : acc \o <<<<n, d>>>> \o WalkFrom(Within(n), d + 1), <<>>, ns)
Walk(ns) == WalkFrom(ns, 1)
RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA acc, x : acc + Size(x), 0, Within(n))

\* Equality is of kinds and values: neither of places nor of white space.
RECURSIVE Alike(_, _)
Alike(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t = "l" -> Len(a.k) = Len(b.k) /\ \A j \in 1..Len(a.k) : Alike(a.k[j], b.k[j])
       [] a.t = "a" -> a.v = b.v /\ Alike(a.n, b.n)
       [] OTHER -> a.v = b.v

\* A node as it is shown.
Backslashed(v) == LET F(c) == IF c = CharOf(0) THEN BS \o "0" ELSE LET q == M!Quoted(c) IN SubSeq(q, 2, Len(q) - 1)
                  IN DQ \o MapChars(F, v) \o DQ
RECURSIVE Printed(_)
Printed(n) == CASE n.t = "l" -> n.w \o "(" \o FoldLeft(LAMBDA acc, x : acc \o Printed(x), "", n.k) \o n.e \o ")"
                [] n.t = "a" -> n.w \o ":" \o n.v \o Printed(n.n)
                [] n.t \in {"s", "r"} -> n.w \o Backslashed(n.v)
                [] OTHER -> n.w \o n.v

\* What a node says of itself.
TypeName(n) == CASE n.t = "y" -> "symbol" [] n.t = "n" -> "number" [] n.t = "s" -> "string" [] n.t = "r" -> "raw-content string"
                 [] n.t = "l" -> "list" [] n.t = "a" -> "attribute"
Is(n, what) == CASE what = "null" -> n.t = "l" /\ Len(n.k) = 0
                 [] what = "symbolic" -> n.t \in {"y", "n"}
                 [] what = "atomic" -> Atom(n)
                 [] what = "symbol" -> n.t = "y"
                 [] what = "number" -> n.t = "n"
                 [] what = "string" -> n.t \in {"s", "r"}
                 [] what = "list" -> n.t = "l"
                 [] what = "attribute" -> n.t = "a"
Kinds0 == <<"null", "symbolic", "atomic", "symbol", "number", "string", "list", "attribute">>
Value(n, what) == IF Is(n, what) THEN <<n.v>> ELSE <<>>
\* An integer of some bits, as text without a needless sign or zeros: most of it, and least without its sign.
\* What has no negative numbers has no minus sign either.
Widths == <<<<"9223372036854775807", "9223372036854775808">>, <<"18446744073709551615", "">>, <<"2147483647", "2147483648">>, <<"4294967295", "">>,
            <<"9223372036854775807", "9223372036854775808">>, <<"18446744073709551615", "">>>>
NotMore(d, most) == Len(d) < Len(most) \/ (Len(d) = Len(most) /\ ~StrLess(most, d))
Fixed(s, width) ==
  IF ~IsInteger(s) \/ (Negative(s) /\ width[2] = "") THEN <<>>
  ELSE LET d == NoZeros(Unsigned(s)) IN
       IF ~NotMore(d, width[IF Negative(s) THEN 2 ELSE 1]) THEN <<>>
       ELSE <<IF d = "" THEN "0" ELSE (IF Negative(s) THEN "-" ELSE "") \o d>>
Says(n, f) ==
  /\ f.type = TypeName(n)
  /\ f.yes = SelectSeq(Kinds0, LAMBDA what : Is(n, what))
  /\ f.atoms = <<Value(n, "symbolic"), Value(n, "string"), Value(n, "number"), Value(n, "symbol"), Value(n, "atomic"), Value(n, "atomic"), Value(n, "atomic")>>
  /\ LET z == IF n.t = "l" THEN Len(n.k) ELSE -1 IN f.sizes = <<z, z, z>> /\ f.kept
  /\ f.attribute = (IF n.t = "a" THEN <<n.v, Printed(n.n)>> ELSE <<>>)
  /\ f.int = [k \in 1..6 |-> IF n.t = "n" THEN Fixed(n.v, Widths[k]) ELSE <<>>]
  /\ f.float = (n.t = "n" /\ IsNumeral(n.v))
  /\ f.word = (IF n.t \in {"y", "s", "r"} THEN <<n.v>> ELSE <<>>)
  /\ f.p = <<n.p, n.p>>
  /\ f.w = n.w
  /\ f.shown = Printed(n)
  \* White space can be changed, which alters nothing else.
  /\ LET W == <<"<" \o CharOf(233) \o ">", "", " ", NL, "">> IN f.other = [k \in 1..5 |-> <<W[k], Printed([n EXCEPT !.w = W[k]]), TRUE>>]

------------------------------------------------------------------------------
(* Finding a node: q is [kind, value, any, level].  The answer is its number *)
(* in the order of Walk, or 0.                                               *)
Hits(q, low, kind, v) == q.kind \in {"any", kind} /\ (IF q.any THEN low[v] = low[q.value] ELSE v = q.value)
RECURSIVE FindIn(_, _, _, _, _), FindAt(_, _, _, _, _)
\* n is number at; what is below it follows.
FindAt(n, q, low, level, at) ==
  IF level = 0 THEN 0
  ELSE CASE n.t = "l" -> IF Len(n.k) > 0 /\ Atom(n.k[1]) /\ Hits(q, low, "head", n.k[1].v) THEN at
                         ELSE FindIn(n.k, q, low, level - 1, at + 1)
         [] n.t = "a" -> IF Hits(q, low, "attribute", n.v) THEN at + 1 ELSE FindAt(n.n, q, low, level - 1, at + 1)
         [] OTHER -> IF Hits(q, low, (CASE n.t = "y" -> "symbol" [] n.t = "n" -> "number" [] OTHER -> "string"), n.v) THEN at ELSE 0
FindIn(ns, q, low, level, at) ==
  IF level = 0 \/ ns = <<>> THEN 0
  ELSE LET r == FindAt(ns[1], q, low, level, at) IN
       IF r # 0 THEN r ELSE FindIn(Tail(ns), q, low, level, at + Size(ns[1]))
Find(tree, q, low) == IF q.from = 0 THEN FindIn(tree, q, low, q.level, 1)
                      ELSE LET all == Walk(tree) IN IF q.from > Len(all) THEN 0 ELSE FindAt(all[q.from][1], q, low, q.level, q.from)
=============================================================================
