------------------------------- MODULE MC_Args -------------------------------
(* Every short list of arguments against every kind of specification of the  *)
(* arguments of a built-in macro.                                            *)
EXTENDS Args
CONSTANTS Longest
Y(v) == [t |-> "y", v |-> v]
A(v, n) == [t |-> "a", v |-> v, n |-> n]
Pool == <<Y("x"), [t |-> "n", v |-> "1"], [t |-> "s", v |-> "x"], [t |-> "r", v |-> "z"], [t |-> "l", k |-> <<>>, v |-> ""],
          A("o", Y("x")), A("o", [t |-> "n", v |-> "1"]), A("p", Y("y")), A("q", Y("x"))>>
Wants == <<Must("any"), Must("literal"), Must("number"), Must("symbol"), MustBe("symbol", {"x"}), Must("list"), Must("string")>>
Tails == <<May("number"), MayBe("literal", {"x"})>>
Positionals == {<<>>} \cup {<<Wants[k]>> : k \in 1..Len(Wants)}
               \cup {<<Wants[k], Wants[j]>> : k \in {1, 2, 5}, j \in {2, 3, 6}} \cup {<<Wants[k], Tails[j]>> : k \in {1, 2}, j \in {1, 2}}
Names == {NoNames, "o" :> May("literal"), "o" :> MayBe("symbol", {"x"}), ("o" :> May("number")) @@ ("p" :> MayBe("literal", {"x", "y"}))}

VARIABLES list, pos, named, rest
vars == <<list, pos, named, rest>>
Init == /\ list = <<>>
        /\ pos \in Positionals /\ named \in Names /\ rest \in {NoRest, "any", "literal"}
Next == /\ Len(list) < Longest /\ \E k \in 1..Len(Pool) : list' = Append(list, k)
        /\ UNCHANGED <<pos, named, rest>>
Spec == Init /\ [][Next]_vars

Given == [k \in 1..Len(list) |-> Pool[list[k]]]
R == Arguments(Given, pos, named, rest)
G == SelectSeq(Given, LAMBDA n : n.t # "a")
O == SelectSeq(Given, LAMBDA n : n.t = "a")
Least(a, b) == IF a < b THEN a ELSE b
\* Arguments are understood exactly if they say what was asked for.
Decides == R.ok <=>
  /\ Len(G) >= Cardinality({k \in 1..Len(pos) : pos[k].must})
  /\ \A k \in 1..Least(Len(G), Len(pos)) : Fits(G[k], pos[k])
  /\ Len(G) > Len(pos) => rest # NoRest /\ \A k \in (Len(pos) + 1)..Len(G) : HasKind(G[k], rest)
  /\ \A k \in 1..Len(O) : IF O[k].v \in DOMAIN named THEN Fits(O[k].n, named[O[k].v]) ELSE rest = "any"
\* Each of them is taken for what it is.
Taken == R.ok =>
  /\ R.pos = SubSeq(G, 1, Least(Len(G), Len(pos)))
  /\ SelectSeq(R.rest, LAMBDA n : n.t # "a") = SubSeq(G, Len(R.pos) + 1, Len(G))
  /\ SelectSeq(R.rest, LAMBDA n : n.t = "a") = SelectSeq(O, LAMBDA n : n.v \notin DOMAIN named)
  /\ DOMAIN R.named = {O[k].v : k \in 1..Len(O)} \cap DOMAIN named
  /\ \A name \in DOMAIN R.named : \E k \in 1..Len(O) : /\ O[k].v = name /\ O[k].n = R.named[name]
                                                       /\ \A j \in (k + 1)..Len(O) : O[j].v # name
\* Where options are written among the other arguments does not matter.
Interleaves == \A k \in 1..(Len(list) - 1) :
  (Given[k].t = "a") # (Given[k + 1].t = "a") =>
    LET S == Arguments([Given EXCEPT ![k] = Given[k + 1], ![k + 1] = Given[k]], pos, named, rest)
    IN S.ok = R.ok /\ (R.ok => S.pos = R.pos /\ S.named = R.named)
=============================================================================
