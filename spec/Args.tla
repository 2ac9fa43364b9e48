-------------------------------- MODULE Args --------------------------------
(* How the arguments of the built-in macros are checked.  A built-in asks    *)
(* for arguments by position and by name, each of some kind and perhaps with *)
(* one of a few values, and says whether further arguments may follow.       *)
EXTENDS Txt

Atomic(n) == n.t \in {"y", "n", "s", "r"}
\* The kinds are: literal, string, symbol, number, list, any.
HasKind(n, kind) == CASE kind = "any" -> TRUE
                      [] kind = "literal" -> n.t \in {"y", "n", "s", "r"}
                      [] kind = "string" -> n.t \in {"s", "r"}
                      [] kind = "symbol" -> n.t = "y"
                      [] kind = "number" -> n.t = "n"
                      [] kind = "list" -> n.t = "l"
Fits(n, want) == HasKind(n, want.kind) /\ (want.of # {} => n.v \in want.of)

Must(kind) == [kind |-> kind, of |-> {}, must |-> TRUE]
May(kind) == [kind |-> kind, of |-> {}, must |-> FALSE]
MustBe(kind, values) == [kind |-> kind, of |-> values, must |-> TRUE]
MayBe(kind, values) == [kind |-> kind, of |-> values, must |-> FALSE]
NoNames == [k \in {} |-> May("any")]
NoRest == ""

\* Where an argument goes: "pos", "named", "rest", or "bad".
Place(params, k, pos, named, rest) ==
  LET n == params[k]
      index == Cardinality({j \in 1..k : params[j].t # "a"})
  IN IF n.t = "a"
     THEN IF n.v \in DOMAIN named THEN IF Fits(n.n, named[n.v]) THEN "named" ELSE "bad"
          ELSE IF rest = "any" THEN "rest" ELSE "bad"
     ELSE IF index <= Len(pos) THEN IF Fits(n, pos[index]) THEN "pos" ELSE "bad"
          ELSE IF rest # NoRest /\ HasKind(n, rest) THEN "rest" ELSE "bad"

Arguments(params, pos, named, rest) ==
  LET place == TLCEval([k \in 1..Len(params) |-> Place(params, k, pos, named, rest)])
      At(what) == LET ks == SelectSeq([k \in 1..Len(params) |-> k], LAMBDA k : place[k] = what)
                  IN TLCEval([j \in 1..Len(ks) |-> params[ks[j]]])
      P == At("pos")
      N == At("named")
      needed == Cardinality({j \in 1..Len(pos) : pos[j].must})
  IN [ ok |-> (\A k \in 1..Len(params) : place[k] # "bad") /\ Len(P) >= needed,
       pos |-> P,
       \* of an option given twice, the last one counts
       named |-> TLCEval([name \in {N[j].v : j \in 1..Len(N)} |->
                    N[CHOOSE j \in 1..Len(N) : N[j].v = name /\ \A m \in (j + 1)..Len(N) : N[m].v # name].n]),
       rest |-> At("rest") ]
Option(args, name, default) == IF name \in DOMAIN args.named THEN args.named[name].v ELSE default
=============================================================================
