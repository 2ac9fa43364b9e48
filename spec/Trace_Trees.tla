----------------------------- MODULE Trace_Trees -----------------------------
(* What the library says of the nodes of recorded trees, which it says are   *)
(* equal, and what it finds.                                                 *)
EXTENDS Trees
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, verdict
vars == <<i, verdict>>
Right(c) ==
  LET all == TLCEval(Walk(c.tree))
      N == Len(all)
      low == [s \in {c.low[k][1] : k \in 1..Len(c.low)} |-> c.low[CHOOSE k \in 1..Len(c.low) : c.low[k][1] = s][2]]
      same == TLCEval([a \in 1..N |-> {b \in 1..N : Alike(all[a][1], all[b][1])}])
  IN /\ Len(c.facts) = N /\ \A a \in 1..N : Says(all[a][1], c.facts[a])
     /\ Len(c.same) = N /\ \A a \in 1..N : {c.same[a][k] : k \in 1..Len(c.same[a])} = same[a]
     \* Equal nodes have equal hashes; others, as good as always, different ones.
     /\ Len(c.hash) = N /\ \A a \in 1..N : c.hash[a] = CHOOSE b \in same[a] : \A x \in same[a] : b <= x
     /\ c.copy
     /\ \A k \in 1..Len(c.finds) : Find(c.tree, c.finds[k], low) = c.found[k]
Init == i \in 1..Len(Trace) /\ verdict = "run"
Next == /\ verdict = "run" /\ i' = i
        /\ verdict' = IF Right(Trace[i]) THEN "ok" ELSE "bad"
        /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
