------------------------------- MODULE MC_Sort -------------------------------
(* Sorting every short list of keys.                                         *)
EXTENDS Numbers
CONSTANTS Keys, Longest
VARIABLES list, up
vars == <<list, up>>
Init == list = <<>> /\ up \in BOOLEAN
Next == Len(list) < Longest /\ (\E k \in Keys : list' = Append(list, k)) /\ UNCHANGED up
Spec == Init /\ [][Next]_vars

Less0 == TLCEval([a \in Keys |-> [b \in Keys |-> KeyLess(KeyOf(a), KeyOf(b))]])
Before(a, b) == Less0[a][b]
Same(a, b) == ~Before(a, b) /\ ~Before(b, a)
Order == StableOrder(list, up)
N == Len(list)
Permutation == Len(Order) = N /\ {Order[i] : i \in 1..N} = 1..N
Ordered == \A i, j \in 1..N : i < j => ~(IF up THEN Before(list[Order[j]], list[Order[i]]) ELSE Before(list[Order[i]], list[Order[j]]))
Stable == \A i, j \in 1..N : (i < j /\ Same(list[Order[i]], list[Order[j]])) => Order[i] < Order[j]
\* Numbers come before everything else.
NumbersFirst == up => \A i, j \in 1..N : (i < j /\ IsNumberKey(list[Order[j]])) => IsNumberKey(list[Order[i]])
\* The order of the keys is total (up to keys of the same value).
Total == N # 3 \/ ~up \/
  LET a == list[1] b == list[2] c == list[3] IN
  /\ ~Before(a, a)
  /\ ~(Before(a, b) /\ Before(b, a))
  /\ (Before(a, b) /\ Before(b, c)) => Before(a, c)
  /\ (Same(a, b) /\ Same(b, c)) => Same(a, c)
  /\ Same(a, b) => (Before(a, c) = Before(b, c))
\* Sorting what is sorted changes nothing.
Idempotent == LET sorted == [i \in 1..N |-> list[Order[i]]] IN StableOrder(sorted, up) = [i \in 1..N |-> i]
=============================================================================
