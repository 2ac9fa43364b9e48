------------------------------ MODULE MC_Many ------------------------------
(* Documents of a few forms, taken form by form in every order, two or three *)
(* at a time: each ends as it would have on its own, and as it does the next *)
(* time.                                                                     *)
EXTENDS Many
CONSTANTS Bodies, Most, Rounds
VARIABLES s, done
vars == <<s, done>>
\* s: the documents that are under way; done: those that have ended.

Letters(t) == [j \in 1..Len(t) |-> [c |-> Ch(t, j), b |-> 1, w |-> 1]]
Files0 == ("./q" :> Letters("(%define x inc)(%log q)%x")) @@ ("./r" :> Letters("(%r"))
X0 == Around(<<".">>, Files0, "//" :> "")
Forms == [b \in Bodies |-> Source("<stdin>", Letters(b)).tree]

Init == s = <<>> /\ done = <<>>
Start == /\ Len(s) < Most /\ Len(s) + Len(done) < Rounds
         /\ \E b \in Bodies : s' = Append(s, [b |-> b, at |-> 0, st |-> Fresh(X0), out |-> <<>>, ok |-> TRUE]) /\ UNCHANGED done
Step(k) == /\ s[k].ok /\ s[k].at < Len(Forms[s[k].b])
           /\ LET r == ExpNode(Forms[s[k].b][s[k].at + 1], s[k].st) IN
              s' = [s EXCEPT ![k] = [b |-> @.b, at |-> @.at + 1, st |-> r.st, out |-> IF r.ok THEN @.out \o r.out ELSE <<>>, ok |-> r.ok]]
           /\ UNCHANGED done
Without(q, k) == [j \in 1..(Len(q) - 1) |-> IF j < k THEN q[j] ELSE q[j + 1]]
Over(d) == ~d.ok \/ d.at = Len(Forms[d.b])
End(k) == /\ Over(s[k])
          /\ done' = Append(done, [b |-> s[k].b, ok |-> s[k].ok, out |-> s[k].out, log |-> s[k].st.log])
          /\ s' = Without(s, k)
Next == Start \/ \E k \in 1..Len(s) : Step(k) \/ End(k)
Spec == Init /\ [][Next]_vars

Alone(b) == Expansion(Forms[b], X0)
\* Whatever happened before and alongside, a document ends as it would alone.
Independent == \A k \in 1..Len(done) : LET a == Alone(done[k].b) IN done[k].ok = a.ok /\ done[k].out = a.out /\ done[k].log = a.log
\* And it ends the same way each time.
Repeats == \A j, k \in 1..Len(done) : done[j].b = done[k].b => done[j] = done[k]
\* A step of one leaves the others as they are.
Separate == [][\/ /\ Len(s') = Len(s) + 1
                  /\ \A j \in 1..Len(s) : s'[j] = s[j]
               \/ /\ Len(s') = Len(s)
                  /\ \E k \in 1..Len(s) : \A j \in 1..Len(s) : j # k => s'[j] = s[j]
               \/ /\ Len(s') = Len(s) - 1
                  /\ \E k \in 1..Len(s) : s' = Without(s, k)]_vars
=============================================================================
