---------------------------- MODULE Trace_Markup ----------------------------
(* Every text the real code generates must be what Markup writes, item by    *)
(* item, from the same tree; and it must fail where Markup fails.            *)
EXTENDS Markup
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, verdict
vars == <<i, s, verdict>>
Init == i \in 1..Len(Trace) /\ s = MarkInit(Trace[i].target, Trace[i].tree) /\ verdict = "run"
Agrees(c) == IF c.ok THEN s.err = <<>> /\ s.out = c.out ELSE s.err = <<c.p>>
Next == LET c == Trace[i] IN
  /\ verdict = "run" /\ i' = i
  /\ IF s.todo # <<>>
     \* What was written never changes, so a text that differs already is not written any further.
     THEN IF c.ok /\ ~StartsWith(c.out, s.out)
          THEN PrintT("REJECT " \o ToString(i)) /\ verdict' = "bad" /\ s' = s
          ELSE s' = MarkStep(s, c.srcs) /\ verdict' = verdict
     ELSE /\ verdict' = IF Agrees(c) THEN "ok" ELSE "bad"
          /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i))
          /\ s' = s
Spec == Init /\ [][Next]_vars
Where == <<i, verdict, Len(s.todo), Len(s.out), s.err>>
=============================================================================
