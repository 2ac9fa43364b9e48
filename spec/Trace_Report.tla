---------------------------- MODULE Trace_Report ----------------------------
(* Recorded reports of errors: by the library, plain and in colours, and by  *)
(* the program.                                                              *)
EXTENDS Report
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, verdict
vars == <<i, verdict>>
Shown1(c) == /\ Place(c.srcs, c.p)
             /\ LET U(v) == IF c.coloured THEN Uncolour(v, 1) ELSE v IN Reports(c.srcs, c.p, U(c.wrong), U(c.msg))     \* a report may quote another
Init == i \in 1..Len(Trace) /\ verdict = "run"
Next == /\ verdict = "run" /\ i' = i
        /\ verdict' = IF Shown1(Trace[i]) THEN "ok" ELSE "bad"
        /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
