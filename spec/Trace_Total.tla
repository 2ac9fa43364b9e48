---------------------------- MODULE Trace_Total ----------------------------
(* Every recorded run must have come to one of the ends in Total.            *)
(*   end: result, error, program (the program itself ended, with a status    *)
(*   and a message), or anything else (a crash, or no end at all)            *)
EXTENDS Total
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, verdict
vars == <<i, verdict>>
Ends(c) == CASE c.end = "result" -> TRUE
             [] c.end = "error" -> Place(c.srcs, c.p) /\ Message(c.srcs, c.p, c.msg)
             [] c.end = "program" -> c.status = 0 \/ (c.status = 1 /\ c.said)
             [] OTHER -> FALSE
Init == i \in 1..Len(Trace) /\ verdict = "run"
Next == /\ verdict = "run" /\ i' = i
        /\ verdict' = IF Ends(Trace[i]) THEN "ok" ELSE "bad"
        /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
