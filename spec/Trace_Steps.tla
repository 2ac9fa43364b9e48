----------------------------- MODULE Trace_Steps -----------------------------
(* Every recorded history of builders must be a behaviour of Steps: what each *)
(* operation yields and logs, one after the other; and what they yielded is   *)
(* still what it was when all of it is over.                                  *)
EXTENDS Steps
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, s, verdict
vars == <<i, j, s, verdict>>

RECURSIVE View(_)
View(n) == CASE n.t = "l" -> [t |-> "l", k |-> [m \in 1..Len(n.k) |-> View(n.k[m])], w |-> n.w, e |-> n.e, p |-> n.p, q |-> n.q]
             [] n.t = "a" -> [t |-> "a", v |-> n.v, n |-> View(n.n), w |-> n.w, p |-> n.p]
             [] OTHER -> [t |-> n.t, v |-> n.v, w |-> n.w, p |-> n.p]
Views(ns) == [m \in 1..Len(ns) |-> View(ns[m])]

Init == i \in 1..Len(Trace) /\ j = 0 /\ s = StepsInit(Trace[i].x) /\ verdict = "run"
\* The messages of an operation are those its builder has now and had not before.
New(a, b) == SubSeq(b.at[a.cur].log, Len(a.at[a.cur].log) + 1, Len(b.at[a.cur].log))
Agrees(o, y, a, b) == /\ o.ok = y.ok
                      /\ y.ok => Views(o.out) = Views(y.out)
                      /\ o.log = New(a, b)
                      /\ o.kept
Next == LET c == Trace[i] IN
  /\ verdict = "run"
  /\ IF j = Len(c.ops) THEN verdict' = "ok" /\ UNCHANGED <<i, j, s>>
     ELSE LET y == StepOp(s, c.forms, c.ops[j + 1]) IN
          IF Agrees(c.outs[j + 1], y[1], s, y[2])
          THEN j' = j + 1 /\ s' = y[2] /\ UNCHANGED <<i, verdict>>
          ELSE /\ PrintT("REJECT " \o ToString(i) \o " at operation " \o ToString(j + 1))
               /\ verdict' = "bad" /\ UNCHANGED <<i, j, s>>
Spec == Init /\ [][Next]_vars
Where == <<i, j, verdict>>
=============================================================================
