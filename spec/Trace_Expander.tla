--------------------------- MODULE Trace_Expander ---------------------------
(* Every recorded run of the real expander must be a behaviour of Expander:  *)
(* a session that takes the top-level forms of a document one at a time.     *)
(* A case has the forms, the world, and what was observed after some of the  *)
(* prefixes of the forms: success, all output, all messages logged.          *)
EXTENDS Expander
Trace == ndJsonDeserialize(IOEnv.TRACE)
Level == IOEnv.LEVEL          \* plain or places
VARIABLES i, j, st, out, ok, verdict
vars == <<i, j, st, out, ok, verdict>>

RECURSIVE View(_)
View(n) == LET p == IF Level = "places" THEN n.p ELSE <<>> IN
  CASE n.t = "l" -> [t |-> "l", k |-> [m \in 1..Len(n.k) |-> View(n.k[m])], w |-> n.w, e |-> n.e, p |-> p,
                     q |-> IF Level = "places" THEN n.q ELSE <<>>]
    [] n.t = "a" -> [t |-> "a", v |-> n.v, n |-> View(n.n), w |-> n.w, p |-> p]
    [] OTHER -> [t |-> n.t, v |-> n.v, w |-> n.w, p |-> p]
Views(ns) == [m \in 1..Len(ns) |-> View(ns[m])]

\* Where an error is: in a known source, consistently, and not after the form that failed.
Line(text, off) == Cardinality({m \in 1..Len(text) : text[m][2] < off /\ text[m][1] = NL}) + 1
EndOf(n) == CASE n.t = "l" -> n.q[2] + n.q[5] [] OTHER -> n.p[2] + n.p[5]
RECURSIVE Close(_)
Close(n) == IF n.t = "a" THEN Close(n.n) ELSE EndOf(n)
ErrorPlace(c, o) ==
  /\ Len(o.p) = 5
  /\ o.p[1] = c.name => /\ o.p[2] + o.p[5] <= c.size
                        /\ o.p[3] = Line(c.text, o.p[2])
                        /\ o.p[2] < Close(c.forms[j])
  /\ o.p[1] # c.name => o.p[1] \in DOMAIN c.x.files

Agrees(c, o) ==
  /\ o.ok = ok
  /\ o.log = st.log
  /\ ok => Views(o.out) = Views(out)
  /\ (~ok /\ Level = "places") => ErrorPlace(c, o)

Init == i \in 1..Len(Trace) /\ j = 0 /\ st = Fresh(Trace[i].x) /\ out = <<>> /\ ok = TRUE /\ verdict = "run"
\* Observations: <<[at, ok, out, log, p]...>>
Good(c) == \A m \in 1..Len(c.obs) : c.obs[m].at = j => Agrees(c, c.obs[m])
Next == LET c == Trace[i] IN
  /\ verdict = "run"
  /\ IF ~Good(c)
     THEN /\ PrintT("REJECT " \o ToString(i) \o " at form " \o ToString(j))
          /\ verdict' = "bad" /\ UNCHANGED <<i, j, st, out, ok>>
     ELSE IF j = Len(c.forms)
     THEN verdict' = "ok" /\ UNCHANGED <<i, j, st, out, ok>>
     ELSE LET r == IF ok THEN ExpNode(c.forms[j + 1], st) ELSE Err(st) IN
          /\ j' = j + 1
          /\ ok' = r.ok
          /\ st' = r.st
          /\ out' = IF r.ok THEN out \o r.out ELSE <<>>
          /\ UNCHANGED <<i, verdict>>
Spec == Init /\ [][Next]_vars
Where == <<i, j, verdict>>
=============================================================================
