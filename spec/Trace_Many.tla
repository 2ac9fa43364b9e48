----------------------------- MODULE Trace_Many -----------------------------
(* Recorded histories of several processes that took several documents, one  *)
(* after another, in between each other, and at once.  What was seen first of *)
(* a document must be what Expander says of it (of those in its scope), and  *)
(* must be seen again every other time, in every other process.              *)
(*   docs: [forms, known]; ops: [op, k, target, ok, out, text, log, mixed,   *)
(*   all], where all is everything else that was seen.                       *)
EXTENDS Many
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, live, seen, verdict
vars == <<i, j, live, seen, verdict>>

RECURSIVE View(_)
View(n) ==
  CASE n.t = "l" -> [t |-> "l", k |-> [m \in 1..Len(n.k) |-> View(n.k[m])], w |-> n.w, e |-> n.e]
    [] n.t = "a" -> [t |-> "a", v |-> n.v, n |-> View(n.n), w |-> n.w]
    [] OTHER -> [t |-> n.t, v |-> n.v, w |-> n.w]
Views(ns) == [m \in 1..Len(ns) |-> View(ns[m])]

Without(q, k) == [m \in 1..(Len(q) - 1) |-> IF m < k THEN q[m] ELSE q[m + 1]]
Alive(k) == \E m \in 1..Len(live) : live[m] = k            \* (perhaps more than once)
Key(o) == o.k \o " " \o o.op \o " " \o o.target
\* (Of messages that were logged by several at once it is not known whose they are: mixed.)
Again(o) == Key(o) \in DOMAIN seen => LET b == seen[Key(o)] IN b.all = o.all /\ (b.mixed \/ o.mixed \/ b.log = o.log)
Note(o) == LET n == [all |-> o.all, ok |-> o.ok, text |-> o.text, log |-> o.log, mixed |-> o.mixed] IN
           IF Key(o) \in DOMAIN seen /\ (o.mixed \/ ~seen[Key(o)].mixed) THEN seen ELSE (Key(o) :> n) @@ seen
\* The program takes documents in turn, until one fails.
RECURSIVE Together(_, _)
Together(ks, target) ==
  IF ks = <<>> THEN [ok |-> TRUE, out |-> ""]
  ELSE LET r == seen[ks[1] \o " generate " \o target] IN
       IF ~r.ok THEN [ok |-> FALSE, out |-> ""]
       ELSE LET more == Together(Tail(ks), target) IN [ok |-> more.ok, out |-> r.text \o NL \o more.out]
AsSpecified(c, o) ==
  LET d == c.docs[o.k] IN
  d.known => LET e == Expansion(d.forms, c.x) IN e.ok = o.ok /\ (o.mixed \/ e.log = o.log) /\ (o.ok => Views(e.out) = Views(o.out))
Good(c, o) ==
  CASE o.op = "process" -> TRUE
    [] o.op = "make" -> TRUE
    [] o.op = "drop" -> TRUE
    [] o.op = "expand" -> /\ Alive(o.k)
                          /\ Again(o)
                          /\ Key(o) \in DOMAIN seen \/ AsSpecified(c, o)
    [] o.op = "generate" -> Alive(o.k) /\ Again(o)
    [] o.op = "program" -> Together(o.ks, o.target) = [ok |-> o.ok, out |-> o.text]
Init == i \in 1..Len(Trace) /\ j = 1 /\ live = <<>> /\ seen = [d \in {} |-> ""] /\ verdict = "run"
Next == LET c == Trace[i]
            o == c.ops[j]
        IN
  /\ verdict = "run" /\ i' = i
  /\ IF j > Len(c.ops) THEN verdict' = "ok" /\ UNCHANGED <<j, live, seen>>
     ELSE IF ~Good(c, o) THEN /\ verdict' = "bad"
                              /\ PrintT("REJECT " \o ToString(i) \o " at step " \o ToString(j) \o " " \o Key(o))
                              /\ UNCHANGED <<j, live, seen>>
     ELSE /\ j' = j + 1 /\ verdict' = verdict
          /\ live' = CASE o.op = "process" -> <<>>
                       [] o.op = "make" -> Append(live, o.k)
                       [] o.op = "drop" -> Without(live, CHOOSE m \in 1..Len(live) : live[m] = o.k)
                       [] OTHER -> live
          /\ seen' = IF o.op \in {"expand", "generate"} THEN Note(o) ELSE seen
Spec == Init /\ [][Next]_vars
Where == <<i, j, verdict>>
=============================================================================
