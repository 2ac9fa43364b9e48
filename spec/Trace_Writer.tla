---------------------------- MODULE Trace_Writer ----------------------------
(* Every way there is to generate the recorded trees gives what Markup       *)
(* writes, as often as one asks, from copies too; places with little room    *)
(* get the beginning of it, and an error.                                    *)
EXTENDS Writer
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, verdict
vars == <<i, verdict>>
Same(t, x) == IF x.ok THEN t.err = <<>> /\ t.out = x.out ELSE t.err = <<x.p>>
Right(c) ==
  LET t == TLCEval(Generate(c.target, c.tree, c.srcs))
      d == TLCEval(Generate(c.target \o "!", c.tree, c.srcs))
  IN /\ Same(t, c.display) /\ Same(t, c.left) /\ \A k \in 1..Len(c.again) : Same(t, c.again[k])
     /\ Same(d, c.document) /\ \A k \in 1..Len(c.whole) : Same(d, c.whole[k])
     /\ c.shown.ok = (t.err = <<>>) /\ (c.shown.ok => c.shown.out = t.out)
     /\ \A k \in 1..Len(c.short) : LET x == c.short[k] IN Arrived(t, IF x.room < 0 THEN Len(t.out) ELSE x.room, x.ok, x.out)
Init == i \in 1..Len(Trace) /\ verdict = "run"
Next == /\ verdict = "run" /\ i' = i
        /\ verdict' = IF Right(Trace[i]) THEN "ok" ELSE "bad"
        /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
