----------------------------- MODULE Trace_Cli -----------------------------
(* Every recorded run of the real program must be a behaviour of Cli.        *)
(* A case has the arguments and the outside (see Cli), and what was seen:    *)
(*   out, status, logs, and the place shown by the message that ended it     *)
(*   (place: <<>> or <<source, line, column>>), and whether there was one.   *)
EXTENDS Cli
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, verdict
vars == <<i, s, verdict>>

Seen(t) == [k \in 1..Len(t) |-> [c |-> t[k][1], b |-> t[k][2], w |-> t[k][3]]]
Input(f) == [ok |-> f.ok, text |-> Seen(f.text)]
Outside(c) == [args |-> c.args, vars |-> c.vars, stdin |-> Input(c.stdin),
               files |-> [f \in DOMAIN c.files |-> Input(c.files[f])]]

TextOf(o, name) == IF name = "<stdin>" THEN o.stdin.text ELSE o.files[name].text
Columns(text, from, to) ==
  LET F(acc, ch) == [o |-> acc.o + ch.b, n |-> acc.n + (IF acc.o >= from /\ acc.o < to THEN ch.w ELSE 0)]
  IN FoldLeft(F, [o |-> 0, n |-> 0], text).n
LinesOf(text) == Cardinality({k \in 1..Len(text) : text[k].c = NL}) + 1
\* Exactly where an error of reading or generating is; somewhere that was read, if it is one of expanding.
PlaceAgrees(o, c) ==
  CASE s.why = "expand" -> /\ Len(c.place) = 3
                           /\ c.place[1] \in {s.read[Len(s.read)]} \cup {f \in DOMAIN o.files : o.files[f].ok}
                           /\ c.place[2] \in 1..LinesOf(TextOf(o, c.place[1]))
    [] s.why \in {"read", "generate"} ->
         c.place = <<s.p[1], s.p[3], Columns(TextOf(o, s.p[1]), s.p[2] - s.p[4], s.p[2]) + 1>>
    [] OTHER -> TRUE
Agrees(o, c) ==
  /\ c.out = s.out /\ c.log = s.log
  /\ (c.status = 0) = (s.status = 0)
  /\ (s.status # 0 \/ s.why = "version") => c.message
  /\ s.why = "unreadable" => \E k \in 1..Len(c.names) : c.names[k] = s.p[1]     \* the message names it
  /\ PlaceAgrees(o, c)

Init == /\ i \in 1..Len(Trace)
        /\ s = CliInit([args |-> Trace[i].args]) /\ verdict = "run"
Next == LET c == Trace[i]
            o == Outside(c)
        IN
  /\ verdict = "run" /\ i' = i
  /\ IF s.m = "end"
     THEN /\ verdict' = IF Agrees(o, c) THEN "ok" ELSE "bad"
          /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i) \o " " \o s.why)
          /\ s' = s
     ELSE
          /\ s' = CliStep(s, o, World0(s, o))
          /\ verdict' = verdict
Spec == Init /\ [][Next]_vars
Where == <<i, verdict, s.m, s.i, Len(s.todo)>>
=============================================================================
