------------------------------- MODULE Writer -------------------------------
(* Generating into a place that has room for so much, and fails when it is   *)
(* full.                                                                     *)
EXTENDS Markup
\* s is the machine of Markup; has is what has arrived.
WriteInit(target, tree, room) == [s |-> MarkInit(target, tree), room |-> room, has |-> "", end |-> "no"]
WriteStep(w, srcs) ==
  IF w.s.todo = <<>> THEN [w EXCEPT !.end = IF w.s.err = <<>> THEN "whole" ELSE "refused"]
  ELSE LET s2 == MarkStep(w.s, srcs)
           put == IF s2.err = <<>> THEN Drop(s2.out, Len(w.s.out)) ELSE ""
           left == w.room - Len(w.has)
       IN IF Len(put) <= left THEN [w EXCEPT !.s = s2, !.has = @ \o put]
          ELSE [w EXCEPT !.s = s2, !.has = @ \o SubSeq(put, 1, left), !.end = "full"]
\* What can be seen when all is over: t is what there is to write, as an end of Markup's machine.
Arrived(t, room, ok, has) ==
  IF t.err # <<>> THEN ~ok
  ELSE IF Len(t.out) <= room THEN ok /\ has = t.out
  \* (A character outside of the basic plane counts twice, and does not fit into room for one.)
  ELSE ~ok /\ StartsWith(t.out, has) /\ Len(has) <= room /\ Len(has) >= room - 1
=============================================================================
