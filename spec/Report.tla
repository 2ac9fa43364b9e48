------------------------------- MODULE Report -------------------------------
(* How an error is shown: the line it is on, marks below the text it is      *)
(* about, its place, and what is wrong.  A terminal may get it in colours.   *)
EXTENDS Total
ESC == CharOf(27)

\* Text without its colours.
RECURSIVE Uncolour(_, _)
Uncolour(v, i) ==
  LET k == IndexFrom(v, ESC \o "[", i)
      m == IF k = 0 THEN 0 ELSE IndexFrom(v, "m", k)
  IN IF k = 0 \/ m = 0 THEN SubSeq(v, i, Len(v))
     ELSE (IF k > i THEN SubSeq(v, i, k - 1) ELSE "") \o Uncolour(v, m + 1)
\* The report of an error at p, if wrong is what is wrong.
Reports(srcs, p, wrong, v) ==
  LET s == Shows(srcs, p)
      w == Where0(srcs, p) \o ": " \o wrong
  IN /\ StartsWith(v, s \o "[**] ")
     /\ EndsWith(v, w)
     /\ Len(wrong) > 0
     /\ Len(v) > Len(s) + 5 + Len(w)            \* the kind of error
     /\ ~HasChar(SubSeq(v, Len(s) + 6, Len(v) - Len(w)), NL)
=============================================================================
