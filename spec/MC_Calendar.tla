---------------------------- MODULE MC_Calendar ----------------------------
(* A calendar that counts days one by one, by the rule of month lengths, and *)
(* the arithmetic of Calendar beside it; and showing times and reading them  *)
(* back, for every day, time, offset and format that is counted through.     *)
EXTENDS Calendar
CONSTANTS Starts, Span, Secs, Offsets, Formats
VARIABLES start, day, y, m, d, wd, sec, off, f
vars == <<start, day, y, m, d, wd, sec, off, f>>

\* Spans start at the first of January of a year, whose weekday is known.
First == [s \in Starts |-> s]
Init == /\ start \in Starts
        /\ day = DaysOf(start, 1, 1) /\ y = start /\ m = 1 /\ d = 1 /\ wd = Weekday(DaysOf(start, 1, 1))
        /\ sec \in Secs /\ off \in Offsets /\ f \in Formats
Next == /\ day < DaysOf(start, 1, 1) + Span
        /\ day' = day + 1
        /\ wd' = (wd + 1) % 7
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
        /\ UNCHANGED <<start, sec, off, f>>
Spec == Init /\ [][Next]_vars

Consecutive == /\ Civil(day) = [y |-> y, m |-> m, d |-> d]
               /\ DaysOf(y, m, d) = day
               /\ Weekday(day) = wd
               /\ start = 1970 /\ day = 0 => d = 1 /\ m = 1 /\ y = 1970 /\ wd = 4
\* Week numbers: a new one on its first day of the week, and from one at the start of the year.
Weeks == LET df == DayFields(day)
             dn == DayFields(day + 1)
         IN /\ df.j \in 1..YearLength(y) /\ (d = 1 /\ m = 1) = (df.j = 1)
            /\ dn.Y = df.Y => /\ dn.U = df.U + (IF dn.a = 0 THEN 1 ELSE 0)
                              /\ dn.W = df.W + (IF dn.a = 1 THEN 1 ELSE 0)
            /\ (dn.V # df.V) = (dn.a = 1)
            /\ (m = 1 /\ d = 4) => df.V = 1 /\ df.G = y
            /\ dn.V = df.V => dn.G = df.G
\* Every way to determine a day finds this one.
Determined == LET df == DayFields(day)
                  Only(ks) == [k \in ks |-> df[k]]
                  ways == {{"Y", "m", "d"}, {"Y", "j"}, {"Y", "U", "a"}, {"Y", "W", "a"}, {"G", "V", "a"}}
              IN /\ \A ks \in ways : DayOf(Only(ks)) = Found(day)
                 /\ DayOf(Only(DOMAIN df)) = Found(day)
                 /\ \A k \in {"m", "d", "j", "U", "W", "a"} : DayOf(Only({"G", "V", k} \ {"a"})).st # "ok"
                 /\ DayOf([Only(DOMAIN df) EXCEPT !.a = (@ + 1) % 7]) = Clash
                 /\ DayOf([Only(DOMAIN df) EXCEPT !.j = @ + 1]) = Clash
\* Showing a moment and reading it back.
Hours(n) == ToString(n)
RoundTrip == LET utc == <<day, sec>>
                 shown == DateText(f, SecondsOf(utc), off)
             IN /\ shown.ok
                /\ TimestampOf(f, shown.text, off) = [ok |-> TRUE, text |-> SecondsOf(utc)]
                /\ Moment(SecondsOf(utc)) = utc
\* An offset in the text wins.
Wins == LET utc == <<day, sec>>
            shown == DateText(f \o " %::z", SecondsOf(utc), off)
            o == Offset(off).secs
        IN shown.ok /\ (o % 60 = 0 => TimestampOf(f \o " %z", SubSeq(shown.text, 1, Len(shown.text) - 3), "3.5") = [ok |-> TRUE, text |-> SecondsOf(utc)])
=============================================================================
