------------------------------ MODULE Calendar ------------------------------
(* %date and %timestamp: seconds since 1970-01-01 UTC as dates, and back.    *)
(* A moment is <<days, seconds of the day>>, so that it fits TLC's integers. *)
EXTENDS Numbers

\* Seconds, written in decimal, to a moment (rounding down), by long division.
RECURSIVE DivDays(_, _, _, _)
DivDays(s, i, q, r) == IF i > Len(s) THEN <<q, r>>
                       ELSE LET n == r * 10 + DigVal[Ch(s, i)] IN DivDays(s, i + 1, q * 10 + n \div 86400, n % 86400)
\* q is only meaningful for up to nine significant digits of days.
Moment(s) == LET qr == DivDays(NoZeros(Unsigned(s)), 1, 0, 0) IN
             IF ~Negative(s) THEN qr
             ELSE IF qr[2] = 0 THEN <<0 - qr[1], 0>> ELSE <<0 - qr[1] - 1, 86400 - qr[2]>>
Shift(m, secs) == LET t == m[2] + secs IN <<m[1] + t \div 86400, t % 86400>>

RECURSIVE PadTo(_, _, _)
PadTo(s, n, c) == IF Len(s) >= n THEN s ELSE PadTo(c \o s, n, c)
Pad2(n) == PadTo(ToString(n), 2, "0")

\* days * 86400 + secs in decimal, for days >= 0, in two limbs
Product(days, secs) ==
  LET hi == days \div 10000
      lo == days % 10000
      low == lo * 86400 + secs                \* < 864 086 400
      mid == hi * 86400                       \* in units of 10000
      a == low % 10000
      b == mid + low \div 10000
  IN IF b = 0 THEN ToString(a) ELSE ToString(b) \o PadTo(ToString(a), 4, "0")
SecondsOf(m) == IF m[1] >= 0 THEN Product(m[1], m[2])
                ELSE LET neg == IF m[2] = 0 THEN <<0 - m[1], 0>> ELSE <<0 - m[1] - 1, 86400 - m[2]>>
                         s == Product(neg[1], neg[2])
                     IN IF s = "0" THEN s ELSE "-" \o s

\* Days since 1970-01-01 and the (Gregorian) calendar.
FloorDiv(a, b) == a \div b                    \* TLC's \div rounds down
Civil(days) ==
  LET z == days + 719468
      era == FloorDiv(z, 146097)
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
DaysOf(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == FloorDiv(y, 400)
      yoe == y - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Weekday(days) == (days + 4) % 7               \* 0 is Sunday

MonthName == <<"January","February","March","April","May","June","July","August","September","October","November","December">>
DayName == <<"Sunday","Monday","Tuesday","Wednesday","Thursday","Friday","Saturday">>

\* An offset in hours, written in decimal (four decimals count), in seconds.
Offset(s) ==
  LET p == Parts(s)
      e == Dec(Unsigned(p.ex))
      left == PadTo(p.int, IF Negative(p.ex) THEN Len(p.int) + e ELSE 0, "0")      \* move the point to the left,
      cut == Len(left) - (IF Negative(p.ex) THEN e ELSE 0)
      more == SubSeq(left, cut + 1, Len(left)) \o p.frac
      right == IF Negative(p.ex) THEN 0 ELSE e                                      \* or to the right
      digits == more \o PadTo("", right + 4, "0")
      int == NoZeros(SubSeq(left, 1, cut) \o SubSeq(digits, 1, right))
      fr == SubSeq(digits, right + 1, right + 4)
      tenk == (IF int = "" THEN 0 ELSE Dec(int) * 10000) + Dec(fr)
      secs == (tenk * 9 * 2 + 25) \div 50      \* round to nearest
  IN IF ~p.ok \/ Len(p.ex) > 2 THEN [ok |-> FALSE, secs |-> 0]
     ELSE IF Len(int) > 3 \/ secs >= 86400 THEN [ok |-> FALSE, secs |-> 0]
     ELSE [ok |-> TRUE, secs |-> IF Negative(s) THEN 0 - secs ELSE secs]

------------------------------------------------------------------------------
(* Formats: a sequence of items.                                             *)
Verbatim(s) == [k |-> "lit", v |-> s]
Blank(s) == [k |-> "gap", v |-> s]              \* white space
Numeric(c, pad) == [k |-> "num", v |-> c, pad |-> pad]
Fixed(c) == [k |-> "fix", v |-> c]
BadItem == [k |-> "bad", v |-> ""]
\* Numeric directives: width, usual padding.
Width == [c \in {"Y","G","C","y","g","m","d","e","H","k","I","l","M","S","U","W","V","j","w","u","f","s"} |->
            CASE c \in {"Y", "G"} -> 4 [] c = "j" -> 3 [] c \in {"w", "u"} -> 1 [] c \in {"f", "s"} -> 9 [] OTHER -> 2]
Usual(c) == CASE c \in {"e", "k", "l"} -> "_" [] c \in {"w", "u", "s"} -> "-" [] OTHER -> "0"
Two(c) == Numeric(c, "0")
HMS == <<Two("H"), Verbatim(":"), Two("M"), Verbatim(":"), Two("S")>>
Compound == [c \in {"D", "x", "F", "R", "T", "X", "r", "c", "v"} |->
  CASE c \in {"D", "x"} -> <<Two("m"), Verbatim("/"), Two("d"), Verbatim("/"), Two("y")>>
    [] c = "F" -> <<Two("Y"), Verbatim("-"), Two("m"), Verbatim("-"), Two("d")>>
    [] c = "R" -> <<Two("H"), Verbatim(":"), Two("M")>>
    [] c \in {"T", "X"} -> HMS
    [] c = "r" -> <<Two("I"), Verbatim(":"), Two("M"), Verbatim(":"), Two("S"), Blank(" "), Fixed("p")>>
    [] c = "c" -> <<Fixed("a"), Blank(" "), Fixed("b"), Blank(" "), Numeric("e", "_"), Blank(" ")>> \o HMS \o <<Blank(" "), Two("Y")>>
    [] c = "v" -> <<Numeric("e", "_"), Verbatim("-"), Fixed("b"), Verbatim("-"), Two("Y")>>]
Simply == {"A", "B", "P", "Z", "a", "b", "p", "z", "+"}
Longer == <<":::z", "::z", ":z", ".3f", ".6f", ".9f", ".f", "3f", "6f", "9f", "#z">>
RECURSIVE Run(_, _, _), Items(_)
Run(f, white, n) == IF n < Len(f) /\ Ch(f, n + 1) # "%" /\ (Ch(f, n + 1) \in Ws) = white THEN Run(f, white, n + 1) ELSE n
Items(f) ==
  IF f = "" THEN <<>>
  ELSE IF Ch(f, 1) # "%"
  THEN LET white == Ch(f, 1) \in Ws
           n == Run(f, white, 0)
       IN <<IF white THEN Blank(SubSeq(f, 1, n)) ELSE Verbatim(SubSeq(f, 1, n))>> \o Items(Drop(f, n))
  ELSE LET g == Drop(f, 1)
           c == IF g = "" THEN "" ELSE Ch(g, 1)
           more == {i \in 1..Len(Longer) : StartsWith(g, Longer[i])}
           pad == c \in {"-", "_", "0"}
           d == IF Len(g) >= 2 THEN Ch(g, 2) ELSE ""
       IN CASE pad -> IF d \in DOMAIN Width THEN <<Numeric(d, c)>> \o Items(Drop(g, 2)) ELSE <<BadItem>>
            [] more # {} -> LET i == CHOOSE i \in more : \A j \in more : i <= j IN <<Fixed(Longer[i])>> \o Items(Drop(g, Len(Longer[i])))
            [] c \in DOMAIN Width -> <<Numeric(c, Usual(c))>> \o Items(Drop(g, 1))
            [] c \in DOMAIN Compound -> Compound[c] \o Items(Drop(g, 1))
            [] c \in Simply -> <<Fixed(c)>> \o Items(Drop(g, 1))
            [] c = "h" -> <<Fixed("b")>> \o Items(Drop(g, 1))
            [] c = "n" -> <<Blank(NL)>> \o Items(Drop(g, 1))
            [] c = "t" -> <<Blank("\t")>> \o Items(Drop(g, 1))
            [] c = "%" -> <<Verbatim("%")>> \o Items(Drop(g, 1))
            [] OTHER -> <<BadItem>>
\* What cannot be shown, if only read.
Showable(items) == \A i \in 1..Len(items) : items[i].k # "bad" /\ ~(items[i].k = "fix" /\ items[i].v = "#z")

\* The numbers of a day.
IsoWeek(day) == LET thu == day - ((Weekday(day) + 6) % 7) + 3
                    y == Civil(thu).y
                IN [G |-> y, V |-> (thu - DaysOf(y, 1, 1)) \div 7 + 1]
DayFields(day) ==
  LET cv == Civil(day)
      j == day - DaysOf(cv.y, 1, 1) + 1
      wd == Weekday(day)
      iso == IsoWeek(day)
  IN [Y |-> cv.y, m |-> cv.m, d |-> cv.d, j |-> j, a |-> wd, G |-> iso.G, V |-> iso.V,
      U |-> (j - wd + 6) \div 7, W |-> (j - ((wd + 6) % 7) + 6) \div 7]

Lower2(a, b) == IF a < b THEN a ELSE b
Abs(n) == IF n < 0 THEN 0 - n ELSE n
\* digits, sign, width and padding
Padded(sign, digits, width, pad) ==
  CASE pad = "-" -> sign \o digits
    [] pad = "0" -> sign \o PadTo(digits, width - Len(sign), "0")
    [] OTHER -> PadTo(sign \o digits, width, " ")
YearText(y, pad) == IF y \in 0..9999 THEN Padded("", ToString(y), 4, pad)
                    ELSE Padded(IF y < 0 THEN "-" ELSE "+", ToString(Abs(y)), 5, pad)
OffsetText(secs, how) ==
  LET a == Abs(secs)
      sign == IF secs < 0 THEN "-" ELSE "+"
      mins == (a + 30) \div 60                 \* shown in minutes: to the nearest
      exact == sign \o Pad2(a \div 3600) \o ":" \o Pad2((a \div 60) % 60)
  IN CASE how = "z" -> sign \o Pad2(mins \div 60) \o Pad2(mins % 60)
       [] how = ":z" -> sign \o Pad2(mins \div 60) \o ":" \o Pad2(mins % 60)
       [] how = "::z" -> exact \o ":" \o Pad2(a % 60)
       [] how = ":::z" -> sign \o Pad2(a \div 3600)
       [] OTHER -> exact \o (IF a % 60 = 0 THEN "" ELSE ":" \o Pad2(a % 60))

\* One item, for a local time at an offset.
ShowItem(it, m, off, utc) ==
  LET df == DayFields(m[1])
      h == m[2] \div 3600
      mi == (m[2] % 3600) \div 60
      s == m[2] % 60
      h12 == IF h % 12 = 0 THEN 12 ELSE h % 12
      N(n) == Padded("", ToString(n), Width[it.v], it.pad)
      rfc == YearText(df.Y, "0") \o "-" \o Pad2(df.m) \o "-" \o Pad2(df.d) \o "T" \o Pad2(h) \o ":" \o Pad2(mi) \o ":" \o Pad2(s) \o OffsetText(off, ":z")
  IN CASE it.k \in {"lit", "gap"} -> it.v
       [] it.k = "num" ->
            (CASE it.v = "Y" -> YearText(df.Y, it.pad) [] it.v = "G" -> YearText(df.G, it.pad)
               [] it.v = "C" -> N(df.Y \div 100) [] it.v = "y" -> N(df.Y % 100) [] it.v = "g" -> N(df.G % 100)
               [] it.v = "m" -> N(df.m) [] it.v \in {"d", "e"} -> N(df.d) [] it.v = "j" -> N(df.j)
               [] it.v \in {"H", "k"} -> N(h) [] it.v \in {"I", "l"} -> N(h12) [] it.v = "M" -> N(mi) [] it.v = "S" -> N(s)
               [] it.v = "U" -> N(df.U) [] it.v = "W" -> N(df.W) [] it.v = "V" -> N(df.V)
               [] it.v = "w" -> ToString(df.a) [] it.v = "u" -> ToString(IF df.a = 0 THEN 7 ELSE df.a)
               [] it.v = "f" -> N(0)
               [] it.v = "s" -> LET t == SecondsOf(utc) IN Padded(IF Negative(t) THEN "-" ELSE "", Unsigned(t), 9, it.pad))
       [] OTHER ->
            (CASE it.v = "B" -> MonthName[df.m] [] it.v = "b" -> SubSeq(MonthName[df.m], 1, 3)
               [] it.v = "A" -> DayName[df.a + 1] [] it.v = "a" -> SubSeq(DayName[df.a + 1], 1, 3)
               [] it.v = "p" -> IF h < 12 THEN "AM" ELSE "PM" [] it.v = "P" -> IF h < 12 THEN "am" ELSE "pm"
               [] it.v \in {"z", ":z", "::z", ":::z", "Z"} -> OffsetText(off, it.v)
               [] it.v = "+" -> rfc
               [] it.v = ".f" -> "" [] it.v = ".3f" -> ".000" [] it.v = ".6f" -> ".000000" [] it.v = ".9f" -> ".000000000"
               [] it.v = "3f" -> "000" [] it.v = "6f" -> "000000" [] it.v = "9f" -> "000000000" [] OTHER -> "")
RECURSIVE ShowFrom(_, _, _, _, _)
ShowFrom(items, i, m, off, utc) == IF i > Len(items) THEN "" ELSE ShowItem(items[i], m, off, utc) \o ShowFrom(items, i + 1, m, off, utc)

NoText == [ok |-> FALSE, text |-> ""]
FirstDay == DaysOf(0 - 262143, 1, 1)          \* the days there are
LastDay == DaysOf(262142, 12, 31)
InRange(m) == m[1] \in FirstDay..LastDay
IsMoment(s) == IsInteger(s) /\ Len(NoZeros(Unsigned(s))) <= 14 /\ InRange(Moment(s))
DateText(f, secs, tz) ==
  LET off == Offset(tz)
      items == Items(f)
  IN IF ~off.ok \/ ~IsMoment(secs) \/ ~Showable(items) THEN NoText
     ELSE LET utc == Moment(secs) IN [ok |-> TRUE, text |-> ShowFrom(items, 1, Shift(utc, off.secs), off.secs, utc)]

------------------------------------------------------------------------------
(* Reading a date: items take text and set fields, which must not conflict.  *)
(* Fields: Y C y G g years, m d j U W V a (weekday), p (half of the day),    *)
(* h (hour of the half) M S f, s (a moment), z.                              *)
Nothing == [ok |-> TRUE, t |-> "", g |-> [k \in {} |-> 0]]
Unread == [ok |-> FALSE, t |-> "", g |-> [k \in {} |-> 0]]
RECURSIVE Trim(_), TakeDigits(_, _)
Trim(t) == IF t # "" /\ Ch(t, 1) \in Ws THEN Trim(Drop(t, 1)) ELSE t
TakeDigits(t, n) == IF n > 0 /\ t # "" /\ Ch(t, 1) \in Digits THEN Ch(t, 1) \o TakeDigits(Drop(t, 1), n - 1) ELSE ""
Prefix(t, n) == SubSeq(t, 1, Lower2(n, Len(t)))
Put(r, t, k, v) == IF k \in DOMAIN r.g /\ r.g[k] # v THEN Unread ELSE [ok |-> TRUE, t |-> t, g |-> (k :> v) @@ r.g]
PutHour(r, t, h) == LET r2 == Put(r, t, "p", h \div 12) IN IF r2.ok THEN Put(r2, t, "h", h % 12) ELSE r2
\* Which name t starts with.
NameIn(names, t) == {i \in 1..Len(names) : Len(t) >= 3 /\ ToLower(SubSeq(t, 1, 3)) = ToLower(SubSeq(names[i], 1, 3))}
Name(r, k, names, base, long) ==
  LET is == NameIn(names, r.t) IN
  IF is = {} THEN Unread
  ELSE LET i == CHOOSE i \in is : TRUE
           full == Len(r.t) >= Len(names[i]) /\ ToLower(SubSeq(r.t, 1, Len(names[i]))) = ToLower(names[i])
       IN Put(r, Drop(r.t, IF long /\ full THEN Len(names[i]) ELSE 3), k, i - base)
Number1(r, c) ==
  LET t == Trim(r.t)
      signed == c \in {"Y", "G"} /\ t # "" /\ Ch(t, 1) \in {"+", "-"}
      body == IF signed THEN Drop(t, 1) ELSE t
      ds == TakeDigits(body, IF signed \/ c = "s" THEN 99 ELSE Width[c])
      rest == Drop(body, Len(ds))
      v == Dec(ds)
      n == IF signed /\ Ch(t, 1) = "-" THEN 0 - v ELSE v
      In(lo, hi, k) == IF v \in lo..hi THEN Put(r, rest, k, v) ELSE Unread
  IN IF ds = "" THEN Unread
     ELSE IF c = "s" THEN IF Len(NoZeros(ds)) > 14 THEN Unread ELSE Put(r, rest, "s", Moment(ds))
     ELSE IF Len(NoZeros(ds)) > (IF c = "f" THEN 9 ELSE 6) THEN Unread
     ELSE CASE c \in {"Y", "G"} -> Put(r, rest, c, n)
            [] c \in {"C", "y", "g", "f"} -> Put(r, rest, c, v)
            [] c = "m" -> In(1, 12, "m") [] c \in {"d", "e"} -> In(1, 31, "d") [] c = "j" -> In(1, 366, "j")
            [] c \in {"U", "W"} -> In(0, 53, c) [] c = "V" -> In(1, 53, "V")
            [] c = "w" -> In(0, 6, "a") [] c = "u" -> IF v \in 1..7 THEN Put(r, rest, "a", v % 7) ELSE Unread
            [] c \in {"H", "k"} -> IF v \in 0..23 THEN PutHour(r, rest, v) ELSE Unread
            [] c \in {"I", "l"} -> IF v \in 1..12 THEN Put(r, rest, "h", v % 12) ELSE Unread
            [] c = "M" -> In(0, 59, "M") [] c = "S" -> In(0, 60, "S")
RECURSIVE SkipColons(_), SkipWord(_), SkipDigits(_)
SkipColons(t) == IF t # "" /\ Ch(t, 1) \in Ws \cup {":"} THEN SkipColons(Drop(t, 1)) ELSE t
SkipWord(t) == IF t # "" /\ Ch(t, 1) \notin Ws THEN SkipWord(Drop(t, 1)) ELSE t
SkipDigits(t) == IF t # "" /\ Ch(t, 1) \in Digits THEN SkipDigits(Drop(t, 1)) ELSE t
OffsetOf(r, zulu, short) ==
  LET t == Trim(r.t) IN
  IF zulu /\ t # "" /\ Ch(t, 1) \in {"Z", "z"} THEN Put(r, Drop(t, 1), "z", 0)
  ELSE IF Len(t) < 3 \/ Ch(t, 1) \notin {"+", "-", CharOf(8722)} \/ ~AllDigits(SubSeq(t, 2, 3)) THEN Unread
  ELSE LET rest == SkipColons(Drop(t, 3))
           two == Len(rest) >= 2
           sign == IF Ch(t, 1) = "+" THEN 1 ELSE 0 - 1
           hours == Dec(SubSeq(t, 2, 3)) * 3600
       IN IF two /\ AllDigits(SubSeq(rest, 1, 2)) /\ Dec(SubSeq(rest, 1, 2)) < 60
          THEN Put(r, Drop(rest, 2), "z", sign * (hours + Dec(SubSeq(rest, 1, 2)) * 60))
          ELSE IF short /\ rest = "" THEN Put(r, rest, "z", sign * hours) ELSE Unread
Scale == <<100000000, 10000000, 1000000, 100000, 10000, 1000, 100, 10, 1>>
Fraction(r) == IF r.t = "" \/ Ch(r.t, 1) # "." THEN r
               ELSE LET ds == TakeDigits(Drop(r.t, 1), 9) IN
                    IF ds = "" THEN Unread ELSE Put(r, SkipDigits(Drop(r.t, 1)), "f", Dec(ds) * Scale[Len(ds)])
FixedFraction(r, n) == LET ds == TakeDigits(r.t, n) IN IF Len(ds) < n THEN Unread ELSE Put(r, Drop(r.t, n), "f", Dec(ds) * Scale[n])
RfcDate == <<Two("Y"), Blank(""), Verbatim("-"), Two("m"), Blank(""), Verbatim("-"), Two("d")>>
RfcTime == <<Two("H"), Blank(""), Verbatim(":"), Two("M"), Blank(""), Verbatim(":"), Two("S"), Fixed(".f"), Blank("")>>
RECURSIVE ReadFrom(_, _, _), ReadItem(_, _)
ReadItem(it, r) ==
  LET t == r.t IN
  CASE it.k = "lit" -> IF StartsWith(t, it.v) THEN [r EXCEPT !.t = Drop(t, Len(it.v))] ELSE Unread
    [] it.k = "gap" -> [r EXCEPT !.t = Trim(t)]
    [] it.k = "num" -> Number1(r, it.v)
    [] it.k = "bad" -> Unread
    [] OTHER ->
      (CASE it.v \in {"b", "B"} -> Name(r, "m", MonthName, 0, it.v = "B")
         [] it.v \in {"a", "A"} -> Name(r, "a", DayName, 1, it.v = "A")
         [] it.v \in {"p", "P"} -> LET h == ToLower(Prefix(t, 2)) IN
                                   IF Len(t) >= 2 /\ h \in {"am", "pm"} THEN Put(r, Drop(t, 2), "p", IF h = "pm" THEN 1 ELSE 0) ELSE Unread
         [] it.v \in {"z", ":z", "::z", ":::z"} -> OffsetOf(r, FALSE, FALSE)
         [] it.v = "#z" -> OffsetOf(r, TRUE, TRUE)
         [] it.v = "Z" -> [r EXCEPT !.t = SkipWord(t)]
         [] it.v \in {".f", ".3f", ".6f", ".9f"} -> Fraction(r)
         [] it.v = "3f" -> FixedFraction(r, 3) [] it.v = "6f" -> FixedFraction(r, 6) [] it.v = "9f" -> FixedFraction(r, 9)
         [] it.v = "+" ->
              LET a == ReadFrom(RfcDate, 1, r)
                  b == IF a.ok /\ a.t # "" /\ Ch(a.t, 1) \in {"t", "T", " "} THEN ReadFrom(RfcTime, 1, [a EXCEPT !.t = Drop(a.t, 1)]) ELSE Unread
              IN IF ~b.ok THEN b
                 ELSE IF ToLower(Prefix(b.t, 3)) = "utc" THEN Put(b, Drop(b.t, 3), "z", 0)
                 ELSE OffsetOf(b, TRUE, FALSE)
         [] OTHER -> Unread)
ReadFrom(items, i, r) == IF ~r.ok \/ i > Len(items) THEN r ELSE ReadFrom(items, i + 1, ReadItem(items[i], r))
Fields(items, t) == LET r == ReadFrom(items, 1, [Nothing EXCEPT !.t = t]) IN IF r.ok /\ r.t = "" THEN r ELSE Unread

\* What the fields say: [st, v] with st one of ok, less (they do not determine it), bad.
Found(v) == [st |-> "ok", v |-> v]
Open == [st |-> "less", v |-> 0]
Clash == [st |-> "bad", v |-> 0]
Year(g, full, cent, short) ==
  LET Has(k) == k \in DOMAIN g IN
  IF Has(full)
  THEN IF (Has(cent) \/ Has(short)) /\ g[full] < 0 THEN Clash
       ELSE IF Has(cent) /\ g[cent] # g[full] \div 100 THEN Clash
       ELSE IF Has(short) /\ g[short] # g[full] % 100 THEN Clash
       ELSE Found(g[full])
  ELSE IF Has(cent) THEN IF Has(short) THEN Found(g[cent] * 100 + g[short]) ELSE Open
  ELSE IF Has(short) THEN Found(g[short] + (IF g[short] < 70 THEN 2000 ELSE 1900))
  ELSE [st |-> "none", v |-> 0]
Years == (0 - 262143)..262142
\* A day agrees with the fields that are given.
AgreesDay(g, day) ==
  LET df == DayFields(day)
      Is(k, v) == k \in DOMAIN g => g[k] = v
  IN /\ \A k \in {"Y", "m", "d", "j", "a", "U", "W", "G", "V"} : Is(k, df[k])
     /\ ("C" \in DOMAIN g \/ "y" \in DOMAIN g) => df.Y >= 0 /\ Is("C", df.Y \div 100) /\ Is("y", df.Y % 100)
     /\ "g" \in DOMAIN g => df.G >= 0 /\ g["g"] = df.G % 100
YearLength(y) == IF Leap(y) THEN 366 ELSE 365
\* Week w of a year, counting from its first Sunday (first = 0) or Monday (1).
WeekDay(y, w, wd, first) ==
  LET jan1 == DaysOf(y, 1, 1)
      start == 1 + ((first - Weekday(jan1)) % 7)
      j == start + (w - 1) * 7 + ((wd - first) % 7)
  IN IF j \in 1..YearLength(y) THEN Found(jan1 + j - 1) ELSE Clash
IsoDay(y, w, wd) ==
  LET jan4 == DaysOf(y, 1, 4)
      day == jan4 - ((Weekday(jan4) + 6) % 7) + (w - 1) * 7 + ((wd + 6) % 7)
  IN IF IsoWeek(day) = [G |-> y, V |-> w] THEN Found(day) ELSE Clash
DayOf(g) ==
  LET y == Year(g, "Y", "C", "y")
      iso == Year(g, "G", "-", "g")
      Has(ks) == ks \subseteq DOMAIN g
      day == IF y.st = "ok" /\ Has({"m", "d"})
             THEN IF y.v \in Years /\ g["d"] <= MonthDays(y.v, g["m"]) THEN Found(DaysOf(y.v, g["m"], g["d"])) ELSE Clash
             ELSE IF y.st = "ok" /\ Has({"j"})
             THEN IF y.v \in Years /\ g["j"] <= YearLength(y.v) THEN Found(DaysOf(y.v, 1, 1) + g["j"] - 1) ELSE Clash
             ELSE IF y.st = "ok" /\ Has({"U", "a"}) THEN IF y.v \in Years THEN WeekDay(y.v, g["U"], g["a"], 0) ELSE Clash
             ELSE IF y.st = "ok" /\ Has({"W", "a"}) THEN IF y.v \in Years THEN WeekDay(y.v, g["W"], g["a"], 1) ELSE Clash
             ELSE IF iso.st = "ok" /\ Has({"V", "a"}) THEN IF iso.v \in Years THEN IsoDay(iso.v, g["V"], g["a"]) ELSE Clash
             ELSE Open
  IN IF y.st \in {"less", "bad"} THEN y
     ELSE IF iso.st \in {"less", "bad"} THEN iso
     ELSE IF day.st = "ok" /\ ~AgreesDay(g, day.v) THEN Clash ELSE day
TimeOf(g) ==
  IF ~({"p", "h", "M"} \subseteq DOMAIN g) \/ ("f" \in DOMAIN g /\ "S" \notin DOMAIN g) THEN Open
  ELSE Found((g["p"] * 12 + g["h"]) * 3600 + g["M"] * 60 + (IF "S" \in DOMAIN g THEN Lower2(g["S"], 59) ELSE 0))
AgreesTime(g, t) ==
  LET Is(k, v) == k \in DOMAIN g => g[k] = v
      h == t \div 3600
  IN Is("p", h \div 12) /\ Is("h", h % 12) /\ Is("M", (t % 3600) \div 60) /\ Is("S", t % 60)
\* The moment (in UTC) that the fields denote if the clock is ahead by off.
MomentOf(g, off) ==
  LET day == DayOf(g)
      time == TimeOf(g)
      stamp == "s" \in DOMAIN g
  IN IF day.st = "ok" /\ time.st = "ok"
     THEN LET m == Shift(<<day.v, time.v>>, 0 - off) IN IF stamp /\ g["s"] # m THEN Clash ELSE Found(m)
     ELSE IF ~stamp \/ "bad" \in {day.st, time.st} THEN Clash
     ELSE LET local == Shift(g["s"], off) IN
          IF InRange(local) /\ AgreesDay(g, local[1]) /\ AgreesTime(g, local[2]) THEN Found(g["s"]) ELSE Clash
\* An offset in the text is taken before the one asked for; a bare moment is one in UTC.
TimestampOf(f, t, tz) ==
  LET off == Offset(tz)
      r == Fields(Items(f), t)
      at == IF "z" \in DOMAIN r.g THEN r.g["z"] ELSE IF "s" \in DOMAIN r.g THEN 0 ELSE off.secs
      m == MomentOf(r.g, at)
  IN IF ~off.ok \/ ~r.ok THEN NoText
     ELSE IF Abs(at) >= 86400 \/ m.st # "ok" THEN NoText
     ELSE [ok |-> TRUE, text |-> SecondsOf(m.v)]
=============================================================================
