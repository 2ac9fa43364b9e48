------------------------------- MODULE Numbers -------------------------------
(* Numbers as they are written, and the order of sort keys.                  *)
EXTENDS Txt

RECURSIVE FirstIn(_, _, _)
FirstIn(s, S, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) \in S THEN i ELSE FirstIn(s, S, i + 1)
Unsigned(s) == IF Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"} THEN Drop(s, 1) ELSE s
Negative(s) == Len(s) > 0 /\ Ch(s, 1) = "-"

\* An index into a list.
IsIndex(s) == AllDigits(IF StartsWith(s, "+") THEN Drop(s, 1) ELSE s)
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 0 /\ Ch(s, 1) = "0" THEN NoZeros(Drop(s, 1)) ELSE s
IndexOf(s) == LET d == NoZeros(Unsigned(s)) IN
              IF d = "" THEN 0 ELSE IF Len(d) > 8 THEN 99999999 ELSE Dec(d)

IsInteger(s) == AllDigits(Unsigned(s))
\* Parts of a decimal number: [ok, int, frac, exp].
Parts(s) ==
  LET body == Unsigned(s)
      e == FirstIn(body, {"e", "E"}, 1)
      mant == IF e = 0 THEN body ELSE SubSeq(body, 1, e - 1)
      ex == IF e = 0 THEN "0" ELSE Drop(body, e)
      dot == FirstIn(mant, {"."}, 1)
      int == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
      frac == IF dot = 0 THEN "" ELSE Drop(mant, dot)
      digits(x) == x = "" \/ AllDigits(x)
  IN [ok |-> digits(int) /\ digits(frac) /\ int \o frac # "" /\ AllDigits(Unsigned(ex)),
      int |-> int, frac |-> frac, ex |-> ex]
IsInf(s) == ToLower(Unsigned(s)) \in {"inf", "infinity"}
IsNan(s) == ToLower(Unsigned(s)) = "nan"
IsDecimal(s) == Parts(s).ok
\* What reads as a number, for the purposes of formatting one.
IsNumeral(s) == IsDecimal(s) \/ IsInf(s) \/ IsNan(s)

RECURSIVE LeadingZeros(_, _), NoTrailing(_)
LeadingZeros(s, n) == IF n < Len(s) /\ Ch(s, n + 1) = "0" THEN LeadingZeros(s, n + 1) ELSE n
NoTrailing(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0" THEN NoTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s

\* Value: sign, magnitude (the exponent of its first digit), digits.
Number(s) ==
  IF IsInf(s) THEN [sign |-> IF Negative(s) THEN -1 ELSE 1, mag |-> 999999999, digits |-> "1"]
  ELSE LET p == Parts(s)
           all == p.int \o p.frac
           z == LeadingZeros(all, 0)
           exn == Dec(Unsigned(p.ex))
           digits == NoTrailing(Drop(all, z))
       IN IF digits = "" THEN [sign |-> 0, mag |-> 0, digits |-> ""]
          ELSE [sign |-> IF Negative(s) THEN -1 ELSE 1,
                mag |-> Len(p.int) - z + (IF Negative(p.ex) THEN 0 - exn ELSE exn), digits |-> digits]

RECURSIVE DigitsLess(_, _, _)
DigitsLess(a, b, i) == IF i > Len(b) THEN FALSE
                       ELSE IF i > Len(a) THEN TRUE
                       ELSE IF Ch(a, i) = Ch(b, i) THEN DigitsLess(a, b, i + 1)
                       ELSE DigVal[Ch(a, i)] < DigVal[Ch(b, i)]
AbsLess(a, b) == a.mag < b.mag \/ (a.mag = b.mag /\ DigitsLess(a.digits, b.digits, 1))
NumLess(a, b) == CASE a.sign # b.sign -> a.sign < b.sign
                   [] a.sign = 0 -> FALSE
                   [] a.sign = 1 -> AbsLess(a, b)
                   [] OTHER -> AbsLess(b, a)

\* Characters in the order of their code points (for those that are used).
CodeOf == TLCEval([c \in {Table.low[k] : k \in 2..400} |-> CHOOSE k \in 2..400 : Table.low[k] = c])
Code(c) == IF c \in DOMAIN CodeOf THEN CodeOf[c] ELSE IF c \in DOMAIN Table.code THEN Table.code[c] ELSE 200000
RECURSIVE TextLess(_, _, _)
TextLess(a, b, i) == IF i > Len(b) THEN FALSE
                     ELSE IF i > Len(a) THEN TRUE
                     ELSE IF Ch(a, i) = Ch(b, i) THEN TextLess(a, b, i + 1)
                     ELSE Code(Ch(a, i)) < Code(Ch(b, i))
StrLess(a, b) == TextLess(a, b, 1)

\* Sort keys: numbers by value, before all others, which are ordered as text.
IsNumberKey(s) == IsDecimal(s) \/ IsInf(s)
KeyLess(a, b) == CASE a.num /\ b.num -> NumLess(a.val, b.val)
                   [] a.num /\ ~b.num -> TRUE
                   [] ~a.num /\ b.num -> FALSE
                   [] OTHER -> StrLess(a.txt, b.txt)
KeyOf(s) == IF IsNumberKey(s) THEN [num |-> TRUE, val |-> Number(s), txt |-> s]
            ELSE [num |-> FALSE, val |-> 0, txt |-> s]
\* Positions of the keys, sorted; equal keys keep their order.
StableOrder(keys, up) ==
  LET ks == TLCEval([i \in 1..Len(keys) |-> KeyOf(keys[i])])
      Before(i, j) == IF up THEN KeyLess(ks[i], ks[j]) ELSE KeyLess(ks[j], ks[i])
      Less(i, j) == Before(i, j) \/ (~Before(j, i) /\ i < j)
  IN SortSeq([i \in 1..Len(keys) |-> i], Less)
=============================================================================
