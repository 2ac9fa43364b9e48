-------------------------------- MODULE Txt --------------------------------
(* Text helpers.  TLC strings support Len, SubSeq and \o; text that is read  *)
(* character by character is a sequence of one-character strings instead,    *)
(* so that characters outside the basic plane stay whole.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

\* code point -> character, for the characters used here
Table == JsonDeserialize(IOEnv.CHARS)
CharOf(n) == IF n < 768 THEN Table.low[n + 1] ELSE Table.rare[ToString(n)]

RECURSIVE CatFrom(_, _)
CatFrom(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i] \o CatFrom(cs, i + 1)
Cat(cs) == IF Len(cs) <= 200 THEN CatFrom(cs, 1) ELSE FoldLeft(LAMBDA a, c : a \o c, "", cs)

\* characters of a (basic plane) string
Ch(s, i) == SubSeq(s, i, i)
Chars(s) == TLCEval([i \in 1..Len(s) |-> Ch(s, i)])
Drop(s, n) == SubSeq(s, n + 1, Len(s))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasChar(s, c) == \E i \in 1..Len(s) : Ch(s, i) = c
AnyChar(s, S) == \E i \in 1..Len(s) : Ch(s, i) \in S

RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                      ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE IndexFrom(s, p, i + 1)
\* 1-based index of the first occurrence of a non-empty p at or after i, or 0
Index(s, p) == IndexFrom(s, p, 1)

RECURSIVE Split(_, _)
Split(s, sep) ==
  IF sep = "" THEN <<"">> \o Chars(s) \o <<"">>   \* as Rust splits by the empty string
  ELSE LET i == Index(s, sep) IN
       IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + Len(sep), Len(s)), sep)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN "" ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == IF Len(ss) = 0 THEN "" ELSE FoldLeft(LAMBDA a, s : a \o sep \o s, ss[1], Tail(ss))

\* replace every single character c of s by F(c)
RECURSIVE MapFrom(_, _, _)
MapFrom(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(Ch(s, i)) \o MapFrom(F, s, i + 1)
MapChars(F(_), s) == IF Len(s) = 0 THEN "" ELSE MapFrom(F, s, 1)

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerOf == [c \in {Ch(Upper, i) : i \in 1..26} |-> LET i == CHOOSE j \in 1..26 : Ch(Upper, j) = c IN Ch(Lower, i)]
LowerChar(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
ToLower(s) == MapChars(LowerChar, s)      \* ASCII only

DigVal == [c \in Digits |-> CHOOSE n \in 0..9 : ToString(n) = c]
HexVal == [c \in Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
             CASE c \in Digits -> DigVal[c]
               [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
               [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15]
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE DecFrom(_, _, _)
DecFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE DecFrom(s, i + 1, acc * 10 + DigVal[Ch(s, i)])
Dec(s) == DecFrom(s, 1, 0)

BS == "\\"
DQ == "\""
NL == "\n"
Ws == {" ", "\t", "\r", "\n"}

------------------------------------------------------------------------------
(* Escapes of string literals.  cs is a sequence of characters.              *)
\* An escape that is none, and where it begins.
Bad(i) == [ok |-> FALSE, v |-> <<>>, at |-> i]
Simple == [c \in {"a","b","t","n","v","f","r","e","`","'",DQ,BS} |->
   CASE c = "a" -> CharOf(7) [] c = "b" -> CharOf(8) [] c = "t" -> "\t" [] c = "n" -> NL
     [] c = "v" -> CharOf(11) [] c = "f" -> CharOf(12) [] c = "r" -> "\r" [] c = "e" -> CharOf(27)
     [] OTHER -> c]
Octal == {"0","1","2","3","4","5","6","7"}

RECURSIVE HexNum(_, _, _, _)
HexNum(cs, i, j, acc) == IF i > j THEN acc ELSE IF acc > 1114111 THEN acc
                         ELSE HexNum(cs, i + 1, j, IF cs[i] = "+" THEN acc ELSE acc * 16 + HexVal[cs[i]])
AllHex(cs, i, j) == i <= j /\ j <= Len(cs) /\ \A k \in i..j : cs[k] \in DOMAIN HexVal
\* Digits may follow a plus sign, as numbers do for the library that reads them.
Signless(cs, i) == IF i <= Len(cs) /\ cs[i] = "+" THEN i + 1 ELSE i
IsHex(cs, i, j) == AllHex(cs, Signless(cs, i), j)
Scalar(n) == n <= 1114111 /\ ~(n >= 55296 /\ n <= 57343)

RECURSIVE Unescape(_, _, _)
Unescape(cs, i, out) ==
  IF i > Len(cs) THEN [ok |-> TRUE, v |-> out]
  ELSE IF cs[i] # BS THEN Unescape(cs, i + 1, Append(out, cs[i]))
  ELSE IF i = Len(cs) THEN Bad(i)
  ELSE LET c == cs[i + 1]
           Code(n, next) == IF Scalar(n) THEN Unescape(cs, next, Append(out, CharOf(n))) ELSE Bad(i)
       IN CASE c \in DOMAIN Simple -> Unescape(cs, i + 2, Append(out, Simple[c]))
            [] c = "x" -> IF IsHex(cs, i + 2, i + 3) THEN Code(HexNum(cs, i + 2, i + 3, 0), i + 4) ELSE Bad(i)
            [] c = "u" ->
                 IF i + 2 <= Len(cs) /\ cs[i + 2] = "{"
                 THEN LET ends == {k \in (i + 3)..Len(cs) : cs[k] = "}"} IN
                      IF ends = {} THEN Bad(i)
                      ELSE LET e == CHOOSE k \in ends : \A m \in ends : k <= m IN
                           IF IsHex(cs, i + 3, e - 1)
                           THEN Code(HexNum(cs, i + 3, e - 1, 0), e + 1) ELSE Bad(i)
                 ELSE IF IsHex(cs, i + 2, i + 5) THEN Code(HexNum(cs, i + 2, i + 5, 0), i + 6) ELSE Bad(i)
            [] c \in Octal ->
                 LET n1 == IF i + 2 <= Len(cs) /\ cs[i + 2] \in Octal THEN 1 ELSE 0
                     n2 == IF n1 = 1 /\ i + 3 <= Len(cs) /\ cs[i + 3] \in Octal THEN 2 ELSE n1
                     v == CASE n2 = 0 -> DigVal[c]
                            [] n2 = 1 -> DigVal[c] * 8 + DigVal[cs[i + 2]]
                            [] OTHER -> DigVal[c] * 64 + DigVal[cs[i + 2]] * 8 + DigVal[cs[i + 3]]
                 IN Code(v, i + 2 + n2)
            [] OTHER -> Bad(i)

\* A backslash makes the character after it an ordinary one.
RECURSIVE Sanitize(_, _, _)
Sanitize(cs, i, out) ==
  IF i > Len(cs) THEN out
  ELSE IF cs[i] = BS THEN IF i = Len(cs) THEN out ELSE Sanitize(cs, i + 2, Append(out, cs[i + 1]))
  ELSE Sanitize(cs, i + 1, Append(out, cs[i]))
=============================================================================
