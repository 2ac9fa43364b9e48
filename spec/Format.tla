------------------------------- MODULE Format -------------------------------
(* Format strings: {} {0} {name} {:>8} {:.3} {{ }}                           *)
EXTENDS Numbers

\* Pieces of a format string: [lit] or [name, spec]; or <<FALSE>> if malformed.
RECURSIVE FmtPieces(_, _, _)
FmtPieces(s, lit, out) ==
  IF s = "" THEN [ok |-> TRUE, ps |-> Append(out, [k |-> "lit", v |-> lit, spec |-> ""])]
  ELSE IF StartsWith(s, "{{") THEN FmtPieces(Drop(s, 2), lit \o "{", out)
  ELSE IF StartsWith(s, "}}") THEN FmtPieces(Drop(s, 2), lit \o "}", out)
  ELSE IF StartsWith(s, "}") THEN [ok |-> FALSE, ps |-> <<>>]
  ELSE IF StartsWith(s, "{")
    THEN LET close == Index(s, "}") IN
         IF close = 0 THEN [ok |-> FALSE, ps |-> <<>>]
         ELSE LET inner == SubSeq(s, 2, close - 1)
                  colon == Index(inner, ":")
                  name == IF colon = 0 THEN inner ELSE SubSeq(inner, 1, colon - 1)
                  spec == IF colon = 0 THEN "" ELSE Drop(inner, colon)
              IN IF HasChar(inner, "{") THEN [ok |-> FALSE, ps |-> <<>>]
                 ELSE FmtPieces(Drop(s, close), "", out \o <<[k |-> "lit", v |-> lit, spec |-> ""], [k |-> "arg", v |-> name, spec |-> spec]>>)
  ELSE FmtPieces(Drop(s, 1), lit \o Ch(s, 1), out)

\* Number the placeholders that have no name, skipping numbers used explicitly.
RECURSIVE Free(_, _), NumberFrom(_, _, _, _)
Free(n, used) == IF ToString(n) \in used THEN Free(n + 1, used) ELSE n
NumberFrom(ps, i, n, used) ==
  IF i > Len(ps) THEN ps
  ELSE IF ps[i].k = "arg" /\ ps[i].v = ""
       THEN LET m == Free(n, used) IN NumberFrom([ps EXCEPT ![i].v = ToString(m)], i + 1, m + 1, used)
       ELSE NumberFrom(ps, i + 1, n, used)

Aligns == {"<", "^", ">"}
RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)
RECURSIVE DigitsAt(_, _)
DigitsAt(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Digits THEN Ch(s, i) \o DigitsAt(s, i + 1) ELSE ""

\* [[fill]align][sign]['#']['0'][width]['.' precision]['?']
Spec0(spec) ==
  LET fill == IF Len(spec) >= 2 /\ Ch(spec, 2) \in Aligns THEN Ch(spec, 1) ELSE ""
      a == IF fill # "" THEN Drop(spec, 1) ELSE spec
      align == IF Len(a) > 0 /\ Ch(a, 1) \in Aligns THEN Ch(a, 1) ELSE ""
      b0 == IF align # "" THEN Drop(a, 1) ELSE a
      sign == IF Len(b0) > 0 /\ Ch(b0, 1) \in {"+", "-"} THEN Ch(b0, 1) ELSE ""
      b1 == IF sign # "" THEN Drop(b0, 1) ELSE b0
      b == IF Len(b1) > 0 /\ Ch(b1, 1) = "#" THEN Drop(b1, 1) ELSE b1
      zero == Len(b) > 0 /\ Ch(b, 1) = "0"
      c == IF zero THEN Drop(b, 1) ELSE b
      width == DigitsAt(c, 1)
      d == Drop(c, Len(width))
      point == Len(d) > 0 /\ Ch(d, 1) = "."
      prec == IF point THEN DigitsAt(d, 2) ELSE ""
      rest == IF point THEN Drop(d, 1 + Len(prec)) ELSE d
  IN [fill |-> fill, align |-> align, sign |-> sign, zero |-> zero, width |-> width, point |-> point, prec |-> prec, rest |-> rest]
BadSpec(spec) == LET s == Spec0(spec) IN
                 \/ s.rest \notin {"", "?"}
                 \/ s.point /\ s.prec = ""
                 \/ Len(s.width) > 5 \/ Len(s.prec) > 5

\* Shown for debugging: quoted, with escapes.
Debugged(v) == "\"" \o Join([i \in 1..Len(v) |-> CASE Ch(v, i) = "\"" -> "\\\"" [] Ch(v, i) = "\\" -> "\\\\"
                                                   [] Ch(v, i) = "\n" -> "\\n" [] Ch(v, i) = "\t" -> "\\t" [] Ch(v, i) = "\r" -> "\\r"
                                                   [] OTHER -> Ch(v, i)], "") \o "\""

Pad(v, align, fill, width) ==
  LET n == width - Len(v) IN
  IF n <= 0 THEN v
  ELSE CASE align = "<" -> v \o Repeat(fill, n)
         [] align = ">" -> Repeat(fill, n) \o v
         [] OTHER -> Repeat(fill, n \div 2) \o v \o Repeat(fill, n - n \div 2)
\* The value is text; what reads as a number is aligned and signed as one.
FmtValue(spec, v) ==
  LET s == Spec0(spec)
      w == IF s.width = "" THEN 0 ELSE Dec(s.width)
      cut == IF s.prec = "" THEN v ELSE SubSeq(v, 1, IF Dec(s.prec) < Len(v) THEN Dec(s.prec) ELSE Len(v))
      number == IsNumeral(cut)
      plus == IF s.sign = "+" /\ number /\ ~Negative(cut) THEN "+" ELSE ""
      signed == plus \o cut
      lead == IF Len(signed) > 0 /\ Ch(signed, 1) \in {"+", "-"} THEN Ch(signed, 1) ELSE ""
      fill == IF s.fill = "" THEN " " ELSE s.fill
  IN IF s.rest = "?" THEN Pad(Debugged(v), IF s.align = "" THEN "<" ELSE s.align, fill, w)
     ELSE IF number /\ s.zero
          THEN lead \o Repeat("0", w - Len(signed)) \o Drop(signed, Len(lead))
     ELSE Pad(signed, IF s.align # "" THEN s.align ELSE IF number THEN ">" ELSE "<", fill, w)

Render(fmt, args) ==
  LET f == FmtPieces(fmt, "", <<>>)
      used == {f.ps[i].v : i \in {j \in 1..Len(f.ps) : f.ps[j].k = "arg"}}
      ps == NumberFrom(f.ps, 1, 0, used)
      ArgName(i) == IF args[i].named THEN args[i].name
                    ELSE ToString(Cardinality({j \in 1..(i - 1) : ~args[j].named}))
      Given(name) == {i \in 1..Len(args) : ArgName(i) = name}
      Value(name) == args[CHOOSE i \in Given(name) : \A j \in Given(name) : i <= j].v
      places == {i \in 1..Len(ps) : ps[i].k = "arg"}
  IN IF ~f.ok THEN [ok |-> FALSE, text |-> ""]
     ELSE IF \E i \in places : BadSpec(ps[i].spec) \/ Given(ps[i].v) = {} THEN [ok |-> FALSE, text |-> ""]
     ELSE [ok |-> TRUE, text |-> Join([i \in 1..Len(ps) |-> IF ps[i].k = "lit" THEN ps[i].v
                                                            ELSE FmtValue(ps[i].spec, Value(ps[i].v))], "")]
=============================================================================
