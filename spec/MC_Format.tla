------------------------------ MODULE MC_Format ------------------------------
(* Format strings that grow by one piece at a time, with arguments of every  *)
(* kind: every placeholder is filled, and everything else is kept.           *)
EXTENDS Format
CONSTANTS Texts, Refs, Fills0, Aligns0, Widths, Precs, Args0, Most
VARIABLES pieces, args
vars == <<pieces, args>>

Specs == [fill : Fills0, align : Aligns0, width : Widths, prec : Precs]
Sound(s) == s.fill = "" \/ s.align # ""
Pieces == {[k |-> "text", t |-> t] : t \in Texts}
          \cup {[k |-> "brace", t |-> b] : b \in {"{", "}"}}
          \cup {[k |-> "place", ref |-> r, spec |-> s] : r \in Refs, s \in {x \in Specs : Sound(x)}}
P(v) == [named |-> FALSE, name |-> "", v |-> v]
N(n, v) == [named |-> TRUE, name |-> n, v |-> v]
ArgsQuick == {<<>>, <<P("{}")>>, <<N("n", "ab"), P("-7"), N("n", "x"), P("abc")>>}
ArgsThorough == ArgsQuick \cup {<<P("12.5"), P("")>>, <<P("é"), N("n", "{n}"), P("inf"), P("}}")>>}
Init == pieces = <<>> /\ args \in Args0
Next == Len(pieces) < Most /\ pieces' \in {Append(pieces, p) : p \in Pieces} /\ UNCHANGED args
Spec == Init /\ [][Next]_vars

SpecText(s) == LET t == s.fill \o s.align \o s.width \o (IF s.prec = "" THEN "" ELSE "." \o s.prec)
               IN IF t = "" THEN "" ELSE ":" \o t
Written(p) == CASE p.k = "text" -> p.t [] p.k = "brace" -> p.t \o p.t
                [] OTHER -> "{" \o p.ref \o SpecText(p.spec) \o "}"
Format == Join([i \in 1..Len(pieces) |-> Written(pieces[i])], "")
R == Render(Format, args)

\* The argument of each placeholder, or none.
Numbered == {pieces[i].ref : i \in {j \in 1..Len(pieces) : pieces[j].k = "place"}}
Unnamed(n) == LET at == {i \in 1..Len(args) : ~args[i].named /\ Cardinality({j \in 1..(i - 1) : ~args[j].named}) = n}
              IN IF at = {} THEN <<>> ELSE <<args[CHOOSE i \in at : TRUE].v>>
Named(name) == LET at == {i \in 1..Len(args) : args[i].named /\ args[i].name = name}
               IN IF at = {} THEN <<>> ELSE <<args[CHOOSE i \in at : \A j \in at : i <= j].v>>
\* The n-th placeholder without a name takes the n-th number that nobody asks for.
Spare(n) == CHOOSE m \in 0..(n + Len(pieces)) :
              /\ ToString(m) \notin Numbered
              /\ Cardinality({k \in 0..(m - 1) : ToString(k) \notin Numbered}) = n
Argument(i) ==
  LET r == pieces[i].ref IN
  IF r = "" THEN Unnamed(Spare(Cardinality({j \in 1..(i - 1) : pieces[j].k = "place" /\ pieces[j].ref = ""})))
  ELSE IF AllDigits(r) THEN Unnamed(Dec(r)) ELSE Named(r)
Places == {i \in 1..Len(pieces) : pieces[i].k = "place"}

\* How long each piece is, and where.
Cut(i) == LET v == Argument(i)[1] p == pieces[i].spec.prec IN
          IF p = "" \/ Dec(p) >= Len(v) THEN v ELSE SubSeq(v, 1, Dec(p))
Long(i) == IF pieces[i].k # "place" THEN Len(pieces[i].t)
           ELSE LET w == pieces[i].spec.width IN
                IF w = "" \/ Dec(w) < Len(Cut(i)) THEN Len(Cut(i)) ELSE Dec(w)
RECURSIVE Before(_)
Before(i) == IF i = 1 THEN 0 ELSE Before(i - 1) + Long(i - 1)
Left(i) == LET n == Long(i) - Len(Cut(i))
               a == pieces[i].spec.align
           IN CASE a = "<" -> 0 [] a = ">" -> n [] a = "^" -> n \div 2
                [] OTHER -> IF IsNumeral(Cut(i)) THEN n ELSE 0
Padding(i) == IF pieces[i].spec.fill = "" THEN " " ELSE pieces[i].spec.fill
Segment(i) == SubSeq(R.text, Before(i) + 1, Before(i) + Long(i))

Decided == R.ok = (\A i \in Places : Argument(i) # <<>>)
Fills == R.ok =>
  /\ Len(R.text) = Before(Len(pieces) + 1)
  /\ \A i \in 1..Len(pieces) :
       IF i \notin Places THEN Segment(i) = pieces[i].t
       ELSE \A k \in 1..Long(i) :
              Ch(Segment(i), k) = IF k > Left(i) /\ k <= Left(i) + Len(Cut(i)) THEN Ch(Cut(i), k - Left(i)) ELSE Padding(i)
\* Arguments that nobody asks for change nothing.
Unused == R.ok => Render(Format, Append(args, [named |-> TRUE, name |-> "zz", v |-> "{}"])) = R
\* An unbalanced brace makes it an error.
Balanced == \A b \in {"{", "}"} :
              /\ ~Render(b \o " " \o Format, args).ok
              /\ ~Render(Format \o " " \o b, args).ok
=============================================================================
