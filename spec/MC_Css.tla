------------------------------- MODULE MC_Css -------------------------------
(* Every rule of a few parts: at each step the braces that are open are the  *)
(* ones still to be closed; every selector, property and value appears once, *)
(* in order.                                                                 *)
EXTENDS Markup
CONSTANT Bound
P0 == <<"mc", 0, 1, 0, 1>>
A(t, v) == [t |-> t, v |-> v, w |-> "", p |-> P0]
At(v, n) == [t |-> "a", v |-> v, n |-> n, w |-> "", p |-> P0]
L(k) == [t |-> "l", k |-> k, w |-> " ", e |-> "", p |-> P0, q |-> P0]
Parts == <<A("y", "p"), A("s", "a b"), A("n", "1"), At("c", A("y", "v")), At("d", A("s", "x y")), At("e", L(<<A("y", "calc"), L(<<A("y", "+"), A("n", "2"), A("n", "3")>>)>>)),
           At("f", L(<<A("y", "rgba"), A("n", "4"), A("n", "5")>>)), A("y", "@media"), A("y", "@import"), A("y", "@font-face"),
           L(<<A("y", "q"), At("g", A("n", "6"))>>), L(<<A("y", "@supports"), L(<<A("y", "r")>>)>>), L(<<>>), At("h", At("i", A("y", "v"))), L(<<A("y", "@page"), At("j", L(<<>>))>>)>>
VARIABLES ks, s
vars == <<ks, s>>
Rule0 == L([k \in 1..Len(ks) |-> Parts[ks[k]]])
Init == ks = <<>> /\ s = MarkInit("css", <<Rule0>>)
Grow == Len(ks) < Bound /\ (\E k \in 1..Len(Parts) : ks' = Append(ks, k)) /\ s' = MarkInit("css", <<L([k \in 1..Len(ks') |-> Parts[ks'[k]]])>>)
Fresh == s.out = "" /\ Len(s.todo) = 1 /\ s.err = <<>>
Write == s.todo # <<>> /\ s' = MarkStep(s, <<>>) /\ ks' = ks
Next == (Fresh /\ Grow) \/ Write
Spec == Init /\ [][Next]_vars

Count(v, c) == Cardinality({k \in 1..Len(v) : Ch(v, k) = c})
Braces == s.err = <<>> => Count(s.out, "{") - Count(s.out, "}") + Cardinality({k \in 1..Len(s.todo) : s.todo[k].i = "text" /\ HasChar(s.todo[k].v, "{")})
                            = Cardinality({k \in 1..Len(s.todo) : s.todo[k].i = "brace"})
Parens == s.err = <<>> => Count(s.out, "(") = Count(s.out, ")")
Done == s.todo = <<>> /\ s.err = <<>>
\* Words and numbers of the rule, in order, with names of properties.
RECURSIVE Words(_)
Operator == {"+", "-", "*", "/"}
Words(n) == CASE n.t = "l" -> FoldLeft(LAMBDA a, k : a \o Words(k), <<>>, SelectSeq(n.k, LAMBDA k : ~(k.t = "y" /\ k.v \in Operator)))
              [] n.t = "a" -> <<n.v>> \o Words(n.n)
              [] OTHER -> <<n.v>>
Found(v, ws) == FoldLeft(LAMBDA at, w : IF at = 0 THEN 0 ELSE LET i == IndexFrom(v, w, at) IN IF i = 0 THEN 0 ELSE i + Len(w), 1, ws) # 0
InOrder == Done => Found(s.out, Words(Rule0))
\* Only rules are written; what is none is an error, and so is a rule without selector.
Sel == {k \in 1..Len(ks) : Parts[ks[k]].t \in {"y", "n", "s"}}
Errors == (s.todo = <<>>) =>
   (s.err = <<>> <=>
     /\ 1 \in Sel
     /\ LET sp == Parts[ks[1]].v IN
        CASE sp = "@import" -> \A k \in 1..Len(ks) : ks[k] \notin {11, 14, 15}
          [] sp = "@media" ->
               LET ls == {k \in 2..Len(ks) : Parts[ks[k]].t = "l"} IN
               /\ \A k \in 2..Len(ks) : ks[k] # 14 /\ ks[k] # 13
               /\ \A k \in ls : \A j \in (k + 1)..Len(ks) : j \in ls
          [] OTHER -> /\ \A k \in 1..Len(ks) : k \in Sel => \A j \in 1..k : j \in Sel
                      /\ \A k \in 1..Len(ks) : k \in Sel \/ (Parts[ks[k]].t = "a" /\ ks[k] # 14))
\* Inside of a page it is the same text, not escaped.
Embedded == Done => LET st == L(<<A("y", "style"), Rule0>>) IN
                    Generate("html", <<L(<<A("y", "p"), st>>)>>, <<>>).out
                      = " <p><style>\n" \o SubSeq(s.out, 2, Len(s.out)) \o "</style></p>"
\* What a string of CSS stands for, as CSS reads it.
RECURSIVE CssRead(_, _), HexEnd(_, _)
HexEnd(v, i) == IF i <= Len(v) /\ Ch(v, i) \in DOMAIN HexVal THEN HexEnd(v, i + 1) ELSE i
CssRead(v, i) ==
  IF i > Len(v) THEN ""
  ELSE IF Ch(v, i) # BS THEN Ch(v, i) \o CssRead(v, i + 1)
  ELSE LET e == HexEnd(v, i + 1) IN
       IF e = i + 1 THEN Ch(v, e) \o CssRead(v, e + 1)
       ELSE CharOf(HexNum(Chars(v), i + 1, e - 1, 0)) \o CssRead(v, e + (IF e <= Len(v) /\ Ch(v, e) \in {" ", "\t", NL} THEN 1 ELSE 0))
Tricky == {DQ, BS, NL, "a", "4", " ", "'", CharOf(0), CharOf(11), CharOf(127), CharOf(133), CharOf(160), CharOf(8232), "\t"}
RECURSIVE Bare(_, _)
Bare(v, i) == IF i > Len(v) THEN TRUE ELSE IF Ch(v, i) = BS THEN Bare(v, i + 2) ELSE Ch(v, i) \notin {DQ, NL, CharOf(12), "\r"} /\ Bare(v, i + 1)
ASSUME \A n \in 0..3 : \A cs \in [1..n -> Tricky] :
          LET v == Cat(cs) q == CssString(v) inner == SubSeq(q, 2, Len(q) - 1) IN
          /\ Ch(q, 1) = DQ /\ Ch(q, Len(q)) = DQ /\ Bare(inner, 1)
          /\ CssRead(inner, 1) = v
Monotone == [][Write /\ s'.err = <<>> => StartsWith(s'.out, s.out)]_vars
=============================================================================
