------------------------------ MODULE MC_Reader ------------------------------
(* The reader on every text over an alphabet, up to a length.                *)
EXTENDS Reader
CONSTANTS MaxLen, Alphabet
VARIABLES text, lex, par, done
vars == <<text, lex, par, done>>

Mk(c) == [c |-> c, b |-> IF c = "E" THEN 2 ELSE 1, w |-> 1]  \* E stands for a two-byte letter

Init == text = <<>> /\ lex = LexInit /\ par = ParInit /\ done = FALSE
Type(c) == /\ ~done /\ Len(text) < MaxLen
           /\ text' = Append(text, Mk(c))
           /\ lex' = LexStep(lex, Mk(c))
           /\ par' = FoldLeft(ParStep, par, SubSeq(lex'.toks, Len(lex.toks) + 1, Len(lex'.toks)))
           /\ done' = FALSE
End == /\ ~done /\ done' = TRUE /\ text' = text
       /\ lex' = LexEof(lex)
       /\ par' = FoldLeft(ParStep, par, SubSeq(lex'.toks, Len(lex.toks) + 1, Len(lex'.toks)))
Next == End \/ \E c \in Alphabet : Type(c)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Result == Outcome(lex, par)
Bytes(from, to) == SelectSeq([k \in 1..Len(text) |-> <<text[k].c,
     FoldLeft(LAMBDA a, ch : a + ch.b, 0, SubSeq(text, 1, k - 1))>>], LAMBDA x : x[2] >= from /\ x[2] < to)
Piece(from, to) == LET b == Bytes(from, to) IN Cat([k \in 1..Len(b) |-> b[k][1]])
Total == FoldLeft(LAMBDA a, ch : a + ch.b, 0, text)

\* C01: tokens are in order, do not overlap, and what lies between them is only
\* white space and comments; the white space recorded is that right before the token.
Quotes(t) == IF Piece(t.p[1], t.p[1] + 3) = "\"\"\"" /\ t.p[4] >= 6 THEN 3 ELSE 1
Spelled(t) == CASE t.t = "k" -> ":" \o Cat(t.v)
                [] t.t = "s" -> LET q == IF Quotes(t) = 3 THEN "\"\"\"" ELSE DQ IN q \o Cat(t.v) \o q
                [] OTHER -> Cat(t.v)
Gap(k) == LET T == lex.toks
              from == IF k = 1 THEN 0 ELSE T[k - 1].p[1] + T[k - 1].p[4]
              to == T[k].p[1]
          IN Piece(from, to)
RECURSIVE Blank(_, _)    \* white space and comments
Blank(s, comment) == IF s = "" THEN TRUE
                     ELSE LET c == Ch(s, 1) IN
                          IF comment THEN Blank(Drop(s, 1), c # NL)
                          ELSE IF c = ";" THEN Blank(Drop(s, 1), TRUE)
                          ELSE c \in Ws /\ Blank(Drop(s, 1), FALSE)
Tiling == \A k \in 1..Len(lex.toks) :
             LET t == lex.toks[k] IN
             /\ Piece(t.p[1], t.p[1] + t.p[4]) = Spelled(t)
             /\ Blank(Gap(k), FALSE)
             /\ EndsWith(Gap(k), t.w)
             /\ (~HasChar(Gap(k), ";")) => Gap(k) = t.w
Complete == (done /\ LexErr(lex) = <<>>) =>
              LET T == lex.toks
                  from == IF T = <<>> THEN 0 ELSE T[Len(T)].p[1] + T[Len(T)].p[4]
              IN Blank(Piece(from, Total), FALSE)

\* C02: accepted exactly when parentheses balance, strings are closed, keywords have values.
Depth(k) == FoldLeft(LAMBDA d, t : CASE t.t = "(" -> d + 1 [] t.t = ")" -> d - 1 [] OTHER -> d, 0, SubSeq(lex.toks, 1, k))
Valued(k) == lex.toks[k].t = "k" => k < Len(lex.toks) /\ lex.toks[k + 1].t # ")"
Escapes(k) == lex.toks[k].t = "s" => Unescape(lex.toks[k].v, 1, <<>>).ok
WellFormed == /\ LexErr(lex) = <<>>
              /\ \A k \in 1..Len(lex.toks) : Depth(k) >= 0 /\ Valued(k) /\ Escapes(k)
              /\ Depth(Len(lex.toks)) = 0
AcceptsExactly == done => (Result.ok <=> WellFormed)

RECURSIVE Flat(_)
Flat(n) == CASE n.t = "l" -> <<"(">> \o FlattenSeq([j \in 1..Len(n.k) |-> Flat(n.k[j])]) \o <<")">>
             [] n.t = "a" -> <<"k">> \o Flat(n.n)
             [] OTHER -> <<n.t>>
Mirrors == (done /\ Result.ok) => FlattenSeq([j \in 1..Len(Result.tree) |-> Flat(Result.tree[j])])
                                  = [k \in 1..Len(lex.toks) |-> lex.toks[k].t]

\* C04: a position's line is one more than the newlines before it, and its offset in the line is right.
Places == \A k \in 1..Len(lex.toks) :
            LET p == lex.toks[k].p
                before == Bytes(0, p[1])
                nls == {j \in 1..Len(before) : before[j][1] = NL}
                last == IF nls = {} THEN 0 ELSE before[CHOOSE j \in nls : \A m \in nls : m <= j][2] + 1
            IN p[2] = Cardinality(nls) + 1 /\ p[3] = p[1] - last
ErrorPlace == (done /\ ~Result.ok) => Result.p[1] < Total
=============================================================================
