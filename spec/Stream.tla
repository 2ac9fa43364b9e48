------------------------------- MODULE Stream -------------------------------
(* Reading as a program that uses the library does it: tokens and            *)
(* expressions one at a time, looking ahead, beginning again, from copies;   *)
(* and texts that come in pieces.                                            *)
EXTENDS Reader

\* Readers of one text: how many tokens, or expressions, each has taken; and which is used.
StreamInit == [at |-> <<0>>, cur |-> 1]
Here(st) == st.at[st.cur]
Copy(st) == [st EXCEPT !.at = Append(@, Here(st))]
Switch(st, k) == [st EXCEPT !.cur = (k % Len(st.at)) + 1]
Take(st, n) == [st EXCEPT !.at[st.cur] = @ + n]

\* Tokens.  l is the text as the lexer takes it apart; it may end in an error.
Rest(l, n) == SubSeq(l.toks, n + 1, Len(l.toks))
AtEnd(l, n) == n = Len(l.toks) /\ LexErr(l) = <<>>
Next0(l, n) == IF n < Len(l.toks) THEN [o |-> "token", v |-> l.toks[n + 1]]
               ELSE IF LexErr(l) = <<>> THEN [o |-> "none"]
               ELSE [o |-> "error", v |-> LexErr(l)]
RECURSIVE Several(_, _, _)
Several(l, n, k) == IF k = 0 \/ AtEnd(l, n) THEN <<>>
                    ELSE LET x == Next0(l, n) IN IF x.o = "error" THEN <<x>> ELSE <<x>> \o Several(l, n + 1, k - 1)
\* <<what is answered, the readers after it>>
LexOp(st, l, op) ==
  CASE op.op = "eof" -> <<[o |-> IF AtEnd(l, Here(st)) THEN "yes" ELSE "no"], st>>
    [] op.op = "source" -> <<[o |-> "source"], st>>
    [] op.op = "peek" -> <<Next0(l, Here(st)), st>>
    [] op.op = "consume" -> LET x == Next0(l, Here(st)) IN <<x, IF x.o = "token" THEN Take(st, 1) ELSE st>>
    [] op.op = "restore" -> <<[o |-> "tokens", v |-> Several(l, Here(st), op.k)], st>>
    [] op.op = "clone" -> <<[o |-> "none"], Copy(st)>>
    [] op.op = "switch" -> <<[o |-> "none"], Switch(st, op.k)>>

\* Expressions.  r is what the whole text means, forms the ones before an error.
Forms(l) == ParseToks(l.toks).stk[1].k
ParOp(st, r, forms, op) ==
  LET n == Here(st)  e == [o |-> "error", v |-> r.p] IN
  CASE op.op = "source" -> <<[o |-> "source"], st>>
    [] op.op = "expr" -> IF n < Len(forms) THEN <<[o |-> "tree", v |-> <<forms[n + 1]>>], Take(st, 1)>>
                         ELSE <<IF r.ok THEN [o |-> "none"] ELSE e, st>>
    [] op.op = "rest" -> IF r.ok THEN <<[o |-> "tree", v |-> SubSeq(forms, n + 1, Len(forms))], Take(st, Len(forms) - n)>> ELSE <<e, st>>
    [] op.op = "clone" -> <<[o |-> "none"], Copy(st)>>
    [] op.op = "switch" -> <<[o |-> "none"], Switch(st, op.k)>>

------------------------------------------------------------------------------
(* Bytes to characters (UTF-8), as code points.                              *)
Cont(b) == b >= 128 /\ b < 192
Lead(b) == CASE b < 128 -> 1 [] b >= 194 /\ b < 224 -> 2 [] b >= 224 /\ b < 240 -> 3 [] b >= 240 /\ b < 245 -> 4 [] OTHER -> 0
\* One byte at a time: [out, need, acc, len, ok]
DecodeInit == [out |-> <<>>, need |-> 0, acc |-> 0, len |-> 0, ok |-> TRUE]
Least0(len) == CASE len = 2 -> 128 [] len = 3 -> 2048 [] OTHER -> 65536
DecodeStep(d, b) ==
  IF ~d.ok THEN d
  ELSE IF d.need = 0
  THEN LET n == Lead(b) IN
       CASE n = 0 -> [d EXCEPT !.ok = FALSE]
         [] n = 1 -> [d EXCEPT !.out = Append(@, b)]
         [] OTHER -> [d EXCEPT !.need = n - 1, !.len = n, !.acc = CASE n = 2 -> b - 192 [] n = 3 -> b - 224 [] OTHER -> b - 240]
  ELSE IF ~Cont(b) THEN [d EXCEPT !.ok = FALSE]
  ELSE LET a == d.acc * 64 + (b - 128) IN
       IF d.need > 1 THEN [d EXCEPT !.need = @ - 1, !.acc = a]
       ELSE IF a < Least0(d.len) \/ (a >= 55296 /\ a < 57344) \/ a > 1114111 THEN [d EXCEPT !.ok = FALSE]
       ELSE [d EXCEPT !.need = 0, !.acc = 0, !.len = 0, !.out = Append(@, a)]
Decode(bytes) == LET d == FoldLeft(DecodeStep, DecodeInit, bytes) IN IF d.ok /\ d.need = 0 THEN [ok |-> TRUE, out |-> d.out] ELSE [ok |-> FALSE]
\* A stream of pieces, some of which are faults.
Broken(pieces) == \E k \in 1..Len(pieces) : pieces[k].kind = "broken"
Bytes(pieces) == FoldLeft(LAMBDA acc, x : acc \o x.bytes, <<>>, pieces)
Received(pieces) == IF Broken(pieces) THEN [ok |-> FALSE] ELSE Decode(Bytes(pieces))
=============================================================================
