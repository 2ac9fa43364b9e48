---------------------------- MODULE Trace_Stream ----------------------------
(* Recorded operations on lexers and parsers, one per step, and recorded     *)
(* texts in pieces.                                                          *)
EXTENDS Stream
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, j, st, verdict
vars == <<i, j, st, verdict>>

\* Trees as the list of their nodes: each with its depth, before what it holds.
Node(n, d) == [t |-> n.t, d |-> d, v |-> IF n.t = "l" THEN "" ELSE n.v, w |-> n.w, e |-> IF n.t = "l" THEN n.e ELSE "", p |-> n.p, q |-> IF n.t = "l" THEN n.q ELSE <<>>]
RECURSIVE Flat(_, _)
Flat(t, d) == LET F(acc, n) == acc \o <<Node(n, d)>> \o (CASE n.t = "l" -> Flat(n.k, d + 1) [] n.t = "a" -> Flat(<<n.n>>, d + 1) [] OTHER -> <<>>)
              IN FoldLeft(F, <<>>, t)
Token(a, b) == a.t = b.t /\ Cat(a.v) = b.v /\ a.w = b.w /\ a.p = b.p
Same(x, y) ==
  /\ x.o = y.o
  /\ CASE x.o = "token" -> Token(x.v, y.v)
       [] x.o = "error" -> x.v = y.v
       [] x.o = "tokens" -> Len(x.v) = Len(y.v) /\ \A k \in 1..Len(x.v) : x.v[k].o = y.v[k].o /\ (IF x.v[k].o = "token" THEN Token(x.v[k].v, y.v[k].v) ELSE x.v[k].v = y.v[k].v)
       [] x.o = "tree" -> Flat(x.v, 0) = y.v
       [] OTHER -> TRUE
Text(c) == [k \in 1..Len(c.src) |-> [c |-> c.src[k][1], b |-> c.src[k][2], w |-> c.src[k][3]]]

\* A text in pieces: every way to read it that there is.
Fed(c) ==
  LET got == Received(c.pieces)
      file == Decode(Bytes(c.pieces))
      r == TLCEval(Read(Text(c)))
      Way(w, x) == IF ~w.ok THEN ~x.read
                   ELSE /\ x.read /\ x.source /\ x.name
                        /\ w.out = [k \in 1..Len(c.src) |-> c.src[k][4]]
                        /\ r.ok = x.ok
                        /\ IF r.ok THEN Flat(r.tree, 0) = x.tree ELSE r.p = x.p
  IN /\ Way(got, c.outs[1])
     /\ \A k \in 2..Len(c.outs) : Way(file, c.outs[k])

Init == /\ i \in 1..Len(Trace) /\ j = 0 /\ verdict = "run" /\ st = StreamInit
Step(c) ==
  CASE c.what = "feed" -> /\ verdict' = IF Fed(c) THEN "ok" ELSE "bad"
                          /\ UNCHANGED <<j, st>>
    [] j >= Len(c.outs) -> verdict' = "ok" /\ UNCHANGED <<j, st>>
    [] OTHER ->
        LET l == TLCEval(Lex(Text(c)))
            x == IF c.what = "lexers" THEN LexOp(st, l, c.ops[j + 1]) ELSE ParOp(st, TLCEval(Outcome(l, ParseToks(l.toks))), TLCEval(Forms(l)), c.ops[j + 1])
        IN IF Same(x[1], c.outs[j + 1])
           THEN j' = j + 1 /\ st' = x[2] /\ verdict' = verdict
           ELSE verdict' = "bad" /\ UNCHANGED <<j, st>>
Next == /\ verdict = "run" /\ i' = i
        /\ Step(Trace[i])
        /\ verdict' = "bad" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
