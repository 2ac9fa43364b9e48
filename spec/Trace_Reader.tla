---------------------------- MODULE Trace_Reader ----------------------------
(* Every recorded run of the real reader must be a behaviour of Reader.      *)
EXTENDS Reader
Trace == ndJsonDeserialize(IOEnv.TRACE)
Level == IOEnv.LEVEL          \* what is compared: shape, atoms, tokens, places
VARIABLES i, verdict
vars == <<i, verdict>>

Text(c) == [k \in 1..Len(c.src) |-> [c |-> c.src[k][1], b |-> c.src[k][2], w |-> c.src[k][3]]]

\* Trees with only what the level compares, as the list of their nodes: each with its depth, before what it holds.
Node(n, d) ==
  LET W(x) == IF Level = "atoms" THEN "" ELSE x
      P(x) == IF Level = "places" THEN x ELSE <<>>
  IN CASE n.t = "l" -> [t |-> "l", d |-> d, v |-> "", w |-> W(n.w), e |-> W(n.e), p |-> P(n.p), q |-> P(n.q)]
       [] n.t = "a" -> [t |-> "a", d |-> d, v |-> IF Level = "shape" THEN "" ELSE n.v, w |-> W(n.w), e |-> "", p |-> P(n.p), q |-> <<>>]
       [] OTHER -> [t |-> IF Level = "shape" THEN "" ELSE n.t, d |-> d, v |-> IF Level = "shape" THEN "" ELSE n.v, w |-> W(n.w), e |-> "", p |-> P(n.p), q |-> <<>>]
RECURSIVE Flat(_, _)
Flat(t, d) == LET F(acc, n) == acc \o <<Node(n, d)>> \o (CASE n.t = "l" -> Flat(n.k, d + 1) [] n.t = "a" -> Flat(<<n.n>>, d + 1) [] OTHER -> <<>>)
              IN FoldLeft(F, <<>>, t)
Views(t) == Flat(t, 0)
Recorded(t) == [j \in 1..Len(t) |-> Node(t[j], t[j].d)]

\* columns (terminal width) of the text between two byte offsets
Cols(text, from, to) ==
  LET F(acc, ch) == [o |-> acc.o + ch.b, n |-> acc.n + (IF acc.o >= from /\ acc.o < to THEN ch.w ELSE 0)]
  IN FoldLeft(F, [o |-> 0, n |-> 0], text).n

SameToks(c, text, l) ==
  /\ Len(c.toks) = Len(l.toks)
  /\ \A j \in 1..Len(l.toks) :
       LET a == l.toks[j]  b == c.toks[j] IN
       /\ a.t = b.t /\ Cat(a.v) = b.v /\ a.w = b.w /\ a.p[1] = b.p[1] /\ a.p[4] = b.p[4]
  /\ (LexErr(l) # <<>>) = c.lexerr

SamePlaces(c, text, l) ==
  Len(c.toks) = Len(l.toks) =>
  \A j \in 1..Len(l.toks) :
     LET a == l.toks[j]  b == c.toks[j] IN
     /\ a.p = b.p
     /\ b.col = Cols(text, a.p[1] - a.p[3], a.p[1]) + 1

\* What an error says about an escape that is none: the character escaped, and the place of the escape in its string.
SameEscape(c, l, r) ==
  c.esc # <<>> =>
  \E j \in 1..Len(l.toks) :
    /\ l.toks[j].p = r.p /\ l.toks[j].t = "s"
    /\ LET v == l.toks[j].v  u == Unescape(v, 1, <<>>) IN ~u.ok /\ c.esc = <<v[u.at + 1], u.at - 1>>

Match(c) ==
  LET text == Text(c)
      l == Lex(text)
      r == Outcome(l, ParseToks(l.toks))
  IN CASE Level = "tokens" -> SameToks(c, text, l)
       [] Level = "places" ->
            /\ SamePlaces(c, text, l)
            /\ (r.ok /\ c.ok) => Views(r.tree) = Recorded(c.tree)
            /\ (~r.ok /\ ~c.ok) => r.p = c.p /\ c.col = Cols(text, r.p[1] - r.p[3], r.p[1]) + 1
       [] Level = "shape" ->
            /\ r.ok = c.ok
            /\ r.ok => Views(r.tree) = Recorded(c.tree)
            /\ ~r.ok => r.cls = c.cls
       [] OTHER ->
            /\ r.ok = c.ok
            /\ ~r.ok => SameEscape(c, l, r)
            /\ r.ok => Views(r.tree) = Recorded(c.tree)

Init == i \in 1..Len(Trace) /\ verdict = "open"
Next == /\ verdict = "open" /\ i' = i
        /\ verdict' = IF Match(Trace[i]) THEN "accepted" ELSE "rejected"
        /\ verdict' = "rejected" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
