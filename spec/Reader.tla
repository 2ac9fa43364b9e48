------------------------------- MODULE Reader -------------------------------
(* Reading a document: a lexer that takes one character at a time, and a     *)
(* parser (a push-down automaton) that takes one token at a time.            *)
(*                                                                           *)
(* A character is [c, b, w]: the character, its length in bytes, and its     *)
(* width in columns.  A position is <<byte offset, line, bytes from start of *)
(* line, span in bytes>>.                                                    *)
EXTENDS Txt

------------------------------------------------------------------------------
(* Lexer.                                                                    *)
LexInit == [ m    |-> "ws",     \* ws, comment, ident, str0, str1, str, tstr
             w    |-> <<>>,     \* whitespace seen before the next token
             kind |-> "",       \* of the identifier being read: symbol, number, keyword
             buf  |-> <<>>,     \* text of the token being read
             esc  |-> FALSE,    \* was the last character an (unescaped) backslash?
             q    |-> 0,        \* consecutive unescaped quotes at the end of a tstr
             off  |-> 0, line |-> 1, bol |-> 0,
             at   |-> <<0, 1, 0>>,  \* where the current token starts
             toks |-> <<>> ]

Advance(s, ch) == IF ch.c = NL THEN [s EXCEPT !.off = @ + ch.b, !.line = @ + 1, !.bol = 0]
                  ELSE [s EXCEPT !.off = @ + ch.b, !.bol = @ + ch.b]

Tok(s, t, v) == [t |-> t, v |-> v, w |-> Cat(s.w), p |-> <<s.at[1], s.at[2], s.at[3], s.off - s.at[1]>>]
Emit(s, t, v) == [s EXCEPT !.m = "ws", !.w = <<>>, !.buf = <<>>, !.esc = FALSE, !.q = 0, !.kind = "",
                           !.toks = Append(@, Tok(s, t, v))]

Start(s) == [s EXCEPT !.at = <<s.off, s.line, s.bol>>]
Delimiter(c) == c \in Ws \cup {"(", ")", DQ}
KindOf(c) == CASE c = ":" -> "k" [] c \in Digits \cup {"+", "-"} -> "n" [] OTHER -> "y"

RECURSIVE LexStep(_, _)
LexStep(s, ch) ==
  LET c == ch.c
      n == Advance(s, ch)
  IN CASE s.m = "ws" ->
            CASE c \in Ws -> [n EXCEPT !.w = Append(@, c)]
              [] c = ";" -> [n EXCEPT !.m = "comment"]
              [] c = "(" -> Emit(Advance(Start(s), ch), "(", <<"(">>)
              [] c = ")" -> Emit(Advance(Start(s), ch), ")", <<")">>)
              [] c = DQ -> [Advance(Start(s), ch) EXCEPT !.m = "str0"]
              [] OTHER -> [Advance(Start(s), ch) EXCEPT !.m = "ident", !.kind = KindOf(c),
                             !.buf = IF c = ":" THEN <<>> ELSE <<c>>, !.esc = (c = BS)]
       \* A comment ends with its line; what precedes it is not kept.
       [] s.m = "comment" -> IF c = NL THEN [n EXCEPT !.m = "ws", !.w = <<NL>>] ELSE n
       [] s.m = "ident" ->
            IF s.esc THEN [n EXCEPT !.esc = FALSE, !.buf = Append(@, c)]
            ELSE IF Delimiter(c) THEN LexStep(Emit(s, s.kind, s.buf), ch)
            ELSE [n EXCEPT !.esc = (c = BS), !.buf = Append(@, c)]
       [] s.m = "str0" -> IF c = DQ THEN [n EXCEPT !.m = "str1"]
                          ELSE [n EXCEPT !.m = "str", !.buf = <<c>>, !.esc = (c = BS)]
       [] s.m = "str1" -> IF c = DQ THEN [n EXCEPT !.m = "tstr"]
                          ELSE LexStep(Emit(s, "s", <<>>), ch)
       [] s.m = "str" ->
            IF s.esc THEN [n EXCEPT !.esc = FALSE, !.buf = Append(@, c)]
            ELSE IF c = DQ THEN Emit(n, "s", s.buf)
            ELSE [n EXCEPT !.esc = (c = BS), !.buf = Append(@, c)]
       [] s.m = "tstr" ->
            IF s.esc THEN [n EXCEPT !.esc = FALSE, !.q = 0, !.buf = Append(@, c)]
            ELSE IF c = DQ
              THEN IF s.q = 2 THEN Emit(n, "s", SubSeq(s.buf, 1, Len(s.buf) - 2))
                   ELSE [n EXCEPT !.q = @ + 1, !.buf = Append(@, c)]
            ELSE [n EXCEPT !.esc = (c = BS), !.q = 0, !.buf = Append(@, c)]

\* At the end of the text.
LexEof(s) == CASE s.m = "ident" -> Emit(s, s.kind, s.buf)
               [] s.m = "str1" -> Emit(s, "s", <<>>)
               [] OTHER -> s
\* A string that is still open then, is an error where it starts.
LexErr(s) == CASE s.m \in {"str0", "str"} -> <<s.at[1], s.at[2], s.at[3], 1>>
               [] s.m = "tstr" -> <<s.at[1], s.at[2], s.at[3], 3>>
               [] OTHER -> <<>>

------------------------------------------------------------------------------
(* Parser.  The stack holds the lists and attributes that are still open.    *)
ParInit == [ stk |-> << [f |-> "R", k |-> <<>>, v |-> "", w |-> "", p |-> <<>>] >>,
             err |-> <<>> ]      \* <<>> or <<class, position>>

RECURSIVE Deliver(_, _)
Deliver(s, node) ==
  LET top == s.stk[Len(s.stk)]
      rest == SubSeq(s.stk, 1, Len(s.stk) - 1)
  IN IF top.f = "A"
     THEN Deliver([s EXCEPT !.stk = rest], [t |-> "a", v |-> top.v, n |-> node, w |-> top.w, p |-> top.p])
     ELSE [s EXCEPT !.stk = Append(rest, [top EXCEPT !.k = Append(@, node)])]

ParStep(s, tok) ==
  LET top == s.stk[Len(s.stk)]
      rest == SubSeq(s.stk, 1, Len(s.stk) - 1)
      Fail(cls, p) == [s EXCEPT !.err = <<cls, p>>]
  IN IF s.err # <<>> THEN s
     ELSE CASE tok.t = "(" -> [s EXCEPT !.stk = Append(@, [f |-> "L", k |-> <<>>, v |-> "", w |-> tok.w, p |-> tok.p])]
            [] tok.t = ")" ->
                 CASE top.f = "A" -> Fail("parse", top.p)     \* attribute without a value
                   [] top.f = "R" -> Fail("parse", tok.p)     \* nothing to close
                   [] OTHER -> Deliver([s EXCEPT !.stk = rest],
                                 [t |-> "l", k |-> top.k, w |-> top.w, e |-> tok.w, q |-> tok.p, p |-> top.p])
            [] tok.t = "k" -> [s EXCEPT !.stk = Append(@, [f |-> "A", k |-> <<>>, v |-> Cat(tok.v), w |-> tok.w, p |-> tok.p])]
            [] tok.t = "s" -> LET u == Unescape(tok.v, 1, <<>>) IN
                 IF u.ok THEN Deliver(s, [t |-> "s", v |-> Cat(u.v), w |-> tok.w, p |-> tok.p])
                 ELSE Fail("lex", tok.p)
            [] OTHER -> Deliver(s, [t |-> tok.t, v |-> Cat(Sanitize(tok.v, 1, <<>>)), w |-> tok.w, p |-> tok.p])

\* What the whole text means, once both machines have reached its end.
Outcome(lex, par) ==
  LET top == par.stk[Len(par.stk)] IN
  CASE par.err # <<>> -> [ok |-> FALSE, cls |-> par.err[1], p |-> par.err[2]]
    [] par.err = <<>> /\ LexErr(lex) # <<>> -> [ok |-> FALSE, cls |-> "lex", p |-> LexErr(lex)]
    [] par.err = <<>> /\ LexErr(lex) = <<>> /\ top.f # "R" -> [ok |-> FALSE, cls |-> "parse", p |-> top.p]
    [] OTHER -> [ok |-> TRUE, tree |-> top.k]

Lex(text) == LexEof(FoldLeft(LexStep, LexInit, text))
ParseToks(toks) == FoldLeft(ParStep, ParInit, toks)
Read(text) == LET l == Lex(text) IN Outcome(l, ParseToks(l.toks))
=============================================================================
