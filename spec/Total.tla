------------------------------- MODULE Total -------------------------------
(* How a document may end: with a result, or with an error that has a place  *)
(* in a text that was read, and a message that shows it.                     *)
(* A text is a sequence of <<character, byte offset, columns>>; a place is   *)
(* <<source, byte offset, line, bytes from start of line, bytes>>.           *)
EXTENDS Txt

\* Index of the character at a byte offset (one past the end is a place as well), or 0.
RECURSIVE Find(_, _, _, _)
Find(text, off, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET m == (lo + hi) \div 2 IN
       IF text[m][2] = off THEN m ELSE IF text[m][2] < off THEN Find(text, off, m + 1, hi) ELSE Find(text, off, lo, m - 1)
At(src, off) == IF off = src.size THEN Len(src.text) + 1 ELSE Find(src.text, off, 1, Len(src.text))

\* The line a place is on, as [no, from, upto]: number, index of its first character, and of the newline that ends it.
LineAt(src, i) ==
  LET F(acc, k) == IF src.text[k][1] = NL THEN [no |-> acc.no + 1, from |-> k + 1] ELSE acc
      start == FoldLeft(F, [no |-> 1, from |-> 1], [k \in 1..(i - 1) |-> k])
      ends == {k \in i..Len(src.text) : src.text[k][1] = NL}
  IN [no |-> start.no, from |-> start.from, upto |-> IF ends = {} THEN Len(src.text) + 1 ELSE CHOOSE k \in ends : \A j \in ends : k <= j]
ColumnsOf(src, from, upto) == FoldLeft(LAMBDA a, k : a + src.text[k][3], 0, [k \in 1..(upto - from) |-> from + k - 1])
TextOf(src, from, upto) == Cat([k \in 1..(upto - from) |-> src.text[from + k - 1][1]])
OffsetOf(src, i) == IF i > Len(src.text) THEN src.size ELSE src.text[i][2]

\* srcs: source -> [text, size]
Place(srcs, p) ==
  /\ Len(p) = 5
  /\ p[1] \in DOMAIN srcs
  /\ LET src == srcs[p[1]] IN
     /\ p[2] >= 0 /\ p[5] >= 0 /\ p[2] + p[5] <= src.size
     /\ At(src, p[2]) # 0 /\ At(src, p[2] + p[5]) # 0
     /\ LET l == LineAt(src, At(src, p[2])) IN p[3] = l.no /\ p[4] = p[2] - OffsetOf(src, l.from)

RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN s ELSE LET h == Times(s, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s
\* What an error shows of a place: the line it is on, and where on it.
Shows(srcs, p) ==
  LET src == srcs[p[1]]
      i == At(src, p[2])
      l == LineAt(src, i)
      margin == "  " \o ToString(l.no) \o " |"
      before == ColumnsOf(src, l.from, i)
  IN margin \o " " \o TextOf(src, l.from, l.upto) \o NL
     \o Times(" ", Len(margin) - 1) \o "| " \o Times("~", before) \o Times("^", ColumnsOf(src, i, At(src, p[2] + p[5]))) \o NL
Where0(srcs, p) == LET src == srcs[p[1]]  i == At(src, p[2]) IN
  "(" \o p[1] \o ":" \o ToString(p[3]) \o ":" \o ToString(ColumnsOf(src, LineAt(src, i).from, i) + 1) \o ")"
Message(srcs, p, msg) ==
  LET s == Shows(srcs, p) IN
  /\ StartsWith(msg, s \o "[**] ")
  /\ LET rest == Drop(msg, Len(s) + 5)
         w == Where0(srcs, p) \o ": "
         at == Index(rest, w)
     IN at > 1 /\ Len(rest) > at + Len(w) - 1          \* the kind of error, its place, and what is wrong
=============================================================================
