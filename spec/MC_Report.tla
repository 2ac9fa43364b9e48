----------------------------- MODULE MC_Report ------------------------------
(* Every short text, and every part of it as the text an error is about:     *)
(* what is shown, read as a terminal shows it, names the part again.         *)
EXTENDS Report
CONSTANT Bound
\* narrow, wide, without a width of its own, several bytes, ends of lines
Kinds == {<<"a", 1, 1>>, <<"W", 3, 2>>, <<"o", 2, 0>>, <<"e", 2, 1>>, <<NL, 1, 1>>, <<"\t", 1, 1>>}
VARIABLES text, from, upto, shown
vars == <<text, from, upto, shown>>
RECURSIVE Bytes(_, _)
Bytes(t, n) == IF n = 0 THEN 0 ELSE t[n][2] + Bytes(t, n - 1)
Src == [text |-> [k \in 1..Len(text) |-> <<text[k][1], Bytes(text, k - 1), text[k][3]>>], size |-> Bytes(text, Len(text))]
Srcs == "f" :> Src
Off(k) == Bytes(text, k - 1)
\* Lines as anyone counts them.
LineNo == 1 + Cardinality({k \in 1..(from - 1) : text[k][1] = NL})
Start == CHOOSE k \in 1..from : (k = 1 \/ text[k - 1][1] = NL) /\ \A j \in k..(from - 1) : text[j][1] # NL
P == <<"f", Off(from), LineNo, Off(from) - Off(Start), Off(upto) - Off(from)>>

Init == text = <<>> /\ from = 1 /\ upto = 1 /\ shown = <<>>
Type(k) == shown = <<>> /\ Len(text) < Bound /\ text' = Append(text, k) /\ UNCHANGED <<from, upto, shown>>
Mark == /\ shown = <<>>
        /\ from' \in 1..(Len(text) + 1) /\ upto' \in from'..(Len(text) + 1)
        /\ text' = text
        /\ shown' = <<Shows(Srcs, P')>>
Next == (\E k \in Kinds : Type(k)) \/ Mark
Spec == Init /\ [][Next]_vars

Rows == Split(shown[1], NL)
Margin == Len("  " \o ToString(LineNo) \o " | ")
\* What is in each column of a row.
Cells(v) == FoldLeft(LAMBDA a, c : a \o (CASE c = "W" -> <<c, c>> [] c = "o" -> <<>> [] OTHER -> <<c>>), <<>>, Chars(v))
Quoted == SubSeq(Rows[1], Margin + 1, Len(Rows[1]))
Marks == SubSeq(Rows[2], Margin + 1, Len(Rows[2]))
Count(v, c) == Cardinality({k \in 1..Len(v) : Ch(v, k) = c})
Width(a, b) == FoldLeft(LAMBDA n, k : n + text[k][3], 0, [k \in 1..(b - a) |-> a + k - 1])

Known == shown # <<>> => Place(Srcs, P)
TwoRows == shown # <<>> => Len(Rows) = 3 /\ Rows[3] = ""
\* The row quotes the line of that number, and all of it.
RECURSIVE Words0(_)
Words0(k) == IF k > Len(text) \/ text[k][1] = NL THEN "" ELSE text[k][1] \o Words0(k + 1)
ItsLine == shown # <<>> => Quoted = Words0(Start) /\ StartsWith(Rows[1], "  " \o ToString(LineNo) \o " | ")
\* Tildes up to the text, and as many marks as it is wide, below it.
Below == shown # <<>> => /\ Marks = Times("~", Count(Marks, "~")) \o Times("^", Count(Marks, "^"))
                         /\ Count(Marks, "^") = Width(from, upto)
                         /\ SubSeq(Rows[2], 1, Margin) = Times(" ", Margin - 2) \o "| "
Above == shown # <<>> => \A k \in from..(upto - 1) :
            (text[k][3] > 0 /\ text[k][1] # NL /\ \A j \in from..k : text[j][1] # NL) =>
              LET at == Count(Marks, "~") + Width(from, k) + 1
                  cells == Cells(Quoted)
              IN at <= Len(cells) /\ cells[at] = text[k][1] /\ Ch(Marks, at) = "^"
\* Two places that look alike are only apart by what has no width.
Colours == Uncolour(ESC \o "[1;31m**" \o ESC \o "[0m] a" \o ESC \o "[0m", 1) = "**] a" /\ Uncolour("m[a" \o ESC, 1) = "m[a" \o ESC
Still == [][shown # <<>> => UNCHANGED vars]_vars
=============================================================================
