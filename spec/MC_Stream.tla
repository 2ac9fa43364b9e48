------------------------------ MODULE MC_Stream ------------------------------
(* Every short text, and every sequence of a few operations on readers of it.*)
EXTENDS Stream
CONSTANTS Bound, Ops, Alphabet
VARIABLES cs, mode, st, told, taken, count
vars == <<cs, mode, st, told, taken, count>>
Text(v) == [k \in 1..Len(v) |-> [c |-> v[k], b |-> 1, w |-> 1]]
L == Lex(Text(cs))
R == Outcome(L, ParseToks(L.toks))
Init == cs = <<>> /\ mode = "type" /\ st = StreamInit /\ told = <<>> /\ taken = <<<<>>>> /\ count = 0
Type == mode = "type" /\ Len(cs) < Bound /\ \E c \in Alphabet : cs' = Append(cs, c) /\ UNCHANGED <<mode, st, told, taken, count>>
Begin == mode = "type" /\ mode' \in {"lex", "parse"} /\ UNCHANGED <<cs, st, told, taken, count>>
LexOps == {[op |-> o] : o \in {"eof", "peek", "consume", "clone"}} \cup {[op |-> "restore", k |-> 2], [op |-> "switch", k |-> 0], [op |-> "switch", k |-> 1]}
ParOps == {[op |-> o] : o \in {"expr", "rest", "clone"}} \cup {[op |-> "switch", k |-> 0], [op |-> "switch", k |-> 1]}
Do(op) ==
  LET x == IF mode = "lex" THEN LexOp(st, L, op) ELSE ParOp(st, R, Forms(L), op) IN
  /\ st' = x[2]
  /\ told' = IF op.op = "peek" THEN <<x[1]>> ELSE IF op.op \in {"eof", "restore"} THEN told ELSE <<>>
  /\ taken' = CASE op.op = "clone" -> Append(taken, taken[st.cur])
                [] op.op = "consume" /\ x[1].o = "token" -> [taken EXCEPT ![st.cur] = Append(@, x[1].v)]
                [] op.op \in {"expr", "rest"} /\ x[1].o = "tree" -> [taken EXCEPT ![st.cur] = @ \o x[1].v]
                [] OTHER -> taken
  /\ count' = count + 1 /\ UNCHANGED <<cs, mode>>
  \* What was seen ahead is what comes.
  /\ op.op = "consume" /\ told # <<>> => Assert(x[1] = told[1], "ahead")
  /\ op.op = "restore" /\ told # <<>> /\ told[1].o # "none" => Assert(x[1].v[1] = told[1], "restore")
  /\ op.op = "eof" /\ told # <<>> => Assert((x[1].o = "yes") = (told[1].o = "none"), "end")
Next == Type \/ Begin \/ (mode # "type" /\ count < Ops /\ \E op \in (IF mode = "lex" THEN LexOps ELSE ParOps) : Do(op))
Spec == Init /\ [][Next]_vars

Whole == IF mode = "lex" THEN L.toks ELSE Forms(L)
\* Every reader has taken the beginning of what there is, in order, and nothing twice.
InOrder == mode # "type" => \A k \in 1..Len(st.at) : taken[k] = SubSeq(Whole, 1, st.at[k]) /\ st.at[k] <= Len(Whole)
\* Only taking changes a reader, and only the one that is used.
Others == [][\A k \in 1..Len(st.at) : st'.at[k] # st.at[k] => k = st.cur]_vars
\* All expressions, one at a time, are the tree.
AllOfIt == (mode = "parse" /\ R.ok) => Forms(L) = R.tree
\* What can be taken before an error is what can be read without the rest of the text.
Before0 == (mode = "parse" /\ count = 0 /\ ~R.ok) =>
  \A k \in 0..Len(Forms(L)) : k = 0 \/ \E m \in 1..Len(cs) : LET r == Read(Text(SubSeq(cs, 1, m))) IN r.ok /\ r.tree = SubSeq(Forms(L), 1, k)
\* Characters: decoding what was encoded.
Encode(c) == CASE c < 128 -> <<c>> [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
               [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
               [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Codes == {0, 1, 65, 127, 128, 233, 2047, 2048, 8594, 55295, 57344, 65533, 65535, 65536, 128512, 1114111}
ASSUME \A a, b \in Codes : Decode(Encode(a) \o Encode(b)) = [ok |-> TRUE, out |-> <<a, b>>]
ASSUME \A a \in Codes \ {x \in Codes : x < 128} : \A k \in 1..(Len(Encode(a)) - 1) : ~Decode(SubSeq(Encode(a), 1, k)).ok /\ ~Decode(SubSeq(Encode(a), k + 1, Len(Encode(a)))).ok
ASSUME \A x \in {<<192, 128>>, <<193, 191>>, <<224, 128, 128>>, <<224, 159, 191>>, <<237, 160, 128>>, <<240, 128, 128, 128>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<255>>, <<128>>} : ~Decode(x).ok
\* Where a text is cut into pieces makes no difference; a fault does.
P(b) == [kind |-> "bytes", bytes |-> b]
I0 == [kind |-> "interrupted", bytes |-> <<>>]
B0 == [kind |-> "broken", bytes |-> <<>>]
ASSUME LET b == Encode(128512) \o <<65>> IN \A k \in 0..Len(b) :
          /\ Received(<<P(SubSeq(b, 1, k)), I0, P(SubSeq(b, k + 1, Len(b)))>>) = Received(<<P(b)>>)
          /\ ~Received(<<P(SubSeq(b, 1, k)), B0>>).ok
=============================================================================
