------------------------------- MODULE MC_Steps -------------------------------
(* All short histories of builders over a pool of forms.                      *)
EXTENDS Steps
Pool == ndJsonDeserialize(IOEnv.FORMS)
Bound == Dec(IOEnv.BOUND)
World0 == JsonDeserialize(IOEnv.WORLD)
Forms == [f \in 1..Len(Pool) |-> Pool[f].tree[1]]
VARIABLES s, hist, outs, count
vars == <<s, hist, outs, count>>
\* hist: of each builder, what was done to it and to those it is a copy of; outs: what this yielded.
Init == s = StepsInit(World0) /\ hist = <<<<>>>> /\ outs = <<<<>>>> /\ count = 0
Ops == {[op |-> "node", ks |-> <<f>>] : f \in 1..Len(Pool)}
       \cup {[op |-> "nodes", ks |-> <<f, g>>] : f, g \in 1..(IF Len(Pool) < 4 THEN Len(Pool) ELSE 4)}
       \cup {[op |-> "include", dirs |-> <<"d">>], [op |-> "clone"], [op |-> "switch", k |-> 0]} \cup {[op |-> "switch", k |-> b - 1] : b \in 1..Len(s.at)}
Do(op) == LET y == StepOp(s, Forms, op) IN
  /\ s' = y[2] /\ count' = count + 1
  /\ hist' = CASE op.op = "clone" -> Append(hist, hist[s.cur]) [] op.op = "switch" -> hist [] OTHER -> [hist EXCEPT ![s.cur] = Append(@, op)]
  /\ outs' = CASE op.op = "clone" -> Append(outs, outs[s.cur]) [] op.op \in {"switch", "include"} -> outs [] OTHER -> [outs EXCEPT ![s.cur] = Append(@, y[1])]
Next == count < Bound /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Glued(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Taken(b) == SelectSeq(hist[b], LAMBDA op : op.op # "include")
Dirs(b) == Glued([k \in 1..Len(SelectSeq(hist[b], LAMBDA op : op.op = "include")) |-> <<"d">>])
Everything(b) == LET t == Taken(b) IN Glued([k \in 1..Len(t) |-> [m \in 1..Len(t[k].ks) |-> Forms[t[k].ks[m]]]])
AllOk(b) == \A k \in 1..Len(outs[b]) : outs[b][k].ok
\* The pieces, one after the other, are the whole, as long as nothing fails and nothing is added to the search.
Pieces == \A b \in 1..Len(s.at) : (Dirs(b) = <<>> /\ AllOk(b)) =>
            LET r == ExpNodes(Everything(b), Fresh(World0)) IN
            r.ok /\ r.out = Glued([k \in 1..Len(outs[b]) |-> outs[b][k].out]) /\ r.st = s.at[b]
\* A builder remembers nothing but what was done to it: alone it would be the same.
RECURSIVE Alone(_, _)
Alone(a, ops) == IF ops = <<>> THEN a ELSE Alone(StepOp(a, Forms, Head(ops))[2], Tail(ops))
Independent == \A b \in 1..Len(s.at) : Alone(StepsInit(World0), hist[b]).at[1] = s.at[b]
\* What fails leaves no more than a part of what it would have done: nothing that was defined is lost.
Keeps == [][\A b \in 1..Len(s.at) : DOMAIN s.at[b].env \subseteq DOMAIN s'.at[b].env /\ (b # s.cur => s'.at[b] = s.at[b])]_vars
\* Directories are searched in the order they were added.
Searched == \A b \in 1..Len(s.at) : s.at[b].x.dirs = World0.dirs \o Dirs(b)
=============================================================================
