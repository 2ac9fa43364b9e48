-------------------------------- MODULE Steps --------------------------------
(* A program that uses the library may expand a document piece by piece: any *)
(* of its forms, one or several at a time, in any order, as often as it      *)
(* likes, or all of it; it may add directories to search meanwhile, and copy *)
(* the builder.  A builder is the state of Expander: what it has defined so  *)
(* far, and the directories it searches, and whether it has read the document *)
(* (it does so once); that is all it remembers.                              *)
EXTENDS Expander

StepsInit(x) == [at |-> <<Fresh(x)>>, read |-> <<FALSE>>, cur |-> 1]
NoTree == [ok |-> TRUE, out |-> <<>>]
Files(s, files, paths) == [s EXCEPT !.at = [b \in 1..Len(s.at) |-> [s.at[b] EXCEPT !.x.files = files, !.x.paths = paths]]]

\* <<what it yields, the builders afterwards>>
Yield(s, r) == <<[ok |-> r.ok, out |-> IF r.ok THEN r.out ELSE <<>>], [s EXCEPT !.at[s.cur] = r.st]>>
StepOp(s, forms, op) ==
  CASE op.op = "nodes"   -> Yield(s, ExpNodes([k \in 1..Len(op.ks) |-> forms[op.ks[k]]], s.at[s.cur]))
    [] op.op = "node"    -> Yield(s, ExpNode(forms[op.ks[1]], s.at[s.cur]))
    [] op.op = "all"     -> Yield([s EXCEPT !.read[s.cur] = TRUE], ExpNodes(IF s.read[s.cur] THEN <<>> ELSE forms, s.at[s.cur]))
    [] op.op = "include" -> <<NoTree, [s EXCEPT !.at[s.cur].x.dirs = @ \o op.dirs]>>
    [] op.op = "clone"   -> <<NoTree, [s EXCEPT !.at = Append(@, s.at[s.cur]), !.read = Append(@, s.read[s.cur])]>>
    \* Files that appear, change or go are so for every builder, from then on.
    [] op.op = "write"   -> <<NoTree, Files(s, (op.path :> op.file) @@ s.at[1].x.files,
                                               SelectSeq(s.at[1].x.paths, LAMBDA f : \A k \in 1..Len(op.found) : op.found[k].path # f.path) \o op.found)>>
    [] op.op = "remove"  -> <<NoTree, Files(s, [f \in DOMAIN s.at[1].x.files \ {op.path} |-> s.at[1].x.files[f]],
                                               SelectSeq(s.at[1].x.paths, LAMBDA f : f.path # op.gone))>>
    [] op.op = "drop"    -> <<NoTree, s>>         \* a builder that is gone leaves what it has yielded, and the others
    [] op.op = "switch"  -> <<NoTree, [s EXCEPT !.cur = op.k + 1]>>
=============================================================================
