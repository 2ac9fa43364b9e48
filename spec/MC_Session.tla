----------------------------- MODULE MC_Session -----------------------------
(* All sessions of a few forms, drawn from a pool: the specification keeps   *)
(* the promises of the properties whatever the forms, and their order.       *)
(* A form of the pool is [tree, defs, leaves]: defs are the names it may     *)
(* define, and leaves tells whether macros may be left in what it produces.  *)
EXTENDS Expander
Pool == ndJsonDeserialize(IOEnv.FORMS)
Bound == Dec(IOEnv.BOUND)
World0 == JsonDeserialize(IOEnv.WORLD)
VARIABLES done, st, out, ok
vars == <<done, st, out, ok>>

RECURSIVE MacroFree(_)
MacroFree(n) == CASE n.t = "y" -> ~StartsWith(n.v, "%")
                  [] n.t = "l" -> \A k \in 1..Len(n.k) : MacroFree(n.k[k])
                  [] n.t = "a" -> MacroFree(n.n)
                  [] OTHER -> TRUE

Init == done = <<>> /\ st = Fresh(World0) /\ out = <<>> /\ ok = TRUE
Take(f) == LET r == ExpNodes(Pool[f].tree, st) IN
           /\ done' = Append(done, f)
           /\ ok' = r.ok
           /\ st' = r.st
           /\ out' = IF r.ok THEN out \o r.out ELSE <<>>
Next == ok /\ Len(done) < Bound /\ \E f \in 1..Len(Pool) : Take(f)
Spec == Init /\ [][Next]_vars

Form == Pool[done'[Len(done')]]
Begins(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* (A lambda is defined where it is evaluated, under a name that cannot be written.)
Names(s) == {name \in DOMAIN s.env : ~StartsWith(name, "__lambda")}
\* Text that is no macro is kept, and does nothing.
Identity == [][(\A k \in 1..Len(Form.tree) : MacroFree(Form.tree[k])) => ok' /\ out' = out \o Form.tree /\ st' = st]_vars
\* Only what a form defines at the top level is different afterwards.
Scoped == [][/\ Names(st') \subseteq Names(st) \cup Range(Form.defs)
             /\ Names(st) \subseteq Names(st')
             /\ \A name \in Names(st) : name \notin Range(Form.defs) => st'.env[name] = st.env[name]]_vars
\* Messages are only ever added, and output as well.
Grows == [][Begins(st.log, st'.log) /\ (ok' => Begins(out, out'))]_vars
\* No macro is left behind.
Expanded == [][(ok' /\ ~Form.leaves) => \A k \in (Len(out) + 1)..Len(out') : MacroFree(out'[k])]_vars
\* Definitions are identified by when they were made.
Identified == \A a, b \in Names(st) : st.env[a].id = st.env[b].id => st.env[a].body = st.env[b].body
\* Values of variables hold no macro that is still to be expanded.
Values0 == \A a \in Names(st) : st.env[a].par = <<>> => st.env[a].id <= st.id
=============================================================================
