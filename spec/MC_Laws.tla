------------------------------ MODULE MC_Laws ------------------------------
(* The laws of one group, for all programs over the pools; and, if asked,    *)
(* the programs themselves, to be run through the real code.                 *)
EXTENDS Laws
VARIABLES pre, law, seen
vars == <<pre, law, seen>>
Group(P) == CASE IOEnv.LAW = "Define" -> Define1(P) [] IOEnv.LAW = "Scope" -> Scope1(P) [] IOEnv.LAW = "Lazy" -> Lazy1(P)
              [] IOEnv.LAW = "Match" -> Match1(P) [] IOEnv.LAW = "Each" -> Each1(P) [] IOEnv.LAW = "Value" -> Value1(P)
              [] IOEnv.LAW = "Exports" -> Exports1(P) [] IOEnv.LAW = "Inline" -> Inline1(P) [] IOEnv.LAW = "Logs" -> Logs1(P)
None == [law |-> ""]
Init == pre \in Pre /\ law = None /\ seen = FALSE
Choose == law = None /\ law' \in Group({pre}) /\ UNCHANGED <<pre, seen>>
See == law # None /\ ~seen /\ seen' = TRUE /\ UNCHANGED <<pre, law>>
Next == Choose \/ See
Spec == Init /\ [][Next]_vars
Law == seen => Holds(law)
Again == seen => Stays(law)
ASSUME "PROGRAMS" \notin DOMAIN IOEnv \/ TLCSet(6, SetToSeq(Group(Pre)))
All == TLCGet(6)
ASSUME "PROGRAMS" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.PROGRAMS, [j \in 1..Len(All) |-> [a |-> All[j].a, b |-> All[j].b]])
ASSUME "FILES" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.FILES, SetToSeq({[name |-> f, text |-> X0.files[f].text] : f \in DOMAIN X0.files}))
=============================================================================
