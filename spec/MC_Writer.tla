------------------------------ MODULE MC_Writer ------------------------------
(* Every tree of a few nodes, in every format, written into every amount of  *)
(* room, one item at a time.                                                 *)
EXTENDS Writer
CONSTANTS Top, Depth, Rooms
P0 == <<"mc", 0, 1, 0, 1>>
A(t, v, w) == [t |-> t, v |-> v, w |-> w, p |-> P0]
At(v, n, w) == [t |-> "a", v |-> v, n |-> n, w |-> w, p |-> P0]
L(k, w, e) == [t |-> "l", k |-> k, w |-> w, e |-> e, p |-> P0, q |-> P0]
Leaves == {A("y", "x", " "), A("s", "<" \o DQ, ""), A("n", "1", NL), A("r", "<b>", " "), At("k", A("y", "v", " "), " ")}
RECURSIVE Nodes(_)
Nodes(d) == IF d = 0 THEN Leaves
            ELSE Leaves \cup {L(<<>>, " ", "")} \cup {L(<<A("y", h, "")>> \o k, " ", e) : h \in {"p", "br", "@media"}, k \in {<<>>} \cup {<<n>> : n \in Nodes(d - 1)}, e \in {"", NL}}
Targets == {"html", "xml", "css", "sexp", "text", "html!", "xml!", "css!", "sexp!", "text!"}
VARIABLES target, tree, w, w2
vars == <<target, tree, w, w2>>
Ready == w.s.todo = <<>> /\ w.end # "no"
\* Two writers, one with room for one more.
Init == /\ target \in Targets
        /\ tree \in UNION {[1..m -> Nodes(Depth)] : m \in 0..Top}
        /\ \E room \in 0..Rooms : w = WriteInit(target, tree, room) /\ w2 = WriteInit(target, tree, room + 1)
First == w.end = "no" /\ w' = WriteStep(w, <<>>) /\ UNCHANGED <<target, tree, w2>>
Second == w.end # "no" /\ w2.end = "no" /\ w2' = WriteStep(w2, <<>>) /\ UNCHANGED <<target, tree, w>>
Next == First \/ Second
Spec == Init /\ [][Next]_vars

Whole == Generate(target, tree, <<>>)
\* What has arrived is always a beginning of the whole, and never more than there is room for.
Beginning == Whole.err = <<>> => StartsWith(Whole.out, w.has) /\ Len(w.has) <= w.room
\* At the end: all of it if there is room, else what there is room for, and an error.
Told == (w.end # "no") => Arrived(Whole, w.room, w.end = "whole", w.has)
Tight == (w.end = "full") => Len(w.has) = w.room
\* More room, more text; and if there was enough, the same.
More == (w.end # "no" /\ w2.end # "no") => StartsWith(w2.has, w.has) /\ (w.end = "whole" => w2.end = "whole" /\ w2.has = w.has)
\* A document holds what is displayed, and is refused when it is.
Plain == IF EndsWith(target, "!") THEN SubSeq(target, 1, Len(target) - 1) ELSE target
Document == w.end = "no" /\ w.has = "" /\ EndsWith(target, "!") =>
              LET d == Generate(Plain, tree, <<>>) IN
              /\ (Whole.err = <<>>) = (d.err = <<>>)
              /\ (d.err = <<>> /\ Plain \in {"sexp", "text"}) => Whole.out = d.out
              /\ (d.err = <<>> /\ Plain \in {"css", "xml"} /\ tree # <<>>) => EndsWith(Whole.out, d.out)
              /\ d.err = <<>> => Len(Whole.out) >= Len(d.out)
\* It ends, one way or another.
Ends0 == <>(w.end # "no" /\ w2.end # "no")
Fair == Spec /\ WF_vars(Next)
=============================================================================
