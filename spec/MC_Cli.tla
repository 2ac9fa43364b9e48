------------------------------- MODULE MC_Cli -------------------------------
(* Every short command line, run against a few small files.                  *)
EXTENDS Cli
CONSTANTS Args0, Longest
VARIABLES args, s
vars == <<args, s>>

Text(t) == [j \in 1..Len(t) |-> [c |-> Ch(t, j), b |-> 1, w |-> 1]]
Readable(t) == [ok |-> TRUE, text |-> Text(t)]
Files == ("good" :> Readable("(b %log)(%include \"p\")")) @@ ("fail" :> Readable("a (%log m)(%no)"))
         @@ ("open" :> Readable("(p")) @@ ("dir" :> [ok |-> FALSE, text |-> <<>>])
         @@ ("d/p" :> Readable("(%log d)d")) @@ ("e/p" :> Readable("(%log e)e")) @@ ("<stdin>" :> Readable("in"))
O == [args |-> args, stdin |-> Readable("(%log s)x"), files |-> [f \in DOMAIN Files \ {"<stdin>"} |-> Files[f]], vars |-> "//" :> ""]

Init == /\ args \in UNION {[1..n -> Args0] : n \in 0..Longest}
        /\ s = CliInit([args |-> args])
Next == s.m # "end" /\ s' = CliStep(s, O, World0(s, O)) /\ UNCHANGED args
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == s.m = "end"
Is(a) == \E k \in 1..Len(args) : args[k] = a
\* What is generated for an input on its own.
LastOf0(S) == CHOOSE k \in S : \A j \in S : j <= k
Target == LET ks == {k \in 1..Len(args) : Drop(args[k], 2) \in Targets /\ StartsWith(args[k], "--")} IN
          IF ks = {} THEN "" ELSE Drop(args[LastOf0(ks)], 2)
Whole == ~Is("--nodoc")
Dirs == SelectSeq(args, LAMBDA a : StartsWith(a, "-I"))
X0 == Around(<<".">> \o [k \in 1..Len(Dirs) |-> Drop(Dirs[k], 2)], Sources(O), O.vars)
Alone(name) == Compile(Source(name, IF name = "<stdin>" THEN O.stdin.text ELSE Files[name].text), Target \o (IF Whole THEN "!" ELSE ""), X0)
Inputs == LET fs == SelectSeq(args, LAMBDA a : a \in DOMAIN O.files) IN
          (IF Is("-") \/ fs = <<>> THEN <<"<stdin>">> ELSE <<>>) \o fs
Works(name) == (name = "<stdin>" \/ Files[name].ok) /\ Alone(name).ok

\* One of four ends, and what each of them means.
Exclusive == Ended =>
  CASE s.why = "refused" -> s.status = 1 /\ s.read = <<>> /\ s.out = "" /\ s.log = <<>>
    [] s.why = "version" -> s.status = 0 /\ s.read = <<>> /\ s.out = "" /\ Is("-v")
    [] s.why = "done" -> s.status = 0 /\ s.read = Inputs /\ (\A k \in 1..Len(Inputs) : Works(Inputs[k]))
    [] OTHER -> /\ s.status = 1 /\ s.read # <<>> /\ s.read = SubSeq(Inputs, 1, Len(s.read))
                /\ ~Works(s.read[Len(s.read)]) /\ \A k \in 1..(Len(s.read) - 1) : Works(s.read[k])
\* The output is that of the inputs that were done, each in turn, whatever the other inputs.
Separate == Ended /\ s.read # <<>> =>
  LET n == IF s.status = 0 THEN Len(s.read) ELSE Len(s.read) - 1 IN
  s.out = Join([k \in 1..n |-> Alone(s.read[k]).out \o NL], "")
\* A command line with a mistake is never begun.
Wrong(a) == ~(\/ a \in {"-", "--nodoc", "--nodocument"} \/ StartsWith(a, "-I") \/ a \in DOMAIN O.files
            \/ (StartsWith(a, "--") /\ Drop(a, 2) \in Targets))
Mistake == Ended => ((\E k \in 1..Len(args) : Wrong(args[k]) /\ args[k] # "-v") /\ ~Is("-v") => s.why = "refused")
NoTarget == Ended => (Target = "" => s.why \in {"refused", "version"})
Terminates == <>(s.m = "end")
=============================================================================
