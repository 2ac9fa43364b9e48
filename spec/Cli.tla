-------------------------------- MODULE Cli --------------------------------
(* The command line: arguments are taken one at a time, then inputs are.     *)
(* The outside, o, has                                                       *)
(*   args:  the arguments; one that is not text appears as --not-text        *)
(*   stdin: [ok, text]      ok: is it text at all?                           *)
(*   files: path -> [ok, text]   what exists (ok: as readable text)          *)
(*   vars:  environment variables                                            *)
EXTENDS System

Targets == {"text", "sexp", "html", "xml", "css"}
CliInit(o) ==
  [ m |-> "args", i |-> 1, files |-> <<>>, target |-> "", dirs |-> <<>>, stdin |-> FALSE, whole |-> TRUE,
    todo |-> <<>>, read |-> <<>>,           \* inputs to come, and those that have been read
    out |-> "", log |-> <<>>,               \* standard output, messages logged
    status |-> 0, why |-> "", p |-> <<>> ]  \* how it ends
Refuse(s) == [s EXCEPT !.m = "end", !.status = 1, !.why = "refused"]

TakeArg(s, o) ==
  LET a == o.args[s.i]
      n == [s EXCEPT !.i = @ + 1]
  IN CASE StartsWith(a, "--") ->
            LET opt == Drop(a, 2) IN
            CASE opt \in Targets -> [n EXCEPT !.target = opt]
              [] opt \in {"nodocument", "nodoc"} -> [n EXCEPT !.whole = FALSE]
              [] OTHER -> Refuse(s)
       [] a = "-v" -> [s EXCEPT !.m = "end", !.why = "version"]
       [] StartsWith(a, "-I") -> [n EXCEPT !.dirs = Append(@, Drop(a, 2))]
       [] a = "-" -> [n EXCEPT !.stdin = TRUE]
       [] StartsWith(a, "-") -> Refuse(s)
       [] a \in DOMAIN o.files -> [n EXCEPT !.files = Append(@, a)]
       [] OTHER -> Refuse(s)

ArgsDone(s) ==
  IF s.target = "" THEN Refuse(s)
  ELSE [s EXCEPT !.m = "inputs", !.todo = (IF s.stdin \/ s.files = <<>> THEN <<"<stdin>">> ELSE <<>>) \o s.files]

Sources(o) == [f \in {g \in DOMAIN o.files : o.files[g].ok} |-> o.files[f].text]
TakeInput(s, o, x) ==
  LET name == s.todo[1]
      \* (a file may itself be called <stdin>, but not in these worlds)
      input == IF name = "<stdin>" THEN o.stdin ELSE o.files[name]
      n == [s EXCEPT !.todo = Tail(@), !.read = Append(@, name)]
  IN IF ~input.ok THEN [n EXCEPT !.m = "end", !.status = 1, !.why = "unreadable", !.p = <<name>>]
     ELSE LET c == Compile(Source(name, input.text), s.target \o (IF s.whole THEN "!" ELSE ""), x)
              l == [n EXCEPT !.log = @ \o c.log]
          IN IF c.ok THEN [l EXCEPT !.out = @ \o c.out \o NL]
             ELSE [l EXCEPT !.m = "end", !.status = 1, !.why = c.stage, !.p = c.p]

\* x: the surroundings, for the include directories of this command line
CliStep(s, o, x) ==
  CASE s.m = "args" /\ s.i <= Len(o.args) -> TakeArg(s, o)
    [] s.m = "args" -> ArgsDone(s)
    [] s.m = "inputs" /\ s.todo # <<>> -> TakeInput(s, o, x)
    [] s.m = "inputs" -> [s EXCEPT !.m = "end", !.why = "done"]
World0(s, o) == Around(<<".">> \o s.dirs, Sources(o), o.vars)
=============================================================================
