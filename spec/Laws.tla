-------------------------------- MODULE Laws --------------------------------
(* Laws of the language, as pairs of programs that have to mean the same.    *)
(* Each law is a set of [law, how, a, b]: two texts, and how to compare what *)
(* they come to.  How: "same" (success, output without white space and       *)
(* places, and log), "quiet" (the first logs nothing but one "m" more).      *)
EXTENDS System
CONSTANTS Pre, Pool, Bodies, Most
\* (A configuration file cannot have quotes in strings: they are written ' there.)
Vals == {Cat([j \in 1..Len(v) |-> IF Ch(v, j) = "'" THEN "\"" ELSE Ch(v, j)]) : v \in Pool}

Letters(t) == [j \in 1..Len(t) |-> [c |-> Ch(t, j), b |-> 1, w |-> 1]]
\* Files to include: each is one of the bodies, and one includes another.
Files0 == TLCEval(LET bs == SetToSeq(Bodies) IN
  [f \in {"./q" \o ToString(k) : k \in 1..Len(bs)} |->
     Letters(bs[CHOOSE k \in 1..Len(bs) : f = "./q" \o ToString(k)])]
  @@ [f \in {"./i" \o ToString(k) : k \in 1..Len(bs)} |->
     Letters("(%include q" \o ToString(CHOOSE k \in 1..Len(bs) : f = "./i" \o ToString(k)) \o ")")])
\* (TLC would read the files again for each program, if it were not told to remember them.)
ASSUME TLCSet(1, TLCEval(Around(<<".">>, Files0, "//" :> "")))
X0 == TLCGet(1)
ASSUME TLCSet(5, SetToSeq(Bodies))
Names0 == TLCGet(5)
FileOf(b) == ToString(CHOOSE k \in 1..Len(Names0) : Names0[k] = b)

\* What is visible at the end of a program.
Probe == " (%ifdef x (x %x) nox) (%ifdef y (y %y) noy)"
Pair(law, pre, a, b) == [law |-> law, how |-> "same", a |-> pre \o a \o Probe, b |-> pre \o b \o Probe]

Lists(n) == UNION {[1..k -> Vals] : k \in 0..n}
Words(l) == Join(l, " ")
\* Bodies that define nothing.
ASSUME TLCSet(3, TLCEval({b \in Bodies : \A j \in 1..Len(b) : ~(SubSeq(b, j, Len(b)) # "" /\ StartsWith(SubSeq(b, j, Len(b)), "%define"))}))
Still == TLCGet(3)
DefinedIn(pre, name) == LET r == ExpNodes(Source("<stdin>", Letters(pre)).tree, Fresh(X0)) IN r.ok /\ name \in DOMAIN r.st.env

ASSUME TLCSet(2, TLCEval([p \in Pre |-> {n \in {"x", "y", "f"} : DefinedIn(p, n)}]))
Known == TLCGet(2)
Defined(pre, name) == name \in Known[pre]
ASSUME TLCSet(4, TLCEval(Lists(Most)))
Everything == TLCGet(4)

------------------------------------------------------------------------------
\* A variable stands for what its value was; the latest definition counts.
Define1(P) == UNION {
  {Pair("Define", p, "(%define n " \o a \o ") (w %n)", "(w " \o a \o ")") : p \in P, a \in Bodies},
  {Pair("Define", p, "(%define n " \o v \o ")(%define n " \o a \o ") (w %n %n)", "(%define n " \o a \o ") (w %n %n)") : p \in P, v \in Vals, a \in Bodies},
  \* what a variable stands for does not depend on what is defined later
  {Pair("Define", p, "(%define n " \o a \o ")(%define (g) t) " \o b \o " (w %n)", "(%define n " \o a \o ")(%define k %n)(%define (g) t) " \o b \o " (w %k)") :
     p \in P, a \in Still, b \in Still}}
\* A call, an arm, a loop and an application have scopes alike.
Scope1(P) == UNION {
  {Pair("Scope", p, "(%define (g) " \o b \o ")(w (%g))", "(w (%match 1 (1 " \o b \o ")))(%define (g) " \o b \o ")") : p \in P, b \in Bodies},
  {Pair("Scope", p, "(w (%match 1 (1 " \o b \o ")))", "(w (%for 1 in (1) " \o b \o "))") : p \in P, b \in Bodies},
  {Pair("Scope", p, "(w (%match 1 (1 " \o b \o ")))", "(w (%apply (%lambda () " \o b \o ")))") : p \in P, b \in Bodies},
  {Pair("Scope", p, "(%define (g x) " \o b \o ")(w (%g " \o v \o "))", "(w (%match " \o v \o " (x (%define (g) 1) " \o b \o ")))(%define (g x) " \o b \o ")") :
     p \in P, b \in Bodies, v \in Vals},
  {Pair("Scope", p, "(w (%apply (%lambda (x) " \o b \o ") " \o v \o "))", "(w (%for x in (" \o v \o ") " \o b \o "))") : p \in P, b \in Bodies, v \in Vals},
  \* nothing stays
  {Pair("Scope", p, "(%define o (%match " \o v \o " (x " \o b \o ")))", "(%define o (%match 1 (1 (%define x " \o v \o ")" \o b \o ")))") : p \in P, b \in Bodies, v \in Vals}}
\* The branch that is not taken might as well not be there.
Lazy1(P) == UNION {
  {Pair("Lazy", p, "(w (%ifdef " \o n \o " " \o a \o " " \o b \o "))", "(w " \o (IF Defined(p, n) THEN a ELSE b) \o ")") :
     p \in P, n \in {"x", "y", "f"}, a \in Bodies, b \in Bodies \cup {"(%nope)"}},
  {Pair("Lazy", p, "(w (%ifdef " \o n \o " " \o a \o "))", "(w " \o (IF Defined(p, n) THEN a ELSE "") \o ")") :
     p \in P, n \in {"x", "y", "f"}, a \in Bodies},
  {Pair("Lazy", p, "(w (%for y in (1) (%ifdef y " \o a \o " (%nope))))", "(w (%for y in (1) " \o a \o "))") : p \in P, a \in Bodies},
  {Pair("Lazy", p, "(w (%match 1 (2 (%nope)) (1 " \o a \o ") (_ (%nope))))", "(w (%match 1 (1 " \o a \o ")))") : p \in P, a \in Bodies}}
\* The first arm that matches, as if it were the only one.
Pats == {"1", "x", "(x y)", "(1 x)", "(x &y)", "\"q\"", "()", "(:k x)", "((x) &y)"}
Match1(P) == UNION {
  {Pair("Match", p, "(w (%match " \o v \o " (" \o q \o " A (%ifdef x %x) (%ifdef y %y)) (" \o r \o " B (%ifdef x %x) (%ifdef y %y)) (_ C)))",
                    "(w (%match (%match " \o v \o " (" \o q \o " 1) (_ 2)) (1 (%match " \o v \o " (" \o q \o " A (%ifdef x %x) (%ifdef y %y))))"
                    \o " (2 (%match " \o v \o " (" \o r \o " B (%ifdef x %x) (%ifdef y %y)) (_ C)))))") :
     p \in P, v \in Vals, q \in Pats, r \in Pats},
  {Pair("Match", p, "(w (%match " \o v \o "))", "(w)") : p \in P, v \in Vals},
  \* a list pattern matches as parameters do
  {Pair("Match", p, "(w (%match (" \o Words(l) \o ") (" \o q \o " " \o b \o ")))", "(w (%apply (%lambda " \o q \o " " \o b \o ") " \o Words(l) \o "))") :
     p \in P, b \in Bodies, q \in {"(x)", "(x &y)", "(&x)", "(x :k y &&z)"}, l \in {m \in Lists(2) : Len(m) = 1}}}
\* Item by item.
Each1(P) == UNION {
  {Pair("Each", p, "(w (%for x in (" \o Words(l) \o ") " \o b \o "))", "(w " \o Join([k \in 1..Len(l) |-> "(%for x in (" \o l[k] \o ") " \o b \o ")"], " ") \o ")") :
     p \in P, l \in Everything, b \in Still},
  {Pair("Each", p, "(w (%map f " \o Words(l) \o "))", "(w " \o Join([k \in 1..Len(l) |-> "(%f " \o l[k] \o ")"], " ") \o ")") : p \in P, l \in Everything},
  {Pair("Each", p, "(%define (g x) " \o b \o ")(w (%filter g " \o Words(l) \o "))",
                   "(%define (g x) " \o b \o ")(w " \o Join([k \in 1..Len(l) |-> "(%filter g " \o l[k] \o ")"], " ") \o ")") : p \in P, l \in Everything, b \in Bodies},
  {Pair("Each", p, "(%define (g x) " \o b \o ")(w (%filter g " \o v \o "))", "(%define (g x) " \o b \o ")(w (%splat (%match ((%g " \o v \o ")) ((()) ()) ((&r) (%list %r)))))") :
     p \in P, b \in Still, v \in Vals},
  {Pair("Each", p, "(w (%apply f " \o Words(l) \o "))", "(w (%f " \o Words(l) \o "))") : p \in P, l \in Everything},
  {Pair("Each", p, "(%define (g x) " \o b \o ")(w (%map g " \o Words(l) \o "))", "(w (%map (%lambda (x) " \o b \o ") " \o Words(l) \o "))(%define (g x) 1)") :
     p \in P, l \in Everything, b \in Bodies}}
\* Values.
Value1(P) == UNION {
  {Pair("Value", p, "(w (%do " \o a \o " " \o b \o "))", "(w " \o a \o " " \o b \o ")") : p \in P, a \in Bodies, b \in Bodies},
  {Pair("Value", p, "(w (%splat (%list " \o a \o " " \o b \o ")))", "(w " \o a \o " " \o b \o ")") : p \in P, a \in Bodies, b \in Bodies},
  {Pair("Value", p, "(w (%strip " \o a \o "))", "(w " \o a \o ")") : p \in P, a \in Bodies},
  {Pair("Value", p, "(w (%get " \o ToString(k - 1) \o " (%list " \o Words(l) \o ")))", "(w " \o l[k] \o ")") : k \in 1..Most, l \in {m \in Lists(Most) : Len(m) = Most}, p \in P \cap {""}},
  {Pair("Value", p, "(w (%get \"1/0\" (" \o Words(l) \o ")))", "(w (%get 0 (%get 1 (" \o Words(l) \o "))))") : l \in Everything, p \in P \cap {""}},
  {Pair("Value", p, "(w (%get \"k/1\" (a :k " \o v \o ")))", "(w (%get 1 " \o v \o "))") : v \in Vals, p \in P \cap {""}},
  {Pair("Value", p, "(w (%reverse (%reverse (" \o Words(l) \o "))))", "(w (" \o Words(l) \o "))") : l \in Everything, p \in P \cap {""}},
  {Pair("Value", p, "(w (%reverse (" \o Words(l) \o ")))", "(w (" \o Words(Reverse(l)) \o "))") : l \in Everything, p \in P \cap {""}},
  {Pair("Value", p, "(w (%concat " \o Words(l) \o "))", "(w (%join \"\" " \o Words(l) \o "))") : l \in Everything, p \in P \cap {""}},
  {Pair("Value", p, "(w (%join - " \o v \o " " \o u \o " " \o t \o "))", "(w (%join - (%join - " \o v \o " " \o u \o ") " \o t \o "))") : v \in Vals, u \in Vals, t \in Vals, p \in P \cap {""}},
  {Pair("Value", p, "(w (%join - :trailing true " \o Words(l) \o "))", "(w (%concat (%join - " \o Words(l) \o ") -))") : l \in Everything, p \in P \cap {""}},
  {Pair("Value", p, "(w (%string (%string " \o Words(l) \o ")))", "(w (%string " \o Words(l) \o "))") : l \in Everything, p \in P \cap {""}},
  {Pair("Value", p, "(w (%number (%symbol " \o Words(l) \o ")))", "(w (%number " \o Words(l) \o "))") : l \in Everything, p \in P \cap {""}}}
\* A namespace defines what it defines, under longer names.
Exports1(P) == UNION {
  {Pair("Exports", p, "(%namespace n (%define " \o d \o " " \o a \o "))(w (%ifdef n/x %n/x) (%ifdef n/z %n/z))",
                      "(%define n/" \o d \o " " \o a \o ")(w (%ifdef n/x %n/x) (%ifdef n/z %n/z))") : p \in P, d \in {"x", "z"}, a \in Still},
  {Pair("Exports", p, "(%namespace n :separator \"\" (%define z " \o a \o ") (%define x " \o b \o "))(w (%ifdef nx %nx) (%ifdef nz %nz))",
                      "(%define nz " \o a \o ")(%define ox " \o b \o ")(%define nx %ox)(w (%ifdef nx %nx) (%ifdef nz %nz))") :
     p \in P, a \in Vals, b \in Still},
  {Pair("Exports", p, "(%namespace n (%namespace m (%define x " \o a \o ")))(w %n/m/x)", "(%define n/m/x " \o a \o ")(w %n/m/x)") : p \in P, a \in Still},
  {Pair("Exports", p, "(%namespace n (%define (x q) " \o a \o "))(w (%n/x 1))", "(%define (n/x q) " \o a \o ")(w (%n/x 1))") : p \in P, a \in Bodies},
  {Pair("Exports", p, "(w (%namespace n " \o a \o "))", "(w (%match 1 (1 " \o a \o ")))") : p \in P, a \in Bodies},
  {Pair("Exports", p, "(%namespace n " \o a \o ") (w %n/x)", "(w %n/x)") : p \in P, a \in Still}}
\* An included file might as well be written in place.
Inline1(P) == UNION {
  {Pair("Inline", p, "(w (%include q" \o FileOf(b) \o "))", "(w " \o b \o ")") : p \in P, b \in Bodies},
  {Pair("Inline", p, "(w (%include i" \o FileOf(b) \o ") (%include q" \o FileOf(a) \o "))", "(w " \o b \o " " \o a \o ")") : p \in P, b \in Bodies, a \in Bodies},
  {Pair("Inline", p, "(%define (g) (%include q" \o FileOf(b) \o "))(w (%g))", "(%define (g) " \o b \o ")(w (%g))") : p \in P, b \in Bodies},
  {Pair("Inline", p, "(w (%splat (%list (%include q" \o FileOf(b) \o "))))", "(w " \o b \o ")") : p \in P, b \in Bodies}}
\* Logging changes nothing else.
Quiet(p, a, b) == [law |-> "Logs", how |-> "quiet", a |-> p \o a \o Probe, b |-> p \o b \o Probe]
Logs1(P) == UNION {
  {Quiet(p, "(w " \o a \o " (%log m) " \o b \o ")", "(w " \o a \o " " \o b \o ")") : p \in P, a \in Bodies, b \in Bodies},
  {Quiet(p, "(%define n (%log m) " \o a \o ")(w %n %n)", "(%define n " \o a \o ")(w %n %n)") : p \in P, a \in Bodies},
  {Quiet(p, "(%define (g) (%log m) " \o a \o ")(w (%g))", "(%define (g) " \o a \o ")(w (%g))") : p \in P, a \in Bodies},
  {Quiet(p, "(w (%match 1 (2 (%log m)) (1 (%log m) " \o a \o ") (_ (%log m))))", "(w (%match 1 (1 " \o a \o ")))") : p \in P, a \in Bodies},
  {Quiet(p, "(w (%ifdef f (%do " \o a \o " (%log m)) (%do (%log m) " \o a \o ")))", "(w (%ifdef f (%do " \o a \o ") (%do " \o a \o ")))") : p \in P, a \in Bodies},
  {Quiet(p, "(w (%list (%log m) " \o a \o "))", "(w (%list " \o a \o "))") : p \in P, a \in Bodies}}
------------------------------------------------------------------------------
\* What a program comes to.
RECURSIVE Bare(_)
Bare(n) == CASE n.t = "l" -> [t |-> "l", k |-> TLCEval([j \in 1..Len(n.k) |-> Bare(n.k[j])])]
             [] n.t = "a" -> [t |-> "a", v |-> n.v, n |-> Bare(n.n)]
             [] OTHER -> [t |-> n.t, v |-> n.v]
Meaning(text) == LET s == Source("<stdin>", Letters(text)) IN
             IF ~s.ok THEN [ok |-> FALSE, out |-> <<>>, log |-> <<"unreadable">>, full |-> <<>>]
             ELSE LET r == ExpNodes(s.tree, Fresh(X0))
                  IN [ok |-> r.ok, out |-> TLCEval([j \in 1..Len(r.out) |-> Bare(r.out[j])]), log |-> r.st.log, full |-> r.out]
Readable(r) == r.log # <<"unreadable">>
Without(l, m) == LET ks == {k \in 1..Len(l) : l[k] = m} IN
                 IF ks = {} THEN l ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN SubSeq(l, 1, k - 1) \o SubSeq(l, k + 1, Len(l))
Count(l, m) == Len(SelectSeq(l, LAMBDA e : e = m))
Holds(c) == LET l == Meaning(c.a)  r == Meaning(c.b) IN
            /\ Readable(l) /\ Readable(r)
            /\ l.ok = r.ok
            /\ l.out = r.out
            /\ CASE c.how = "same" -> l.ok => l.log = r.log
                 [] OTHER -> l.ok => Without(l.log, "m") = r.log /\ Count(l.log, "m") = Count(r.log, "m") + 1
\* What a program produced, expanded again, stays as it is.
RECURSIVE MacroFree(_)
MacroFree(n) == CASE n.t = "y" -> ~StartsWith(n.v, "%")
                  [] n.t = "l" -> \A k \in 1..Len(n.k) : MacroFree(n.k[k])
                  [] n.t = "a" -> MacroFree(n.n)
                  [] OTHER -> TRUE
Stays(c) == LET l == Meaning(c.a) IN
            (l.ok /\ \A k \in 1..Len(l.full) : MacroFree(l.full[k])) => LET r == ExpNodes(l.full, Fresh(X0)) IN r.ok /\ r.out = l.full /\ r.st.log = <<>>
=============================================================================
