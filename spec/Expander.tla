------------------------------ MODULE Expander ------------------------------
(* Expanding the macros of a document.                                       *)
(*                                                                           *)
(* A node is [t, v, w, p]: its kind (y symbol, n number, s string, r raw),   *)
(* value, leading white space and position; a list has its nodes in k and    *)
(* the white space before its closing parenthesis in e (at position q); an   *)
(* attribute has its value in n.                                             *)
(*                                                                           *)
(* The state of an expansion, st, is                                         *)
(*   env: what is defined in the current scope, name -> [id, par, body]      *)
(*   log: messages logged so far                                             *)
(*   id:  how many definitions were made so far; identifies each of them     *)
(*   x:   the world: files, environment variables, ... (never changes)       *)
(* Expanding yields [ok, out, st].                                           *)
EXTENDS Args, Numbers, Calendar, Data, World, Format

Ok(out, st) == [ok |-> TRUE, out |-> out, st |-> st]
Err(st) == [ok |-> FALSE, out |-> <<>>, st |-> st]
Then(r, F(_, _)) == IF r.ok THEN F(r.out, r.st) ELSE r

WithW(n, w) == [n EXCEPT !.w = w]
FirstW(ns, w) == IF ns = <<>> THEN ns ELSE [ns EXCEPT ![1].w = w]
Atom(t, v, node) == [t |-> t, v |-> v, w |-> node.w, p |-> node.p]
Values(ns) == TLCEval([k \in 1..Len(ns) |-> ns[k].v])

\* A definition in the current scope.
Define(st, name, par, body) ==
  [st EXCEPT !.env = (name :> [id |-> st.id + 1, par |-> par, body |-> body]) @@ st.env, !.id = @ + 1]
\* What an inner scope did is forgotten, but for what it logged.
Leave(inner, outer) == [inner EXCEPT !.env = outer.env]

IsRest(n) == n.t = "y" /\ StartsWith(n.v, "&") /\ ~StartsWith(n.v, "&&")
IsNamedRest(n) == n.t = "y" /\ StartsWith(n.v, "&&")

------------------------------------------------------------------------------
(* Matching a value against a pattern, which defines the pattern's symbols.  *)
RECURSIVE Bind(_, _, _), BindList(_, _, _)
Bind(pat, val, st) ==
  CASE pat.t = "a" -> IF val.t = "a" /\ val.v = pat.v THEN Bind(pat.n, val.n, st) ELSE Err(st)
    [] pat.t = "l" -> IF val.t = "l" THEN BindList(pat.k, val.k, st) ELSE Err(st)
    [] pat.t = "y" -> Ok(<<>>, Define(st, pat.v, <<>>, <<val>>))
    [] pat.t = "n" -> IF val.t = "n" /\ val.v = pat.v THEN Ok(<<>>, st) ELSE Err(st)
    [] OTHER       -> IF val.t \in {"s", "r"} /\ val.v = pat.v THEN Ok(<<>>, st) ELSE Err(st)

BindList(pats, vals, st) ==
  LET plain == SelectSeq(pats, LAMBDA n : n.t # "a" /\ ~IsRest(n) /\ ~IsNamedRest(n))
      rests == SelectSeq(pats, IsRest)
      nrests == SelectSeq(pats, IsNamedRest)
      known == SelectSeq(pats, LAMBDA n : n.t = "a")
      given == SelectSeq(vals, LAMBDA n : n.t # "a")
      named == SelectSeq(vals, LAMBDA n : n.t = "a")
      names == {known[k].v : k \in 1..Len(known)}
      \* of a name given twice, the last one counts
      LastOf(ns, name) == ns[CHOOSE k \in 1..Len(ns) : ns[k].v = name /\ \A m \in (k + 1)..Len(ns) : ns[m].v # name].n
      Value(name) == IF \E k \in 1..Len(named) : named[k].v = name THEN LastOf(named, name) ELSE LastOf(known, name)
      unknown == LET ks == SelectSeq([k \in 1..Len(named) |-> k],
                             LAMBDA k : named[k].v \notin names /\ \A m \in (k + 1)..Len(named) : named[m].v # named[k].v)
                 IN TLCEval([j \in 1..Len(ks) |-> named[ks[j]]])
      excess == SubSeq(given, Len(plain) + 1, Len(given))
      Positional == FoldLeft(LAMBDA r, k : Then(r, LAMBDA o, s : Bind(plain[k], given[k], s)),
                             Ok(<<>>, st), [k \in 1..Len(plain) |-> k])
      Rest(s) == IF rests = <<>> THEN s ELSE Define(s, Drop(rests[1].v, 1), <<>>, excess)
      Named(s) == LET F(acc, n) == Define(acc, n.v, <<>>, <<Value(n.v)>>) IN FoldLeft(F, s, known)
      NamedRest(s) == IF nrests = <<>> THEN s ELSE Define(s, Drop(nrests[1].v, 2), <<>>, unknown)
  IN IF \/ Len(rests) > 1 \/ Len(nrests) > 1
        \/ Len(given) < Len(plain)
        \/ (rests = <<>> /\ excess # <<>>)
        \/ (nrests = <<>> /\ unknown # <<>>)
     THEN Err(st)
     ELSE Then(Positional, LAMBDA o, s : Ok(<<>>, NamedRest(Named(Rest(s)))))

\* Defining a macro that takes arguments.
Create(st, name, par, body) ==
  IF Len(SelectSeq(par, IsRest)) > 1 \/ Len(SelectSeq(par, IsNamedRest)) > 1 THEN Err(st)
  ELSE Ok(<<>>, Define(st, name, par, body))

LambdaName(p) == "__lambda@" \o p[1] \o ":" \o ToString(p[2]) \o ":" \o ToString(p[5])

------------------------------------------------------------------------------
RECURSIVE ExpNode(_, _), ExpNodes(_, _), Invoke(_, _, _, _), Apply(_, _, _, _),
          MatchFrom(_, _, _, _, _)

ExpNodes(ns, st) ==
  FoldLeft(LAMBDA r, n : IF ~r.ok THEN r
                         ELSE LET e == ExpNode(n, r.st) IN IF e.ok THEN Ok(r.out \o e.out, e.st) ELSE e,
           Ok(<<>>, st), ns)

ExpNode(n, st) ==
  CASE n.t = "y" ->
         IF ~StartsWith(n.v, "%") THEN Ok(<<n>>, st)
         ELSE LET name == Drop(n.v, 1) IN
              IF name \notin DOMAIN st.env THEN Err(st)
              ELSE IF st.env[name].par # <<>> THEN Err(st)
              \* the value takes the place, and the white space, of the symbol
              ELSE Then(ExpNodes(st.env[name].body, st), LAMBDA o, s : Ok(FirstW(o, n.w), s))
    [] n.t = "l" ->
         IF n.k = <<>> THEN Ok(<<n>>, st)
         ELSE IF n.k[1].t = "y" /\ StartsWith(n.k[1].v, "%")
         THEN LET params == Tail(n.k)
                  clean == IF params = <<>> \/ HasChar(params[1].w, NL) THEN params ELSE FirstW(params, "")
              IN Invoke(Drop(n.k[1].v, 1), n, clean, st)
         ELSE Then(ExpNodes(n.k, st), LAMBDA o, s : Ok(<<[n EXCEPT !.k = o]>>, s))
    [] n.t = "a" ->
         Then(ExpNode(n.n, st), LAMBDA o, s :
              IF o = <<>> THEN Err(s)
              ELSE Ok(<<[t |-> "a", v |-> n.v, n |-> o[1], w |-> n.w, p |-> n.p]>> \o Tail(o), s))
    [] OTHER -> Ok(<<n>>, st)

\* Arguments are matched, and the body expanded, in a scope of its own.
Apply(mac, node, params, st) ==
  LET b == BindList(mac.par, params, st) IN
  IF ~b.ok THEN Err(st)
  ELSE LET r == ExpNodes(mac.body, b.st) IN [r EXCEPT !.st = Leave(r.st, st)]

------------------------------------------------------------------------------
(* The built-in macros.                                                      *)
DoDefine(node, ps, st) ==
  IF ps = <<>> THEN Err(st)
  ELSE LET head == ps[1]  body == Tail(ps) IN
       CASE head.t = "y" -> Then(ExpNodes(body, st), LAMBDA o, s : Ok(<<>>, Define(s, head.v, <<>>, o)))
         [] head.t = "l" -> IF head.k = <<>> THEN Err(st)
                            ELSE IF head.k[1].t # "y" THEN Err(st)
                            ELSE Create(st, head.k[1].v, Tail(head.k), body)
         [] OTHER -> Err(st)

MatchFrom(expr, pats, i, st, node) ==
  IF i > Len(pats) THEN Ok(<<>>, st)
  ELSE IF pats[i].t # "l" THEN Err(st)
  ELSE IF pats[i].k = <<>> THEN Err(st)
  ELSE Then(ExpNode(pats[i].k[1], st), LAMBDA o, s :
         IF Len(o) # 1 THEN Err(s)
         ELSE LET b == Bind(o[1], expr, s) IN
              IF ~b.ok THEN MatchFrom(expr, pats, i + 1, s, node)
              ELSE LET r == ExpNodes(Tail(pats[i].k), b.st) IN [r EXCEPT !.st = Leave(r.st, s)])
DoMatch(node, ps, st) ==
  IF ps = <<>> THEN Err(st)
  ELSE Then(ExpNode(ps[1], st), LAMBDA o, s : IF Len(o) # 1 THEN Err(s) ELSE MatchFrom(o[1], Tail(ps), 1, s, node))

DoIfdef(node, ps, st) ==
  IF Len(ps) \notin {2, 3} THEN Err(st)
  ELSE IF ~Atomic(ps[1]) THEN Err(st)
  ELSE LET r == IF ps[1].v \in DOMAIN st.env THEN ExpNode(ps[2], st)
                ELSE IF Len(ps) = 3 THEN ExpNode(ps[3], st)
                ELSE Ok(<<>>, st)
       IN Then(r, LAMBDA o, s : Ok(FirstW(o, node.w), s))

\* Built-ins that see their arguments expanded.
Eager(ps, st, F(_, _)) == Then(ExpNodes(ps, st), F)

Glue(ns) == Join([k \in 1..Len(ns) |-> ns[k].w \o ns[k].v], "")
DoText(t, node, ps, st) ==
  Eager(ps, st, LAMBDA o, s : IF \E k \in 1..Len(o) : ~Atomic(o[k]) THEN Err(s) ELSE Ok(<<Atom(t, Glue(o), node)>>, s))
DoCast(t, ps, st) ==
  Eager(ps, st, LAMBDA o, s : LET a == Arguments(o, <<>>, NoNames, "literal") IN
        IF ~a.ok THEN Err(s) ELSE Ok(TLCEval([k \in 1..Len(o) |-> [o[k] EXCEPT !.t = t]]), s))

RECURSIVE GetFrom(_, _, _)
GetFrom(path, i, n) ==     \* <<>> or <<node>>
  IF i > Len(path) THEN <<n>>
  ELSE IF n.t # "l" THEN <<>>
  ELSE LET item == path[i]
           number == IsIndex(item)
           index == IF number THEN IndexOf(item) ELSE 0
           named == SelectSeq(n.k, LAMBDA m : m.t = "a" /\ m.v = item)
       IN IF number /\ index < Len(n.k) THEN GetFrom(path, i + 1, n.k[index + 1])
          ELSE IF named # <<>> THEN GetFrom(path, i + 1, named[1].n)
          ELSE <<>>
DoGet(ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("literal"), Must("any")>>, "separator" :> May("literal"), NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE LET g == GetFrom(Split(a.pos[1].v, Option(a, "separator", "/")), 1, a.pos[2])
         IN IF g = <<>> THEN Err(s) ELSE Ok(g, s))

DoInclude(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    IF Len(o) # 1 THEN Err(s)
    ELSE IF ~Atomic(o[1]) THEN Err(s)
    ELSE LET found == FindSource(s.x, o[1].v) IN
         IF found = <<>> THEN Err(s)
         ELSE IF ~found[1].ok THEN Err(s)
         ELSE Then(ExpNodes(found[1].tree, s), LAMBDA out, s2 : Ok(FirstW(out, node.w), s2)))
DoEmbed(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    IF Len(o) # 1 THEN Err(s)
    ELSE IF ~Atomic(o[1]) THEN Err(s)
    ELSE LET found == FindText(s.x, o[1].v) IN
         IF found = <<>> THEN Err(s) ELSE Ok(<<Atom("s", found[1], node)>>, s))

DoNamespace(node, ps, st) ==
  LET r == ExpNodes(ps, st) IN
  IF ~r.ok THEN [r EXCEPT !.st = Leave(r.st, st)]
  ELSE LET o == r.out
           s == Leave(r.st, st)
           firstPlain == LET ks == {k \in 2..Len(o) : o[k].t # "a"} IN
                         IF ks = {} THEN Len(o) + 1 ELSE CHOOSE k \in ks : \A m \in ks : k <= m
           options == SubSeq(o, 2, firstPlain - 1)
           sep == IF options = <<>> THEN "/" ELSE options[Len(options)].n.v
           new == {name \in DOMAIN r.st.env : name \notin DOMAIN st.env \/ st.env[name].id # r.st.env[name].id}
       IN IF o = <<>> THEN Err(s)
          ELSE IF ~Atomic(o[1]) THEN Err(s)
          ELSE IF \E k \in 1..Len(options) : options[k].v # "separator" \/ ~Atomic(options[k].n) THEN Err(s)
          ELSE LET prefix == o[1].v \o sep
                   exported == TLCEval([full \in {prefix \o name : name \in new} |-> r.st.env[Drop(full, Len(prefix))]])
               IN Ok(SubSeq(o, firstPlain, Len(o)), [s EXCEPT !.env = exported @@ st.env])

\* Structured data: its value, and a definition for everything in it.
DefineAll(st, defs) == FoldLeft(LAMBDA s, d : Define(s, d.name, <<>>, <<d.node>>), st, defs)
DoData(lang, node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("string")>>, "separator" :> May("literal"), NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE LET d == Document(s.x, lang, a.pos[1].v) IN
         IF ~d.ok THEN Err(s)
         ELSE LET r == Present(lang, d.doc, Option(a, "separator", "/"), node.p)
              IN Ok(r.nodes, DefineAll(s, r.defs)))
DoMarkdown(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("string")>>,
                       ("separator" :> May("literal")) @@ ("only" :> MayBe("literal", {"frontmatter", "content"})), NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE LET only == Option(a, "only", "both")
             m == MarkdownOf(s.x, a.pos[1].v)
             d == m.front
             r == Present(d.lang, d.doc, Option(a, "separator", "/"), node.p)
             defined == IF d.ok THEN DefineAll(s, r.defs) ELSE s
             html == <<Atom("r", m.html, node)>>
         IN CASE only = "frontmatter" -> IF d.ok THEN Ok(<<>>, defined) ELSE Err(s)
              [] only = "content" -> Ok(html, s)
              [] OTHER -> Ok(html, defined))

DoFor(ps, st) ==
  LET a == Arguments(ps, <<Must("any"), MustBe("symbol", {"in"}), Must("list")>>, NoNames, "any") IN
  IF ~a.ok THEN Err(st)
  ELSE Then(ExpNodes(a.pos[3].k, st), LAMBDA items, s :
       LET r == FoldLeft(LAMBDA acc, item :
                    IF ~acc.ok THEN acc
                    ELSE LET b == Bind(a.pos[1], item, acc.st) IN
                         IF ~b.ok THEN b
                         ELSE LET e == ExpNodes(a.rest, b.st) IN IF e.ok THEN Ok(acc.out \o e.out, e.st) ELSE e,
                  Ok(<<>>, s), items)
       IN [r EXCEPT !.st = Leave(r.st, s)])

DoSort(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("any")>>,
                       ("order" :> MayBe("literal", {"ascending", "descending"})) @@ ("key" :> May("symbol")), NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE IF a.pos[1].t # "l" THEN Err(s)
    ELSE LET list == a.pos[1]
             keyed == FoldLeft(LAMBDA acc, item :
                         IF ~acc.ok THEN acc
                         ELSE LET k == Invoke(Option(a, "key", "do"), node, <<item>>, acc.st) IN
                              IF ~k.ok THEN k
                              ELSE IF Len(k.out) # 1 THEN Err(k.st)
                              ELSE IF ~Atomic(k.out[1]) THEN Err(k.st)
                              ELSE Ok(Append(acc.out, k.out[1].v), k.st),
                       Ok(<<>>, s), list.k)
         IN IF ~keyed.ok THEN keyed
            ELSE LET up == Option(a, "order", "ascending") = "ascending"
                     order == TLCEval(StableOrder(keyed.out, up))
                 IN Ok(<<[list EXCEPT !.w = node.w,
                            !.k = TLCEval([k \in 1..Len(list.k) |-> WithW(list.k[order[k]], list.k[k].w)])]>>, keyed.st))

DoReverse(ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("list")>>, NoNames, NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE LET list == a.pos[1]  n == Len(list.k)
         IN Ok(<<[list EXCEPT !.k = TLCEval([k \in 1..n |-> WithW(list.k[n + 1 - k], list.k[k].w)])]>>, s))

DoJoin(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("literal")>>, "trailing" :> MayBe("literal", {"true", "false"}), "literal") IN
    IF ~a.ok THEN Err(s)
    ELSE LET sep == a.pos[1].v
             tail == IF Option(a, "trailing", "false") = "true" THEN sep ELSE ""
         IN Ok(<<Atom("s", Join(Values(a.rest), sep) \o tail, node)>>, s))
DoConcat(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<>>, NoNames, "literal") IN
    IF ~a.ok THEN Err(s) ELSE Ok(<<Atom("s", Join(Values(a.rest), ""), node)>>, s))

\* map and filter invoke a macro on each argument; filter drops results that are ().
DoMap(keepNull, node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("symbol")>>, NoNames, "any") IN
    IF ~a.ok THEN Err(s)
    ELSE FoldLeft(LAMBDA acc, item :
             IF ~acc.ok THEN acc
             ELSE LET r == Invoke(a.pos[1].v, node, <<item>>, acc.st)
                      isNull == Len(r.out) = 1 /\ r.out[1].t = "l" /\ r.out[1].k = <<>>
                  IN IF ~r.ok THEN r
                     ELSE IF isNull /\ ~keepNull THEN Ok(acc.out, r.st)
                     ELSE Ok(acc.out \o r.out, r.st),
           Ok(<<>>, s), a.rest))
DoApply(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("symbol")>>, NoNames, "any") IN
    IF ~a.ok THEN Err(s) ELSE Invoke(a.pos[1].v, node, a.rest, s))
DoLambda(node, ps, st) ==
  LET a == Arguments(ps, <<Must("any")>>, NoNames, "any") IN
  IF ~a.ok THEN Err(st)
  ELSE IF a.pos[1].t \notin {"l", "y"} THEN Err(st)
  ELSE LET par == IF a.pos[1].t = "l" THEN a.pos[1].k ELSE <<a.pos[1]>>
           name == LambdaName(node.p)
       IN Then(Create(st, name, par, a.rest), LAMBDA o, s : Ok(<<Atom("y", name, node)>>, s))

DoSplat(ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    Ok(TLCEval(FlattenSeq([k \in 1..Len(o) |-> IF o[k].t = "l" THEN FirstW(o[k].k, o[k].w) ELSE <<o[k]>>])), s))
DoLog(ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    IF \E k \in 1..Len(o) : ~Atomic(o[k]) THEN Err(s)
    ELSE Ok(<<>>, [s EXCEPT !.log = Append(@, Join(Values(o), " "))]))
DoOsEnv(ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    IF Len(o) # 1 THEN Err(s)
    ELSE IF ~Atomic(o[1]) THEN Err(s)
    ELSE IF o[1].v \notin DOMAIN s.x.vars THEN Err(s)
    ELSE Ok(<<Atom("s", s.x.vars[o[1].v], o[1])>>, s))

DoFormat(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    IF o = <<>> THEN Err(s)
    ELSE IF o[1].t # "s" THEN Err(s)
    ELSE LET args == Tail(o)
             Val(n) == IF n.t = "a" THEN n.n ELSE n
         IN IF \E k \in 1..Len(args) : ~Atomic(Val(args[k])) THEN Err(s)
            ELSE LET r == Render(o[1].v, [k \in 1..Len(args) |->
                             [name |-> IF args[k].t = "a" THEN args[k].v ELSE "", named |-> args[k].t = "a", v |-> Val(args[k]).v]])
                 IN IF ~r.ok THEN Err(s) ELSE Ok(<<Atom("s", r.text, node)>>, s))

DoGlob(ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("literal")>>,
                ("type" :> MayBe("literal", {"file", "directory", "any"}))
                @@ ("sort" :> MayBe("literal", {"modified", "created", "name", "type", "none"}))
                @@ ("order" :> MayBe("literal", {"ascending", "descending"})), NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE LET g == GlobPaths(s.x, a.pos[1].v, Option(a, "type", "any"), Option(a, "sort", "none"), Option(a, "order", "ascending"))
         IN IF ~g.ok THEN Err(s)
            ELSE Ok(TLCEval([k \in 1..Len(g.paths) |-> [t |-> "s", v |-> g.paths[k], w |-> IF k = 1 THEN "" ELSE " ", p |-> a.pos[1].p]]), s))

DoDate(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("literal"), May("number")>>, "timezone" :> May("number"), NoRest) IN
    IF ~a.ok THEN Err(s)
    \* without a time it is the present one, which is not modelled beyond texts that show none of it
    ELSE LET r == DateText(a.pos[1].v, IF Len(a.pos) < 2 THEN "0" ELSE a.pos[2].v, Option(a, "timezone", "0"))
         IN IF ~r.ok THEN Err(s) ELSE Ok(<<Atom("s", r.text, node)>>, s))
DoTimestamp(node, ps, st) ==
  Eager(ps, st, LAMBDA o, s :
    LET a == Arguments(o, <<Must("literal"), Must("literal")>>, "timezone" :> May("number"), NoRest) IN
    IF ~a.ok THEN Err(s)
    ELSE LET r == TimestampOf(a.pos[1].v, a.pos[2].v, Option(a, "timezone", "0"))
         IN IF ~r.ok THEN Err(s) ELSE Ok(<<Atom("n", r.text, node)>>, s))

\* Any other name is that of a macro defined in the document.
DoUser(name, node, ps, st) ==
  Eager(ps, st, LAMBDA o, s : IF name \in DOMAIN s.env THEN Apply(s.env[name], node, o, s) ELSE Err(s))

Invoke(name, node, ps, st) ==
  CASE name = "define"    -> DoDefine(node, ps, st)
    [] name = "match"     -> DoMatch(node, ps, st)
    [] name = "ifdef"     -> DoIfdef(node, ps, st)
    [] name = "do"        -> ExpNodes(ps, st)
    [] name = "get"       -> DoGet(ps, st)
    [] name = "raw"       -> DoText("r", node, ps, st)
    [] name = "string"    -> DoText("s", node, ps, st)
    [] name = "number"    -> DoCast("n", ps, st)
    [] name = "symbol"    -> DoCast("y", ps, st)
    [] name = "include"   -> DoInclude(node, ps, st)
    [] name = "embed"     -> DoEmbed(node, ps, st)
    [] name = "namespace" -> DoNamespace(node, ps, st)
    [] name = "markdown"  -> DoMarkdown(node, ps, st)
    [] name = "yaml"      -> DoData("yaml", node, ps, st)
    [] name = "json"      -> DoData("yaml", node, ps, st)
    [] name = "toml"      -> DoData("toml", node, ps, st)
    [] name = "glob"      -> DoGlob(ps, st)
    [] name = "for"       -> DoFor(ps, st)
    [] name = "sort"      -> DoSort(node, ps, st)
    [] name = "reverse"   -> DoReverse(ps, st)
    [] name = "date"      -> DoDate(node, ps, st)
    [] name = "timestamp" -> DoTimestamp(node, ps, st)
    [] name = "join"      -> DoJoin(node, ps, st)
    [] name = "concat"    -> DoConcat(node, ps, st)
    [] name = "map"       -> DoMap(TRUE, node, ps, st)
    [] name = "filter"    -> DoMap(FALSE, node, ps, st)
    [] name = "splat"     -> DoSplat(ps, st)
    [] name = "list"      -> Eager(ps, st, LAMBDA o, s : Ok(<<[node EXCEPT !.k = o]>>, s))
    [] name = "strip"     -> Eager(ps, st, LAMBDA o, s : Ok(FirstW(o, ""), s))
    [] name = "apply"     -> DoApply(node, ps, st)
    [] name = "lambda"    -> DoLambda(node, ps, st)
    [] name = "log"       -> DoLog(ps, st)
    [] name = "format"    -> DoFormat(node, ps, st)
    [] name = "os/env"    -> DoOsEnv(ps, st)
    [] OTHER              -> DoUser(name, node, ps, st)

Fresh(x) == [env |-> [n \in {} |-> 0], log |-> <<>>, id |-> 0, x |-> x]
=============================================================================
