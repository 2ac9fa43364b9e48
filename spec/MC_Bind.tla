------------------------------- MODULE MC_Bind -------------------------------
(* Every short list of parameters against every short list of arguments, and *)
(* every short match: what binding must achieve, stated without saying how.  *)
EXTENDS Expander
CONSTANTS Params, Args0      \* how long the lists of parameters and of arguments may be
P0 == <<"bind", 0, 1, 0, 1>>
Y(v) == [t |-> "y", v |-> v, w |-> "", p |-> P0]
N(v) == [t |-> "n", v |-> v, w |-> "", p |-> P0]
Q(v) == [t |-> "s", v |-> v, w |-> "", p |-> P0]
A(v, n) == [t |-> "a", v |-> v, n |-> n, w |-> "", p |-> P0]
L(k) == [t |-> "l", k |-> k, w |-> "", e |-> "", p |-> P0, q |-> P0]

ParamPool == <<Y("a"), Y("b"), Y("&r"), Y("&&n"), A("k", Y("d")), A("l", N("7")), L(<<Y("c"), Y("&s")>>), N("1"), Q("1"), L(<<A("k", Y("c"))>>)>>
ArgPool == <<N("1"), Y("x"), Q("1"), A("k", N("2")), A("k", N("3")), A("m", Y("u")), L(<<N("1"), N("2")>>), L(<<>>)>>

ListsOf(pool, n) == UNION {[1..m -> 1..Len(pool)] : m \in 0..n}
Of(pool, f) == TLCEval([k \in 1..Len(f) |-> pool[f[k]]])

VARIABLES par, arg
vars == <<par, arg>>
Init == par \in ListsOf(ParamPool, Params) /\ arg = <<>>
Next == Len(arg) < Args0 /\ (\E k \in 1..Len(ArgPool) : arg' = Append(arg, k)) /\ UNCHANGED par
Spec == Init /\ [][Next]_vars

St0 == Define(Define(Fresh([files |-> <<>>]), "a", <<>>, <<Q("old")>>), "other", <<>>, <<Q("old")>>)
Plain(ns) == SelectSeq(ns, LAMBDA n : n.t # "a" /\ ~IsRest(n) /\ ~IsNamedRest(n))
Positional(ns) == SelectSeq(ns, LAMBDA n : n.t # "a")
Named(ns) == SelectSeq(ns, LAMBDA n : n.t = "a")
NamesOf(ns) == {Named(ns)[k].v : k \in 1..Len(Named(ns))}

\* Which values fit which patterns.
RECURSIVE Fitting(_, _), AllFit(_, _)
Fitting(p, v) ==
  CASE p.t = "y" -> TRUE
    [] p.t = "n" -> v.t = "n" /\ v.v = p.v
    [] p.t \in {"s", "r"} -> v.t \in {"s", "r"} /\ v.v = p.v
    [] p.t = "a" -> v.t = "a" /\ v.v = p.v /\ Fitting(p.n, v.n)
    [] p.t = "l" -> v.t = "l" /\ AllFit(p.k, v.k)
AllFit(ps, vs) ==
  /\ Cardinality({k \in 1..Len(ps) : IsRest(ps[k])}) <= 1
  /\ Cardinality({k \in 1..Len(ps) : IsNamedRest(ps[k])}) <= 1
  /\ IF \E k \in 1..Len(ps) : IsRest(ps[k]) THEN Len(Positional(vs)) >= Len(Plain(ps)) ELSE Len(Positional(vs)) = Len(Plain(ps))
  /\ \A k \in 1..Len(Plain(ps)) : Fitting(Plain(ps)[k], Positional(vs)[k])
  /\ (NamesOf(vs) \subseteq NamesOf(ps) \/ \E k \in 1..Len(ps) : IsNamedRest(ps[k]))

\* The names a pattern defines.
RECURSIVE Bound(_), AllBound(_)
Bound(p) == CASE p.t = "y" -> {p.v} [] p.t = "l" -> AllBound(p.k) [] p.t = "a" -> Bound(p.n) [] OTHER -> {}
AllBound(ps) == UNION {CASE ps[k].t = "a" -> {ps[k].v}
                         [] IsNamedRest(ps[k]) -> {Drop(ps[k].v, 2)}
                         [] IsRest(ps[k]) -> {Drop(ps[k].v, 1)}
                         [] OTHER -> Bound(ps[k]) : k \in 1..Len(ps)}
NoneTwice(ps) == Cardinality(AllBound(ps)) = Len(ps) + Cardinality({k \in 1..Len(ps) : ps[k].t = "l" /\ Len(ps[k].k) = 2})
                                                   - Cardinality({k \in 1..Len(ps) : ps[k].t \in {"n", "s"}})

Ps == Of(ParamPool, par)
Vs == Of(ArgPool, arg)
R == BindList(Ps, Vs, St0)
Body(name) == R.st.env[name].body

\* Binding succeeds exactly if the arguments fit.
Decided == R.ok <=> AllFit(Ps, Vs)
\* It defines the names of the parameters and no other, and changes no other.
Frame == R.ok => /\ DOMAIN R.st.env = DOMAIN St0.env \cup AllBound(Ps)
                 /\ \A name \in DOMAIN St0.env : name \notin AllBound(Ps) => R.st.env[name] = St0.env[name]
                 /\ R.st.log = St0.log /\ R.out = <<>>
\* Every argument gets where it belongs (if no name is bound twice).
Reaches ==
  (R.ok /\ NoneTwice(Ps)) =>
    LET pl == Plain(Ps)  given == Positional(Vs)  named == Named(Vs) IN
    /\ \A k \in 1..Len(pl) : pl[k].t = "y" => Body(pl[k].v) = <<given[k]>>
    /\ \A k \in 1..Len(Ps) : IsRest(Ps[k]) => Body(Drop(Ps[k].v, 1)) = SubSeq(given, Len(pl) + 1, Len(given))
    /\ \A k \in 1..Len(Ps) : Ps[k].t = "a" =>
         LET is == {j \in 1..Len(named) : named[j].v = Ps[k].v}
             last == CHOOSE j \in is : \A m \in is : m <= j
         IN Body(Ps[k].v) = <<IF is = {} THEN Ps[k].n ELSE named[last].n>>
    /\ \A k \in 1..Len(Ps) : IsNamedRest(Ps[k]) =>
         LET got == Body(Drop(Ps[k].v, 2))
             is == {j \in 1..Len(named) : named[j].v \notin NamesOf(Ps)}
         IN /\ {got[j].v : j \in 1..Len(got)} = {named[j].v : j \in is}
            /\ Len(got) = Cardinality({named[j].v : j \in is})
            /\ \A j \in 1..Len(got) : \E m \in is : named[m] = got[j] /\ \A o \in is : o > m => named[o].v # got[j].v
            /\ \A j, m \in 1..Len(got) : j < m =>
                 \E jj, mm \in is : jj < mm /\ named[jj] = got[j] /\ named[mm] = got[m]
\* The order of named arguments, relative to positional ones, does not matter.
Commutes == \A k \in 1..(Len(Vs) - 1) :
              (Vs[k].t = "a") # (Vs[k + 1].t = "a") =>
                LET S == BindList(Ps, [Vs EXCEPT ![k] = Vs[k + 1], ![k + 1] = Vs[k]], St0)
                IN S.ok = R.ok /\ (R.ok => S.st.env = R.st.env)

\* A match takes the first arm that fits; what it binds is gone afterwards.
Arms == [k \in 1..Len(Ps) |-> L(<<Ps[k], N(ToString(k))>>)]
MatchSound ==
  arg = <<>> \/ (Vs[1].t = "a") \/
    LET m == DoMatch(L(<<>>), <<Vs[1]>> \o Arms, St0)
        fit == {k \in 1..Len(Ps) : Fitting(Ps[k], Vs[1])}
        first == CHOOSE k \in fit : \A j \in fit : k <= j
    IN /\ m.ok
       /\ m.out = IF fit = {} THEN <<>> ELSE <<N(ToString(first))>>
       /\ m.st.env = St0.env
=============================================================================
