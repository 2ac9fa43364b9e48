------------------------------- MODULE MC_Sexp -------------------------------
(* Every text up to a bound that can be read: writing its tree as an         *)
(* S-expression and reading that gives the same tree again.                  *)
EXTENDS Reader
M == INSTANCE Markup
CONSTANTS Bound, Alphabet
VARIABLE cs
Init == cs = <<>>
Next == Len(cs) < Bound /\ \E c \in Alphabet : cs' = Append(cs, c)
Spec == Init /\ [][Next]_cs
Text(v) == [k \in 1..Len(v) |-> [c |-> v[k], b |-> 1, w |-> 1]]
R == Read(Text(cs))

RECURSIVE Shape(_), Plain(_)
Shape(n) == CASE n.t = "l" -> <<"l", [k \in 1..Len(n.k) |-> Shape(n.k[k])], n.w, n.e>>
              [] n.t = "a" -> <<"a", n.v, Shape(n.n), n.w>>
              [] OTHER -> <<n.t, n.v, n.w>>
Shapes(ns) == [k \in 1..Len(ns) |-> Shape(ns[k])]
\* Escapes in names are not written again.
Plain(n) == CASE n.t = "l" -> \A k \in 1..Len(n.k) : Plain(n.k[k])
              [] n.t = "a" -> Plain(n.n)
              [] n.t = "s" -> TRUE
              [] OTHER -> ~AnyChar(n.v, {"(", ")", DQ, BS} \cup Ws) /\ n.v # "" /\ Ch(n.v, 1) \notin {":", ";"} /\ (n.t = "n" <=> Ch(n.v, 1) \in Digits \cup {"+", "-"})
RoundTrip ==
  (R.ok /\ \A k \in 1..Len(R.tree) : Plain(R.tree[k])) =>
    LET out == M!Generate("sexp", R.tree, <<>>).out
        again == Read(Text(Chars(out)))
    IN /\ again.ok
       /\ Shapes(again.tree) = Shapes(R.tree)
\* Plain text keeps all but comments, escapes and quotes.
TextOf == (R.ok /\ \A k \in 1..Len(cs) : cs[k] \notin {DQ, BS, ";"}) => M!Generate("text", R.tree, <<>>).out = Cat(cs)
                                                                       \/ (Len(cs) > 0 /\ cs[Len(cs)] \in Ws)
\* Inside of a page, scripts are S-expressions, titles are plain text; neither is escaped.
Q0 == <<"", 0, 1, 0, 1>>
El(tag, kids) == [t |-> "l", k |-> <<[t |-> "y", v |-> tag, w |-> "", p |-> Q0]>> \o kids, w |-> "", e |-> "|", p |-> Q0, q |-> Q0]
Embedded ==
  (R.ok /\ R.tree # <<>> /\ R.tree[1].t # "a") =>
    LET kids == IF HasChar(R.tree[1].w, NL) THEN R.tree ELSE [R.tree EXCEPT ![1].w = ""] IN
    /\ M!Generate("html", <<El("script", R.tree)>>, <<>>).out = "<script>" \o M!Generate("sexp", kids, <<>>).out \o "|</script>"
    /\ M!Generate("html", <<El("title", R.tree)>>, <<>>).out = "<title>" \o M!Generate("text", kids, <<>>).out \o "|</title>"
=============================================================================
