----------------------------- MODULE Trace_Sexp -----------------------------
(* A tree, written as S-expressions by the real code, must be read back by   *)
(* the real code as the same tree, whenever the specification says it does.  *)
EXTENDS Markup
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, verdict
vars == <<i, verdict>>

\* Everything but places.  Reading does not expand: raw text is the invocation that makes it.
RECURSIVE Same(_, _), AllSame(_, _)
Same(a, b) ==
  IF a.t = "r" THEN /\ b.t = "l" /\ a.w = b.w /\ Len(b.k) = 2 /\ b.k[1].t = "y" /\ b.k[1].v = "%raw" /\ b.k[2].t = "s" /\ b.k[2].v = a.v
  ELSE /\ a.t = b.t /\ a.w = b.w
       /\ CASE a.t = "l" -> (a.e = b.e /\ AllSame(a.k, b.k))
            [] a.t = "a" -> (a.v = b.v /\ Same(a.n, b.n))
            [] OTHER -> a.v = b.v
AllSame(as, bs) == Len(as) = Len(bs) /\ \A k \in 1..Len(as) : Same(as[k], bs[k])

\* Names that need no escapes, and neighbours that white space or punctuation separates.
Special == {"(", ")", DQ, BS, CharOf(11), CharOf(12)} \cup Ws
PlainName(n) == Len(n.v) > 0 /\ ~AnyChar(n.v, Special) /\ Ch(n.v, 1) \notin {":", ";"}
                /\ (n.t = "n" <=> Ch(n.v, 1) \in Digits \cup {"+", "-"})
PlainKey(v) == \A k \in 1..Len(v) : Ch(v, k) \notin Special
RECURSIVE FirstOf(_), LastOf(_)
FirstOf(n) == CASE n.t \in {"y", "n"} -> "word" [] n.t = "s" -> "quote" [] n.t = "a" -> "word" [] OTHER -> "paren"
LastOf(n) == CASE n.t \in {"y", "n"} -> "word" [] n.t = "s" -> "quote" [] n.t = "a" -> LastOf(n.n) [] OTHER -> "paren"
Apart(a, b) == \/ b.w # ""
               \/ /\ ~(LastOf(a) = "word" /\ FirstOf(b) = "word")
                  /\ ~(LastOf(a) = "quote" /\ FirstOf(b) = "quote")
RECURSIVE Plain(_), AllPlain(_)
Plain(n) == CASE n.t \in {"y", "n"} -> PlainName(n)
              [] n.t = "l" -> AllPlain(n.k)
              [] n.t = "a" -> PlainKey(n.v) /\ Plain(n.n) /\ (n.n.w # "" \/ FirstOf(n.n) # "word")
              [] OTHER -> TRUE
AllPlain(ns) == (\A k \in 1..Len(ns) : Plain(ns[k])) /\ \A k \in 1..(Len(ns) - 1) : Apart(ns[k], ns[k + 1])

Init == i \in 1..Len(Trace) /\ verdict = "open"
Next == LET c == Trace[i] IN
        /\ verdict = "open" /\ i' = i
        /\ verdict' = CASE ~AllPlain(c.tree) -> "other"
                        [] c.ok /\ AllSame(c.tree, c.back) -> "accepted"
                        [] OTHER -> "rejected"
        /\ verdict' = "rejected" => PrintT("REJECT " \o ToString(i))
Spec == Init /\ [][Next]_vars
=============================================================================
