------------------------------- MODULE Markup -------------------------------
(* Generating text from an expanded tree.                                    *)
(*                                                                           *)
(* A machine writes one item at a time.  What is still to be written, todo,  *)
(* is a stack of items: nodes (with the markup they are generated as),       *)
(* closing tags, closing braces, and literal text.                           *)
EXTENDS Txt

Items(m, ns) == [k \in 1..Len(ns) |-> [i |-> "node", m |-> m, n |-> ns[k]]]
Lit(v) == <<[i |-> "text", v |-> v]>>
Atomic(n) == n.t \in {"y", "n", "s", "r"}
Symbolic(n) == n.t \in {"y", "n"}

\* Put text, then do these items before all others.
Put(s, v, items) == [s EXCEPT !.out = @ \o v, !.todo = items \o Tail(@)]
Fail(s, p) == [s EXCEPT !.err = <<p>>, !.todo = <<>>]
Least(S) == CHOOSE k \in S : \A j \in S : k <= j

------------------------------------------------------------------------------
(* Escaping.                                                                 *)
XmlChar(c) == CASE c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] c = DQ -> "&quot;" [] c = "'" -> "&apos;" [] c = "&" -> "&amp;" [] OTHER -> c
Escape(v) == IF AnyChar(v, {"<", ">", DQ, "'", "&"}) THEN MapChars(XmlChar, v) ELSE v

Quoted(v) ==
  LET F(c) == CASE c = DQ -> BS \o DQ [] c = BS -> BS \o BS [] c = NL -> BS \o "n" [] c = "\t" -> BS \o "t" [] c = "\r" -> BS \o "r"
                [] c = CharOf(0) -> BS \o "x00"
                [] c \in DOMAIN Table.hidden -> Table.hidden[c]
                [] OTHER -> c
  IN DQ \o MapChars(F, v) \o DQ

------------------------------------------------------------------------------
(* Plain text and S-expressions.                                             *)
TextNode(s, n) ==
  CASE n.t = "l" -> Put(s, n.w \o "(", Items("text", n.k) \o Lit(n.e \o ")"))
    [] n.t = "a" -> Put(s, n.w \o ":" \o n.v, Items("text", <<n.n>>))
    [] OTHER -> Put(s, n.w \o n.v, <<>>)

SexpNode(s, n) ==
  CASE n.t = "l" -> Put(s, n.w \o "(", Items("sexp", n.k) \o Lit(n.e \o ")"))
    [] n.t = "a" -> Put(s, n.w \o ":" \o n.v, Items("sexp", <<n.n>>))
    [] n.t = "s" -> Put(s, n.w \o Quoted(n.v), <<>>)
    [] n.t = "r" -> Put(s, n.w \o "(%raw " \o Quoted(n.v) \o ")", <<>>)
    [] OTHER -> Put(s, n.w \o n.v, <<>>)

------------------------------------------------------------------------------
(* CSS.                                                                      *)
CssFunctions == {"attr", "blur", "brightness", "calc", "circle", "color", "contrast", "counter", "counters", "cubic-bezier",
  "drop-shadow", "ellipse", "format", "grayscale", "hsl", "hsla", "hue-rotate", "hwb", "image", "inset", "invert", "lab", "lch",
  "linear-gradient", "matrix", "matrix3d", "opacity", "perspective", "polygon", "radial-gradient", "repeating-linear-gradient",
  "repeating-radial-gradient", "rgb", "rgba", "rotate", "rotate3d", "rotateX", "rotateY", "rotateZ", "saturate", "sepia", "scale",
  "scale3d", "scaleX", "scaleY", "scaleZ", "skew", "skewX", "skewY", "symbols", "translate", "translate3d", "translateX",
  "translateY", "translateZ", "url", "var", "supports"}
OneLine == {"@charset", "@import", "@namespace"}
Nesting == {"@counter-style", "@document", "@font-feature-values", "@keyframes", "@media", "@supports"}
Spaces == {" ", "\t", NL, "\r", CharOf(11), CharOf(12), CharOf(133), CharOf(160)} \cup {CharOf(n) : n \in {5760, 8195, 8232, 8233, 8239, 12288}}

RECURSIVE TrimL(_), TrimR(_)
TrimL(v) == IF Len(v) > 0 /\ Ch(v, 1) \in Spaces THEN TrimL(Drop(v, 1)) ELSE v
TrimR(v) == IF Len(v) > 0 /\ Ch(v, Len(v)) \in Spaces THEN TrimR(SubSeq(v, 1, Len(v) - 1)) ELSE v

\* A string in CSS: what cannot stand there as it is, is given by its number and a space.
HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexText(n) == (IF n >= 16 THEN HexDigits[(n \div 16) + 1] ELSE "") \o HexDigits[(n % 16) + 1]
Control == TLCEval([c \in {CharOf(n) : n \in (0..31) \cup (127..159)} |-> BS \o HexText(CHOOSE n \in (0..31) \cup (127..159) : CharOf(n) = c) \o " "])
CssString(v) == LET F(c) == IF c \in {DQ, BS} THEN BS \o c ELSE IF c \in DOMAIN Control THEN Control[c] ELSE c IN DQ \o MapChars(F, v) \o DQ

Good(v) == [ok |-> TRUE, v |-> v, p |-> <<>>]
RECURSIVE CssValue(_)
CssValue(n) ==
  CASE n.t = "a" -> [ok |-> FALSE, v |-> "", p |-> n.p]
    [] n.t = "r" -> Good(n.v)
    [] n.t = "l" ->
         IF n.k = <<>> THEN Good("")
         ELSE LET vs == TLCEval([k \in 1..Len(n.k) |-> CssValue(n.k[k])])
                  bad == {k \in 1..Len(vs) : ~vs[k].ok}
                  head == vs[1].v
                  args == TLCEval([k \in 1..(Len(vs) - 1) |-> vs[k + 1].v])
                  text == TrimL(TrimR(Join(args, IF head \in {"rgba", "hsla"} THEN ", " ELSE " ")))
              IN CASE bad # {} -> vs[Least(bad)]
                   [] bad = {} /\ head \in CssFunctions -> Good(head \o "(" \o text \o ")")
                   [] bad = {} /\ head \in {"+", "-", "*", "/"} -> Good("(" \o Join(args, " " \o head \o " ") \o ")")
                   [] OTHER -> Good(head \o " " \o text)
    [] OTHER -> Good(IF AnyChar(n.v, Spaces) THEN CssString(n.v) ELSE n.v)

CssItems(i, ns) == [k \in 1..Len(ns) |-> [i |-> i, n |-> ns[k]]]
Brace == <<[i |-> "brace"]>>

CssRule(s, w, ks, p) ==
  LET others == {k \in 1..Len(ks) : ~Atomic(ks[k])}
      n == IF others = {} THEN Len(ks) ELSE Least(others) - 1
      args == Tail(ks)
      lists == {k \in 1..Len(args) : args[k].t = "l"}
  IN IF n = 0 THEN Fail(s, p)
     ELSE IF ks[1].v \in OneLine THEN Put(s, w \o ks[1].v \o " ", CssItems("arg", args) \o Lit(";\n"))
     ELSE IF ks[1].v \in Nesting
     THEN IF lists = {} THEN Put(s, w \o ks[1].v \o " ", CssItems("arg", args) \o Lit(";"))
          ELSE LET f == Least(lists) IN
               Put(s, w \o ks[1].v \o " ", CssItems("arg", SubSeq(args, 1, f - 1)) \o Lit("{\n")
                                            \o CssItems("rule", SubSeq(args, f, Len(args))) \o Brace)
     ELSE Put(s, w \o Cat([k \in 1..n |-> ks[k].v \o " "]) \o "{\n", CssItems("prop", SubSeq(ks, n + 1, Len(ks))) \o Brace)

CssItem(s, it) ==
  LET n == it.n
      v == IF n.t = "a" THEN CssValue(n.n) ELSE CssValue(n)
  IN CASE it.i = "rule" -> IF n.t = "l" THEN CssRule(s, n.w, n.k, n.p) ELSE Fail(s, n.p)
       [] it.i = "prop" -> IF n.t # "a" THEN Fail(s, n.p) ELSE IF ~v.ok THEN Fail(s, v.p)
                           ELSE Put(s, "  " \o n.v \o ": " \o v.v \o ";\n", <<>>)
       [] it.i = "arg" -> IF ~v.ok THEN Fail(s, v.p)
                          ELSE Put(s, (IF n.t = "a" THEN "(" \o n.v \o ": " \o v.v \o ")" ELSE v.v) \o " ", <<>>)

------------------------------------------------------------------------------
(* HTML and XML.                                                             *)
Void == {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}

\* Of an attribute value only raw text is not escaped.
AttrValue(n) == IF n.t = "r" THEN n.v ELSE Escape(n.v)
Attr(m, a) == (IF m = "html" /\ a.w # "" THEN a.w ELSE " ") \o a.v \o "=" \o DQ \o AttrValue(a.n) \o DQ

\* Text of the source between two byte offsets.
Source(text, from, to) ==
  LET fs == {k \in 1..Len(text) : text[k][2] = from}
      ts == {k \in 1..Len(text) : text[k][2] = to}
      f == CHOOSE k \in fs : TRUE
      t == CHOOSE k \in ts : TRUE
  IN IF fs = {} \/ ts = {} \/ from > to THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> Cat([k \in 1..(t - f) |-> text[f + k - 1][1]])]

\* White space is one byte a character.
Pre(n, rest, srcs) ==
  IF rest = <<>> THEN [ok |-> TRUE, v |-> n.e]
  ELSE IF rest[1].p[1] # n.q[1] \/ n.q[1] \notin DOMAIN srcs THEN [ok |-> FALSE]
  ELSE LET w == rest[1].w IN Source(srcs[n.q[1]], rest[1].p[2] - Len(w) + (IF StartsWith(w, " ") THEN 1 ELSE 0), n.q[2])

Element(s, m, n, srcs) ==
  LET head == n.k[1]
      tag == IF m = "html" THEN ToLower(head.v) ELSE head.v
      front == {k \in 2..Len(n.k) : n.k[k].t # "a"}
      at == IF front = {} THEN Len(n.k) + 1 ELSE Least(front)
      attrs == SubSeq(n.k, 2, at - 1)
      bad == {k \in 1..Len(attrs) : ~Atomic(attrs[k].n)}
      rest == SubSeq(n.k, at, Len(n.k))
      below == rest # <<>> /\ HasChar(rest[1].w, NL)
      kids == IF rest = <<>> \/ below THEN rest ELSE [rest EXCEPT ![1].w = ""]
      open == n.w \o "<" \o head.v \o Cat([k \in 1..Len(attrs) |-> Attr(m, attrs[k])]) \o ">"
      close == <<[i |-> "close", tag |-> tag,
                  w |-> CASE m = "html" /\ tag = "pre" -> ""      \* its text has it
                          [] OTHER -> IF n.e # "" THEN n.e ELSE IF below \/ tag = "style" THEN n.w ELSE ""]>>
      pre == Pre(n, rest, srcs)
  IN CASE bad # {} -> Fail(s, attrs[Least(bad)].n.p)
       [] bad = {} /\ m = "html" /\ tag \in Void -> IF rest # <<>> THEN Fail(s, rest[1].p) ELSE Put(s, open, <<>>)
       [] bad = {} /\ m = "xml" -> Put(s, open, Items("xml", kids) \o close)
       [] OTHER ->
            CASE tag = "pre" -> IF pre.ok THEN Put(s, open \o pre.v, close) ELSE Fail(s, rest[1].p)
              [] tag \in {"textarea", "title"} -> Put(s, open, Items("text", kids) \o close)
              [] tag = "script" -> Put(s, open, Items("sexp", kids) \o close)
              [] tag \in {"math", "svg"} -> Put(s, open, Items("xml", kids) \o close)
              [] tag = "style" ->
                   IF kids # <<>> /\ kids[1].t = "s"
                   THEN IF Len(kids) # 1 THEN Fail(s, kids[1].p) ELSE Put(s, open \o kids[1].v, close)
                   ELSE Put(s, open \o NL, CssItems("rule", kids) \o close)
              [] OTHER -> Put(s, open, Items("html", kids) \o close)

\* <!...>, and in XML <?...?>
Declaration(s, m, n) ==
  LET items == Tail(n.k)
      Fits(a) == Symbolic(a) \/ (m = "xml" /\ a.t = "a" /\ Atomic(a.n))
      bad == {k \in 1..Len(items) : ~Fits(items[k])}
      b == items[Least(bad)]
      Show(a) == IF a.t = "a" THEN Attr("xml", a) ELSE " " \o a.v
  IN IF bad # {} THEN Fail(s, IF m = "xml" /\ b.t = "a" THEN b.n.p ELSE b.p)
     ELSE Put(s, n.w \o "<" \o n.k[1].v \o Cat([k \in 1..Len(items) |-> Show(items[k])])
                 \o (IF Ch(n.k[1].v, 1) = "?" THEN " ?>" ELSE ">"), <<>>)

MarkupNode(s, m, n, srcs) ==
  CASE n.t \in {"y", "n", "s"} -> Put(s, n.w \o Escape(n.v), <<>>)
    [] n.t = "r" -> IF m = "html" THEN Put(s, n.w \o n.v, <<>>) ELSE Fail(s, n.p)
    [] n.t = "a" -> Fail(s, n.p)
    [] n.t = "l" ->
         IF n.k = <<>> THEN Fail(s, n.p)
         ELSE IF n.k[1].t # "y" \/ n.k[1].v = "" THEN Fail(s, n.k[1].p)
         ELSE IF Ch(n.k[1].v, 1) \in (IF m = "html" THEN {"!"} ELSE {"!", "?"}) THEN Declaration(s, m, n)
         ELSE Element(s, m, n, srcs)

------------------------------------------------------------------------------
(* Whole documents.                                                          *)
RECURSIVE Within(_, _, _)
Within(n, tag, level) ==
  /\ level > 0
  /\ CASE n.t = "l" -> \/ n.k # <<>> /\ Atomic(n.k[1]) /\ ToLower(n.k[1].v) = tag
                       \/ \E k \in 1..Len(n.k) : Within(n.k[k], tag, level - 1)
       [] n.t = "a" -> Within(n.n, tag, level - 1)
       [] OTHER -> FALSE
Has(tree, tag, level) == \E k \in 1..Len(tree) : Within(tree[k], tag, level)
IsHead(n) == n.t = "l" /\ n.k # <<>> /\ Atomic(n.k[1]) /\ ToLower(n.k[1].v) = "head"

EmptyHtml == "<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n</body>\n</html>\n"
XmlDeclaration == "<?xml version=" \o DQ \o "1.0" \o DQ \o " encoding=" \o DQ \o "UTF-8" \o DQ \o " ?>\n"

HtmlDocument(tree) ==
  LET root == ~Has(tree, "!doctype", 1) /\ ~Has(tree, "html", 1)
      body == root /\ ~Has(tree, "body", 2)
      split == body /\ IsHead(tree[1])
      before == (IF Has(tree, "!doctype", 1) THEN "" ELSE "<!DOCTYPE html>\n")
                \o (IF root THEN "<html>\n" ELSE "")
                \o (IF root /\ ~Has(tree, "head", 2) THEN "<head></head>\n" ELSE "")
      after == (IF body THEN "\n</body>" ELSE "") \o (IF root THEN "\n</html>" ELSE "")
      open == IF body THEN "<body>\n" ELSE ""
  IN IF tree = <<>> THEN Lit(EmptyHtml)
     ELSE IF split THEN Lit(before) \o Items("html", <<tree[1]>>) \o Lit(NL \o open) \o Items("html", Tail(tree)) \o Lit(after)
     ELSE Lit(before \o open) \o Items("html", tree) \o Lit(after)

XmlDocument(tree) ==
  LET has == tree # <<>> /\ tree[1].t = "l" /\ tree[1].k # <<>> /\ tree[1].k[1].t = "y" /\ ToLower(tree[1].k[1].v) = "?xml"
  IN Lit(IF has THEN "" ELSE XmlDeclaration) \o Items("xml", tree)

------------------------------------------------------------------------------
\* target: text, sexp, html, xml or css, with a "!" for a whole document.
MarkInit(target, tree) ==
  [out |-> "", err |-> <<>>,
   todo |-> CASE target = "html!" -> HtmlDocument(tree)
              [] target = "xml!" -> XmlDocument(tree)
              [] target = "css!" -> IF tree = <<>> THEN Lit(NL) ELSE CssItems("rule", tree)
              [] target = "css" -> CssItems("rule", tree)
              [] target \in {"text", "text!"} -> Items("text", tree)
              [] target \in {"sexp", "sexp!"} -> Items("sexp", tree)
              [] OTHER -> Items(target, tree)]

MarkStep(s, srcs) ==
  LET it == s.todo[1] IN
  CASE it.i = "text" -> Put(s, it.v, <<>>)
    [] it.i = "close" -> Put(s, it.w \o "</" \o it.tag \o ">", <<>>)
    [] it.i = "brace" -> Put(s, "}", <<>>)
    [] it.i \in {"rule", "prop", "arg"} -> CssItem(s, it)
    [] it.i = "node" /\ it.m = "text" -> TextNode(s, it.n)
    [] it.i = "node" /\ it.m = "sexp" -> SexpNode(s, it.n)
    [] OTHER -> MarkupNode(s, it.m, it.n, srcs)

RECURSIVE MarkRun(_, _)
MarkRun(s, srcs) == IF s.todo = <<>> THEN s ELSE MarkRun(MarkStep(s, srcs), srcs)
Generate(target, tree, srcs) == MarkRun(MarkInit(target, tree), srcs)
=============================================================================
