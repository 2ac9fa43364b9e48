"""Documents for the formatters."""
import itertools

TAGS = ['p', 'div', 'span', 'a', 'ul', 'li', 'h1', 'b', 'P', 'Div', 'custom-tag', 'é', 'table', 'header', 'headline', 'bodyguard', 'nav', 'main', 'preface', 'p:q', 'x1', 'scripts', 'styled', 'col-x']
VOID = ['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr', 'BR', 'Img', 'Meta']
SPECIAL = ['pre', 'textarea', 'title', 'style', 'script', 'math', 'svg', 'PRE', 'Title', 'STYLE', 'Script', 'SVG']
FRAME = ['html', 'head', 'body', 'HTML', 'Head', 'BODY']
WORDS = ['x', 'hello', 'world', '12', '-3.5', '+', 'é', '→', '😀', "it's", 'a&b', '<', '>', 'a<b>c', '&amp;', '\\(', '\\)', 'a\\"b', '\\:', '中文', 'x;y', '=', '/>', '&lt;', "'q'", '&#38;', '&#x26;', '&', '&quot;', '<!--', '-->', ']]>', '<![CDATA[', '<?x', '&amp', '&;', '&#;', '""'.strip('"') or '<>', '--']
STRINGS = ['""', '"text"', '"a b"', '"<b>&\\"\'"', '"a\\nb"', '"\\t"', '"é→😀"', '"</p>"', '"x &amp; y"', '" lead"', '"trail "', '"two\\n\\nlines"', '"\\\\"', '"\\x00"', '"\\x007"', '"\\u00a0"', '"\\x7f"',
           '"\\r"', '"\\e["', '"&"', '"\'"', '"\\""', '"""tri "ple" q"""', '"(x)"', '"--> <!--"', '"1 < 2 > 0"', '"\\u{300}"', '"\\u{feff}"', '"]]>"', '"%x"', '"&#38;#60; &#x3c;"', '"<![CDATA[ & ]]>"', '"&nbsp;&copy &gt;"', '"a && b;"', '"<!--"', '"<?php ?>"', '"\'\\"&lt;"']
KEYS = ['class', 'id', 'href', 'data-x', 'Alt', 'é', 'k', 'onclick', 'xmlns:v', 'style', '']
WS = [' ', ' ', ' ', '\n', '\n  ', '  ', '\t', '\r\n', ' ;c\n', '\n\n\n', '']


class Gen:
    def __init__(self, rng, target, wrong=0.02, macros=0.12):
        self.rng, self.target, self.wrong, self.macros = rng, target, wrong, macros

    def ws(self):
        return self.rng.choice(WS)

    def atom(self):
        r = self.rng.random()
        if r < 0.5:
            return self.rng.choice(WORDS)
        if r < 0.85:
            return self.rng.choice(STRINGS)
        if self.target != 'xml' or r < 0.85 + self.wrong:
            return '(%raw ' + self.rng.choice(STRINGS) + ')'
        return self.rng.choice(WORDS)

    def join(self, parts, end=True):
        out = ''
        for p in parts:
            w = self.ws()
            if not w and out and not (out[-1] in '()"' or p[0] in '("'):
                w = ' '
            out += w + p
        return out + (self.rng.choice(['', '', '', ' ', '\n', '  ', '\n ', ' ;e\n']) if end else '')

    def attrs(self):
        out = []
        for _ in range(self.rng.choice([0, 0, 0, 0, 1, 1, 2, 3])):
            v = self.atom()
            if self.rng.random() < self.wrong:
                v = self.rng.choice(['(l x)', '()', ':k v'])
            out.append(':' + self.rng.choice(KEYS) + self.rng.choice([' ', ' ', '  ', '\n']) + v)
        return out

    def many(self, depth, counts=(0, 1, 1, 2, 2, 3, 4)):
        return [self.node(depth) for _ in range(self.rng.choice(counts))]

    def elem(self, tag, kids):
        return '(' + tag + self.join(self.attrs() + kids) + ')'

    def node(self, depth):
        rng = self.rng
        if rng.random() < self.macros:
            return self.macro(depth)
        if depth <= 0 or rng.random() < 0.35:
            return self.atom()
        r = rng.random()
        if r < self.wrong:
            return rng.choice(['()', '("s" x)', '(12 x)', '((p) x)', '(%raw "x")', ':k v', '(br x)', '((%symbol "") x)', '(p :k (l) x)', '(! (p))', '(p x :k v)', '(!d "s")', '(?p x)', '(style "a" "b")', '(style x)',
                               '(style (p x))', '(svg (%raw "x"))', '(style ())', '(hr\n "x")', '((%raw "p") x)'])
        if r < 0.08:
            return '(' + rng.choice(VOID) + self.join(self.attrs()) + ')' if self.target == 'html' or rng.random() < 0.5 else self.elem(rng.choice(VOID), self.many(depth - 1))
        if r < 0.13:
            return '(' + rng.choice(['!doctype html', '!DOCTYPE html public', '!x', '!-- hello', '!entity 12 a&b', '!a <b>']) + ')'
        if self.target == 'xml' and r < 0.2:
            return '(' + rng.choice(['?xml', '?xml :version 1.0', '?pi a b', '?xml-stylesheet :href "a&b" x', '!ELEMENT a :k "v"', '?php', '?x :k (%raw "<&>")']) + ')'
        if r < 0.35:
            return self.special(depth)
        if r < 0.38:
            return self.elem(rng.choice(FRAME), self.many(depth - 1))
        return self.elem(rng.choice(TAGS), self.many(depth - 1))

    def special(self, depth):
        rng = self.rng
        tag = rng.choice(SPECIAL)
        low = tag.lower()
        if low == 'style':
            r = rng.random()
            if r < 0.15:
                return self.elem(tag, [])
            if r < 0.3:
                return self.elem(tag, [rng.choice(STRINGS)])
            return self.elem(tag, [Css(rng, self.wrong).rule(2) for _ in range(rng.choice([1, 1, 2, 3]))])
        if low == 'pre':
            kids = [self.node(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
            if kids and kids[0].startswith('(%') and rng.random() < 0.7:
                kids.insert(0, 'x')
            return '(' + tag + self.join(self.attrs()) * (rng.random() < 0.3) + self.join(kids, rng.random() < 0.9) + ')'
        if low in ('svg', 'math'):
            inner = Gen(rng, 'xml', self.wrong, self.macros)
            return self.elem(tag, inner.many(depth - 1))
        if low in ('textarea', 'title', 'script'):
            return self.elem(tag, [self.anything(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))])
        return self.elem(tag, self.many(depth - 1))

    def anything(self, depth):
        rng = self.rng
        r = rng.random()
        if r < 0.25 and depth > 0:
            return '(' + self.join([self.anything(depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))])[rng.random() < 0.3:].lstrip('%') + ')'
        if r < 0.4:
            return ':' + rng.choice(KEYS) + ' ' + self.anything(depth - 1)
        if r < 0.55:
            return self.macro(depth)
        return self.atom()

    def macro(self, depth):
        rng = self.rng
        a, b = self.atom(), self.atom()
        return rng.choice(['(%do ' + a + ' ' + b + ')', '(%raw ' + rng.choice(STRINGS) + ')' if self.target != 'xml' else a, '(%string ' + a + ' " " 3)', '(%do)', '(%define v1 2)', '(%uppercase <b>)', '(%list b x)',
                           '(%ifdef v0 (i t) f)', '(%for q in (1 "<") (li %q))', '(%join "&" 1 2 "<")', '(%concat a "<" c)', '(%symbol "<&>")', '(%do (em ' + a + '))', '(%reverse (b c i))', '(%sort 3 1 "&")',
                           '(%list ' + rng.choice(['p', 'br', 'span']) + ')', '(%do\n  ' + a + ')', '(%log x)'])

    def doc(self, depth=3):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 3, 4])
        parts = [self.node(depth) for _ in range(n)]
        return self.join(parts)

    def page(self):
        """Documents that supply some of the parts of a page."""
        rng = self.rng
        parts = []
        if rng.random() < 0.3:
            parts.append(rng.choice(['(!doctype html)', '(!DOCTYPE html)', '(!Doctype html public)', '("!doctype")', '(!doctype)']))
        head = rng.choice(['(head)', '(head (title T))', '(HEAD\n (meta :charset utf-8))', '(head (style (p :c d)))', '(Head :k v)', '(header x)', '(heads)'])
        body = rng.choice(['(body)', '(body (p x))', '(BODY x)', '(body :k v\n  (p x))', '(Body)', '(tbody x)'])
        inner = [head] * (rng.random() < 0.5) + [self.node(2) for _ in range(rng.choice([0, 0, 1, 2]))] + [body] * (rng.random() < 0.4) + [self.node(1) for _ in range(rng.choice([0, 0, 0, 1]))]
        if rng.random() < 0.15:
            rng.shuffle(inner)
        if rng.random() < 0.15:
            inner = ['(div' + self.join(inner) + ')']
        elif rng.random() < 0.1:
            inner = ['(section (div' + self.join(inner) + '))']
        elif rng.random() < 0.1:
            inner = ['(p :k ' + rng.choice(['v', '(head x)', '(body)']) + self.join(inner) + ')'] if inner else inner
        if rng.random() < 0.3:
            inner = ['(' + rng.choice(['html', 'HTML', 'Html :lang en']) + self.join(inner) + ')']
        return self.join(parts + inner)


class Css:
    SEL = ['p', '.a', '#id', 'ul', 'li:hover', 'a>b', '*', '>', '"a, b"', '12', 'p::before', '"[x=\'y\']"', '(%raw "a b")', '@font-face', '@page', '@property', '\\:root', 'é', '&x', '+', '~']
    PROP = ['color', 'margin', 'background-image', '-webkit-x', '--v', 'font-family', 'width', 'content', 'grid-area', 'é', 'Color']
    ATOM = ['red', '12px', '-3em', '50%', '1', '+', '#fff', '"Times New Roman"', '"x"', '""', '"a\\"b c"', '!important', '"tab\\t"', '/', 'é', '"é x"', '"\\u00a0"', '(%raw "a b \\"c\\"")', '(%string 1 2)', '(%symbol "a b")',
            '"\\\\ z"', '(%raw "")', '"line\\n"', '1.5', '+2', '(%concat 1 px)', 'U+26', '"\\x00 "', '"\\e m"']
    FUN = ['attr', 'blur', 'brightness', 'calc', 'circle', 'color', 'contrast', 'counter', 'counters', 'cubic-bezier', 'drop-shadow', 'ellipse', 'format', 'grayscale', 'hsl', 'hsla', 'hue-rotate', 'hwb', 'image',
           'inset', 'invert', 'lab', 'lch', 'linear-gradient', 'matrix', 'matrix3d', 'opacity', 'perspective', 'polygon', 'radial-gradient', 'repeating-linear-gradient', 'repeating-radial-gradient', 'rgb', 'rgba',
           'rotate', 'rotate3d', 'rotateX', 'rotateY', 'rotateZ', 'saturate', 'sepia', 'scale', 'scale3d', 'scaleX', 'scaleY', 'scaleZ', 'skew', 'skewX', 'skewY', 'symbols', 'translate', 'translate3d',
           'translateX', 'translateY', 'translateZ', 'url', 'var', 'supports']
    ONE = ['@charset', '@import', '@namespace']
    NEST = ['@counter-style', '@document', '@font-feature-values', '@keyframes', '@media', '@supports']

    def __init__(self, rng, wrong=0.03):
        self.rng, self.wrong = rng, wrong

    def ws(self):
        return self.rng.choice([' ', ' ', ' ', '\n', '\n  ', '  '])

    def value(self, depth=2):
        rng = self.rng
        r = rng.random()
        if depth <= 0 or r < 0.45:
            return rng.choice(self.ATOM)
        args = [self.value(depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
        if rng.random() < self.wrong:
            args.insert(rng.randrange(len(args) + 1), ':k v')
        if r < 0.75:
            head = rng.choice(self.FUN + ['rgba', 'hsla', 'rgba', 'hsla', 'rgb', 'calc', 'var', 'url'])
        elif r < 0.87:
            head = rng.choice(['+', '-', '*', '/'])
        else:
            head = rng.choice(['solid', '1px', '"a b"', 'Rgb', 'foo', '(var --x)', '()', '"calc"', '(%raw "rgba")'])
        return '(' + head + ''.join(self.ws() + a for a in args) + rng.choice(['', ' ']) + ')' if rng.random() < 0.97 else '()'

    def prop(self):
        if self.rng.random() < self.wrong:
            return self.rng.choice(['x', '(p :c d)', '"s"', ':k :l m', '12'])
        return ':' + self.rng.choice(self.PROP) + ' ' + self.value()

    def rule(self, depth=2):
        rng = self.rng
        r = rng.random()
        if r < self.wrong:
            return rng.choice(['()', '(:c d)', '((p) :c d)', '(%list)', '(:a b p)', '((p :c d))'])
        if r < 0.1:
            return '(' + rng.choice(self.ONE) + ''.join(' ' + (rng.choice([':k ', ':min-width ']) if rng.random() < 0.3 else '') + self.value(1) for _ in range(rng.choice([0, 1, 2, 3]))) + ')'
        if r < 0.35 and depth > 0:
            args = [(rng.choice([':min-width ', ':k ', '']) + rng.choice(self.ATOM)) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            rules = [self.rule(depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if rules and rng.random() < self.wrong * 3:
                rules.append(rng.choice(['x', ':a b', '"s"']))
            return '(' + rng.choice(self.NEST) + ''.join(self.ws() + a for a in args + rules) + ')'
        return '(' + ' '.join(rng.choice(self.SEL) for _ in range(rng.choice([1, 1, 1, 2, 3]))) + ''.join(self.ws() + self.prop() for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))) + ')'

    def doc(self):
        rng = self.rng
        parts = [self.rule() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < self.wrong:
            parts.insert(rng.randrange(len(parts) + 1), rng.choice(['x', ':k v', '"s"', '12', '(%raw "p {}")']))
        if rng.random() < 0.15:
            parts.insert(0, '(%define v (p :c d))')
            parts.append('%v')
        return ''.join(rng.choice(['', ' ', '\n', '\n\n']) + p for p in parts) + rng.choice(['', '\n'])


def small(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)
