"""Texts for the reader."""
import itertools, re

ALPHA = 'a1:()"\\;\n '
IDENT = ['a', 'b', 'foo', 'p', 'x-y', 'data-x', 'é', '→', '%x', '%define', 'a;b', '12', '-3', '+', '-', '3.14', '1e5', '+x', '00', 'a:b', '&rest',
         '!doctype', '?xml', '@media', "it's", '#id', '.cls', '\\(', '\\ ', '\\\\', 'a\\"b', '\\;', 'x\\', '\\n', '😀', '中', 'a\\\nb', '9\\ 9', '{', '[]', '`', '*', '='
         , 'abcdefghijklmnopqrstuvwxyz0123456789', 'ß', 'x̀']
ESC = ['\\n', '\\t', '\\"', '\\\\', '\\a', '\\b', '\\v', '\\f', '\\r', '\\e', "\\'", '\\`', '\\x41', '\\x7e', '\\0', '\\101', '\\60', '\\7', '\\u00e9', '\\u{41}', '\\u{1f600}', '\\u{e9}',
       '\\1018', '\\608', '\\x+7', '\\u{+41}', '\\u+041', '\\u{0000000041}']
BADESC = ['\\q', '\\x4', '\\xzz', '\\u12', '\\u{}', '\\u{d800}', '\\u{110000}', '\\u{41', '\\8', '\\ ', '\\(', '\\%', '\\\n', '\\ud800', '\\é', '\\x-7', '\\x+', '\\x++1', '\\x 7', '\\u{+}', '\\u{4 }', '\\u{-41}', '\\u+-41', '\\u{1234567890}', '\\u{ffffffff}', '\\u{0_1}', '\\u{++41}']
PLAIN = ['a', 'b', ' ', 'hello', ';', '(', ')', ':', '\n', '%x', "'", '1', 'é', '→', '😀', '\t', '\r', '{}', '<p>', '&', '#', '.']
WS = [' ', ' ', ' ', '\n', '\n  ', '\t', '  ', '\r\n', '\n\n', ' ; note\n', ';c\n', '\n;; é (\n  ', ' ;"\n', '', '']


NOTE = ['a', ' ', '(', ')', '"', ';', ':', '\\', '\r', '\t', 'é', '→', '😀', "'", '%', '"""', ' note ', '\\n', '\x0b', '#', '(x', ':k ', '\r\r', '\u00a0', '\\"']


# Characters that are like those the reader knows, and other ones a program may take for them.
WILD = ['\x0c', '\x0b', '\x00', '\x07', '\x1b', '\x1c', '\x1f', '\x7f', '\x85', '\xa0', '\u1680', '\u2003', '\u2028', '\u2029', '\u202f', '\u3000', '\ufeff', '\u200b', '\xad', '½', '²', '٣', 'Ⅷ', '१', '：', '（', '）',
        '“', '”', '«', '−', '＋', '％', '；', '＂', '１', '\u0301', 'İ', 'ı', 'ſ', 'ß', 'ﬁ', '＼', '´', '‘', '…', '€', '中', 'ｱ', '😀', 'Ω', 'œ'] + list("!#$&'*,/<=>?@[]^_`{|}~%.+-")


def wild(rng, s):
    """The same text with some such characters in it."""
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(WILD) * rng.choice([1, 1, 1, 2]) + s[i + (rng.random() < .15):]
    return s


def white(rng):
    """What may stand between two things."""
    if rng.random() < 0.9:
        return rng.choice(WS)
    out = ''
    for _ in range(rng.choice([1, 1, 2, 3])):
        out += rng.choice(['', ' ', '\n', '\r', '\t']) + ';' + ''.join(rng.choice(NOTE) for _ in range(rng.choice([0, 1, 2, 4, 9]))) + '\n'
    return out


def string_body(rng, triple=False):
    out = ''
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.3:
            out += rng.choice(ESC)
        elif r < 0.34:
            out += rng.choice(BADESC)
        elif triple and r < 0.5:
            out += rng.choice(['"', '""', '" ', '\\"'])
        else:
            out += rng.choice(PLAIN)
    return out


def gen_string(rng):
    if rng.random() < 0.25:
        return '"""' + string_body(rng, True) + '"""'
    return '"' + string_body(rng) + '"'


def atom(rng):
    r = rng.random()
    if r < 0.3:
        return gen_string(rng)
    if r < 0.35:
        return ''.join(rng.choice(IDENT) for _ in range(2))
    return rng.choice(IDENT)


def node(rng, depth):
    r = rng.random()
    if depth > 0 and r < 0.4:
        n = rng.choice([0, 1, 2, 2, 3, 4, 6])
        out = '('
        for i in range(n):
            out += (white(rng) if i else rng.choice(['', '', ' ', '\n'])) + node(rng, depth - 1)
        return out + rng.choice(['', '', ' ', '\n', ';x\n']) + ')'
    if r < 0.55:
        return ':' + rng.choice(['a', 'key', 'data-x', '', 'é', 'k\\ k', '1', '%v']) + rng.choice([' ', '  ', '\n', '']) + node(rng, depth - 1 if depth > 0 else 0)
    return atom(rng)


def doc(rng, size=None):
    n = size or rng.choice([1, 1, 2, 3, 5, 9])
    out = rng.choice(['', '', ' ', '\n', ';first\n'])
    for i in range(n):
        out += node(rng, rng.choice([0, 1, 2, 3, 4])) + white(rng)
    return out


def damage(rng, s):
    """A nearby text, likely to be malformed."""
    for _ in range(rng.choice([1, 1, 2])):
        if not s:
            return rng.choice(['(', ')', '"', ':', '\\'])
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.35 and i < len(s):
            s = s[:i] + s[i + 1:]
        elif r < 0.85:
            s = s[:i] + rng.choice(['(', ')', '"', '"""', ':', '\\', ';', '\n', ' ', ':k', 'é', '""']) + s[i:]
        else:
            s = s[:i]
    return s


def exhaustive(n, alpha=ALPHA):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield ''.join(t)


def big(rng):
    """Texts whose size, rather than shape, is unusual."""
    k = rng.randrange(14)
    n = rng.choice([90, 150, 260, 400])
    if k == 0:
        return '(' * 60 + 'x' + ')' * 60
    if k == 1:
        return ' '.join('(a%d)' % j for j in range(70))
    if k == 2:
        return '(l ' + '\n'.join('item%d' % j for j in range(80)) + ')'
    if k == 3:
        return '"' + 'long ' * 60 + '" tail'
    if k == 4:
        return 'é' * 50 + ' ' + '中' * 20 + ' :k 😀 "→→" x'
    if k == 5:
        return '\n' * 40 + '(a\n' + '\n'.join(':k%d "v%d\n"' % (j, j) for j in range(30)) + ')'
    if k == 6:
        return ';' + 'comment ' * 30 + '\n' + '; again\n' * 20 + 'x ; end'
    if k == 7:
        return '(' * n + 'x' + ')' * n
    if k == 8:
        return '(:k ' * (n // 2) + 'x' + ')' * (n // 2)
    if k == 9:
        return '(l ' + ' '.join('i%d' % j for j in range(n)) + ')'
    if k == 10:
        return '\n'.join('x ;%d' % j for j in range(n)) + '(a' + '\n' * 300 + ') y'
    if k == 11:
        return '"' + 'é"\\"'[:rng.choice([1, 3])] * n + '\\n\n" ' + 'w' * n + ' ' + '1' * n
    if k == 12:
        return '(a ' * n + ')' * (n - rng.choice([0, 0, 1, -1]))
    return ':a ' * 30 + 'x ' + '\\(' * 30


RARE = {769, 5760, 8195, 8233, 8239, 12288, 8203, 768, 8217, 8230, 8364, 8594, 20013, 65279, 65533, 8232, 128512}


def spellable(s):
    """Only escapes for characters the specification has a table for."""
    for m in re.finditer(r'\\u\{?\+?([0-9a-fA-F]+)', s):
        for h in (m.group(1), m.group(1)[:4], m.group(1)[:3]):
            n = int(h, 16)
            if 768 <= n <= 0x10ffff and not 0xd800 <= n <= 0xdfff and n not in RARE:
                return False
    return True


def depth(s):
    """How deep a text might go, at most."""
    d = m = 0
    for ch in s:
        d += (ch in '(:') - (ch == ')')
        m = max(m, d)
    return m


def texts(rng, count, deep=90):
    """Traces keep trees as they are, where they can be kept: up to a depth."""
    return itertools.islice(filter(lambda s: spellable(s) and depth(s) < deep, texts0(rng)), count)


def texts0(rng):
    while True:
        r = rng.random()
        if r < 0.55:
            yield doc(rng)
        elif r < 0.7:
            yield wild(rng, doc(rng))
        elif r < 0.95:
            yield damage(rng, doc(rng))
        else:
            yield big(rng)
