"""Format strings with arguments."""
from gen_data import literal, word

LIT = ['a', 'b ', ' ', ', ', 'Hello', ': ', 'é', '→', '%', '(', ')', '"', '\\', '\n', '[curly=open]', '[curly=close]', '[', ']', '0', '0:>5', '#', ';', '-', 'n', '\t']
VALUES = ['ab', 'x', '', 'abc', 'Sam', 'hello world', 'é', '→e', '{}', '{0}', '{n}', '{{', '}}', '}', '{', '[curly=open]', '[curly=close]x', '{:>5}', 'a"b', "it's", 'b\\n', 'two\nlines', ' pad ', ' ', 'tab\t', '%x', 'true', 'e', '1.2.3', '12a', '--', '+', '.', 'longer than any width at all', '#t', ':k']
NUMBERS = ['0', '5', '-7', '42', '-42', '3.14159', '-0.5', '007', '1e3', '-1e-3', '.5', '12345678901234567890', '123456789', '+3', '00', '-0', '1.', '999999']
SPECIAL = ['inf', '-inf', 'nan', 'infinity', 'NaN']
NAMES = ['0', '1', '2', '01', '-1', '1.0', '10', 'n', 'name', 'a', 'ab', 'abc', 'x1', 'age', 'é', 'a-b', 'a.b', 'N']
FILLS = list('*0-_.=+x#o1 ~%/!?,;e')
BADSPECS = ['o', 'x', 'X', 'p', 'b', 'e', 'E', '5.', '.', '.x', '.*', '$', '1$', 'n$', '5.n$', '+-5', '-+5', '0+5', '5+', '.2<', '.2+', '.3#', '?.2', '#+', '0#', '5d', 'd', 's', '5 ', ' 5', '<5x?', '>+ 5', '^5_',
            '99999999999999999999', '.99999999999999999999', '>100000', '5x', '5e', '.2e', '#x', '#b', '08b', '*>5x', '.-1', '.+1', '<5<']
BADFORMATS = ['{', '}', '{a', 'a}', '{}}', '{{}', '{a{b}}', '{a{b}', '}{', '{}{', '{}}{}', '}}}', '{{{', 'x{0', '{0}}', '{:>5', ':>5}', '{n:{n}}', '{} {', '} {}']


def isnum(v):
    t = v[1:] if v[:1] in ('+', '-') else v
    if t.lower() in ('inf', 'infinity', 'nan'):
        return True
    try:
        float(v)
    except ValueError:
        return False
    return not any(c in v for c in '_ \n\t') and v.isascii()


def spec(rng, v):
    """What to ask of a value, where that is understood."""
    if rng.random() < 0.3:
        return ''
    for _ in range(20):
        fill, align, sign, sharp, zero, width, prec, q = '', '', '', '', '', '', '', ''
        if rng.random() < 0.6:
            align = rng.choice('<^>')
            if rng.random() < 0.6:
                fill = rng.choice(FILLS)
        if rng.random() < 0.15:
            sign = rng.choice('++-')
        if rng.random() < 0.07:
            sharp = '#'
        if rng.random() < 0.75:
            width = str(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20, 33]))
            if not align and rng.random() < 0.4:
                zero = '0'
        if rng.random() < 0.25:
            prec = '.' + str(rng.choice([0, 1, 2, 3, 4, 5, 10, 20]))
        if rng.random() < 0.06:
            width = zero = ''
            q = '?'
        cut = v if not prec else v[:int(prec[1:])]
        w = int(width or 0)
        if fill and (cut != cut.strip() or (align == '^' and w % 2 and w > len(cut))):
            continue
        if zero and isnum(cut):
            if cut[0] == '+' or not any(c.isdigit() for c in cut):
                continue
            if sign == '-' and cut[0] != '-' or sign == '+' and cut[0] != '-' and w <= len(cut):
                continue
        if sign == '+' and (cut[:1] == '+' or cut.lower().endswith('nan')):
            continue
        if q and any(ord(c) > 126 or ord(c) < 32 and c not in '\n\t' for c in v):
            continue
        return ':' + fill + align + sign + sharp + zero + width + prec + q if rng.random() < 0.97 or fill + align + sign + sharp + zero + width + prec + q else ':'
    return ''


def value(rng):
    return rng.choice(rng.choice([VALUES, VALUES, NUMBERS, NUMBERS, SPECIAL, ['ab', 'x', '-7', '{}']]))


def arg(rng, v):
    """A value as it may be written."""
    if v and word(v) and rng.random() < 0.5 and v[0] not in ':%':
        return v
    if rng.random() < 0.1:
        return '(%string ' + literal(v) + ')'
    return literal(v)


def esc(t):
    return t.replace('{', '{{').replace('}', '}}')


def case(rng):
    pos = [value(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 11 if rng.random() < 0.2 else 2]))]
    named = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        named.append((rng.choice(NAMES), value(rng)))
    numbered = any(k[0] in '-0123456789' for k, _ in named)         # which value comes there is not so plain
    table = {str(i): v for i, v in enumerate(pos)}
    for k, v in named:
        table.setdefault(k, v)
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    parts, auto = [], []
    for _ in range(n):
        k = rng.random()
        if k < 0.35:
            parts.append(rng.choice(LIT))
        elif k < 0.47:
            parts.append(rng.choice(['{{', '}}', '{{}}', '{{0}}', '{{n}}', '{{{{', '}}}}']))
        else:
            r = rng.random()
            ref = '' if r < 0.45 else rng.choice(list(table) or ['0']) if r < 0.95 else rng.choice(NAMES + ['0', '1', '9', '10', '01'])
            parts.append([ref])
    used = {p[0] for p in parts if isinstance(p, list)}
    m = 0
    out = ''
    for p in parts:
        if isinstance(p, list):
            ref = p[0]
            if ref == '':
                while str(m) in used:
                    m += 1
                v = table.get(str(m), '')
                m += 1
            else:
                v = table.get(ref, '')
            out += '{' + ref + (spec(rng, v) if not numbered else rng.choice(['', '', ':7', ':>9', ':<4', ':.2'])) + '}'
        else:
            out += p
    if rng.random() < 0.7:      # enough arguments, mostly
        while len(pos) < m:
            pos.append(value(rng) if False else rng.choice(['ab', 'Sam', 'abc']))
            if str(len(pos) - 1) in table:
                pos.pop()
                break
    k = rng.random()
    if k < 0.05:
        i = rng.randrange(len(out) + 1)
        bad = '{' + rng.choice(['', '0', 'n']) + ':' + rng.choice(BADSPECS) + '}'
        out = bad + out if i % 2 else out + bad
        pos, named = pos + ['ab'] * 3, named + [('n', 'ab')]
    elif k < 0.09:
        out = rng.choice(BADFORMATS) + ' ' + out if rng.random() < 0.5 else out + ' ' + rng.choice(BADFORMATS)
    args = [arg(rng, v) for v in pos]
    at = 0
    for k, v in named:      # the first of one name counts
        at = rng.randrange(at, len(args) + 1)
        args.insert(at, ':%s %s' % (k, arg(rng, v)))
        at += 1
    f = literal(out)
    r = rng.random()
    if r < 0.02:
        f = rng.choice(['x', '5', '()', '(p)', ':k "{}"', '%unset', ''])
    elif r < 0.04:
        args.insert(rng.randrange(len(args) + 1), rng.choice(['()', '(p x)', ':k ()', ':n (a b)', '((a))', '%unset']))
    src = '(%format ' + ' '.join([f] + args) + ')'
    r = rng.random()
    if r < 0.06:
        src = '(%%define f %s)(%%format %s)' % (f, ' '.join(['%f'] + args))
    elif r < 0.12 and pos:
        i = rng.randrange(len(pos))
        src = '(%%define q %s)' % literal(pos[i]) + src.replace(arg(rng, pos[i]), '%q', 1)
    elif r < 0.16:
        src = '(%%define (g n) %s)(%%g %s)' % (src, literal(rng.choice(VALUES)))
    elif r < 0.2:
        src = '(p %s)' % src
    elif r < 0.23:
        src = '(%%apply %%format (%s))' % ' '.join([f] + args)
    elif r < 0.25:
        src = '(%format "{}-{}" ' + src + ' ' + src + ')'
    elif r < 0.28:
        src = '(%%format %s (%%splat (%s)))' % (f, ' '.join(args))
    return src


import itertools, re
SPEC = re.compile(r'^(?:(.)?([<^>]))?([+-]?)(#?)(0?)([0-9]*)(?:\.([0-9]+))?(\??)$', re.S)


def small():
    """Every small spec, for two values, where that is understood."""
    out = []
    for n in range(4):
        for t in itertools.product('<^>+-#05.?*x', repeat=n):
            t = ''.join(t)
            m = SPEC.match(t)
            for v in ('ab', '-7', '42'):
                if m:
                    fill, align, sign, sharp, zero, width, prec, q = [x or '' for x in m.groups()]
                    cut = v[:int(prec)] if prec else v
                    w = int(width or 0)
                    if fill in tuple('<^>') and fill or width[:1] == '0' or prec[:1] == '0' and len(prec) > 1 or align and zero or width and q:
                        continue
                    if fill and align == '^' and w % 2 and w > len(cut):
                        continue
                    if zero and isnum(cut) and (sign == '-' and cut[0] != '-' or sign == '+' and cut[0] != '-' and w <= len(cut)):
                        continue
                out.append('(%%format "{:%s}." %s)' % (t, v))
    return out
