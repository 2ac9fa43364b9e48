"""Structured documents with a known meaning: YAML, JSON, TOML, Markdown."""
import json

NAMES = ['a', 'b', 'c', 'title', 'key', 'x-y', 'k2', 'Z', 'long_name', '0', '1', 'n.m', 'é']
ODD = ['', 'a b', 'q:r', '#h', 'a/b', '~', '-']
TEXTS = ['1', '0', 'x', 'true', 'null', '1.5', '-3', 'hello world', 'yes', '', 'a: b', "it's", 'say "hi"', '# no comment', '- dash', ' lead', 'trail ', 'é→', '007', '1e3', '{x}', '[y]',
         'two\nlines', 'tab\tbed', 'back\\slash', '%x', '&amp', '*s', '!t', '2024-01-01', ';', '(p)', '"',
         '1.0', '-0', '1e30', '100000000000000000000', '0x1F', '1_000', '.5', '0o7', 'TRUE', 'Null', 'no', '.inf', '2024-01-01T00:00:00Z', '12:30:45', '+1', '0.10']


class Data:
    def __init__(self, rng):
        self.rng = rng

    def value(self, depth, odd=0.08, keys=NAMES):
        r = self.rng
        x = r.random()
        if depth == 0 or x < 0.45:
            return {'y': 's', 'v': r.choice(TEXTS[:8] if r.random() < 0.5 else TEXTS)}
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        if x < 0.75:
            e, seen = [], set()
            for _ in range(n):
                k = r.choice(ODD if r.random() < odd else keys)
                if k in seen and r.random() < 0.95:
                    continue
                seen.add(k)
                e.append({'k': k, 'v': self.value(depth - 1, odd, keys)})
            return {'y': 'map', 'e': e}
        return {'y': 'seq', 'e': [self.value(depth - 1, odd, keys) for _ in range(n if r.random() < 0.95 else 12)]}

    # ---- YAML
    def quoted(self, v):
        out = ''
        for c in v:
            out += {'\n': '\\n', '\t': '\\t', '"': '\\"', '\\': '\\\\'}.get(c) or ('\\u%04x' % ord(c) if ord(c) > 126 and self.rng.random() < 0.5 else c)
        return '"' + out + '"'

    def plain(self, v, flow):
        if v == '' or v != v.strip() or '\n' in v or '\t' in v or v[0] in '!&*-?:,[]{}#|>@`"\'%' or ': ' in v or ' #' in v or v[-1] == ':' or v == '~' or v == '---':
            return False
        return not (flow and any(c in v for c in ',[]{}:'))

    def scalar(self, v, flow):
        r = self.rng
        ways = ['d']
        if '\n' not in v and '\t' not in v:
            ways.append('q')
        if self.plain(v, flow):
            ways += ['p'] * 4
        if v == '~':
            ways += ['p', 'n']
        w = r.choice(ways)
        t = {'d': self.quoted, 'q': lambda s: "'" + s.replace("'", "''") + "'", 'p': str, 'n': lambda s: '~'}[w](v)
        if r.random() < 0.03:
            t = r.choice(['&anch ', '!!str ']) + t
        return t

    def flow(self, d):
        r = self.rng
        s = r.choice(['', '', ' '])
        if d['y'] == 's':
            return self.scalar(d['v'], True)
        if d['y'] == 'seq':
            return '[' + s + ', '.join(self.flow(x) for x in d['e']) + s + ']'
        return '{' + s + ', '.join(self.scalar(x['k'], True) + ': ' + self.flow(x['v']) for x in d['e']) + s + '}'

    def block_scalar(self, v, ind):
        return '|-\n' + '\n'.join(' ' * ind + l for l in v.split('\n'))

    def block(self, d, ind):
        """Lines of a block collection, at an indentation."""
        r = self.rng
        pad = ' ' * ind
        out = []
        for x in d['e']:
            head = pad + (self.scalar(x['k'], False) + ':' if d['y'] == 'map' else '-')
            v = x['v'] if d['y'] == 'map' else x
            if v['y'] == 's':
                if '\n' in v['v'] and r.random() < 0.6 and all(l and l == l.strip() for l in v['v'].split('\n')):
                    out.append(head + ' ' + self.block_scalar(v['v'], ind + 2))
                else:
                    out.append(head + ' ' + self.scalar(v['v'], False))
            elif not v['e'] or r.random() < 0.25:
                out.append(head + ' ' + self.flow(v))
            else:
                step = r.choice([1, 2, 2, 2, 4])
                sub = self.block(v, ind + step)
                if d['y'] == 'seq' and r.random() < 0.5 and sub[0][ind + step] not in ' ':
                    sub = self.block(v, ind + 2)
                    out.append(head + ' ' + sub[0].lstrip(' '))
                    out += sub[1:]
                    continue
                if d['y'] == 'map' and v['y'] == 'seq' and r.random() < 0.3:
                    sub = self.block(v, ind)
                out.append(head + r.choice(['', '', ' # note']))
                out += sub
            if r.random() < 0.06:
                out.append(r.choice(['', pad + '# comment', '   ']))
        return out

    def yaml(self, d):
        r = self.rng
        if d['y'] == 's':
            t = self.scalar(d['v'], False)
        elif not d['e'] or r.random() < 0.2:
            t = self.flow(d)
        else:
            t = '\n'.join(self.block(d, 0))
        if r.random() < 0.08:
            t = '---\n' + t
        return t + r.choice(['', '\n', '\n', '\n\n'])

    # ---- JSON
    def json(self, d):
        r = self.rng
        sp = r.choice(['', ' ', '\n', '\n  '])
        if d['y'] == 's':
            if d['v'] in ('1', '0', 'true', 'null', '1.5', '-3', '1e3', '1.0', '-0', '1e30', '100000000000000000000', '0.10') and r.random() < 0.7:
                return d['v']
            return self.quoted(d['v'])
        if d['y'] == 'seq':
            return '[' + sp + (',' + (sp or ' ')).join(self.json(x) for x in d['e']) + (sp if d['e'] else '') + ']'
        return '{' + sp + (',' + (sp or ' ')).join(self.quoted(x['k']) + ': ' + self.json(x['v']) for x in d['e']) + (sp if d['e'] else '') + '}'

    # ---- TOML: scalars have kinds, keys are unique
    SCALARS = [('1', 'n', '1'), ('0', 'n', '0'), ('-17', 'n', '-17'), ('+9', 'n', '9'), ('1_000', 'n', '1000'), ('0xff', 'n', '255'), ('0o17', 'n', '15'), ('0b101', 'n', '5'),
               ('9223372036854775807', 'n', '9223372036854775807'), ('1.5', 'n', '1.5'), ('-0.25', 'n', '-0.25'), ('2.50', 'n', '2.5'), ('1e3', 'n', '1000'), ('3.0', 'n', '3'),
               ('1.5e-2', 'n', '0.015'), ('6.5e0', 'n', '6.5'), ('true', 'y', 'true'), ('false', 'y', 'false'), ('1979-05-27T07:32:00Z', 'y', '1979-05-27T07:32:00Z'),
               ('1979-05-27', 'y', '1979-05-27'), ('07:32:00', 'y', '07:32:00'), ('1979-05-27T00:32:00-07:00', 'y', '1979-05-27T00:32:00-07:00'), ('1979-05-27T07:32:00', 'y', '1979-05-27T07:32:00'),
               ('1e30', 'n', '1' + '0' * 30), ('-1e22', 'n', '-1' + '0' * 22), ('1e-7', 'n', '0.0000001'), ('-0.0', 'n', '-0'), ('-0', 'n', '0'), ('nan', 'n', 'NaN'), ('-inf', 'n', '-inf'), ('9007199254740993.0', 'n', '9007199254740992'),
               ('-9223372036854775808', 'n', '-9223372036854775808'), ('123456789.125', 'n', '123456789.125'), ('1_0.5_0', 'n', '10.5'), ('0.1', 'n', '0.1'), ('1e15', 'n', '1' + '0' * 15), ('2e0', 'n', '2'),
               ('inf', 'n', 'inf'), ('"""\nab\ncd"""', 's', 'ab\ncd'), ("'''x'y'''", 's', "x'y"), ("'raw\\n'", 's', 'raw\\n')]

    def tval(self, depth):
        r = self.rng
        x = r.random()
        if depth == 0 or x < 0.5:
            if r.random() < 0.6:
                t, y, v = r.choice(self.SCALARS)
                return {'y': y, 'v': v, 'toml': t}
            return {'y': 's', 'v': r.choice(TEXTS)}
        n = r.choice([0, 1, 2, 2, 3])
        if x < 0.75:
            return self.ttab(depth, n)
        return {'y': 'seq', 'e': [self.tval(depth - 1) for _ in range(n)]}

    def ttab(self, depth, n):
        r = self.rng
        ks = r.sample(NAMES[:10] + (['a b', ''] if r.random() < 0.1 else []), min(n, 10))
        return {'y': 'map', 'e': [{'k': k, 'v': self.tval(depth - 1)} for k in ks]}

    def tkey(self, k):
        return k if k and all(c.isascii() and (c.isalnum() or c in '_-') for c in k) and self.rng.random() < 0.85 else json.dumps(k, ensure_ascii=False)

    def tinline(self, d):
        if d['y'] == 'map':
            return '{' + ', '.join(self.tkey(x['k']) + ' = ' + self.tinline(x['v']) for x in d['e']) + '}'
        if d['y'] == 'seq':
            sep = self.rng.choice([', ', ',\n  ', ','])
            return '[' + sep.join(self.tinline(x) for x in d['e']) + (',' if d['e'] and self.rng.random() < 0.2 else '') + ']'
        if 'toml' in d:
            return d['toml']
        v = d['v']
        if "'" not in v and '\n' not in v and self.rng.random() < 0.3:
            return "'" + v + "'"
        return '"' + ''.join({'\n': '\\n', '\t': '\\t', '"': '\\"', '\\': '\\\\'}.get(c, c) for c in v) + '"'

    def toml(self, d):
        lines, later = [], []
        self.ttable(d, [], lines, True)
        return '\n'.join(lines) + self.rng.choice(['', '\n'])

    def ttable(self, d, way, lines, top):
        r = self.rng
        later = []
        for x in d['e']:
            k, v = x['k'], x['v']
            if v['y'] == 'map' and r.random() < 0.6:
                later.append(x)
            elif v['y'] == 'seq' and v['e'] and all(y['y'] == 'map' for y in v['e']) and r.random() < 0.8:
                later.append(x)
            elif v['y'] == 'map' and len(v['e']) > 0 and all(y['v']['y'] != 'map' for y in v['e']) and r.random() < 0.3:
                for y in v['e']:
                    lines.append(self.tkey(k) + '.' + self.tkey(y['k']) + ' = ' + self.inl(y['v']))
            else:
                lines.append(self.tkey(k) + r.choice([' = ', '=', '  =  ']) + self.inl(v) + r.choice(['', '', '', ' # note']))
            if r.random() < 0.05:
                lines.append(r.choice(['', '# comment']))
        for x in later:
            w = way + [x['k']]
            name = '.'.join(self.tkey(k) for k in w)
            for t in ([x['v']] if x['v']['y'] == 'map' else x['v']['e']):
                lines.append(('[%s]' if x['v']['y'] == 'map' else '[[%s]]') % name)
                self.ttable(t, w, lines, False)

    def inl(self, v):
        s = self.tinline(v)
        return s

    # ---- paths to members
    def ways(self, d, way=()):
        if d['y'] not in ('map', 'seq'):
            return
        for i, x in enumerate(d['e']):
            w = way + ((x['k'] if d['y'] == 'map' else str(i)),)
            yield w, (x['v'] if d['y'] == 'map' else x)
            yield from self.ways(x['v'] if d['y'] == 'map' else x, w)


def clean(d):
    """The meaning of a document alone."""
    if d['y'] == 'map':
        return {'y': 'map', 'e': [{'k': x['k'], 'v': clean(x['v'])} for x in d['e']]}
    if d['y'] == 'seq':
        return {'y': 'seq', 'e': [clean(x) for x in d['e']]}
    return {'y': d['y'], 'v': d['v']}


BAD = {'yaml': ['[1, 2', '{a: 1', '"abc', "'abc", 'a: b: c', 'a: [1\nb: 2', '- a\nb: c', 'a:\n\tb: 1', 'a: *missing', '*a', '[1, *b]', '? [x]\n: 1', '{[a]: 1}', '{{a: 1}: 2}', 'x: &q 1\ny: *q', ']', '}',
                '"\\z"', 'a: @b', 'k: "v" w', 'a: - b', '- - *z\n- 1', '!!str &a x: *a'],
       'toml': ['a', 'a =', '= 1', '[a', '[[a]', 'a = 1\na = 2', 'a = [1, 2', 'a = {b = 1', 'a = "x', "a = 'x", 'a = 1 b = 2', 'a b = 1', 'a = 01', 'a = 1.', 'a = tru', '[a]\n[a]', 'a = 9223372036854775808', 'a = "\\q"',
                'a = 1979-13-01', 'a.b = 1\na = 2', '[a]\nb = 1\n[a.b]', 'a = .5', 'a = 1__0', '"a" = 1\na = 2', 'a = {b = 1, b = 2}']}


def literal(s):
    """A seam string literal for s."""
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def word(s):
    """Can this be written as a symbol as it is?"""
    return s != '' and all(c.isalnum() or c in '-_./~.:!+' for c in s) and s[0] != ':'


# ---- Markdown of which the HTML is known
class Marked:
    def __init__(self, rng):
        self.rng = rng

    WORDS = ['word', 'more', 'x1', 'Été', 'end.', 'go!', 'and', 'A']

    def inline(self, depth=2):
        r = self.rng
        x = r.random()
        w = ' '.join(r.choice(self.WORDS) for _ in range(r.choice([1, 1, 2, 3])))
        if depth == 0 or x < 0.4:
            return w, w
        a, b = self.inline(depth - 1)
        if x < 0.5 and '*' not in a:
            return '*' + a + '*', '<em>' + b + '</em>'
        if x < 0.58 and '*' not in a:
            return '**' + a + '**', '<strong>' + b + '</strong>'
        if x < 0.66:
            c = r.choice(['x', 'a b', '<i>', '&amp;', '*s*'])
            return '`' + c + '`', '<code>' + c.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;') + '</code>'
        if x < 0.74 and '[' not in a:
            u = r.choice(['/u', 'http://e.org/', 'javascript:go', 'x.md', '#s'])
            return '[' + a + '](' + u + ')', '<a href="' + u + '">' + b + '</a>'
        if x < 0.8:
            return '<b class="k">' + a + '</b>', '<b class="k">' + b + '</b>'
        if x < 0.85:
            return w + ' & ' + w + ' < 3', w + ' &amp; ' + w + ' &lt; 3'
        if x < 0.9:
            return '~~' + w + '~~ ~o~', '~~' + w + '~~ ~o~'
        if x < 0.94:
            return '![' + w + '](i.png)', '<img src="i.png" alt="' + w + '" />'
        return '$' + w + '$', '$' + w + '$'

    def block(self, depth=2):
        r = self.rng
        x = r.random()
        if x < 0.35:
            a, b = self.inline()
            if a.startswith('<'):
                a, b = 'w ' + a, 'w ' + b
            return a, '<p>' + b + '</p>'
        if x < 0.5:
            n = r.randint(1, 6)
            a, b = self.inline(1)
            return '#' * n + ' ' + a, '<h%d>%s</h%d>' % (n, b, n)
        if x < 0.6:
            items = [self.inline(1) for _ in range(r.randint(1, 3))]
            if any(a.startswith('<') for a, _ in items):
                return self.block(depth)
            if r.random() < 0.5:
                return '\n'.join('- ' + a for a, _ in items), '<ul>\n' + ''.join('<li>' + b + '</li>\n' for _, b in items) + '</ul>'
            return '\n'.join('%d. %s' % (k + 1, a) for k, (a, _) in enumerate(items)), '<ol>\n' + ''.join('<li>' + b + '</li>\n' for _, b in items) + '</ol>'
        if x < 0.66:
            t = r.choice(['x = 1', '<a>\n  b', '(%x)'])
            lang = r.choice(['', 'rust'])
            return '```' + lang + '\n' + t + '\n```', '<pre><code' + (' class="language-%s"' % lang if lang else '') + '>' + t.replace('<', '&lt;').replace('>', '&gt;') + '\n</code></pre>'
        if x < 0.72:
            return '---' if False else '***', '<hr />'
        if x < 0.8:
            t = r.choice(['<div class="c">\nraw *not* &\n</div>', '<!-- note -->', '<script>\nx < 1\n</script>'])
            return t, t
        if x < 0.88:
            return '| a | b |\n| - | -: |\n| 1 | *2* |', '<table>\n<thead>\n<tr>\n<th>a</th>\n<th align="right">b</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>1</td>\n<td align="right"><em>2</em></td>\n</tr>\n</tbody>\n</table>'
        if x < 0.93:
            return '- [ ] todo\n- [x] done', '<ul>\n<li><input type="checkbox" disabled="" /> todo</li>\n<li><input type="checkbox" disabled="" checked="" /> done</li>\n</ul>'
        if depth:
            a, b = self.inline(1)
            if not a.startswith('<'):
                return '> ' + a, '<blockquote>\n<p>' + b + '</p>\n</blockquote>'
        return 'p', '<p>p</p>'

    def doc(self):
        r = self.rng
        bs = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            b = self.block()
            if bs and b[0][:1] in '-0123456789' and bs[-1][0][:1] in '-0123456789':
                continue            # neighbouring lists would become one
            bs.append(b)
        return '\n\n'.join(a for a, _ in bs), '\n'.join(b for _, b in bs)
