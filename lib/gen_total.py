"""Documents of every kind, most of them odd: any macro with any arguments."""
import re
import gen_reader, gen_exp, gen_markup, gen_data, gen_format, gen_dates
from gen_data import literal

SYMS = ['a', 'b', 'x', 'f', 'in', 'true', 'false', 'asc', 'ascending', 'file', 'name', 'none', '_', '&r', '&&k', '&', '&&', 'p', 'html', 'head', 'body', '!doctype', '?xml', 'style', 'script', 'pre', 'title', '@media', '@import', '.',
        'é', '中', '\\(', '0', '-', 'br', 'frontmatter', 'content', 'part', 'bad', 'bytes', 'folder', 'nowhere', 'empty', 'LC_ALL', 'NO_SUCH', 'calc', 'Z', 'do', 'string', 'list', '[', '**', '*/*', 'a/b', '']
NUMS = ['0', '1', '-1', '2', '3.5', '-0', '1e9', '99999999999999999999', '-99999999999999999999', '1e400', '-1e400', '9223372036854775807', '-9223372036854775808', '4294967296', '0.1', '00', '+', '-', '1x', '1.2.3', '24', '-24',
        '8334601228800', '8334601228799', '-8334601228801', '253402300800', '.5', '1700000000', '65536', '18446744073709551616', '1e-400']
STRS = ['', ' ', 'a', 'a b', '\n', '\x00', '\x7f', 'é', '日本', '\u0301', '\u200b', '😀', '</p>', '&', '"', "'", '\\', '/', '//', 'a/b', '/a', 'a/', '0/1', '.', '..', '*', '**', '[', ']', '[a', 'a[!', '***', 'x**', '{', '}', '{}', '{0}', '{x}', '{:>5}', '{:0', '{9}',
        '{:99999999999}', '{:?}', '{-1}', '{ }', '{a b}', 'inf', 'nan', '-inf', 'true', 'ascending', 'utf', ',', '--', '---', '---\n', '---\na: 1\n---\n', '+++\na = 1\n+++\n# t', '# t\n\n- a\n- b', '---\n: :\n---\n', '+++\n=\n+++\n',
        '---\n- a\n---\nx', '```\nx', '<b', '[l](', '![', '| a |\n|-|\n', '[^1]\n\n[^1]: n', '&#0;', '&copy;', '\\', '*_*_', '    code', '>', '>>\n>', '1. \n2.', '<!--', '<?', '$$\n', '***', '~~~', '\t', '\r', '\r\n', 'a\x00b',
        'a: 1', 'a: [1, {b: c}]', '{"a": {"b": [1, null, true]}}', '- *x', '&x [*x]', '!!int a', '? [1]\n: 2', 'a: |\n  b\n c', '[[[[[[[[[[1]]]]]]]]]]', '%YAML 1.2\n---\na', '<<: {a: 1}', 'a: &b {c: 1}\nd:\n  <<: *b', '...', '"a', "'",
        'a = 1', 'a = [1, [2]]\n[b.c]\nd = "x"\n[[e]]\n[[e]]\n', 'a = 1979-05-27T07:32:00Z', 'a = nan', 'a = 1e400', 'a.b.c = {}', '"" = 1', "'' = ''", '[a]\n[a.b]\n[[a.c]]', 'a = """\n', 'a = 0xff', '\ufeffa = 1', '\ufeffa: 1']
DATES = ['%Y-%m-%d', '%', '%%', '%Q', '%s', '%+', '%c', '%.f', '%9f', '%:z', '%::', '%Y%Y', '%e', '%Ez', '%-', '%_', '%#z', '%G', '%C', '%Z', '%999Y']
TIMES = ['2024-02-30', '2024-01-01', '', '0', '-1', '9' * 20, '2024-01-01T00:00:60Z', '24:00', '+', '12 13 14', '10000-01-01', '0000-00-00', '-2024-01-01', '1e5', '+262143-12-31', '-262144-01-01']
MARKDOWN = ['a', ' ', '\n', '\n', '\t', '- ', '* ', '1. ', '> ', '>', '#', '# ', '---\n', '---\n', '+++\n', '```', '~~~', '`', '**', '_', '[', ']', '(', ')', '[^1]', '[^1]:', '![', '|', '|-|', '<b>', '<!--', '-->', '<?', '&amp;', '&#0;', '\\', '~~', '$$',
            '    ', 'http://a', '<a:b>', '\"', 'é', '\r\n', '=', '===', '[x] ', '\0', 'x: 1\n', 'www.a.b', '<div>\n', '1)', '+ ']
KEYS = ['order', 'key', 'sort', 'type', 'timezone', 'separator', 'trailing', 'only', 'k', 'a', 'b', '', 'é', 'class', 'x']
MACROS = ['define', 'match', 'ifdef', 'do', 'get', 'raw', 'string', 'number', 'symbol', 'include', 'embed', 'namespace', 'markdown', 'yaml', 'json', 'toml', 'glob', 'for', 'sort', 'reverse', 'date', 'timestamp', 'join', 'concat', 'map',
          'filter', 'splat', 'list', 'strip', 'apply', 'lambda', 'log', 'format', 'os/env']
FUNCTIONS = ['do', 'string', 'list', 'f', 'join', 'reverse', 'strip', 'number', 'get', 'sort', 'splat', 'none', 'raw', 'format', 'log', 'concat', '(%lambda (a) %a)', '(%lambda () x)', '(%lambda (a &b) (p %b %a))', '(%lambda a %a)', '(%lambda ((a :k b)) %b)']


class Soup:
    def __init__(self, rng, odd=0.25):
        self.rng, self.odd = rng, odd

    def ws(self):
        return self.rng.choice([' ', ' ', ' ', '\n', '  ', '\t', ' ;c é\n', '\r\n'])

    def sym(self):
        s = self.rng.choice(SYMS)
        return s or 'q'

    def string(self):
        k = self.rng.random()
        if k < 0.75:
            s = self.rng.choice(STRS)
        elif k < 0.85:
            s = self.rng.choice(DATES + TIMES)
        else:
            s = ''.join(self.rng.choice(STRS) for _ in range(self.rng.choice([2, 3, 5])))
        return literal(s)

    def atom(self):
        k = self.rng.random()
        return self.sym() if k < 0.35 else self.rng.choice(NUMS) if k < 0.55 else self.string()

    def lst(self, d, lo=0, hi=4):
        return '(' + self.ws().join(self.any(d - 1) for _ in range(self.rng.randint(lo, hi))) + self.rng.choice(['', '', ' ', '\n']) + ')'

    def attr(self, d):
        return ':' + self.rng.choice(KEYS) + self.ws() + self.any(d - 1)

    def any(self, d):
        k = self.rng.random()
        if d <= 0 or k < 0.4:
            return self.atom()
        if k < 0.5:
            return self.attr(d)
        if k < 0.68:
            return self.lst(d)
        if k < 0.74:
            return self.rng.choice(['%x', '%x', '%a', '%f', '(%f 1)', '(%f)', '(%f a :k b)', '%ns/x', '(%a)', '%none'])
        return self.call(d)

    def args(self, *kinds):
        """Arguments as a macro wants them, but for one here and there."""
        rng = self.rng
        out = [self.any(2) if rng.random() < self.odd * 0.5 else k() if callable(k) else k for k in kinds]
        if rng.random() < self.odd:
            j = rng.randrange(len(out) + 1)
            r = rng.random()
            if r < 0.35 and out:
                out.pop(min(j, len(out) - 1))
            elif r < 0.6:
                out.insert(j, self.any(2))
            elif r < 0.8:
                out.insert(j, self.attr(2))
            else:
                rng.shuffle(out)
        return out

    def call(self, d):
        rng = self.rng
        m = rng.choice(MACROS)
        if rng.random() < 0.12:
            args = [self.any(d - 1) for _ in range(rng.randint(0, 4))]
            if m in ('map', 'filter', 'apply'):
                args[:1] = [rng.choice(FUNCTIONS)]
            if m in ('define', 'lambda', 'include'):
                m = 'list'
        else:
            args = self.signature(m, d)
        return '(%' + m + ''.join(self.ws() + a for a in args) + rng.choice(['', '', ' ', '\n']) + ')'

    def signature(self, m, d):
        rng = self.rng
        any0, atom, string, lst = (lambda: self.any(d - 1)), self.atom, self.string, (lambda: self.lst(d, 0, 5))
        number = lambda: rng.choice(NUMS)
        fun = lambda: rng.choice(FUNCTIONS)
        opt = lambda *ks: [self.rng.choice(ks)] if self.rng.random() < 0.5 else []
        sep = opt(':separator ' + self.string())
        many = lambda f: [f] * rng.choice([0, 1, 1, 2, 3])
        if m == 'define':
            if rng.random() < 0.5:
                return self.args(rng.choice(['x', 'a', 'y', 'x', '"s"', '1']), *many(any0))
            return [rng.choice(['(f a)', '(f a &r)', '(f)', '(f :k a)', '(f (a b))', '(f :k (a x) &&q)', '(f &r &&k a)', '(f a a)', '(f &r &q)', '()', '((f) a)', '(f 1 "s")', '(1 a)', '(f :k :j a)'])] + [Soup(rng, self.odd).plain(2) for _ in range(rng.choice([0, 1, 2]))]
        if m == 'lambda':
            return [rng.choice(['(a)', '()', 'a', '(a &r)', '(&r &s)', '1', '"s"', '((a b))', '(:k a)'])] + [self.plain(2) for _ in range(rng.choice([0, 1, 2]))]
        if m == 'match':
            return self.args(any0, *[lambda: '(' + self.rng.choice([self.any(1), '_', '(a &r)', '(a :k x)', '1', '"a"', '()', '(&&k &r)', '(&r &s)', ':k a', '%x']) + ' ' + self.any(d - 1) + ')' for _ in range(rng.choice([0, 1, 2, 3]))])
        if m == 'ifdef':
            return self.args(atom, any0, any0)
        if m in ('get',):
            return self.args(rng.choice([atom, atom, lambda: literal('/'.join(rng.choice(['0', '1', '2', '18446744073709551615', '18446744073709551614', '9223372036854775808', '4294967295', 'a', '']) for _ in range(rng.choice([1, 1, 2]))))]), lst, *sep)
        if m in ('include', 'embed'):
            return self.args(rng.choice(['part', 'bad', 'bytes', 'folder', 'nowhere', 'empty', '"folder/part"', '"/nowhere"', '""', '"../x"', '"a\\x00b"', 'open', 'wrong']))
        if m == 'namespace':
            return self.args(atom, *(sep + many(any0)))
        if m in ('markdown', 'yaml', 'json', 'toml'):
            return self.args(string, *(sep + opt(':only frontmatter', ':only content', ':only x')))
        if m == 'glob':
            return [self.string().replace('/', '_') if rng.random() < 0.5 else rng.choice(['"*"', '"**"', '"*/*"', 'part', '"[a-"', '"f*/**"', '()', '1'])] + [':' + rng.choice(['sort', 'type', 'order', 'x']) + ' ' + self.sym() for _ in range(rng.choice([0, 1, 2]))]
        if m == 'for':
            return self.args(rng.choice(['a', '(a b)', '(a &r)', '_', '1', '()', ':k a', 'x']), 'in', lst, *many(any0))
        if m == 'sort':
            return self.args(lst, *(opt(':order ascending', ':order descending', ':order up') + opt(*[':key ' + f for f in FUNCTIONS])))
        if m == 'reverse':
            return self.args(lst)
        if m == 'date':
            return self.args(lambda: literal(rng.choice(DATES + STRS)), number, *opt(':timezone ' + rng.choice(NUMS)))
        if m == 'timestamp':
            return self.args(lambda: literal(rng.choice(DATES)), lambda: literal(rng.choice(TIMES)), *opt(':timezone ' + rng.choice(NUMS)))
        if m in ('map', 'filter', 'apply'):
            return [rng.choice(FUNCTIONS)] + [self.any(d - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
        if m == 'format':
            return self.args(string, *many(any0))
        if m == 'os/env':
            return self.args(rng.choice(['LC_ALL', 'NO_SUCH', '"A=B"', '""', '"a\\x00b"', 'TZ']))
        if m == 'join':
            return self.args(atom, *(opt(':trailing true', ':trailing x') + many(atom)))
        return self.args(*many(atom if rng.random() < 0.7 else any0))

    def plain(self, d):
        """The body of a function: it calls nothing that was defined."""
        rng = self.rng
        return rng.choice(['%a', '%r', '%x', '(p %a)', '(%string %a)', '(%list %r)', '(%splat %r)', '(%get 0 %r)', '(%reverse %r)', '%k', '(%ifdef a %a b)', '(%log %a)', '(%format "{}" %a)', '(%join , %a b)', '()', ':k %a',
                           '(%for q in (1 2) %q %a)', '(%match %a ((q &r) %q) (_ z))', '"s"', '(%number %a)', '(%yaml %a)', '(%sort (%a 2))', '(%define y %a)', '(%symbol %a)', '(%map string %a %a)'])

    def program(self):
        rng = self.rng
        out = ''
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            out += (self.call(3) if rng.random() < 0.75 else self.any(3)) + self.ws()
        k = rng.random()
        if k < 0.05:
            return gen_reader.damage(rng, out)
        if k < 0.12:
            return '(div ' + out + ')'
        return out


def endless(s):
    """Might this never end?  (Names made at run time, or used in their own definitions.)"""
    if re.search(r'%(symbol|map|apply|filter|sort)\b', s) and 'symbol' in s and re.search(r'"[^"]*%', s):
        return True
    return gen_exp.recursive(s)


def documents(rng, n):
    k = 0
    while k < n:
        r = rng.random()
        if r < 0.62:
            s = Soup(rng, rng.choice([0.05, 0.2, 0.5])).program()
        elif r < 0.7:
            s = gen_reader.doc(rng)
            s = gen_reader.damage(rng, s) if rng.random() < 0.6 else s
        elif r < 0.78:
            s = gen_exp.G(rng, {'*': 1}, fail=0.05).program()
            s = gen_exp.damage(rng, s) if rng.random() < 0.7 else s
        elif r < 0.86:
            s = gen_markup.Gen(rng, rng.choice(['html', 'xml']), wrong=0.1).doc(3)
            s = gen_reader.damage(rng, s) if rng.random() < 0.3 else s
        elif r < 0.9:
            s = gen_markup.Css(rng, wrong=0.1).doc()
        elif r < 0.94:
            g = gen_data.Gen(rng) if hasattr(gen_data, 'Gen') else None
            lang = rng.choice(['yaml', 'toml', 'markdown'])
            t = rng.choice(gen_data.BAD['yaml'] + gen_data.BAD['toml'] + STRS)
            t2 = list(t)
            for _ in range(rng.choice([0, 1, 3])):
                t2.insert(rng.randrange(len(t2) + 1), rng.choice('{}[]:,-&*!|>\'"%@`#\n =+~?\t\\é'))
            s = '(%%%s %s)' % (lang, literal(rng.choice(['', '---\n', '+++\n']) + ''.join(t2) + rng.choice(['', '\n---\nx', '\n+++\n'])))
        elif r < 0.955:
            s = '(%%markdown %s%s)' % (literal(''.join(rng.choice(MARKDOWN) for _ in range(rng.randint(1, 16)))), rng.choice(['', '', ' :only content', ' :only frontmatter']))
        elif r < 0.975:
            s = ''.join(rng.choice(['(', ')', '"', '"""', ':', '%', '\\', ';', '\n', ' ', 'a', 'é', '中', '\\x4', '\\u{', '}', '\\n', '\t', '\r', '\x00', '\ufeff', '&', '0', '(%', ':k']) for _ in range(rng.randint(1, 14)))
        else:
            s = gen_format.case(rng) if rng.random() < 0.5 else (gen_dates.case(rng) or 'x')
        if rng.random() < 0.06:     # far into a long line, or far down
            c = rng.choice(['é', '中', '→', '😀', 'e\u0301', '\u200b', '\t', 'x', '"é" ', '(p) ', '日本 ', '\n', '\r\n', '\u00a0'])
            pad = c * rng.choice([30, 67, 100, 130, 260, 300, 1030])
            s = rng.choice([pad + ' ' + s, '"' + pad.replace('"', '') + '" ' + s, 'x' * rng.randrange(4) + pad + ' ' + s + ' ' + pad, ';' + pad.replace('\n', '') + '\n' + s, s + ' ' + pad + rng.choice(['', ')', '(', ' (%reverse)', ' %none'])])
        if not endless(s):
            k += 1
            yield s
