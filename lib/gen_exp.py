"""Programs for the expander.  Bodies only use names of lower rank, so that no program recurses for ever."""
import re

SYMS = ['a', 'b', 'c', 'foo', 'p', 'x-y', 'é', '→', 'li', '#id', 'a;b', '*', 'A', 'B', 'zz', 'in', 'true', '&']
NUMS = ['0', '1', '2', '3', '10', '-1', '1.5', '007', '2em', '+3', '1e1', '12', '-0', '9', '0.5']
STRS = ['""', '"s"', '"hello world"', '"a\\nb"', '"é"', '"1"', '"10"', '"a/b"', '"<&>"', '"""t"q"""', '"x y"', '" "', '"a"', '"\\""', '"%x"']
WS = [' ', ' ', ' ', ' ', ' ', '\n', '\n  ', '  ', '\t', ' ; note\n']
VARS = ['x', 'y', 'z', 'u', 'v']
FUNS = ['f', 'g', 'h', 'k', 'm']
PARAMS = ['a', 'b', 'c', 'x', 'y', 'p1', 'item']

BUILT = ['ifdef', 'match', 'do', 'get', 'raw', 'string', 'number', 'symbol', 'for', 'sort', 'reverse', 'join', 'concat',
         'map', 'filter', 'splat', 'list', 'strip', 'apply', 'lambda', 'log', 'format', 'call', 'var', 'namespace', 'local', 'embedcall']

FORMATS = ['{}', '{} {}', '{0}{1}{0}', '{{}}', 'a{}b', '{x}', '{:>5}|', '{:<4}|', '{:02}', '{:.2}', '{:^7}|', '{1}', 'none', '{x} {} {0}', '{', '}', '{x:>6}']

TEMPLATES = [
 '(%define (each fn l) (%match %l (() ()) ((hd &tl) (%apply %fn %hd) (%each %fn %tl))))(%each (%lambda (e) (li %e)) (1 2 3 4))',
 '(%define (len l) (%match %l (() z) ((_ &r) (s (%len %r)))))(%len (a b c d e))',
 '(%define (rev l) (%match %l (() ()) ((h &t) (%do (%splat (%rev %t)) %h))))(%list (%rev (1 2 3)))',
 '(%define (last l) (%match %l ((e) %e) ((_ &r) (%last %r))))(%last (a b c)) %last',
 '(%define counter a)(%define (show) %counter)(%show)(%define counter b)(%show)',
 '(%define d (:a 1 :b (2 3) :c "x"))(%match %d ((:b def &&_) %b))(%match %d ((:q def &&rest) %q %rest))',
 '(%define (card :title t0 :href "#" &body) (div (a :href %href %title) (%splat %body)))(%card x y :href "/u" z)(%card)',
 '(%define (twice fn e) (%apply %fn (%apply %fn %e)))(%twice (%lambda (q) (b %q)) 1)',
 '(%define mk (%lambda (a) (%lambda (b) %a %b)))(%apply (%apply %mk 1) 2)',
 '(%for (k v) in ((a 1) (b 2) (c 3)) (%define (%symbol k) %v) (p :%k %v)) (%ifdef k yes no)',
 '(%define x 1)(%define (f) (%define x 2) %x (%g))(%define (g) %x)(%f)(%g) %x',
 '(%define (f &&kw) (div %kw)) (%f :b 1 :a 2 :c 3 :a 4)',
 '(%define (f (a (b &c)) d) %d %c %b %a)(%f (1 (2 3 4)) 5)',
 '(%map (%lambda ((k v)) (p :k %k %v)) (a 1) (b 2))(%filter (%lambda (e) (%match %e (2 ()) (_ %e))) 1 2 3 2)',
]


def pick(rng, table):
    ks = list(table)
    return rng.choices(ks, [table[k] for k in ks])[0]


class G:
    def __init__(self, rng, weights, fail=0.02, plain=0.45):
        self.rng, self.fail, self.plain = rng, fail, plain
        self.w = {b: weights.get(b, weights.get('*', 0)) for b in BUILT}
        self.w = {k: v for k, v in self.w.items() if v}
        self.vars, self.funs = {}, {}   # what is (probably) defined at top level
        self.scope = []                 # parameters
        self.rank = 99                  # definitions of a lower rank may be used
        self.budget = 60

    # -- text
    def ws(self):
        return self.rng.choice(WS)

    def seq(self, items):
        return ''.join((self.ws() if k else '') + t for k, t in enumerate(items))

    def form(self, head, *items):
        items = [i for i in items if i != '']
        out = '(' + head
        for i in items:
            out += self.ws() + i
        return out + self.rng.choice(['', '', '', '', ' ', '\n'])+ ')'

    def num(self): return self.rng.choice(NUMS)
    def sym(self): return self.rng.choice(SYMS)
    def string(self): return self.rng.choice(STRS)

    def atom(self):
        return self.rng.choice([self.num, self.sym, self.string])()

    # -- expressions
    def expr(self, d):
        self.budget -= 1
        r = self.rng
        if d <= 0 or self.budget <= 0:
            return self.use() if r.random() < 0.4 else self.atom()
        if r.random() < self.plain or not self.w:
            if r.random() < 0.5:
                return self.use() if r.random() < 0.4 else self.atom()
            return self.lst(d)
        if r.random() < self.fail:
            return r.choice(['%nope', '(%nope 1)', '(%list :k)x' if False else '%', '(%get 7 (a))', '(%sort)', '(%join (a) b)', '(%match)', '(%string (x))'])
        return getattr(self, 'b_' + pick(r, self.w))(d - 1)

    def use(self):
        names = list(self.scope[-6:]) + [v for v in self.vars if self.vars[v] < self.rank]
        if not names:
            return self.atom()
        if self.rng.random() < self.fail / 2:
            return '%' + self.rng.choice(VARS + PARAMS)
        return '%' + self.rng.choice(names)

    def exprs(self, d, lo=0, hi=3):
        return [self.expr(d) if self.rng.random() < 0.94 else ':' + self.key() + ' ' + self.expr(d) for _ in range(self.rng.randint(lo, hi))]

    def key(self):
        return self.rng.choice(['k', 'key', 'a', 'href', 'data-x', 'x'])

    def lst(self, d):
        items = []
        for _ in range(self.rng.choice([0, 1, 2, 2, 3, 4])):
            if self.rng.random() < 0.2:
                items.append(':' + self.key() + self.rng.choice([' ', ' ', '\n']) + self.expr(d - 1))
            else:
                items.append(self.expr(d - 1))
        return '(' + self.seq(items) + self.rng.choice(['', '', '', ' ', '\n']) + ')'

    def values(self, d, lo=0, hi=5):
        """Items of a list of values."""
        r = self.rng
        kind = r.choice(['num', 'atom', 'mixed'])
        return [self.num() if kind == 'num' else self.atom() if kind == 'atom' else self.expr(min(d, 1)) for _ in range(r.randint(lo, hi))]

    def vlist(self, d, lo=0, hi=5):
        if self.rng.random() < 0.1:
            return self.use()
        return '(' + self.seq(self.values(d, lo, hi)) + ')'

    # -- parameters and arguments
    def params(self, n=None):
        """(text, description): description = (positional count, names, rest, named rest, all names bound)."""
        r = self.rng
        names = PARAMS[:]
        r.shuffle(names)
        pos, out, bound = 0, [], []
        for _ in range(r.choice([0, 1, 1, 2, 3]) if n is None else n):
            a = names.pop()
            pos += 1
            if r.random() < 0.12:
                b = names.pop()
                out.append('(%s %s)' % (a, b)); bound += [a, b]
            else:
                out.append(a); bound.append(a)
        kws, rest, nrest = [], False, False
        if n is None:
            for k in ['key', 'opt']:
                if r.random() < 0.2:
                    out.insert(r.randrange(len(out) + 1), ':%s %s' % (k, self.atom())); kws.append(k); bound.append(k)
            if r.random() < 0.2:
                out.append('&rest'); rest = True; bound.append('rest')
            if r.random() < 0.15:
                out.insert(r.randrange(len(out) + 1), '&&kws'); nrest = True; bound.append('kws')
        return out, (pos, kws, rest, nrest), bound

    def args(self, desc, d):
        pos, kws, rest, nrest = desc
        r = self.rng
        n = pos + (r.choice([0, 1, 2]) if rest else 0)
        if r.random() < self.fail:
            n += r.choice([-1, 1])
        out = [self.expr(d) if r.random() < 0.8 else '(' + self.seq([self.atom(), self.atom()]) + ')' for _ in range(max(n, 0))]
        for k in kws:
            if r.random() < 0.5:
                out.insert(r.randrange(len(out) + 1), ':%s %s' % (k, self.expr(d - 1)))
        if nrest:
            for _ in range(r.choice([0, 1, 2, 3])):
                out.insert(r.randrange(len(out) + 1), ':%s %s' % (r.choice(['q', 'w', 'e', 'key']), self.atom()))
        return out

    def body(self, bound, d, lo=1, hi=3):
        self.scope += bound
        out = self.exprs(d, lo, hi)
        if bound and self.rng.random() < 0.7:
            out.append('%' + self.rng.choice(bound))
        del self.scope[len(self.scope) - len(bound):]
        return out

    def lam(self, d, n):
        ps, desc, bound = self.params(n)
        head = ps[0] if n == 1 and len(bound) == 1 and self.rng.random() < 0.4 else '(' + self.seq(ps) + ')'
        return self.form('%lambda', head, *self.body(bound, d, 0, 2))

    def fun1(self, d):
        """A function of one argument, as a value."""
        c = [f for f in self.funs if self.funs[f][0] < self.rank and self.funs[f][1][0] == 1 and self.funs[f][0] < 3]
        r = self.rng.random()
        if c and r < 0.3:
            return self.rng.choice(c)
        if r < 0.45:
            return self.rng.choice(['do', 'list', 'string', 'strip', 'concat', 'splat', 'symbol'])
        return self.lam(d, 1)

    # -- built-in macros
    def b_var(self, d): return self.use()

    def b_call(self, d):
        c = [f for f in self.funs if self.funs[f][0] < self.rank]
        if not c:
            return self.lst(d)
        f = self.rng.choice(c)
        return self.form('%' + f, *self.args(self.funs[f][1], d))

    def b_embedcall(self, d): return self.form(self.sym(), self.b_call(d), self.use())

    def b_local(self, d):
        """A definition that is not at the top level."""
        return self.form('%do', self.definition(d), *self.exprs(d, 0, 2))

    def b_do(self, d): return self.form('%do', *self.exprs(d, 0, 3))
    def b_list(self, d): return self.form('%list', *self.exprs(d, 0, 4))
    def b_strip(self, d): return self.form('%strip', *self.exprs(d, 0, 3))
    def b_splat(self, d): return self.form('%splat', *[self.lst(d) if self.rng.random() < 0.7 else self.expr(d) for _ in range(self.rng.randint(0, 3))])

    def lits(self, d, lo=0, hi=4):
        return [self.atom() if self.rng.random() < 0.7 else self.rng.choice([self.use(), self.form('%string', self.atom(), self.atom()), self.form('%concat', self.atom())]) for _ in range(self.rng.randint(lo, hi))]

    def b_raw(self, d): return self.form('%raw', *self.lits(d))
    def b_string(self, d): return self.form('%string', *self.lits(d))
    def b_number(self, d): return self.form('%number', *self.lits(d, 0, 2))
    def b_symbol(self, d): return self.form('%symbol', *self.lits(d, 0, 2))
    def b_concat(self, d): return self.form('%concat', *self.lits(d))

    def b_join(self, d):
        a = [self.atom()] + self.lits(d, 0, 4)
        if self.rng.random() < 0.4:
            a.insert(self.rng.randrange(len(a) + 1), ':trailing ' + self.rng.choice(['true', 'false', '"true"', 'true', 'yes' if self.rng.random() < self.fail * 3 else 'false']))
        return self.form('%join', *a)

    def b_log(self, d): return self.form('%log', *self.lits(d))

    def b_ifdef(self, d):
        name = self.rng.choice(VARS + FUNS + self.scope[-3:] + ['nope', '"x"', 'key'])
        return self.form('%ifdef', name, self.expr(d), *([self.expr(d)] if self.rng.random() < 0.75 else []))

    def pattern(self, d):
        """(pattern, value that probably matches, names)"""
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.35:
            n = r.choice(PARAMS + ['_'])
            return n, self.atom() if r.random() < 0.7 else '(%s)' % self.atom(), [n]
        if k < 0.5:
            a = r.choice([self.num(), self.string()])
            return a, a if r.random() < 0.6 else self.atom(), []
        ps, vs, names = [], [], []
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            p, v, n = self.pattern(d - 1)
            if r.random() < 0.25:
                key = self.key()
                ps.append(':%s %s' % (key, p)); names.append(key)
                if r.random() < 0.7:
                    vs.insert(r.randrange(len(vs) + 1), ':%s %s' % (key, v))
            else:
                ps.append(p); vs.append(v); names += n
        if r.random() < 0.25:
            ps.append('&rest'); names.append('rest')
            vs += [self.atom() for _ in range(r.choice([0, 1, 2]))]
        if r.random() < 0.15:
            ps.append('&&kws'); names.append('kws')
            vs += [':%s %s' % (self.key(), self.atom()) for _ in range(r.choice([0, 1, 2]))]
        if r.random() < 0.15 and vs:
            vs.pop()
        return '(' + self.seq(ps) + ')', '(' + self.seq(vs) + ')', names

    def b_match(self, d):
        r = self.rng
        subject, arms = None, []
        which = r.randrange(3)
        for k in range(r.choice([1, 2, 3, 3, 4])):
            p, v, n = self.pattern(2)
            if k == which or subject is None:
                subject = v
            arms.append('(' + self.seq([p] + self.body(n, d, 0, 2)) + ')')
        if r.random() < 0.4:
            arms.append('(_' + self.ws() + self.expr(d) + ')')
        if r.random() < 0.15:
            subject = self.expr(d)
        return self.form('%match', subject, *arms)

    def b_for(self, d):
        r = self.rng
        if r.random() < 0.35:
            pat, names = '(a b)', ['a', 'b']
            lst = '(' + self.seq(['(%s %s)' % (self.atom(), self.atom()) for _ in range(r.randint(0, 4))]) + ')'
        else:
            n = r.choice(PARAMS)
            pat, names = n, [n]
            lst = self.vlist(d)
        return self.form('%for', pat, 'in', lst, *self.body(names, d, 0, 3))

    def b_map(self, d): return self.form('%map', self.fun1(d), *self.values(d))

    def b_filter(self, d):
        if self.rng.random() < 0.5:
            n = self.rng.choice(PARAMS)
            f = '(%%lambda (%s) (%%match %%%s (%s ()) (_ %%%s)))' % (n, n, self.num(), n)
        else:
            f = self.fun1(d)
        return self.form('%filter', f, *(self.values(d) + ['()'] * self.rng.choice([0, 0, 1])))

    def b_apply(self, d):
        if self.rng.random() < 0.5:
            n = self.rng.choice([0, 1, 2, 3])
            return self.form('%apply', self.lam(d, n), *[self.atom() for _ in range(n)])
        return self.form('%apply', self.fun1(d), self.expr(d))

    def b_lambda(self, d): return self.lam(d, self.rng.choice([0, 1, 2]))

    def b_sort(self, d):
        r = self.rng
        opts = []
        if r.random() < 0.35:
            opts.append(':order ' + r.choice(['ascending', 'descending', '"descending"']))
        items = [self.atom() for _ in range(r.choice([0, 1, 2, 3, 5, 8, 25]))]
        if r.random() < 0.4:
            items = ['(%s %s)' % (r.choice(['a', 'b', '1', '2', '10']), self.atom()) for _ in items]
            opts.append(':key (%lambda ((q1 q2)) %q1)')
        a = opts + ['(' + self.seq(items) + ')']
        r.shuffle(a)
        return self.form('%sort', *a)

    def b_reverse(self, d): return self.form('%reverse', '(' + self.seq(self.values(d, 0, 6)) + ')')

    def b_get(self, d):
        r = self.rng
        depth, path, val = r.choice([1, 1, 2, 3]), [], self.atom()
        for _ in range(depth):
            n = r.randrange(4)
            items = [self.atom() if r.random() < 0.6 else ':' + r.choice(['q', 'w']) + ' ' + self.atom() for _ in range(3)]
            if r.random() < 0.5:
                k = r.choice(['a', 'b', 'key'])
                items.insert(n, ':%s %s' % (k, val)); path.insert(0, k)
            else:
                items.insert(n, val); path.insert(0, str(n))
            val = '(' + self.seq(items) + ')'
        if r.random() < 0.1:
            path[r.randrange(len(path))] = r.choice(['9', 'nope', '00', '+1', '', '-1'])
        sep = r.choice(['', '', '', ':separator .', ':separator "--"'])
        s = '.' if sep.endswith('.') else '--' if sep.endswith('--"') else '/'
        a = ['"%s"' % s.join(path) if s == '--' or r.random() < 0.5 or '' in path else s.join(path), val]
        if sep:
            a.insert(r.randrange(3), sep)
        return self.form('%get', *a)

    def b_format(self, d):
        a = self.lits(d, 0, 3)
        if self.rng.random() < 0.4:
            a.insert(self.rng.randrange(len(a) + 1), ':x ' + self.atom())
        return self.form('%format', '"%s"' % self.rng.choice(FORMATS), *a)

    def b_namespace(self, d):
        r = self.rng
        a = [r.choice(['ns', 'n2', '"n s"'])]
        if r.random() < 0.3:
            a.append(':separator ' + r.choice(['"-"', '::', '""', '.']))
        keep = dict(self.vars), dict(self.funs)
        for _ in range(r.choice([0, 1, 2, 3])):
            a.append(self.definition(d) if r.random() < 0.7 else self.expr(d))
        self.vars, self.funs = keep
        return self.form('%namespace', *a)

    # -- definitions
    def definition(self, d):
        r = self.rng
        old = self.rank
        if r.random() < 0.5:
            k = r.randrange(len(VARS))
            self.rank = min(old, k * 2)
            out = self.form('%define', VARS[k], *self.exprs(d, 0, 2) or [self.atom()])
            self.vars[VARS[k]] = k * 2
        else:
            k = r.randrange(len(FUNS))
            self.rank = min(old, k * 2 + 1)
            ps, desc, bound = self.params()
            out = self.form('%define', '(' + self.seq([FUNS[k]] + ps) + ')', *self.body(bound, d, 0, 3))
            self.funs[FUNS[k]] = (k * 2 + 1, desc)
        self.rank = old
        return out

    def program(self, forms=None, defs=0.4, d=3):
        r = self.rng
        out = []
        for _ in range(forms or r.choice([1, 2, 3, 4, 5, 7])):
            self.budget = 40
            x = r.random()
            if x < defs:
                out.append(self.definition(d))
            elif x < 0.95:
                out.append(self.expr(d))
            else:
                out.append(r.choice(TEMPLATES))
        return r.choice(['', ' ', '\n']) + ''.join(t + self.ws() for t in out)


def programs(rng, count, weights, **kw):
    for _ in range(count):
        opt = {k: kw[k] for k in ('fail', 'plain') if k in kw}
        s = G(rng, weights, **opt).program(**{k: kw[k] for k in ('forms', 'defs', 'd') if k in kw})
        yield s.replace('"%x"', '"%"') if '%symbol' in s or ' symbol' in s else s      # a macro made at run time might use itself


def recursive(src):
    """Might a definition use itself, directly or not?"""
    if '"%x"' in src and 'symbol' in src:
        return True
    toks = re.findall(r'"(?:\\\\.|[^"])*"|[()]|[^\s()"]+', src)
    plain = [t.replace('\\', '').strip('"').lstrip('%') for t in toks]
    uses, stack, head = {}, [], set()
    for k, t in enumerate(toks):
        if t == '(':
            stack.append(None)
        elif t == ')':
            if stack: stack.pop()
        elif t == '%define':
            j = next((j for j in range(k + 1, len(toks)) if toks[j] != '('), k)
            if stack:
                stack[-1] = plain[j]
                uses.setdefault(plain[j], set())
                head.add(j)
        elif k not in head:
            for d in stack:
                if d is not None:
                    uses[d].add(plain[k])
    for n in uses:
        todo, done = list(uses[n]), set()
        while todo:
            m = todo.pop()
            if m == n:
                return True
            if m in uses and m not in done:
                done.add(m)
                todo += uses[m]
    return False


def damage(rng, src):
    """A nearby program, likely to be wrong; never one that might not end."""
    for _ in range(5):
        out = damaged(rng, src)
        if not recursive(out):
            return out
    return 'x'


def damaged(rng, src):
    """A nearby program, likely to be wrong: a piece removed, doubled, or exchanged."""
    bits = []
    cur = ''
    for ch in src:
        if ch in '() \n':
            if cur: bits.append(cur)
            bits.append(ch); cur = ''
        else:
            cur += ch
    if cur: bits.append(cur)
    for _ in range(rng.choice([1, 1, 2])):
        ks = [k for k, b in enumerate(bits) if b not in '() \n']
        if not ks:
            break
        k = rng.choice(ks)
        r = rng.random()
        if r < 0.3:
            bits[k] = ''
        elif r < 0.5:
            bits[k] = bits[k] + ' ' + bits[k]
        elif r < 0.8:
            bits[k] = rng.choice(['()', '1', '"s"', 'x', '%x', '(a b)', ':key 1', ':separator ","', '&rest', 'in', '%do'])
        else:
            j = rng.choice(ks)
            bits[k], bits[j] = bits[j], bits[k]
    return ''.join(bits)


ODD = ['()', '(())', '%x', '"%x"', '%%', '"% "', '""', '" "', 'a.b', 'A', '"A"', '01', '+1', '1.', '1.0', '1e0', '-0', '.5', '-', '+', '"1"', '"()"', '(:k 1)', '(:k)', '(:k %x)', '(:k () :k 2)', '&', '&&', '_', 'é', '"é→"', '"\\u0301"',
       '"a\\nb"', 'a/b', '"/"', ':k 1', ':k ()', ':k %x', ':k (%do)', ':K 2', ':é 3', '(%do)', '(%do 1 2)', '(%list)', '(%list 1 2)', '(%do :k 1)', '(%raw "<>")', '(%string a 1)', '(%symbol b)', '(%number 1.0)', '(%log odd)',
       '((a) (b))', '(1 (2 (3)))', 'in', 'true', 'TRUE', 'False', 'ascending', 'DESCENDING', '"descending"', 'do', '"do"', '(%ifdef nope 1)', '(%ifdef x %x)', '(%lambda (q) %q)', '(%lambda () 1)', '%nope', '(%nope)', '\\%x', 'a\\ b']
TOKEN = re.compile(r'"""(?:.|\n)*?"""|"(?:\\.|[^"\\])*"|;[^\n]*\n?|\s+|[()]|(?:\\.|[^\s()"\\;])+|.', re.S)


def spice(rng, src):
    """A nearby program, likely to be right still: one thing exchanged for something odd, dropped, doubled, or put in another case."""
    for _ in range(4):
        ts = TOKEN.findall(src)
        at = [k for k, t in enumerate(ts) if t.strip() and t not in '()' and t[0] != ';' and not (k and ts[k - 1] == '(' and t[0] == '%')]
        if not at:
            return src
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(at)
            t, r = ts[k], rng.random()
            if r < 0.55:
                ts[k] = rng.choice(ODD)
            elif r < 0.7:
                ts[k] = t + ' ' + rng.choice(ODD)
            elif r < 0.78:
                ts[k] = t.swapcase() if '\\' not in t else t
            elif r < 0.86:
                ts[k] = '(' + t + ')'
            elif r < 0.93:
                ts[k] = '(%do ' + t + ' )'
            else:
                ts[k] = ''
        out = ''.join(ts)
        if not recursive(out):
            return out
    return src


def items(ts):
    """Where the items of lists begin and end, in a list of tokens: (first, last, first of its list?)."""
    out, stack, first = [], [], True
    for k, t in enumerate(ts):
        if not t.strip() or t[0] == ';':
            continue
        if t == '(':
            stack.append((k, first))
            first = True
        elif t == ')':
            if not stack:
                return []
            j, f = stack.pop()
            out.append((j, k, f and bool(stack)))
            first = False
        else:
            out.append((k, k, first and bool(stack)))
            first = False
    return [] if stack else out


def watch(rng, src):
    """The same program, but for some of its parts telling that they were reached (and so when, and how often)."""
    for _ in range(4):
        ts = TOKEN.findall(src)
        spans = [(a, b) for a, b, first in items(ts) if not first and not (ts[a][0] == ':' and a == b)]
        if not spans:
            return src
        for n, (a, b) in enumerate(rng.sample(spans, min(len(spans), rng.choice([1, 2, 2, 3])))):
            r = rng.random()
            if r < 0.75:
                ts[a] = '(%%do (%%log w%d) ' % n + ts[a]
                ts[b] += ')'
            elif r < 0.85:
                ts[a] = '(%%log w%d) ' % n + ts[a]
            elif r < 0.95:
                ts[a] = '(%do ' + ts[a]
                ts[b] += ' (%%log w%d))' % n
            else:
                ts[a] = '(%%define w%d %d) ' % (n, n) + ts[a]
        out = ''.join(ts)
        if not recursive(out):
            return out
    return src


def again(rng, src):
    """The same program, but with one of its forms there twice, laid out otherwise the second time."""
    ts = TOKEN.findall(src)
    forms, depth, at = [], 0, 0
    for k, t in enumerate(ts):
        if t == '(':
            if depth == 0: at = k
            depth += 1
        elif t == ')':
            depth -= 1
            if depth == 0: forms.append((at, k))
            if depth < 0: return src
    if not forms or depth:
        return src
    a, b = rng.choice(forms)
    copy = ''
    for k in range(a, b + 1):
        t = ts[k]
        if not t.strip() or t[0] == ';':
            t = rng.choice([' ', '  ', '\n', t])
        elif rng.random() < 0.06 and t not in '()' and t[0] not in ':%&"':
            t = '"' + t + '"' if '\\' not in t else t
        copy += t
    place = rng.choice([f[1] for f in forms if f[1] >= b])
    ts[place] += rng.choice(['', ' ', '\n']) + copy
    if rng.random() < 0.5:
        c, d = rng.choice(forms)
        ts.append(''.join(ts[c:d + 1]) if not any(c <= place <= d for _ in [0]) else '')
    out = ''.join(ts)
    return out if not recursive(out) else src


AIR = [' ', '  ', '\n', ' \n', '\t', '\r\n', '\n\n', '\n  ', ' \n  ', '\r', '\x0c', '\t\n\t', ' ; c\n', ';c\n ', '\n ; c (\n\n', '   \n', '\r\n\r\n ', '\x0b']


def air(rng, src):
    """The same program, laid out otherwise."""
    ts = TOKEN.findall(src)
    share = rng.choice([0.15, 0.4, 0.8])
    for k, t in enumerate(ts):
        if rng.random() < share:
            if not t.strip():
                ts[k] = rng.choice(AIR) if rng.random() < 0.95 or not (k and k + 1 < len(ts)) or ts[k - 1] not in '()' and ts[k + 1] not in '()' else ''
            elif t in '()' and rng.random() < 0.3:
                ts[k] = rng.choice([rng.choice(AIR) + t, t + rng.choice(AIR)]) if not (t == '(' and k + 1 < len(ts) and ts[k + 1][0] == '%') else rng.choice(AIR) + t
    out = ''.join(ts)
    return out if not recursive(out) else src


NAMES = ['k/', '/k', 'a/b', '/', '//', 'k.', '.', 'k-', '-k', '-', '--', '&', '&&', '&k', '&&k', '&&&', '%k', '%', '%%', '0', '1', '2', '00', '-1', '+1', '1.0', '1e1', '.5', 'é', '→', 'Ａ', 'ß', 'ſ', '_', '__', "'", '!k', '#k', '@k', '=', '*', '{}', '{0}', '[k]',
         'in', 'do', 'list', 'define', 'log', 'match', 'for', 'get', 'raw', 'true', 'false', 'K', 'key', 'order', 'trailing', 'separator', 'ascending', 'timezone', 'n/k', 'n/', 'k' * 70, 'nan', 'inf', 'k\\ k', '\\%k', 'k:', 'k:k', '18446744073709551616', '💡', 'k;', 'e\u0301']
WORD = re.compile(r'(?<![\w/.:\\-])([%:&"/]*)([A-Za-z][A-Za-z0-9_]*|[0-9]+)(?=[\s()"/]|$)')
KNOWN = set('define match ifdef do get raw string number symbol include embed namespace markdown yaml json toml glob for sort reverse date timestamp join concat map filter splat list strip apply lambda log format os env in ascending descending'.split())


def rename(rng, src):
    """The same program, but with another name in each place where one of its names, keywords or words is."""
    for _ in range(4):
        words = [m.group(2) for m in WORD.finditer(src) if m.group(2) not in KNOWN]
        often = [w for w in words if words.count(w) > 1]
        pool = often if often and rng.random() < .9 else words
        if not pool:
            return src
        out = src
        for w in set(rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))):
            new = rng.choice(NAMES)
            out = WORD.sub(lambda m: m.group(1) + new if m.group(2) == w and not (m.group(1).endswith('"') and '\\' in new) else m.group(0), out)
        if out != src and not recursive(out) and not any(recursive(re.sub(e, '', out)) for e in (r'/', r'&', r'\\', r'[^\s()%"]*/(?=[^\s()])', r'[^\s()%"]*[-.:,](?=[^\s()])')):
            return out
    return src


def split(text):
    """The items of a text: atoms and whole lists, keywords with their values."""
    out, depth, cur = [], 0, ''
    for t in TOKEN.findall(text):
        if t == '(': depth += 1
        if t == ')': depth -= 1
        if not t.strip() and depth == 0:
            if cur and not (cur[0] == ':' and ' ' not in cur):
                out.append(cur); cur = ''
            elif cur:
                cur += ' '
        else:
            cur += t
    return out + [cur] if cur else out
