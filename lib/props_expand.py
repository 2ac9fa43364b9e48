"""C05-C16, C30: the expander."""
import itertools
from core import *
from expand import run_programs
from session import laws, sessions
import gen_exp, gen_reader


def mix(chk, weights, count, fail=0.01, plain=0.35, wrong=0.15, **kw):
    """Random programs that favour some macros, and damaged ones."""
    n = count * (8 if chk.thorough else 2)
    out = list(gen_exp.programs(chk.rng, n, {**{'*': 0.15}, **weights}, fail=fail, plain=plain, **kw))
    return out + [gen_exp.damage(chk.rng, s) for s in out[:int(n * wrong)]]


def run(chk, srcs, session=False, places=False, extra=(), spiced=900, env=None, **kw):
    srcs = list(srcs)
    more = [gen_exp.spice(chk.rng, chk.rng.choice(srcs)) for _ in range(spiced * (8 if chk.thorough else 2))]
    more += [gen_exp.again(chk.rng, chk.rng.choice(srcs)) for _ in range(spiced // 3 * (8 if chk.thorough else 2))]
    more += [gen_exp.watch(chk.rng, chk.rng.choice(srcs)) for _ in range(spiced // 2 * (8 if chk.thorough else 2))]
    more += [gen_exp.rename(chk.rng, chk.rng.choice(srcs)) for _ in range(spiced // 2 * (8 if chk.thorough else 2))]
    more += [gen_exp.air(chk.rng, chk.rng.choice(srcs)) for _ in range(spiced // 2 * (8 if chk.thorough else 2))]
    short = sorted((e for e in extra if 'cwd' not in e and len(e['src']) < 400), key=lambda e: e['src'])
    if short:
        more += [f(chk.rng, chk.rng.choice(short)['src']) for f in (gen_exp.spice, gen_exp.watch, gen_exp.rename, gen_exp.air) for _ in range(spiced // 2 * (8 if chk.thorough else 2))]
    cases = [{'src': s, **kw} for s in dict.fromkeys(srcs + more)] + list(extra)
    return run_programs(chk, cases, session=session, places=places, env=env)


def some(chk, items, quick):
    items = list(items)
    if chk.thorough or len(items) <= quick:
        return items
    return [items[k] for k in sorted(chk.rng.sample(range(len(items)), quick))]


# ------------------------------------------------------------------ C05
def C05(chk):
    pool = [('a', []), ('(p b :k v)', []), ('"s" 12', []), ('((x) ())', []), (':k (y :z 1)', []), ('(%do a  b)', []), ('(p (%do) c)', []),
            ('(%define x (q r))', ['x']), ('(u %x :k %x)', []), ('%x', []), ('(l (%list 1 %x) %x)', [])]
    pre = sessions(chk, pool, 3, quick=1000)
    docs = [s for s in gen_reader.texts(chk.rng, 9000 if chk.thorough else 4500) if '%' not in s]
    wrapped = []
    for s in mix(chk, {'do': 1, 'list': 1, 'var': 1, 'call': 1, 'embedcall': 2, 'match': .3, 'for': .3}, 1500, plain=0.75):
        wrapped.append(s)
    run(chk, docs + wrapped, places=True, extra=pre + laws(chk, 'Value', 300))


# ------------------------------------------------------------------ C06
def C06(chk):
    pool = [('(%define x 1)', ['x']), ('(%define x (a %y))', ['x']), ('(%define y 2 "3")', ['y']), ('(%define (f) %x)', ['f']),
            ('(%f)', []), ('(p\n  %x :k %y)', []), ('(%define y %x %x)', ['y']), ('(%define x (%f))', ['x']), ('%f', []), ('(%define (g q) %q %x)', ['g']),
            ('(%define x (%g %y))', ['x']), ('(%define x)', ['x']), ('(%define x (a\n  %y))', ['x']), ('(%define x "1")', ['x']), ('(%define y :k %x :l (%g 1))', ['y']), ('(a %y :m %y)', [])]
    pre = sessions(chk, pool, 3, quick=1500)
    deep = sessions(chk, pool[:8], 5, quick=1200, model_bound=4)
    run(chk, mix(chk, {'var': 3, 'call': 3, 'local': 2, 'do': 1, 'list': 1}, 1800, defs=0.6), session=True, extra=pre + deep + laws(chk, 'Define'))


# ------------------------------------------------------------------ C07
SCOPES = [('(%define y out)', ['y']), ('%y', []), ('(%define (h) %y)', ['h']), ('(%define (g a) (%define y in) %a %y (%h))', ['g']), ('(%g 1)', []),
          ('(%for y in (1 2) %y (%h) (%define x l))', []), ('(%match (1 2) ((y x) %y %x (%h)) (_ no))', []), ('(%ifdef x yes no)', []), ('(%ifdef a yes no)', []),
          ('(%match (1) ((y 2) no) ((2 y) no) ((x) %x (%ifdef y leak clean)))', []), ('(%apply (%lambda (y) (%define x 4) %y (%h)) 5)', []),
          ('(%namespace n (%define y 9) %y (%h))', ['n/y']), ('(%map (%lambda (y &x) (%h) %x) 1 2)', []), ('(%define (r y :x 7 &a) (%match %a (() %y %x (%h)) ((a &b) (%r %a) %y)))', ['r']), ('(%r 1 2 3)', []), ('(%define (at) :k (%do (%define x k) %x))(%define (bare) %y)', ['at', 'bare']), ('(p (%at) (%bare))', [])]


def C07(chk):
    pre = sessions(chk, SCOPES, 3, quick=2200)
    deep = [{'src': ''.join(chk.rng.choice(SCOPES)[0] + chk.rng.choice([' ', '\n', '']) for _ in range(chk.rng.choice([5, 7, 9])))} for _ in range(10000 if chk.thorough else 2100)]
    run(chk, mix(chk, {'call': 3, 'local': 3, 'for': 2, 'match': 2, 'var': 2, 'namespace': 1, 'apply': 1, 'map': 1, 'ifdef': 2}, 1500, defs=0.5, fail=0.03), session=True, extra=pre + deep + laws(chk, 'Scope'))


# ------------------------------------------------------------------ C08
def bindings(chk):
    pars = ['a', 'b', ':k d', ':l (e)', '&r', '&&n', '(c d)', '(c :k 1 &r)', '&&&r', '&&&&n', '&', '&&', '&%a', '%a', 'a&', '&r&', '&1', ':&k d']
    args = ['1', '(2 3)', ':k 4', ':l 5', ':k 6', ':z 7', '%v', '(%splat (8 :k 9))', '(2)', '()', '(%do)', ':k ()', ':k (%do)', '"s"']
    ps = [p for n in range(4) for p in itertools.product(pars[:8], repeat=n)]
    as_ = [a for n in range(4) for a in itertools.product(args, repeat=n)]
    rng = chk.rng
    for _ in range(90000 if chk.thorough else 7650):
        p, a = rng.choice(ps), rng.choice(as_)
        if p and rng.random() < 0.12:
            k = rng.randrange(len(p))
            p = p[:k] + (rng.choice(pars[8:]),) + p[k + 1:]
        if rng.random() < 0.3:
            p, a = p + tuple(rng.choice(pars) for _ in range(rng.randrange(3))), a + tuple(rng.choice(args) for _ in range(rng.randrange(4)))
        names = [n for n in ('a', 'b', 'c', 'd', 'e', 'k', 'l', 'r', 'n') if ' ' + n in ' ' + ' '.join(p).replace('(', ' ').replace(')', ' ').replace('&', ' ').replace(':', ' ')]
        names += [n for n in ('&r', '&&n', '&n', '&', '%a', 'a&', 'r&', '1', '&k', '&&', '&&r') if any('&' in x and x not in pars[:8] or x in ('%a', 'a&') for x in p)]
        body = ' '.join('(%s (%%ifdef %s %%%s))' % (n.strip('%'), n, n) for n in names)
        form = rng.randrange(4)
        if form == 0:
            yield '(%%define v 0 :z 1)(%%define (f %s) %s)(%%f %s)' % (' '.join(p), body, ' '.join(a))
        elif form == 1:
            yield '(%%define v 0)(%%apply (%%lambda (%s) %s) %s)' % (' '.join(p), body, ' '.join(a))
        elif form == 2:
            yield '(%%define v 0)(%%match (%s) ((%s) %s) (_ none))' % (' '.join(a), ' '.join(p), body)
        else:
            yield '(%%define v x)(%%for (%s) in ((%s) (%s)) %s)' % (' '.join(p), ' '.join(a), ' '.join(rng.choice(as_)), body)


def many(rng):
    """Calls with many arguments, by name and by position."""
    n = rng.choice([6, 12, 40])
    order = list(range(n))
    rng.shuffle(order)
    named = ' '.join(':k%d %d' % (j, j) for j in order)
    pos = ' '.join(str(j) for j in range(n))
    yield '(%%define (f &&o) (x %%o) %%o)(%%f %s)' % named
    yield '(%%define (f &o) (x %%o) %%o)(%%f %s)' % pos
    yield '(%%define (f %s &&o) (x %%o %s))(%%f %s :w 1 :v 2)' % (' '.join(':k%d z' % j for j in order[:n // 2]), ' '.join('%%k%d' % j for j in order[:n // 2]), named)
    yield '(%%define (f %s &rest &&o) %s)(%%f %s %s)' % (' '.join('a%d' % j for j in range(n)), ' '.join('%%a%d' % j for j in range(n)), pos, named)
    yield '(%%define (f &&o) %%o)(%%f %s %s)' % (named, ' '.join(':k%d again' % j for j in order[::3]))


def C08(chk):
    chk.model('MC_Bind', 'MC_Bind_thorough.cfg' if chk.thorough else 'MC_Bind.cfg', 'binding every short parameter list to every short argument list')
    big = [s for _ in range(60 if chk.thorough else 36) for s in many(chk.rng)]
    run(chk, list(bindings(chk)) + big + mix(chk, {'call': 4, 'apply': 2, 'for': 1, 'match': 1}, 500, defs=0.5))


# ------------------------------------------------------------------ C09
def matches(chk):
    pats = ['a', '1', '"s"', '()', '(a)', '(a b)', '(1 a)', '(a &r)', '(:k a)', '(:k 1 b)', '((a b) c)', '(a (1 &r))', '(&&n)', '(:k (x y) &&n)', '_', '(s)', '("s" a)', ':k 1', '(&r)', '1.0', '%w', '((:k d))']
    vals = ['1', '"s"', 's', '()', '(1)', '(1 2)', '(2 1)', '(1 2 3)', '(:k 1)', '(:k 2 3)', '((1 2) 3)', '(4 (1 5 6))', '(:z 1 :y 2)', '(:k (1 2) :z 3)', '%v', '(%list 1 2)', '1.0', '(%raw s)', '(%string 1)', ':k 1', '((:k 7))']
    rng = chk.rng
    nums = ['1', '01', '+1', '-1', '1.0', '1.', '1e0', '10', '0', '-0', '+0', '0.0', '.0', '00', '1e', '1E0', '1x', '1X']
    text = ['"a"', '"A"', '"a "', '" a"', '""', '"1"', '"\\u61;"', '"é"', '"e\\u301;"', '"""a"""', '"a\\n"', 'a', 'A', ':a 1', '("a")', '(a)']
    pairs = [(a, b) for a in nums for b in nums + ['"%s"' % a, '(%s)' % a]] + [(a, b) for a in text for b in text]
    same = ['(%%match %s (%s same) (_ other))%s' % (a, b, rng.choice(['', '(%%match (z %s) ((z %s) same) (_ other))' % (a, b), '(%%match (:k %s) ((:k %s) same) (_ other))' % (a, b)])) for a, b in pairs]
    out = some(chk, same, 420) + ['(%%define v (1 2))(%%define w 1)(%%match %s (%s m %s))' % (v, p, ' '.join('(%%ifdef %s %%%s)' % (n, n) for n in ('a', 'b', 'r', 'k', 'n', 'x'))) for p in pats for v in vals]
    for _ in range(40000 if chk.thorough else 4250):
        arms = ' '.join('(%s %d %s)' % (rng.choice(pats), k, ' '.join('(%%ifdef %s (%s %%%s) _)' % (n, n, n) for n in ('a', 'b', 'r', 'k'))) for k in range(rng.choice([1, 2, 3, 4, 5])))
        out.append('(%%define v %s)(%%define w %s)(%%match %s %s) (%%ifdef a y n)' % (rng.choice(['1', '(1 2)', '()']), rng.choice(['1', 'a', '(a b)', '1 2']), rng.choice(vals), arms))
    return out


def C09(chk):
    chk.model('MC_Bind', 'MC_Bind_thorough.cfg' if chk.thorough else 'MC_Bind.cfg', 'matching every small value against every small pattern')
    run(chk, matches(chk) + mix(chk, {'match': 5, 'call': 1, 'for': .5}, 700), extra=laws(chk, 'Match'))


# ------------------------------------------------------------------ C10
def C10(chk):
    pool = [('(%ifdef x (%log a) (%log b))', []), ('(%ifdef x (%nope 1) 1)', []), ('(%ifdef x (%define y 1))', ['y']), ('(%ifdef y %y (%define x 2))', ['x']), ('(%define x 1)', ['x']),
            ('(%define (t a) (%ifdef a yes no) (%ifdef x %x none))', ['t']), ('(%t 1)', []), ('(p (%ifdef a yes no))', []), ('(%ifdef "x" s n)', []), ('(%for x in (1) (%ifdef x l m))', []),
            ('(%namespace n (%define x 1) (%ifdef x in out))', ['n/x']), ('(%ifdef n/x q r)', []), ('(%ifdef do b  u)', []), ('(%ifdef y (%ifdef x both y) (%ifdef x x neither))', []), ('(%ifdef %x per cent)(%ifdef X cap ital)(%ifdef " x" sp ace)(%ifdef x/ sl ash)', [])]
    pre = sessions(chk, pool, 3, quick=2400)
    run(chk, mix(chk, {'ifdef': 5, 'local': 1, 'log': 1, 'call': 1, 'for': .5, 'match': .5, 'namespace': .5}, 1800, defs=0.45, fail=0.06), session=True, extra=pre + laws(chk, 'Lazy'))


# ------------------------------------------------------------------ C11
def loops(rng):
    vals = ['1', 'a', '"s"', '(b c)', '()', '(1)', '2', '""', ':k 2', '%v', '(%do 7 8)', '(%do)', '(%list x)', '%w']
    funs = ['(%lambda (q) [ %q %q ])', '(%lambda q (p %q))', '(%lambda (q) (%log %q) %q)', 'f', 'list', 'do', '(%lambda (&r) %r)', '(%lambda (q :k 0) %k %q)', 'string', '(%lambda (q) )', '%fn', '(%lambda (q) (%match %q (1 ()) ("s" () x) ((_) ((1))) (_ %q)))', '(%lambda (&&n) %n)', '(%lambda (a b) %b %a)', 'g', '(%lambda (q) (%match %q (1 one) (a) ("s" %q %q)))', '(%lambda (q) (%ifdef seen (%do) (%define seen %q)) %q)', '(%lambda (q) (%match %q (1) (a ()) ((x) one) (_ %q (%q))))', '(%lambda (q) (%match %q (_ ())))']
    n = rng.choice([0, 1, 2, 3, 4, 4, 6, 30])
    items = ' '.join(rng.choice(vals) for _ in range(n))
    pre = '(%define v 5 6)(%define w (y z))(%define (f e) <%e>)(%define (g &e) %e %v)(%define fn (%lambda (e) (i %e)))'
    r = rng.random()
    if r < 0.3:
        return pre + '(%%map %s %s)' % (rng.choice(funs), items)
    if r < 0.5:
        return pre + '(%%filter %s %s)' % (rng.choice(funs), items)
    if r < 0.65:
        return pre + '(%%apply %s %s)' % (rng.choice(funs), items)
    pat = rng.choice(['e', 'e', 'e', '(e e2)', '(e &r)', '_', '(:k e)'])
    if pat.startswith('(e') and rng.random() < 0.9:
        items = ' '.join(rng.choice(['(1 2)', '(a b)', '((c) d)', '(%list 5 6)']) for _ in range(n))
    body = rng.choice(['(p %e)', '%e', '', '(%log %e)(q %e %e)', '(%define last %e) %last', '(%ifdef prev %prev first) (%define prev %e)', 'x', '(%for j in (1 2) (%e %j))', '(%define v %e)'])
    return pre + '(%%for %s in %s\n  %s) %%v' % (pat, rng.choice(['(%s)' % items, '(%s)' % items, '(%s)' % items, '%w', '()', '(%list ' + items + ')']), body)


def C11(chk):
    pool = [('(%for e in (1 2) (p %e))', []), ('(%for (a b) in ((1 2) (3 4)) %b %a)', []), ('(%define l (x y z))', ['l']), ('(%for e in %l %e)', []), ('(%for e in (%splat %l) (%log %e) %e)', []),
            ('(%define f (%lambda (e) (q %e)))', ['f']), ('(%map %f 1 2 3)', []), ('(%filter (%lambda (e) (%match %e (2 ()) (_ %e))) 1 2 3)', []), ('(%apply %f 9)', []), ('(%map f a)', []),
            ('(%define (f e) (r %e))', ['f']), ('(%for e in (1 2 3) (%for f in (a b) (%e %f)))', []), ('(%for e in (1 2) (%define z %e) %z)', [])]
    pre = sessions(chk, pool, 3, quick=900)
    srcs = [loops(chk.rng) for _ in range(30000 if chk.thorough else 4420)]
    home = os.path.dirname(chk.scratch.sub('functions', '.'))
    os.makedirs(home, exist_ok=True)
    bodies = ['(p %e)', '(q %e)', '%e ()', '(%log %e)', '(i i)']
    for k, b in enumerate(bodies):
        with open(os.path.join(home, 'fn%d' % k), 'w') as f:
            f.write('(%%lambda (e) %s)' % b)
    here = ''.join('(%%define h%d (%%lambda (e) %s))' % (k, b) for k, b in enumerate(bodies))
    for _ in range(4000 if chk.thorough else 500):      # functions that come from several places
        ks = [chk.rng.randrange(len(bodies)) for _ in range(3)]
        s = here + ''.join('(%%define g%d (%%include fn%d))' % (j, k) for j, k in enumerate(ks))
        for _ in range(chk.rng.choice([2, 3, 5])):
            g = chk.rng.choice(['%g0', '%g1', '%g2', '%h0', '%h1', '(%include fn0)', '(%include fn1)', '(%lambda (e) (b %e))', '(%lambda (e) (c %e))', '(%do %g0)'])
            s += chk.rng.choice(['(%%map %s 1 2)', '(%%filter %s 1 () a)', '(%%apply %s 3)', '(%%define g0 %s)', '(%%for f in (%s) (%%apply %%f x))', '(%%sort :key %s (b a))', '(%%map (%%lambda (e) (%%apply %s %%e)) 1 2)']) % g
        pre.append({'src': s, 'cwd': home, 'files': ['./fn%d%s' % (k, e) for k in range(len(bodies)) for e in ('', '.sex')]})
    run(chk, srcs + mix(chk, {'for': 3, 'map': 3, 'filter': 3, 'apply': 3, 'lambda': 1}, 700), extra=pre + laws(chk, 'Each'))


# ------------------------------------------------------------------ C12
KEYS = ['1', '2', '10', '-1', '1.0', '1.5', 'a', 'b', 'B', '"10"', '"a"', '"é"', '1e1', '0', '-0', '"a b"', '""', 'ab', '+1', '"1 "', 'inf', '-inf', '"Z"', '01', '.5', '1.', '2em', '"-"', '"→"', '1e-2', 'é', '100000000000', '0.1', '0.10', 'nan']


def sorts(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 9, 15, 21, 22, 34, 50])
    pool = rng.choice([KEYS, KEYS[:6], KEYS[6:12], ['1', '2', '1.0', '2.0', '01', '+2', '02'], [str(k) for k in range(-20, 60)], ['a', 'b', '1', '10', '9'], ['1', '10', '2', '20', '3', '-5', '0.5']])
    items = [rng.choice(pool) for _ in range(n)]
    ws = [rng.choice([' ', ' ', '\n', '  ']) for _ in items]
    order = rng.choice(['', '', ':order ascending', ':order descending', ':order "descending"'])
    body = lambda its: ''.join((w if k else '') + i for k, (i, w) in enumerate(zip(its, ws)))
    r = rng.random()
    if r < 0.5:
        a = [order, '(' + body(items) + ')']
    else:
        items = ['(%s %d)' % (i, k) for k, i in enumerate(items)]
        if r < 0.8:
            a = [order, ':key (%lambda ((a b)) %a)', '(' + body(items) + ')']
        elif r < 0.9:
            a = [order, ':key kf', '(' + body(items) + ')']
        else:
            items = ['(:n %s :v %d)' % (i[1:-1].rsplit(' ', 1)[0], k) for k, i in enumerate(items)]
            a = [order, ':key (%lambda ((:n z :v w)) %n)', '(' + body(items) + ')']
    rng.shuffle(a)
    pre = '(%define (kf l) (%get 0 %l))(%define s (3 1 2))'
    s = '(%sort ' + ' '.join(x for x in a if x) + ')'
    if rng.random() < 0.15:
        s = rng.choice(['(%sort %s)', '(%reverse (%sort %s))', '(%sort (%reverse %s))', '(%sort :order descending %s)', '(%sort :key (%lambda (e) (%log %e) %e) %s)', '(%sort :key (%lambda (e) %e %e) %s)', '(%sort :key (%lambda (e) (%e)) %s)', '(%sort ((1) 2))', '(%sort (:a 1))', '(%sort 3)']) + s
    if rng.random() < 0.3:
        s += '(%%reverse (%s))' % body(items)
    return pre + s


def C12(chk):
    chk.model('MC_Sort', 'MC_Sort_thorough.cfg' if chk.thorough else 'MC_Sort.cfg', 'sorting every short list of keys: total order, ordered permutation, stable')
    three = ['(%%sort %s(%s))' % (o, ' '.join(t)) for o in ('', ':order descending ') for t in itertools.product(KEYS, repeat=2)]
    idx = ['(%%sort %s:key (%%lambda ((a b)) %%a) (%s))' % (o, ' '.join('(%s %d)' % (x, k) for k, x in enumerate(t))) for o in ('', ':order descending ') for t in itertools.product(['1', '1.0', 'a', '2', '"1 "'], repeat=4)]
    run(chk, three + some(chk, idx, 500) + [sorts(chk.rng) for _ in range(30000 if chk.thorough else 5400)])


# ------------------------------------------------------------------ C13
VALUES = ['a', '1', '"s t"', '(b c)', '()', ':k v', '%x', '%l', '%two', '(%do)', '""', '(:k 1 :m (2 3))', '(%raw "<r>")', '"true"', '(%splat (p q))', '"a/b"', '2em']
VMACROS = ['do', 'list', 'strip', 'splat', 'string', 'raw', 'number', 'symbol', 'concat', 'join']


def values(chk):
    rng = chk.rng
    pre = '(%define x 5)(%define l (m n))(%define two 1 2)'
    out = []
    for m in VMACROS:
        for n in range(3):
            for a in itertools.product(VALUES, repeat=n):
                out.append(pre + '(p (%%%s %s))' % (m, ' '.join(a)))
    out = some(chk, out, 1500)
    for _ in range(40000 if chk.thorough else 4500):
        a = ''.join(rng.choice([' ', ' ', '\n', '  ']) + rng.choice(VALUES + ['(%%%s %s)' % (rng.choice(VMACROS), rng.choice(VALUES))]) for _ in range(rng.choice([2, 3, 4, 5])))
        m = rng.choice(VMACROS)
        if m == 'join' and rng.random() < .6:
            a = ' ' + rng.choice(['","', '""', '", "', '-']) + rng.choice(['', ' :trailing true', ' :trailing false']) + a
        out.append(pre + 'x (%%%s%s)' % (m, a))
    for _ in range(15000 if chk.thorough else 2700):
        out.append('(%define d (:a 1 :b (2 3 (:c (x :d "y")) 4) 9 :a 7 (z))) ' + '(%%get %s%s %s)' % (rng.choice(['', '', ':separator . ', ':separator "" ']), get_path(rng), rng.choice(['%d', '%d', '(:a (1 2) b)', '(0 1 2)', '((5) (6 (7)))', 'a', '%nope', '(:1 a b c)', '(x y :0 (p q) :2 z :-1 w)', '(:00 a :+1 b c d)', '()', '(())'])))
    return out


def get_path(rng):
    steps = [rng.choice(['a', 'b', '0', '1', '2', '3', 'c', 'd', '00', '+1', '9', 'q', '-1', '01', '', rng.choice(['4294967295', '4294967296', '9223372036854775807', '18446744073709551615', '18446744073709551616', '99999999999999999999', '-0', '0.0', '1e0', ' 1', '٣', '4', '5', '6', '8'])]) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
    s = rng.choice(['/', '/', '/', '.']).join(steps)
    return '"%s"' % s if rng.random() < .5 or not s else s


VARS = {'SEAM_V': 'value', 'SEAM_E': '', 'SEAM_S': ' a  b ', 'SEAM_L': 'one\ntwo\n', 'SEAM_M': '(%x)', 'SEAM_Q': '"q" \\n', 'SEAM_U': 'é→\U0001f4a1', 'SEAM_N': '12', 'SEAM V': 'spaced', 'seam_v': 'low', 'SEAM_P': '%x', 'SEAM_EQ': 'a=b=', '1': 'one'}


def asking(chk):
    """Programs that ask for environment variables."""
    rng = chk.rng
    names = list(VARS) + ['SEAM_NONE', '(%concat SEAM _V)', '(%string SEAM_ E)', 'SEAM_V SEAM_E', '', ':k SEAM_V', '(SEAM_V)', '%x', '%two', '(%do SEAM_U)', 'SEAM_v', '(%raw SEAM_S)', '""', '" "', 'SEAM_V=', '"SEAM\\0V"', '=']
    shapes = ['%s', '(a %s)', '(a  %s b)', '(%concat %s %s)', '(%join ", " %s %s)', '(%define v %s)%v %v', '(%string %s\n%s)', '(%raw %s)', '(%sort (%s %s %s))', '(%splat (%s))', '(%match %s ("value" one) (12 two) ("" none) (q other))', '(%os/env %s)', '(%list %s)',
              '(%symbol %s)', '(%number %s)', '(%get %s (a b :value 1))', '(a :k %s)', '(%log %s)', '(%ifdef v 0 %s)', '(%strip  %s)', '(%map (%lambda (q) [%q]) %s %s)', '(%do %s\n %s)', '(%define (f a) <%a>)(%f %s)', '(%for i in (%s %s) (p %i))']

    def ask():
        n = rng.choice(names) if rng.random() < .5 else rng.choice(list(VARS))
        n = '"%s"' % n if n in VARS and (' ' in n or rng.random() < .3) else n
        return rng.choice(['(%os/env ', '(%os/env ', '(%os/env  ', '(%os/env\n ']) + n + ')'

    out = []
    for _ in range(6000 if chk.thorough else 700):
        shape = rng.choice(shapes).split('%s')
        out.append({'src': '(%define x SEAM_E)(%define two SEAM_V SEAM_E)' + ''.join(a + ask() for a in shape[:-1]) + shape[-1]})
    return out


def C13(chk):
    pool = [('(%list 1 2)', []), ('(%define l (a (b c)))', ['l']), ('(%splat %l)', []), ('(%get 1/0 %l)', []), ('(p  (%strip  x))', []), ('(%join ", " 1 (%string a b))', []), ('(%concat a "b c" 1)', []),
            ('(%define l (%list (%splat %l) (%splat %l)))', ['l']), ('(%number "12")(%symbol "a b")', []), ('(%raw <b> %l)', []), ('(q (%do\n x) (%do))', [])]
    pre = sessions(chk, pool, 3, quick=700)
    run(chk, values(chk) + mix(chk, {k: 2 for k in VMACROS + ['get']}, 500), extra=pre + laws(chk, 'Value') + asking(chk), env=VARS)


# ------------------------------------------------------------------ C14
def C14(chk):
    pool = [('(%define x 1)', ['x']), ('(%define (f a) %a %x)', ['f']), ('(%namespace n (%define x 2) (p %x))', ['n/x']), ('(%namespace n (%define (f) g) %x)', ['n/f']), ('%n/x', []), ('(%n/f)', []), ('(%f 1)', []), ('%x', []),
            ('(%namespace m :separator "-" (%define x 3)(%define y 4))', ['m-x', 'm-y']), ('(%ifdef m-y a b)(%ifdef y a b)(%ifdef m/y a b)', []), ('(%namespace n (%namespace k (%define z 5)) %k/z)', ['n/k/z']), ('(%ifdef n/k/z a b)(%ifdef k/z c d)', []),
            ('(%namespace x)', []), ('(%define (w) (%namespace n (%define q 1)) %n/q)', ['w']), ('(%w)(%ifdef n/q in out)', []), ('(%namespace n (%define x %x) (%define n/x 0))', ['n/x', 'n/n/x'])]
    pre = sessions(chk, pool, 3, quick=2300)
    rng = chk.rng
    extra = []
    for _ in range(20000 if chk.thorough else 3600):
        inner = ''.join(rng.choice(['(%define a 1)', '(%define b %a)', '(%define (f q) %q %a)', ' text', ' (p :k v)', '(%define x (y z))', '(%define)', '(%for i in (1 2) (%define li %i))', '(%do (%define dd 1))', '(%namespace in (%define x 3))', ' %x', '(%f 2)', ':k v', '(%ifdef a 1 0)', '(%define a (%ifdef a 2 3))']) for _ in range(rng.randrange(6)))
        opt = rng.choice(['', '', '', ':separator - ', ':separator "::" ', ':separator "" ', ':separator (x) ', ':sep x ', ':separator . :separator , '])
        name = rng.choice(['ns', 'ns', '"n s"', '1', '(x)', '%x', 'a', rng.choice(['ns/', '/', 'ns-', '""', '/ns', 'ns//', '"ns/"', '0', 'NS', '&ns', 'ns.', '%nope', '(%do)', '(%string ns /)'])])
        pre2 = ''.join(rng.choice(['(%define x 0)', '(%define a out)', '(%define (f q) old %q)', '']) for _ in range(2))
        probe = ' '.join('(%%ifdef %s (%s %%%s) -)' % (v, v, v) if v[-1] != 'f' else '(%%ifdef %s (%%%s 9) -)' % (v, v) for v in rng.sample(['a', 'b', 'x', 'f', 'ns/a', 'ns/b', 'ns/x', 'ns/f', 'ns-a', 'ns::x', 'nsa', 'ns/in/x', 'ns/li', 'ns/dd', 'ns.a', 'ns,a', 'a/a', '1/a', '0/a', 'ns//a', 'ns//x', 'ns--a', '//x', '/a', '///a', '/ns/a', 'ns///x', 'NS/a', '&ns/a', 'ns./a', 'ns..a'], 9))
        extra.append({'src': '%s(%%namespace %s %s%s) %s' % (pre2, name, opt, inner, probe)})
    run(chk, mix(chk, {'namespace': 5, 'call': 1, 'local': 1, 'var': 1}, 500, defs=0.4), session=True, extra=pre + extra + laws(chk, 'Exports'))


# ------------------------------------------------------------------ C15
FILES = ['inc', 'other', 'lib/util', 'deep', 'same', 'data.txt', 'sub/lib/util', 'bad', 'empty', 'noext', 'v1', 'v1.2', 'inc.old', 'Inc', '.inc', 'l.d/util']
BODIES = ['hello %%v', '(%%define v %d)', '(p %%v)(%%define (fn q) (i %%q %%v))', 'a\n b ; c\n', '(%%ifdef v yes no)(%%define v %d %d)', '', '(%%include other)', '(x (%%include lib/util.sex) y)', '(%%embed "data.txt")',
          'unbalanced (', '%%undefined', '(%%fn 1)', '(%%namespace q (%%define z 1))', '"é→" \\( %d', '(%%lambda (w) <%%w>)', '(%%log file %d)']


def include_worlds(chk, count):
    """Directories with files in them, and documents that include some of these."""
    rng = chk.rng
    for k in range(count):
        root = chk.scratch.sub('w%d' % k, '.')
        root = os.path.dirname(root)
        dirs = ['.', 'd1', 'd2', 'd1/sub', 'noSuchDir'][:rng.choice([1, 3, 5, 5])]
        made = {}
        for d in dirs[:4]:
            for f in FILES:
                if rng.random() < 0.45:
                    ext = '' if f in ('data.txt', 'noext') else rng.choice(['.sex', '.sex', '.sex', '', '.sex.sex'])
                    level = FILES.index(f)
                    while True:
                        b = rng.choice(BODIES)
                        # files only include files that come later, so that there are no cycles
                        if '%%include other' in b and level >= 1 or '%%include lib' in b and level >= 2 or f == 'bad':
                            if f != 'bad' or b == 'unbalanced (':
                                continue
                        break
                    b = b.replace('%d', str(k % 7) + d[-1:].replace('.', '0')) if '%d' in b else b
                    text = ''.join(rng.choice(['', ' ', '\n']) + x for x in [b.replace('%%', '%')] + ([rng.choice(BODIES[:3]).replace('%d', '8').replace('%%', '%')] if rng.random() < .4 else []))
                    if f == 'bad':
                        text = rng.choice(['(', ')', '"', ':k', '(a))'])
                    path = os.path.join(root, d, f + ext)
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    if rng.random() < .1:
                        text = rng.choice([text.replace('\n', '\r\n') + '\r\n', '\ufeff' + text, text.replace(' ', '\t'), text + '\n\n', text + '\r', text.replace('\n', '\r')])
                    with open(path, 'w', newline='') as o:
                        o.write(text)
        for f in rng.sample(FILES, 4):      # a directory of the name that is asked for
            for d in rng.sample(dirs[:4], min(2, len(dirs[:4]))):
                path = os.path.join(root, d, f + rng.choice(['', '', '.sex']))
                if rng.random() < .5 and not os.path.exists(path):
                    os.makedirs(path)
        os.makedirs(os.path.join(root, 'd1', 'noext'), exist_ok=True) if rng.random() < .2 and not os.path.exists(os.path.join(root, 'd1', 'noext')) else None
        yield root


ABS = '/'


def candidates(incs):
    out = []
    for d in ['.'] + incs:
        for f in FILES + ['noSuchFile']:
            for n in (f, f + '.sex', f + '.sex.sex'):
                out.append(n if d == '' else d + n if d.endswith('/') else d + '/' + n)
    return sorted(set(out))


def include_doc(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        name = rng.choice(FILES + ['noSuchFile'])
        name = rng.choice([name, name, name, name + '.sex', name + '.sex', '"' + name + '"', '(%concat ' + name[:2] + ' ' + name[2:] + ')'])
        m = rng.choice(['include', 'include', 'include', 'embed'])
        out.append(rng.choice(['(%%%s %s)', '(p\n  (%%%s %s) x)', '(%%define (g) (%%%s %s))(%%g)', '(%%namespace n (%%%s %s))', '(%%for i in (1 2) (%%%s %s))', '(%%define got (%%%s %s)) %%got', '(%%map (%%lambda (e) (%%%s %s) %%e) 1 2)', '(%%ifdef v (%%%s %s) none)', '(%%%s %s)']) % (m, name))
    out.append(rng.choice(['%v', '(%ifdef v %v none)', '(%fn 3)', '(%ifdef n/v %n/v -)', '(%ifdef fn yes no)', '(%n/fn 4)', '', '']))
    if rng.random() < .4:
        out.insert(0, '(%define v 0)')
    return rng.choice([' ', '\n', '']).join(out)


def C15(chk):
    rng = chk.rng
    root0 = os.path.dirname(chk.scratch.sub('pool', '.'))
    os.makedirs(root0, exist_ok=True)
    for n, t in (('one.sex', ' (%define v 1)\n text %v'), ('two.sex', '(%include one) (%define (fn q) <%q %v>)'), ('broken.sex', '(')):
        open(os.path.join(root0, n), 'w').write(t)
    pool = [('(%include one)', ['v']), ('%v', []), ('(%define v 0)', ['v']), ('(%include two.sex)', ['v', 'fn']), ('(%fn a)', []), ('(p (%include "one"))', ['v']), ('(%include broken)', []), ('(%embed one.sex)', []),
            ('(%define (g) (%include one) %v)', ['g']), ('(%g)', []), ('(%namespace n (%include two))', ['n/v', 'n/fn']), ('(%n/fn b)', []), ('(%include three)', [])]
    pre = sessions(chk, pool, 3, quick=800, cwd=root0, files=['./' + f + e for f in ('one', 'two', 'three', 'broken') for e in ('', '.sex', '.sex.sex')])
    cases = []
    for root in include_worlds(chk, 400 if chk.thorough else 120):
        for _ in range(60 if chk.thorough else 30):
            incs = rng.choice([[], ['d1'], ['d2'], ['d1', 'd2'], ['d2', 'd1'], ['d1/sub', 'd1'], ['noSuchDir', 'd2', 'd1'], ['d2/'], [root + '/d1', 'd2'], ['d1', 'd1/sub', '.'], ['./d2', './d1']])
            cases.append({'src': include_doc(rng), 'cwd': root, 'incs': incs, 'x': {'dirs': ['.'] + incs}, 'files': candidates(incs)})
    run_programs(chk, pre + cases + laws(chk, "Inline"), session=True, places=True)


# ------------------------------------------------------------------ C16
PROBE = ['a', '1', '"s"', '(l m)', '()', ':zz 1', '(%raw r)', '%v', '1.5', 'in', '"%Y"', '-1']
TURNED = ['(%symbol "")', '(%symbol 1)', '(%symbol "a b")', '(%symbol "()")', '(%raw "")', '(%raw 1)', '(%raw)', '(%string 1)', '(%string)', '(%string a)', '(%symbol -1)', '(%raw a)', '(%number 007)', '(%number -0)', '(%number "1e3")', '(%symbol ":k")', '(%list)', '(%list a)', '(%do)', '(%do 1 2)', '(%lambda (q) q)',
          '""', '" "', '" 1"', '"1 "', '"+1"', '"01"', '"1.0"', '"0x1"', '"a"', '"é"', '1e1', '+1', '00', '1.', '.5', '"inf"', 'inf', 'nan', '"nan"', '+', '-', '"-"', '1_0']
VAGUE = {'markdown', 'yaml', 'json', 'toml', 'glob', 'include', 'embed', 'os/env', 'format'}      # where the world knows some values only
OPTIONS = {'sort': [':order ascending', ':order descending', ':order up', ':order (x)', ':key do', ':key list', ':key "do"', ':key 1', ':key nope'],
           'join': [':trailing true', ':trailing false', ':trailing "true"', ':trailing 1', ':trailing (x)'],
           'get': [':separator /', ':separator "."', ':separator (x)'], 'yaml': [':separator .', ':separator (x)'], 'json': [':separator .'], 'toml': [':separator .', ':separator (x)'],
           'markdown': [':separator .', ':only content', ':only frontmatter', ':only x', ':only (x)'],
           'date': [':timezone 1', ':timezone x', ':timezone "1"', ':timezone 2.5', ':timezone -25'], 'timestamp': [':timezone 1', ':timezone x', ':timezone -3.5'],
           'namespace': [':separator .', ':separator (x)', ':separator :x 1'],
           'glob': [':type file', ':type directory', ':type any', ':type x', ':sort name', ':sort modified', ':sort x', ':order ascending', ':order descending', ':order x', ':sort none', ':sort (x)'],
           'apply': [':k 1'], 'map': [':k 1'], 'lambda': [':k 1'], 'for': [':k 1'], 'format': [':x 2', ':x (y)']}
for _m in list(OPTIONS):          # values that are nearly right
    for _o in list(OPTIONS[_m]):
        _k, _v = _o.split(' ', 1)
        if _v.isalpha() and len(_v) > 2:
            OPTIONS[_m] += ['%s %s' % (_k, _w) for _w in (_v.upper(), _v.title(), '"%s "' % _v, _v[:-1], _v + 's', '(%s)' % _v, '(%%string %s)' % _v, '%%%s' % _v)]
ALL = ['define', 'match', 'ifdef', 'do', 'get', 'raw', 'string', 'number', 'symbol', 'include', 'embed', 'namespace', 'markdown', 'yaml', 'json', 'toml', 'glob', 'for', 'sort', 'reverse', 'date', 'timestamp',
       'join', 'concat', 'map', 'filter', 'splat', 'list', 'strip', 'apply', 'lambda', 'log', 'format', 'os/env']
GOOD = {'get': ['0 (a b)', '"k" (:k 1)'], 'sort': ['(b a)'], 'join': ['"," a b', '- 1'], 'date': ['"%Y" 0', '"%H" 86399'], 'timestamp': ['"%Y-%m-%d %H:%M" "2001-02-03 04:05"'], 'for': ['e in (1 2) %e'],
        'ifdef': ['v 1 2', 'q 1'], 'match': ['1 (1 2)'], 'map': ['list 1 2', 'do a'], 'filter': ['do 1 ()'], 'apply': ['list 1 2'], 'lambda': ['(q) %q', 'q'], 'format': ['"{}" 1', '"{x}"'], 'namespace': ['n a', 'n (%define q 1)'],
        'yaml': ['"a: 1"', '"- 1"'], 'json': ["\"[1]\""], 'toml': ['"a = 1"'], 'markdown': ['"# T"', '"p"'], 'glob': ['"nothing/*"', '"*.none"'], 'reverse': ['(1 2)'], 'include': ['file'], 'embed': ['file.sex'], 'os/env': ['SEAM_V', 'SEAM_NONE'],
        'define': ['q 1', '(q r) %r', '(q &a &b)', '(q &&a &&b)', '() 1', '((q)) 1', '(1) 2', '1 2', '"q" 1', 'q']}
S = {'y': 's', 'v': ''}
DOCS = [('yaml', 'a: 1', True, {'y': 'map', 'e': [{'k': 'a', 'v': {'y': 's', 'v': '1'}}]}), ('yaml', '- 1', True, {'y': 'seq', 'e': [{'y': 's', 'v': '1'}]}), ('yaml', '[1]', True, {'y': 'seq', 'e': [{'y': 's', 'v': '1'}]}),
        ('toml', 'a = 1', True, {'y': 'map', 'e': [{'k': 'a', 'v': {'y': 'n', 'v': '1'}}]})]
for _t in ('s', 'r', 'a', 'a: 1', '- 1'):
    if (('yaml', _t) not in [(d[0], d[1]) for d in DOCS]):
        DOCS.append(('yaml', _t, True, {'y': 's', 'v': _t}))
ARGX = {'docs': [{'lang': a, 'text': b, 'ok': c, 'doc': d} for a, b, c, d in DOCS], 'vars': {'SEAM_V': 'value', 'SEAM_E': ''},
        'md': [{'text': t, 'html': h, 'front': {'ok': False, 'lang': 'yaml', 'doc': {'y': 'none'}}} for t, h in
               (('# T', '<h1>T</h1>'), ('p', '<p>p</p>'), ('s', '<p>s</p>'), ('r', '<p>r</p>'), ('%Y', '<p>%Y</p>'), ('- 1', '<ul>\n<li>1</li>\n</ul>'), ('a: 1', '<p>a: 1</p>'), ('', ''))]}


def odd_case(rng, text):
    return text if rng.random() < .85 else rng.choice([text.upper(), text.swapcase(), text.title()]) if '%' not in text else text


def shapes(chk):
    rng = chk.rng
    for m in ALL:
        opts = OPTIONS.get(m, [])
        pool = PROBE + opts
        lists = [t for n in range(3) for t in itertools.product(pool, repeat=n)]
        for t in some(chk, lists, 90):
            yield m, ' '.join(t)
        for o in opts:          # each option at each place of a call that is right
            for g in GOOD.get(m, []):
                bits = gen_exp.split(g)
                for at in range(len(bits) + 1):
                    yield m, ' '.join(bits[:at] + [o] + bits[at:])
        for _ in range(1500 if chk.thorough else 260):
            bits = []
            if rng.random() < 0.8:
                bits += gen_exp.split(rng.choice(GOOD.get(m, ['a', '1 b', '(x)'])))
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                extra = rng.choice(opts if opts and rng.random() < .7 else PROBE)
                bits.insert(rng.randrange(len(bits) + 1), extra if m in VAGUE and extra not in opts else odd_case(rng, extra))
            if bits and m not in VAGUE and rng.random() < .3:
                k = rng.randrange(len(bits))
                bits[k] = (bits[k].split(' ')[0] + ' ' if bits[k][0] == ':' and rng.random() < .7 else '') + rng.choice(TURNED)
            yield m, rng.choice([' ', '\n']).join(bits)


def C16(chk):
    chk.model('MC_Args', 'MC_Args_thorough.cfg' if chk.thorough else 'MC_Args.cfg', 'every short argument list against every kind of argument specification')
    root = os.path.dirname(chk.scratch.sub('args', '.'))
    os.makedirs(root, exist_ok=True)
    open(os.path.join(root, 'file.sex'), 'w').write('in (file)')
    cases, seen = [], set()
    for m, a in shapes(chk):
        if m == 'date' and '"%' in a and len(re.sub(r':\w+ \S+|\(%(do|list|lambda)[^)]*\)( q\))?', '', a).split()) < 2:
            continue        # shows the present time
        if m == 'markdown' and '-1' in a.split():
            continue
        s = '(%%define v 3)(%%define descending ascending)(%%define true false)(%%define file any)(p (%%%s %s))' % (m, a)
        if s not in seen:
            seen.add(s)
            cases.append({'src': s, 'cwd': root, 'x': ARGX, 'files': ['./' + f for f in ('file', 'file.sex')]})
    run_programs(chk, cases, places=True, env={'SEAM_V': 'value', 'SEAM_E': ''})


# ------------------------------------------------------------------ C30
def C30(chk):
    pool = [('(%log a)', []), ('(p (%log b "c d" 1) (%log))', []), ('(%define (f q) (%log in %q) %q)', ['f']), ('(%f (%do (%log arg) 1))', []), ('(%define x (%log def) 2)', ['x']), ('%x %x', []),
            ('(%ifdef x (%log yes) (%log no))', []), ('(%match 1 (2 (%log two)) (1 (%log one)) (_ (%log other)))', []), ('(%for i in (1 2 3) (%log %i))', []), ('(%map f 4 5)', []), ('(%log (%f 6) (p))', []),
            ('(%sort :key (%lambda (e) (%log k %e) %e) (2 1 3))', []), ('(:k (%do (%log v) w))', []), ('(%namespace n (%log ns))', []), ('(%log (%do (%log r) 1) (%do (%log s) 2) (%f (%log t)))', [])]
    pre = sessions(chk, pool, 3, quick=2400)
    run(chk, mix(chk, {'log': 6, 'call': 2, 'for': 1, 'match': 1, 'ifdef': 1, 'map': 1, 'filter': 1, 'namespace': .5, 'sort': .3}, 1800, defs=0.35), session=True, extra=pre + laws(chk, 'Logs'))
