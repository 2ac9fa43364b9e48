"""C21-C26: generating text."""
import itertools
from core import *
import gen_markup, gen_exp, gen_reader
from expand import offsets, NAMELESS


def tags(n):
    if n['t'] == 'l':
        for k in n['k']:
            yield from tags(k)
        if n['k'] and n['k'][0]['t'] == 'y':
            yield n['k'][0]['v'].lower()
    elif n['t'] == 'a':
        yield from tags(n['n'])


def generate(chk, cases, tag='m'):
    """cases: {'src', 'fmt': targets, optional 'files', 'cwd', ...}; the real texts are validated against Markup."""
    hs = []
    for k, c in enumerate(cases):
        h = {kk: c[kk] for kk in ('src', 'incs', 'cwd', 'files', 'path', 'fmt') if kk in c}
        h.update(id=str(k), want=[c.get('want', 'exp')])
        hs.append(h)
    res = run_harness(chk.scratch, hs, tag=tag)
    recs, bad = [], 0
    for c, r in zip(cases, res):
        info = {'src': c['src'], 'targets': c['fmt']}
        if r.get('dead'):
            chk.violate({**info, 'why': 'did not return', 'observed': r})
            continue
        x = r['raw'] if c.get('want') == 'raw' else r['exp']['r']
        if not x['ok']:
            if x.get('cls') == 'panic':
                chk.violate({**info, 'why': 'panic', 'observed': x})
            bad += 1
            continue
        if NAMELESS.search(json.dumps(x)):
            continue                # the name of a lambda is nobody's business
        srcs = {'//': []}
        if any('pre' == t for n in x['tree'] for t in tags(n)):
            srcs[c.get('path') or '<stdin>'] = offsets(c['src'])
            for p, f in (r.get('files') or {}).items():
                if f:
                    srcs[p] = offsets(f['text'])
        for t in c['fmt']:
            o = x['fmt'][t]
            if o.get('cls') == 'panic':
                chk.violate({**info, 'target': t, 'why': 'panic', 'observed': o})
                continue
            recs.append(({'target': t, 'tree': x['tree'], 'ok': o['ok'], 'out': o.get('out', ''), 'p': o.get('p', []), 'srcs': srcs},
                         {**info, 'target': t, 'observed': o}))
    chk.notes['documents'] = chk.notes.get('documents', 0) + len(cases)
    chk.notes['documents_not_expanded'] = chk.notes.get('documents_not_expanded', 0) + bad
    chk.notes['texts_generated'] = chk.notes.get('texts_generated', 0) + sum(r[0]['ok'] for r in recs)
    chk.notes['generation_errors'] = chk.notes.get('generation_errors', 0) + sum(not r[0]['ok'] for r in recs)
    chk.sample(*[r[1]['src'] for r in recs[-5:]])
    chk.validate('Trace_Markup', recs, cfg='Trace_Markup.cfg')


def strange(rng, srcs, share=0.12):
    """Some of the texts again, with odd characters in them, or odd text at their ends."""
    out = []
    for s in srcs:
        r = rng.random()
        if r < share:
            out.append(gen_reader.wild(rng, s))
        elif r < share * 2:
            t = rng.choice(['"a\\n"', '"\\n"', '"a\\n\\n"', '" "', '"\\n a \\n\\n\\n"', '(%raw "\\n\\n")', '(%raw "<b>\\n")', '""', '"\\r\\n"', '\n\n', ' ', '"\\t"', '(%do "x\\n" "\\n")'])
            out.append(s + rng.choice(['', ' ', '\n']) + t if rng.random() < .8 else t + s)
    return out


def amount(chk, n):
    return n * (10 if chk.thorough else 3)


def plain(chk, target, n):
    """Any tree at all, most of which the target refuses."""
    return [{'src': s, 'fmt': target} for s in gen_reader.texts(chk.rng, n) if '%' not in s]


def C21(chk):
    rng = chk.rng
    chk.laws('MC_Markup', 'every small tree as HTML and XML, item by item: what is open is what remains to be closed; text and attributes decode to what was given')
    small = list(gen_markup.small(['(p', ')', ' x', '(br', '\n', '"<"', ' :k', ' '], 5))
    srcs = [s for s in small if s.count('(') == s.count(')')]
    srcs = srcs if chk.thorough else [s for s in srcs if rng.random() < 0.6]
    n = amount(chk, 2200)
    srcs += [gen_markup.Gen(rng, 'html', wrong=rng.choice([0, 0.01, 0.06])).doc(rng.choice([1, 2, 3, 4])) for _ in range(n)]
    srcs += strange(rng, srcs)
    generate(chk, [{'src': s, 'fmt': ['html']} for s in srcs] + plain(chk, ['html'], n // 10))


def C22(chk):
    rng = chk.rng
    chk.laws('MC_Document', 'every page of a few parts: each part added once if it is lacking, in order; the rest inside of the body')
    parts = ['(!doctype html)', '(html)', '(head)', '(body)', 'x', '(html (head) (body))', '(p (head))', '(p (body))', '(p :k (head))', '(head (title t))\n', '(body x)', '(section (p (body)))']
    srcs = [' '.join(t) for n in range(4) for t in itertools.product(parts, repeat=n)]
    srcs += [''.join(t) for t in itertools.permutations(parts, 3)]
    srcs = srcs if chk.thorough else [s for s in srcs if rng.random() < 0.7]
    srcs += [gen_markup.Gen(rng, 'html', wrong=rng.choice([0, 0, 0.02])).page() for _ in range(amount(chk, 1300))]
    srcs += strange(rng, srcs)
    generate(chk, [{'src': s, 'fmt': ['html!', 'html']} for s in srcs])


def C23(chk):
    rng = chk.rng
    chk.laws('MC_Markup', 'every small tree as HTML and XML, item by item: what is open is what remains to be closed; text and attributes decode to what was given')
    small = [s for s in gen_markup.small(['(p', ')', ' x', '(?xml', '\n', '"<"', ' :k', ' ', '(!d'], 5) if s.count('(') == s.count(')')]
    srcs = small if chk.thorough else [s for s in small if rng.random() < 0.3]
    n = amount(chk, 1800)
    for _ in range(n):
        g = gen_markup.Gen(rng, 'xml', wrong=rng.choice([0, 0.01, 0.06]))
        srcs.append(rng.choice(['', '', '(?xml :version 1.0)', '(?XML)\n', '(?xml-model x)', '("?xml")', ' (?xml)', '(%do (?xml))', 'x (?xml)', '(?xml :version "1.1" :standalone yes)']) + g.doc(rng.choice([1, 2, 3, 4])))
    srcs += strange(rng, srcs)
    generate(chk, [{'src': s, 'fmt': ['xml', 'xml!']} for s in srcs] + plain(chk, ['xml'], n // 10))


def C24(chk):
    rng = chk.rng
    chk.laws('MC_Css', 'every rule of a few parts: braces and parentheses balance at each step, words in order, errors exactly where there is no rule')
    small = [s for s in gen_markup.small(['(p', ')', ' :k', ' v', '(@media', '\n', ' (calc', ' "a b"', '(@import'], 5) if s.count('(') == s.count(')')]
    srcs = small if chk.thorough else [s for s in small if rng.random() < 0.6]
    n = amount(chk, 2500)
    srcs += [gen_markup.Css(rng, wrong=rng.choice([0, 0.02, 0.08])).doc() for _ in range(n)]
    srcs += strange(rng, srcs)
    generate(chk, [{'src': s, 'fmt': ['css', 'css!']} for s in srcs] + plain(chk, ['css'], n // 10))


def C25(chk):
    rng = chk.rng
    chk.laws('MC_Sexp', 'every short text that can be read: its tree written and read again is the same; plain text keeps it')
    n = amount(chk, 1500)
    cases = [{'src': s, 'fmt': ['sexp', 'text'], 'want': 'raw'} for s in gen_markup.small('a(): "\\n\n', 4) if rng.random() < (1 if chk.thorough else 0.8)]
    cases += [{'src': s, 'fmt': ['sexp', 'text', 'sexp!', 'text!'], 'want': 'raw'} for s in gen_reader.texts(rng, n)]
    cases += [{'src': s, 'fmt': ['sexp', 'text']} for s in gen_exp.programs(rng, n // 2, {'*': 1}, fail=0)]
    cases += [{'src': ' '.join(rng.choice(gen_markup.STRINGS + ['(%%raw %s)' % s for s in gen_markup.STRINGS]) for _ in range(4)), 'fmt': ['sexp', 'text']} for _ in range(n // 10)]
    generate(chk, cases)
    roundtrip(chk, cases)


def roundtrip(chk, cases):
    """What the real formatter writes, the real reader reads as the same tree (validated by Reader and Markup above; here composed for real)."""
    first = run_harness(chk.scratch, [{'id': '', 'src': c['src'], 'want': [c.get('want', 'exp')], 'fmt': ['sexp']} for c in cases], tag='r1')
    todo = []
    for c, r in zip(cases, first):
        x = r.get('raw') if c.get('want') == 'raw' else r.get('exp', {}).get('r', {'ok': False})
        if x and x['ok'] and x['fmt']['sexp']['ok'] and not NAMELESS.search(x['fmt']['sexp']['out']):
            todo.append((c['src'], x['tree'], x['fmt']['sexp']['out']))
    second = run_harness(chk.scratch, [{'id': '', 'src': t[2], 'want': ['parse']} for t in todo], tag='r2')
    recs = [({'tree': t[1], 'text': t[2], 'ok': r['parse']['ok'], 'back': r['parse'].get('tree', [])}, {'src': t[0], 'written': t[2], 'observed': r, 'why': 'does not read back'})
            for t, r in zip(todo, second)]
    chk.notes['round_trips'] = len(recs)
    chk.validate('Trace_Sexp', recs)


def C26(chk):
    rng = chk.rng
    chk.laws('MC_Css', 'every rule of a few parts inside of a style element: the text it has outside')
    chk.laws('MC_Sexp', 'every short text inside of script and title: S-expression and plain text, unescaped')
    cases = []
    n = amount(chk, 2200)
    for _ in range(n):
        g = gen_markup.Gen(rng, 'html', wrong=rng.choice([0, 0.01, 0.05]), macros=rng.choice([0, 0.1, 0.2]))
        s = g.join([g.special(rng.choice([1, 2, 3])) if rng.random() < 0.8 else g.node(2) for _ in range(rng.choice([1, 1, 2, 3]))])
        if rng.random() < 0.3:
            s = g.elem(rng.choice(['div', 'head', 'body', 'svg', 'p']), [s])
        if rng.random() < 0.2:
            s = '(%define v (p v))(%define (f a) %a (pre f %a))' + s + rng.choice(['(pre %v x)', '(pre x %v)', '(pre (%f 1) x)', '(%f 1)', '(pre (%do  x) y)', '(%f\n  1)', '(div (%f (pre  z)))', '(pre (%raw "x") y)'])
        cases.append({'src': s, 'fmt': ['html']})
    cases += [{'src': s, 'fmt': ['html']} for s in strange(rng, [c['src'] for c in cases])]
    d = chk.scratch.sub('inc', 'x')[:-2]
    inner = {'a.sm': '(pre  one\n  two ; c\n) tail', 'b.sm': 'x (style (p :c d)) (%define (g q) (pre "é" %q))', 'c.sm': 'plain\n'}
    for p, t in inner.items():
        open(os.path.join(d, p), 'w').write(t)
    outer = ['(%include "a.sm")', '(div (%include "a.sm"))', '(pre (%include "a.sm"))', '(pre x (%include "c.sm"))', '(pre (%include "c.sm") x)', '(%include "b.sm")(%g 1)', '(%include "b.sm")(pre (%g 1))',
             '(pre\n  (%include "c.sm"))', '(%include "b.sm")(%g (pre  z))', '(pre)', '(pre )', '(pre\n)', '(pre ;c\n)', '(pre :k v  x  )', '(pre "é  " (b  c) ; x\n  d)']
    cases += [{'src': s, 'fmt': ['html', 'html!'], 'cwd': d, 'files': ['./' + f for f in sorted(inner)]} for s in outer]
    generate(chk, cases)
