"""C32-C34: the library as a program that uses it sees it."""
import itertools
from core import *
import gen_reader, gen_markup, gen_exp
import props_expand
from expand import NAMELESS, offsets, world
from props_reader import flat
from props_markup import tags, strange

ATOMS = ['a', 'A', 'b', 'head', 'Head', 'HEAD', 'é', 'É', 'ß', 'ẞ', 'İ', 'ı', 'Σ', 'σ', 'ς', 'ΑΣ', 'k', 'K', '→', 'div', 'p', 'P', 'x-y', '\\(', 'a\\;b', '+', '-',
         '1', '01', '+1', '-1', '1.0', '-0', '0', '00', '-007', '1e5', '.5', '5.', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809',
         '+9223372036854775807', '09223372036854775807', '99999999999999999999', '18446744073709551616', '18446744073709551615', '-2147483648', '-2147483649', '4294967295', '4294967296', '+0', '2147483647', '2147483648', '1.5e', '+-1', '--1', '1-', '12a', 'inf', 'NaN', '1_000', '0x10',
         '"a"', '"A"', '"head"', '"1"', '""', '" "', '"É"', '"a b"', '"\\""', '"\\\\"', '"\\n"', '"\\0"', '"\\t\\r"', '"\\x7f"', '"\\u{301}"', '"😀"', '"a\\u{200b}"', '"()"', '"""a"b"""',
         '(%raw "a")', '(%raw "1")', '(%raw "")', '(%raw "<b>\\n")', '(%raw "É")']
KEYS = ['a', 'A', 'k', 'K', 'É', 'é', 'head', '1', '', 'x-y', 'Σ']
GAPS = ['', ' ', ' ', '\n', '  ', '\t', ' ;c\n', '\r\n']


def form(rng, depth, pool):
    r = rng.random()
    if pool and r < 0.25:
        return rng.choice(pool)
    if depth > 0 and r < 0.65:
        out = '(' + ''.join((rng.choice(GAPS[:2]) if j == 0 else rng.choice(GAPS[1:])) + form(rng, depth - 1, pool) for j in range(rng.choice([0, 1, 1, 2, 3]))) + rng.choice(['', '', ' ', '\n']) + ')'
    elif depth > 0 and r < 0.78:
        out = ':' + rng.choice(KEYS) + rng.choice([' ', '\n', '  ']) + form(rng, depth - 1, pool)
    else:
        out = rng.choice(ATOMS)
    pool.append(out)
    return out


def again(rng, s):
    """The same, as far as equality goes, or nearly so."""
    r = rng.random()
    if r < 0.35:
        return s
    if r < 0.7 and '"' not in s and ';' not in s and '\\' not in s:
        return re.sub(r'\s+', lambda m: rng.choice([' ', '\n', '  ', '\t']), s)
    if r < 0.8:
        return s.swapcase() if '\\' not in s and '%' not in s else s
    if r < 0.9 and s.startswith('(') and not s.startswith('(%') and '"' not in s:
        return '(' + rng.choice(['()', 'a', ':k 1']) + ' ' + s[1:]
    return '(' + s + ')'


VALUES = sorted({a.strip('"') for a in ATOMS if '\\' not in a and '%' not in a} | set(KEYS) | {'(', 'a;b', 'zz', 'div ', ' div', '%raw', '', 'ss', 'i', 'ΑΣ', 'ας', 'ασ', 'i̇', '%x', 'hea'})


def find(rng, words, size):
    v = rng.choice(words) if words and rng.random() < .6 else rng.choice(VALUES)
    if rng.random() < .35:
        v = rng.choice([v.lower(), v.upper(), v.swapcase(), v.title()])
    return {'kind': rng.choice(['head', 'member', 'symbol', 'number', 'string', 'attribute', 'any', 'any']), 'value': v, 'any': rng.choice(['yes', 'no']),
            'level': rng.choice(['0', '1', '1', '2', '2', '3', '4', '5', 'max', 'max']), 'from': str(rng.choice([0, 0, 0, rng.randrange(1, size + 2)]))}


def nodes(tree):
    for n in tree:
        yield n
        yield from nodes(n['k'] if n['t'] == 'l' else [n['n']] if n['t'] == 'a' else [])


def run_trees(chk, srcs, count):
    rng = chk.rng
    cases = []
    for k, s in enumerate(srcs):
        words = re.findall(r'[^\s()":;\\]+', s)
        cases.append({'id': str(k), 'src': s, 'want': ['trees'], 'finds': [find(rng, words, 12) for _ in range(count)]})
    recs, equal, hits = [], 0, 0
    for c, r in zip(cases, run_harness(chk.scratch, cases, tag='trees')):
        info = {'src': c['src'], 'finds': c['finds'], 'observed': r if len(json.dumps(r)) < 5000 else '-'}
        x = r.get('trees')
        if r.get('dead') or x.get('cls') == 'panic':
            chk.violate({**info, 'why': 'did not return', 'observed': r})
            continue
        if not x['ok'] or NAMELESS.search(json.dumps(x)):
            continue
        all = list(nodes(x['tree']))
        if len(all) > 60:
            continue
        qs = [{'kind': q['kind'], 'value': q['value'], 'any': q['any'] == 'yes', 'level': 99 if q['level'] == 'max' else int(q['level']), 'from': int(q['from'])} for q in c['finds']]
        words = {n['v'] for n in all if 'v' in n} | {q['value'] for q in qs}
        rec = {f: x[f] for f in ('tree', 'facts', 'same', 'hash', 'copy', 'found')}
        rec.update(finds=qs, low=[[w, w.lower()] for w in sorted(words)])
        equal += sum(len(g) > 1 for g in x['same'])
        hits += sum(f > 0 for f in x['found'])
        recs.append((rec, info))
    chk.notes['trees'] = chk.notes.get('trees', 0) + len(recs)
    chk.notes['nodes_equal_to_others'] = chk.notes.get('nodes_equal_to_others', 0) + equal
    chk.notes['searches'] = chk.notes.get('searches', 0) + len(recs) * count
    chk.notes['searches_that_find'] = chk.notes.get('searches_that_find', 0) + hits
    chk.sample(*[r[1]['src'] for r in recs[-5:]])
    chk.validate('Trace_Trees', recs)


def C32(chk):
    rng = chk.rng
    chk.laws('MC_Trees', 'every pair of small trees: equality is an equivalence of what is printed without places; searches find the first that matches, and nothing deeper than allowed')
    srcs = [s for s in gen_markup.small(['(', ')', 'a', ' ', ':a ', '1', '"a"', 'A'], 5) if s.count('(') == s.count(')')]
    srcs = [s for s in srcs if len(s) < 4 or rng.random() < (1 if chk.thorough else 0.12)]
    for _ in range(20000 if chk.thorough else 3000):
        pool = []
        parts = [form(rng, rng.choice([0, 1, 2, 3]), pool) for _ in range(rng.choice([1, 1, 2, 3]))]
        parts += [again(rng, rng.choice(pool)) for _ in range(rng.choice([0, 1, 1, 2]))]
        rng.shuffle(parts)
        srcs.append(''.join(rng.choice(GAPS[1:]) + p for p in parts))
    srcs += list(gen_reader.texts(rng, 4000 if chk.thorough else 500))
    srcs += [gen_markup.Gen(rng, 'html').doc(rng.choice([1, 2])) for _ in range(2000 if chk.thorough else 300)]
    srcs += list(gen_exp.programs(rng, 2000 if chk.thorough else 300, {'*': 1}, fail=0))
    run_trees(chk, srcs, 8)


# ---------------------------------------------------------------------------------------------
def ops(rng, what):
    n = rng.choice([3, 6, 10, 16, 30])
    out = []
    for _ in range(n):
        if what == 'lexers':
            o = rng.choice(['consume'] * 6 + ['peek'] * 4 + ['eof', 'eof', 'restore', 'restore', 'clone', 'switch', 'switch', 'source'])
        else:
            o = rng.choice(['expr'] * 7 + ['rest', 'clone', 'clone', 'switch', 'switch', 'source'])
        op = {'op': o}
        if o in ('restore', 'switch'):
            op['k'] = str(rng.choice([0, 1, 1, 2, 3, 5]))
        out.append(op)
    return out


def outcome(what, o, src):
    """An output of the harness, as the specification has them."""
    tok = lambda t: {'t': t['t'], 'v': t['v'], 'w': t['w'], 'p': t['p'][1:]}
    one = lambda x: {'o': 'error', 'v': x['err']['p'][1:]} if 'err' in x else {'o': 'token', 'v': tok(x)}
    if o is None:
        return {'o': 'none', 'v': ''}
    if o is True or o is False:
        return {'o': 'yes' if o else 'no', 'v': ''}
    if isinstance(o, str):
        return {'o': 'source' if o == src else 'another source', 'v': ''}
    if isinstance(o, list):
        return {'o': 'tokens', 'v': [one(x) for x in o]}
    if 'ok' in o:
        return {'o': 'tree', 'v': flat(o['tree'])} if o['ok'] else {'o': 'error', 'v': o['p'][1:]}
    return one(o)


def coded(src):
    return [[c, len(c.encode('utf8')), cwidth(c), ord(c)] for c in src]


def run_readers(chk, what, srcs):
    rng = chk.rng
    cases = [{'id': str(k), 'src': s, 'want': [what], 'ops': ops(rng, what)} for k, s in enumerate(srcs)]
    recs, done = [], 0
    for c, r in zip(cases, run_harness(chk.scratch, cases, tag=what)):
        info = {'src': c['src'], 'ops': c['ops'], 'observed': r if len(json.dumps(r)) < 5000 else '-'}
        x = r.get(what)
        if r.get('dead') or not isinstance(x, list):
            chk.violate({**info, 'why': 'did not return', 'observed': r})
            continue
        recs.append(({'what': what, 'src': coded(c['src']), 'ops': [{'op': o['op'], 'k': int(o.get('k', 0))} for o in c['ops']], 'outs': [outcome(what, o, c['src']) for o in x], 'pieces': []}, info))
        done += len(x)
    chk.notes[what] = len(recs)
    chk.notes['operations_on_' + what] = done
    chk.validate('Trace_Stream', recs)


def pieces(rng, data):
    """The same bytes, cut anywhere, with interruptions, and sometimes a fault."""
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.choice([0, 1, 2, 4, 8, len(data)])))
    if rng.random() < .15:
        cuts = list(range(len(data) + 1))
    out = []
    for a, b in zip([0] + cuts, cuts + [len(data)]):
        if rng.random() < .15:
            out.append({'kind': 'interrupted', 'bytes': []})
        out.append({'kind': 'bytes', 'bytes': list(data[a:b])})
    if rng.random() < .12:
        out.insert(rng.randrange(len(out) + 1), {'kind': 'broken', 'bytes': []})
    return out


BAD = [b'\xff', b'\x80', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x98', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe9', b'\xfe\xff', b'\xc3(']


def run_feeds(chk, srcs):
    rng = chk.rng
    cases, texts = [], []
    d = chk.scratch.sub('feed', 'x')[:-2]
    for k, s in enumerate(srcs):
        data = s.encode('utf8')
        if rng.random() < .1:
            j = rng.randrange(len(data) + 1)
            data = data[:j] + rng.choice(BAD) + data[j:]
        if rng.random() < .05 and data:
            data = data[:-1]
        ps = pieces(rng, data)
        cases.append({'id': str(k), 'src': '', 'want': ['feeds'], 'file': os.path.join(d, 'f%d' % k), 'pieces': [{'kind': p['kind'], 'bytes': [str(b) for b in p['bytes']]} for p in ps]})
        texts.append((data, ps))
    recs, faults = [], 0
    for k, (c, (data, ps), r) in enumerate(zip(cases, texts, run_harness(chk.scratch, cases, tag='feeds'))):
        try:
            text = data.decode('utf8')
        except UnicodeDecodeError:
            text = None
        info = {'src': repr(data), 'pieces': ps, 'observed': r if len(json.dumps(r)) < 5000 else '-'}
        x = r.get('feeds')
        if r.get('dead') or not isinstance(x, list) or any(o.get('cls') == 'panic' or o.get('r', {}).get('cls') == 'panic' for o in x):
            chk.violate({**info, 'why': 'did not return', 'observed': r})
            continue
        names = ['<stdin>', c['file'], '<stdin>', c['file'], c['file']] if text is not None else ['<stdin>', c['file'], c['file']]
        outs = []
        for name, o in zip(names, x):
            if not o['read']:
                outs.append({'read': False, 'source': False, 'name': False, 'ok': False, 'tree': [], 'p': []})
                continue
            t = o['r']
            places = [t['p']] if not t['ok'] else [n['p'] for n in nodes(t['tree'])] + [n['q'] for n in nodes(t['tree']) if n['t'] == 'l']
            outs.append({'read': True, 'source': o['source'] == text, 'name': all(p[0] == name for p in places), 'ok': t['ok'],
                         'tree': flat(t['tree']) if t['ok'] else [], 'p': [] if t['ok'] else t['p'][1:]})
        if len(x) != len(names):
            chk.violate({**info, 'why': 'cannot be read at all'})
            continue
        faults += not outs[0]['read']
        recs.append(({'what': 'feed', 'src': coded(text) if text is not None else [], 'ops': [], 'pieces': ps, 'outs': outs}, info))
    chk.notes['texts_in_pieces'] = len(recs)
    chk.notes['texts_in_pieces_refused'] = faults
    chk.validate('Trace_Stream', recs)


def C33(chk):
    rng = chk.rng
    chk.laws('MC_Stream', 'every short text and every few operations on readers of it and their copies: what is seen ahead is what comes, in order, once each; text cut into pieces decodes to the same')
    alpha = 'a:()"\\; \n'
    small = [s for s in gen_reader.exhaustive(4, alpha) if len(s) < 3 or rng.random() < (1 if chk.thorough else 0.12)]
    big = 12000 if chk.thorough else 1500
    for what in ('lexers', 'parsers'):
        run_readers(chk, what, small + list(gen_reader.texts(rng, big)))
    srcs = [s for s in gen_reader.texts(rng, big * 2) if '%' not in s and len(s) < 700]
    srcs += [''.join(rng.choice(['é', '中', '😀', 'a', ' ', '(', ')', '"', '\n', '\ufeff', '→', '\r\n']) for _ in range(rng.choice([0, 1, 3, 8]))) for _ in range(big)]
    run_feeds(chk, srcs)


# ---------------------------------------------------------------------------------------------
TARGETS = ['html', 'xml', 'css', 'sexp', 'text']


def run_writers(chk, cases):
    rng = chk.rng
    for k, c in enumerate(cases):
        c.update(id=str(k), want=['writers'], rooms=[str(n) + rng.choice(['', '!']) for n in rng.sample(range(12), 3) + [rng.randrange(12, 40), rng.randrange(40, 200)]] + [str(n) + '!' for n in rng.sample(range(1, 60), 4)] + ['max'])
    recs, cut = [], 0
    for c, r in zip(cases, run_harness(chk.scratch, cases, tag='writers')):
        info = {'src': c['src'], 'rooms': c['rooms'], 'targets': c['fmt']}
        x = r.get('writers')
        if r.get('dead') or x.get('cls') == 'panic':
            chk.violate({**info, 'why': 'did not return', 'observed': r})
            continue
        if not x['ok'] or NAMELESS.search(json.dumps(x)):
            continue
        srcs = {'//': []}
        if any('pre' == t for n in x['tree'] for t in tags(n)):
            srcs['<stdin>'] = offsets(c['src'])
        for t, o in x['ways'].items():
            if 'display' not in o:
                chk.violate({**info, 'target': t, 'why': 'panic', 'observed': o})
                continue
            end = lambda g: {'ok': g['ok'], 'out': g['out'], 'p': g.get('p', [])}
            rec = {'target': t, 'tree': x['tree'], 'srcs': srcs, 'display': end(o['display']), 'document': end(o['document']), 'left': end(o['left']), 'shown': end(o['shown']),
                   'again': [end(g) for g in o['again']], 'whole': [end(g) for g in o['whole']],
                   'short': [{'room': -1 if n == 'max' else int(n.rstrip('!')), 'ok': g['ok'], 'out': g['out']} for n, g in zip(c['rooms'], o['short'])]}
            cut += sum(not g['ok'] for g in o['short'])
            recs.append((rec, {**info, 'target': t, 'observed': o if len(json.dumps(o)) < 5000 else '-'}))
    chk.notes['generations'] = len(recs)
    chk.notes['cut_short_or_refused'] = cut
    chk.sample(*[r[1]['src'] for r in recs[-5:]])
    chk.validate('Trace_Writer', recs)


def C34(chk):
    rng = chk.rng
    chk.laws('MC_Writer', 'every small tree in every format into every amount of room: a beginning of the whole, all of it exactly if there is room, else an error; documents hold what is displayed')
    n = 8000 if chk.thorough else 800
    cases = [{'src': s, 'fmt': TARGETS} for s in gen_markup.small(['(p', ')', ' x', '(br', '\n', '"<"', ' :k', '(%raw "&")'], 4) if s.count('(') == s.count(')') and (chk.thorough or rng.random() < .35)]
    srcs = [gen_markup.Gen(rng, 'html', wrong=rng.choice([0, 0.01, 0.05])).doc(rng.choice([1, 2, 3])) for _ in range(n)]
    srcs += [gen_markup.Gen(rng, 'html', wrong=0).page() for _ in range(n // 3)]
    srcs += strange(rng, srcs)
    cases += [{'src': s, 'fmt': ['html', rng.choice(TARGETS[1:])]} for s in srcs]
    cases += [{'src': gen_markup.Gen(rng, 'xml', wrong=rng.choice([0, 0.01])).doc(rng.choice([1, 2, 3])), 'fmt': ['xml', 'text']} for _ in range(n // 2)]
    cases += [{'src': s, 'fmt': ['css', 'sexp']} for s in [gen_markup.Css(rng, wrong=rng.choice([0, 0.03])).doc() for _ in range(n // 2)]]
    for _ in range(n // 2):
        g = gen_markup.Gen(rng, 'html', wrong=rng.choice([0, 0.01]), macros=0.1)
        cases.append({'src': g.join([g.special(rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2]))]), 'fmt': ['html']})
    run_writers(chk, cases)


# ---------------------------------------------------------------------------------------------
def step_ops(rng, count, dirs, files=(), texts=None):
    out = []
    plan = ['node'] * 6 + ['nodes'] * 3 + ['all', 'clone', 'clone', 'switch', 'switch', 'switch', 'drop'] + ['include'] * (2 if dirs else 0) + ['write', 'write', 'write', 'remove'] * bool(files)
    there = set()
    script = []
    if files:               # few places, so that what is written is looked for
        dirs = rng.sample(dirs, rng.choice([1, 2]))
        files = [f for f in files if f.rsplit('/', 1)[0] in dirs + ['.'] * (rng.random() < .3)] or files
        for _ in range(rng.choice([1, 2, 3])):
            s = ['include', 'clone', 'write', 'switch', 'node', 'nodes']
            if rng.random() < .7:
                rng.shuffle(s)
            script += s
    todo = ['first'] * min(count, rng.choice([0, 1, 2, 5, 9])) if rng.random() < .6 else []             # mostly in order, first
    todo += [rng.choice(plan) for _ in range(rng.choice([3, 6, 10, 16]))]
    if script and rng.random() < .7:
        todo = script + [t for t in todo[:9] if t != 'first']
    live, cur, pinned, made = [0], 0, set(), 1
    for k, o in enumerate(todo):
        op = {'op': o, 'ks': [], 'dirs': [], 'k': 0}
        if o == 'write':
            op.update(path=rng.choice(sorted(there) if there and rng.random() < .4 else files), text=rng.choice(texts or WRITTEN))
            if '/y' in op['path'] and 'include' in op['text']:          # a file that includes itself
                op['text'] = 'two'
            there.add(op['path'])
            parts = [p for p in op['path'].split('/') if p != '.']
            op['found'] = [{'path': '/'.join(parts[:k + 1]), 'parts': parts[:k + 1], 'kind': 'file' if k + 1 == len(parts) else 'dir', 'age': 0, 'born': 0} for k in range(len(parts))]
        elif o == 'remove':
            if not there:
                continue
            op['path'] = rng.choice(sorted(there))
            op['gone'] = op['path'].removeprefix('./')
            there.remove(op['path'])
        elif o == 'first':
            op.update(op='node', ks=[k])
        elif o in ('node', 'nodes') and count:
            op['ks'] = [rng.randrange(count) for _ in range(1 if o == 'node' else rng.choice([0, 1, 2, 3, 4]))]
        elif o in ('node', 'all'):
            op['op'] = 'all'
            pinned.add(cur)                     # what expand yields lives no longer than its builder
        elif o == 'clone':
            live.append(made)
            made += 1
        elif o == 'switch':
            op['k'] = cur = rng.choice(live)
        elif o == 'drop':
            may = [b for b in live if b != cur and b not in pinned]
            if not may:
                continue
            op['k'] = rng.choice(may)
            live.remove(op['k'])
        elif o == 'include':
            op['dirs'] = [rng.choice(dirs) for _ in range(rng.choice([0, 1, 1, 2]))]
        out.append(op)
    return out


def run_steps(chk, cases):
    heads = run_harness(chk.scratch, [{'id': str(k), 'src': c['src'], 'want': ['parse']} for k, c in enumerate(cases)], tag='heads')
    todo = []
    for c, h in zip(cases, heads):
        if h.get('dead') or not h['parse']['ok'] or len(h['parse']['tree']) > 30:
            continue
        ops = step_ops(chk.rng, len(h['parse']['tree']), c.get('may', []), c.get('write', ()), c.get('texts'))
        todo.append({**c, 'id': str(len(todo)), 'want': ['steps'], 'ops': [{**o, 'ks': [str(k) for k in o['ks']], 'k': str(o['k'])} for o in ops], 'plain': ops})
    recs, done, failed = [], 0, 0
    send = [{k: c[k] for k in ('id', 'src', 'want', 'ops', 'cwd', 'files') if k in c} for c in todo]
    for c, r in zip(todo, run_harness(chk.scratch, send, tag='steps', watched=True)):
        info = {'src': c['src'], 'ops': c['plain'], 'observed': r if len(json.dumps(r)) < 5000 else '-'}
        x = r.get('steps')
        if r.get('dead') or not x['ok'] or any(o['r'].get('cls') == 'panic' for o in x['outs']):
            chk.violate({**info, 'why': 'did not return', 'observed': r if r.get('dead') else '-'})
            continue
        if any(not o['r'].get('source', True) for o in x['outs']):
            chk.violate({**info, 'why': 'the source is not the one given'})
            continue
        if NAMELESS.search(json.dumps(x)):
            continue
        outs = [{'ok': o['r']['ok'], 'out': o['r']['tree'] if o['r']['ok'] else [], 'log': o['log'], 'kept': o['kept']} for o in x['outs']]
        ops = [{**o, 'ks': [k + 1 for k in o['ks']]} for o in c['plain']]
        for o, y in zip(ops, x['outs']):
            if o['op'] == 'write':
                f = y['r']['file']
                o['file'] = {'text': o['text'], 'ok': f['ok'], 'tree': f['tree'] if f['ok'] else []}
        recs.append(({'forms': x['tree'], 'x': world(c, r), 'ops': ops, 'outs': outs}, info))
        done += len(outs)
        failed += sum(not o['ok'] for o in outs)
    chk.notes['histories_of_builders'] = chk.notes.get('histories_of_builders', 0) + len(recs)
    chk.notes['operations_on_builders'] = chk.notes.get('operations_on_builders', 0) + done
    chk.notes['operations_that_fail'] = chk.notes.get('operations_that_fail', 0) + failed
    chk.sample(*[r[1]['src'] for r in recs[-5:]])
    chk.validate('Trace_Steps', recs)


WRITTEN = ['one', 'two', 'six', '(%define v 1)', '(%define v 3)', 'a\r\n  b\r\n', '(%define v 1) %v\n', '(%define v 2) %v\n', ' (%define v two)\n%v', '(%define (f x) (got %x))', '(%include y)', '(p q) "r"', '(', '', '%v', '(%ifdef v %v none)', '(%log read) text', '(%define v "\\n")']
LATER = ['(%glob "*" :sort name)', '(%glob "**/*.sex" :sort type)', '(%glob "d1/*" :sort name :order descending)', '(%glob "*" :sort type :type directory)', '(%glob x.sex)', '(%glob "new/**/x*" :sort name :type file)',
         '(%include x)', '(%embed x.sex) again (%embed x.sex)', '(%embed y.sex)', '(%include y)', '(%include x.sex)', '(%embed x.sex)', '%v', '(%f 1)', '(%ifdef v (had %v) (had nothing))', '(%define v 0)', '(%define (g) (%include x))', '(%g)', '(%namespace n (%include x))', '(%ifdef n/v %n/v -)', '(p (%include x) :k (%include y))', '(%map f (1 2))', '(%define (f x) (%do %x (%include x)))']
STEPS = ['(%include one)', '%v', '(%define v 0)', '(%define (f a) <%a %v>)', '(%f 1)', '(%ifdef v %v none)', '(%namespace n (%define v 2))', '(%map f (1 2) %nope)']


def C35(chk):
    rng = chk.rng
    root = os.path.dirname(chk.scratch.sub('steps', 'd', '.'))
    root = os.path.dirname(root)
    open(os.path.join(root, 'one.sex'), 'w').write('(%define v 1) text')
    os.makedirs(os.path.join(root, 'd'), exist_ok=True)
    open(os.path.join(root, 'd', 'two.sex'), 'w').write('(%define w 2)')
    heads = run_harness(chk.scratch, [{'id': str(k), 'src': s, 'want': ['parse'], 'cwd': root, 'files': ['./one.sex', 'd/two.sex']} for k, s in enumerate(STEPS)], tag='pool')
    heads = [h for h in heads if not h.get('dead') and h['parse']['ok']]
    forms, w = chk.scratch.sub('forms.ndjson'), chk.scratch.sub('world.json')
    with open(forms, 'w') as f:
        f.write(''.join(json.dumps({'tree': h['parse']['tree']}) + '\n' for h in heads))
    with open(w, 'w') as f:
        json.dump(world({}, heads[0]), f)
    chk.model('MC_Steps', 'MC_Steps.cfg', 'every history of a few operations on builders and their copies: the pieces in order are the whole, copies do not affect each other, nothing defined is lost',
              env={'FORMS': forms, 'WORLD': w, 'BOUND': '4' if chk.thorough else '3'})
    n = 20000 if chk.thorough else 3000
    cases = []
    for k in range(n):
        weights = rng.choice([{'*': 1}, {'define': 4, 'ifdef': 3, 'call': 5, 'namespace': 2, '*': .3}, {'log': 4, 'define': 2, '*': 1}])
        for s in gen_exp.programs(rng, 1, weights, **({'fail': 0} if rng.random() < .5 else {})):
            if rng.random() < .15:
                s = gen_exp.damage(rng, s)
            if not gen_exp.recursive(s):
                cases.append({'src': s})
    for root in props_expand.include_worlds(chk, 300 if chk.thorough else 80):
        for _ in range(14):
            src = ' '.join(props_expand.include_doc(rng) for _ in range(rng.choice([1, 1, 2])))
            cases.append({'src': src, 'cwd': root, 'may': ['d1', 'd2', 'd1/sub', 'noSuchDir', './d2'], 'files': props_expand.candidates(['d1', 'd2', 'd1/sub', 'noSuchDir', './d2'])})
    for k in range(1500 if chk.thorough else 300):          # directories that are added, files that come and go
        root = os.path.dirname(chk.scratch.sub('later%d' % k, '.'))
        os.makedirs(root, exist_ok=True)
        src = '\n'.join(rng.choice(LATER) for _ in range(rng.choice([2, 4, 6])))
        places = ['%s/%s%s' % (d, n, e) for d in ('.', 'd1', 'new', 'new/sub') for n in ('x', 'y') for e in ('.sex', '')]
        some = [p for p in places if p.endswith('.sex') or rng.random() < .2]
        more = {}
        if rng.random() < .3:           # one file, and what it holds is of one length
            some, more = ['./x.sex', 'd1/x.sex'][:rng.choice([1, 1, 2])], {'texts': rng.choice([['one', 'two', 'six', '(p)', '%v '], ['(%define v 1)%v', '(%define v 2)%v', '(%define w 3)(p)', '(%ifdef v 1 nil)']])}
            src = '\n'.join(rng.choice(['(%include x)', '(%embed x.sex)', '(%include x.sex)', '%v', '(p (%embed x.sex))']) for _ in range(rng.choice([1, 2, 3])))
        cases.append({'src': src, 'cwd': root, 'may': ['d1', 'new', 'new/sub', 'nowhere'], 'files': places, 'write': some, **more})
    run_steps(chk, cases)
