"""C27, C28: how every document ends, and that it ends in the same way every time."""
from core import *
import expand
import gen_total, gen_reader, gen_exp, gen_markup, gen_data
from props_cli import parallel, run as run_program, crashed
import hashlib

TARGETS = ['sexp', 'text', 'html', 'xml', 'css', 'html!', 'xml!', 'css!', 'sexp!', 'text!']


def surroundings(home):
    os.makedirs(os.path.join(home, 'folder'))
    for n, t in {'part': b'(p part) (%define x 1) (%define (f a) %a)', 'folder/part': b'inner (%f 1 2)', 'bad': b'x\n(p :k\n', 'open': '"é never'.encode(), 'wrong': b' ok\n  (%reverse 1)', 'empty': b'', 'bytes': b'a\xff\xfe'}.items():
        with open(os.path.join(home, n), 'wb') as f:
            f.write(t)


def columns(s):
    out, off = [], 0
    for c in s:
        out.append([c, off, 0 if c == '\n' and out and out[-1][0] == '\r' else cwidth(c)])      # \r\n counts as one
        off += len(c.encode('utf8', 'surrogatepass'))
    return {'text': out, 'size': off}


def sources(name, src, home, files):
    out = {name: columns(src)}
    for f in files:
        try:
            out[f] = columns(open(os.path.join(home, f), 'rb').read().decode('utf8'))
        except (UnicodeDecodeError, OSError):
            pass
    return out


def ends(r):
    """Every end a document came to: after expansion, and in each format."""
    if r.get('dead'):
        return [('', {'ok': False, 'cls': 'dead', 'msg': r['dead'] + ': ' + r.get('said', '')})]
    out = []
    x = r['exp']['r']
    if not x['ok']:
        return [('', x)]
    for t, o in x['fmt'].items():
        out.append((t, o))
    return out


NESTED = {'lists': ('(p ', ')'), 'attributes': (':k (p ', ')'), 'macros': ('(%do ', ')'), 'values': ('(%list x ', ' y)'), 'strings': ('(%string (%concat ', '))'), 'definitions': ('(%for x in (1) ', ')'), 'rules': ('(@media ', ')')}


def nested(kind, depth):
    a, b = NESTED[kind]
    return a * depth + 'x' + b * depth


def programs(chk, home, rng, docs):
    """The program itself, with the stack it has: any bytes, deep documents, an output that is full."""
    exe = build_cli()
    jobs = []
    for k in load_known('C28'):
        jobs.append((nested(*k['nested']).encode(), k['target'], k['src'], False))
    for kind in NESTED:
        for t in ('html', 'sexp!', 'text', 'xml', 'css'):
            jobs.append((nested(kind, 150).encode(), t, '150 %s' % kind, False))
            jobs.append((nested(kind, 150)[:-rng.randint(1, 149)].encode(), t, '150 %s, less the last few characters' % kind, False))
    for far in (65530, 65533, 65535, 65536, 65540, 70000, 131080):       # counted in 16 bits once
        for tail in (')', '%nope', '(%reverse 1)', '"open', '(p (:k v))', '(:k v)', '(%f "é")'):
            jobs.append((('a' * far + ' ' + tail).encode(), rng.choice(TARGETS), '%d letters, a blank and %s' % (far, tail), False))
        for wide in ('%' + 'a' * far, '"%s\\q"' % ('日' * (far // 2)), '(%%sort "%s")' % ('é' * far)):
            jobs.append((wide.encode(), 'sexp', '%d characters and more, %s' % (far, wide[:10]), False))
    for s in rng.sample(docs, 4000 if chk.thorough else 800):
        b = s.encode('utf8', 'surrogatepass')
        if rng.random() < 0.3:
            b = bytearray(b)
            for _ in range(rng.choice([1, 2, 5])):
                b.insert(rng.randrange(len(b) + 1), rng.choice([0, 0x80, 0xff, 0xc3, 0xed, 0xf4, rng.randrange(256)]))
            b = bytes(b)
        jobs.append((b, rng.choice(TARGETS), b.decode('utf8', 'backslashreplace'), rng.random() < 0.1))

    def one(j):
        stdin, target, _, full = j
        args = [exe, '--' + target.strip('!')] + ([] if target.endswith('!') else ['--nodocument'])
        with open('/dev/full' if full else os.path.join(home, '..', 'out-%d' % threading.get_ident()), 'wb+', buffering=0) as out:
            try:
                r = subprocess.run(['bash', '-c', 'ulimit -c 0; ulimit -s 8192; exec "$0" "$@"'] + args, input=stdin, cwd=home, stdout=out, stderr=subprocess.PIPE, timeout=60)
            except subprocess.TimeoutExpired:
                return None
            size = 1 if full else out.tell()
        return r.returncode, size, r.stderr
    recs = []
    for j, r in zip(jobs, parallel(one, jobs)):
        rec = {'end': 'program', 'status': r[0] if r else -99, 'written': bool(r and r[1]), 'said': bool(r and b'[**]' in r[2] or r and r[2].startswith(b'Error: '))}
        recs.append((rec, {'src': j[2], 'target': j[1], 'full': j[3], 'observed': str(r)[:1500]}))
    chk.notes['runs_of_the_program'] = len(recs)
    return recs


def C28(chk):
    rng = chk.rng
    chk.laws('MC_System', 'every text of a few pieces through reading, expanding and generating: it ends, and an error has a place that can be shown')
    home = os.path.join(chk.scratch.path, 'home')
    surroundings(home)
    files = ['./part', './folder/part', './bad', './open', './wrong', './empty']
    n = 200000 if chk.thorough else 24000
    docs = list(gen_total.documents(rng, n))
    docs += [s for s in gen_reader.exhaustive(5 if chk.thorough else 4, ['(', ')', '"', '\\', ':', ';', '\n', 'é', '%', 'a'])]
    cases = [{'id': '', 'src': s, 'cwd': home, 'want': ['exp'], 'fmt': rng.sample(TARGETS, 3) if k < n else ['html!', 'sexp']} for k, s in enumerate(docs)]
    res = run_harness(chk.scratch, cases, watched=True, tag='total')
    recs, count = [], {}
    for c, r in zip(cases, res):
        for target, x in ends(r):
            kind = 'result' if x['ok'] else 'error' if x.get('cls') in ('lex', 'parse', 'expand', 'gen') else str(x.get('cls'))
            count[kind] = count.get(kind, 0) + 1
            if kind == 'result' and target != c['fmt'][0]:
                continue                    # nothing to look at
            rec = {'end': kind, 'p': x.get('p', []), 'msg': x.get('msg', ''), 'srcs': {}}
            if kind == 'error':
                rec['srcs'] = sources('<stdin>', c['src'], home, files)
            recs.append((rec, {'src': c['src'], 'target': target, 'observed': {k: v for k, v in x.items() if k != 'out'}}))
    recs += programs(chk, home, rng, docs)
    chk.notes['ends'] = count
    chk.notes['documents'] = len(cases)
    chk.sample(*[c['src'] for c in cases[:5]])
    chk.validate('Trace_Total', recs)


# ------------------------------------------------------------------ C31
PLACES = ['main.sex', './main.sex', 'é x.sex', 'a(b).sex', 'd/main', 'x:1:1', '~^.sex', '日本', "it's", 'C:\\a.sex', 'very/' * 12 + 'deep.sex']
WRONG = ['(%nope)', '%none', ')', '(', '"open', '"bad \\q"', ':k', '(%reverse 1)', '(%get 5 (a))', '(%sort (1) :order up)', '(%format "{}")', '(%include nowhere)', '(%include bad)', '(%include open)', '(%include wrong)', '(%include "folder/off")', '(%f 1 2)', '(%date "%Q" 0)', '(%number x)',
         '(%yaml "a: [")', '(%match 1 (2 3))', '(%join)', '(%lambda)', '(%define)', '(%namespace)', '(%for x (1) 2)', '(%symbol (a))', '(%json "{")', '(%toml "=")', '(%markdown (1))', '(%glob "[")', '(%apply 1)', '(%map (%lambda (q) %nope) 1)', '(p (() x))', '(:k v)', '(p :k (a b))', '(%reverse "日本 é")', '(%sort\n  (1\n 2) :k "é")', '(%get\n 0)',
         '(%reverse """\na\nb""")', ':k ;c\n', '(a\n"日" :k)', '"""x\n日 \\q y"""', '(%in/x)', '(%do (%log x) (%nope))', '(%raw)', '(style 1)', '(pre (%raw x))', '(p\\\nq %nope)', 'é\\\n日) x', '(script (p :k))', '(style (p :c d) x)', '(svg (%raw <b>))', '((a))', '("" x)', '(p :"" x)', '(? x)', '(?xml :v (1))', '(@media)', '(p :c (d :e f))']
ROOM = ['', '', ' ', 'x ', 'é ', '日本 ', '"😀" ', '\t', '\u200b ', 'e\u0301 ', '\u00a0 ', '\r\n', '\n', '\n\n', '\n  ', ';日 c\n', '(p :k v) ', '"a\nb" ', '→→→ ', 'ｱ ', '\x0c ', '"""日\n本""" ', 'a\\\nb ', '\n' * 9, '\n' * 99, 'x ' * 60, '日 ' * 70, '(a\n)', '\r', '\x1bx ', '%x ', '{} ', '|', '^^ ', '~~ ']


def C31(chk):
    rng = chk.rng
    chk.laws('MC_Report', 'every short text and every part of it: the report quotes its line, with marks below it, and no others')
    home = os.path.join(chk.scratch.path, 'home')
    surroundings(home)
    with open(os.path.join(home, 'folder', 'off'), 'w', newline='', encoding='utf8') as f:
        f.write('\n\t日本 (%define (g) é %none)\r\n "😀" (%g)')
    files = ['./part', './folder/part', './bad', './open', './wrong', './empty', './folder/off']
    docs = []
    for _ in range(60000 if chk.thorough else 9000):
        r = rng.random()
        w = rng.choice(WRONG)
        if r < 0.15:
            s = next(gen_total.documents(rng, 1))
        elif r < 0.25:
            s = gen_reader.damage(rng, gen_reader.doc(rng))
        elif r < 0.35:
            s = gen_reader.wild(rng, next(gen_exp.programs(rng, 1, {'*': 1}, fail=0.3)))
        else:
            s = ''.join(rng.choice(ROOM) for _ in range(rng.choice([0, 1, 2, 3]))) + w + rng.choice(['', ' ', ' after', '\n', '\r\nx', '\n日', ' 日本', ')', '\t', ';c', '\r', '\x0b'])
            if rng.random() < 0.3:
                s = rng.choice(['(p ', '(%do ', ':k ', '(a\n ', '(%define (f a)\n', '(html (body ', '(日 ', '(%define y x) (%do %y ', '(style ']) + s
                s += ')' * (s.split(w)[0].count('(')) if rng.random() < 0.8 else ''
        if not gen_total.endless(s):
            docs.append(s)
    name = {}
    cases = []
    for k, s in enumerate(docs):
        c = {'id': '', 'src': s, 'cwd': home, 'want': ['exp'], 'fmt': [rng.choice(TARGETS)]}
        if rng.random() < 0.4:
            c['path'] = rng.choice(PLACES)
        cases.append(c)
    plain = run_harness(chk.scratch, cases, tag='plain')
    failing = [k for k, r in enumerate(plain) if not r.get('dead') and any(not x['ok'] for _, x in ends(r))]
    again = [k for k in failing if '\x1b' not in docs[k] and rng.random() < 0.5]
    bright = dict(zip(again, run_harness(chk.scratch, [cases[k] for k in again], tag='bright', env={'CLICOLOR_FORCE': '1'})))
    recs, count = [], {}

    def see(k, x, coloured, how):
        c = cases[k]
        if x.get('cls') not in ('lex', 'parse', 'expand', 'gen'):
            chk.violate({'src': c['src'], 'why': 'no report', 'observed': x})
            return
        count[x['cls']] = count.get(x['cls'], 0) + 1
        srcs = sources(c.get('path') or '<stdin>', c['src'], home, files)
        recs.append(({'srcs': {p: srcs[p] for p in srcs if p == x['p'][0]} if x['p'] and x['p'][0] in srcs else srcs, 'p': x['p'], 'wrong': x['wrong'], 'msg': x['msg'], 'coloured': coloured},
                     {'src': c['src'], 'path': c.get('path'), 'how': how, 'observed': x}))
    for k, r in enumerate(plain):
        if r.get('dead'):
            chk.violate({'src': cases[k]['src'], 'why': 'did not return', 'observed': r})
            continue
        for t, x in ends(r):
            if not x['ok']:
                see(k, x, False, 'library')
                if k in bright and not bright[k].get('dead'):
                    for t2, y in ends(bright[k]):
                        if t2 == t and not y['ok']:
                            see(k, y, True, 'library, in colours')
    # The program says the same, and nothing else.
    exe = build_cli()
    picked = [k for k in failing if 'path' not in cases[k] and 'log' not in docs[k]][:8000 if chk.thorough else 800]

    def one(k):
        target = cases[k]['fmt'][0]
        env = {'PATH': os.environ['PATH'], 'HOME': home, 'TZ': 'UTC0', 'LC_ALL': 'C.UTF-8', **({'CLICOLOR_FORCE': '1'} if k in bright else {'NO_COLOR': '1'})}
        return run_program(exe, home, ['--' + target.strip('!')] + ([] if target.endswith('!') else ['--nodocument']), docs[k].encode('utf8', 'surrogatepass'), env=env)
    for k, r in zip(picked, parallel(one, picked)):
        if r is None:
            chk.violate({'src': docs[k], 'why': 'the program did not end'})
            continue
        if r[0] != 1 or r[1]:
            chk.violate({'src': docs[k], 'why': 'status or output', 'observed': str(r)[:1000]})
        for t, x in ends(plain[k]):
            if not x['ok']:
                said = r[2].decode('utf8', 'replace')
                see(k, {**x, 'msg': said[:-1] if said.endswith('\n') else said + '(no newline)'}, k in bright, 'program')
    chk.notes['documents'] = len(docs)
    chk.notes['reports'] = count
    chk.sample(*[docs[k] for k in failing[:5]])
    chk.validate('Trace_Report', recs, cfg='Trace_Report.cfg')


# ------------------------------------------------------------------ C27
def whole(x):
    """Everything that was seen, as one text."""
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 300 else hashlib.sha256(s.encode()).hexdigest() + ' ' + str(len(s))


def histories(rng, docs):
    """Operations on some documents, of which several may be the same: each made, expanded, generated and dropped."""
    todo = []
    for k, d in enumerate(docs):
        ops = [{'op': 'make', 'k': str(k)}, {'op': 'expand', 'k': str(k)}]
        ops += [{'op': 'generate', 'k': str(k), 'target': t} for t in rng.sample(d['fmt'], len(d['fmt']))]
        if rng.random() < 0.8:
            ops.append({'op': 'drop', 'k': str(k)})
        todo.append(ops)
    way = rng.random()
    out = []
    if way < 0.25:          # one after another
        rng.shuffle(todo)
        for t in todo:
            out += t
    else:                   # in between each other
        while any(todo):
            t = rng.choice([t for t in todo if t])
            for _ in range(rng.choice([1, 1, 2])):
                if t:
                    out.append(t.pop(0))
    if rng.random() < 0.5:
        ks = [str(rng.randrange(len(docs))) for _ in range(rng.choice([2, 4, 6]))]
        out.insert(rng.randrange(len(out) + 1), {'op': 'threads', 'ks': ks, 'target': docs[0]['fmt'][0]})
    return out


def seen_in(docs, ops, got):
    """The trace of what one process did."""
    plain = {'k': '', 'target': '', 'ok': True, 'out': [], 'text': '', 'log': [], 'all': '', 'mixed': False}
    out = [{**plain, 'op': 'process'}]

    def saw(op, k, target, r, log):
        return {'op': op, 'k': docs[k]['id'], 'target': target, 'ok': r['ok'], 'out': r.get('tree', []), 'text': r.get('out', ''), 'log': log or [], 'all': whole(r), 'mixed': log is None}
    for o, g in zip(ops, got):
        if o['op'] == 'threads':
            for k, (e, t) in zip(map(int, o['ks']), g['r']):
                out += [{**plain, 'op': 'make', 'k': docs[k]['id']}, saw('expand', k, '', e, None), saw('generate', k, o['target'], t, None)]
            continue
        k = int(o['k'])
        if o['op'] in ('make', 'drop'):
            out.append({**plain, 'op': o['op'], 'k': docs[k]['id']})
        else:
            out.append(saw(o['op'], k, o.get('target', ''), g['r'], g['log']))
    return out


def clock(s):
    """Does it show what time it is?"""
    return '%date' in s or 'date' in re.findall(r'[^\s()"]+', s)


def C27(chk):
    rng = chk.rng
    chk.laws('MC_Many', 'documents taken form by form in every order, several at a time: each ends as it would alone, and as it does again')
    home = os.path.join(chk.scratch.path, 'home')
    surroundings(home)
    os.makedirs(os.path.join(home, 'inc'))
    with open(os.path.join(home, 'inc', 'part'), 'w') as f:
        f.write('(other part) (%define x 2)')
    files = ['./part', './folder/part', './bad', './open', './wrong', './empty', 'inc/part']
    n = 2500 if chk.thorough else 1400
    x = expand.world({'x': {'dirs': ['.', 'inc'], 'vars': {}}}, run_harness(chk.scratch, [{'id': '', 'src': '', 'cwd': home, 'files': files, 'want': []}], tag='w')[0])

    def known():
        while True:
            s = next(gen_exp.programs(rng, 1, {'*': 1, 'log': 2, 'lambda': 1.5, 'map': 2, 'namespace': 2}, fail=0.03, plain=0.2))
            bits = [s] + [rng.choice(['(%include part)', '(%f 1 2)', '(%include "folder/part")', '(%ifdef f yes no)', '(%embed empty)', '(%ifdef x %x none)', '(%log (%concat l og))', '(%define x %x)']) for _ in range(rng.choice([0, 0, 1, 2]))]
            rng.shuffle(bits)
            s = ''.join(bits)
            if not gen_exp.recursive(s) and 'env' not in s:
                return s
    soup = (s for s in gen_total.documents(rng, 1 << 30) if not clock(s))

    def listing():
        """Documents of which much is wrong at once, so that errors name several things."""
        ks = rng.sample(['a', 'b', 'c', 'd', 'key', 'zz', 'w', 'q', 'é', 'n1', 'n2', 'x'], rng.choice([2, 3, 5, 8]))
        own = ' '.join(':%s %s' % (k, rng.choice(['1', '(p %v)', '"s"'])) for k in ks)
        other = ' '.join(':%s 2' % k for k in rng.sample(ks + ['u1', 'u2', 'u3', 'u4'], min(len(ks), 4)))
        pars = ' '.join(rng.choice(['p1', 'p2', '(p3 p4)']) for _ in range(rng.choice([0, 0, 1, 2])))
        return '(%define v 1)' + rng.choice(['(%%define (f %s %s) %s)(%%f %s)' % (pars, own, ' '.join('%' + k for k in ks), other), '(%%apply (%%lambda (%s %s) x) %s)' % (pars, own, other), '(%%define (f &&o) %%o)(x (%%f %s))' % own,
            '(%%match (%s) ((%s) no) ((%s) no))' % (own, other, own + ' :more 1'), '(%%%s %s 1)' % (rng.choice(['sort', 'glob', 'date', 'join', 'markdown', 'get', 'namespace', 'yaml', 'timestamp']), other), '(%%format "%s")' % ' '.join('{%s}' % k for k in ks),
            '(%%format "%s" %s)' % (' '.join('{%s}' % k for k in ks), other), '(%%yaml "%s")' % ''.join('%s: {k%d: [1, 2]}\n' % (k, j) for j, k in enumerate(ks)), '(%%toml "%s")' % ''.join('%s = {b = 1, a = 2}\n' % k for k in ks if k != 'é'), '(p %s %s)' % (own, own), '(%%namespace n %s) %%n/%s' % (' '.join('(%%define %s %%v)' % k for k in ks), ks[0])])
    groups, cases = [], []
    for g in range(n):
        fmt = rng.sample(TARGETS, 2)
        docs = []
        for k in range(rng.choice([2, 3, 4])):
            is_known = rng.random() < 0.5
            s = known() if is_known else listing() if rng.random() < .3 else next(soup)
            path = './g%d-%d.sex' % (g, k)
            with open(os.path.join(home, path), 'w', newline='', encoding='utf8') as f:
                f.write(s)
            docs.append({'id': str(k), 'src': s, 'path': path, 'incs': ['inc'], 'fmt': fmt, 'known': is_known})
        slots = docs + [rng.choice(docs) for _ in range(rng.choice([0, 1, 2, 3]))]
        groups.append((docs, slots))
    heads = run_harness(chk.scratch, [{'id': '', 'src': d['src'], 'path': d['path'], 'cwd': home, 'want': ['parse']} for ds, _ in groups for d in ds], tag='heads')
    heads = iter(heads)
    for ds, _ in groups:
        for d in ds:
            h = next(heads)
            if h.get('dead') or not h['parse']['ok']:
                d['known'] = False
            d['forms'] = h['parse']['tree'] if d['known'] else []
    traces = [[] for _ in groups]
    dead = [None] * len(groups)
    for turn in range(3):
        order = list(range(n))
        rng.shuffle(order)
        plans = [histories(rng, groups[g][1]) for g in order]
        cases = [{'id': str(g), 'src': '', 'cwd': home, 'want': [], 'history': {'docs': [{k: d[k] for k in ('src', 'path', 'incs')} for d in groups[g][1]], 'ops': ops}} for g, ops in zip(order, plans)]
        res = run_harness(chk.scratch, cases, tag='turn%d-' % turn, watched=turn == 1, env={'MALLOC_PERTURB_': str(17 + turn)})
        for g, ops, r in zip(order, plans, res):
            if r.get('dead'):
                dead[g] = r
            else:
                traces[g] += seen_in(groups[g][1], ops, r['history'])
    # The program, with several of them at once.
    exe = build_cli()
    jobs = []
    for g in range(n):
        target = groups[g][0][0]['fmt'][rng.randrange(2)]
        jobs.append((g, target, [rng.choice(groups[g][0]) for _ in range(rng.choice([1, 2, 2, 3, 4]))]))
    runs = parallel(lambda j: run_program(exe, home, ['--' + j[1].strip('!')] + ([] if j[1].endswith('!') else ['--nodocument']) + ['-Iinc'] + [d['path'] for d in j[2]], b'', {**os.environ, 'NO_COLOR': '1', 'TZ': 'UTC0', 'LC_ALL': 'C.UTF-8'}), jobs)
    recs = []
    for (g, target, ds), r in zip(jobs, runs):
        docs = groups[g][0]
        info = {'src': [d['src'] for d in docs], 'formats': docs[0]['fmt'], 'program': [d['path'] for d in ds]}
        if dead[g] or crashed(r):
            chk.violate({**info, 'why': 'did not return', 'observed': dead[g] or str(r)[:2000]})
            continue
        tr = traces[g] + [{'op': 'program', 'k': '', 'ks': [d['id'] for d in ds], 'target': target, 'ok': r[0] == 0, 'text': r[1].decode('utf8', 'replace'), 'out': [], 'log': [], 'all': '', 'mixed': False}]
        nameless = bool(expand.NAMELESS.search(json.dumps(tr)))
        recs.append(({'docs': {d['id']: {'known': d['known'] and not nameless, 'forms': d['forms']} for d in docs}, 'x': x, 'ops': tr}, {**info, 'observed': tr}))
    chk.notes['histories'] = len(recs)
    chk.notes['operations'] = sum(len(r[0]['ops']) for r in recs)
    chk.notes['documents'] = sum(len(g[0]) for g in groups)
    chk.notes['documents_also_specified'] = sum(d['known'] for r, _ in recs for d in r['docs'].values())
    chk.sample(*[d['src'] for d in groups[0][0]])
    chk.validate('Trace_Many', recs)
