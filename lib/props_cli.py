"""C29: the program, as run from the command line."""
import signal
from core import *
import gen_markup, gen_exp, gen_reader

FORMATS = ['sexp', 'html', 'xml', 'css', 'text']
VARS = {'NO_COLOR': '1', 'V1': 'value one', 'V2': '', 'LC_ALL': 'C.UTF-8'}
WEIGHTS = {'*': 1, 'lambda': 0, 'map': 0, 'filter': 0, 'apply': 0, 'log': 6, 'for': 2}
ENV = ['(%os/env "V1")', '(%os/env V2)', '(%os/env V3)']


def document(rng, target, includes):
    """A short document that works in the target format, or one that does not."""
    bits = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.random()
        if k < 0.35:
            bits.append(gen_markup.Css(rng, wrong=0.02).rule() if target == 'css' else gen_markup.Gen(rng, target if target == 'xml' else 'html', wrong=0.01).node(2))
        elif k < 0.5:
            bits.append('(%%include %s)' % rng.choice(includes))
        elif k < 0.58:
            bits.append('(%%embed %s)' % rng.choice(includes))
        elif k < 0.7:
            bits.append('(%%log %s "%s")' % (rng.choice(['a', '(%string x)', 'note']), rng.choice(['', 'b c', 'é'])))
        elif k < 0.76:
            bits.append(rng.choice(ENV))
        elif k < 0.86:
            bits.append(gen_exp.G(rng, WEIGHTS, fail=0.01).program(forms=1, d=1).strip())
        elif k < 0.9:
            bits.append('(%define shared ' + rng.choice(['1', '(b c)', '"<"']) + ') %shared')
        elif k < 0.93:
            bits.append('(%ifdef shared (%shared) none)')
        elif k < 0.96:
            bits.append(rng.choice(['%shared', '(%f 1)', '(%no)', ':k', '(p', ')', '"s', '"\\q"', '(%define)', '(p :k ())']))
        else:
            bits.append(gen_reader.node(rng, 2))
    s = rng.choice(['', ' ', '\n', '; c\n']) + rng.choice([' ', '\n', '\n  ', '']).join(bits) + rng.choice(['', '\n'])
    if rng.random() < 0.06:
        s = gen_reader.damage(rng, s)
    return s


def fine(s):
    # texts whose escapes have no entry in the table of characters; names of lambdas; what might not end
    return gen_reader.spellable(s) and 'lambda' not in s and not gen_exp.recursive(s) and len(s) < 700


def text(s):
    return {'ok': True, 'text': chars(s)}


BAD = {'ok': False, 'text': []}


class House:
    """A directory with documents, good and bad, and with directories to include from."""
    def __init__(self, rng, home):
        self.rng, self.home, self.files, self.target = rng, home, {}, rng.choice(FORMATS)
        self.dirs = ['inc1', 'inc2', 'inc2/deep', 'sub dir', '=inc1', '-Iinc2', ' inc1', 'inc1 ', 'INC1']
        for d in self.dirs + ['folder']:
            os.makedirs(os.path.join(home, d))
        includes = ['part', 'other', 'part.sex', '"inc1/part"', 'only1', 'deep/part', 'none', 'folder', 'bin.sex', '"sub dir/part"']
        for d in ['', 'inc1/', 'inc2/', 'inc2/deep/', 'sub dir/', '=inc1/', '-Iinc2/', ' inc1/', 'inc1 /', 'INC1/']:
            for n in ['part', 'other', 'part.sex', 'only1', 'nested']:
                if rng.random() < 0.45:
                    self.put(d + n, document(rng, self.target, includes[:3] if n == 'nested' else ['none']))
        for k in range(4):
            self.put('doc%d' % k, document(rng, self.target, includes + (['doc%d' % (k - 1)] if k else [])))
        self.put('empty', '')
        self.put('sub dir/d é.sex', document(rng, self.target, includes))
        self.put('unset', '%shared (p')
        self.put('defines', '(%define shared (%log defined) 9)(%define (f a) %a) %shared')
        self.put('uses', '(%ifdef shared yes no)')
        for n in ('bin.sex', 'bytes'):
            with open(os.path.join(home, n), 'wb') as f:
                f.write(rng.choice([b'\xff', b'a\xc3', b'(p \xed\xa0\x80)', b'ok \x80']))
            self.files[n] = BAD
        self.files['folder'] = BAD
        self.files['inc1'] = BAD
        os.symlink('doc0', os.path.join(home, 'link'))
        os.symlink('nowhere', os.path.join(home, 'broken'))
        self.files['link'] = self.files['doc0']

    def put(self, name, s):
        while not fine(s):
            s = document(self.rng, self.target, ['none'])
        with open(os.path.join(self.home, name), 'w', newline='') as f:
            f.write(s)
        self.files[name] = text(s)

    def names(self):
        """What exists, by each name under which it might be asked for."""
        out = {}
        for n, f in self.files.items():
            for p in ('', './', 'inc1/../'):
                out[p + n] = f
            if n.startswith('inc2/'):
                out['inc2/./' + n[5:]] = f
        return out

    def command(self):
        rng = self.rng
        args = []
        for _ in range(rng.choice([1, 1, 1, 1, 0, 2])):
            args.append('--' + (self.target if rng.random() < 0.85 else rng.choice(FORMATS)))
        if rng.random() < 0.55:
            args.append(rng.choice(['--nodocument', '--nodoc']))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            args.append('-I' + rng.choice(self.dirs + ['.', 'nowhere', 'inc1/', './inc2', '']))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            args.append(rng.choice(['doc0', 'doc1', 'doc2', 'doc3'] * 3 + ['empty', 'sub dir/d é.sex', './doc1', 'inc1/../doc2', 'link', 'uses', 'defines', 'uses', 'defines', 'unset'] + (
                ['folder', 'bytes', 'inc1', 'bin.sex'] if rng.random() < 0.5 else [])))
        if rng.random() < 0.2:
            args.append('-')
        if rng.random() < 0.07:
            args.append(rng.choice(['--oops', '-x', '-vv', '--', '--SEXP', 'missing', 'broken', 'doc0/', '-i', '--html=1', '', '-Xinc1', '--nodocs', '---', '-sexp', '--v', '\udcff', 'doc\udcff', '--\udce9', '-I\udcff']))
        if rng.random() < 0.04:
            args.append('-v')
        rng.shuffle(args)
        return args

    def input(self):
        rng = self.rng
        k = rng.random()
        if k < 0.08:
            return rng.choice([b'\xff', b'(p "\xe9")', b'x\xf0\x9f'])
        if k < 0.15:
            return b''
        while True:
            s = document(rng, self.target, ['part', 'other', 'only1', 'doc0', 'none'])
            if fine(s):
                return s.encode()


PLACE = re.compile(r'\((.*):(\d+):(\d+)\)')


def run(exe, home, args, stdin, env=VARS):
    try:
        r = subprocess.run([os.fsencode(a) for a in [exe] + args], input=stdin, cwd=home, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
    except subprocess.TimeoutExpired:
        return None
    return r.returncode, r.stdout, r.stderr


OTHER = re.compile(r'\[\*\*\] |Error|html: no doctype|  *\d+ \||SEAM v|usage: ')


def observe(r):
    status, out, err = r
    err = err.decode('utf8', 'replace')
    log, rest, said = [], [], False
    for l in err.split('\n')[:-1] if err.endswith('\n') else err.split('\n'):     # a message may have more than one line
        if l.startswith('[#] log ('):
            log.append(l.split('): ', 1)[1])
            said = True
        elif said and not OTHER.match(l):
            log[-1] += '\n' + l
        else:
            rest.append(l)
            said = False
    place = []
    for l in rest:
        m = PLACE.search(l) if l.startswith('[**]') else None
        if m:
            place = [m.group(1), int(m.group(2)), int(m.group(3))]
    return {'status': status, 'out': out.decode('utf8', 'replace'), 'log': log, 'place': place, 'message': any(rest)}, '\n'.join(rest)


def crashed(r):
    return r is None or r[0] < 0 or r[0] == 101 or b'panicked at' in r[2]


def argument(a):
    try:
        return os.fsencode(a).decode()
    except UnicodeDecodeError:
        return '--not-text'


def record(house, args, stdin, r):
    seen, rest = observe(r)
    try:
        inp = text(stdin.decode())
    except UnicodeDecodeError:
        inp = BAD
    files = house.names()
    seen.update(args=[argument(a) for a in args], stdin=inp, files=files, vars=VARS, names=[n for n in list(house.files) + ['<stdin>'] + args if n and n in rest])
    return seen


def parallel(f, items, n=NCPU):
    out = [None] * len(items)

    def work(k):
        for j in range(k, len(items), n):
            out[j] = f(items[j])
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return out


def C29(chk):
    rng = chk.rng
    chk.laws('MC_Cli', 'every short command line: refused before anything is read, or each input in turn as on its own until one fails')
    exe = build_cli()
    todo = []
    for k in range(800 if chk.thorough else 90):
        home = os.path.join(chk.scratch.path, 'house%d' % k)
        h = House(rng, home)
        for _ in range(35):
            todo.append((h, h.command(), h.input()))
    # every option on its own, and in pairs
    for a in ['--sexp', '--html', '--xml', '--css', '--text', '--nodoc', '--nodocument', '-v', '-', '-I', '-Iinc1', '--oops', '-x', 'doc0', 'missing', 'folder', 'bytes', 'unset']:
        for b in ['', '--sexp', '--text', 'doc1', '-']:
            todo.append((h, [a] + [b] * bool(b), h.input()))
            todo.append((h, [b] * bool(b) + [a, a], h.input()))
    seen = parallel(lambda t: run(exe, t[0].home, t[1], t[2]), todo)
    recs = []
    for (h, args, stdin), r in zip(todo, seen):
        info = {'src': ' '.join(args), 'args': args, 'stdin': stdin.decode('utf8', 'replace'), 'files': {n: ''.join(c[0] for c in f['text']) for n, f in h.files.items()} if False else h.home,
                'observed': [str(x)[:3000] for x in r] if r else 'no end'}
        if crashed(r):
            chk.violate({**info, 'why': 'crashed'})
            continue
        recs.append((record(h, args, stdin, r), {**info, 'documents': {n: ''.join(c[0] for c in h.files[n]['text']) for n in args if n in h.files}}))
    ends = {}
    for rec, _ in recs:
        ends[str(rec['status'])] = ends.get(str(rec['status']), 0) + 1
    chk.notes['exit_statuses'] = ends
    chk.sample(*[r[1]['args'] for r in recs[:5]])
    chk.validate('Trace_Cli', recs, cfg='Trace_Cli.cfg')
