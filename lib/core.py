"""Build the harness, run the real code on cases, run TLC on what it did."""
import fcntl, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, unicodedata

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
TARGET = os.path.join(VERIF, 'target')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = os.cpu_count() or 4
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'


class ToolError(Exception):
    pass


def rust_env():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; echo "$RUSTUP_TOOLCHAIN"; echo "$PATH"; echo "$HOME"'],
                         capture_output=True, text=True).stdout.split('\n')
    env.update(RUSTUP_TOOLCHAIN=out[0], PATH=out[1], HOME=out[2], CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
               CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=TARGET, CARGO_PROFILE_DEV_DEBUG='0')
    env.pop('RUSTFLAGS', None)
    return env


def cargo(args, cwd, **more):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.verif-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(['cargo'] + args, cwd=cwd, env={**rust_env(), **more}, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('cargo %s failed:\n%s' % (' '.join(args), r.stderr[-4000:]))


def build_harness(watched=False):
    """watched: with AddressSanitizer, which ends the process when memory is misused."""
    if watched:
        triple = 'x86_64-unknown-linux-gnu'
        cargo(['build', '--offline', '--target', triple], os.path.join(VERIF, 'harness'),
              RUSTFLAGS='-Zsanitizer=address', CARGO_TARGET_DIR=os.path.join(TARGET, 'asan'))
        return os.path.join(TARGET, 'asan', triple, 'debug', 'seam_harness')
    cargo(['build', '--offline'], os.path.join(VERIF, 'harness'))
    return os.path.join(TARGET, 'debug', 'seam_harness')


def build_cli():
    cargo(['build', '--offline', '-p', 'seam', '--bin', 'seam'], '/repo')
    return os.path.join(TARGET, 'debug', 'seam')


class Scratch:
    """A directory of this run's own; everything the checked code may touch is inside."""
    def __init__(self, prop):
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix=prop + '-', dir=base)

    def sub(self, *names):
        p = os.path.join(self.path, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def clean(self):
        shutil.rmtree(self.path, ignore_errors=True)


def run_harness(scratch, cases, timeout=20, env=None, tag='h', watched=False):
    """Results in the order of cases.  A case that hangs or kills the process yields {'dead': 'timeout'|'abort'}."""
    exe = build_harness(watched)
    n = min(NCPU, max(1, len(cases) // 8 + 1))
    chunks = [cases[k::n] for k in range(n)]
    results = [None] * len(cases)
    e = dict(os.environ)
    e.pop('_', None)      # (a name that programs may well ask for)
    e.update(NO_COLOR='1', CLICOLOR='0', MALLOC_PERTURB_='165', TZ='UTC0', LC_ALL='C.UTF-8')
    e.pop('CLICOLOR_FORCE', None)
    if watched:
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=3500'
    e.update(env or {})
    fails, hung = [], []

    def work(k):
        chunk = chunks[k]
        inp = scratch.sub('%s%d.in' % (tag, k))
        out = scratch.sub('%s%d.out' % (tag, k))
        with open(inp, 'w') as f:
            for c in chunk:
                f.write(json.dumps(c) + '\n')
        first = 0
        got = {}
        while first < len(chunk):
            open(out, 'w').close()
            p = subprocess.Popen(['bash', '-c', ('' if watched else 'ulimit -v 6000000; ') + 'ulimit -c 0; exec "$0" "$@"', exe, inp, out, str(first)],
                                 env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch.path)
            last, mark, dead = -1, time.time(), None
            while True:
                try:
                    p.wait(0.05 if time.time() - mark < 2 else 0.3)
                except subprocess.TimeoutExpired:
                    pass
                size = os.path.getsize(out)
                if size != last:
                    last, mark = size, time.time()
                if p.returncode is not None:
                    dead = 'abort' if p.returncode != 0 else None
                    break
                if time.time() - mark > (timeout if len(hung) < 6 else min(timeout, 3)):
                    p.kill(); p.wait()
                    hung.append(k)
                    dead = 'timeout'
                    break
            err = p.stderr.read().decode('utf8', 'replace')
            cur = None
            with open(out, encoding='utf8', errors='surrogateescape', newline='\n') as f:
                for line in f.read().split('\n'):
                    if line.startswith('@'):
                        cur = int(line[1:])
                    elif line:
                        try:
                            got[cur] = json.loads(line)
                        except ValueError:
                            pass
            if dead is None:
                if len(got) != len(chunk):
                    fails.append('harness ended early: ' + err)
                break
            if cur is None:
                fails.append('harness did not start: ' + err)
                break
            said = ''
            if os.path.exists(out + '.err'):
                said = open(out + '.err', 'rb').read()[-60000:].decode('utf8', 'replace')
                k2 = max(said.rfind('ERROR: AddressSanitizer'), said.rfind('fatal runtime error'), said.rfind('panicked'))
                said = said[max(k2, 0):][:2500]
            got[cur] = {'id': chunk[cur].get('id', ''), 'dead': dead, 'said': said}
            first = cur + 1
        for j, c in enumerate(chunk):
            results[k + j * n] = got.get(j, {'dead': 'lost'})

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if fails:
        raise ToolError(fails[0])
    if any(r.get('dead') == 'lost' for r in results):
        raise ToolError('harness lost cases')
    return results


CHARS = os.path.join(SPEC, 'chars.json')


def tlc(scratch, module, env=None, cfg=None, workers=None, heap='6g', timeout=800, extra=(), quick=False):
    """Run TLC; returns its statistics and the lines it printed."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch.path)
    e = dict(os.environ)
    e['CHARS'] = CHARS
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xmx' + heap, '-Xss512m'] + (['-XX:+UseSerialGC'] + (['-XX:TieredStopAtLevel=1'] if quick else []) if workers == 1 else ['-XX:+UseParallelGC']) + [
           '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + meta, '-cp', tlc_classpath(), 'tlc2.TLC',
           '-metadir', meta, '-workers', str(workers or NCPU), '-noGenerateSpecTE', '-nowarning',
           '-config', cfg or 'Trace.cfg'] + list(extra) + [module + '.tla']
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    out = r.stdout
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    res = {'out': out, 'rc': r.returncode, 'wall': time.time() - t0,
           'transitions': int(m.group(1)) if m else 0, 'states': int(m.group(2)) if m else 0,
           'finished': 'Model checking completed. No error has been found.' in out,
           'violated': re.findall(r'(?:Invariant|Action property|Temporal properties?) (\S+) (?:is|were) violated', out)}
    if not res['finished'] and not res['violated']:
        out = '\n'.join(l for l in out.split('\n') if not l.startswith(('Parsing file', 'Semantic processing')))
        raise ToolError('TLC failed on %s:\n%s\n%s' % (module, out[-6000:], r.stderr[-2000:]))
    return res


_cp = None


def tlc_classpath():
    global _cp
    if _cp is None:
        p = shutil.which('tlc')
        text = open(p).read() if p else ''
        m = re.search(r'-cp\s+"?([^"\s]+)"?', text)
        _cp = m.group(1) if m else TLAJAR
    return _cp


def validate(scratch, module, records, env=None, cfg=None, heap='3g', timeout=850):
    """Trace validation: every record must be accepted by the spec.  Returns (rejected indices, stats).
    Several TLC processes of one worker each: workers of one process hinder each other."""
    if not records:
        raise ToolError('no traces recorded for ' + module)
    n = max(1, min(NCPU, len(records) // 150 + 1))
    rejected, errors, runs = [], [], []

    def one(idx):
        """Validates some records; if TLC cannot evaluate one of them, the others still count."""
        path = scratch.sub('%s-%d.ndjson' % (module, random.getrandbits(60)))
        with open(path, 'w') as f:
            for j in idx:
                f.write(json.dumps(records[j]) + '\n')
        e = {'TRACE': path}
        e.update(env or {})
        try:
            res = tlc(scratch, module, env=e, cfg=cfg, heap=heap, timeout=timeout, workers=1, quick=len(records) < 40000)
            if not res['finished']:
                raise ToolError('trace validation did not finish:\n' + res['out'][-3000:])
            if res['states'] < 2 * len(idx):
                raise ToolError('TLC explored %d states for %d traces' % (res['states'], len(idx)))
            runs.append(res)
            rejected.extend(idx[int(x) - 1] for x in re.findall(r'REJECT (\d+)', res['out']))
        except ToolError as x:
            errors.append(x)
            if 'timed out' not in str(x) and len(idx) > 1 and len(errors) < 60:
                one(idx[:len(idx) // 2])
                one(idx[len(idx) // 2:])
        finally:
            os.unlink(path)

    def work(k):
        try:
            one(list(range(k, len(records), n)))
        except Exception as x:
            errors.append(x)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errors and not rejected:
        raise errors[0]
    return sorted(rejected), {'states': sum(r['states'] for r in runs), 'transitions': sum(r['transitions'] for r in runs)}


def cwidth(ch):
    """Columns a character takes in a terminal, for the characters generated here."""
    if unicodedata.east_asian_width(ch) in ('W', 'F'):
        return 2
    if unicodedata.combining(ch) or ch in '\u200b\ufeff\xad':
        return 0
    return 1


def chars(src):
    return [[c, len(c.encode('utf8')), cwidth(c)] for c in src]


# ---------------------------------------------------------------------------------------------
class Check:
    """One run of the check of one property."""
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.scratch = Scratch(prop)
        self.rng = random.Random('%s/%d' % (prop, SEED))
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations = [], {}, []
        self.thorough = TIER == 'thorough'

    def model(self, module, cfg, what, **kw):
        """Check the specification itself; a failure here is an error of the machinery, not of seam."""
        r = tlc(self.scratch, module, cfg=cfg, **kw)
        if r['violated']:
            raise ToolError('the specification breaks its own property %s:\n%s' % (r['violated'], r['out'][-5000:]))
        self.states += r['states']
        self.transitions += r['transitions']
        self.notes.setdefault('models', []).append({'model': cfg, 'property': what, 'states': r['states'], 'transitions': r['transitions']})
        return r

    def laws(self, module, what, **kw):
        return self.model(module, module + ('_thorough.cfg' if self.thorough else '.cfg'), what, **kw)

    def validate(self, module, records, env=None, describe=None, **kw):
        """records: list of (trace record, replay information)."""
        rej, r = validate(self.scratch, module, [x[0] for x in records], env=env, **kw)
        self.states += r['states']
        self.transitions += r['transitions']
        self.traces += len(records)
        for k in rej:
            self.violate(records[k][1])
        return rej

    def violate(self, info):
        self.violations.append(info)

    def sample(self, *s):
        for x in s:
            if len(self.samples) < 5:
                self.samples.append(x)

    def finish(self, **cov):
        known = load_known(self.prop)
        new = []
        for v in self.violations:
            hit = next((k for k in known if matches(k, v)), None)
            if hit is not None:
                hit['hit'] = True
            else:
                new.append(v)
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        replay = None
        if new:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, '%s.json' % self.prop)
            with open(replay, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'violations': new[:20]}, f, indent=1, default=str)
        cover = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                 'samples': self.samples or ['-']}
        cover.update(self.notes)
        cover.update(cov)
        ev = {'property': self.prop, 'tier': 'thorough' if self.thorough else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cover, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
              'assumptions': ASSUME}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.scratch.clean()
        if new:
            print('%d violations; first: %s' % (len(new), json.dumps(new[0], default=str)[:3000]))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        print('%s ok: %d states, %d traces validated, %.1f s' % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


ASSUME = ['TLC, the Rust toolchain and the recording harness are trusted',
          'third-party crates (markdown, yaml-rust2, toml, chrono, glob, formatx, descape) are checked only as used through seam']


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [dict(k) for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def matches(k, v):
    """A known finding is identified by the exact input that fails."""
    return isinstance(v, dict) and v.get('src') == k.get('src') and v.get('target') == k.get('target')
