#!/usr/bin/env python3
"""Make planted bugs (/verif/seeded) from a description, and confirm them in a scratch copy of /repo.

plant.py FILE.py            FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, cases=[...])]
plant.py --check ID...      apply each to /repo, run the check of its property (or CHECKS=..), undo it
"""
import glob, json, os, shutil, subprocess, sys
SEEDED = '/verif/seeded'
SCRATCH = '/tmp/plant'
RUN = '''#!/usr/bin/env python3
"""Runs the command-line program on each case; fails if one of them comes out differently."""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
exe = os.path.abspath(sys.argv[1])
bad = 0
for case in json.load(open(os.path.join(here, 'cases.json'))):
    with tempfile.TemporaryDirectory() as d:
        for name, text in case.get('files', {}).items():
            p = os.path.join(d, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(text)
        for name, to in case.get('links', {}).items():
            os.symlink(to, os.path.join(d, name))
        for name, age in case.get('ages', {}).items():
            os.utime(os.path.join(d, name), (age, age))
        env = dict(os.environ, NO_COLOR='1', TZ='UTC0', **case.get('env', {}))
        for _ in range(case.get('times', 1)):
            try:
                r = subprocess.run([exe] + case.get('args', ['--sexp', '--nodocument']), input=case.get('stdin', '').encode(), cwd=d, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                out, err, rc = r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace'), r.returncode
            except subprocess.TimeoutExpired:
                out, err, rc = '', 'timeout', -1
            ok = True
            if 'out' in case: ok &= out == case['out']
            if 'rc' in case: ok &= rc == case['rc']
            for e in case.get('err', []): ok &= e in err
            if 'log' in case: ok &= [l.split('): ', 1)[1] for l in err.split('\\n') if l.startswith('[#] log')] == case['log']
            if not ok:
                bad = 1
                print('differs:', case.get('stdin'), '\\n  got', repr(out), rc, repr(err[:500]), '\\n  expected', repr(case.get('out')), case.get('rc'), case.get('err'), case.get('log'))
sys.exit(bad)
'''
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cargo build --offline -q -p seam --bin seam || exit 3
exec python3 "$here/run.py" target/debug/seam
'''

# Bugs that a program which uses the library sees.
DEMO_API = '''#!/bin/bash
# Compiles a small program against the library and compares what it prints.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
d="$(mktemp -d)"
trap 'rm -r "$d"' EXIT
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nseam = { path = "%s/crates/seam" }\\n[[bin]]\\nname = "demo"\\npath = "demo.rs"\\n[workspace]\\n' "$PWD" > "$d/Cargo.toml"
cp "$here/demo.rs" Cargo.lock "$d"
cp rust-toolchain.toml "$d" 2> /dev/null
target="$PWD/target"
(cd "$d" && CARGO_TARGET_DIR="$target" cargo build --offline -q 2> log && cp "$target/debug/demo" demo) || { cat "$d/log"; exit 3; }
(cd "$d" && timeout 60 ./demo > out)
if cmp -s "$here/expected.txt" "$d/out"; then exit 0; fi
diff "$here/expected.txt" "$d/out"
exit 1
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(['bash', '-c', cmd], cwd=cwd, capture_output=True, text=True, **kw)


def copy():
    if not os.path.isdir(SCRATCH):
        shutil.copytree('/repo', SCRATCH, symlinks=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', SCRATCH)


def plant(b):
    copy()
    d = os.path.join(SEEDED, b['id'])
    os.makedirs(d, exist_ok=True)
    for f, old, new in b['edits']:
        p = os.path.join(SCRATCH, f)
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: %d occurrences of %r in %s' % (b['id'], s.count(old), old, f)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', SCRATCH).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    first = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()[0]
    old = {l.strip() for f in {e[0] for e in b['edits']} for l in sh('git show %s:%s' % (first, f), '/repo').stdout.split('\n')}
    gone = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---') and l[1:].strip()]
    if not any(l in old for l in gone):
        print(b['id'] + ': WARNING: changes no original line')
    elif any(l not in old for l in gone):
        print(b['id'] + ': note: also changes lines of fixes: ' + [l for l in gone if l not in old][0])
    if 'rust' in b:
        open(os.path.join(d, 'demo.rs'), 'w').write(b['rust'])
        open(os.path.join(d, 'expected.txt'), 'w').write('')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_API)
    else:
        open(os.path.join(d, 'run.py'), 'w').write(RUN)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # expectations that are not given come from the unchanged program
    r = sh('. /opt/vp/env.sh; cargo build --offline -q -p seam --bin seam', '/repo')
    if 'rust' in b:
        r = sh(os.path.join(d, 'demo.sh'), '/repo')
        out = [l[2:] for l in r.stdout.split('\n') if l.startswith('> ')]
        if not out:
            return b['id'] + ': demo: ' + r.stdout + r.stderr[:2000]
        open(os.path.join(d, 'expected.txt'), 'w').write('\n'.join(out) + '\n')
    else:
        json.dump(fill(b['cases']), open(os.path.join(d, 'cases.json'), 'w'), indent=1)
    clean = sh(os.path.join(d, 'demo.sh'), '/repo')
    r = sh('. /opt/vp/env.sh; cargo test --offline --workspace 2>&1 | tail -40', SCRATCH)
    if 'error' in r.stdout and 'test result' not in r.stdout:
        return b['id'] + ' does not build:\n' + sh('. /opt/vp/env.sh; cargo build --offline 2>&1 | grep -A12 "^error"', SCRATCH).stdout[:1500]
    tests = 'FAILED' not in r.stdout and 'test result: ok' in r.stdout
    broken = sh(os.path.join(d, 'demo.sh'), SCRATCH)
    msg = '%s: clean %d, tests %s, patched %d' % (b['id'], clean.returncode, 'pass' if tests else 'FAIL', broken.returncode)
    if clean.returncode or not tests or broken.returncode in (0, 3):
        shutil.rmtree(d)
        msg += '\n  REFUSED\n' + clean.stdout[:800] + broken.stdout[:500] + broken.stderr[:300]
    else:
        msg += '   ' + broken.stdout.replace('\n', ' ')[:300]
    return msg


def fill(cases):
    """Fill in what the unchanged program does."""
    import tempfile
    out = []
    for c in cases:
        c = dict(c) if isinstance(c, dict) else {'stdin': c}
        if not any(k in c for k in ('out', 'rc', 'err', 'log')) or c.pop('fill', False):
            with tempfile.TemporaryDirectory() as d:
                for name, text in c.get('files', {}).items():
                    p = os.path.join(d, name)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, 'w').write(text)
                for name, to in c.get('links', {}).items():
                    os.symlink(to, os.path.join(d, name))
                for name, age in c.get('ages', {}).items():
                    os.utime(os.path.join(d, name), (age, age))
                r = subprocess.run(['/repo/target/debug/seam'] + c.get('args', ['--sexp', '--nodocument']), input=c.get('stdin', '').encode(), cwd=d,
                                   env=dict(os.environ, NO_COLOR='1', TZ='UTC0', **c.get('env', {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            c['out'], c['rc'] = r.stdout.decode(), r.returncode
        out.append(c)
    return out


def check(ids, workers=2):
    """Each bug in a copy of /repo and /verif, laid over them in a mount namespace of its own: /repo itself is not touched."""
    import queue, threading
    todo = queue.Queue()
    for i in ids:
        todo.put(i)

    def work(k):
        base = '/tmp/plantcheck%d' % k
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        sh('cp -a /repo %s/repo; cp -a /verif %s/verif' % (base, base), '/')
        while True:
            try:
                i = todo.get_nowait()
            except queue.Empty:
                break
            prop = json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property']
            for p in os.environ.get('CHECKS', prop).split():
                r = sh("""exec unshare -Urm bash -c 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; cd /verif;
                    git -C /repo checkout -q -- .; git -C /repo apply /verif/seeded/%s/patch.diff || exit 77; touch $(git -C /repo diff --name-only | sed s,^,/repo/,);
                    timeout 900 python3 check.py %s; rc=$?; git -C /repo checkout -q -- .; exit $rc'""" % (base, base, i, p), '/')
                line = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                caught = r.returncode == 1 and line
                print('%-28s %s by %s (exit %d) %s' % (i, 'CAUGHT' if caught else 'MISSED', p, r.returncode, '' if caught else (r.stdout + r.stderr)[-300:]), flush=True)
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        check(sys.argv[2:] or sorted(os.path.basename(p) for p in glob.glob(SEEDED + '/*')))
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        for b in ns['BUGS']:
            if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
                print(plant(b), flush=True)
