"""Directory trees, and patterns to look for in them."""
import os, subprocess
from gen_data import literal, word

NAMES = ['a', 'b', 'ab', 'abc', 'a.txt', 'b.txt', 'c.md', 'note.txt', '.hidden', '.a.txt', 'x y', 'é', 'A', 'Z.txt', 'a-b', '[x]', 'q?', 'st*r', '1', '10', '2', 'a.b.c', 'd.', 'docs', 'src', 'posts', 'b.md', '-', '!x', ']', 'a]', 'txt', 'n.html', 'B.TXT']
BAD = ['[', 'a[', '***', 'a**', '**b', '[!]', '[]', 'x/[a/b]', 'a/**b/c', '**/***', '[a', '*[', 'a/[!', 'a**b', '?**', 'docs/**.md', '[!]/a', '**[a]']
COMMON = ['**/a/**/b', '**/*/**', '**/a*/**/*', '**/**/a/**', '**/a/**/a/**', '*', '**', '**/*', '*.txt', '*.*', '*/', '*/*', '**/', '**/*.txt', '?', '??', '[a-c]*', '[!a]*', '[!.]*', '*a*', 'a*', './*', './a', '**/a', 'docs/**', 'a/**', '**/a/**', '**/**', 'zz', 'zz/*', '*.md', '[[]x]', '*[?]*', '[]a]', '*]', '[!]]*', '[a-]*', '[-a]*', '', 'a', 'a/', 'docs', './docs/*', '**/b/../a'[:4] + 'b', '[A-Z]*', '[0-9]*', '**/[a-b]*/*', '*/**', '**/*/', 'a.*', '*.', '*.*.*', 'é', '[é]', '?*', '*?', 'x y', 'x*y', '* *']


DEEP = ['a/a/a/b/', 'a/a/b', 'a/x', 'b/a/b', 'b/a/a/a/', 'ab/a.txt', 'ab/b/a/', 'a.txt', '.hidden', 'docs/c.md', 'docs/a/n.html', 'abc', 'a/ab/b']


def grow(rng, home, deep=False):
    """A tree on disk, and what there is in it."""
    if deep:
        for p in DEEP:
            os.makedirs(os.path.join(home, os.path.dirname(p)), exist_ok=True)
            if not p.endswith('/'):
                open(os.path.join(home, p), 'w').close()
        return survey(home)

    def fill(d, depth):
        for n in rng.sample(NAMES, rng.choice([1, 2, 3, 4, 6] if depth else [3, 5, 7, 9])):
            p = os.path.join(d, n)
            k = rng.random()
            if k < 0.38 and depth < 3:
                os.mkdir(p)
                fill(p, depth + 1)
            elif k < 0.43:
                os.mkfifo(p)
            else:
                with open(p, 'w') as f:
                    f.write(rng.choice(['', 'x', '(p ' + 'text)']))
    fill(home, 0)
    dirs = [os.path.join(p, d) for p, ds, _ in os.walk(home) for d in ds]
    files = [os.path.join(p, f) for p, _, fs in os.walk(home) for f in fs]
    for _ in range(rng.choice([0, 0, 1, 2])):
        at = os.path.join(rng.choice(dirs + [home]), rng.choice(['link', 'l.txt', 'a.lnk', 'd']))
        k = rng.random()
        if os.path.lexists(at):
            continue
        leaves = [d for d in dirs if not at.startswith(d + '/') and all(not os.path.islink(os.path.join(p, x)) for p, ds, fs in os.walk(d) for x in ds + fs)]
        if k < 0.35 and leaves:
            os.symlink(rng.choice(leaves), at)
            dirs = [d for d in dirs if not at.startswith(d + '/')]   # so that links never lead into each other
        elif k < 0.8 and files:
            os.symlink(rng.choice(files), at)
        elif k > 0.9:
            os.symlink('/nonexistent', at)
    times = [rng.randrange(10**9, 17 * 10**8) * 10**9 + rng.choice([0, 0, 5, 10**6, 999999999]) for _ in range(rng.choice([1, 2, 3, 8, 20]))]
    times += [t + rng.choice([1, -1, 10**9, -10**9]) for t in times[:2]]
    real = [os.path.join(p, x) for p, ds, fs in os.walk(home) for x in ds + fs if os.path.exists(os.path.join(p, x))]
    for p in real:
        t = rng.choice(times)
        os.utime(p, ns=(rng.choice(times), t))
    return survey(home)


def survey(home, prefix=''):
    """All paths there are, as they can be reached from a directory."""
    found = []
    for p, ds, fs in os.walk(home, followlinks=True):
        for x in ds + fs:
            full = os.path.join(p, x)
            found.append((os.path.relpath(full, home), 'dangling' if not os.path.exists(full) else 'dir' if os.path.isdir(full) else 'file' if os.path.isfile(full) else 'other'))
    there = [f for f, k in found if k != 'dangling']
    born = subprocess.run(['stat', '-L', '--format=%.9W', '--'] + [os.path.join(home, f) for f in there], capture_output=True, text=True).stdout.split('\n')
    born = {f: tuple(int(y) for y in b.split('.')) for f, b in zip(there, born) if '.' in b}
    has_birth = len(born) == len(there) and all(b[0] > 0 for b in born.values())
    age = {f: os.stat(os.path.join(home, f)).st_mtime_ns for f in there}
    rank = lambda table: {v: k for k, v in enumerate(sorted(set(table.values()), reverse=True))}
    ra, rb = rank(age), rank(born)
    out = []
    for f, k in found:
        path = prefix + f
        out.append({'path': path, 'parts': path.split('/'), 'kind': k, 'age': ra[age[f]] if f in age else 0, 'born': rb[born[f]] if f in born and has_birth else 0})
    return out, has_birth


def special(p):
    """Does a component ask for . or .. in a way that only shells understand?"""
    cs = p.split('/')
    while len(cs) > 1 and cs[0] == '.':
        cs = cs[1:]
    for c in cs:
        if c in ('.', '..'):
            return True
        if c[:1] == '.' and any(x in c for x in '*?[') and not any(x.isalnum() for x in c):
            return True
    return '//' in p


def pattern(rng, paths):
    k = rng.random()
    if k < 0.04:
        return rng.choice(BAD)
    if k < 0.34 or not paths:
        return rng.choice(COMMON)
    parts = list(rng.choice(paths)['parts'])
    if k < 0.4:
        return '/'.join(parts)
    out = []
    for c in parts:
        r = rng.random()
        if r < 0.3:
            out.append(''.join('[' + x + ']' if x in '*?[' else x for x in c))
        elif r < 0.4:
            out.append('*')
        elif r < 0.5:
            out.append('**')
        else:
            t = ''
            for x in c:
                y = rng.random()
                t += ('?' if y < 0.12 else '*' if y < 0.24 else '[' + x + ']' if y < 0.32 and x != '!' else '[!' + rng.choice('zqa') + ']' if y < 0.38 else
                      '[' + rng.choice(['a-z', '0-9a-z', 'a-c', '!0-9', 'x' + x, '.' + x, x + '-' + x]) + ']' if y < 0.46 and x not in '!-]' else '[' + x + ']' if x in '*?[' else x)
            while '**' in t:
                t = t.replace('**', '*')
            out.append(t)
    if rng.random() < 0.15:
        out.insert(rng.randrange(len(out) + 1), '**')
    if rng.random() < 0.1:
        out.append(rng.choice(['*', '**', '']))
    if rng.random() < 0.05:
        out.insert(0, '.')
    return '/'.join(out)


def program(rng, paths, births, prefix=''):
    for _ in range(50):
        p = pattern(rng, paths)
        if not special(p):
            break
    else:
        return None
    if prefix:
        p = prefix + p
        if '/./' in p or p == prefix:
            return None
    opts = []
    sort = rng.choice(['name', 'name', 'modified', 'modified', 'type', 'type', 'none', None] + (['created'] * 2 if births else []))
    if rng.random() < 0.02:
        opts.append(rng.choice([':sort size', ':type link', ':order up', ':depth 2', ':sort ()', 'extra', ':type "Files"', ':sort "modified "']))
    if sort:
        opts.append(':sort ' + (sort if rng.random() < 0.9 else '"%s"' % sort))
    if rng.random() < 0.4:
        opts.append(':type ' + rng.choice(['file', 'directory', 'any', 'file', 'directory']))
    if rng.random() < 0.4:
        opts.append(':order ' + rng.choice(['ascending', 'descending', 'descending']))
    rng.shuffle(opts)
    lit = p if word(p) and rng.random() < 0.3 else literal(p)
    opts.insert(rng.randrange(len(opts) + 1), lit)
    g = '(%glob ' + ' '.join(opts) + ')'
    if sort in (None, 'none'):
        # in an unspecified order: put the paths in one
        return '(%%sort ((%%for f in (%s) %%f)))' % g
    k = rng.random()
    if k < 0.6:
        return g
    if k < 0.7:
        return '(ul (%%for f in (%s) (li %%f)))' % g
    if k < 0.8:
        return '(%%define l %s) %%l %%l' % g
    if k < 0.9:
        return '[ %s ]' % g
    return '(%%join ", " %s)' % g
