"""C17-C20: structured data, dates, formatting, globbing."""
import itertools
from core import *
from expand import run_programs
import gen_data
from gen_data import literal, word, clean, BAD


# ------------------------------------------------------------------ C17
def data_case(rng, g, where):
    kind = rng.choice(['yaml', 'yaml', 'yaml', 'json', 'toml', 'toml', 'markdown', 'markdown'])
    lang = 'toml' if kind == 'toml' or (kind == 'markdown' and rng.random() < 0.4) else 'yaml'
    keys = rng.choice([gen_data.NAMES, gen_data.NAMES[:4]])
    sep = rng.choice(['/', '/', '/', '.', '::', '', '-'])
    opt = '' if sep == '/' and rng.random() < 0.8 else ' :separator ' + ('"%s"' % sep)
    if lang == 'toml':
        d = g.ttab(rng.choice([1, 2, 3, 4]), rng.choice([0, 1, 2, 3, 5]))
        text = g.toml(d)
    else:
        d = g.value(rng.choice([1, 2, 3, 3, 4]), 0.08, keys)
        if kind == 'markdown' and (d['y'] != 'map' or not d['e']):
            d = {'y': 'map', 'e': [{'k': 'a', 'v': d}]}
        text = g.json(d) if kind == 'json' else g.yaml(d)
    ok = True
    if rng.random() < 0.12:
        text, ok = rng.choice(BAD[lang]), False
    ways = list(g.ways(d))
    meaning = clean(d)
    x = {}
    if kind == 'markdown':
        fence = '+++' if lang == 'toml' else '---'
        text = text.rstrip('\n')
        if text.startswith('---') or '\n---' in text or '\n+++' in text or not ok and rng.random() < 0.5:
            return None
        src, html = gen_data.Marked(rng).doc()
        has = rng.random() < 0.8
        only = rng.choice([None, None, None, 'frontmatter', 'content'])
        if has and not ok and only != 'frontmatter':
            return None             # how much of a bad front matter is defined is not specified
        full = (fence + '\n' + text + '\n' + fence + '\n' + rng.choice(['', '\n']) if has else '') + src
        if has and src.startswith('<'):
            return None             # the markdown crate loses a newline there
        if not has and (src.startswith('---') or src.startswith('+++')):
            return None
        x['md'] = [{'text': full, 'html': html, 'front': {'ok': has and ok, 'lang': lang, 'doc': meaning}}]
        arg, opt = full, opt + ('' if only is None else ' :only ' + rng.choice(['', '"'])[:0] + only)
    else:
        x['docs'] = [{'lang': lang, 'text': text, 'ok': ok, 'doc': meaning}]
        arg = text
        if lang == 'yaml' and kind == 'yaml' and text.strip() == '':
            return None
    lit = literal(arg)
    if rng.random() < 0.15:
        lit = '(%string ' + lit + ')'
    head = '(%%%s %s%s)' % (kind, lit, opt) if rng.random() < 0.7 else '(%%%s%s\n  %s)' % (kind, opt, lit)
    form = rng.randrange(6)
    paths = [sep.join(w) for w, _ in ways]
    uses = []
    for p in dict.fromkeys(paths + [rng.choice(['a', 'b/c', 'zz', '0', 'a/0', 'title/key', 'a.b'])]):
        if word(p):
            uses.append('(%%ifdef %s (v %%%s) (no %s))' % (p, p, p))
        elif rng.random() < 0.5:
            uses.append('(%%ifdef %s yes no)' % literal(p))
    rng.shuffle(uses)
    uses = ' '.join(uses[:14])
    lists = [(p, d2) for (p, (w, d2)) in zip(paths, ways) if word(p) and d2['y'] in ('map', 'seq')]
    extra = ''
    if ok and lists and rng.random() < 0.5:
        p, d2 = rng.choice(lists)
        if d2['y'] == 'seq':
            extra = '(%%for e in %%%s (li %%e))' % p if False else '(%%for e in (%%splat %%%s) (li %%e))' % p
        elif d2['e'] and all(word(z['k']) for z in d2['e']):
            extra = '(%%match %%%s ((%s) %s) (_ other))' % (p, ' '.join(':%s none' % z['k'] for z in d2['e']), ' '.join('(m %%%s)' % z['k'] for z in d2['e']))
    if ok and ways and kind != 'markdown' and rng.random() < 0.4:
        w, _ = rng.choice(ways)
        extra += '(%%define whole %s)(%%get %s %%whole)' % (head, literal('/'.join(w) + rng.choice(['', '', '/0'])))
    if form == 0:
        src = '%s %s' % (head, uses)
    elif form == 1:
        src = '(p %s) %s %s' % (head, uses, extra)
    elif form == 2:
        src = '(%%define v %s) %%v %s' % (head, uses)
    elif form == 3:
        src = '(%%define (f q) %s %s) (%%f 1) (%%ifdef %s leak clean)' % (head, uses, paths[0] if paths and word(paths[0]) else 'zz')
    elif form == 4:
        src = '(%%namespace n %s)%s (%%ifdef n/%s yes no)' % (head, uses, paths[0] if paths and word(paths[0]) else 'zz')
    else:
        src = '%s\n%s %s' % (head, uses, extra)
    if rng.random() < 0.2:              # the same once more, with other separators
        other = rng.choice(['/', '.', '::', '', '-'])
        asked = rng.sample(ways, min(len(ways), 4))
        src += ' (%%%s %s :separator "%s") ' % (kind, lit, other) + ' '.join('(%%ifdef %s (v %%%s) (no %s))' % (p, p, p) for p in [other.join(w) for w, _ in asked] if word(p))
    case = {'src': src, 'x': x}
    if rng.random() < 0.15 and where is not None and form in (0, 5):
        name = 'd%d.txt' % len(where)
        where.append((name, arg))
        case['src'] = src.replace(lit, '(%%embed %s)' % name, 1)
        case['files'] = ['./' + name]
    return case


def C17(chk):
    chk.laws('MC_Data', 'what every small document presents: complete, addressable, separated')
    rng = chk.rng
    g = gen_data.Data(rng)
    where, cases = [], []
    n = 40000 if chk.thorough else 3600
    while len(cases) < n:
        c = data_case(rng, g, where)
        if c:
            cases.append(c)
    # small documents, all of them
    for lang in ('yaml', 'json', 'toml'):
        for text in BAD['toml' if lang == 'toml' else 'yaml']:
            cases.append({'src': 'x (%%%s %s) y' % (lang, literal(text)), 'x': {'docs': [{'lang': 'toml' if lang == 'toml' else 'yaml', 'text': text, 'ok': False, 'doc': {'y': 'none'}}]}})
    for text in ['', '\n', '# only a comment\n', '---\n', '...\n']:
        if text in ('', '\n', '# only a comment\n'):
            cases.append({'src': '[ (%%yaml %s) ]' % literal(text), 'x': {'docs': [{'lang': 'yaml', 'text': text, 'ok': True, 'doc': {'y': 'none'}}]}})
            cases.append({'src': '[ (%%toml %s) ]' % literal(text), 'x': {'docs': [{'lang': 'toml', 'text': text, 'ok': True, 'doc': {'y': 'map', 'e': []}}]}})
    home = chk.scratch.sub('data', 'x')[:-2]
    for name, text in where:
        with open(os.path.join(home, name), 'w', newline='') as f:
            f.write(text)
    for c in cases:
        c['cwd'] = home
    run_programs(chk, cases)


# ------------------------------------------------------------------ C18
import gen_dates


def C18(chk):
    chk.laws('MC_Calendar', 'counting days one by one agrees with the calendar; weeks; every way to determine a day; showing and reading back is the identity; an offset in the text wins')
    rng = chk.rng
    n = 60000 if chk.thorough else 5000
    srcs = []
    while len(srcs) < n:
        s = gen_dates.case(rng)
        if s:
            srcs.append(s)
    # every directive with every padding, at a few moments
    for d in list(gen_dates.NUMERIC) + gen_dates.FIXED + gen_dates.COMBO + gen_dates.ODD:
        for pad in ('', '-', '_', '0', '#'):
            for secs, z in ((rng.choice([0, -1, 1709208000, 253402300799 - 86400]), rng.choice(['0', '-0.5', '5.7525', '-11.99'])), (gen_dates.moment(rng) % 10**10, gen_dates.zone(rng, 0))):
                srcs.append('(%%date "[%%%s%s]" %d :timezone %s)' % (pad, d, secs, z))
    for k in range(0, 40 if chk.thorough else 12):       # every day of some years, in one direction and back
        y = rng.choice([1900, 1970, 1999, 2000, 2004, 2023, 2024, 1, 400, 1582, 9998, rng.randrange(1, 9999)])
        t = (gen_dates.datetime.datetime(y, 1, 1) - gen_dates.EPOCH).days * 86400
        f = rng.choice(['%F %j %a %U %W %G-%V-%u', '%c', '%G-W%V-%u %T', '%Y %U %w %R', '%A %W %Y %r'])
        for d in range(-3, 370, 1 if chk.thorough else 9):
            s = t + d * 86400 + rng.randrange(86400)
            z = gen_dates.zone(rng, 0)
            srcs.append('(%%date "%s" %d :timezone %s) (%%timestamp "%s" (%%date "%s" %d :timezone %s) :timezone %s)' % (f, s, z, f, f, s, z, z))
    out = []
    for s in srcs:
        k = rng.random()
        if k < 0.06:
            s = '(%%define v %s)(p  %%v :k %%v)' % s
        elif k < 0.1:
            s = s.replace(' :timezone', '\n  :timezone')
        elif k < 0.13:
            s = '(%%string a %s)' % s
        elif k < 0.15:
            s = '(%%define (f x) %s)(%%f 1)' % s.replace(' :timezone', ' :timezone', 1)
        out.append({'src': s})
    run_programs(chk, out)


# ------------------------------------------------------------------ C19
import gen_format


def C19(chk):
    chk.laws('MC_Format', 'every small format string with every kind of argument: each placeholder is filled, each piece of text kept')
    rng = chk.rng
    n = 60000 if chk.thorough else 6000
    cases = [{'src': gen_format.case(rng)} for _ in range(n)]
    cases += [{'src': s} for s in gen_format.small()]
    cases += [{'src': k['src']} for k in load_known('C19')]
    for b in gen_format.BADSPECS:
        cases += [{'src': '(%%format "{:%s}" ab)' % b}, {'src': '(%%format "x{n:%s}" :n 12 7)' % b}]
    for b in gen_format.BADFORMATS:
        cases += [{'src': '(%%format "%s" ab :n 1 :a 2)' % b}, {'src': 'x (p (%%format "%s" ab ab ab))' % b}]
    for v in gen_format.VALUES + gen_format.NUMBERS + gen_format.SPECIAL:
        for fmt in ('{}', '{{{}}}', '{:3}', '{n}', '{0}{0:.2}', '{:>9}{n:<9}'):
            cases.append({'src': '(%%format %s %s :n %s)' % (literal(fmt), literal(v), literal(v))})
    run_programs(chk, cases)


# ------------------------------------------------------------------ C20
import gen_glob


def C20(chk):
    chk.laws('MC_Glob', 'every small directory tree, however made and touched: a walk finds what is listed; kinds part; orders hold')
    rng = chk.rng
    cases = []
    births = 0
    for k in range(400 if chk.thorough else 60):
        home = os.path.join(chk.scratch.path, 'tree%d' % k)
        os.mkdir(home)
        paths, has = gen_glob.grow(rng, home, k == 0)
        births += has
        x = {'paths': paths}
        pats = gen_glob.COMMON + gen_glob.BAD if k == 0 else []
        for p in pats:
            for o in ('', ' :type file', ' :type directory'):
                cases.append({'src': '(%%sort ((%%for f in ((%%glob %s%s)) %%f)))' % (literal(p), o), 'x': x, 'cwd': home})
                cases.append({'src': '(%%glob %s%s :sort modified)' % (literal(p), o), 'x': x, 'cwd': home})
        for _ in range(150):
            s = gen_glob.program(rng, paths, has)
            if s:
                cases.append({'src': s, 'x': x, 'cwd': home})
        if k % 6 == 0:              # the same by absolute patterns
            far, _ = gen_glob.survey(home, home + '/')
            for _ in range(25):
                s = gen_glob.program(rng, paths, has, home + '/')
                if s:
                    cases.append({'src': s, 'x': {'paths': far}, 'cwd': '/'})
    chk.notes['trees_with_birth_times'] = births
    run_programs(chk, cases)
