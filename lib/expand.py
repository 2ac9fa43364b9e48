"""Running programs through the real expander, and making trace records of it."""
from core import *

EMPTY = {'dirs': ['.'], 'files': {}, 'vars': {}, 'docs': [], 'md': [], 'paths': []}


NAMELESS = re.compile(r'__lambda\d')


def last_pos(r):
    """The number of forms (of a session) until the first failure."""
    return next((k for k, s in enumerate(r) if not s['r']['ok']), None)


def panicked(r):
    return not r['ok'] and r.get('cls') == 'panic'


def observe(o, at, places):
    r = o['r']
    x = {'at': at, 'ok': r['ok'], 'out': r['tree'] if r['ok'] else [], 'log': o['log']}
    if places:
        x['p'] = r.get('p', [])
    return x


def world(case, r, env=None):
    w = dict(EMPTY)
    if env and 'os/env' in case['src']:
        w['vars'] = env
    w.update(case.get('x', {}))
    if r.get('files'):
        w['files'] = {}
        for p, f in r['files'].items():
            if f:
                ok = f['parse']['ok']
                w['files'][p] = {'text': f['text'], 'ok': ok, 'tree': f['parse']['tree'] if ok else []}
    if not w['files']:
        w['files'] = {'//': {'text': '', 'ok': False, 'tree': []}}
    if not w['vars']:
        w['vars'] = {'//': ''}
    return w


def run_programs(chk, cases, places=False, session=False, env=None, level=None, tag='x', timeout=20):
    """cases: {'src', optional 'x', 'incs', 'cwd', 'files'}.  Every one is run and validated; returns results."""
    want = ['parse', 'exp'] + (['ses'] if session else [])
    hs = []
    for k, c in enumerate(cases):
        h = {kk: c[kk] for kk in ('src', 'incs', 'cwd', 'files', 'path') if kk in c}
        h.update(id=str(k), want=want)
        hs.append(h)
    res = run_harness(chk.scratch, hs, env=env, tag=tag, timeout=timeout)
    recs, skipped, failing = [], 0, 0
    for c, r in zip(cases, res):
        info = {'src': c['src'], 'incs': c.get('incs', []), 'observed': brief(r)}
        if r.get('dead') or panicked(r['parse']) or panicked(r['exp']['r']):
            info['why'] = 'the program did not return'
            chk.violate(info)
            continue
        if not r['parse']['ok']:
            if r['exp']['r']['ok']:
                info['why'] = 'expanded what cannot be read'
                chk.violate(info)
            skipped += 1
            continue
        forms = r['parse']['tree']
        obs = []
        if session:
            for j, s in enumerate(r['ses']):
                obs.append(observe(s, j + 1, places))
        obs.append(observe(r['exp'], len(forms), places))
        if NAMELESS.search(json.dumps(obs)):
            chk.notes['lambda_names_shown'] = chk.notes.get('lambda_names_shown', 0) + 1
            continue                # the text of a lambda's name is nobody's business
        failing += not r['exp']['r']['ok']
        rec = {'forms': forms, 'x': world(c, r, env), 'obs': obs}
        if places:
            path = c.get('path') or '<stdin>'
            rec.update(name=path, size=len(c['src'].encode('utf8')), text=offsets(c['src']))
        recs.append((rec, info))
    chk.notes['programs'] = chk.notes.get('programs', 0) + len(recs)
    chk.notes['programs_that_fail'] = chk.notes.get('programs_that_fail', 0) + failing
    chk.notes['unreadable_programs'] = chk.notes.get('unreadable_programs', 0) + skipped
    chk.sample(*[x[1]['src'] for x in recs[-5:]])
    chk.validate('Trace_Expander', recs, env={'LEVEL': 'places' if places else 'plain'}, cfg='Trace_Expander.cfg')
    return res


def offsets(src):
    out, n = [], 0
    for ch in src:
        out.append([ch, n])
        n += len(ch.encode('utf8'))
    return out


def brief(r):
    o = dict(r)
    o.pop('parse', None); o.pop('ses', None); o.pop('files', None); o.pop('lex', None)
    return json.loads(json.dumps(o)) if len(json.dumps(o)) < 6000 else {'long': json.dumps(o)[:6000]}
