"""C01-C04: the reader."""
import re
from core import *
import gen_reader as g

EX = {'tokens': ('C01', g.ALPHA), 'shape': ('C02', '(): "\\a\n;'), 'atoms': ('C03', 'a1+:"\\( \n'), 'places': ('C04', 'é:()"\\;\n a')}


def corpus(chk, level):
    _, alpha = EX[level]
    n = 4
    out = list(g.exhaustive(n, alpha))
    if chk.thorough:
        out += [''.join(chk.rng.choice(alpha) for _ in range(chk.rng.choice([5, 6, 7, 8]))) for _ in range(120000)]
    else:
        out = [s for s in out if len(s) < 4 or chk.rng.random() < 0.75]
        out += [''.join(chk.rng.choice(alpha) for _ in range(chk.rng.choice([5, 6, 7, 8]))) for _ in range(9000)]
    short = len(out)
    out += list(g.texts(chk.rng, 40000 if chk.thorough else 7000, deep=10000))
    return out, short


ESCAPE = re.compile(r"escape `\\(.)' at byte-index (\d+)", re.S)


def named_escape(src, ps):
    """The character and the place (in its string) of an escape that is none, where an error names these."""
    m = ESCAPE.search(ps.get('msg', ''))
    if not m or ps.get('cls') != 'lex':
        return []
    rest = src.encode('utf8')[ps['p'][1]:]
    text = rest[3 if rest.startswith(b'"""') else 1:]
    try:
        return [m[1], len(text[:int(m[2])].decode('utf8'))]
    except UnicodeDecodeError:
        return [m[1], -1]


def record(src, r, level):
    """Trace record of what the real reader did with src, or None when it did not return."""
    if r.get('dead') or 'lex' not in r or r['lex'].get('cls') == 'panic' or r['parse'].get('cls') == 'panic':
        return None
    lx, ps = r['lex'], r['parse']
    rec = {'src': chars(src), 'ok': ps['ok'], 'cls': ps.get('cls', ''), 'toks': [], 'lexerr': 'err' in lx, 'esc': []}
    if ps['ok']:
        rec['tree'] = flat(ps['tree'])
    else:
        rec['p'] = ps['p'][1:]
        rec['esc'] = named_escape(src, ps)
        rec['col'] = ps.get('col', 0)
    rec['toks'] = [{'t': t['t'], 'v': t['v'], 'w': t['w'], 'p': t['p'][1:], 'col': t['col']} for t in lx['toks']]
    return rec


def flat(tree):
    """The nodes of a tree, each with its depth, before what it holds."""
    out, todo = [], [(n, 0) for n in reversed(tree)]
    while todo:
        n, d = todo.pop()
        out.append({'t': n['t'], 'd': d, 'v': n.get('v', ''), 'w': n['w'], 'p': n['p'][1:], 'e': n.get('e', ''), 'q': n['q'][1:] if n['t'] == 'l' else []})
        todo += [(k, d + 1) for k in reversed(n['k'] if n['t'] == 'l' else [n['n']] if n['t'] == 'a' else [])]
    return out


def consistent(src, r):
    """Positions have to name the text they are about."""
    data = src.encode('utf8')
    for t in r['lex']['toks']:
        _, off, line, bol, span = t['p']
        if data[off:off + span].decode('utf8', 'replace') != t['view']:
            return False
        start = off - bol
        if start < 0 or (start > 0 and data[start - 1:start] != b'\n'):
            return False
        if data[:off].count(b'\n') + 1 != line:
            return False
    return True


def run(chk, level):
    chk.model('MC_Reader', 'MC_Reader_thorough.cfg' if chk.thorough else 'MC_Reader.cfg',
              'every text up to a bound: tokens tile the text, accepted iff balanced, tree and positions consistent')
    srcs, short = corpus(chk, level)
    res = run_harness(chk.scratch, [{'id': str(k), 'src': s, 'want': ['lex', 'parse']} for k, s in enumerate(srcs)])
    recs = []
    for s, r in zip(srcs, res):
        rec = record(s, r, level)
        if rec is None:
            if level == 'shape' or level == 'tokens':
                chk.violate({'src': s, 'observed': r, 'why': 'the reader did not return'})
            continue
        if level == 'places' and not consistent(s, r):
            chk.violate({'src': s, 'observed': r, 'why': 'a position does not name its text'})
            continue
        recs.append((rec, {'src': s, 'observed': r, 'level': level}))
    chk.sample(*[x[1]['src'] for x in recs[-5:]])
    chk.validate('Trace_Reader', recs, env={'LEVEL': level})
    chk.notes['texts'] = len(srcs)
    chk.notes['short_texts_over_alphabet'] = short


def C01(chk): run(chk, 'tokens')
def C02(chk): run(chk, 'shape')
def C03(chk): run(chk, 'atoms')
def C04(chk): run(chk, 'places')
