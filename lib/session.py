"""All sessions of a few forms from a pool: model-checked, and run for real."""
import itertools
from core import *
import expand


def sessions(chk, pool, bound, x=None, quick=None, extra=None, model_bound=None, **run):
    """pool: [(text, names it may define, whether macros may be left)].
    quick: how many of the longest sessions to run for real."""
    heads = run_harness(chk.scratch, [{'id': str(k), 'src': p[0], 'want': ['parse'], **{a: b for a, b in run.items() if a in ('files', 'cwd')}}
                                      for k, p in enumerate(pool)], tag='pool')
    read = [k for k, r in enumerate(heads) if not r.get('dead') and r['parse']['ok']]        # all, unless reading is broken
    if len(read) < len(pool):
        chk.notes['forms_not_read'] = len(pool) - len(read)
        pool, heads = [pool[k] for k in read], [heads[k] for k in read]
    forms = chk.scratch.sub('forms.ndjson')
    with open(forms, 'w') as f:
        for p, r in zip(pool, heads):
            f.write(json.dumps({'tree': r['parse']['tree'], 'defs': list(p[1]), 'leaves': len(p) > 2 and bool(p[2])}) + '\n')
    w = chk.scratch.sub('world.json')
    with open(w, 'w') as f:
        json.dump(expand.world({'x': x or {}}, heads[0]), f)
    b = model_bound or bound
    chk.model('MC_Session', 'MC_Session.cfg',
              'every session of up to %d of %d forms: macro-free forms unchanged, definitions scoped, log and output only grow, no macro left' % (b, len(pool)),
              env={'FORMS': forms, 'WORLD': w, 'BOUND': str(b)})
    texts = [p[0] for p in pool]
    seqs = list(itertools.product(range(len(pool)), repeat=bound))
    if quick and len(seqs) > quick:
        seqs = [seqs[k] for k in sorted(chk.rng.sample(range(len(seqs)), quick))]
    sep = ['', ' ', '\n']
    cases = [{'src': ''.join(texts[k] + sep[(k + j) % 3] for j, k in enumerate(s)), 'x': x or {}, **run} for s in seqs]
    chk.notes['sessions'] = len(cases)
    return cases


def laws(chk, group, quick=600):
    """The laws of a group, model-checked for all programs over small pools; and these programs, to be run for real."""
    programs, files = chk.scratch.sub('laws-%s.ndjson' % group), chk.scratch.sub('laws-files.ndjson')
    chk.model('MC_Laws', 'MC_Laws_thorough.cfg' if chk.thorough else 'MC_Laws.cfg', 'laws of group %s: pairs of programs that must mean the same do' % group,
              env={'LAW': group, 'PROGRAMS': programs, 'FILES': files})
    pairs = [json.loads(l) for l in open(programs)]
    names = []
    root = os.path.dirname(chk.scratch.sub('laws', '.'))
    for l in open(files):
        f = json.loads(l)
        names.append(f['name'])
        with open(os.path.join(root, f['name']), 'w') as o:
            o.write(f['text'])
    srcs = sorted({s for p in pairs for s in (p['a'], p['b'])})
    if not chk.thorough and len(srcs) > quick:
        srcs = [srcs[k] for k in sorted(chk.rng.sample(range(len(srcs)), quick))]
    chk.notes.setdefault('programs_from_laws', {})[group] = len(srcs)
    return [{'src': s, **({'cwd': root, 'files': sorted(names)} if '%include' in s else {})} for s in srcs]
