#!/opt/veriftools/pyvenv/bin/python3
"""Rewrites contracts/invariants.json: for every function with loops, the generated invariant candidates its proof used.
It only saves time: a check first tries these, and searches all candidates again when they do not suffice.
usage: mkinv.py [key substring;...]"""
import os, sys, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'contracts')]
from gv import frontend, core, solve, sorts, spec as SP
import importlib
for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
    if f.endswith('.py'):
        importlib.import_module(f[:-3])
P = frontend.load_program()
S = sorts.Sorts(P)
pool = solve.Pool()
data = core.load_cache()
pats = sys.argv[1].split(';') if len(sys.argv) > 1 else []
force = '-f' in sys.argv
for key, c in SP.CONTRACTS.items():
    if key not in P.functions or 'body' not in P.functions[key] or c.trusted or c.bounded:
        data.pop(key, None)
        continue
    if pats and pats[0] != 'all' and not any(p in key for p in pats):
        continue
    if not pats and key in data and not force:
        continue
    sorts.SYM = bool(c.opts.get('sym'))
    R = core.verify(P, S, key, pool, None)
    if R.error or R.failed or not R.loops:
        if R.error or R.failed:
            print('not proved:', key, R.error or [v.desc[:100] for v in R.failed], flush=True)
        data.pop(key, None)
        continue
    V = R.V
    vs = V.vcs + [vc for vc, _ in V.cutvcs if vc.desc in R.cuts] if V.cutvcs else V.vcs
    res = pool.map([(solve.core_vc, (V.facts, R.axioms, R.ens, v, 5)) for v in vs], 200)
    byname = {str(cd.en): cd for L in V.loops for cd in L.cands if cd.alive}
    need = set()
    for r in res:
        need |= set(byname) if r is None else r & set(byname)
    todo = list(need)
    cores = {}
    for v in [v for L in V.loops for v in L.init + L.pres]:
        cores.setdefault(str(v.cand.en), set()).update(R.h['cores'].get(v.id, set()))
    while todo:
        n = todo.pop()
        for m in cores.get(n, set()) & set(byname):
            if m not in need:
                need.add(m)
                todo.append(m)
    out = {}
    for L in V.loops:
        out[str(L.n)] = sorted(cd.name for cd in L.cands if cd.alive and str(cd.en) in need)
    t = time.time()
    R2 = core.verify(P, S, key, pool, {key: out})
    ok = not R2.error and not R2.failed and R2.cached
    print('%s: %.1fs -> %.1fs, %d of %d%s' % (key, R.time, R2.time, len(need), len(byname), '' if ok else ' NOT SUFFICIENT'), flush=True)
    if ok and R2.time < 0.8 * R.time + 0.5:
        data[key] = out
    else:
        data.pop(key, None)
    with open(core.CACHE, 'w') as f:
        json.dump(dict(sorted(data.items())), f, indent=0)
        f.write('\n')
