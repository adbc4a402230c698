"""Driving the verification of a set of functions."""
import os, json, time, sys, signal
import z3
from . import sorts as S, spec as SP, vcgen, solve, frontend
from .sorts import Unsupported

CACHE = os.path.join(frontend.VERIF, 'contracts', 'invariants.json')


def load_cache():
    try:
        with open(CACHE) as f:
            return json.load(f)
    except Exception:
        return {}


class Result:
    def __init__(self, key):
        self.key = key
        self.vcs = []
        self.failed = []
        self.error = None
        self.inv = None
        self.backends = {}
        self.time = 0
        self.loops = 0
        self.assumed = set()
        self.inlined = set()
        self.trusted = set()
        self.lemmas = set()
        self.inv_proved = 0
        self.trivial = 0


class OutOfTime(BaseException):
    pass


def out_of_time(*_):
    raise OutOfTime()


def verify(P, sorts, key, *a, limit=None, **kw):
    """Generates and discharges every obligation of one function."""
    c = SP.CONTRACTS.get(key)
    S.SYM = bool(c and c.opts.get('sym'))
    if limit:
        old = signal.signal(signal.SIGALRM, out_of_time)
        signal.setitimer(signal.ITIMER_REAL, max(1, limit))
    try:
        return verify0(P, sorts, key, *a, **kw)
    except OutOfTime:
        R = Result(key)
        R.error = 'the verifier did not finish within %d s' % limit
        R.time = limit
        return R
    finally:
        S.SYM = False
        if limit:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def verify0(P, sorts, key, pool, cache=None, timeout=10.0, verbose=False, full_budget=240, slow=1, deadline=None):
    R = Result(key)
    t0 = time.time()
    c = SP.CONTRACTS.get(key)
    if key not in P.functions or 'body' not in P.functions[key]:
        R.error = 'function not found in the source: ' + key
        return R
    V = vcgen.Verifier(P, sorts, key, c)
    try:
        V.run()
    except Unsupported as e:
        R.error = 'outside the verified subset: %s' % e
        return R
    except SP.SpecError as e:
        R.error = 'the contract does not fit the code: %s' % e
        return R
    except (z3.Z3Exception, KeyError, AssertionError, TypeError, AttributeError, IndexError) as e:
        import traceback
        R.error = 'verification conditions cannot be generated: %s: %s' % (type(e).__name__, e)
        if os.environ.get('GV_TRACE'):
            traceback.print_exc()
        return R
    R.V = V
    ax = solve.Axioms(V.T, c.uses if c else ())
    ax.add(V.facts + [v.goal for v in V.vcs] + [v.goal for L in V.loops for v in L.init + L.pres])
    R.lemmas = set(ax.uses) | set(ax.lemmas)
    axioms = ax.ax
    R.loops = len(V.loops)
    R.assumed = V.calls_used
    R.inlined = V.inlined
    R.trusted = V.trusted_used
    R.trivial = getattr(V, 'trivial', 0)
    tm = (c.timeout if c and c.timeout else timeout) * slow
    if verbose:
        print('  %s: %d obligations, %d loops, %d candidates, %d facts (%.1fs)' % (key, len(V.vcs), len(V.loops), sum(len(L.cands) for L in V.loops), len(V.facts), time.time() - t0), flush=True)

    def attempt(allowed, quick, deadline, to):
        for L in V.loops:
            for cd in L.cands:
                cd.alive = cd.en is not None
            for v in L.init:
                pass
        h = solve.houdini(V, axioms, pool, to, allowed, deadline, verbose, quick)
        ens = [str(cd.en) for L in V.loops for cd in L.cands if cd.alive]
        return h, ens

    def final(ens, vcs, full, to):
        if full:
            return final_full(ens, vcs, to)
        tasks = [(solve.check_vc, (V.facts, axioms, ens, v, to, full)) for v in vcs]
        res = pool.map(tasks, limit=to * 12 + 60)
        bad = []
        for v, r in zip(vcs, res):
            if r is None:
                v.status, v.solver, v.time, v.model = 'timeout', {}, 0, None
            else:
                v.status, v.solver, v.time, v.model = r
            if v.status != 'unsat':
                bad.append(v)
        return bad

    def final_full(ens, vcs, to):
        """what the first configuration did not prove: every configuration on every conjunct"""
        t1 = time.time()
        items, owner = [], []
        for v in vcs:
            base = list(axioms) + V.facts[:v.nfacts] + list(v.pc) + [z3.Bool(n) for n in ens]
            for hyps, g in solve.split_goal(v.goal):
                items.append((base + list(hyps), g))
                owner.append(v)
        res = solve.race(pool, items, to, deadline=deadline)
        for v in vcs:
            v.status, v.solver, v.model = 'unsat', {}, None
        for v, (f, g), (st, be) in zip(owner, items, res):
            v.solver[be] = v.solver.get(be, 0) + 1
            if st != 'unsat':
                v.status, v.model = st, g.sexpr()[:2000]
            v.time = time.time() - t1
        return [v for v in vcs if v.status != 'unsat']
    def cuts(ens):
        """proves the intermediate assertions (each from the facts before it); returns their enabling literals"""
        live = [(vc, en) for vc, en in V.cutvcs]
        while live:
            on = ens + [str(en) for _, en in live]
            bad = final(on, [vc for vc, _ in live], False, 2 * slow)
            if bad:
                bad = final_full(on, bad, min(tm, 8 * slow))
            if not bad:
                break
            live = [(vc, en) for vc, en in live if vc not in bad]
        R.cuts = [vc.desc for vc, _ in live]
        return [str(en) for _, en in live]

    cached = (cache or {}).get(key)
    done = False
    if V.loops:
        if cached is not None:
            allowed = {int(k): set(v) for k, v in cached.items()}
            h, ens = attempt(allowed, False, None, 3000 * slow)
            ens = ens + cuts(ens)
            if not h['killed'] or True:
                bad = final(ens, V.vcs, False, min(tm, 5 * slow))
                if not bad:
                    done = True
                elif not h['killed']:
                    bad = final(ens, bad, True, tm)
                    done = not bad
        if not done:
            h, ens = attempt(None, True, time.time() + full_budget, 1500 * slow)
            ens = ens + cuts(ens)
            bad = final(ens, V.vcs, False, min(tm, 5 * slow))
            if bad:
                bad = final(ens, bad, True, tm)
    else:
        h, ens = {'alive': {}, 'proved': 0, 'spent': 0, 'cores': {}}, cuts([])
        bad = final(ens, V.vcs, False, min(tm, 5 * slow))
        if bad:
            bad = final(ens, bad, True, tm)
    R.inv = h['alive']
    R.h = h
    R.cached = cached is not None and done
    R.inv_proved = h['proved']
    R.vcs = V.vcs
    R.failed = bad
    R.ens = ens
    R.axioms = axioms
    for v in V.vcs:
        for b, n in (v.solver or {}).items():
            R.backends[b] = R.backends.get(b, 0) + n
    if h['proved']:
        R.backends['z3-5.3 (invariants)'] = h['proved']
    R.time = time.time() - t0
    return R


def vacuity(R, pool):
    """the exit of the function must be reachable: `false` must not follow from the facts"""
    V = R.V
    if V.exit.dead:
        return True

    def f():
        st = solve.prove1(list(R.axioms) + V.facts + list(V.exit.pc) + [z3.Bool(n) for n in R.ens], z3.BoolVal(False), 2.0, False)
        return st[0]
    r = pool.map([(f, ())], 30)[0]
    return r != 'unsat'


def prove_lemmas(T, names, pool, timeout=10.0):
    """lemmas (transitively) used; returns {name: (status, backend, time)}"""
    todo, order = list(names), []
    while todo:
        n = todo.pop()
        if n in order or SP.LEMMAS[n].trusted:
            continue
        order.append(n)
        todo += SP.LEMMAS[n].uses + [h.split('(')[0].strip() for h in SP.LEMMAS[n].hints]
    tasks = []
    for n in order:
        lm = SP.LEMMAS[n]
        facts, goal = T.lemma_obligation(lm)
        ax = solve.Axioms(T, lm.uses)
        ax.add(facts + [goal])
        tasks.append((solve.prove, (ax.ax + facts, goal, timeout, True)))
    res = pool.map(tasks, timeout * 12 + 60)
    return {n: (r if r else ('timeout', {}, 0, None)) for n, r in zip(order, res)}
