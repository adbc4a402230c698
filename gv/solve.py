"""Discharging obligations: a pool of forked workers running z3 (5.3) in process, with cvc5 and z3 4.8 as fallback
back ends on the SMT-LIB text of the same obligation."""
import os, pickle, select, signal, subprocess, sys, tempfile, time, traceback
import z3
from . import sorts as S
from . import spec as SP
from .sorts import And, Or, Not, Implies

JOBS = int(os.environ.get('GV_JOBS', '8'))


def z3cfg(seed=0, mbqi=False, **kw):
    z3.set_param('auto_config', False)
    z3.set_param('smt.mbqi', mbqi)
    z3.set_param('smt.random_seed', seed)
    for k, v in kw.items():
        z3.set_param(k, v)


z3cfg()


class Pool:
    """runs fn(*args) in forked children; results by pickle over a pipe"""

    def __init__(self, jobs=JOBS):
        self.jobs = jobs

    def map(self, tasks, limit, on_result=None, deadline=None, skip=None):
        """tasks: list of (fn, args); limit: seconds per task; returns list of results (None: killed/failed)"""
        res = [None] * len(tasks)
        todo = list(range(len(tasks)))[::-1]
        live = {}
        try:
            while todo or live:
                while todo and len(live) < self.jobs:
                    if deadline and time.time() > deadline:
                        todo = []
                        break
                    i = todo.pop()
                    if skip and skip(i):
                        continue
                    r, w = os.pipe()
                    sys.stdout.flush()
                    sys.stderr.flush()
                    pid = os.fork()
                    if pid == 0:
                        code = 0
                        try:
                            os.close(r)
                            os.setpgid(0, 0)
                            signal.setitimer(signal.ITIMER_REAL, 0)
                            fn, args = tasks[i]
                            out = fn(*args)
                            with os.fdopen(w, 'wb') as f:
                                pickle.dump(out, f)
                        except BaseException:
                            traceback.print_exc()
                            code = 1
                        finally:
                            sys.stderr.flush()
                            os._exit(code)
                    os.close(w)
                    live[r] = [pid, i, time.time(), b'']
                if not live:
                    continue
                rd, _, _ = select.select(list(live), [], [], 0.2)
                for r in rd:
                    b = os.read(r, 1 << 20)
                    if b:
                        live[r][3] += b
                    else:
                        pid, i, t0, data = live.pop(r)
                        os.close(r)
                        os.waitpid(pid, 0)
                        try:
                            res[i] = pickle.loads(data) if data else None
                        except Exception:
                            res[i] = None
                        if on_result:
                            on_result(i, res[i])
                now = time.time()
                for r in list(live):
                    pid, i, t0, data = live[r]
                    if now - t0 > limit or (skip and skip(i)) or (deadline and now > deadline + 5):
                        try:
                            os.killpg(pid, signal.SIGKILL)
                        except OSError:
                            try:
                                os.kill(pid, signal.SIGKILL)
                            except OSError:
                                pass
                        os.waitpid(pid, 0)
                        os.close(r)
                        del live[r]
                        if on_result:
                            on_result(i, None)
        finally:
            for r, (pid, i, t0, data) in live.items():
                for kill in (os.killpg, os.kill):
                    try:
                        kill(pid, signal.SIGKILL)
                        break
                    except OSError:
                        pass
                try:
                    os.waitpid(pid, 0)
                    os.close(r)
                except OSError:
                    pass
        return res


def split_goal(goal, hyps=(), depth=0):
    """conjuncts of the goal with universal quantifiers replaced by fresh constants"""
    if z3.is_and(goal):
        for c in goal.children():
            yield from split_goal(c, hyps, depth)
        return
    if z3.is_not(goal):
        g = goal.arg(0)
        if z3.is_not(g):
            yield from split_goal(g.arg(0), hyps, depth)
            return
        if z3.is_or(g):
            for c in g.children():
                yield from split_goal(Not(c), hyps, depth)
            return
        if z3.is_implies(g):
            yield from split_goal(g.arg(0), hyps, depth)
            yield from split_goal(Not(g.arg(1)), hyps, depth)
            return
        if z3.is_quantifier(g) and g.is_exists():
            vs = [z3.FreshConst(g.var_sort(i), 'sk_' + g.var_name(i).split('!')[0]) for i in range(g.num_vars())]
            yield from split_goal(Not(z3.substitute_vars(g.body(), *reversed(vs))), hyps, depth)
            return
        if z3.is_and(g) and any(z3.is_quantifier(c) or z3.is_not(c) and z3.is_quantifier(c.arg(0)) for c in g.children()):
            # Not(a and b) with a quantifier inside: as a => Not(b)
            cs = g.children()
            q = [c for c in cs if z3.is_quantifier(c) or z3.is_not(c) and z3.is_quantifier(c.arg(0))][-1]
            yield from split_goal(Not(q), hyps + tuple(c for c in cs if not c.eq(q)), depth)
            return
    if z3.is_implies(goal):
        yield from split_goal(goal.arg(1), hyps + (goal.arg(0),), depth)
        return
    if z3.is_quantifier(goal) and goal.is_forall():
        n = goal.num_vars()
        vs = [z3.FreshConst(goal.var_sort(i), 'sk_' + goal.var_name(i).split('!')[0]) for i in range(n)]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        yield from split_goal(body, hyps, depth)
        return
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and goal.sort() == S.Bool:
        c, a, b = goal.children()
        yield from split_goal(a, hyps + (c,), depth)
        yield from split_goal(b, hyps + (Not(c),), depth)
        return
    if z3.is_or(goal) and any(z3.is_quantifier(c) for c in goal.children()):
        qs = [c for c in goal.children() if z3.is_quantifier(c) and c.is_forall()]
        if qs:
            rest = [c for c in goal.children() if not c.eq(qs[0])]
            yield from split_goal(qs[0], hyps + tuple(Not(r) for r in rest), depth)
            return
    if z3.is_eq(goal) and depth < 14:
        a, b = goal.children()
        for x, y in ((a, b), (b, a)):
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(y):
                c, p, q = y.children()
                yield from split_goal(x == p, hyps + (c,), depth + 1)
                yield from split_goal(x == q, hyps + (Not(c),), depth + 1)
                return
    yield hyps, goal


def symbols(t, seen, out):
    stack = [t]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                out.add(d.name())
            stack.extend(x.children())


_keep = []


class Axioms:
    """definitional axioms of the logic functions that occur, plus the lemmas a contract uses"""

    def __init__(self, T, uses=(), reveal=()):
        self.T, self.uses, self.reveal = T, list(uses), set(reveal)
        self.cache = {}
        self.lemmas = []
        self.seen = set()
        self.syms = set()
        self.done = set()
        self.ax = []
        for u in self.uses:
            lm = SP.LEMMAS[u]
            a = T.lemma_axiom(lm)
            self.ax.append(a)
            _keep.append(a)
            symbols(a, self.seen, self.syms)

    def add(self, terms):
        for t in terms:
            symbols(t, self.seen, self.syms)
        self.close()

    def close(self):
        while True:
            new = [s for s in self.syms if s not in self.done]
            if not new:
                return
            for s in new:
                self.done.add(s)
                if s.startswith('S_') and s[2:] in ('add', 'sub', 'mul', 'div', 'neg'):
                    for a in S.sym_axioms(s[2:]):
                        _keep.append(a)
                        self.ax.append(a)
                        symbols(a, self.seen, self.syms)
                if s.startswith('L_') and not s.endswith('__0'):
                    n = s[2:]
                    axs = []
                    if n in SP.LOGIC and not SP.LOGIC[n].opaque:
                        axs = self.T.logic_axioms(n)
                    for lname, lm in SP.LEMMAS.items():
                        if lm.trusted and n in (lm.trusted if isinstance(lm.trusted, (list, tuple)) else [lm.trusted]) and lname not in self.lemmas:
                            self.lemmas.append(lname)
                            axs = axs + [self.T.lemma_axiom(lm)]
                    for a in axs:
                        _keep.append(a)
                        self.ax.append(a)
                        symbols(a, self.seen, self.syms)


def make_solver(timeout_ms, **cfg):
    if cfg:
        z3cfg(**cfg)
    s = z3.Solver()
    set_limit(s, timeout_ms)
    return s


RATE = 3000      # resource units per millisecond: limits that do not depend on the load of the machine


def set_limit(s, ms):
    s.set('rlimit', int(ms * RATE))
    s.set('timeout', int(ms * 3))


def cvc5_text(facts, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(Not(goal))
    return s.to_smt2()


def run_external(cmd, text, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        name = f.name
    try:
        r = subprocess.run(cmd + [name], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=timeout + 3)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        return o
    except subprocess.TimeoutExpired:
        return 'timeout'
    finally:
        os.unlink(name)


def prove(facts, goal, timeout=10.0, full=True):
    """returns (status, backend, time): status in unsat (proved) / sat / unknown.  One call proves the whole goal,
    conjunct by conjunct."""
    t0 = time.time()
    backends = {}
    for hyps, g in split_goal(goal):
        st, be = prove1(facts + list(hyps), g, timeout, full)
        backends[be] = backends.get(be, 0) + 1
        if st != 'unsat':
            return st, backends, time.time() - t0, g.sexpr()[:2000]
    return 'unsat', backends, time.time() - t0, None


def prove1(facts, g, timeout, full):
    if z3.is_true(g):
        return 'unsat', 'simplifier'
    z3cfg(0, False)
    s = make_solver(int(min(timeout, 4 if full else timeout) * 1000))
    for f in facts:
        s.add(f)
    s.add(Not(g))
    r = str(s.check())
    if r == 'unsat':
        return r, 'z3-5.3'
    if not full:
        return r, 'z3-5.3'
    best = r
    for cfg in ({'seed': 7, 'smt.arith.solver': 2}, {'seed': 3, 'smt.relevancy': 0, 'smt.arith.solver': 6}):
        z3cfg(cfg['seed'], False, **{k: v for k, v in cfg.items() if k != 'seed'})
        s = make_solver(int(timeout * 1000))
        for f in facts:
            s.add(f)
        s.add(Not(g))
        r = str(s.check())
        z3.set_param('smt.arith.solver', 6)
        z3.set_param('smt.relevancy', 2)
        if r == 'unsat':
            return r, 'z3-5.3'
    txt = cvc5_text(facts, g)
    o = run_external(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant'], '(set-logic ALL)\n' + txt, timeout)
    if o == 'unsat':
        return 'unsat', 'cvc5-1.1'
    o = run_external(['z3', '-T:%d' % int(timeout)], txt, timeout)
    if o == 'unsat':
        return 'unsat', 'z3-4.8'
    return best, 'none'


CONFIGS = [('z3-5.3', {'seed': 0}), ('z3-5.3', {'seed': 5, 'smt.qi.eager_threshold': 3.0}), ('z3-5.3', {'seed': 7, 'smt.arith.solver': 2}), ('z3-5.3 nlsat', 'ground'), ('z3-5.3', {'seed': 3, 'smt.relevancy': 0}),
           ('cvc5-1.1', 'cvc5'), ('z3-4.8', 'z3'), ('z3-5.3', {'seed': 11, 'smt.arith.nl.tangents': False}), ('z3-5.3', {'seed': 13, 'smt.qi.eager_threshold': 100.0})]


def prove_cfg(facts, g, timeout, cfg):
    """one configuration on one goal; returns 'unsat' or something else"""
    if cfg == 'cvc5':
        return run_external(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant'], '(set-logic ALL)\n' + cvc5_text(facts, g), timeout)
    if cfg == 'z3':
        return run_external(['z3', '-T:%d' % int(timeout)], cvc5_text(facts, g), timeout)
    if cfg == 'ground':
        return ground_nlsat(facts, g, timeout)
    z3cfg(cfg['seed'], False, **{k: v for k, v in cfg.items() if k != 'seed'})
    s = make_solver(int(timeout * 1000))
    for f in facts:
        s.add(f)
    s.add(Not(g))
    return str(s.check())


def ground_nlsat(facts, g, timeout):
    """quantifier-free part only, uninterpreted terms abstracted, decided by the nonlinear real solver"""
    gs = z3.Goal()
    for f in facts:
        if not has_quant(f):
            gs.add(f)
    gs.add(Not(g))
    t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'purify-arith', 'smt'), int(timeout * 1000))
    s = t.solver()
    s.add(*gs)
    return str(s.check())


_hq = {}


def has_quant(t):
    k = t.get_id()
    if k not in _hq:
        _hq[k] = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
        _keep.append(t)
    return _hq[k]


def race(pool, items, timeout, configs=None, deadline=None):
    """items: list of (facts, goal); every configuration is tried on every goal, in order of preference, several at a
    time; a goal's remaining configurations are cancelled when one succeeds.  Returns [(status, backend)]"""
    configs = configs or CONFIGS
    out = [('unknown', 'none')] * len(items)
    tasks, meta = [], []
    for be, cfg in configs:
        for i, (facts, g) in enumerate(items):
            tasks.append((prove_cfg, (facts, g, timeout, cfg)))
            meta.append((i, be))
    done = set()

    def on(ti, r):
        i, be = meta[ti]
        if r == 'unsat' and i not in done:
            done.add(i)
            out[i] = ('unsat', be)
        elif r == 'sat' and i not in done and be != 'z3-5.3 nlsat':
            out[i] = ('sat', be)
    pool.map(tasks, timeout * 3 + 8, on, skip=lambda ti: meta[ti][0] in done, deadline=deadline)
    return out


# ---------------------------------------------------------------- Houdini
def check_group(facts, axioms, vcs, enmap, timeout_ms, quick, groups=None):
    """Checks invariant candidates of one loop and phase; returns {vc.id: (proved, core names)}"""
    out = {}
    allens = [z3.Bool(n) for n in enmap]
    t0 = time.time()
    for vc in vcs:
        subs = list(split_goal(vc.goal))
        ok = True
        core = set()
        ens, few = allens, None
        if groups:
            few = [z3.Bool(n) for n in enmap if groups.get(n) in (None, vc.cand.group)]
            few = few if len(few) + 8 < len(ens) else None
        s = z3.Solver()
        set_limit(s, timeout_ms)
        for f in axioms:
            s.add(f)
        for f in facts[:vc.nfacts]:
            s.add(f)
        for p in vc.pc:
            s.add(p)
        for hyps, g in subs:
            if z3.is_true(g):
                continue
            s.push()
            for h in hyps:
                s.add(h)
            s.add(Not(g))
            r = s.check(*ens)
            if r == z3.unknown and few is not None:
                # too much in context: the hints of other templates are left out
                # (in a fresh solver: one that was interrupted is not used again)
                s2 = z3.Solver()
                set_limit(s2, timeout_ms)
                for f in list(axioms) + facts[:vc.nfacts] + list(vc.pc) + list(hyps) + [Not(g)]:
                    s2.add(f)
                r = s2.check(*few)
                if r == z3.unsat:
                    core |= {str(x) for x in s2.unsat_core()}
                    s = z3.Solver()
                    set_limit(s, timeout_ms)
                    for f in list(axioms) + facts[:vc.nfacts] + list(vc.pc):
                        s.add(f)
                    continue
            if r == z3.unsat:
                core |= {str(x) for x in s.unsat_core()}
                s.pop()
            else:
                ok = False
                break
        if not ok and not quick:
            # a second attempt with a fresh solver and another configuration
            st = prove([f for f in axioms] + facts[:vc.nfacts] + list(vc.pc) + allens, vc.goal, timeout_ms / 1000.0, full=True)
            if st[0] == 'unsat':
                ok = True
                core = set(enmap)
        out[vc.id] = (ok, core)
    return out, time.time() - t0


def houdini(V, axioms, pool, timeout_ms, allowed=None, deadline=None, verbose=False, quick=True):
    """Weakest-candidate elimination; returns the surviving candidates per loop.  allowed: {loop n: set(names)}"""
    cands = []
    for L in V.loops:
        for c in L.cands:
            if c.alive and allowed is not None and c.name not in allowed.get(L.n, ()):
                c.alive = False
            if c.alive:
                cands.append(c)
    groups = {str(c.en): c.group for L in V.loops for c in L.cands if c.alive}
    proved = {}
    vcs = [v for L in V.loops for v in L.init + L.pres]
    rounds = 0
    spent = 0.0
    killed = []
    while True:
        rounds += 1
        alive = {str(c.en) for L in V.loops for c in L.cands if c.alive}
        work = {}
        for v in vcs:
            if not v.cand.alive:
                continue
            if v.id in proved and proved[v.id] <= alive:
                continue
            work.setdefault((v.loop.n, v.kind), []).append(v)
        if not work:
            break
        tasks, meta = [], []
        for k, vs in work.items():
            step = max(1, min(4, (len(vs) + 7) // 8)) if len(work) < 8 else 4
            for i in range(0, len(vs), step):
                tasks.append((check_group, (V.facts, axioms, vs[i:i + step], sorted(alive), timeout_ms, quick, groups)))
                meta.append(vs[i:i + step])
        res = pool.map(tasks, limit=max(90, 16 * timeout_ms / 1000.0 * 6), deadline=deadline)
        dead = 0
        for vs, r in zip(meta, res):
            if r is None:
                for v in vs:
                    if v.cand.alive:
                        v.cand.alive = False
                        killed.append(v)
                        dead += 1
                continue
            spent += r[1]
            for v in vs:
                ok, core = r[0][v.id]
                if ok:
                    proved[v.id] = core
                elif v.cand.alive:
                    v.cand.alive = False
                    killed.append(v)
                    dead += 1
        if verbose:
            print('   houdini round %d: checked %d, removed %d' % (rounds, sum(len(v) for v in work.values()), dead), flush=True)
        if deadline and time.time() > deadline:
            # out of time before the fixpoint: only what is proved from what remains is kept
            while True:
                alive = {str(c.en) for L in V.loops for c in L.cands if c.alive}
                bad = [v for v in vcs if v.cand.alive and not (v.id in proved and proved[v.id] <= alive)]
                if not bad:
                    break
                for v in bad:
                    if v.cand.alive:
                        v.cand.alive = False
                        killed.append(v)
            break
    return {'rounds': rounds, 'killed': killed, 'spent': spent,
            'cores': proved,
            'alive': {L.n: [c.name for c in L.cands if c.alive] for L in V.loops},
            'proved': sum(1 for v in vcs if v.cand.alive)}


def core_vc(facts, axioms, ens, vc, timeout):
    """names of the enabling literals a proof of the obligation uses (None: not proved this way)"""
    out = set()
    bools = [z3.Bool(n) for n in ens]
    for hyps, g in split_goal(vc.goal):
        if z3.is_true(g):
            continue
        s = make_solver(int(timeout * 1000))
        for f in list(axioms) + facts[:vc.nfacts] + list(vc.pc) + list(hyps) + [Not(g)]:
            s.add(f)
        if s.check(*bools) != z3.unsat:
            return None
        out |= {str(x) for x in s.unsat_core()}
    return out


def check_vc(facts, axioms, ens, vc, timeout, full):
    return prove(list(axioms) + facts[:vc.nfacts] + list(vc.pc) + [z3.Bool(n) for n in ens], vc.goal, timeout, full)
