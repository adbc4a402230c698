"""Verification-condition generation: symbolic execution of the exported IR with state merging, loop invariants from
candidate sets (Houdini) and modular use of callee contracts."""
import itertools, re
from fractions import Fraction
import z3
from . import sorts as S
from . import spec as SP
from .sorts import F, Int, Bool, Real, And, Or, Not, Implies, If, fin, Unsupported
from .spec import forall


class Alias:
    def __init__(self, root, steps):
        self.root, self.steps = root, steps

    def __repr__(self):
        return 'Alias(%s,%s)' % (self.root, self.steps)


class State:
    __slots__ = ('pc', 'env', 'dead')

    def __init__(self, pc=(), env=None, dead=False):
        self.pc, self.env, self.dead = pc, env if env is not None else {}, dead

    def copy(self):
        return State(self.pc, dict(self.env), self.dead)


class VC:
    __slots__ = ('id', 'kind', 'desc', 'line', 'nfacts', 'pc', 'goal', 'loop', 'cand', 'fn', 'status', 'solver', 'time', 'model', 'core')

    def __init__(self, id, kind, desc, line, nfacts, pc, goal, fn, loop=None, cand=None):
        self.id, self.kind, self.desc, self.line, self.nfacts, self.pc, self.goal, self.fn = id, kind, desc, line, nfacts, pc, goal, fn
        self.loop, self.cand = loop, cand
        self.status = None
        self.solver = None
        self.time = 0
        self.model = None


class Cand:
    def __init__(self, name, fn, auto=False):
        self.name, self.fn, self.auto = name, fn, auto
        self.en = None
        self.group = None
        self.alive = True


class Loop:
    def __init__(self, n, line, frame):
        self.n, self.line, self.frame = n, line, frame
        self.cands = []
        self.init, self.pres = [], []
        self.counters = []


class Frame:
    def __init__(self, no, fn):
        self.no, self.fn = no, fn
        self.returns = []
        self.names = {}


IO_TYPES = ('rec:std::basic_ostream', 'rec:std::basic_stringstream', 'rec:std::basic_ostringstream', 'rec:std::basic_istringstream', 'rec:std::basic_ios')

MATH1 = {'exp': 'fexp', 'log': 'flog', 'sqrt': 'fsqrt', 'sin': 'fsin', 'cos': 'fcos', 'acos': 'facos', 'asin': 'fasin', 'tan': 'ftan', 'atan': 'fatan', 'log10': 'flog10'}
MATH2 = {'pow': 'fpow', 'atan2': 'fatan2', 'fmod': 'ffmod'}


_gf = {}


def ground_fact(f):
    """no quantifier and no candidate-invariant switch inside"""
    k = f.get_id()
    if k in _gf:
        return _gf[k][0]
    seen = set()
    stack = [f]
    ok = True
    while stack and ok:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            ok = False
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().name().startswith('en!'):
                ok = False
            stack.extend(x.children())
    _gf[k] = (ok, f)
    return ok


class Verifier:
    """Verifies one function against its contract (or for safety only)."""

    def __init__(self, P, sorts, key, contract=None, opts=None):
        self.P, self.S, self.key, self.c = P, sorts, key, contract
        self.fn = P.functions[key]
        self.T = SP.Trans(sorts, P.enumconst)
        self.T.reveal = set(contract.reveal) if contract else set()
        self.facts, self.vcs, self.loops = [], [], []
        self.throws = []
        self.fresh_n = 0
        self.frames = []
        self.st = State()
        self.brk, self.cont = [], []
        self.depth = 0
        self.omp = []
        self.types = {}
        self.calls_used = set()
        self.inlined = set()
        self.trusted_used = set()
        self.opts = opts or {}
        self.vcid = 0
        self.axioms = []
        self.pctx = {}
        self.nonlin = False
        self.loopstack = []
        self.tmpn = 0
        self.qs = z3.Solver()
        self.qs.set('timeout', 100)
        self.qn, self.qver, self.qcache, self.qkeep, self.nq = 0, 0, {}, [], 0
        self.unsup = []
        self.in_cand = False
        self.cutvcs = []
        self.centry = {}

    # ------------------------------------------------------------ quick decisions on the current path
    def entails(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c) or self.st.dead:
            return False
        for p in self.st.pc:
            if p.eq(c):
                return True
        q = self.qs
        while self.qn < len(self.facts):
            f = self.facts[self.qn]
            self.qn += 1
            if ground_fact(f):
                q.add(f)
                self.qver += 1
        key = (c.get_id(), tuple(p.get_id() for p in self.st.pc))
        hit = self.qcache.get(key)
        if hit is not None and (hit[0] or hit[1] == self.qver):
            return hit[0]
        self.nq += 1
        q.push()
        for p in self.st.pc:
            if ground_fact(p):
                q.add(p)
        q.add(Not(c))
        r = q.check() == z3.unsat
        q.pop()
        self.qkeep.append((c, self.st.pc))
        self.qcache[key] = (r, self.qver)
        return r

    def reset_oracle(self):
        self.qs = z3.Solver()
        self.qs.set('timeout', 100)
        self.qn, self.qver, self.qcache = 0, 0, {}

    def decide(self, c):
        if self.entails(c):
            return True
        if self.entails(Not(c)):
            return False
        return None

    def spec(self, text, env):
        sv, S.ORACLE = S.ORACLE, None
        try:
            return self.T.bool(text, env)
        finally:
            S.ORACLE = sv

    # ------------------------------------------------------------ utilities
    def fresh(self, name, sort, deep=True):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        if deep and self.S.is_vec(sort):
            es = self.S.elem(sort)
            return self.S.mkvec(es, z3.Int(n + '.len'), z3.Const(n + '.arr', z3.ArraySort(Int, es)))
        return z3.Const(n, sort)

    def pcterm(self, pc=None):
        return And(*(self.st.pc if pc is None else pc))

    def assume(self, f):
        if self.st.dead:
            return
        f = Implies(self.pcterm(), f)
        if not z3.is_true(f):
            self.facts.append(f)

    def oblige(self, kind, goal, line, desc, assume=True):
        if self.st.dead or z3.is_true(goal):
            if not self.st.dead:
                self.trivial = getattr(self, 'trivial', 0) + 1
            return
        self.vcid += 1
        self.vcs.append(VC(self.vcid, kind, desc, line, len(self.facts), self.st.pc, goal, self.key))
        if assume:
            self.assume(goal)

    def addpc(self, st, c):
        if z3.is_true(c):
            return
        if z3.is_false(c):
            st.dead = True
            return
        st.pc = st.pc + (c,)

    def split(self, c):
        a, b = self.st.copy(), self.st.copy()
        self.addpc(a, c)
        self.addpc(b, Not(c))
        return a, b

    def named(self, base, term):
        self.fresh_n += 1
        k = z3.Const('%s!%d' % (base, self.fresh_n), term.sort())
        self.facts.append(k == term)
        return k

    def nameterm(self, base, term):
        """a constant standing for a (big) term, so that triggers and path facts stay small"""
        if z3.is_const(term) or S.size(term) if False else z3.is_const(term):
            return term
        s = term.sort()
        if self.S.is_vec(s):
            es = self.S.elem(s)
            ln, ar = self.S.vlen(term), self.S.varr(term)
            if not (z3.is_const(ln) or z3.is_int_value(ln)):
                ln = self.named(base + '.len', ln)
            if not (z3.is_const(ar) or z3.is_K(ar)):
                ar = self.named(base + '.arr', ar)
            return self.S.mkvec(es, ln, ar)
        return self.named(base, term)

    def merge(self, states):
        states = [s for s in states if not s.dead]
        if not states:
            return State(dead=True)
        if len(states) == 1:
            return states[0]
        # common prefix
        k = 0
        m = min(len(s.pc) for s in states)
        while k < m and all(s.pc[k].eq(states[0].pc[k]) for s in states):
            k += 1
        prefix = states[0].pc[:k]
        rests = [And(*s.pc[k:]) for s in states]
        if len(states) == 2 and len(states[0].pc) == k + 1 and len(states[1].pc) == k + 1 and (
                rests[0].eq(Not(rests[1])) or rests[1].eq(Not(rests[0]))):
            pc = prefix
        elif any(len(s.pc) == k for s in states):
            pc = prefix
        else:
            self.fresh_n += 1
            p = z3.Bool('pc!%d' % self.fresh_n)
            d = p == Or(*rests)
            self.facts.append(d)
            pc = prefix + (p,)
        env = {}
        keys = set(states[0].env)
        for s in states[1:]:
            keys &= set(s.env)
        for key in states[0].env:
            if key not in keys:
                continue
            vals = [s.env[key] for s in states]
            v0 = vals[0]
            if isinstance(v0, Alias):
                if all(isinstance(v, Alias) and v.root == v0.root and len(v.steps) == len(v0.steps) for v in vals):
                    env[key] = v0
                continue
            if any(isinstance(v, Alias) for v in vals):
                continue
            if all(v is v0 or v.eq(v0) for v in vals):
                env[key] = v0
                continue
            env[key] = self.mergeval(key, rests, vals)
        return State(pc, env)

    def mergeval(self, key, conds, vals):
        s = vals[0].sort()
        if self.S.is_vec(s):
            es = self.S.elem(s)
            ln = self.mergeval(key, conds, [self.S.vlen(v) for v in vals]) if not all(self.S.vlen(v).eq(self.S.vlen(vals[0])) for v in vals) else self.S.vlen(vals[0])
            ar = self.mergeval(key, conds, [self.S.varr(v) for v in vals]) if not all(self.S.varr(v).eq(self.S.varr(vals[0])) for v in vals) else self.S.varr(vals[0])
            return self.S.mkvec(es, ln, ar)
        if self.S.is_rec(s):
            d, fs = self.S.rec_by_sort[s.get_id()]
            out = []
            for f in fs:
                xs = [self.S.field(v, f) for v in vals]
                out.append(xs[0] if all(x.eq(xs[0]) for x in xs) else self.mergeval(key, conds, xs))
            return d.constructor(0)(*out)
        t = vals[-1]
        for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
            t = If(c, v, t)
        if s == Bool or z3.is_const(t):
            return t
        return self.named('m', t)

    # ------------------------------------------------------------ paths
    def key_of(self, n):
        return (self.frames[-1].no, n['id'])

    def resolve(self, key, steps=()):
        v = self.st.env.get(key)
        while isinstance(v, Alias):
            key, steps = v.root, tuple(v.steps) + tuple(steps)
            v = self.st.env.get(key)
        return key, tuple(steps)

    def read(self, path, record=True):
        root, steps = self.resolve(*path)
        v = self.st.env.get(root)
        if v is None:
            raise Unsupported('read of unknown variable %s' % (root,))
        if record:
            self.record_access(root, steps, False)
        for s in steps:
            if s[0] == 'idx':
                v = self.S.at(v, s[1])
            else:
                v = self.S.field(v, s[1])
        return v

    def write(self, path, val):
        root, steps = self.resolve(*path)
        self.record_access(root, steps, True)
        cur = self.st.env.get(root)

        def go(v, i):
            if i == len(steps):
                return val
            k, a = steps[i]
            if k == 'idx':
                return self.S.upd(v, a, go(self.S.at(v, a), i + 1))
            return self.S.setfield(v, a, go(self.S.field(v, a), i + 1))
        nv = go(cur, 0) if steps else val
        if steps and not z3.is_const(nv):
            nv = self.nameterm('w', nv)
        self.st.env[root] = nv

    def tmp(self, val, base='tmp'):
        self.tmpn += 1
        k = ('t', self.tmpn)
        self.st.env[k] = val
        return k

    def record_access(self, root, steps, iswrite):
        for o in self.omp:
            if root in o['shared']:
                o['acc'].append((root, steps, iswrite, self.st.pc, len(self.facts), self.curline))

    curline = 0

    # ------------------------------------------------------------ lvalues
    def lval(self, e):
        k = e['k']
        if k == 'var':
            if e.get('glob'):
                return (('g', e['q']), ()) if ('g', e['q']) in self.st.env else (self.tmp(self.globval(e)), ())
            return (self.key_of(e), ())
        if k == 'member':
            b = e['base']
            if b['k'] == 'this':
                return self.resolve(self.thiskey(), (('fld', e['field']),))
            r, s = self.lval(b)
            return (r, tuple(s) + (('fld', e['field']),))
        if k == 'upcast':
            return self.lval(e['e'])
        if k == 'this':
            return (self.thiskey(), ())
        if k == 'un' and e['op'] == '*':
            if e['e']['k'] == 'this':
                return (self.thiskey(), ())
            return self.lval(e['e'])
        if k == 'un' and e['op'] == '&':
            return self.lval(e['e'])
        if k == 'call':
            q = e['fn']['q']
            short = q.split('::')[-1]
            t = self.ct(e.get('objt')) if 'obj' in e else None
            if t and t[0] == 'vec' and short in ('operator[]', 'at', 'front', 'back'):
                r, s = self.lval(e['obj'])
                i = self.expr(e['args'][0]) if e['args'] else None
                v = self.read((r, s), record=False)
                ln = self.S.vlen(v)
                if short == 'front':
                    i = z3.IntVal(0)
                if short == 'back':
                    i = ln - 1
                self.curline = e['ln']
                if short == 'at':
                    st_t, st_n = self.split(Or(i < 0, i >= ln))
                    self.do_throw(st_t, e['ln'])
                    self.st = st_n
                else:
                    self.oblige('bounds', And(i >= 0, i < ln), e['ln'], 'index within the vector')
                return (r, tuple(s) + (('idx', i),))
            if short in ('operator*', 'operator->', 'get') and 'obj' in e and e['objt'].startswith(('sptr', 'rec:std::__shared_ptr_access')):
                return self.lval(e['obj'])
        if k == 'index':
            r, s = self.lval(e['base'])
            i = self.expr(e['i'])
            v = self.read((r, s), record=False)
            if not self.S.is_vec(v.sort()):
                raise Unsupported('index of %s' % v.sort())
            self.oblige('bounds', And(i >= 0, i < self.S.vlen(v)), e['ln'], 'index within the array')
            return (r, tuple(s) + (('idx', i),))
        if k in ('assign', 'cassign') or (k == 'un' and e['op'] in ('++', '--')):
            self.expr(e)
            return self.lval(e['l'] if 'l' in e else e['e'])
        if k == 'call' and e['fn']['own'] and e['t'] != 'void':
            return (self.tmp(self.expr(e)), ())
        return (self.tmp(self.expr(e)), ())

    def ct(self, t):
        return S.parse_type(t) if t else None

    def thiskey(self):
        return (self.frames[-1].no, 'this')

    def globval(self, e):
        q = e['q']
        g = self.P.globals.get(q)
        if g and g.get('init') is not None and g.get('const', True):
            saved = self.frames
            v = self.expr(g['init'])
            want = self.S.of(g['t'])
            return self.T.coerce(v, want) if v.sort() != want else v
        if q.endswith('::cout') or q.endswith('::cerr'):
            return z3.Const('io', self.S.opq('io'))
        # mutable global: an arbitrary value, the same at every read while nothing writes it
        k = ('g', q)
        if k not in self.st.env:
            self.st.env[k] = z3.Const('glob_' + q.replace('::', '_'), self.S.of(e['t']))
        return self.st.env[k]

    # ------------------------------------------------------------ expressions
    LV = ('var', 'member', 'index')

    def expr(self, e):
        if e is None:
            raise Unsupported('missing expression')
        if 'ln' in e:
            self.curline = e['ln'] if not self.frames or len(self.frames) == 1 else self.curline
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('%s (%s) at line %s' % (e['k'], e.get('what', ''), e.get('ln')))
        return m(e)

    def e_unsup(self, e):
        raise Unsupported('%s at line %s' % (e.get('what'), e.get('ln')))

    def e_int(self, e):
        return z3.IntVal(int(e['v']))

    def e_enumc(self, e):
        return z3.IntVal(int(e['v']))

    def e_bool(self, e):
        return z3.BoolVal(e['v'])

    def e_float(self, e):
        t = e['v'].rstrip('fFlL')
        try:
            return fin(Fraction(repr(float(t))))
        except ValueError:
            return fin(Fraction(float(e['d'])))

    def e_str(self, e):
        return z3.Const('str_' + re.sub(r'\W', '_', e['v']) + '_%d' % (hash(e['v']) % 1000003 if False else len(e['v'])), self.S.opq('Str'))

    def e_null(self, e):
        raise Unsupported('null pointer')

    def e_zero(self, e):
        return self.S.default(self.S.of(e['t']))

    def e_this(self, e):
        return self.read((self.thiskey(), ()))

    def e_var(self, e):
        if e.get('glob'):
            return self.globval(e)
        if e.get('staticlocal'):
            raise Unsupported('static local variable')
        return self.read((self.key_of(e), ()))

    def e_member(self, e):
        return self.read(self.lval(e))

    def e_index(self, e):
        return self.read(self.lval(e))

    def e_upcast(self, e):
        v = self.expr(e['e'])
        want = self.S.of(e['t'])
        if v.sort() == want:
            return v
        if self.S.is_rec(v.sort()) and not self.S.is_rec(want):
            f = z3.Function('up_%s_%s' % (v.sort(), want), v.sort(), want)
            return f(v)
        if self.S.is_rec(v.sort()) and self.S.is_rec(want):
            d, fs = self.S.rec_by_sort[want.get_id()]
            return d.constructor(0)(*[self.S.field(v, f) for f in fs])
        raise Unsupported('upcast')

    def e_tovoid(self, e):
        self.expr(e['e'])
        return z3.BoolVal(True)

    def convert(self, x, src, dst):
        """C conversion of scalar x from type src to dst"""
        if src == dst:
            return x
        if dst == 'bool':
            if src in S.FLOATS:
                return Not(S.feq(x, fin(0)))
            if src == 'bool':
                return x
            return Not(x == 0)
        if src == 'bool':
            i = If(x, z3.IntVal(1), z3.IntVal(0))
            return S.i2f(i) if dst in S.FLOATS else i
        if src.startswith('enum:'):
            src = 'i32'
        if dst.startswith('enum:'):
            dst = 'i32'
        if src in S.INTS and dst in S.INTS:
            return S.int_cast(x, src, dst) if src != dst else x
        if src in S.INTS and dst in S.FLOATS:
            return S.i2f(x)
        if src in S.FLOATS and dst in S.INTS:
            return S.f2i(x)
        if src in S.FLOATS and dst in S.FLOATS:
            return x
        raise Unsupported('conversion %s -> %s' % (src, dst))

    def e_cast(self, e):
        x = self.expr(e['e'])
        ck = e['ck']
        if ck in ('IntegralCast', 'IntegralToBoolean', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            return self.convert(x, e['from'], e['t'])
        if ck == 'PointerToBoolean':
            raise Unsupported('pointer test')
        raise Unsupported('cast ' + ck)

    def e_cond(self, e):
        c = self.expr(e['c'])
        a, b = self.split(c)
        s0 = self.st
        self.st = a
        va = self.expr(e['l']) if not a.dead else None
        a = self.st
        self.st = b
        vb = self.expr(e['r']) if not b.dead else None
        b = self.st
        if a.dead and b.dead:
            self.st = a
            return va if va is not None else vb
        if a.dead or va is None:
            self.st = b
            return vb
        if b.dead or vb is None:
            self.st = a
            return va
        self.st = self.merge([a, b])
        if e['t'] == 'void':
            return z3.BoolVal(True)
        va, vb = self.T.unify(va, vb)
        if self.S.is_vec(va.sort()):
            return self.mergeval('c', [c, Not(c)], [va, vb])
        return If(c, va, vb)

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--', 'post++', 'post--'):
            p = self.lval(e['e'])
            v = self.read(p)
            t = e['e']['t']
            one = fin(1) if t in S.FLOATS else z3.IntVal(1)
            nv = self.arith('+' if '++' in op else '-', v, one, t)
            self.write(p, nv)
            return v if op.startswith('post') else nv
        if op == '*':
            return self.read(self.lval(e))
        if op == '&':
            return self.expr(e['e'])
        x = self.expr(e['e'])
        if op == '!':
            return Not(x)
        if op == '-':
            if x.sort() == F:
                return S.fneg(x)
            if e['t'] in S.UNSIGNED:
                return If(x == 0, x, S.UNSIGNED[e['t']] - x)
            return z3.IntVal(-x.as_long()) if z3.is_int_value(x) else -x
        if op == '+':
            return x
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, t, line=0):
        if t in S.FLOATS:
            if op == '+':
                return S.fadd(a, b)
            if op == '-':
                return S.fsub(a, b)
            if op == '*':
                return S.fmul(a, b)
            if op == '/':
                return S.fdiv(a, b)
        elif t in S.INTS:
            num = z3.is_int_value(a) and z3.is_int_value(b)
            if op == '+':
                r = a + b
                if t in S.UNSIGNED:
                    # addition of a wrapped (negative) value comes back below the modulus
                    if not num and (self.maybe_wrapped(a) or self.maybe_wrapped(b)):
                        r = If(a + b >= S.UNSIGNED[t], a + b - S.UNSIGNED[t], a + b)
                return z3.simplify(r) if num else r
            if op == '-':
                if t in S.UNSIGNED:
                    return z3.simplify(If(a >= b, a - b, a - b + S.UNSIGNED[t])) if num else If(a >= b, a - b, a - b + S.UNSIGNED[t])
                return z3.simplify(a - b) if num else a - b
            if op == '*':
                return z3.simplify(a * b) if num else a * b
            if op == '/':
                self.oblige('divzero', b != 0, line, 'integer divisor is not zero')
                return S.idiv(a, b)
            if op == '%':
                self.oblige('divzero', b != 0, line, 'integer divisor is not zero')
                return S.imod(a, b)
        raise Unsupported('arith %s on %s' % (op, t))

    def maybe_wrapped(self, x):
        return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.expr(e['l'])
            s1, s0 = self.split(a if op == '&&' else Not(a))
            if s1.dead:
                self.st = s0
                return z3.BoolVal(op == '||')
            self.st = s1
            b = self.expr(e['r'])
            s1 = self.st
            self.st = self.merge([s1, s0]) if not s0.dead else s1
            return And(a, b) if op == '&&' else Or(a, b)
        if op == ',':
            self.expr(e['l'])
            return self.expr(e['r'])
        a = self.expr(e['l'])
        b = self.expr(e['r'])
        t = e['l']['t']
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if t in S.FLOATS:
                r = {'==': lambda: S.feq(a, b), '!=': lambda: Not(S.feq(a, b)), '<': lambda: S.flt(a, b), '<=': lambda: S.fle(a, b),
                     '>': lambda: S.flt(b, a), '>=': lambda: S.fle(b, a)}[op]()
                return r
            if a.sort() == Bool and b.sort() == Bool:
                return (a == b) if op == '==' else Not(a == b)
            a, b = self.T.unify(a, b)
            if a.sort() != Int:
                raise Unsupported('comparison of %s' % a.sort())
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return z3.BoolVal({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            return {'==': lambda: a == b, '!=': lambda: Not(a == b), '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        t = e['t']
        if t == 'bool' or a.sort() == Bool:
            if op == '&':
                return And(a, b)
            if op == '|':
                return Or(a, b)
        return self.arith(op, a, b, t, e['ln'])

    def e_assign(self, e):
        v = self.expr(e['r'])
        p = self.lval(e['l'])
        want = self.S.of(e['l']['t'])
        if v.sort() != want:
            v = self.T.coerce(v, want)
        self.write(p, v)
        return v

    def e_cassign(self, e):
        r = self.expr(e['r'])
        p = self.lval(e['l'])
        l = self.read(p)
        lt = e['l']['t']
        v = self.convert(l, lt, e['ct']) if lt != e['ct'] else l
        if e['ct'] == 'bool' or v.sort() == Bool:
            raise Unsupported('compound bool')
        v = self.arith(e['op'], v, r, e['ct'], e['ln'])
        v = self.convert(v, e['rt'], lt) if lt != e['rt'] else v
        self.write(p, v)
        return v

    def e_initlist(self, e):
        t = self.ct(e['t'])
        if isinstance(t, tuple): t = e['t']
        if t.startswith('arr<') or t.startswith('vec<'):
            sort = self.S.of(t)
            es = self.S.elem(sort)
            n = int(t[t.rindex(',') + 1:-1]) if t.startswith('arr<') else len(e['args'])
            v = self.fresh('list', sort)
            self.assume(self.S.vlen(v) == n)
            for i in range(n):
                x = self.expr(e['args'][i]) if i < len(e['args']) else self.S.default(es)
                if x.sort() != es:
                    raise Unsupported('initializer list element')
                self.facts.append(self.S.at(v, z3.IntVal(i)) == x)
            return v
        raise Unsupported('initializer list of %s' % e['t'])

    def e_throw(self, e):
        self.do_throw(self.st.copy(), e['ln'])
        self.st.dead = True
        return z3.BoolVal(True)

    def e_fnref(self, e):
        raise Unsupported('function pointer')

    def e_new(self, e):
        if e.get('e'):
            return self.expr(e['e'])
        raise Unsupported('new')

    def e_delete(self, e):
        return z3.BoolVal(True)

    def do_throw(self, st, line):
        if st.dead:
            return
        if self.omp:
            sv = self.st
            self.st = st
            self.oblige('omp-throw', z3.BoolVal(False), line, 'no exception leaves a parallel region', assume=False)
            self.st = sv
        self.throws.append((st, line))

    def e_construct(self, e):
        t = self.ct(e['t'])
        args = e['args']
        if e['copy'] and len(args) == 1:
            if isinstance(t, str) and t.startswith('rec:') and not e['implicit'] and e['fn']['key'] in self.P.functions and 'body' in self.P.functions[e['fn']['key']]:
                return self.construct_rec(e)
            return self.coerce_rec(self.expr(args[0]), self.S.of(e['t']))
        if isinstance(t, tuple) and t[0] == 'vec':
            return self.construct_vec(e, t)
        if isinstance(t, tuple) and t[0] == 'pair':
            if not args:
                return self.S.default(self.S.of(e['t']))
            d = self.S.of(e['t'])
            if len(args) == 1:
                v = self.expr(args[0])
                return v
            xs = [self.T.coerce(self.expr(a), d.accessor(0, i).range()) for i, a in enumerate(args)]
            return d.constructor(0)(*xs)
        if isinstance(t, tuple) and t[0] in ('sptr', 'iter', 'set', 'map'):
            if len(args) == 1:
                return self.expr(args[0])
            if not args and t[0] == 'sptr':
                return self.fresh('sptr', self.S.of(e['t']))
            raise Unsupported('construct ' + e['t'])
        if t == 'str':
            if args and len(args) >= 1 and args[0]['k'] == 'str':
                return self.expr(args[0])
            return self.fresh('str', self.S.of('str'))
        if isinstance(t, str) and t.startswith('rec:'):
            if t in IO_TYPES or t.startswith('rec:std::'):
                return self.fresh('io', self.S.of(e['t']))
            if e['fn']['key'] in self.P.functions and ('body' in self.P.functions[e['fn']['key']] or self.find_contract(e['fn']['key'])):
                return self.construct_rec(e)
            if e['defctor'] and t[4:] in self.P.records:
                return self.S.default(self.S.of(e['t']))
            return self.extern_construct(e, t)
        raise Unsupported('construct ' + e['t'])

    def extern_construct(self, e, t):
        q = t[4:]
        if q == 'boost::geometry::model::point' and len(e['args']) == 3:
            return self.S.of(t).constructor(0)(*[self.T.toF(self.expr(a)) for a in e['args']])
        if q == 'boost::geometry::model::box' and len(e['args']) == 2:
            return self.S.of(t).constructor(0)(*[self.expr(x) for x in e['args']])
        if not e['args'] and self.S.is_vec(self.S.of(t)):
            return self.S.default(self.S.of(t))
        if q.endswith('::rtree'):
            if len(e['args']) == 1 and e['args'][0].get('t', '') == t:
                return self.expr(e['args'][0])
            return self.S.default(self.S.of(t))
        if not e['args']:
            return z3.Const('init_' + str(self.S.of(t)), self.S.of(t))
        args = [self.expr(a) for a in e['args']]
        f = z3.Function('ctor_%s_%d' % (re.sub(r'\W', '_', q), len(args)), *([a.sort() for a in args] + [self.S.of(t)]))
        return f(*args)

    def coerce_rec(self, v, want):
        if v.sort() == want:
            return v
        if self.S.is_rec(v.sort()) and self.S.is_rec(want):
            d, fs = self.S.rec_by_sort[want.get_id()]
            return d.constructor(0)(*[self.S.field(v, f) for f in fs])
        return self.T.coerce(v, want)

    def construct_vec(self, e, t):
        args = [a for a in e['args'] if not a.get('t', '').startswith('rec:std::allocator')]
        s = self.S.of(e['t'])
        es = self.S.elem(s)
        if not args:
            return self.S.default(s)
        if args[0]['k'] == 'initlist' or e.get('initlist') and args[0]['k'] == 'initlist':
            items = args[0]['args']
            arr = z3.K(Int, self.S.default(es))
            for i, a in enumerate(items):
                arr = z3.Store(arr, i, self.T.coerce(self.expr(a), es))
            return self.S.mkvec(es, z3.IntVal(len(items)), arr)
        a0t = args[0]['t']
        if a0t in S.INTS:
            n = self.expr(args[0])
            self.oblige('alloc', And(n >= 0, n <= S.MAXLEN), e['ln'], 'vector size is not negative')
            if len(args) == 1:
                return self.S.mkvec(es, n, z3.K(Int, self.S.default(es)))
            v = self.T.coerce(self.expr(args[1]), es)
            return self.S.mkvec(es, n, z3.K(Int, v))
        ta = self.ct(a0t)
        if isinstance(ta, tuple) and ta[0] == 'iter' and len(args) == 2:
            b, off1 = self.iterpos(args[0])
            b2, off2 = self.iterpos(args[1])
            v = self.read(b)
            self.oblige('bounds', And(off1 >= 0, off1 <= off2, off2 <= self.S.vlen(v)), e['ln'], 'iterator range within the vector')
            if z3.is_int_value(off1) and off1.as_long() == 0:
                return self.S.mkvec(es, off2, self.S.varr(v))
            r = self.fresh('sub', s)
            i = z3.Int('i!q')
            self.assume(self.S.vlen(r) == off2 - off1)
            self.assume(forall([i], Implies(And(i >= 0, i < off2 - off1), self.S.at(r, i) == self.S.at(v, i + off1))))
            return r
        raise Unsupported('vector constructor from ' + a0t)

    def iterpos(self, e):
        """(path, offset) of an iterator expression begin()/end() [+ n]"""
        if e['k'] == 'construct' and len(e['args']) == 1:
            return self.iterpos(e['args'][0])
        if e['k'] == 'call':
            short = e['fn']['q'].split('::')[-1]
            if short in ('begin', 'cbegin'):
                return self.lval(e['obj']), z3.IntVal(0)
            if short in ('end', 'cend'):
                p = self.lval(e['obj'])
                return p, self.S.vlen(self.read(p, record=False))
            if short in ('operator+', 'operator-'):
                ob = e.get('obj') or e['args'][0]
                a = e['args'][-1]
                p, o = self.iterpos(ob)
                d = self.expr(a)
                return p, (o + d if short == 'operator+' else o - d)
        raise Unsupported('iterator expression')

    def construct_rec(self, e):
        key = e['fn']['key']
        fn = self.P.functions[key]
        sort = self.S.of(e['t'])
        args = e['args']
        c = self.find_contract(key)
        if c is not None and key != self.key:
            return self.call_contract(c, fn, args, None, e['ln'], result_sort=sort)
        k = self.tmp(self.S.default(sort) if self.S.is_rec(sort) else self.fresh('obj', sort))
        self.inline(fn, args, Alias(k, ()), e['ln'])
        return self.st.env[k] if not self.st.dead else self.S.default(sort)

    # ------------------------------------------------------------ calls
    def find_contract(self, key):
        return SP.CONTRACTS.get(key)

    def e_call(self, e):
        fn = e['fn']
        q = fn['q']
        if e['t'] in IO_TYPES or any(a.get('t') in IO_TYPES for a in e['args'][:1]) or e.get('objt') in IO_TYPES:
            if e['t'] == 'str' or e['t'] == 'void' or e['t'] in IO_TYPES:
                return self.fresh('io', self.S.of(e['t']))
            raise Unsupported('stream call ' + q)
        if fn['own']:
            return self.call_own(e)
        return self.call_std(e)

    def call_own(self, e):
        fn = e['fn']
        key = fn['key']
        d = self.P.functions.get(key)
        if d is None:
            raise Unsupported('call of unknown function ' + key)
        self.curline = e['ln']
        c = self.find_contract(key)
        this = None
        if 'obj' in e and not fn.get('static'):
            this = self.lval(e['obj'])
        if fn.get('virtual') and not e.get('nonvirt'):
            if c is None and self.P.overriders.get(key):
                raise Unsupported('virtual call without contract: ' + key)
        if c is not None and not (c.opts.get('inline_always')) and (key != self.key or c.opts.get('recursive')):
            return self.call_contract(c, d, e['args'], this, e['ln'])
        if 'body' not in d:
            raise Unsupported('call of function without body: ' + key)
        return self.inline(d, e['args'], Alias(*this) if this else None, e['ln'])

    def bind_args(self, d, args):
        out = []
        for p, a in zip(d['params'], args):
            if p['mut']:
                path = self.lval(a)
                r, s = self.resolve(*path)
                out.append(Alias(r, s))
            else:
                v = self.expr(a)
                want = self.S.of(p['t'])
                if v.sort() != want:
                    v = self.coerce_rec(v, want)
                out.append(v)
        return out

    def inline(self, d, args, this, line):
        if self.depth > 12 or sum(f.fn['key'] == d['key'] for f in self.frames) > 1:
            raise Unsupported('recursion: ' + d['key'])
        if not d.get('ctor') and 'body' not in d:
            raise Unsupported('no body: ' + d['key'])
        vals = self.bind_args(d, args)
        self.inlined.add(d['key'])
        self.tmpn += 1
        fr = Frame('f%d' % self.tmpn, d)
        if this is not None and isinstance(this, Alias):
            r, s = self.resolve(this.root, tuple(this.steps))
            this = Alias(r, s)
        self.frames.append(fr)
        self.depth += 1
        for p, v in zip(d['params'], vals):
            self.st.env[(fr.no, p['id'])] = v
            fr.names[p['name']] = (fr.no, p['id'])
            self.types[(fr.no, p['id'])] = p['t']
        if this is not None:
            self.st.env[(fr.no, 'this')] = this
        svb, svc = self.brk, self.cont
        self.brk, self.cont = None, None
        if d.get('ctor'):
            for i in d.get('inits', []):
                if i.get('delegating'):
                    v = self.expr(i['e'])
                    self.write((self.thiskey(), ()), v)
                elif 'field' in i:
                    v = self.expr(i['e'])
                    path = (self.thiskey(), (('fld', i['field']),))
                    cur = self.read(path, record=False)
                    self.write(path, self.coerce_rec(v, cur.sort()))
                elif 'base' in i:
                    b = i['e']
                    if b['k'] == 'construct' and b['fn']['key'] in self.P.functions and 'body' in self.P.functions[b['fn']['key']]:
                        self.inline(self.P.functions[b['fn']['key']], b['args'], Alias(self.thiskey(), ()), line)
        if 'body' in d:
            self.stmt(d['body'])
        states = fr.returns + ([] if self.st.dead else [self.st])
        self.st = self.merge(states)
        self.brk, self.cont = svb, svc
        self.depth -= 1
        self.frames.pop()
        if self.st.dead:
            return self.S.default(self.S.of(d['ret'])) if d['ret'] != 'void' else z3.BoolVal(True)
        rk = (fr.no, 'ret')
        rv = self.st.env.get(rk)
        for k in [k for k in self.st.env if k[0] == fr.no]:
            del self.st.env[k]
        if d['ret'] == 'void' or d.get('ctor'):
            return z3.BoolVal(True)
        if rv is None:
            # control may reach the end of a value-returning function
            self.oblige('noreturn', z3.BoolVal(False), line, 'a value is returned on every path of ' + d['q'])
            return self.fresh('noret', self.S.of(d['ret']))
        return rv

    def contract_env(self, c, d, vals, thisval):
        env = {}
        if thisval is not None:
            env['this'] = thisval
        for n, v in zip(c.params, vals):
            env[n] = v
        return env

    def add_lets(self, c, env):
        for n, x in c.lets:
            sv, S.ORACLE = S.ORACLE, None
            env[n] = self.T.term(x, env)
            S.ORACLE = sv
        return env

    def call_contract(self, c, d, args, this, line, result_sort=None):
        self.calls_used.add(c.key)
        if c.trusted:
            self.trusted_used.add(c.key)
        vals = self.bind_args(d, args)
        pre = []
        outs = {}
        for n, p, v in zip(c.params, d['params'], vals):
            if isinstance(v, Alias):
                pre.append(self.read((v.root, v.steps)))
                outs[n] = v
            else:
                pre.append(v)
        thisval = self.read(this) if this is not None else None
        env = self.add_lets(c, self.contract_env(c, d, pre, thisval))
        for r in c.requires:
            self.oblige('precondition', self.spec(r, env), line, 'precondition of %s: %s' % (d['q'], r))
        if c.throws or c.may_throw:
            if c.throws:
                T = self.spec(c.throws, env)
            else:
                self.fresh_n += 1
                T = z3.Bool('mthrow!%d' % self.fresh_n)
                self.assume(Implies(T, self.spec(c.may_throw, env)))
            st_t, st_n = self.split(T)
            self.do_throw(st_t, line)
            self.st = st_n
            if self.st.dead:
                return self.S.default(self.S.of(d['ret'])) if d['ret'] != 'void' else z3.BoolVal(True)
        rs = result_sort if result_sort is not None else (self.S.of(d['ret']) if d['ret'] != 'void' else None)
        res = None
        # `result == term` gives the result directly
        if rs is not None:
            for name, text in c.ensures:
                t = SP.parse(text)
                import ast
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.left, ast.Name) and t.left.id == 'result':
                    res = self.T.coerce(self.T.term(t.comparators[0], env), rs)
                    res = self.nameterm('r', res)
                    break
            if res is None:
                res = self.fresh('r_' + d['q'].split('::')[-1], rs)
                self.assume_type(res)
            env['result'] = res
        for n, al in outs.items():
            nv = self.fresh('out_' + n, env[n].sort())
            self.assume_type(nv)
            self.write((al.root, al.steps), nv)
            env[n + '_out'] = nv
        if this is not None and not d.get('const') and not d.get('static') and not d.get('ctor'):
            nv = self.fresh('this_out', thisval.sort())
            self.write(this, nv)
            env['this_out'] = nv
        for name, text in list(c.ensures) + list(c.assumes):
            self.assume(self.spec(text, env))
        return res if res is not None else z3.BoolVal(True)

    def assume_type(self, v, depth=0):
        """facts true of every value of the C++ type (lengths are in range)"""
        s = v.sort()
        for f in self.typefacts(v):
            self.assume(f)

    def typefacts(self, v):
        s = v.sort()
        out = []
        if self.S.is_vec(s):
            ln = self.S.vlen(v)
            out.append(And(ln >= 0, ln <= S.MAXLEN))
            es = self.S.elem(s)
            if self.S.is_vec(es) or self.S.is_rec(es):
                self.fresh_n += 1
                i = z3.Int('i!t%d' % self.fresh_n)
                for f in self.typefacts(self.S.at(v, i)):
                    if z3.is_quantifier(f):
                        continue
                    out.append(forall([i], f))
                if self.S.is_vec(es) and self.S.is_vec(self.S.elem(es)):
                    j = z3.Int('j!t%d' % self.fresh_n)
                    ln2 = self.S.vlen(self.S.at(self.S.at(v, i), j))
                    out.append(forall([i, j], And(ln2 >= 0, ln2 <= S.MAXLEN)))
        elif self.S.is_rec(s):
            d, fs = self.S.rec_by_sort[s.get_id()]
            for f in fs:
                out += self.typefacts(self.S.field(v, f))
        return out

    # ------------------------------------------------------------ std models
    def call_std(self, e):
        q = e['fn']['q']
        short = q.split('::')[-1]
        t = self.ct(e.get('objt')) if 'obj' in e else None
        if t is not None and isinstance(t, tuple) and t[0] == 'vec':
            return self.call_vec(e, short, t)
        if q == '__assert_fail':
            self.oblige('assert', z3.BoolVal(False), e['ln'], 'assertion holds')
            self.st.dead = True
            return z3.BoolVal(True)
        if q in ('std::isnan', 'isnan'):
            return S.isNaN(self.T.toF(self.expr(e['args'][0])))
        if q in ('std::isinf', 'isinf'):
            x = self.T.toF(self.expr(e['args'][0]))
            return Or(S.eqc(x, S.PInf), S.eqc(x, S.NInf))
        if q in ('std::isfinite',):
            return S.isFin(self.expr(e['args'][0]))
        if short in ('__builtin_nanf', '__builtin_nan', 'nanf'):
            return S.NaN
        if short in ('__builtin_huge_val', '__builtin_inff', '__builtin_inf', '__builtin_huge_valf'):
            return S.PInf
        if short in ('max', 'min') and q.startswith('std::'):
            if q.startswith('std::numeric_limits'):
                return z3.IntVal(2147483647 if short == 'max' else -2147483648) if e['t'] in S.INTS else fin(Fraction(float.fromhex('0x1.fffffep+127')) if short == 'max' else Fraction(float.fromhex('0x1p-126')))
            a, b = [self.expr(x) for x in e['args']]
            if a.sort() == F:
                return If(S.flt(a, b), b, a) if short == 'max' else If(S.flt(b, a), b, a)
            if z3.is_int_value(a) and z3.is_int_value(b):
                return z3.IntVal((max if short == 'max' else min)(a.as_long(), b.as_long()))
            return z3.If(a < b, b, a) if short == 'max' else z3.If(b < a, b, a)
        if short in ('fabs', 'abs', 'fabsf'):
            a = self.expr(e['args'][0])
            if a.sort() == F:
                return S.fabs_(a)
            return z3.If(a >= 0, a, -a)
        if short in ('floor', 'ceil', 'round') and e['args'] and e['args'][0]['t'] in S.FLOATS:
            a = self.expr(e['args'][0])
            v = S.val(a)
            if short == 'floor':
                r = z3.ToReal(z3.ToInt(v))
            elif short == 'ceil':
                r = -z3.ToReal(z3.ToInt(-v))
            else:
                r = z3.ToReal(z3.If(v >= 0, z3.ToInt(v + z3.RealVal('1/2')), -z3.ToInt(-v + z3.RealVal('1/2'))))
            return If(S.isFin(a), S.Fin(r), a)
        if short in MATH1 and len(e['args']) == 1:
            a = self.T.toF(self.expr(e['args'][0]))
            return self.T.uf(MATH1[short])(a)
        if short in MATH2 and len(e['args']) == 2:
            a, b = [self.T.toF(self.expr(x)) for x in e['args']]
            if short == 'pow' and S.is_fin_app(b) and S.is_num(b.arg(0)):
                k = b.arg(0).as_fraction()
                if k == 2:
                    return S.fmul(a, a)
            return self.T.uf(MATH2[short])(a, b)
        if q == 'std::swap':
            p1, p2 = self.lval(e['args'][0]), self.lval(e['args'][1])
            a, b = self.read(p1), self.read(p2)
            self.write(p1, b)
            self.write(p2, a)
            return z3.BoolVal(True)
        if q == 'std::sort':
            p, o1 = self.iterpos(e['args'][0])
            p2, o2 = self.iterpos(e['args'][1])
            v = self.read(p)
            if self.S.elem(v.sort()) == F and len(e['args']) == 2 and 'sortv' in SP.UNINTERP:
                if not (z3.is_int_value(o1) and o1.as_long() == 0 and o2.eq(self.S.vlen(v))):
                    raise Unsupported('partial sort')
                i = z3.Int('i!s')
                self.oblige('precondition', forall([i], Implies(And(i >= 0, i < self.S.vlen(v)), Not(S.isNaN(self.S.at(v, i))))), e['ln'],
                            'std::sort is given a strict weak order (no NaN)')
                self.write(p, self.nameterm('sorted', self.T.uf('sortv')(v)))
                return z3.BoolVal(True)
            raise Unsupported('sort')
        if q in ('std::make_shared',):
            # shared_ptr<StructureFunction> to a fresh object equal to the constructor's result
            return self.fresh('shared', self.S.of(e['t']))
        if q.startswith('std::operator==') and e['t'] == 'bool' or q == 'std::operator==':
            a, b = self.expr(e['args'][0]), self.expr(e['args'][1])
            if a.sort() == b.sort() and not self.S.is_vec(a.sort()):
                return a == b
            raise Unsupported('operator==')
        if short == 'operator=' and t == 'str':
            v = self.expr(e['args'][0])
            self.write(self.lval(e['obj']), v if v.sort() == self.S.of('str') else self.fresh('str', self.S.of('str')))
            return z3.BoolVal(True)
        if short == 'operator=' and 'obj' in e and t and t[0] == 'sptr':
            v = self.expr(e['args'][0])
            p = self.lval(e['obj'])
            self.write(p, v)
            return v
        if short == 'operator=' and 'obj' in e and isinstance(t, tuple) and t[0] == 'pair':
            v = self.expr(e['args'][0])
            self.write(self.lval(e['obj']), v)
            return v
        if short == 'operator=' and 'obj' in e:
            v = self.expr(e['args'][0])
            p = self.lval(e['obj'])
            if v.sort() == self.S.of(e['objt']):
                self.write(p, v)
                return v
        if short in ('operator*', 'operator->', 'get') and 'obj' in e and (e['objt'].startswith('sptr') or e['objt'].startswith('rec:std::__shared_ptr_access')):
            return self.expr(e['obj'])
        if short == 'make_pair':
            d = self.S.of(e['t'])
            xs = [self.T.coerce(self.expr(a), d.accessor(0, i).range()) for i, a in enumerate(e['args'])]
            return d.constructor(0)(*xs)
        if short == 'get' and e.get('objt') == 'rec:boost::geometry::model::point':
            return self.S.field(self.expr(e['obj']), 'xyz'[e['fn']['targs'][0]])
        if e.get('objt') == 'rec:boost::geometry::index::rtree':
            return self.call_rtree(e, short)
        if q in ('boost::math::cdf', 'boost::math::quantile'):
            xs = [self.expr(a) for a in e['args']]
            return self.T.uf(('cdf_' if short == 'cdf' else 'quantile_') + e['args'][0]['t'].split('::')[-1].split('_')[0])(xs[0], self.T.toF(xs[1]))
        if q == 'rand':
            r = self.fresh('rand', Int)
            self.assume(And(r >= 0, r <= 2147483647))
            return r
        m = getattr(self, 'ext_' + re.sub(r'\W+', '_', q), None)
        if m:
            return m(e)
        raise Unsupported('external call %s (line %s)' % (q, e['ln']))

    # ---- boost r-tree: the list of the inserted values; queries append values of it to a vector (documented behaviour, trusted)
    def call_rtree(self, e, short):
        p = self.lval(e['obj'])
        if short == 'insert' and len(e['args']) == 1:
            v = self.read(p)
            x = self.coerce_rec(self.expr(e['args'][0]), self.S.elem(v.sort()))
            ln = self.S.vlen(v)
            self.write(p, self.S.mkvec(self.S.elem(v.sort()), ln + 1, z3.Store(self.S.varr(v), ln, x)))
            return z3.BoolVal(True)
        if short == 'size':
            return self.S.vlen(self.read(p, record=False))
        if short == 'query' and len(e['args']) == 2:
            out = e['args'][1]
            while out['k'] == 'construct' and len(out['args']) == 1:
                out = out['args'][0]
            if not (out['k'] == 'call' and out['fn']['q'] == 'std::back_inserter'):
                raise Unsupported('r-tree query into something else than a back_inserter')
            op = self.lval(out['args'][0])
            tree = self.read(p)
            old = self.read(op)
            if not (z3.is_int_value(self.S.vlen(old)) and self.S.vlen(old).as_long() == 0):
                raise Unsupported('r-tree query into a vector that is not empty')
            preds = []
            self.rtree_preds(e['args'][0], preds)
            near = [x for x in preds if x[0] == 'nearest']
            tests = [x[1] for x in preds if x[0] == 'test']
            if len(near) > 1:
                raise Unsupported('two nearest predicates')
            self.trusted_used.add('boost::geometry::index::rtree::query')
            res = self.fresh('query', tree.sort())
            self.assume_type(res)
            S_ = self.S
            self.fresh_n += 1
            src = z3.Function('src!%d' % self.fresh_n, Int, Int)
            pos = z3.Function('pos!%d' % self.fresh_n, Int, Int)
            k, j = z3.Int('k!q'), z3.Int('j!q')
            N, M = S_.vlen(tree), S_.vlen(res)
            ok = lambda i: And(*[t(S_.at(tree, i)) for t in tests])
            self.assume(M <= N)
            self.assume(z3.ForAll([k], Implies(And(k >= 0, k < M), And(src(k) >= 0, src(k) < N, S_.at(res, k) == S_.at(tree, src(k)), ok(src(k)), pos(src(k)) == k)), patterns=[S_.at(res, k), src(k)]))
            inres = lambda i: And(pos(i) >= 0, pos(i) < M, src(pos(i)) == i)
            if not near:
                self.assume(z3.ForAll([j], Implies(And(j >= 0, j < N, ok(j)), inres(j)), patterns=[S_.at(tree, j), pos(j)]))
            else:
                q, n = near[0][1], near[0][2]
                self.oblige('precondition', n >= 0, e['ln'], 'nearest is asked for a number of values that is not negative')
                self.assume(M <= n)
                self.assume(z3.ForAll([j], Implies(And(j >= 0, j < N, ok(j), M < n), inres(j)), patterns=[S_.at(tree, j), pos(j)]))
                d2 = lambda i: self.T.term('DIST2(p, q)', {'p': q, 'q': S_.field(S_.at(tree, i), 'first')})
                self.assume(z3.ForAll([j, k], Implies(And(j >= 0, j < N, ok(j), Not(inres(j)), k >= 0, k < M), S.fle(d2(src(k)), d2(j))), patterns=[z3.MultiPattern(S_.at(tree, j), src(k)), z3.MultiPattern(pos(j), src(k))]))
            self.write(op, res)
            return M
        if short == 'operator=':
            v = self.expr(e['args'][0])
            self.write(p, v)
            return v
        raise Unsupported('r-tree ' + short)

    def rtree_preds(self, e, out):
        while e['k'] == 'construct' and len(e['args']) == 1:
            e = e['args'][0]
        if e['k'] != 'call':
            raise Unsupported('r-tree predicate')
        q = e['fn']['q']
        short = q.split('::')[-1]
        if short == 'operator&&':
            for a in e['args']:
                self.rtree_preds(a, out)
        elif q in ('boost::geometry::index::within', 'boost::geometry::index::covered_by', 'boost::geometry::index::intersects'):
            b = self.expr(e['args'][0])
            lo, hi = self.S.field(b, 'lo'), self.S.field(b, 'hi')
            lt = S.flt if short == 'within' else S.fle
            f = self.S.field
            out.append(('test', lambda v: And(*[And(lt(f(lo, c), f(f(v, 'first'), c)), lt(f(f(v, 'first'), c), f(hi, c))) for c in 'xyz'])))
        elif q == 'boost::geometry::index::satisfies':
            o = self.expr(e['args'][0])
            t = e['args'][0]['t']
            keys = [k for k in SP.CONTRACTS if k.startswith(t[4:] + '::operator()(')]
            if not keys:
                raise Unsupported('no contract of ' + t[4:] + '::operator()')
            c = SP.CONTRACTS[keys[0]]
            self.calls_used.add(c.key)
            text = [x for _, x in c.ensures if x.startswith('result == ')][0][len('result == '):]
            out.append(('test', lambda v: self.spec(text, {'this': o, c.params[0]: v})))
        elif q == 'boost::geometry::index::nearest':
            pt = self.expr(e['args'][0])
            n = self.expr(e['args'][1])
            out.append(('nearest', pt, n))
        else:
            raise Unsupported('r-tree predicate ' + q)

    def call_vec(self, e, short, t):
        S_ = self.S
        if short in ('operator[]', 'at', 'front', 'back'):
            return self.read(self.lval(e))
        p = self.lval(e['obj'])
        if short == 'size':
            return S_.vlen(self.read(p, record=False))
        if short == 'empty':
            return S_.vlen(self.read(p, record=False)) == 0
        if short in ('reserve', 'shrink_to_fit'):
            if e['args']:
                n = self.expr(e['args'][0])
                self.oblige('alloc', n <= S.MAXLEN, e['ln'], 'reserved size is not negative')
            return z3.BoolVal(True)
        v = self.read(p)
        es = S_.elem(v.sort())
        if short == 'push_back':
            x = self.coerce_rec(self.expr(e['args'][0]), es)
            v = self.read(p)
            ln = S_.vlen(v)
            self.write(p, S_.mkvec(es, ln + 1, z3.Store(S_.varr(v), ln, x)))
            return z3.BoolVal(True)
        if short == 'pop_back':
            ln = S_.vlen(v)
            self.oblige('bounds', ln > 0, e['ln'], 'pop_back of a non-empty vector')
            self.write(p, S_.mkvec(es, ln - 1, S_.varr(v)))
            return z3.BoolVal(True)
        if short == 'clear':
            self.write(p, S_.default(v.sort()))
            return z3.BoolVal(True)
        if short == 'operator=':
            x = self.expr(e['args'][0])
            self.write(p, x)
            return x
        if short in ('resize', 'assign') and e['args'] and e['args'][0]['t'] in S.INTS:
            n = self.expr(e['args'][0])
            x = self.T.coerce(self.expr(e['args'][1]), es) if len(e['args']) > 1 else S_.default(es)
            self.oblige('alloc', And(n >= 0, n <= S.MAXLEN), e['ln'], 'vector size is not negative')
            ln = S_.vlen(v)
            if short == 'assign' or (z3.is_int_value(ln) and ln.as_long() == 0):
                self.write(p, S_.mkvec(es, n, z3.K(Int, x)))
                return z3.BoolVal(True)
            self.fresh_n += 1
            arr = z3.Const('resz!%d' % self.fresh_n, z3.ArraySort(Int, es))
            i = z3.Int('i!r')
            old = S_.varr(v)
            self.assume(forall([i], z3.Select(arr, i) == If(i < ln, S.sel(old, i), x)))
            self.write(p, S_.mkvec(es, n, arr))
            return z3.BoolVal(True)
        raise Unsupported('vector::' + short)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.st.dead:
            return
        if len(self.frames) == 1 and 'ln' in s:
            self.curline = s['ln']
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s (%s) line %s' % (s['k'], s.get('what', ''), s.get('ln')))
        m(s)

    def s_block(self, s):
        for x in s['b']:
            self.stmt(x)

    def s_unsup(self, s):
        raise Unsupported('%s at line %s' % (s.get('what'), s.get('ln')))

    def s_decl(self, s):
        for v in s['vars']:
            if 'unsup' in v:
                raise Unsupported('declaration ' + v['unsup'])
            self.decl(v)

    def decl(self, v):
        fr = self.frames[-1]
        k = (fr.no, v['id'])
        fr.names[v['name']] = k
        self.types[k] = v['t']
        if v.get('static'):
            raise Unsupported('static local ' + v['name'])
        if v['ref'] and v.get('init'):
            init = v['init']
            if not v['constq'] or init['k'] in ('var', 'member', 'call', 'index', 'un'):
                try_l = init['k'] in ('var', 'member', 'index') or (init['k'] == 'call' and not init['fn']['own']) or (init['k'] == 'un' and init['op'] == '*')
                if try_l and not (init['k'] == 'var' and init.get('glob')):
                    p = self.lval(init)
                    r, st = self.resolve(*p)
                    self.st.env[k] = Alias(r, st)
                    return
            self.st.env[k] = self.expr(init)
            return
        want = self.S.of(v['t'])
        if v.get('init'):
            x = self.expr(v['init'])
            if x.sort() != want:
                x = self.coerce_rec(x, want)
            if not self.st.dead:
                self.st.env[k] = x
                self.try_cuts(k, x)
        else:
            self.st.env[k] = self.fresh('uninit_' + v['name'], want)

    def s_expr(self, s):
        self.expr(s['e'])
        if self.c is not None and self.c.cuts and s['e']['k'] in ('assign', 'cassign') and s['e']['l']['k'] == 'var' and not self.st.dead:
            k = self.key_of(s['e']['l'])
            if k in self.st.env and not isinstance(self.st.env[k], Alias):
                self.try_cuts(k, self.st.env[k])

    def try_cuts(self, k, x):
        """intermediate assertions of the contract: proposed for every variable they fit, proved, then assumed"""
        if self.c is None or not self.c.cuts or self.in_cand or not self.centry:
            return
        for text, metas in self.c.cuts:
            names = list(metas)
            doms = []
            for m in names:
                want = self.T.sort(metas[m].rstrip('*'))
                if metas[m].endswith('*'):
                    doms.append([k] if x.sort() == want else [])
                else:
                    dom = []
                    for k2, v in self.st.env.items():
                        if k2[0] == 't' or k2[1] in ('ret', 'this'):
                            continue
                        vv = self.value(self.st, k2) if isinstance(v, Alias) else v
                        if vv is not None and vv.sort() == want:
                            dom.append(k2)
                    doms.append(dom)
            for combo in itertools.islice(itertools.product(*doms), 40):
                if len(set(combo)) < len(combo):
                    continue
                env = dict(self.centry)
                for m, kk in zip(names, combo):
                    env[m.replace('$', 'MV_')] = self.value(self.st, kk)
                try:
                    goal = self.spec(text.replace('$', 'MV_'), env)
                except SP.SpecError:
                    continue
                label = text
                for m, kk in zip(names, combo):
                    label = label.replace(m, self.varname(kk))
                en = z3.Bool('en!cut%d' % len(self.cutvcs))
                self.vcid += 1
                vc = VC(self.vcid, 'cut', label, self.curline, len(self.facts), self.st.pc, goal, self.key)
                self.cutvcs.append((vc, en))
                self.facts.append(Implies(en, Implies(self.pcterm(), goal)))

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        c = self.expr(s['c'])
        if not self.st.dead:
            r = self.decide(c)
            if r is not None:
                c = z3.BoolVal(r)
        a, b = self.split(c)
        self.st = a
        self.stmt(s['then'])
        a = self.st
        self.st = b
        self.stmt(s['else'])
        b = self.st
        self.st = self.merge([a, b])

    def s_return(self, s):
        fr = self.frames[-1]
        if s.get('e') is not None:
            v = self.expr(s['e'])
            if self.st.dead:
                return
            if fr.fn['ret'] != 'void':
                want = self.S.of(fr.fn['ret'])
                if v.sort() != want:
                    v = self.coerce_rec(v, want)
                self.st.env[(fr.no, 'ret')] = v
        if self.omp and any(o['frame'] == fr.no for o in self.omp):
            raise Unsupported('return inside a parallel loop')
        fr.returns.append(self.st.copy())
        self.st.dead = True

    def s_break(self, s):
        self.brk.append(self.st.copy())
        self.st.dead = True

    def s_continue(self, s):
        self.cont.append(self.st.copy())
        self.st.dead = True

    def s_switch(self, s):
        c = self.expr(s['c'])
        if s['items'] is None:
            return
        svb = self.brk
        self.brk = []
        before = self.st
        taken = []
        cases = [i['case'] for i in s['items'] if 'case' in i]
        fall = State(dead=True)
        hasdef = False
        for it in s['items']:
            if 'case' in it:
                sv = self.st
                self.st = before.copy()
                v = self.expr(it['case'])
                self.addpc(self.st, c == v)
                taken.append(c == v)
                fall = self.merge([fall, self.st])
            elif 'default' in it:
                hasdef = True
                self.st = before.copy()
                for x in cases:
                    self.addpc(self.st, Not(c == self.expr(x)))
                fall = self.merge([fall, self.st])
            else:
                self.st = fall
                self.stmt(it['s'])
                fall = self.st
        outs = [fall] + self.brk
        if not hasdef:
            self.st = before.copy()
            for x in cases:
                self.addpc(self.st, Not(c == self.expr(x)))
            outs.append(self.st)
        self.brk = svb
        self.st = self.merge(outs)

    def s_try(self, s):
        raise Unsupported('try block')

    def s_omp(self, s):
        if s['dir'] == 'parallel for' or s['dir'] == 'for' or s['dir'] == 'parallel for simd':
            if self.omp:
                self.stmt(s['body'])
                return
            priv = set()
            collapse = 1
            red = set()
            for c in s['clauses']:
                ids = [v['id'] for v in c.get('vars', [])]
                if c['name'] in ('private', 'firstprivate', 'lastprivate', 'linear'):
                    priv |= {(self.frames[-1].no, i) for i in ids}
                if c['name'] == 'reduction':
                    red |= {(self.frames[-1].no, i) for i in ids}
                if c['name'] == 'collapse':
                    collapse = int(c['n']['v'])
            body = s['body']
            if body['k'] != 'for':
                raise Unsupported('omp for without canonical loop')
            shared = {k for k in self.st.env if k not in priv and k not in red}
            # resolve references to their roots; the iteration variable (if declared outside) is private
            o = {'shared': shared, 'acc': [], 'counters': [], 'collapse': collapse, 'frame': self.frames[-1].no, 'line': s['ln']}
            ini = body['init']
            if ini and ini['k'] == 'expr' and ini['e']['k'] == 'assign' and ini['e']['l']['k'] == 'var':
                shared.discard(self.key_of(ini['e']['l']))
            self.omp.append(o)
            self.pending_omp = o
            self.stmt(body)
            self.omp.pop()
            self.finish_omp(o)
            return
        if s['dir'] in ('parallel',):
            # every thread executes the body: any write to shared state is a race
            o = {'shared': set(self.st.env), 'acc': [], 'counters': [], 'collapse': 1, 'frame': self.frames[-1].no, 'line': s['ln']}
            self.omp.append(o)
            self.stmt(s['body'])
            self.omp.pop()
            for (root, steps, w, pc, nf, ln) in o['acc']:
                if w:
                    self.vcid += 1
                    self.vcs.append(VC(self.vcid, 'race', 'no shared location is written by every thread of the team', ln, nf, pc, z3.BoolVal(False), self.key))
            return
        if s['dir'] in ('critical', 'simd', 'single', 'master'):
            if s['dir'] == 'critical':
                sv, self.omp = self.omp, []
                self.stmt(s['body'])
                self.omp = sv
            else:
                self.stmt(s['body'])
            return
        if s['dir'] == 'atomic':
            sv, self.omp = self.omp, []
            self.stmt(s['body'])
            self.omp = sv
            return
        raise Unsupported('omp ' + s['dir'])

    def finish_omp(self, o):
        written = {a[0] for a in o['acc'] if a[2]}
        n = o['collapse']
        cs = o['counters'][:n]
        seen = set()
        # the index positions that select the cell of an iteration: the first n, unless others are the loop counters
        places = {}
        for (root, steps, w, pc, nf, ln) in o['acc']:
            if w and len(cs) == n and root not in places:
                ps = [next((k for k, x in enumerate(steps) if x[0] == 'idx' and x[1].eq(c)), None) for c in cs]
                places[root] = ps if None not in ps else list(range(n))
        for (root, steps, w, pc, nf, ln) in o['acc']:
            if root not in written:
                continue
            if len(cs) < n:
                goal = z3.BoolVal(False)
            else:
                ps = places.get(root, list(range(n)))
                idx = [steps[k] for k in ps if k < len(steps)]
                if len(idx) < n or any(x[0] != 'idx' for x in idx[:n]):
                    goal = z3.BoolVal(False)
                else:
                    goal = And(*[x[1] == c for x, c in zip(idx[:n], cs)])
                    if all(x[1].eq(c) for x, c in zip(idx[:n], cs)):
                        goal = z3.BoolVal(True)
            name = self.varname(root)
            sig = (root, w, ln, goal.get_id())
            if sig in seen:
                continue
            seen.add(sig)
            self.vcid += 1
            vc = VC(self.vcid, 'race', '%s of shared `%s` touches only this iteration\'s cell' % ('write' if w else 'read', name), ln, nf, pc, goal, self.key)
            self.vcs.append(vc)

    def varname(self, key):
        if key[0] == 'fld':
            return '%s.%s' % (self.varname(key[1]), key[2])
        for f in self.frames:
            for n, k in f.names.items():
                if k == key:
                    return n
        return str(key)

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s['init']:
            self.stmt(s['init'])
        self.loop(s, s['c'], s['body'], s['inc'])

    def s_while(self, s):
        self.loop(s, s['c'], s['body'], None)

    def s_do(self, s):
        raise Unsupported('do loop')

    def s_rangefor(self, s):
        # for(x : range)  ->  for(int k = 0; k < range.size(); k++) { T x = range[k]; body }
        fr = self.frames[-1]
        path = self.lval(s['range'])
        v = self.read(path, record=False)
        if not self.S.is_vec(v.sort()):
            raise Unsupported('range-for over %s' % v.sort())
        kk = (fr.no, 'rf%d' % s['var']['id'])
        self.st.env[kk] = z3.IntVal(0)
        self.types[kk] = 'i32'
        fr.names['#k'] = kk
        cond = {'k': '_rfcond', 'path': path, 'kk': kk}
        var = s['var']

        def bind():
            k = (fr.no, var['id'])
            i = self.st.env[kk]
            r, st = self.resolve(*path)
            st = tuple(st) + (('idx', i),)
            if var['ref']:
                self.st.env[k] = Alias(r, st)
            else:
                self.st.env[k] = self.read((r, st))
            self.types[k] = var['t']
            fr.names[var['name']] = k
        self.loop(s, cond, s['body'], {'k': '_rfinc', 'kk': kk}, bind=bind, extra_mod={kk: 0})

    def e__rfcond(self, e):
        return self.st.env[e['kk']] < self.S.vlen(self.read(e['path'], record=False))

    def e__rfinc(self, e):
        self.st.env[e['kk']] = self.st.env[e['kk']] + 1
        return z3.BoolVal(True)

    # --- modified variables: root key -> minimal write depth (number of pure index steps)
    def modset(self, nodes):
        mods = {}
        local = {}

        def root(e):
            """(key, depth) of an lvalue expression, syntactically"""
            k = e['k']
            if k == 'var':
                if e.get('glob'):
                    return ('g', e['q']), 0
                key = self.key_of(e)
                if key in local:
                    return local[key]
                v = self.st.env.get(key)
                if isinstance(v, Alias):
                    r, st = self.resolve(key)
                    return r, self.pure(st)
                return key, 0
            if k == 'member':
                if e['base']['k'] == 'this':
                    r, st = self.resolve(self.thiskey())
                    d = 0 if not st else None
                else:
                    r, d = root(e['base'])
                v = self.st.env.get(r)
                if d == 0 and v is not None and not isinstance(v, Alias) and self.S.is_rec(v.sort()) and e['field'] in self.S.rec_by_sort[v.sort().get_id()][1]:
                    return ('fld', r, e['field']), 0
                return r, None
            if k in ('upcast', 'cast'):
                return root(e['e'])
            if k == 'this':
                r, st = self.resolve(self.thiskey())
                return r, None
            if k == 'un' and e['op'] in ('*', '&', '++', '--'):
                return root(e['e'])
            if k == 'call' and 'obj' in e and e['fn']['q'].split('::')[-1] in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'operator*', 'operator->', 'operator+'):
                r, d = root(e['obj'])
                short = e['fn']['q'].split('::')[-1]
                if short in ('operator[]', 'at', 'front', 'back'):
                    return r, (None if d is None else d + 1)
                return r, None
            if k == 'index':
                r, d = root(e['base'])
                return r, (None if d is None else d + 1)
            if k in ('assign', 'cassign'):
                return root(e['l'])
            if k == 'construct' and e['args']:
                return root(e['args'][0])
            return None, None

        def mark(e, zero=False):
            r, d = root(e)
            if r is None:
                return
            d = 0 if (d is None or zero) else d
            mods[r] = min(mods.get(r, 99), d)

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k in ('assign', 'cassign'):
                mark(n['l'])
            elif k == 'un' and n['op'] in ('++', '--', 'post++', 'post--'):
                mark(n['e'])
            elif k == '_rfinc':
                mods[n['kk']] = 0
            elif k == 'call':
                fn = n['fn']
                short = fn['q'].split('::')[-1]
                if 'obj' in n and not fn.get('const') and not fn.get('static'):
                    if fn['own'] or short not in ('operator[]', 'at', 'front', 'back', 'begin', 'end', 'reserve', 'operator*', 'operator->', 'get', 'cbegin', 'cend', 'size'):
                        r, d = root(n['obj'])
                        if short in ('push_back', 'pop_back', 'resize', 'clear', 'operator=', 'insert', 'erase') and d is not None and r is not None:
                            mods[r] = min(mods.get(r, 99), d)
                        else:
                            mark(n['obj'], zero=True)
                for a, isref in zip(n['args'], fn.get('refs', [])):
                    if isref and not (not fn['own'] and short in ('operator<<', 'min', 'max')):
                        r, d = root(a)
                        if not fn['own'] and short == 'swap' and d is not None and r is not None:
                            mods[r] = min(mods.get(r, 99), d)
                        else:
                            mark(a, zero=True)
                if short in ('sort', 'nth_element', 'reverse', 'random_shuffle', 'fill', 'transform', 'copy'):
                    for a in n['args']:
                        mark(a, zero=True)
            elif k == 'decl':
                for v in n['vars']:
                    if v.get('ref') and v.get('init'):
                        r, d = root(v['init'])
                        if r is not None:
                            local[(self.frames[-1].no, v['id'])] = (r, d)
            elif k == 'rangefor':
                v = n['var']
                if v['ref']:
                    r, d = root(n['range'])
                    if r is not None:
                        local[(self.frames[-1].no, v['id'])] = (r, None if d is None else d + 1)
            for kk, x in n.items():
                if kk not in ('fn',) and isinstance(x, (dict, list)):
                    go(x)
        go(nodes)
        return {k: d for k, d in mods.items() if k in self.st.env or k[0] == 'fld' and k[1] in self.st.env and k[1] not in mods}

    def monotone(self, nodes):
        """integer locals whose only writes are ++ / += non-negative constant (or the mirror image)"""
        d = {}

        def note(e, s):
            if e['k'] == 'var' and not e.get('glob'):
                k = self.key_of(e)
                d[k] = s if d.get(k, s) == s else 0
            # writes through anything else do not reach a scalar local unless it is passed by reference

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
            elif isinstance(n, dict):
                k = n.get('k')
                if k == 'un' and n['op'] in ('++', 'post++'):
                    note(n['e'], 1)
                elif k == 'un' and n['op'] in ('--', 'post--'):
                    note(n['e'], -1)
                elif k == 'assign':
                    note(n['l'], 0)
                elif k == 'cassign':
                    r = n['r']
                    ok = r['k'] == 'int' and int(r['v']) >= 0
                    note(n['l'], {'+': 1, '-': -1}.get(n['op'], 0) if ok else 0)
                elif k == '_rfinc':
                    d[n['kk']] = 1
                elif k == 'un' and n['op'] == '&':
                    note(n['e'], 0)
                elif k == 'call':
                    for a, isref in zip(n['args'], n['fn'].get('refs', [])):
                        if isref:
                            note(a, 0)
                elif k == 'decl':
                    for v in n['vars']:
                        if v.get('ref') and v.get('init'):
                            note(v['init'], 0)
                for kk, x in n.items():
                    if kk != 'fn' and isinstance(x, (dict, list)):
                        go(x)
        go(nodes)
        return {k: s for k, s in d.items() if s}

    def pure(self, steps):
        if all(s[0] == 'idx' for s in steps):
            return len(steps)
        return None

    def havoc(self, v, depth, name):
        """fresh value for v; writes go to elements at `depth` or deeper, so outer lengths stay"""
        s = v.sort()
        if self.S.is_vec(s):
            es = self.S.elem(s)
            self.fresh_n += 1
            arr = z3.Const('%s!%d.arr' % (name, self.fresh_n), z3.ArraySort(Int, es))
            if depth == 0:
                ln = z3.Int('%s!%d.len' % (name, self.fresh_n))
                nv = self.S.mkvec(es, ln, arr)
                self.assume_type(nv)
                return nv
            ln = self.S.vlen(v)
            nv = self.S.mkvec(es, ln, arr)
            if self.S.is_vec(es):
                i = z3.Int('i!h')
                if depth >= 2:
                    self.assume(forall([i], self.S.vlen(self.S.at(nv, i)) == self.S.vlen(self.S.at(v, i))))
                    if self.S.is_vec(self.S.elem(es)) and depth >= 3:
                        j = z3.Int('j!h')
                        self.assume(forall([i, j], self.S.vlen(self.S.at(self.S.at(nv, i), j)) == self.S.vlen(self.S.at(self.S.at(v, i), j))))
                else:
                    self.assume_type(nv)
            return nv
        if self.S.is_rec(s):
            nv = self.fresh(name, s)
            self.assume_type(nv)
            return nv
        nv = self.fresh(name, s)
        return nv

    def try_unroll(self, s, cond, body, inc, bind):
        """loops whose condition is decided by constants (at most 40 iterations) are executed exactly"""
        if self.omp and self.omp[-1].get('counters') == []:
            return False
        c = cond
        if c is None:
            return False
        if c['k'] == '_rfcond':
            return False
        if c['k'] != 'bin':
            return False

        def constlike(e):
            if e['k'] in ('int',):
                return True
            if e['k'] == 'var' and not e.get('glob'):
                v = self.st.env.get(self.key_of(e))
                return v is not None and not isinstance(v, Alias) and z3.is_int_value(v)
            if e['k'] == 'var' and e.get('glob'):
                return e['t'] in S.INTS
            if e['k'] == 'cast':
                return constlike(e['e'])
            if e['k'] == 'bin':
                return constlike(e['l']) and constlike(e['r'])
            return False
        if not (constlike(c['l']) and constlike(c['r'])):
            return False
        brks = []
        n = 0
        svb, svc = self.brk, self.cont
        saved = (self.st.copy(), len(self.facts), len(self.vcs), len(self.throws), len(self.loops))
        while True:
            cv = z3.simplify(self.expr(cond))
            if z3.is_false(cv):
                break
            if not z3.is_true(cv) or n > 40:
                # not decidable by constants after all: roll back
                self.brk, self.cont = svb, svc
                self.st = saved[0]
                del self.facts[saved[1]:]
                del self.vcs[saved[2]:]
                del self.throws[saved[3]:]
                del self.loops[saved[4]:]
                self.reset_oracle()
                return False
            self.brk, self.cont = [], []
            self.stmt(body)
            brks += self.brk
            self.st = self.merge([self.st] + self.cont)
            if self.st.dead:
                break
            if inc:
                self.expr(inc)
            n += 1
        self.brk, self.cont = svb, svc
        self.st = self.merge(([self.st] if not self.st.dead else []) + brks)
        return True

    def loop(self, s, cond, body, inc, bind=None, extra_mod=None):
        if self.st.dead:
            return
        if self.try_unroll(s, cond, body, inc, bind):
            return
        L = Loop(len(self.loops), s['ln'], self.frames[-1].no)
        self.loops.append(L)
        mods = self.modset([cond, body, inc])
        for k, d in (extra_mod or {}).items():
            mods[k] = d
        entry = self.st.copy()
        self.loopstack.append((L, entry, mods))
        head = self.st
        for k, d in mods.items():
            if k[0] == 'fld':
                r = head.env[k[1]]
                head.env[k[1]] = self.S.setfield(r, k[2], self.havoc(self.S.field(r, k[2]), d, k[2]))
                continue
            v = head.env[k]
            if isinstance(v, Alias):
                continue
            head.env[k] = self.havoc(v, d, self.varname(k))
        for r in {k[1] for k in mods if k[0] == 'fld'}:
            head.env[r] = self.nameterm('h', head.env[r])
        for k, dirn in self.monotone([cond, body, inc]).items():
            if k in mods and k[0] != 'fld' and not isinstance(entry.env.get(k), Alias) and entry.env[k].sort() == Int:
                self.assume(head.env[k] >= entry.env[k] if dirn > 0 else head.env[k] <= entry.env[k])
        # counters: integer variables this loop modifies
        L.counters = [k for k in mods if k[0] != 'fld' and not isinstance(entry.env[k], Alias) and entry.env[k].sort() == Int]
        m0 = self.modset([inc]) if inc else {}
        L.main = [k for k in L.counters if k in m0] or L.counters
        L.mods = mods
        L.entry = entry
        self.make_candidates(L, cond)
        sv = self.st
        for c in L.cands:
            c.en = z3.Bool('en!%d!%d' % (L.n, L.cands.index(c)))
            # init obligation
            g = c.fn(entry)
            if g is None:
                c.alive = False
                continue
            self.vcid += 1
            L.init.append(VC(self.vcid, 'inv-init', 'loop at line %d: invariant holds on entry: %s' % (L.line, c.name), L.line, len(self.facts), entry.pc, g, self.key, L, c))
        for c in L.cands:
            if c.alive:
                t = c.fn(head)
                if t is None:
                    c.alive = False
                    continue
                self.facts.append(Implies(And(self.pcterm(head.pc), c.en), t))
        if self.omp and len(self.omp[-1]['counters']) < self.omp[-1]['collapse'] and len(self.frames) and self.omp[-1]['frame'] == self.frames[-1].no:
            o = self.omp[-1]
            # the iteration variable of the work-shared loop
            ini = s.get('init')
            key = None
            if ini and ini['k'] == 'decl' and len(ini['vars']) == 1:
                key = (self.frames[-1].no, ini['vars'][0]['id'])
            elif ini and ini['k'] == 'expr' and ini['e']['k'] == 'assign' and ini['e']['l']['k'] == 'var':
                key = self.key_of(ini['e']['l'])
            if key is not None:
                o['counters'].append(head.env[key])
                o['shared'].discard(key)
        cv = self.expr(cond) if cond else z3.BoolVal(True)
        if not z3.is_const(cv) and not (z3.is_not(cv) and z3.is_const(cv.arg(0))):
            pass
        bst, xst = self.split(cv)
        svb, svc = self.brk, self.cont
        self.brk, self.cont = [], []
        self.st = bst
        if not self.st.dead:
            if bind:
                bind()
            self.stmt(body)
            self.st = self.merge(([self.st] if not self.st.dead else []) + self.cont)
            if not self.st.dead and inc:
                self.expr(inc)
        if not self.st.dead:
            end = self.st
            for c in L.cands:
                if not c.alive:
                    continue
                self.vcid += 1
                L.pres.append(VC(self.vcid, 'inv-pres', 'loop at line %d: invariant is preserved: %s' % (L.line, c.name), L.line, len(self.facts), end.pc, c.fn(end), self.key, L, c))
        brks = self.brk
        self.brk, self.cont = svb, svc
        self.loopstack.pop()
        self.st = self.merge([xst] + brks)
        # drop variables local to the loop body
        for k in list(self.st.env):
            if k not in entry.env:
                del self.st.env[k]

    # ------------------------------------------------------------ candidate invariants
    def value(self, st, key):
        if key[0] == 'fld':
            return self.S.field(self.value(st, key[1]), key[2])
        v = st.env.get(key)
        if isinstance(v, Alias):
            sv = self.st
            self.st = st
            try:
                v = self.read((v.root, v.steps), record=False)
            finally:
                self.st = sv
        return v

    def make_candidates(self, L, cond):
        entry, mods = L.entry, L.mods
        C = []
        nm = self.varname

        def add(name, fn, group=None):
            C.append(Cand(name, fn))
            C[-1].group = group
        # counters
        for k in L.counters:
            e0 = entry.env[k]
            add('%s >= entry' % nm(k), lambda st, k=k, e0=e0: self.value(st, k) >= e0)
            add('%s <= entry' % nm(k), lambda st, k=k, e0=e0: self.value(st, k) <= e0)
            add('%s >= 0' % nm(k), lambda st, k=k: self.value(st, k) >= 0)
        conjs = []

        def flat(c):
            if c is None:
                return
            if c['k'] == 'bin' and c['op'] == '&&':
                flat(c['l'])
                flat(c['r'])
            else:
                conjs.append(c)
        flat(cond)
        for c in conjs:
            if c['k'] == '_rfcond':
                add('#k <= size', lambda st, c=c: self.value(st, c['kk']) <= self.S.vlen(self.quiet(st, lambda: self.read(c['path'], record=False))))
                continue
            if c['k'] != 'bin' or c['op'] not in ('<', '<=', '>', '>=', '!='):
                continue

            def unc(e):
                while e['k'] == 'cast':
                    e = e['e']
                return e
            for a, b, op in ((c['l'], c['r'], c['op']), (c['r'], c['l'], {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[c['op']])):
                a = unc(a)
                if a['k'] == 'var' and not a.get('glob') and a['t'] in S.INTS:
                    key = self.resolve(self.key_of(a))[0]
                    if key not in mods:
                        continue
                    e0 = entry.env[key]

                    def f(st, key=key, b=b, op=op, e0=e0):
                        bv = self.quiet(st, lambda: self.expr(b))
                        if bv is None or bv.sort() != Int:
                            return None
                        x = self.value(st, key)
                        if op == '<' or op == '!=':
                            return Or(x <= bv, And(e0 > bv, x == e0))
                        if op == '<=':
                            return Or(x <= bv + 1, And(e0 > bv + 1, x == e0))
                        if op == '>':
                            return Or(x >= bv, And(e0 < bv, x == e0))
                        return Or(x >= bv - 1, And(e0 < bv - 1, x == e0))
                    add('%s bounded by the loop condition' % nm(key), f)
        # vectors
        for k, d in mods.items():
            v = self.value(entry, k) if k[0] == 'fld' else entry.env[k]
            if isinstance(v, Alias) or not self.S.is_vec(v.sort()):
                continue
            if d == 0:
                e0 = self.S.vlen(v)
                add('len(%s) unchanged' % nm(k), lambda st, k=k, e0=e0: self.S.vlen(self.value(st, k)) == e0)
                for ck in L.counters:
                    c0 = entry.env[ck]
                    add('len(%s) grows with %s' % (nm(k), nm(ck)), lambda st, k=k, e0=e0, ck=ck, c0=c0: self.S.vlen(self.value(st, k)) == e0 + self.value(st, ck) - c0)
                    add('len(%s) at most %s' % (nm(k), nm(ck)), lambda st, k=k, e0=e0, ck=ck, c0=c0: self.S.vlen(self.value(st, k)) <= e0 + self.value(st, ck) - c0)
            if d <= 1 and self.S.is_vec(self.S.elem(v.sort())):
                # row lengths
                def f(st, k=k, v=v):
                    i = z3.Int('i!c')
                    x = self.value(st, k)
                    return forall([i], Implies(And(i >= 0, i < self.S.vlen(v), i < self.S.vlen(x)), self.S.vlen(self.S.at(x, i)) == self.S.vlen(self.S.at(v, i))))
                add('row lengths of %s unchanged' % nm(k), f)
            # frame: cells at or beyond a counter are unchanged
            for ck in L.counters:
                def f(st, k=k, v=v, ck=ck):
                    i = z3.Int('i!c')
                    x = self.value(st, k)
                    return forall([i], Implies(And(i >= self.value(st, ck), i < self.S.vlen(v)), self.S.at(x, i) == self.S.at(v, i)))
                add('%s unchanged from %s on' % (nm(k), nm(ck)), f)
                if len(self.loopstack) > 1 or True:
                    pass
            # frame with respect to enclosing counters: rows other than the current one
            for (L2, _, _) in self.loopstack[:-1]:
                for ck in L2.counters:
                    if ck in mods:
                        continue
                    def f(st, k=k, v=v, ck=ck):
                        i = z3.Int('i!c')
                        x = self.value(st, k)
                        return forall([i], Implies(And(Not(i == self.value(st, ck)), i >= 0, i < self.S.vlen(v)), self.S.at(x, i) == self.S.at(v, i)))
                    add('%s unchanged outside row %s' % (nm(k), nm(ck)), f)
                    if not self.S.is_vec(self.S.elem(v.sort())):
                        continue
                    for ck2 in L.counters:
                        def f(st, k=k, v=v, ck=ck, ck2=ck2):
                            i = z3.Int('i!c')
                            x, o = self.value(st, k), self.value(st, ck)
                            return forall([i], Implies(And(i >= self.value(st, ck2), i < self.S.vlen(self.S.at(v, o))), self.S.at(self.S.at(x, o), i) == self.S.at(self.S.at(v, o), i)))
                        add('%s[%s] unchanged from %s on' % (nm(k), nm(ck), nm(ck2)), f)
                    if d <= 2 and self.S.is_vec(self.S.elem(self.S.elem(v.sort()))):
                        def f(st, k=k, v=v, ck=ck):
                            i = z3.Int('i!c')
                            x, o = self.value(st, k), self.value(st, ck)
                            return forall([i], Implies(And(i >= 0, i < self.S.vlen(self.S.at(v, o))), self.S.vlen(self.S.at(self.S.at(x, o), i)) == self.S.vlen(self.S.at(self.S.at(v, o), i))))
                        add('row lengths of %s[%s] unchanged' % (nm(k), nm(ck)), f)
                    for (L3, _, _) in self.loopstack[:-1]:
                        if L3.n <= L2.n:
                            continue
                        for ck3 in L3.counters:
                            if ck3 in mods or ck3 == ck:
                                continue
                            def f(st, k=k, v=v, ck=ck, ck3=ck3):
                                i = z3.Int('i!c')
                                x, o = self.value(st, k), self.value(st, ck)
                                return forall([i], Implies(And(Not(i == self.value(st, ck3)), i >= 0, i < self.S.vlen(self.S.at(v, o))), self.S.at(self.S.at(x, o), i) == self.S.at(self.S.at(v, o), i)))
                            add('%s[%s] unchanged outside row %s' % (nm(k), nm(ck), nm(ck3)), f)
        # ensures-derived region invariants
        if self.c is not None:
            self.region_candidates(L, add)
            self.throw_candidates(L, add)
            self.hint_candidates(L, add)
        L.cands = C

    def quiet(self, st, f):
        """evaluate in another state without recording anything"""
        oracle, S.ORACLE = S.ORACLE, None
        sv = (self.st, self.facts, self.vcs, self.throws, self.omp, self.tmpn)
        self.st, self.facts, self.vcs, self.throws, self.omp = st.copy(), [], [], [], []
        try:
            r = f()
            if self.facts:
                sv[1].extend(self.facts)
            return r
        except Unsupported:
            return None
        finally:
            self.st, self.facts, self.vcs, self.throws, self.omp = sv[:5]
            S.ORACLE = oracle

    def region_candidates(self, L, add):
        import ast
        entry, mods = L.entry, L.mods
        loops = [l for l, _, _ in self.loopstack]
        for ename, text in self.c.ensures:
            t = SP.parse(text)
            # only elementwise ensures: all(Q for i in .. for j in ..)
            target = None
            for t1, guard in self.elementwise(t):
                outs = [n.id for n in ast.walk(t1) if isinstance(n, ast.Name) and (n.id == 'result' or n.id.endswith('_out'))]
                if not outs or len(set(outs)) > 1:
                    continue
                out = outs[0]
                flds = {n.attr for n in ast.walk(t1) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == out}
                if len(flds) == 1 and sum(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == out for n in ast.walk(t1)) == len(outs):
                    # the region of one field of the output
                    fld = flds.pop()
                    rs = self.S.of(self.fn['ret']) if out == 'result' and self.fn['ret'] != 'void' and not self.fn.get('ctor') else self.resultsort() if out == 'result' else self.centry[out[:-4]].sort() if out[:-4] in self.centry else None
                    if rs is None or not self.S.is_rec(rs):
                        continue
                    d, fs = self.S.rec_by_sort[rs.get_id()]
                    if fld not in fs:
                        continue
                    sort = d.accessor(0, fs.index(fld)).range()

                    class Sub(ast.NodeTransformer):
                        def visit_Attribute(s, n):
                            if isinstance(n.value, ast.Name) and n.value.id == out:
                                return ast.copy_location(ast.Name('field_out', ast.Load()), n)
                            return s.generic_visit(n)
                    import copy
                    t1 = Sub().visit(copy.deepcopy(t1))
                    out = 'field_out'
                elif out == 'result':
                    sort = self.S.of(self.fn['ret']) if self.fn['ret'] != 'void' else None
                else:
                    base = out[:-4]
                    v = self.centry.get(base)
                    sort = v.sort() if v is not None else None
                if sort is None:
                    continue
                gens = t1.args[0].generators
                names = [g.target.id for g in gens]
                seqs = []
                for n in range(1, min(len(names), len(loops)) + 1):
                    for sub in itertools.combinations(range(len(loops)), n):
                        if sub[-1] != len(loops) - 1 and False:
                            continue
                        for qs in itertools.permutations(names, n):
                            opts = [loops[i].counters for i in sub]
                            for cs in itertools.product(*opts):
                                seqs.append(list(zip(qs, cs)))
                seqs = seqs[:60]
                for k in list(mods) + sorted({k[1] for k in mods if k[0] == 'fld'}, key=str):
                    v = self.value(entry, k) if k[0] == 'fld' else entry.env[k]
                    if isinstance(v, Alias) or v.sort() != sort:
                        continue
                    for seq in seqs:
                        def f(st, k=k, seq=seq, t1=t1, out=out, guard=guard):
                            env = dict(self.centry)
                            env[out] = self.value(st, k)
                            return self.region(t1, env, [(q, self.value(st, c)) for q, c in seq], guard)
                        add('%s[%s] for (%s) done, as %s' % (ename, ','.join(names), ','.join('%s<%s' % (q, self.varname(c)) for q, c in seq), self.varname(k)), f)
                    # everything so far and to come (unchanged by this loop), and the diagonal: whole statement
                    def f(st, k=k, t1=t1, out=out, guard=guard):
                        env = dict(self.centry)
                        env[out] = self.value(st, k)
                        r = self.spec(t1, env)
                        return Implies(self.spec(guard, env), r) if guard is not None else r
                    add('%s all, as %s' % (ename, self.varname(k)), f)

    def elementwise(self, t, guard=None):
        """the universally quantified conjuncts of an ensures clause, with the condition they hold under"""
        import ast
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            for v in t.values:
                yield from self.elementwise(v, guard)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'implies' and guard is None:
            yield from self.elementwise(t.args[1], t.args[0])
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'all':
            g = t.args[0]
            yield t, guard
            if isinstance(g.elt, ast.BoolOp) and isinstance(g.elt.op, ast.And):
                for v in g.elt.values:
                    yield ast.Call(t.func, [ast.GeneratorExp(v, g.generators)], []), guard

    def resultsort(self):
        k = self.thiskey()
        return self.st.env[k].sort() if k in self.st.env and not isinstance(self.st.env[k], Alias) else None

    def throw_candidates(self, L, add):
        """what has not been thrown so far: for each disjunct of the throws condition"""
        import ast
        if not self.c.throws:
            return
        loops = [l for l, _, _ in self.loopstack]
        mods = L.mods

        def disj(t):
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
                for v in t.values:
                    yield from disj(v)
            else:
                yield t
        for n, d in enumerate(disj(SP.parse(self.c.throws))):
            guard, q = None, d
            if isinstance(d, ast.BoolOp) and isinstance(d.op, ast.And):
                anys = [v for v in d.values if isinstance(v, ast.Call) and getattr(v.func, 'id', '') == 'any']
                if len(anys) == 1:
                    rest = [v for v in d.values if v is not anys[0]]
                    guard = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
                    q = anys[0]
            isany = isinstance(q, ast.Call) and getattr(q.func, 'id', '') == 'any'
            dt = self.spec(d, self.centry)
            add('not thrown %d' % n, lambda st, dt=dt: Not(dt))

            def f(st, dt=dt, ls=None):
                eqs = [self.value(st, c) == l.entry.env[c] for l in loops for c in l.counters]
                return Or(And(*eqs), Not(dt)) if eqs else None
            add('not thrown %d unless nothing done' % n, f)

            def f(st, dt=dt):
                eqs = [self.value(st, c) == L.entry.env[c] for c in L.counters]
                return Or(And(*eqs), Not(dt)) if eqs else None
            if len(loops) > 1:
                add('not thrown %d unless this loop did nothing' % n, f)
            if isany:
                gen = q.args[0]
                neg = ast.Call(ast.Name('all', ast.Load()), [ast.GeneratorExp(ast.UnaryOp(ast.Not(), gen.elt), gen.generators)], [])
                names = [g.target.id for g in gen.generators]
                seqs = []
                for m in range(1, min(len(names), len(loops)) + 1):
                    for sub in itertools.combinations(range(len(loops)), m):
                        for qs in itertools.permutations(names, m):
                            for cs in itertools.product(*[loops[i].counters for i in sub]):
                                seqs.append(list(zip(qs, cs)))
                for seq in seqs[:40]:
                    def f(st, seq=seq, neg=neg, guard=guard):
                        return self.region(neg, dict(self.centry), [(a, self.value(st, c)) for a, c in seq], guard)
                    add('not thrown %d for (%s)' % (n, ','.join('%s<%s' % (a, self.varname(c)) for a, c in seq)), f)

    def region(self, t1, env, seq, guard):
        sv, S.ORACLE = S.ORACLE, None
        try:
            return self.region0(t1, env, seq, guard)
        finally:
            S.ORACLE = sv

    def region0(self, t1, env, seq, guard):
        gen = t1.args[0]
        env = dict(env)
        bvs, gs, bound = [], [], {}
        if guard is not None:
            gs.append(self.spec(guard, env))
        for g in gen.generators:
            T = self.T.with_env(env)
            a = [T.tr(x) for x in g.iter.args]
            lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
            SP.Trans.cnt[0] += 1
            v = z3.Int('%s!%d' % (g.target.id, SP.Trans.cnt[0]))
            env[g.target.id] = v
            bound[g.target.id] = v
            bvs.append(v)
            gs += [lo <= v, v < hi]
            for c in g.ifs:
                gs.append(self.T.with_env(env).tr(c))
        lex = z3.BoolVal(False)
        for n in reversed(range(len(seq))):
            q, c = seq[n]
            lex = Or(bound[q] < c, And(bound[q] == c, lex))
        body = self.T.with_env(env).tr(gen.elt)
        return forall(bvs, Implies(And(*(gs + [lex])), body))

    def hint_candidates(self, L, add):
        entry, mods = L.entry, L.mods
        loops = [l for l, _, _ in self.loopstack]
        allcounters = [c for l in loops for c in l.counters]
        mains = [c for l in loops for c in l.main]
        for hn, h in enumerate(self.c.hints):
            text, metas = h[0], h[1]
            names = list(metas)
            doms = []
            for m in names:
                kind = metas[m]
                mod = '*' in kind
                cnt = '+' in kind
                outer = '^' in kind
                main = '#' in kind
                base = kind.rstrip('*+~^#')
                fname = None
                if '.' in base:
                    base, fname = base.split('.')
                want = self.T.sort(base)
                dom = []
                if fname:
                    # a field of a record variable
                    for k, v in entry.env.items():
                        if not isinstance(v, Alias) and self.S.is_rec(v.sort()) and fname in self.S.rec_by_sort[v.sort().get_id()][1] and self.S.field(v, fname).sort() == want:
                            dom.append(('fld', k, fname))
                    doms.append(dom)
                    continue
                for k, v in list(entry.env.items()) + [(k, self.value(entry, k)) for k in mods if k[0] == 'fld']:
                    if k[0] == 't' or k[1] in ('ret',):
                        continue
                    vv = self.value(entry, k) if isinstance(v, Alias) else v
                    if vv is None or vv.sort() != want:
                        continue
                    if isinstance(v, Alias):
                        r, _ = v.root, v.steps
                        ismod = r in mods
                    else:
                        ismod = k in mods or any(m[0] == 'fld' and m[1] == k for m in mods)
                    if mod and not ismod:
                        continue
                    if cnt and k not in allcounters:
                        continue
                    if main and k not in mains:
                        continue
                    if outer and (k not in allcounters or k in mods):
                        continue
                    dom.append(k)
                doms.append(dom)
            import os
            if os.environ.get('GV_HINT'):
                print('HINT', text[:60], [len(d) for d in doms], [str(d)[:100] for d in doms])
            n = 0
            for combo in itertools.product(*doms):
                if len(set(combo)) < len(combo):
                    continue
                if not any(k in mods or k[0] != 'fld' and isinstance(entry.env[k], Alias) or any(m[0] == 'fld' and m[1] == k for m in mods) for k in combo) and combo:
                    continue
                n += 1
                if n > 250:
                    break

                def f(st, combo=combo, text=text, names=names):
                    env = dict(self.centry)
                    for m, k in zip(names, combo):
                        env[m.replace('$', 'MV_')] = self.value(st, k)
                    for m, k in zip(names, combo):
                        ev = self.value(L.entry, k)
                        env[m.replace('$', 'MV0_')] = ev
                    try:
                        return self.spec(text.replace('$0', 'MV0_').replace('$', 'MV_'), env)
                    except SP.SpecError:
                        return None
                label = text
                for m, k in sorted(zip(names, combo), key=lambda x: -len(x[0])):
                    label = label.replace('$0' + m[1:], self.varname(k) + '@entry').replace(m, self.varname(k))
                add('hint ' + label, f, hn)

    # ------------------------------------------------------------ whole function
    def run(self):
        S.ORACLE = self
        try:
            return self.run0()
        finally:
            S.ORACLE = None

    def run0(self):
        d = self.fn
        c = self.c
        fr = Frame('f0', d)
        self.frames.append(fr)
        env = self.st.env
        vals = []
        for p in d['params']:
            k = (fr.no, p['id'])
            v = self.param_value(p['name'], p['t'])
            env[k] = v
            fr.names[p['name']] = k
            self.types[k] = p['t']
            vals.append(v)
        thisval = None
        if d.get('parent') and not d.get('static'):
            sort = self.S.of('rec:' + d['parent'])
            if d.get('ctor'):
                env[(fr.no, 'this')] = self.uninit(sort)
            else:
                thisval = self.param_value('this', 'rec:' + d['parent'])
                env[(fr.no, 'this')] = thisval
        self.paramvals = vals
        self.thisval = thisval
        self.nparamfacts = len(self.facts)
        self.centry = {}
        if c is not None:
            if len(c.params) != len(d['params']):
                raise Unsupported('contract of %s names %d parameters, the code has %d' % (self.key, len(c.params), len(d['params'])))
            self.centry = self.add_lets(c, self.contract_env(c, d, vals, thisval))
            for r in c.requires:
                self.facts.append(self.spec(r, self.centry))
        self.npre = len(self.facts)
        if d.get('ctor'):
            for i in d.get('inits', []):
                if i.get('delegating'):
                    self.write((self.thiskey(), ()), self.expr(i['e']))
                elif 'field' in i:
                    v = self.expr(i['e'])
                    path = (self.thiskey(), (('fld', i['field']),))
                    cur = self.read(path, record=False)
                    self.write(path, self.coerce_rec(v, cur.sort()))
                elif 'base' in i:
                    b = i['e']
                    if b['k'] == 'construct' and b['fn']['key'] in self.P.functions and 'body' in self.P.functions[b['fn']['key']]:
                        self.inline(self.P.functions[b['fn']['key']], b['args'], Alias(self.thiskey(), ()), d['ln'])
        self.stmt(d['body'])
        # a function with a value must not fall off its end
        if not self.st.dead and d['ret'] != 'void' and not d.get('ctor'):
            self.oblige('noreturn', z3.BoolVal(False), d.get('endln', d['ln']), 'a value is returned on every path')
            self.st.dead = True
        rets = fr.returns + ([] if self.st.dead else [self.st])
        rets = [r for r in rets if not r.dead]
        if len(rets) > 10:
            rets = [self.merge(rets)]
        self.rets = rets
        exitst = self.merge(rets) if len(rets) != 1 else rets[0]
        self.exit = exitst
        if c is None:
            return self
        # throws
        for st, line in self.throws:
            self.st = st
            if c.throws is not None:
                self.oblige('throws', self.spec(c.throws, self.centry), line, 'an exception is thrown only when: ' + c.throws, assume=False)
            elif c.may_throw is not None:
                self.oblige('throws', self.spec(c.may_throw, self.centry), line, 'an exception is thrown only when: ' + c.may_throw, assume=False)
            else:
                self.oblige('throws', z3.BoolVal(False), line, 'no exception is thrown', assume=False)
        for n_, exitst in enumerate(rets):
            self.st = exitst
            if c.throws is not None:
                self.oblige('throws', Not(self.spec(c.throws, self.centry)), d['ln'], 'an exception is thrown whenever: ' + c.throws)
            env = dict(self.centry)
            if d.get('ctor'):
                env['result'] = self.read((self.thiskey(), ()), record=False)
            elif d['ret'] != 'void':
                env['result'] = self.nameterm('result', exitst.env[(fr.no, 'ret')])
            for n, p in zip(c.params, d['params']):
                if p['mut']:
                    env[n + '_out'] = self.nameterm('out', exitst.env[(fr.no, p['id'])])
            if thisval is not None and not d.get('const'):
                env['this_out'] = exitst.env[(fr.no, 'this')]
            self.cexit = env
            for name, text in c.ensures:
                self.oblige('ensures', self.spec(text, env), d['ln'], name + ': ' + ' '.join(text.split()), assume=False)
        return self

    def uninit(self, s):
        """the object a constructor starts from: vectors are empty, scalars indeterminate"""
        if self.S.is_rec(s):
            d, fs = self.S.rec_by_sort[s.get_id()]
            return d.constructor(0)(*[self.uninit(d.accessor(0, k).range()) for k in range(len(fs))])
        if self.S.is_vec(s):
            return self.S.default(s)
        return self.fresh('uninit', s)

    def param_value(self, name, t):
        s = self.S.of(t)
        v = self.top_value('p_' + name, s)
        for f in self.typefacts(v):
            self.facts.append(f)
        if t == 'bool':
            return v
        if t in S.UNSIGNED:
            self.facts.append(And(v >= 0, v < S.UNSIGNED[t]))
        if t == 'i32':
            self.facts.append(And(v >= -2147483648, v <= 2147483647))
        if t.startswith('enum:') and t[5:] in self.P.enums:
            vs = sorted(set(self.P.enums[t[5:]].values()))
            self.facts.append(Or(*[v == x for x in vs]))
        return v

    def top_value(self, name, s):
        if self.S.is_vec(s):
            es = self.S.elem(s)
            return self.S.mkvec(es, z3.Int(name + '.len'), z3.Const(name + '.arr', z3.ArraySort(Int, es)))
        if self.S.is_rec(s):
            d, fs = self.S.rec_by_sort[s.get_id()]
            return d.constructor(0)(*[self.top_value(name + '.' + f, d.accessor(0, i).range()) for i, f in enumerate(fs)])
        return z3.Const(name, s)
