"""Specification language: Python expression syntax, read both as SMT terms and as an executable oracle.

    all(P for i in range(a, b) for j in range(c, d) if G)   bounded universal quantification
    any(...)                                                bounded existential quantification
    x == y        logical equality (NaN == NaN), x < y, x <= y: IEEE comparison for floats
    valid(x)      x is finite;   implies(a, b);  a if c else b;  len(v); v[i]; r.field
Logic functions are Python defs whose body is a single return; recursive ones become uninterpreted functions with
a definitional axiom unfolded one step per ground occurrence (limited-function encoding)."""
import ast, math
from fractions import Fraction
import z3
from . import sorts as S
from .sorts import F, Int, Bool, Real, And, Or, Not, Implies, If, fin

LOGIC = {}       # name -> LogicFn
LEMMAS = {}      # name -> Lemma
CONTRACTS = {}   # key pattern -> Contract
EXTRA_SOURCES = {}   # property -> further sources (client)
UNINTERP = {}    # name -> (arg types, result type, python impl)


class SpecError(Exception):
    pass


class LogicFn:
    def __init__(self, name, params, ret, body, recursive, opaque=False):
        self.name, self.params, self.ret, self.body, self.recursive, self.opaque = name, params, ret, body, recursive, opaque


class Lemma:
    def __init__(self, name, vars, requires, ensures, trigger, induct=None, uses=(), trusted=None, low=0, hints=(), reveal=()):
        self.reveal = list(reveal)
        self.hints = list(hints)     # instances `lemma(args)` of earlier lemmas
        self.name, self.vars, self.requires, self.ensures = name, vars, requires, ensures
        self.trigger, self.induct, self.uses, self.trusted, self.low = trigger, induct, list(uses), trusted, low


class Contract:
    def __init__(self, key, params, **kw):
        self.key, self.params = key, params
        self.props = kw.pop('props', [])
        self.requires = kw.pop('requires', [])
        self.throws = kw.pop('throws', None)
        self.may_throw = kw.pop('may_throw', None)
        self.ensures = kw.pop('ensures', [])
        self.assumes = kw.pop('assumes', [])     # clauses callers may use that are not proved (purity): trusted
        self.hints = kw.pop('hints', [])
        self.cuts = kw.pop('cuts', [])
        self.uses = kw.pop('uses', [])
        self.lets = kw.pop('lets', [])
        self.reveal = kw.pop('reveal', [])
        self.trusted = kw.pop('trusted', None)
        self.bounded = kw.pop('bounded', None)
        self.gen = kw.pop('gen', None)
        self.tol = kw.pop('tol', None)
        self.crash_ok = kw.pop('crash_ok', False)
        self.fp = kw.pop('fp', 0)
        self.search = kw.pop('search', True)
        self.internal = kw.pop('internal', False)
        self.inline = kw.pop('inline', [])
        self.virtual = kw.pop('virtual', None)
        self.timeout = kw.pop('timeout', None)
        self.note = kw.pop('note', None)
        self.opts = kw
        for e in [self.throws, self.may_throw] + list(self.requires) + [x[1] for x in self.ensures] + [x[1] for x in self.assumes] + [x[1] for x in self.lets]:
            if e is not None:
                parse(e)


_parsed = {}


def parse(text):
    t = _parsed.get(text)
    if t is None:
        t = ast.parse(text.strip().replace('\n', ' '), mode='eval').body
        _parsed[text] = t
    return t


def logic(src):
    for node in ast.parse(src).body:
        assert isinstance(node, ast.FunctionDef), node
        params = [(a.arg, ast.literal_eval(a.annotation)) for a in node.args.args]
        ret = ast.literal_eval(node.returns)
        body = node.body[-1]
        assert isinstance(body, ast.Return)
        rec = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == node.name for x in ast.walk(body.value))
        opaque = any(isinstance(d, ast.Name) and d.id == 'opaque' for d in node.decorator_list)
        LOGIC[node.name] = LogicFn(node.name, params, ret, body.value, rec or opaque, opaque)


def uninterp(name, args, ret, impl):
    UNINTERP[name] = (args, ret, impl)


def lemma(name, vars, ensures, requires=(), trigger=(), induct=None, uses=(), trusted=None, low=0, hints=(), reveal=()):
    # a lemma may use only lemmas stated before it, so the proofs cannot be circular
    for u in list(uses) + [h.split('(')[0] for h in hints]:
        if u not in LEMMAS:
            raise SpecError('lemma %s uses %s, which is not stated before it' % (name, u))
    if name in LEMMAS:
        raise SpecError('lemma %s stated twice' % name)
    LEMMAS[name] = Lemma(name, vars, list(requires), ensures, list(trigger), induct, uses, trusted, low, hints, reveal)


INVARIANTS = {}      # class -> spec text over `o`


def invariant(cls, text):
    """a fact about every object of a class: established by its constructors (proved there), assumed of objects that are given"""
    INVARIANTS[cls] = text


def _types(key):
    """parameter types of a key"""
    sig = key[key.index('(', key.index('::operator()') + 12 if '::operator()' in key else 0) + 1:-1]
    out, d, cur = [], 0, ''
    for ch in sig:
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
            continue
        d += (ch == '<') - (ch == '>')
        cur += ch
    return out + [cur] if cur else out


def _subst(text, name):
    import re
    return re.sub(r'\bo\b', name, text)


def contract(key, params, **kw):
    key = key.replace(' ', '').replace('(anonymousnamespace)', '(anonymous namespace)')
    ps = params.split() if isinstance(params, str) else params
    inv = []
    for n, t in zip(ps, _types(key)):
        t = t.rstrip('&')
        if t.startswith('rec:') and t[4:] in INVARIANTS:
            inv.append(_subst(INVARIANTS[t[4:]], n))
    q = key.split('(')[0]
    parent = q.rsplit('::', 1)[0] if '::' in q else ''
    ret = kw.pop('returns', None)
    static = kw.pop('static', False)
    if parent in INVARIANTS and not static:
        if q.rsplit('::', 1)[1] == parent.split('::')[-1]:
            ret = parent
        else:
            inv.append(_subst(INVARIANTS[parent], 'this'))
    if kw.pop('use_invariants', True):
        kw['requires'] = inv + list(kw.get('requires', []))
        if ret in INVARIANTS:
            kw['ensures'] = [('class invariant', _subst(INVARIANTS[ret], 'result'))] + list(kw.get('ensures', []))
    c = Contract(key, params.split() if isinstance(params, str) else params, **kw)
    CONTRACTS[key] = c
    return c


TYPES = {'f': 'f32', 'int': 'i32', 'bool': 'bool'}


class Trans:
    """Spec expression -> z3 term."""

    def __init__(self, sorts, enumconst, env=None):
        self.S = sorts
        self.enum = enumconst
        self.env = env or {}
        self.ufs = {}
        self.limited = False
        self.reveal = set()

    def sort(self, t):
        if t == 'r':
            return Real
        return self.S.of(TYPES.get(t, t))

    def uf(self, name, lim=False):
        n = name + ('__0' if lim and not (name in LOGIC and LOGIC[name].opaque) and name in LOGIC else '')
        if n not in self.ufs:
            if name in LOGIC:
                L = LOGIC[name]
                a, r = [t for _, t in L.params], L.ret
            else:
                a, r, _ = UNINTERP[name]
            self.ufs[n] = z3.Function('L_' + n, *([self.sort(t) for t in a] + [self.sort(r)]))
        return self.ufs[n]

    def with_env(self, env, limited=None):
        t = Trans(self.S, self.enum, env)
        t.ufs = self.ufs
        t.limited = self.limited if limited is None else limited
        t.reveal = self.reveal
        return t

    def term(self, text, env=None):
        t = self if env is None else self.with_env(env)
        return t.tr(parse(text) if isinstance(text, str) else text)

    def bool(self, text, env=None):
        r = self.term(text, env)
        if r.sort() != Bool:
            raise SpecError('not boolean: %s' % text)
        return r

    def toF(self, x):
        if x.sort() == F:
            return x
        if x.sort() == Int:
            return S.i2f(x)
        if x.sort() == Real:
            return S.Fin(x)
        raise SpecError('no float: %s' % x)

    def toR(self, x):
        if x.sort() == Real:
            return x
        if x.sort() == Int:
            return z3.RealVal(x.as_long()) if z3.is_int_value(x) else z3.ToReal(x)
        raise SpecError('no real: %s' % x)

    def unify(self, a, b):
        if a.sort() == b.sort():
            return a, b
        if F in (a.sort(), b.sort()):
            return self.toF(a), self.toF(b)
        if Real in (a.sort(), b.sort()):
            return self.toR(a), self.toR(b)
        if a.sort() == Bool and b.sort() == Int:
            return If(a, z3.IntVal(1), z3.IntVal(0)), b
        if b.sort() == Bool and a.sort() == Int:
            return a, If(b, z3.IntVal(1), z3.IntVal(0))
        raise SpecError('type mismatch %s : %s / %s : %s' % (a, a.sort(), b, b.sort()))

    def coerce(self, x, sort):
        if x.sort() == sort:
            return x
        if sort == F:
            return self.toF(x)
        if sort == Real:
            return self.toR(x)
        if sort == Int and x.sort() == Bool:
            return If(x, z3.IntVal(1), z3.IntVal(0))
        raise SpecError('cannot coerce %s:%s to %s' % (x, x.sort(), sort))

    def tr(self, n):
        m = getattr(self, 't_' + type(n).__name__, None)
        if m is None:
            raise SpecError('unsupported spec syntax ' + ast.dump(n))
        return m(n)

    def t_Constant(self, n):
        v = n.value
        if v is True or v is False:
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return fin(Fraction(repr(v)))
        raise SpecError('constant %r' % (v,))

    def t_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        if n.id == 'NaN':
            return S.NaN
        if n.id == 'Inf':
            return S.PInf
        if n.id in self.enum:
            return z3.IntVal(self.enum[n.id])
        raise SpecError('unknown name ' + n.id)

    def t_UnaryOp(self, n):
        x = self.tr(n.operand)
        if isinstance(n.op, ast.Not):
            return Not(x)
        if isinstance(n.op, ast.USub):
            if x.sort() == F:
                return S.fneg(x)
            if z3.is_int_value(x):
                return z3.IntVal(-x.as_long())
            return -x
        raise SpecError('unary')

    def t_BoolOp(self, n):
        xs = []
        for v in n.values:
            xs.append(self.tr(v))
        return And(*xs) if isinstance(n.op, ast.And) else Or(*xs)

    def t_BinOp(self, n):
        if isinstance(n.op, ast.Pow):
            a = self.tr(n.left)
            k = ast.literal_eval(n.right)
            r = a
            for _ in range(k - 1):
                r = S.fmul(r, a) if r.sort() == F else r * a
            return r
        a, b = self.unify(self.tr(n.left), self.tr(n.right))
        op = type(n.op)
        if a.sort() == F:
            f = {ast.Add: S.fadd, ast.Sub: S.fsub, ast.Mult: S.fmul, ast.Div: S.fdiv}[op]
            return f(a, b)
        if a.sort() == Bool:
            raise SpecError('arith on bool')
        if op is ast.Add:
            return a + b
        if op is ast.Sub:
            return a - b
        if op is ast.Mult:
            return a * b
        if op is ast.Div:
            if a.sort() == Int:
                a, b = self.toF(a), self.toF(b)
                return S.fdiv(a, b)
            return a / b
        if op is ast.FloorDiv:
            return a / b
        if op is ast.Mod:
            return a % b
        raise SpecError('binop')

    def cmp(self, op, a, b):
        if op in ('==', '!='):
            if S.is_special(a) or S.is_special(b):
                pass
            a, b = self.unify(a, b)
            r = S.eqc(a, b) if a.sort() == F else (z3.BoolVal(True) if a.eq(b) else a == b)
            return r if op == '==' else Not(r)
        a, b = self.unify(a, b)
        if a.sort() == F:
            return {'<': lambda: S.flt(a, b), '<=': lambda: S.fle(a, b), '>': lambda: S.flt(b, a), '>=': lambda: S.fle(b, a)}[op]()
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}

    def t_Compare(self, n):
        l = self.tr(n.left)
        out = []
        for o, c in zip(n.ops, n.comparators):
            r = self.tr(c)
            out.append(self.cmp(self.OPS[type(o)], l, r))
            l = r
        return And(*out)

    def t_IfExp(self, n):
        c = self.tr(n.test)
        if z3.is_true(c):
            return self.tr(n.body)
        if z3.is_false(c):
            return self.tr(n.orelse)
        a, b = self.unify(self.tr(n.body), self.tr(n.orelse))
        return If(c, a, b)

    def t_Subscript(self, n):
        v = self.tr(n.value)
        i = self.tr(n.slice)
        return self.S.at(v, i)

    def t_Attribute(self, n):
        v = self.tr(n.value)
        return self.S.field(v, n.attr)

    def t_Tuple(self, n):
        raise SpecError('tuple')

    cnt = [0]

    def quant(self, gen, is_all):
        env = dict(self.env)
        bvs, guards = [], []
        for g in gen.generators:
            t = self.with_env(env)
            if not (isinstance(g.iter, ast.Call) and g.iter.func.id == 'range'):
                raise SpecError('quantifier range')
            a = [t.tr(x) for x in g.iter.args]
            lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else a
            self.cnt[0] += 1
            v = z3.Int('%s!%d' % (g.target.id, self.cnt[0]))
            env[g.target.id] = v
            bvs.append(v)
            guards += [lo <= v, v < hi]
            t = self.with_env(env)
            for c in g.ifs:
                guards.append(t.tr(c))
        t = self.with_env(env)
        body = t.tr(gen.elt)
        g = And(*guards)
        if is_all:
            return forall(bvs, Implies(g, body))
        return exists(bvs, And(g, body))

    def t_Call(self, n):
        if not isinstance(n.func, ast.Name):
            raise SpecError('call')
        f = n.func.id
        if f in ('all', 'any'):
            return self.quant(n.args[0], f == 'all')
        if f == 'implies':
            return Implies(self.tr(n.args[0]), self.tr(n.args[1]))
        if f == 'forall':
            lam = n.args[0]
            return self.lamforall(lam)
        if f == 'let':   # let(x, e, body)
            env = dict(self.env)
            env[n.args[0].id] = self.tr(n.args[1])
            return self.with_env(env).tr(n.args[2])
        args = [self.tr(a) for a in n.args]
        if f == 'len':
            return self.S.vlen(args[0])
        if f == 'valid':
            return S.isFin(args[0])
        if f == 'isnan':
            return S.isNaN(args[0])
        if f == 'val':
            return S.val(args[0])
        if f == 'fin':
            return S.Fin(self.toR(args[0]))
        if f == 'real':
            return self.toR(args[0])
        if f == 'toF':
            return self.toF(args[0])
        if f in ('floatcmp_eq', 'feq'):
            return S.feq(self.toF(args[0]), self.toF(args[1]))
        if f in ('min', 'max'):
            r = args[0]
            for x in args[1:]:
                r, x = self.unify(r, x)
                if r.sort() == F:
                    c = S.flt(x, r) if f == 'min' else S.flt(r, x)   # std::min/std::max
                    r = If(c, x, r)
                else:
                    r = If(r <= x, r, x) if f == 'min' else If(r >= x, r, x)
            return r
        if f == 'abs':
            a = args[0]
            if a.sort() == F:
                return S.fabs_(a)
            return If(a >= 0, a, -a)
        if f == 'floor':
            x = args[0]
            return z3.ToInt(S.val(x) if x.sort() == F else self.toR(x))
        if f == 'ceil':
            x = args[0]
            return -z3.ToInt(-(S.val(x) if x.sort() == F else self.toR(x)))
        if f == 'trunc':
            return S.f2i(args[0])
        if f == 'ite':
            a, b = self.unify(args[1], args[2])
            return If(args[0], a, b)
        if f == 'mk':     # mk(n, v): vector of n copies of v
            return self.S.mkvec(args[1].sort(), args[0], z3.K(Int, args[1]))
        if f == 'push':
            v = args[0]
            ln = self.S.vlen(v)
            es = self.S.elem(v.sort())
            return self.S.mkvec(es, ln + 1, z3.Store(self.S.varr(v), ln, self.coerce(args[1], es)))
        if f == 'emptyf':
            return self.S.default(self.S.of('vec<f32>'))
        if f == 'emptyi':
            return self.S.default(self.S.of('vec<i32>'))
        if f in LOGIC:
            L = LOGIC[f]
            if len(args) != len(L.params):
                raise SpecError('arity of ' + f)
            args = [self.coerce(a, self.sort(t)) for a, (_, t) in zip(args, L.params)]
            if L.recursive and not (L.opaque and f in self.reveal):
                return self.uf(f, self.limited is True or self.limited == f)(*args)
            env = {p: a for (p, _), a in zip(L.params, args)}
            r = self.with_env(env).tr(L.body)
            return self.coerce(r, self.sort(L.ret))
        if f in UNINTERP:
            a, r, _ = UNINTERP[f]
            args = [self.coerce(x, self.sort(t)) for x, t in zip(args, a)]
            return self.uf(f)(*args)
        raise SpecError('unknown function ' + f)

    # ------------------------------------------------ axioms
    def logic_axioms(self, name):
        """definition (one unfolding per ground term) of a recursive logic function"""
        L = LOGIC[name]
        bvs = [z3.Const('%s!d' % p, self.sort(t)) for p, t in L.params]
        env = {p: v for (p, _), v in zip(L.params, bvs)}
        app = self.uf(name)(*bvs)
        body = self.with_env(env, limited=name).tr(L.body)
        body = self.coerce(body, self.sort(L.ret))
        lim = self.uf(name, True)(*bvs)
        return [z3.ForAll(bvs, app == body, patterns=[app], qid='def_' + name),
                z3.ForAll(bvs, app == lim, patterns=[app], qid='lim_' + name)]

    def lemma_vars(self, lm):
        out = []
        for part in lm.vars.split(';'):
            if part.strip():
                n, t = part.split(':', 1)
                out.append((n.strip(), t.strip()))
        return out

    def lemma_axiom(self, lm):
        vs = self.lemma_vars(lm)
        bvs = [z3.Const(n + '!l', self.sort(t)) for n, t in vs]
        env = {n: v for (n, _), v in zip(vs, bvs)}
        t = self.with_env(env)
        body = Implies(And(*[t.bool(r) for r in lm.requires]), t.bool(lm.ensures))
        pats = []
        for tr in lm.trigger:
            terms = [t.with_env(t.env, limited=True).term(x) for x in tr.split(' ;; ')]
            pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
        if pats and bvs:
            return z3.ForAll(bvs, body, patterns=pats, qid='lemma_' + lm.name)
        return forall(bvs, body)

    def lemma_obligation(self, lm):
        """(facts, goal) proving the lemma; induction on lm.induct (an int variable): the hypothesis is the lemma at
        every smaller value"""
        vs = self.lemma_vars(lm)
        cs = [z3.Const(n + '!c', self.sort(t)) for n, t in vs]
        env = {n: v for (n, _), v in zip(vs, cs)}
        t = self.with_env(env)
        t.reveal = set(lm.reveal)
        facts = [t.bool(r) for r in lm.requires]
        goal = t.bool(lm.ensures)
        if lm.induct:
            iv = lm.induct
            # hypothesis: for all other variables, at iv' with low <= iv' < iv
            bvs = [z3.Const(n + '!h', self.sort(ty)) for n, ty in vs]
            henv = {n: v for (n, _), v in zip(vs, bvs)}
            ht = self.with_env(henv)
            body = Implies(And(henv[iv] >= lm.low, henv[iv] < env[iv], *[ht.bool(r) for r in lm.requires]), ht.bool(lm.ensures))
            # instantiate at iv-1 with the other variables fixed, and give the general form with the lemma's triggers
            inst = {n: (c - 1 if n == iv else c) for (n, _), c in zip(vs, cs)}
            it = self.with_env(inst)
            facts.append(Implies(And(env[iv] - 1 >= lm.low, *[it.bool(r) for r in lm.requires]), it.bool(lm.ensures)))
            pats = []
            for tr in lm.trigger:
                terms = [ht.with_env(ht.env, limited=True).term(x) for x in tr.split(' ;; ')]
                pats.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
            if pats:
                facts.append(z3.ForAll(bvs, body, patterns=pats))
            facts.append(env[iv] >= lm.low)
        for h in lm.hints:
            call = ast.parse(h.strip(), mode='eval').body
            o = LEMMAS[call.func.id]
            ovs = self.lemma_vars(o)
            vals = {n: self.coerce(t.tr(a), self.sort(ty)) for (n, ty), a in zip(ovs, call.args)}
            ot = self.with_env(vals)
            facts.append(Implies(And(*[ot.bool(r) for r in o.requires]), ot.bool(o.ensures)))
        return facts, goal


# ------------------------------------------------------------------ quantifiers with explicit patterns
_INTERP_OK = None


def subterms_with(body, bvs):
    ids = {b.get_id() for b in bvs}
    seen = {}
    cands = []

    def go(t):
        """returns frozenset of bound var ids in t, and whether t is pattern-safe"""
        k = t.get_id()
        if k in seen:
            return seen[k]
        if z3.is_quantifier(t):
            seen[k] = (frozenset(), False)
            sub = go(t.body())
            # patterns must not contain the inner bound variable (de Bruijn Var); go() marks those unsafe
            seen[k] = (sub[0], False)
            return seen[k]
        if z3.is_var(t):
            r = (frozenset(), False)
            seen[k] = r
            return r
        if k in ids:
            r = (frozenset([k]), True)
            seen[k] = r
            return r
        vs = frozenset()
        safe = True
        for c in t.children():
            v, s = go(c)
            vs |= v
            safe = safe and s
        if not vs and safe:
            r = (vs, t.decl().kind() not in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES))
        else:
            d = t.decl().kind()
            ok = d in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_CONSTRUCTOR)
            r = (vs, safe and ok)
            if r[1] and vs and d in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED):
                cands.append((t, vs))
        seen[k] = r
        return r
    go(body)
    return cands


def has_store(t, cache={}):
    return False


def size(t):
    n = 1
    for c in t.children():
        n += size(c)
        if n > 200:
            return n
    return n


def forall(bvs, body, qid=None):
    if z3.is_true(body) or not bvs:
        return body
    cands = subterms_with(body, bvs)
    all_ids = frozenset(b.get_id() for b in bvs)
    full = [t for t, vs in cands if vs == all_ids]
    # minimal terms only: drop a candidate containing another full candidate as subterm
    pats = []
    if full:
        full.sort(key=size)
        for t in full:
            if not any(contains(t, p) for p in pats):
                pats.append(t)
        pats = pats[:6]
        pl = pats
    else:
        cover, chosen = frozenset(), []
        for t, vs in sorted(cands, key=lambda c: (-len(c[1]), size(c[0]))):
            if not vs <= cover:
                chosen.append(t)
                cover |= vs
            if cover == all_ids:
                break
        pl = [z3.MultiPattern(*chosen)] if cover == all_ids and chosen else []
    if pl:
        return z3.ForAll(bvs, body, patterns=pl)
    return z3.ForAll(bvs, body)


def contains(t, p):
    if t.eq(p):
        return True
    return any(contains(c, p) for c in t.children())


def exists(bvs, body):
    # as a negated universal, so that patterns are kept when it is negated
    q = forall(bvs, Not(body))
    return Not(q)
