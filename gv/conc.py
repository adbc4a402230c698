"""Concrete reading of the contracts: a three-valued evaluator of the specification language over exact rationals with
error bounds.  Used only to look for a failing input once an obligation has failed (and for the functions whose check is
bounded): the real, compiled code is run on generated inputs and the same contract text is the oracle."""
import ast, math
from fractions import Fraction
from . import spec as SP


class Unk(Exception):
    """the value cannot be determined"""


class Ap:
    """a number known up to an error"""
    __slots__ = ('v', 'e')

    def __init__(self, v, e):
        self.v, self.e = v, e

    def __repr__(self):
        return '%.9g~%.2g' % (float(self.v), float(self.e))

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


NAN = float('nan')
INF = float('inf')


def special(x):
    return isinstance(x, float)


def isnum(x):
    return isinstance(x, (Fraction, Ap))


def num(x):
    """int -> real"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return x


def ve(x):
    return (x.v, x.e) if isinstance(x, Ap) else (x, 0)


def mk(v, e):
    return v if e == 0 else Ap(v, e)


def fdbl(v, rel=1e-9, abs_=1e-12):
    """a number computed in double precision"""
    if v != v or v in (INF, -INF):
        return float(v)
    if abs(v) > 1e30:
        raise Unk()
    f = Fraction(v)
    return Ap(f, abs(f) * Fraction(rel) + Fraction(abs_))


def tofloat(x):
    return float(x.v) if isinstance(x, Ap) else float(x)


def lt(a, b):
    """IEEE <; None if not determined"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Unk()         # (a vector where a number belongs: the case is not judged)
    a, b = num(a), num(b)
    if special(a) or special(b):
        return tofloat(a) < tofloat(b)
    (x, ex), (y, ey) = ve(a), ve(b)
    if x + ex < y - ey:
        return True
    if x - ex >= y + ey:
        return False
    return None


def le(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Unk()         # (a vector where a number belongs: the case is not judged)
    a, b = num(a), num(b)
    if special(a) or special(b):
        return tofloat(a) <= tofloat(b)
    (x, ex), (y, ey) = ve(a), ve(b)
    if x + ex <= y - ey:
        return True
    if x - ex > y + ey:
        return False
    return None


def eq(a, b):
    """logical equality (NaN equals NaN); vectors and records component-wise"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            q = eq(x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    if isinstance(a, dict):
        return eq(tuple(a.values()), tuple(b[k] for k in a))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    a, b = num(a), num(b)
    if special(a) or special(b):
        if special(a) and special(b):
            return (a != a and b != b) or a == b
        return False
    (x, ex), (y, ey) = ve(a), ve(b)
    if ex == 0 and ey == 0:
        return x == y
    return None if abs(x - y) <= ex + ey else False


REL = 0         # relative error of one operation in the code (contracts over rounded formulas)
BIG, TINY = Fraction(10) ** 30, Fraction(1, 10 ** 30)


def ranged(x):
    """values that float32 cannot hold are not judged"""
    if isinstance(x, (Fraction, Ap)):
        v, e = ve(x)
        if abs(v) + e > BIG or (v != 0 and abs(v) < TINY):
            raise Unk()
    return x


def arith(op, a, b):
    r = ranged(arith0(op, a, b))
    if REL and isinstance(r, (Fraction, Ap)):
        v, e = ve(r)
        if v != 0:
            r = Ap(v, e + abs(v) * REL)
    return r


def arith0(op, a, b):
    a, b = num(a), num(b)
    if special(a) or special(b):
        x, y = tofloat(a), tofloat(b)
        try:
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
        except ZeroDivisionError:
            r = NAN if x != x or x == 0 else math.copysign(INF, x)
        return fin_or_special(r)
    (x, ex), (y, ey) = ve(a), ve(b)
    if op == '+':
        return mk(x + y, ex + ey)
    if op == '-':
        return mk(x - y, ex + ey)
    if op == '*':
        return mk(x * y, abs(x) * ey + abs(y) * ex + ex * ey)
    if y == 0 and ey == 0:
        if ex:
            raise Unk()
        return NAN if x == 0 else (INF if x > 0 else -INF)
    if abs(y) <= ey:
        raise Unk()
    q = x / y
    return mk(q, (ex + abs(q) * ey) / (abs(y) - ey))


def fin_or_special(r):
    if r != r or r in (INF, -INF):
        return r
    return Fraction(r)


def floor_(x):
    v, e = ve(num(x))
    if isinstance(v, float):
        raise Unk()
    lo, hi = math.floor(v - e), math.floor(v + e)
    if lo != hi:
        raise Unk()
    return lo


def trunc_(x):
    if special(x):
        raise Unk()
    v, e = ve(num(x))
    lo, hi = int(v - e), int(v + e)
    if lo != hi:
        raise Unk()
    return lo


IMPL = {}      # concrete implementations of uninterpreted functions that need more than doubles


def not_(x):
    return None if x is None else not x


class Ev:
    def __init__(self, enum):
        self.enum = enum
        self.memo = {}
        self.keep = []
        self.steps = 0

    MAXSTEPS = 3000000

    def boolean(self, n, env):
        """True, False or None"""
        try:
            r = self.ev(n, env)
        except Unk:
            return None
        return r

    def text(self, t, env):
        return self.boolean(SP.parse(t), env)

    def ev(self, n, env):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unk()
        return getattr(self, 'e_' + type(n).__name__)(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return Fraction(repr(v))
        return v

    def e_Name(self, n, env):
        if n.id in env:
            v = env[n.id]
            if callable(v):
                return v()
            return v
        if n.id == 'NaN':
            return NAN
        if n.id == 'Inf':
            return INF
        if n.id in self.enum:
            return self.enum[n.id]
        raise SP.SpecError('unknown name ' + n.id)

    def e_UnaryOp(self, n, env):
        if isinstance(n.op, ast.Not):
            return not_(self.boolean(n.operand, env))
        x = self.ev(n.operand, env)
        if isinstance(x, Ap):
            return Ap(-x.v, x.e)
        return -x

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        r = is_and
        for v in n.values:
            x = self.boolean(v, env)
            if x is None:
                r = None
            elif bool(x) != is_and:
                return not is_and
        return r

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        if isinstance(n.op, ast.Pow):
            r = a
            for _ in range(ast.literal_eval(n.right) - 1):
                r = arith('*', r, a)
            return r
        b = self.ev(n.right, env)
        op = type(n.op)
        if isinstance(a, int) and isinstance(b, int):
            if op is ast.Add:
                return a + b
            if op is ast.Sub:
                return a - b
            if op is ast.Mult:
                return a * b
            if op is ast.FloorDiv or op is ast.Mod:
                if b == 0:
                    raise Unk()
                m = a % abs(b)
                return m if op is ast.Mod else (a - m) // b
        return arith({ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[op], a, b)

    def e_Compare(self, n, env):
        l = self.ev(n.left, env)
        r = True
        for o, c in zip(n.ops, n.comparators):
            x = self.ev(c, env)
            t = type(o)
            q = {ast.Eq: lambda: eq(l, x), ast.NotEq: lambda: not_(eq(l, x)), ast.Lt: lambda: lt(l, x), ast.LtE: lambda: le(l, x),
                 ast.Gt: lambda: lt(x, l), ast.GtE: lambda: le(x, l)}[t]()
            if q is False:
                return False
            if q is None:
                r = None
            l = x
        return r

    def e_IfExp(self, n, env):
        c = self.boolean(n.test, env)
        if c is None:
            a, b = self.ev(n.body, env), self.ev(n.orelse, env)
            if isinstance(a, bool) and isinstance(b, bool):
                return a if a == b else None
            if isinstance(a, (int, Fraction)) and eq(a, b):
                return a
            if a is None or b is None:
                return None
            if isnum(num(a)) and isnum(num(b)):
                (x, ex), (y, ey) = ve(num(a)), ve(num(b))
                if abs(x - y) <= ex + ey + Fraction(1, 100000):
                    return Ap(x, ex + 2 * ey + abs(x - y))
            raise Unk()
        return self.ev(n.body if c else n.orelse, env)

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        i = self.ev(n.slice, env)
        if not isinstance(i, int) or i < 0 or i >= len(v):
            raise Unk()
        return v[i]

    def e_Attribute(self, n, env):
        v = self.ev(n.value, env)
        if n.attr not in v:
            raise Unk()
        return v[n.attr]

    def quant(self, gen, env, is_all, k=0):
        if k == len(gen.generators):
            return self.boolean(gen.elt, env)
        g = gen.generators[k]
        a = [self.ev(x, env) for x in g.iter.args]
        lo, hi = (0, a[0]) if len(a) == 1 else a
        if hi - lo > 100000:
            raise Unk()
        r = is_all
        env = dict(env)
        for i in range(lo, hi):
            env[g.target.id] = i
            cond = True
            for c in g.ifs:
                q = self.boolean(c, env)
                if q is False:
                    cond = False
                    break
                if q is None:
                    cond = None
            if cond is False:
                continue
            try:
                q = self.quant(gen, env, is_all, k + 1)
            except Unk:
                q = None
            if q is None or (cond is None and q is not is_all):
                r = None
            elif q is not is_all and bool(q) != is_all:
                return not is_all
        return r

    def e_Call(self, n, env):
        f = n.func.id
        if f in ('all', 'any'):
            return self.quant(n.args[0], env, f == 'all')
        if f == 'implies':
            a = self.boolean(n.args[0], env)
            if a is False:
                return True
            b = self.boolean(n.args[1], env)
            if b:
                return True
            return None if a is None or b is None else False
        if f == 'let':
            env = dict(env)
            env[n.args[0].id] = self.ev(n.args[1], env)
            return self.ev(n.args[2], env)
        if f == 'forall':
            raise Unk()
        a = [self.ev(x, env) for x in n.args]
        if f == 'len':
            return len(a[0])
        if f == 'valid':
            return not special(num(a[0]))
        if f == 'isnan':
            return special(a[0]) and a[0] != a[0]
        if f == 'val':
            if special(a[0]):
                raise Unk()
            return num(a[0])
        if f in ('fin', 'real', 'toF'):
            return num(a[0])
        if f in ('floatcmp_eq', 'feq'):
            if special(a[0]) or special(a[1]):
                return tofloat(a[0]) == tofloat(a[1])
            return eq(a[0], a[1])
        if f in ('min', 'max'):
            r = a[0]
            for x in a[1:]:
                c = lt(x, r) if f == 'min' else lt(r, x)
                if c is None:
                    (u, eu), (w, ew) = ve(num(x)), ve(num(r))
                    r = Ap(min(u, w) if f == 'min' else max(u, w), eu + ew)
                elif c:
                    r = x
            return r
        if f == 'abs':
            x = a[0]
            return abs(x) if not isinstance(x, Ap) else Ap(abs(x.v), x.e)
        if f == 'floor':
            return floor_(a[0])
        if f == 'ceil':
            x = a[0]
            return -floor_(Ap(-x.v, x.e) if isinstance(x, Ap) else -x)
        if f == 'trunc':
            return trunc_(a[0])
        if f == 'ite':
            return a[1] if a[0] else a[2]
        if f == 'mk':
            return (a[1],) * a[0]
        if f == 'push':
            return a[0] + (num(a[1]) if not isinstance(a[1], int) else a[1],)
        if f in ('emptyf', 'emptyi'):
            return ()
        if f in IMPL:
            return IMPL[f](*a)
        if f in SP.LOGIC:
            L = SP.LOGIC[f]
            a = [num(x) if t in ('f', 'r', 'f32') else x for x, (_, t) in zip(a, L.params)]
            key = (f,) + tuple(id(x) if isinstance(x, (tuple, dict, Ap)) else x for x in a)
            if key in self.memo:
                r = self.memo[key]
                if r is Unk:
                    raise Unk()
                return r
            self.keep.append(a)
            env2 = {p: x for (p, _), x in zip(L.params, a)}
            try:
                r = self.ev(L.body, env2)
            except Unk:
                self.memo[key] = Unk
                raise
            if L.ret in ('f', 'r', 'f32'):
                r = num(r)
            self.memo[key] = r
            self.keep.append(r)
            return r
        if f in SP.UNINTERP:
            at, rt, impl = SP.UNINTERP[f]
            if f == 'sortv':
                if any(special(x) or isinstance(x, Ap) for x in a[0]):
                    raise Unk()
                return tuple(sorted(a[0]))
            if impl is None:
                raise Unk()
            if all(t == 'f' for t in at):
                xs = [num(x) for x in a]
                v = impl(*[tofloat(x) for x in xs])
                if all(not isinstance(x, Ap) for x in xs) or v != v:
                    if any(isinstance(x, Ap) for x in xs):
                        raise Unk()
                    return fdbl(v)
                # propagate the error by evaluating at the ends
                vs = [v]
                for i, x in enumerate(xs):
                    if isinstance(x, Ap):
                        for s in (-1, 1):
                            ys = [tofloat(y) for y in xs]
                            ys[i] += s * float(x.e)
                            vs.append(impl(*ys))
                if any(y != y or abs(y) > 1e30 for y in vs):
                    raise Unk()
                return Ap(Fraction(v), Fraction(max(vs) - min(vs)) * 2 + Fraction(abs(v)) * Fraction(1e-9) + Fraction(1e-12))
            if rt == 'f' and 'f' in at:
                xs = [num(x) if t == 'f' else x for x, t in zip(a, at)]
                if any(isinstance(x, Ap) for x in xs):
                    raise Unk()
                v = impl(*[tofloat(x) if t == 'f' else x for x, t in zip(xs, at)])
                if v != v or abs(v) > 1e30:
                    if v == v and abs(v) != math.inf:
                        raise Unk()
                    return fdbl(v)
                return Ap(Fraction(v), Fraction(abs(v)) * Fraction(1e-5) + Fraction(1e-9))
            return impl(*a)
        raise SP.SpecError('unknown function ' + f)
