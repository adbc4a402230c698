"""SMT sorts for C++ types and the arithmetic model.

float/double: datatype F = Fin(val: Real) | NaN | PInf | NInf, with IEEE comparison semantics; arithmetic on finite
values is exact (reals).  int/long/...: mathematical Int; unsigned subtraction wraps at 2^64 (2^32).
vector<T>: datatype (len: Int, arr: Array Int T).  Records: datatypes with the fields of the class.
"""
import z3
from fractions import Fraction

Int = z3.IntSort()
Bool = z3.BoolSort()
Real = z3.RealSort()
_F = z3.Datatype('F')
_F.declare('Fin', ('val', Real))
_F.declare('NaN'); _F.declare('PInf'); _F.declare('NInf')
F = _F.create()
NaN, PInf, NInf, Fin = F.NaN, F.PInf, F.NInf, F.Fin
U64 = 2 ** 64
U32 = 2 ** 32
MAXLEN = 2 ** 31 - 1


class Unsupported(Exception):
    pass


def parse_type(s):
    """'vec<vec<f32>>' -> ('vec', ('vec', 'f32'))"""
    def p(i):
        j = i
        while j < len(s) and s[j] not in '<>,':
            j += 1
        name = s[i:j]
        if j < len(s) and s[j] == '<' and name in ('vec', 'pair', 'ptr', 'set', 'map', 'iter', 'sptr', 'arr'):
            args = []
            j += 1
            while True:
                a, j = p(j)
                args.append(a)
                if s[j] == ',':
                    j += 1
                    continue
                assert s[j] == '>', s
                j += 1
                break
            return (name,) + tuple(args), j
        if j < len(s) and s[j] == '<':  # unknown template: swallow
            d = 0
            while j < len(s):
                if s[j] == '<':
                    d += 1
                elif s[j] == '>':
                    d -= 1
                    if d == 0:
                        j += 1
                        break
                j += 1
            return s[i:j], j
        return name, j
    t, j = p(0)
    return t


INTS = {'i32', 'i64', 'i16', 'i8', 'u32', 'u64', 'u16', 'u8'}
FLOATS = {'f32', 'f64', 'f80'}
UNSIGNED = {'u64': U64, 'u32': U32, 'u16': 2 ** 16, 'u8': 2 ** 8}
SIGNED = {'i32': 2 ** 32, 'i64': U64, 'i16': 2 ** 16, 'i8': 2 ** 8}


# boost::geometry types: a point is its three coordinates, a box its two corners, an r-tree the list of inserted values
MODELLED = {'boost::geometry::model::point': [('x', 'f32'), ('y', 'f32'), ('z', 'f32')],
            'boost::geometry::model::box': [('lo', 'rec:boost::geometry::model::point'), ('hi', 'rec:boost::geometry::model::point')],
            'boost::geometry::index::rtree': 'vec<pair<rec:boost::geometry::model::point,u32>>'}
# classes whose behaviour depends on the subclass
POLYMORPHIC = ('gridpp::Transform', 'gridpp::StructureFunction')


class Sorts:
    def __init__(self, program):
        self.P = program
        self.vec = {}      # elem sort name -> datatype
        self.pairs = {}
        self.recs = {}
        self.opaque = {}
        self.vec_by_sort = {}
        self.rec_by_sort = {}
        self.cache = {}

    def of(self, t):
        if isinstance(t, str) and t in self.cache:
            return self.cache[t]
        r = self._of(parse_type(t) if isinstance(t, str) else t)
        if isinstance(t, str):
            self.cache[t] = r
        return r

    def _of(self, t):
        if isinstance(t, str):
            if t in FLOATS:
                return F
            if t in INTS:
                return Int
            if t == 'bool':
                return Bool
            if t.startswith('enum:'):
                return Int
            if t.startswith('rec:'):
                return self.rec(t[4:])
            if t == 'str':
                return self.opq('Str')
            return self.opq(t)
        if t[0] == 'vec':
            return self.vecof(self._of(t[1]))
        if t[0] == 'pair':
            return self.pairof(self._of(t[1]), self._of(t[2]))
        if t[0] == 'ptr' and isinstance(t[1], str) and t[1].startswith('rec:'):
            return self._of(t[1])
        if t[0] == 'sptr':
            return self._of(t[1])
        if t[0] == 'arr':
            return self.vecof(self._of(t[1]))
        return self.opq(str(t))

    def opq(self, name):
        if name not in self.opaque:
            self.opaque[name] = z3.DeclareSort('O_' + ''.join(c if c.isalnum() else '_' for c in name))
        return self.opaque[name]

    def vecof(self, es):
        n = str(es)
        if n not in self.vec:
            d = z3.Datatype('V_' + n)
            d.declare('mk_' + n, ('len_' + n, Int), ('arr_' + n, z3.ArraySort(Int, es)))
            d = d.create()
            self.vec[n] = d
            self.vec_by_sort[d.get_id()] = (d, es)
        return self.vec[n]

    def pairof(self, a, b):
        n = str(a) + '_' + str(b)
        if n not in self.pairs:
            d = z3.Datatype('P_' + n)
            d.declare('mkp_' + n, ('first_' + n, a), ('second_' + n, b))
            d = d.create()
            self.pairs[n] = d
            self.rec_by_sort[d.get_id()] = (d, ['first', 'second'])
        return self.pairs[n]

    def allfields(self, q):
        r = self.P.records[q]
        fs = []
        for b in r['bases']:
            if b.startswith('rec:') and b[4:] in self.P.records:
                fs += self.allfields(b[4:])
        return fs + [(f['name'], f['t']) for f in r['fields']]

    def rec(self, q):
        if q in self.recs:
            return self.recs[q]
        r = self.P.records.get(q)
        if q in MODELLED:
            m = MODELLED[q]
            if isinstance(m, str):
                self.recs[q] = self.of(m)
                return self.recs[q]
            n = q.split('::')[-1]
            d = z3.Datatype('R_' + n)
            d.declare('mkr_' + n, *[('%s_%s' % (f, n), self.of(t)) for f, t in m])
            d = d.create()
            self.recs[q] = d
            self.rec_by_sort[d.get_id()] = (d, [f for f, _ in m])
            return d
        if r is None or q in POLYMORPHIC or r.get('abstract') or q == 'gridpp::StructureFunction':
            self.recs[q] = self.opq(q)
            return self.recs[q]
        n = q.replace('::', '_')
        fs = self.allfields(q)
        self.recs[q] = None
        d = z3.Datatype('R_' + n)
        d.declare('mkr_' + n, *[('%s_%s' % (f, n), self.of(t)) for f, t in fs])
        d = d.create()
        self.recs[q] = d
        self.rec_by_sort[d.get_id()] = (d, [f for f, _ in fs])
        return d

    def is_vec(self, s):
        return s.get_id() in self.vec_by_sort

    def is_rec(self, s):
        return s.get_id() in self.rec_by_sort

    def elem(self, s):
        return self.vec_by_sort[s.get_id()][1]

    # ---- vector and record terms, simplifying accessors of constructors
    def vlen(self, v):
        d, es = self.vec_by_sort[v.sort().get_id()]
        if is_app_of(v, d.constructor(0)):
            return v.arg(0)
        return d.accessor(0, 0)(v)

    def varr(self, v):
        d, es = self.vec_by_sort[v.sort().get_id()]
        if is_app_of(v, d.constructor(0)):
            return v.arg(1)
        return d.accessor(0, 1)(v)

    def mkvec(self, es, n, arr):
        return self.vecof(es).constructor(0)(n, arr)

    def at(self, v, i):
        return sel(self.varr(v), i)

    def upd(self, v, i, x):
        d, es = self.vec_by_sort[v.sort().get_id()]
        return d.constructor(0)(self.vlen(v), z3.Store(self.varr(v), i, x))

    def field(self, r, f):
        d, fs = self.rec_by_sort[r.sort().get_id()]
        k = fs.index(f)
        if is_app_of(r, d.constructor(0)):
            return r.arg(k)
        return d.accessor(0, k)(r)

    def setfield(self, r, f, v):
        d, fs = self.rec_by_sort[r.sort().get_id()]
        return d.constructor(0)(*[v if g == f else self.field(r, g) for g in fs])

    def default(self, s):
        """Value of T() for a sort."""
        if s == F:
            return fin(0)
        if s == Int:
            return z3.IntVal(0)
        if s == Bool:
            return z3.BoolVal(False)
        if self.is_vec(s):
            es = self.elem(s)
            return self.mkvec(es, z3.IntVal(0), z3.K(Int, self.default(es)))
        if self.is_rec(s):
            d, fs = self.rec_by_sort[s.get_id()]
            return d.constructor(0)(*[self.default(d.accessor(0, k).range()) for k in range(len(fs))])
        return z3.Const('default_' + str(s), s)


def is_app_of(t, decl):
    return z3.is_app(t) and t.num_args() > 0 and t.decl().eq(decl)


def sel(a, i):
    # constant arrays and syntactically decided stores
    while True:
        if z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_CONST_ARRAY:
                return a.arg(0)
            if k == z3.Z3_OP_STORE:
                j = a.arg(1)
                if j.eq(i):
                    return a.arg(2)
                if z3.is_int_value(i) and z3.is_int_value(j):
                    a = a.arg(0)
                    continue
        return z3.Select(a, i)


# ---------------------------------------------------------------- floats
def fin(x):
    if isinstance(x, (int, Fraction)):
        x = z3.RealVal(str(Fraction(x)))
    elif isinstance(x, str):
        x = z3.RealVal(str(Fraction(x)))
    return Fin(x)


def is_fin_app(x):
    return is_app_of(x, F.constructor(0))


def is_special(x):
    return z3.is_app(x) and x.num_args() == 0 and x.decl().name() in ('NaN', 'PInf', 'NInf') and x.sort() == F


def isFin(x):
    if is_fin_app(x):
        return z3.BoolVal(True)
    if is_special(x):
        return z3.BoolVal(False)
    return F.is_Fin(x)


def isNaN(x):
    if is_fin_app(x):
        return z3.BoolVal(False)
    if is_special(x):
        return z3.BoolVal(x.decl().name() == 'NaN')
    return F.is_NaN(x)


def val(x):
    if is_fin_app(x):
        return x.arg(0)
    return F.val(x)


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return z3.BoolVal(False)
    if not a:
        return z3.BoolVal(True)
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return z3.BoolVal(True)
    if not a:
        return z3.BoolVal(False)
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


SYM = False       # float operations as uninterpreted functions with definitional axioms (equality by congruence)
_SYMF = {}


def symop(op, *xs):
    if op not in _SYMF:
        _SYMF[op] = z3.Function('S_' + op, *([F] * (len(xs) + 1)))
    return _SYMF[op](*xs)


def sym_axioms(op):
    global SYM
    sv, SYM = SYM, False
    a, b = z3.Consts('a!s b!s', F)
    try:
        if op == 'neg':
            return [z3.ForAll([a], symop(op, a) == fneg(a), patterns=[symop(op, a)])]
        m = {'add': fadd, 'sub': fsub, 'mul': fmul, 'div': fdiv}[op]
        return [z3.ForAll([a, b], symop(op, a, b) == m(a, b), patterns=[symop(op, a, b)])]
    finally:
        SYM = sv


def issym(*xs):
    return SYM and not all(is_fin_app(x) and is_num(x.arg(0)) for x in xs)


ORACLE = None     # object with entails(formula): decides conditions that hold on the current path


def nf(x):
    """x, as Fin(val x) when it is known to be finite on the current path"""
    if is_fin_app(x) or is_special(x):
        return x
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and ORACLE is not None:
        c, a, b = x.children()
        r = ORACLE.decide(c)
        if r is True:
            return nf(a)
        if r is False:
            return nf(b)
    if ORACLE is not None and ORACLE.entails(F.is_Fin(x)):
        return Fin(F.val(x))
    return x


def known(c):
    return ORACLE is not None and ORACLE.entails(c)


fadd_sp = z3.Function('fadd_sp', F, F, F)
fmul_sp = z3.Function('fmul_sp', F, F, F)
fdiv_sp = z3.Function('fdiv_sp', F, F, F)
rmul = z3.Function('rmul', Real, Real, Real)
rdiv = z3.Function('rdiv', Real, Real, Real)


def simp_real(x):
    return x


def is_num(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def real_mul(x, y):
    return x * y


def real_div(x, y):
    return x / y


def _special_add(a, b):
    # at least one operand is not finite
    return If(Or(isNaN(a), isNaN(b)), NaN, If(isFin(a), b, If(isFin(b), a, If(a == b, a, NaN))))


def fneg(a):
    if issym(a):
        return symop('neg', a)
    a = nf(a)
    if is_fin_app(a):
        return Fin(-a.arg(0))
    return If(isFin(a), Fin(-val(a)), If(a == PInf, NInf, If(a == NInf, PInf, NaN)))


def fadd(a, b):
    if issym(a, b):
        return symop('add', a, b)
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b):
        return Fin(a.arg(0) + b.arg(0))
    return If(And(isFin(a), isFin(b)), Fin(val(a) + val(b)), _special_add(a, b))


def fsub(a, b):
    if issym(a, b):
        return symop('sub', a, b)
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b):
        return Fin(a.arg(0) - b.arg(0))
    return If(And(isFin(a), isFin(b)), Fin(val(a) - val(b)), _special_add(a, fneg(b)))


def fmul(a, b):
    if issym(a, b):
        return symop('mul', a, b)
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b):
        return Fin(real_mul(a.arg(0), b.arg(0)))
    pos = lambda x: Or(x == PInf, And(isFin(x), val(x) > 0))
    zero = lambda x: And(isFin(x), val(x) == 0)
    return If(And(isFin(a), isFin(b)), Fin(real_mul(val(a), val(b))),
              If(Or(isNaN(a), isNaN(b), zero(a), zero(b)), NaN, If(pos(a) == pos(b), PInf, NInf)))


def fdiv(a, b):
    if issym(a, b):
        return symop('div', a, b)
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b) and is_num(b.arg(0)) and not z3.is_true(z3.simplify(b.arg(0) == 0)):
        return Fin(real_div(a.arg(0), b.arg(0)))
    if is_fin_app(a) and is_fin_app(b) and known(b.arg(0) != 0):
        return Fin(real_div(a.arg(0), b.arg(0)))
    nz = And(isFin(b), val(b) != 0)
    # x/0: not finite; NaN when x is 0 or NaN, otherwise an infinity whose sign is left open (no signed zeros)
    zerocase = If(Or(isNaN(a), And(isFin(a), val(a) == 0)), NaN, If(divsign(a), PInf, NInf))
    spec = If(Or(isNaN(a), isNaN(b)), NaN,
              If(isFin(b), If(val(b) == 0, zerocase, If((a == PInf) == (val(b) > 0), PInf, NInf)),
                 If(isFin(a), fin(0), NaN)))
    return If(And(isFin(a), nz), Fin(real_div(val(a), val(b))), spec)


divsign = z3.Function('divsign', F, Bool)


def flt(a, b):
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b):
        return val(a) < val(b)
    return Or(And(isFin(a), isFin(b), val(a) < val(b)),
              And(eqc(a, NInf), Not(isNaN(b)), Not(eqc(b, NInf))),
              And(eqc(b, PInf), Not(isNaN(a)), Not(eqc(a, PInf))))


def fle(a, b):
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b):
        return val(a) <= val(b)
    return Or(And(isFin(a), isFin(b), val(a) <= val(b)),
              And(eqc(a, NInf), Not(isNaN(b))), And(eqc(b, PInf), Not(isNaN(a))))


def eqc(a, b):
    if is_fin_app(a) and is_special(b) or is_special(a) and is_fin_app(b):
        return z3.BoolVal(False)
    if a.eq(b):
        return z3.BoolVal(True)
    return a == b


def feq(a, b):
    a, b = nf(a), nf(b)
    if is_fin_app(a) and is_fin_app(b):
        return val(a) == val(b)
    return And(eqc(a, b), Not(isNaN(a)))


def fabs_(a):
    a = nf(a)
    if is_fin_app(a):
        return Fin(z3.If(val(a) >= 0, val(a), -val(a)))
    return If(isFin(a), Fin(z3.If(val(a) >= 0, val(a), -val(a))), If(isNaN(a), NaN, PInf))


def trunc_real(r):
    """C truncation of a real towards zero, as Int"""
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


f2i_sp = z3.Function('f2i_unspecified', F, Int)


def f2i(a):
    a = nf(a)
    if is_fin_app(a):
        v = val(a)
        if known(And(v < 2147483648, v > -2147483649)):
            if known(v >= 0):
                return simp_toint(v)
            return trunc_real(v)
    ok = And(isFin(a), val(a) < 2147483648, val(a) > -2147483649)
    return If(ok, trunc_real(val(a)), f2i_sp(a))


def simp_toint(v):
    # ToInt(ToReal(x)) is x
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return v.arg(0)
    return z3.ToInt(v)


def i2f(i):
    if z3.is_int_value(i):
        return Fin(z3.RealVal(i.as_long()))
    return Fin(z3.ToReal(i))


def idiv(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        if known(a >= 0):
            return a / b
        return z3.If(a >= 0, a / b, -((-a) / b))
    if known(And(a >= 0, b > 0)):
        return a / b
    return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))


def imod(a, b):
    return a - b * idiv(a, b)


def wrap_to(x, t):
    """value of the integer term x converted to integer type t (x in 64-bit range)"""
    if z3.is_int_value(x):
        v = x.as_long()
        if t in UNSIGNED:
            return z3.IntVal(v % UNSIGNED[t])
        m = SIGNED[t]
        v %= m
        return z3.IntVal(v - m if v >= m // 2 else v)
    return None


def int_cast(x, src, dst):
    w = wrap_to(x, dst)
    if w is not None:
        return w
    bits = {'8': 8, '16': 16, '32': 32, '64': 64}
    bs, bd = bits[src[1:]], bits[dst[1:]]
    if src[0] == 'i' and dst[0] == 'u':
        m = UNSIGNED[dst]
        if known(x >= 0):
            return x
        return z3.If(x >= 0, x, x + m)
    if src[0] == 'u' and dst[0] == 'i' and bs >= bd:
        m = SIGNED[dst]
        if known(x < UNSIGNED[src] // 2):
            return x
        # values produced by wrapping a small negative number come back as that number; the rest are kept
        return z3.If(x >= UNSIGNED[src] // 2, x - UNSIGNED[src], x)
    return x
