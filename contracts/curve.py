"""src/api/curve.cpp, quantile_mapping.cpp: calibration curves."""
import math
from fractions import Fraction
from gv.spec import logic, contract, lemma, uninterp
import base, util, geo, points, near, nbh
from geo import PS, GR
from points import FL

EX = 'enum:gridpp::Extrapolation'
OP = 'enum:gridpp::ComparisonOperator'
V1, V2, V3 = 'vec<f32>', 'vec<vec<f32>>', 'vec<vec<vec<f32>>>'
logic('''
def EXOK(p: 'enum:gridpp::Extrapolation') -> 'bool':
    return p == OneToOne or p == MeanSlope or p == NearestSlope or p == Zero or p == Unchanged

def SLOPE(r: 'vec<f32>', f: 'vec<f32>', p: 'enum:gridpp::Extrapolation', i: 'int') -> 'f':
    return (0.0 if p == Zero else 1.0 if p == OneToOne or len(f) <= 1 else
            (r[len(f) - 1] - r[0]) / (f[len(f) - 1] - f[0]) if p == MeanSlope else (r[i + 1] - r[i]) / (f[i + 1] - f[i]))

def EXTRA(x: 'f', r: 'vec<f32>', f: 'vec<f32>', p: 'enum:gridpp::Extrapolation', i: 'int', e: 'int') -> 'f':
    return x if p == Unchanged else r[e] + SLOPE(r, f, p, i) * (x - f[e])

@opaque
def IS_CURVE(z: 'f', x: 'f', r: 'vec<f32>', f: 'vec<f32>', pb: 'enum:gridpp::Extrapolation', pa: 'enum:gridpp::Extrapolation') -> 'bool':
    return (implies(SORTED(f), IS_INTERP(z, x, f, r)) if x >= f[0] and x <= f[len(f) - 1] else
            z == EXTRA(x, r, f, pb, 0, 0) if x <= f[0] else z == EXTRA(x, r, f, pa, len(f) - 2, len(f) - 1))

def CMPV(a: 'f', t: 'f', o: 'enum:gridpp::ComparisonOperator') -> 'bool':
    return a <= t if o == Leq else a < t if o == Lt else a >= t if o == Geq else a > t

def NCMP(a: 'vec<f32>', t: 'f', o: 'enum:gridpp::ComparisonOperator', n: 'int') -> 'int':
    return 0 if n <= 0 else NCMP(a, t, o, n - 1) + (1 if valid(a[n - 1]) and CMPV(a[n - 1], t, o) else 0)

def PROB(a: 'vec<f32>', t: 'f', o: 'enum:gridpp::ComparisonOperator') -> 'f':
    return NaN if COUNTV(a, len(a)) == 0 else toF(NCMP(a, t, o, len(a))) / toF(COUNTV(a, len(a)))

@opaque
def PROBG(z: 'f', g: 'rec:gridpp::Grid', v: 'vec<vec<vec<f32>>>', lat: 'f', lon: 'f', t: 'f', o: 'enum:gridpp::ComparisonOperator') -> 'bool':
    return any(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and z == PROB(v[y][x], t, o) for y in range(len(g.mLats)) for x in range(g.mX))

def MASKV(a: 'f', b: 'f', w: 'f', t: 'f', o: 'enum:gridpp::ComparisonOperator') -> 'f':
    return NaN if not valid(w) else a if CMPV(w, t, o) else b

def MASKED(a: 'vec<f32>', b: 'vec<f32>', w: 'vec<f32>', t: 'f', o: 'enum:gridpp::ComparisonOperator', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else push(MASKED(a, b, w, t, o, n - 1), MASKV(a[n - 1], b[n - 1], w[n - 1], t, o))

@opaque
def MASKS(z: 'f', g: 'rec:gridpp::Grid', a: 'vec<vec<vec<f32>>>', b: 'vec<vec<vec<f32>>>', w: 'vec<vec<vec<f32>>>', lat: 'f', lon: 'f', t: 'f', o: 'enum:gridpp::ComparisonOperator', s: 'enum:gridpp::Statistic') -> 'bool':
    return any(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and let(m, MASKED(a[y][x], b[y][x], w[y][x], t, o, len(a[y][x])), (MEMBER(z, m) if s == RandomChoice else z == STAT(m, s))) for y in range(len(g.mLats)) for x in range(g.mX))

@opaque
def MASKQ(z: 'f', g: 'rec:gridpp::Grid', a: 'vec<vec<vec<f32>>>', b: 'vec<vec<vec<f32>>>', w: 'vec<vec<vec<f32>>>', lat: 'f', lon: 'f', t: 'f', o: 'enum:gridpp::ComparisonOperator', q: 'f') -> 'bool':
    return any(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and z == QUANTILE(MASKED(a[y][x], b[y][x], w[y][x], t, o, len(a[y][x])), q) for y in range(len(g.mLats)) for x in range(g.mX))
''')


def fx(v):
    """Exact fractions for finite floats."""
    if isinstance(v, dict):
        return {k: fx(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return tuple(fx(x) for x in v)
    return Fraction(v) if isinstance(v, float) and math.isfinite(v) else v


def ex(gen):
    return lambda g: fx(gen(g))


def _mono(r, f):
    """Specification of monotonize_curve: the points that lie strictly outside every non-increasing section."""
    pts = [(a, b) for a, b in zip(r, f) if math.isfinite(a) and math.isfinite(b)]
    if not pts:
        return []
    tol, keep, i = Fraction(1, 10), [pts[0]], 1
    while i < len(pts):
        if pts[i][1] > keep[-1][1] + tol:
            keep.append(pts[i])
            i += 1
            continue
        top, low = keep[-1][1], pts[i][1]
        while i < len(pts) and not pts[i][1] > top + tol:
            low = min(low, pts[i][1])
            i += 1
        if i < len(pts):
            keep = [p for p in keep if p[1] < low - tol] + [pts[i]]
            i += 1
        else:
            keep = [p for p in keep if p[1] < low]
    return keep


uninterp('MONOR', [V1, V1], V1, lambda r, f: tuple(p[0] for p in _mono(r, f)))
uninterp('MONOF', [V1, V1], V1, lambda r, f: tuple(p[1] for p in _mono(r, f)))

POL = 'EXOK(pb) and EXOK(pa)'
BAD = 'len(r) != len(f) or len(r) == 0'


def _cv(g, n=None):
    n = g.choice(1, 1, 2, 2, 3, 4, 6) if n is None else n
    f = sorted(g.choice(-3, -2, -1, 0, .5, 1, 2, 2.5, 4) for _ in range(n))
    return [g.choice(-4, -1, 0, 1, 1.5, 3, 7, float('nan')) if g.r.random() < .9 else g.fv() for _ in range(n)], f


def gcurve(g):
    r, f = _cv(g)
    if g.r.random() < .1:
        r = r[1:]
    x = lambda: g.choice(-9, -3, -2.5, -2, 0, .25, .5, 1, 2, 2.25, 4, 5, 11, float('nan'), float('inf'))
    return dict(x=x(), v=g.vec(e=x), w=g.vec2(e=x), r=r, f=f)


def gc(g, *names):
    d = gcurve(g)
    return {k: d[k] for k in names}


A = 'gridpp::apply_curve('
contract(A + 'f32,vec<f32>,vec<f32>,%s,%s)' % (EX, EX), 'x r f pb pa', props=['C07'], requires=[POL], gen=ex(lambda g: gc(g, 'x', 'r', 'f')), throws=BAD,
    ensures=[('curve', 'IS_CURVE(result, x, r, f, pb, pa)')], reveal=['IS_CURVE'])
contract(A + 'vec<f32>,vec<f32>,vec<f32>,%s,%s)' % (EX, EX), 'x r f pb pa', props=['C07'], requires=[POL], gen=ex(lambda g: (lambda d: dict(x=d['v'], r=d['r'], f=d['f']))(gcurve(g))), throws=BAD,
    ensures=[('each value', 'len(result) == len(x) and all(IS_CURVE(result[i], x[i], r, f, pb, pa) for i in range(len(x)))')])
contract(A + 'vec<vec<f32>>,vec<f32>,vec<f32>,%s,%s)' % (EX, EX), 'x r f pb pa', props=['C07'], requires=[POL], gen=ex(lambda g: (lambda d: dict(x=d['w'], r=d['r'], f=d['f']))(gcurve(g))), throws=BAD,
    ensures=[('each value', 'len(result) == len(x) and all(len(result[i]) == len(x[i]) for i in range(len(x))) and all(IS_CURVE(result[i][j], x[i][j], r, f, pb, pa) for i in range(len(x)) for j in range(len(x[i])))')])


def gcell(g):
    n = g.choice(1, 2, 3, 3, 0)
    ny, nx = g.ny, g.nx
    c = [[_cv(g, n) for _ in range(nx)] for _ in range(ny)]
    r, f = [[p[0] for p in row] for row in c], [[p[1] for p in row] for row in c]
    if g.r.random() < .1:
        f = g.vec3()
    return dict(x=g.vec2(e=lambda: gcurve(g)['x']), r=r, f=f)


contract(A + 'vec<vec<f32>>,vec<vec<vec<f32>>>,vec<vec<vec<f32>>>,%s,%s)' % (EX, EX), 'x r f pb pa', props=['C07'], requires=[POL, 'rect2(x)', 'rect3(r)', 'rect3(f)'], gen=ex(gcell),
    throws='not (len(r) == len(f) and nx3(r) == nx3(f) and nt3(r) == nt3(f)) or len(x) != len(r) or nx(x) != nx3(r) or (nx(x) > 0 and nt3(r) == 0)',
    ensures=[('each value', 'len(result) == len(x) and all(len(result[i]) == len(x[i]) for i in range(len(x))) and all(IS_CURVE(result[i][j], x[i][j], r[i][j], f[i][j], pb, pa) for i in range(len(x)) for j in range(len(x[i])))')])


def gmono(g):
    n = g.choice(1, 2, 3, 4, 5, 7, 9)
    f, x = [], 0.0
    for _ in range(n):
        x += g.choice(1, .5, .25, 2, -1, -.5, 0, -2, .0625)
        f.append(float('nan') if g.r.random() < .08 else x)
    return dict(r=[g.fv() if g.r.random() < .3 else g.choice(-1, 0, 1, 2, 3, 5) for _ in range(n)], f=f)


contract('gridpp::monotonize_curve(vec<f32>,vec<f32>,vec<f32>&)', 'r f o', props=['C07'], throws=BAD, gen=ex(gmono), bounded='generated curves of up to 9 points', crash_ok=True,
    ensures=[('same length', 'len(o_out) == len(result)'), ('increasing', 'all(o_out[i] < o_out[i + 1] for i in range(len(o_out) - 1))'),
             ('points outside the non-increasing sections', 'len(result) == len(MONOR(r, f)) and all(result[i] == MONOR(r, f)[i] and o_out[i] == MONOF(r, f)[i] for i in range(len(result)))')])
contract('gridpp::quantile_mapping_curve(vec<f32>,vec<f32>,vec<f32>&,vec<f32>)', 'r f o q', bounded='generated lists of up to 5 values', props=['C07'], requires=['all(valid(r[i]) for i in range(len(r)))', 'all(valid(f[i]) for i in range(len(f)))'],
    gen=ex(lambda g: (lambda n: dict(r=[g.choice(-2, 0, 1, 1, 3, 5) for _ in range(n)], f=[g.choice(-2, 0, 1, 4, 3, 5) for _ in range(n + (g.r.random() < .1))], q=g.vec(g.choice(0, 0, 1, 2, 4), e=lambda: g.choice(0, .25, .5, .75, 1, 1, 0.3125, .9375, g.choice(.5, .5, 1.5, -.25, float('nan'))))))(g.choice(0, 1, 2, 3, 5))),
    throws='len(r) != len(f) or any(not valid(q[i]) or q[i] > 1 or q[i] < 0 for i in range(len(q)))',
    ensures=[('one value', 'implies(len(r) <= 1, result == r and o_out == f)'),
             ('all quantiles', 'implies(len(r) > 1 and len(q) == 0, result == sortv(r) and o_out == sortv(f))'),
             ('given quantiles', 'implies(len(r) > 1 and len(q) > 0, len(result) == len(q) and len(o_out) == len(q) and all(result[i] == sortv(r)[floor(val(q[i]) * real(len(r) - 1))] and o_out[i] == sortv(f)[floor(val(q[i]) * real(len(r) - 1))] for i in range(len(q))))')],
    hints=[('all($o[k] == sortv(%s)[floor(val(q[k]) * real(len(r) - 1))] for k in range($i))' % v, {'$o': 'vec<f32>*', '$i': 'int+#'}) for v in 'rf'],
    uses=['sort_len'])

U = ['flat_mul'] + FL
SZ = ['rect3(%s)', 'len(%s) == len(g.mLats)', 'nx3(%s) == g.mX']
CO = ['len(g.mLats) > 0', 'g.mX > 0', 'len(o.mLats) > 0', 'rect2(t)', 'len(t) == len(o.mLats)', 'nx(t) == o.mX', 'g.mTree.mType == o.mTree.mType', 'p == Leq or p == Lt or p == Geq or p == Gt']
OG = 'len(result) == len(o.mLats) and all(len(result[y]) == o.mX for y in range(len(o.mLats)))'
dim = lambda v: [s % v for s in SZ]
XY = 'for y in range(len(o.mLats)) for x in range(o.mX)'
mem = lambda g: g.choice(1, 2, 3, 4)
e2 = lambda g: (lambda: g.choice(-1, 0, 1, 1, 2, 3, float('nan')))


def gdown(g, *names):
    ny, nx, k = g.choice(1, 2, 3), g.choice(1, 2, 3), g.choice(1, 2, 3, 4)
    d = {n: g.vec3(g.ny, g.nx, k, e=e2(g)) for n in names}
    d.update(o=g.grid(ny, nx, g.ctype), t=g.vec2(ny, nx, e=e2(g)))
    return d


CELL = 'len(g.mLats) > 0'
contract('gridpp::downscale_probability(%s,%s,%s,%s,%s)' % (GR, GR, V3, V2, OP), 'g o v t p', props=['C10'], requires=dim('v') + CO, bounded='generated grids and ensembles',
    gen=lambda g: gdown(g, 'v'),
    ensures=[('shape', OG), ('share of the members of a nearest cell', 'all(PROBG(result[y][x], g, v, o.mLats[y][x], o.mLons[y][x], t[y][x], p) %s)' % XY)])

M3 = dim('a') + dim('b') + dim('w') + ['nt3(a) == nt3(b) and nt3(b) == nt3(w)']
B = dict(bounded='generated grids and ensembles')
contract('gridpp::mask_threshold_downscale_consensus(%s,%s,%s,%s,%s,%s,%s,%s)' % (GR, GR, V3, V3, V3, V2, OP, base.ST), 'g o a b w t p s', props=['C10'], requires=M3 + CO + [nbh.OK], gen=lambda g: gdown(g, 'a', 'b', 'w'), fp=1e-5,
    ensures=[('shape', OG), ('statistic of the selected members of a nearest cell', 'all(MASKS(result[y][x], g, a, b, w, o.mLats[y][x], o.mLons[y][x], t[y][x], p, s) %s)' % XY)], **B)
contract('gridpp::mask_threshold_downscale_quantile(%s,%s,%s,%s,%s,%s,%s,f32)' % (GR, GR, V3, V3, V3, V2, OP), 'g o a b w t p q', props=['C10'], requires=M3 + CO + ['isnan(q) or (q >= 0 and q <= 1)'], gen=ex(lambda g: dict(gdown(g, 'a', 'b', 'w'), q=g.choice(0, .25, .5, .75, 1, .3125))), fp=1e-5,
    ensures=[('shape', OG), ('quantile of the selected members of a nearest cell', 'all(MASKQ(result[y][x], g, a, b, w, o.mLats[y][x], o.mLons[y][x], t[y][x], p, q) %s)' % XY)], **B)
