"""src/api/bilinear.cpp, downscaling.cpp, simple_gradient.cpp, gradient.cpp, calc_gradient.cpp: downscaling and gradients."""
import math
from fractions import Fraction
from gv.spec import logic, contract, lemma, uninterp
import base, util, geo, points, near, nbh
from geo import PS, GR, KT
from points import FL
from near import GCOMP2, GCOMP3, OG, SAME

V1, V2, V3 = 'vec<f32>', 'vec<vec<f32>>', 'vec<vec<vec<f32>>>'
D = 'enum:gridpp::Downscaler'


# ---- independent reference implementations (used when the compiled code is run)
def _unk():
    from gv.conc import Unk
    raise Unk()


def nn_set(t, lat, lon):
    from gv.conc import tofloat
    c = t['mType'] == 1
    def xyz(a, b):
        return (b, a, 0.0) if c else tuple(6378137.0 * q for q in (math.cos(math.radians(a)) * math.cos(math.radians(b)), math.cos(math.radians(a)) * math.sin(math.radians(b)), math.sin(math.radians(a))))
    p = xyz(tofloat(lat), tofloat(lon))
    d = [math.dist(p, xyz(tofloat(x), tofloat(y))) for x, y in zip(t['mLats'], t['mLons'])]
    m = min(d)
    return [i for i, x in enumerate(d) if x <= m * (1 + 1e-5) + (1e-6 if c else 3.0)]


def same(vals):
    """the one value all candidates share"""
    from gv.conc import tofloat
    f = [tofloat(v) for v in vals]
    if all((math.isnan(a) and math.isnan(f[0])) or abs(a - f[0]) <= 1e-6 * max(1, abs(f[0])) for a in f):
        return vals[0]
    _unk()


def d_near(g, v, lat, lon):
    t = g['mTree']
    if not t['mLats']:
        return math.nan
    X = g['mX']
    return same([v[i // X][i % X] for i in nn_set(t, lat, lon)])


def cells(g):
    la, lo = g['mLats'], g['mLons']
    for y in range(len(la) - 1):
        for x in range(g['mX'] - 1):
            yield [(la[b][a], lo[b][a]) for b, a in ((y, x), (y + 1, x), (y + 1, x + 1), (y, x + 1))]


def regular(g):
    """every cell is a convex quadrilateral"""
    if g['mX'] == 0:
        return True
    sg = set()
    for q in cells(g):
        for i in range(4):
            (a, b), (c, d), (e, f) = q[i - 2], q[i - 1], q[i]
            z = (c - a) * (f - d) - (d - b) * (e - c)
            if z == 0:
                return False
            sg.add(z > 0)
    return len(sg) <= 1


def box_value(q, vals, lat, lon):
    """bilinear interpolation in the quadrilateral q (counter-clockwise) by inversion of the bilinear map"""
    (a, b), (c, d), (e, f), (g, h) = [(float(x), float(y)) for x, y in q]
    px, py = float(lat), float(lon)
    cross = max(abs((a - c) * (h - f) - (g - e) * (b - d)), abs((e - c) * (h - b) - (g - a) * (f - d)))
    if 1e-7 < cross < 2e-3:
        _unk()
    s = t = .5
    for _ in range(50):
        fx = (1 - s) * (1 - t) * a + s * (1 - t) * c + s * t * e + (1 - s) * t * g - px
        fy = (1 - s) * (1 - t) * b + s * (1 - t) * d + s * t * f + (1 - s) * t * h - py
        j11, j12 = (1 - t) * (c - a) + t * (e - g), (1 - s) * (g - a) + s * (e - c)
        j21, j22 = (1 - t) * (d - b) + t * (f - h), (1 - s) * (h - b) + s * (f - d)
        det = j11 * j22 - j12 * j21
        if abs(det) < 1e-12:
            _unk()
        s, t = s - (fx * j22 - fy * j12) / det, t - (fy * j11 - fx * j21) / det
    if not (-.1 < s < 1.1 and -.1 < t < 1.1):
        _unk()
    s, t = min(1, max(0, s)), min(1, max(0, t))
    v = [float(x) for x in vals]
    return Fraction((1 - s) * (1 - t) * v[0] + s * (1 - t) * v[1] + s * t * v[2] + (1 - s) * t * v[3])


def d_bil(g, v, lat, lon):
    from gv.conc import tofloat
    t, X, Y = g['mTree'], g['mX'], len(g['mLats'])
    if not t['mLats']:
        return math.nan
    out = []
    la, lo = g['mLats'], g['mLons']
    for i in nn_set(t, lat, lon):
        y, x = i // X, i % X
        found = []
        for dy, dx in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
            if not (0 <= y + dy < Y and 0 <= x + dx < X):
                continue
            ix = [(y, x), (y + dy, x), (y + dy, x + dx), (y, x + dx)]
            q = [(la[b][a], lo[b][a]) for b, a in ix]
            ds = [(q[k][0] - q[k - 1][0]) * (lon - q[k - 1][1]) - (q[k][1] - q[k - 1][1]) * (lat - q[k - 1][0]) for k in range(4)]
            if any(d != 0 and abs(d) < Fraction(1, 10 ** 5) for d in ds):
                _unk()
            if all(d >= 0 for d in ds) or all(d <= 0 for d in ds):
                vals = [v[b][a] for b, a in ix]
                if any(math.isnan(tofloat(z)) or math.isinf(tofloat(z)) for z in vals):
                    found.append(d_near(g, v, lat, lon))
                else:
                    found.append(box_value(q, vals, lat, lon))
        out += found or [v[y][x]]
    return same(out)


uninterp('DNEAR', [GR, V2, 'f', 'f'], 'f', d_near)
uninterp('DBIL', [GR, V2, 'f', 'f'], 'f', d_bil)
uninterp('REGULAR', [GR], 'bool', regular)
logic('''
@opaque
def DPT(g: 'rec:gridpp::Grid', v: 'vec<vec<f32>>', lat: 'f', lon: 'f', d: 'enum:gridpp::Downscaler') -> 'f':
    return NaN if len(g.mTree.mLats) == 0 else (DNEAR(g, v, lat, lon) if d == Nearest else DBIL(g, v, lat, lon))

@opaque
def SGRAD(g: 'rec:gridpp::Grid', v: 'vec<vec<f32>>', lat: 'f', lon: 'f', e: 'f', k: 'f', d: 'enum:gridpp::Downscaler') -> 'f':
    return DPT(g, v, lat, lon, d) + (e - DPT(g, g.mElevs, lat, lon, d)) * k

@opaque
def CORR(g: 'rec:gridpp::Grid', k: 'vec<vec<f32>>', f: 'vec<vec<f32>>', lat: 'f', lon: 'f', e: 'f', d: 'enum:gridpp::Downscaler') -> 'f':
    return let(z, DPT(g, f, lat, lon, d), DPT(g, k, lat, lon, d) * (e - z) if valid(e) and valid(z) else 0.0)

@opaque
def FGRAD(g: 'rec:gridpp::Grid', v: 'vec<vec<f32>>', lat: 'f', lon: 'f', e: 'f', l: 'f', ek: 'vec<vec<f32>>', lk: 'vec<vec<f32>>', hase: 'bool', hasl: 'bool', d: 'enum:gridpp::Downscaler') -> 'f':
    return DPT(g, v, lat, lon, d) + ((CORR(g, lk, g.mLafs, lat, lon, l, d) if hasl else 0.0) + (CORR(g, ek, g.mElevs, lat, lon, e, d) if hase else 0.0))
''')
N = 'gridpp::'
PR9, PR21 = ['C09'], ['C21']
B = 'generated grids up to 5 x 5'


def pgrid(g):
    r = g.r
    if r.random() < .25:
        return g.grid()
    k = g.grid()
    ny, nx = len(k[1]), len(k[1][0]) if k[1] else 0
    u = Fraction(1, r.choice([1, 2, 4]))
    a, b, c, d = r.choice([(1, 0, 0, 1), (1, 0, 0, 1), (1, 1, -1, 1), (1, 0, 1, 2), (-1, 0, 0, 1), (2, 1, 0, 1), (1, 0, 0, -1)])
    j = lambda: Fraction(r.choice([-1, 0, 1]), 4) * u if j.on else Fraction(0)
    j.on = r.random() < .15
    la = tuple(tuple(u * (a * y + b * x) + j() for x in range(nx)) for y in range(ny))
    lo = tuple(tuple(u * (c * y + d * x) + j() for x in range(nx)) for y in range(ny))
    return ('grid', la, lo, k[3], k[4], k[5])


def gen(ty, out, extra=None):
    def f(g):
        k = pgrid(g)
        ny, nx = len(k[1]), len(k[1][0]) if k[1] else 0
        mv = lambda: nbh.mv(g)
        d = {'g': k, 'v': (tuple(tuple(mv() for _ in range(nx)) for _ in range(ny)) if ty == V2 else tuple(tuple(tuple(mv() for _ in range(nx)) for _ in range(ny)) for _ in range(g.nt))) if g.r.random() < .9 else g.default(ty)}
        r = g.r
        q = lambda: Fraction(r.randint(-4, 20), 4)
        if out == PS:
            p = g.points(ctype=k[5])
            la, lo = tuple(x for row in k[1] for x in row), tuple(x for row in k[2] for x in row)
            if la:
                pick = lambda xs, s: sum(r.choice(xs) for _ in range(4)) / 4 + Fraction(r.choice([0, 0, 1, -1]), s)
                m = len(p[1])
                p = ('points', tuple(pick(la, 16) for _ in range(m)), tuple(pick(lo, 16) for _ in range(m)), p[3], p[4], p[5])
            d['o'] = p
        else:
            d['o'] = g.grid(ctype=k[5])
        if extra:
            d.update(extra(g, k, d))
        return d
    return f


ATG, ATP = 'o.mLats[y][x], o.mLons[y][x]', 'o.mLats[i], o.mLons[i]'
ALLG, ALLP = 'all(%s for y in range(len(result)) for x in range(o.mX))', 'all(%s for i in range(len(result)))'
SP_ = ('size', 'len(result) == len(o.mLats)')
ST = ('shape', 'len(result) == len(v) and all(len(result[t]) == len(o.mLats) for t in range(len(v))) and all(len(result[t][y]) == o.mX for t in range(len(v)) for y in range(len(o.mLats)))')
STP = ('shape', 'len(result) == len(v) and all(len(result[t]) == len(o.mLats) for t in range(len(v)))')
CASES = [(GR, V2, ('shape', OG), ALLG, 'result[y][x]', 'v', ATG, GCOMP2, 'o.mElevs[y][x]', 'o.mLafs[y][x]'),
         (PS, V2, SP_, ALLP, 'result[i]', 'v', ATP, GCOMP2, 'o.mElevs[i]', 'o.mLafs[i]'),
         (GR, V3, ST, 'all(%s for t in range(len(v)) for y in range(len(o.mLats)) for x in range(o.mX))', 'result[t][y][x]', 'v[t]', ATG, GCOMP3, 'o.mElevs[y][x]', 'o.mLafs[y][x]'),
         (PS, V3, STP, 'all(%s for t in range(len(v)) for i in range(len(o.mLats)))', 'result[t][i]', 'v[t]', ATP, GCOMP3, 'o.mElevs[i]', 'o.mLafs[i]')]
WHOLE = 'g.mX > 0 or len(g.mLats) == 0'
NO_E = 'len(g.mTree.mLats) == 0'
for o, ty, shp, ALL, R, vv, at, comp, el, laf in CASES:
    req = ['rect2(v)' if ty == V2 else 'rect3(v)', SAME % 'g', 'REGULAR(g)']
    contract(N + 'bilinear(%s,%s,%s)' % (GR, o, ty), 'g o v', props=PR9, requires=req, throws='not (%s)' % comp, bounded=B, fp=1e-4, gen=gen(ty, o), crash_ok=True,
        ensures=[shp, ('bilinear in the surrounding cell, nearest elsewhere', ALL % ('%s == (NaN if %s else DBIL(g, %s, %s))' % (R, NO_E, vv, at)))])
    contract(N + 'downscaling(%s,%s,%s,%s)' % (GR, o, ty, D), 'g o v d', props=PR9, requires=req, throws='not (%s) or (d != Nearest and d != Bilinear)' % comp, bounded=B, fp=1e-4, gen=gen(ty, o),
        ensures=[shp, ('the selected method', ALL % ('%s == DPT(g, %s, %s, d)' % (R, vv, at)))])
    SG = (shp[0], shp[1]) if o == PS else (shp[0], shp[1].replace('len(o.mLats)', '(len(o.mLats) if len(o.mTree.mLats) > 0 else 0)'))
    AL = ALL if o == PS else ALL.replace('range(len(o.mLats))', 'range(len(o.mLats) if o.mX > 0 else 0)')
    contract(N + 'simple_gradient(%s,%s,%s,f32,%s)' % (GR, o, ty, D), 'g o v k d', props=PR21, requires=req + [WHOLE], throws='not (%s) or (d != Nearest and d != Bilinear)' % comp, bounded=B, fp=1e-4, gen=gen(ty, o, lambda g, k, d: {'k': nbh.mv(g)}),
        ensures=[SG, ('value plus gradient times elevation difference', AL % ('%s == SGRAD(g, %s, %s, %s, k, d)' % (R, vv, at, el)))])

# full_gradient: value + elevation gradient * elevation difference + land area fraction gradient * difference, each where the differences are known
for o, ty, shp, ALL, R, vv, at, comp, el, laf in CASES:
    SG = (shp[0], shp[1]) if o == PS else (shp[0], shp[1])
    same2 = lambda x: 'len(%s) == 0 or (len(%s) == len(v) and all(len(%s[i]) == len(v[i]) for i in range(len(v)))%s)' % (x, x, x, '' if ty == V2 else ' and all(len(%s[i][j]) == len(v[i][j]) for i in range(len(v)) for j in range(len(v[i])))' % x)
    ff = lambda x: x if ty == V2 else x + '[t]'
    def extra(g, k, d):
        mv = lambda: nbh.mv(g)
        like = lambda x: tuple(like(y) for y in x) if isinstance(x, tuple) else mv()
        return {'ek': like(d['v']) if g.r.random() < .7 else (), 'lk': like(d['v']) if g.r.random() < .7 else ()}
    GRADOK = '(len(%s) == 0 or (len(v) > 0 and len(%s) == len(v) and nx(%s) == nx(v)))'
    th = '(d != Nearest and d != Bilinear) or not (%s)' % comp
    req = ['rect2(v)' if ty == V2 else 'rect3(v)', 'rect2(ek)' if ty == V2 else 'rect3(ek)', 'rect2(lk)' if ty == V2 else 'rect3(lk)', SAME % 'g', 'REGULAR(g)', WHOLE] + (['o.mX > 0 or len(o.mLats) == 0'] if o == GR else []) + [same2('ek'), same2('lk')]
    contract(N + 'full_gradient(%s,%s,%s,%s,%s,%s)' % (GR, o, ty, ty, ty, D), 'g o v ek lk d', props=PR21, requires=req, throws=th, bounded=B, fp=1e-4, gen=gen(ty, o, extra), crash_ok=True,
        ensures=[SG, ('corrected for elevation and land area fraction', ALL % ('%s == FGRAD(g, %s, %s, %s, %s, %s, %s, len(ek) > 0, len(lk) > 0, d)' % (R, vv, at, el, laf, ff('ek'), ff('lk'))))])

# calc_gradient
logic('''
def BOTHV(a: 'f', b: 'f') -> 'bool':
    return valid(a) and valid(b)

@opaque
def NPROW(a: 'vec<f32>', b: 'vec<f32>', i: 'int', j: 'int') -> 'int':
    return 0 if j < i else NPROW(a, b, i, j - 1) + (1 if BOTHV(a[j], b[j]) else 0)

@opaque
def NPAIR(a: 'vec<vec<f32>>', b: 'vec<vec<f32>>', y0: 'int', y1: 'int', x0: 'int', x1: 'int') -> 'int':
    return 0 if y1 < y0 else NPAIR(a, b, y0, y1 - 1, x0, x1) + NPROW(a[y1], b[y1], x0, x1)

@opaque
def PSROW(a: 'vec<f32>', b: 'vec<f32>', k: 'int', i: 'int', j: 'int') -> 'r':
    return real(0) if j < i else PSROW(a, b, k, i, j - 1) + (real(0) if not BOTHV(a[j], b[j]) else val(a[j]) if k == 0 else val(b[j]) if k == 1 else val(a[j]) * val(a[j]) if k == 2 else val(a[j]) * val(b[j]))

@opaque
def PSUM(a: 'vec<vec<f32>>', b: 'vec<vec<f32>>', k: 'int', y0: 'int', y1: 'int', x0: 'int', x1: 'int') -> 'r':
    return real(0) if y1 < y0 else PSUM(a, b, k, y0, y1 - 1, x0, x1) + PSROW(a[y1], b[y1], k, x0, x1)

def EXTR(a: 'vec<vec<f32>>', b: 'vec<vec<f32>>', y0: 'int', y1: 'int', x0: 'int', x1: 'int', y: 'int', x: 'int', sg: 'int') -> 'bool':
    return BOTHV(a[y][x], b[y][x]) and all(implies(BOTHV(a[i][j], b[i][j]), (a[i][j] <= a[y][x] if sg > 0 else a[i][j] >= a[y][x])) for i in range(y0, y1 + 1) for j in range(x0, x1 + 1))

@opaque
def MMGRAD(z: 'f', a: 'vec<vec<f32>>', b: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int', nmin: 'int', rmin: 'f', dflt: 'f') -> 'bool':
    return let(y0, LOW(y, h), let(y1, UPP(y, h, len(a)), let(x0, LOW(x, h), let(x1, UPP(x, h, nx(a)), let(n, NPAIR(a, b, y0, y1, x0, x1),
        z == dflt if n < nmin or n == 0 else
        any(EXTR(a, b, y0, y1, x0, x1, i, j, 1) and any(EXTR(a, b, y0, y1, x0, x1, k, l, -1) and z == (dflt if a[i][j] - a[k][l] <= rmin else (b[i][j] - b[k][l]) / (a[i][j] - a[k][l]))
            for k in range(y0, y1 + 1) for l in range(x0, x1 + 1)) for i in range(y0, y1 + 1) for j in range(x0, x1 + 1)))))))

@opaque
def LRGRAD(a: 'vec<vec<f32>>', b: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int', nmin: 'int', rmin: 'f', dflt: 'f') -> 'f':
    return let(y0, LOW(y, h), let(y1, UPP(y, h, len(a)), let(x0, LOW(x, h), let(x1, UPP(x, h, nx(a)), let(n, NPAIR(a, b, y0, y1, x0, x1),
        dflt if n < nmin or n == 0 else let(r, real(n), let(mx, fin(PSUM(a, b, 0, y0, y1, x0, x1) / r), let(my, fin(PSUM(a, b, 1, y0, y1, x0, x1) / r), let(xx, fin(PSUM(a, b, 2, y0, y1, x0, x1) / r), let(xy, fin(PSUM(a, b, 3, y0, y1, x0, x1) / r),
        dflt if xx - mx * mx == 0 or (valid(rmin) and fsqrt(xx - mx * mx) < rmin) else (xy - mx * my) / (xx - mx * mx)))))))))))
''')
contract(N + 'calc_gradient(%s,%s,enum:gridpp::GradientType,i32,i32,f32,f32)' % (V2, V2), 'a b t h nmin rmin dflt', props=PR21, requires=['rect2(a)', 'rect2(b)'], bounded='generated arrays up to 5 x 5', fp=1e-4,
    gen=lambda g: {'h': g.choice(1, 1, 2, 3, 0, -1), 'nmin': g.choice(0, 1, 2, 3, 5, -1), 'rmin': g.choice(math.nan, Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(10), Fraction(-1)), **(lambda ny, nx: {k: tuple(tuple(nbh.mv(g) for _ in range(nx)) for _ in range(ny)) for k in 'ab'})(g.dim(g.ny), g.dim(g.nx))},
    throws='h <= 0 or (valid(rmin) and rmin < 0) or nmin < 0 or len(a) == 0 or len(a) != len(b) or nx(a) != nx(b)',
    ensures=[('shape', 'len(result) == len(a) and all(len(result[y]) == nx(a) for y in range(len(a)))'),
             ('slope between the extremes', 'implies(t == MinMax, all(MMGRAD(result[y][x], a, b, y, x, h, nmin, rmin, dflt) for y in range(len(a)) for x in range(nx(a))))'),
             ('regression slope', 'implies(t == LinearRegression, all(result[y][x] == LRGRAD(a, b, y, x, h, nmin, rmin, dflt) for y in range(len(a)) for x in range(nx(a))))')])
