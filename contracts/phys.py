"""src/api/humidity.cpp, pressure.cpp, qnh.cpp, wind.cpp: pointwise physical conversions."""
from gv.spec import logic, contract, lemma, uninterp
import base
from fractions import Fraction

EWT = [.000034, .000089, .000220, .000517, .001155, .002472, .005080, .01005, .01921, .03553, .06356, .1111, .1891, .3139, .5088, .8070, 1.2540,
       1.9118, 2.8627, 4.2148, 6.1078, 8.7192, 12.272, 17.044, 23.373, 31.671, 42.430, 56.236, 73.777, 95.855, 123.40, 157.46, 199.26, 250.16,
       311.69, 385.56, 473.67, 578.09, 701.13, 845.28, 1013.25]
t = '%r' % EWT[40]
for i in range(39, -1, -1):
    t = '%r if l == %d else %s' % (EWT[i], i, t)
logic('''
@opaque
def EWT(l: 'int') -> 'f':
    return %s
''' % t)
logic('''
def EWX(t: 'f') -> 'f':
    return let(x, (t - 173.16) * 0.2, 0.0 if x < 0 else (39.0 if x > 39 else x))

@opaque
def EW(t: 'f') -> 'f':
    return let(x, EWX(t), let(l, trunc(x), EWT(l) + (EWT(l + 1) - EWT(l)) * (x - toF(l))))

def CLAMP01(x: 'f') -> 'f':
    return 0.0 if x < 0 else (1.0 if x > 1 else x)

@opaque
def RELHUM(t: 'f', d: 'f') -> 'f':
    return (NaN if not valid(t) or not valid(d) else (1.0 if t <= d else CLAMP01(EW(d) / EW(t))))

def VAPOR(t: 'f', h: 'f') -> 'f':
    return h * 0.611 * fexp((17.63 * (t - 273.15)) / ((t - 273.15) + 243.04))

def MAGNUS(e: 'f') -> 'f':
    return (116.9 + 243.04 * flog(e)) / (16.78 - flog(e))

@opaque
def DEWPOINT(t: 'f', h: 'f') -> 'f':
    return NaN if not valid(t) or not valid(h) else let(td, MAGNUS(VAPOR(t, h)) + 273.15, td if td <= t else t)

@opaque
def WETBULB(t: 'f', p: 'f', h: 'f') -> 'f':
    return (NaN if not valid(t) or not valid(p) or not valid(h) or t - 273.15 <= -243.04 or h <= 0 else
            let(e, VAPOR(t, h), let(td, MAGNUS(e), let(g, 0.00066 * p / 1000, let(d, (4098 * e) / (td + 243.04) ** 2,
            NaN if g + d == 0 else (g * (t - 273.15) + d * td) / (g + d) + 273.15)))))

@opaque
def PRESSURE(ie: 'f', oe: 'f', p: 'f', t: 'f') -> 'f':
    return NaN if not valid(ie) or not valid(oe) or not valid(p) or not valid(t) else p * fexp(-9.80665 * 0.0289644 * (oe - ie) / (8.3144598 * t))

@opaque
def QNH(p: 'f', a: 'f') -> 'f':
    return 0.0 if p == 0 else (NaN if not valid(p) or not valid(a) else 101325 * fpow(fpow(p / 101325, (287.053 * 0.0065) / 9.80665) + (a * 0.0065) / 288.15, 9.80665 / (287.053 * 0.0065)))

def SLP_BAD(p: 'f', a: 'f', t: 'f', h: 'f', d: 'f') -> 'bool':
    return not valid(a) or not valid(t) or p < 0 or t < 0 or h < 0 or h > 1 or d < 0

def SLP_DEW(t: 'f', h: 'f', d: 'f') -> 'f':
    return (let(r, flog(SLP_E(t, h, d) / 6.1094), (243.04 * r) / (17.625 - r)) if valid(h) else (d - 273.15 if valid(d) else t - 273.15 - 3))

def SLP_E(t: 'f', h: 'f', d: 'f') -> 'f':
    return (h * (6.11 * fpow(10.0, (7.5 * (t - 273.15)) / (237.3 + (t - 273.15)))) if valid(h) else
            (6.11 * fpow(10.0, (7.5 * (d - 273.15)) / (237.3 + (d - 273.15))) if valid(d) else 0.0))

@opaque
def SLP(p: 'f', a: 'f', t: 'f', h: 'f', d: 'f') -> 'f':
    return let(q, p * 0.01, 100 * (
           q * fexp((9.80665 * a / 287.05) / ((273.15 + (t - 273.15)) + 0.5 * 0.0065 * a + SLP_E(t, h, d) * 0.12)) if a >= 50 else
           q + q * a / (29.27 * ((273.15 + (t - 273.15)) / (1 - 0.379 * (6.11 * fpow(10.0, (7.5 * SLP_DEW(t, h, d)) / (237.7 + SLP_DEW(t, h, d)))) / q)))))

@opaque
def WSPEED(u: 'f', v: 'f') -> 'f':
    return fsqrt(u * u + v * v)

@opaque
def WDIR(u: 'f', v: 'f') -> 'f':
    return let(d, fatan2(-u, -v) * 180 / 3.14159265, d + 360 if d < 0 else d)
''')



def fr(g, lo, hi, nan=True):
    """a value in [lo, hi] with few digits, now and then missing or anything"""
    if nan and g.r.random() < g.nanp * .5:
        return float('nan')
    if g.r.random() < .06:
        return g.f()
    near = [x for x in g.flits if lo <= x <= hi]
    if near and g.r.random() < .3:
        return g.r.choice(near) + Fraction(g.r.randint(-6 * 64, 6 * 64), 64) * g.r.choice([0, 1, 1])
    return Fraction(g.r.randint(int(lo * 64), int(hi * 64)), 64)


RANGES = dict(t=(250, 310), d=(245, 305), h=(0, 1), p=(50000, 105000), a=(-100, 3000), ie=(0, 2000), oe=(0, 2000), u=(-20, 20), v=(-20, 20))


def phys(names):
    return lambda g: {n: fr(g, *RANGES[n]) for n in names.split()}


def physv(names):
    return lambda g: {n: tuple(fr(g, *RANGES[n]) for _ in range(g.dim(g.n))) for n in names.split()}


G = 'gridpp::'
contract(G + 'dewpoint(f32,f32)', 't h', gen=phys('t h'), fp=3e-7, props=['C16'], reveal=['DEWPOINT'],
    ensures=[('magnus', 'result == DEWPOINT(t, h)'), ('not above temperature', 'implies(valid(t) and valid(h), result <= t)')])
contract(G + 'relative_humidity(f32,f32)', 't d', gen=phys('t d'), fp=3e-7, props=['C16'], reveal=['RELHUM', 'EW', 'EWT'], sym=True,
    ensures=[('ratio', 'result == RELHUM(t, d)'), ('range', 'implies(valid(t) and valid(d), 0.0 <= result and result <= 1.0)'), ('saturation', 'implies(valid(t) and valid(d) and t <= d, result == 1.0)')])
contract(G + 'wetbulb(f32,f32,f32)', 't p h', gen=phys('t p h'), fp=3e-7, props=['C16'], reveal=['WETBULB'], sym=True, ensures=[('formula', 'result == WETBULB(t, p, h)')])
contract(G + 'pressure(f32,f32,f32,f32)', 'ie oe p t', gen=phys('ie oe p t'), fp=3e-7, props=['C17'], reveal=['PRESSURE'],
    ensures=[('hypsometric', 'result == PRESSURE(ie, oe, p, t)'), ('same elevation', 'implies(valid(ie) and valid(p) and valid(t) and ie == oe and t > 0, result == p)')])
contract(G + 'sea_level_pressure(f32,f32,f32,f32,f32)', 'p a t h d', gen=phys('p a t h d'), fp=3e-7, props=['C17'], reveal=['SLP'], sym=True, throws='SLP_BAD(p, a, t, h, d)',
    ensures=[('formula', 'result == SLP(p, a, t, h, d)')])
contract(G + 'qnh(f32,f32)', 'p a', gen=phys('p a'), fp=3e-7, props=['C17'], reveal=['QNH'], ensures=[('formula', 'result == QNH(p, a)')])
contract(G + 'wind_speed(f32,f32)', 'u v', gen=phys('u v'), fp=3e-7, props=['C18'], reveal=['WSPEED'], ensures=[('norm', 'result == WSPEED(u, v)')])
contract(G + 'wind_direction(f32,f32)', 'u v', gen=phys('u v'), fp=3e-7, props=['C18'], reveal=['WDIR'], ensures=[('direction the wind comes from', 'result == WDIR(u, v)')])


def each(fn, key, params, prop, mism='len', **kw):
    ps = params.split()
    kw.setdefault('gen', physv(params))
    kw.setdefault('fp', 3e-7)
    contract(G + key, params, props=[prop], throws=' or '.join('len(%s) != len(%s)' % (ps[0], q) for q in ps[1:]) + kw.pop('bad', ''),
             ensures=[('each value', 'len(result) == len(%s) and all(result[i] == %s(%s) for i in range(len(%s)))' % (ps[0], fn, ', '.join(p + '[i]' for p in ps), ps[0]))], **kw)


V = 'vec<f32>'
each('DEWPOINT', 'dewpoint(%s,%s)' % (V, V), 't h', 'C16')
each('RELHUM', 'relative_humidity(%s,%s)' % (V, V), 't d', 'C16')
each('WETBULB', 'wetbulb(%s,%s,%s)' % (V, V, V), 't p h', 'C16')
each('PRESSURE', 'pressure(%s,%s,%s,%s)' % (V, V, V, V), 'ie oe p t', 'C17')
each('QNH', 'qnh(%s,%s)' % (V, V), 'p a', 'C17')
each('SLP', 'sea_level_pressure(%s,%s,%s,%s,%s)' % (V, V, V, V, V), 'p a t h d', 'C17', bad=' or any(SLP_BAD(p[i], a[i], t[i], h[i], d[i]) for i in range(len(p)))')
each('WSPEED', 'wind_speed(%s,%s)' % (V, V), 'u v', 'C18')
each('WDIR', 'wind_direction(%s,%s)' % (V, V), 'u v', 'C18')
