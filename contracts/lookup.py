"""src/api/count.cpp, distance.cpp, gridding.cpp: neighbours of each point, distance to the nearest points, gridding of observations."""
import math
from gv.spec import logic, contract, lemma, uninterp
import base, util, geo, points
from geo import PS, GR, KT
from points import FL

V1, V2 = 'vec<f32>', 'vec<vec<f32>>'
ST = 'enum:gridpp::Statistic'


def farthest(t, lat, lon, n):
    """largest distance to the n points closest to a position"""
    from gv.conc import tofloat, Unk
    c = t['mType'] == 1
    if n <= 0 or not t['mLats']:
        return 0.0
    def xyz(a, b):
        return (b, a, 0.0) if c else tuple(6378137.0 * q for q in (math.cos(math.radians(a)) * math.cos(math.radians(b)), math.cos(math.radians(a)) * math.sin(math.radians(b)), math.sin(math.radians(a))))
    p = xyz(lat, lon)
    d = sorted(math.dist(p, xyz(tofloat(x), tofloat(y))) for x, y in zip(t['mLats'], t['mLons']))
    k = d[min(n, len(d)) - 1]
    return k if c else 2 * 6378137.0 * math.asin(min(1, k / 2 / 6378137.0))


uninterp('FARTHEST', [KT, 'f', 'f', 'int'], 'f', farthest)
logic('''
def MAXG(a: 'vec<i32>', t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', n: 'int') -> 'f':
    return 0.0 if n <= 0 else let(d, GDIST(lat, lon, t.mLats[a[n - 1]], t.mLons[a[n - 1]], t.mType), d if d > MAXG(a, t, lat, lon, n - 1) else MAXG(a, t, lat, lon, n - 1))

def GATHER(v: 'vec<f32>', t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', r: 'f', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else (push(GATHER(v, t, lat, lon, r, n - 1), v[n - 1]) if INRAD(t, lat, lon, r, True, n - 1) else GATHER(v, t, lat, lon, r, n - 1))

def LISTNN(v: 'vec<f32>', t: 'rec:gridpp::KDTree', p: 'rec:gridpp::Points', j: 'int', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else (push(LISTNN(v, t, p, j, n - 1), v[n - 1]) if ISNN(t, p.mLats[n - 1], p.mLons[n - 1], True, j) else LISTNN(v, t, p, j, n - 1))

def NOTIE(t: 'rec:gridpp::KDTree', p: 'rec:gridpp::Points') -> 'bool':
    return all(not (ISNN(t, p.mLats[s], p.mLons[s], True, j) and ISNN(t, p.mLats[s], p.mLons[s], True, k)) for s in range(len(p.mLats)) for j in range(len(t.mLats)) for k in range(j + 1, len(t.mLats)))

@opaque
def GSTAT(v: 'vec<f32>', t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', r: 'f', s: 'enum:gridpp::Statistic') -> 'f':
    return STAT(GATHER(v, t, lat, lon, r, len(t.mLats)), s)

@opaque
def INSIDE(z: 'f', v: 'vec<f32>', t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', r: 'f') -> 'bool':
    return any(valid(v[k]) and INRAD(t, lat, lon, r, True, k) and z == v[k] for k in range(len(t.mLats)))
''')
lemma('inside', 'a: vec<i32>; v: vec<f32>; t: %s; lat: f; lon: f; r: f; j: int' % KT, 'implies(IS_RADIUS_SEARCH(a, t, lat, lon, r, True) and 0 <= j and j < len(a) and valid(v[a[j]]), INSIDE(v[a[j]], v, t, lat, lon, r))',
      trigger=['IS_RADIUS_SEARCH(a, t, lat, lon, r, True) ;; v[a[j]]'], reveal=['INSIDE'], uses=['radius_range'], hints=['radius_at(a, t, lat, lon, r, True, j)'])
# mathematical facts about sets of points
lemma('max_nearest', 'a: vec<i32>; t: %s; lat: f; lon: f; n: int' % KT, 'implies(IS_NEAREST(a, t, lat, lon, n, True), MAXG(a, t, lat, lon, len(a)) == FARTHEST(t, lat, lon, n))',
      trigger=['MAXG(a, t, lat, lon, len(a)) ;; IS_NEAREST(a, t, lat, lon, n, True)'], trusted='every set of n nearest points has the same largest distance (the great-circle distance increases with the chord)')
lemma('stat_gather', 'c: vec<f32>; a: vec<i32>; v: vec<f32>; t: %s; lat: f; lon: f; r: f; s: %s' % (KT, ST),
      'implies(IS_RADIUS_SEARCH(a, t, lat, lon, r, True) and len(c) == len(a) and all(c[k] == v[a[k]] for k in range(len(a))) and s != RandomChoice, STAT(c, s) == GSTAT(v, t, lat, lon, r, s))',
      trigger=['STAT(c, s) ;; IS_RADIUS_SEARCH(a, t, lat, lon, r, True) ;; GSTAT(v, t, lat, lon, r, s)'], trusted='a statistic does not depend on the order of the values')
TRIP = 'a: f; b: f; c: f; d: f; e: f; g: f; h: f; k: f'
lemma('trip_sym', TRIP, 'implies(%s, a * b * c * d + a * e * c * g + h * k == c * d * a * b + c * g * a * e + k * h)' % ' and '.join('valid(%s)' % x for x in 'abcdeghk'))
lemma('sq_sym', 'a: f; b: f; c: f; d: f', 'implies(valid(a) and valid(b) and valid(c) and valid(d), (b - d) * (b - d) + (a - c) * (a - c) == (d - b) * (d - b) + (c - a) * (c - a))')
lemma('rad_valid', 'a: f', 'implies(valid(a), valid(RAD(a)) and valid(fcos(RAD(a))) and valid(fsin(RAD(a))))', uses=['cos_fin', 'sin_fin'])
lemma('gdist_sym', 'a: f; b: f; c: f; d: f; t: enum:gridpp::CoordinateType', 'implies(valid(a) and valid(b) and valid(c) and valid(d), GDIST(a, b, c, d, t) == GDIST(c, d, a, b, t))', trigger=['GDIST(a, b, c, d, t)'], reveal=['GDIST'],
      hints=['sq_sym(a, b, c, d)', 'rad_valid(a)', 'rad_valid(b)', 'rad_valid(c)', 'rad_valid(d)', 'trip_sym(fcos(RAD(a)), fcos(RAD(b)), fcos(RAD(c)), fcos(RAD(d)), fsin(RAD(b)), fsin(RAD(d)), fsin(RAD(a)), fsin(RAD(c)))'])
SAME = '%s.mTree.mType == o.mTree.mType'
OG = 'len(result) == (len(o.mLats) if len(o.mTree.mLats) > 0 else 0) and all(len(result[y]) == o.mX for y in range(len(result)))'
CELL = 'all(%s for y in range(len(result)) for x in range(o.mX))'
PT1 = 'all(%s for i in range(len(o.mLats)))'
U = FL + ['flat_mul']
def both(tc):
    for a, ia in ((GR, 'g'), (PS, 'p')):
        for o in (GR, PS):
            yield a, ia, o, 'o.mLats[y][x], o.mLons[y][x]' if o == GR else 'o.mLats[i], o.mLons[i]', CELL if o == GR else PT1, 'result[y][x]' if o == GR else 'result[i]', ('shape', OG) if o == GR else ('size', 'len(result) == len(o.mLats)')
for a, n, o, at, ALL, R, shp in both('count'):
    contract('gridpp::count(%s,%s,f32)' % (a, o), n + ' o r', props=['C19'], requires=[SAME % n], uses=U,
        ensures=[shp, ('number within the radius', ALL % ('%s == toF(NRAD(%s.mTree, %s, r, True, len(%s.mTree.mLats)))' % (R, n, at, n)))])
    contract('gridpp::distance(%s,%s,i32)' % (a, o), n + ' o k', props=['C19'], requires=['k >= 0'], throws='not (%s)' % (SAME % n), uses=U + ['max_nearest', 'gdist_sym', 'flats_len', 'flats_at', 'near_range', 'radius_range'],
        gen=lambda g: {'k': g.int(0, 4)},
        hints=[('$m == MAXG($q, %s.mTree, $a[$y][$x], $b[$y][$x], $j)' % n, {'$m': 'f*', '$q': 'vec<i32>', '$a': 'vec<vec<f32>>', '$b': 'vec<vec<f32>>', '$y': 'int^', '$x': 'int^', '$j': 'int+'})] if a == PS and o == GR else
              [('$m == MAXG($q, %s.mTree, $a[$y], $b[$y], $j)' % n, {'$m': 'f*', '$q': 'vec<i32>', '$a': 'vec<f32>', '$b': 'vec<f32>', '$y': 'int^', '$j': 'int+'})] if o == PS and a == PS else
              [('$m == MAXG(FLATS($q, g.mX, len($q)), %s.mTree, %s, $j)' % (n, at.replace('y]', '$y]').replace('x]', '$x]').replace('[i]', '[$y]')), dict({'$m': 'f*', '$q': 'vec<vec<i32>>', '$y': 'int^', '$j': 'int+'}, **({'$x': 'int^'} if o == GR else {})))],
        ensures=[shp, ('largest distance to the nearest points', ALL % ('%s == FARTHEST(%s.mTree, %s, k)' % (R, n, at)))])
NR_ = 'NRAD(p.mTree, %s, r, True, len(p.mTree.mLats))'
STOK = '(s == Mean or s == Sum or s == Count or s == Std or s == Variance or s == RandomChoice or s == Min or s == Median or s == Max)'
for o, at, ALL, R, shp in ((GR, 'o.mLats[y][x], o.mLons[y][x]', CELL, 'result[y][x]', ('shape', OG)), (PS, 'o.mLats[i], o.mLons[i]', PT1, 'result[i]', ('size', 'len(result) == len(o.mLats)'))):
    contract('gridpp::gridding(%s,%s,vec<f32>,f32,i32,%s)' % (o, PS, ST), 'o p v r m s', props=['C19'], requires=[SAME % 'p', STOK], uses=U + ['stat_gather', 'radius_count', 'radius_range', 'inside'],
        throws='len(v) != len(p.mLats) or not valid(r) or r < 0 or m < 0', gen=lambda g: {'r': g.choice(*([g.pos(0, 4)] * 3 + [g.pos(0, 4) * 100000] * 3 + [g.f()])), 'm': g.int(-1, 3)},
        ensures=[shp, ('missing with too few points', ALL % ('implies(%s < m, isnan(%s))' % (NR_ % at, R))),
                 ('statistic of the values within the radius', 'implies(s != RandomChoice, %s)' % (ALL % ('(isnan(%s) if %s < m else %s == GSTAT(v, p.mTree, %s, r, s))' % (R, NR_ % at, R, at)))),
                 ('a value within the radius', 'implies(s == RandomChoice, %s)' % (ALL % ('(isnan(%s) or INSIDE(%s, v, p.mTree, %s, r))' % (R, R, at))))],
        hints=[('len($c) == len($q) and all($c[k] == v[$q[k]] for k in range($i))', {'$c': 'vec<f32>*', '$q': 'vec<i32>', '$i': 'int+#'})])
    J, ti = ('FLAT(y, x, o.mX)', '[y][x]') if o == GR else ('i', '[i]')
    L = 'LISTNN(v, o.mTree, p, %s, len(p.mLats))' % J
    contract('gridpp::gridding_nearest(%s,%s,vec<f32>,i32,%s)' % (o, PS, ST), 'o p v m s', props=['C19'], requires=[SAME % 'p', STOK], bounded='generated grids and points up to 5 x 5', uses=U,
        throws='len(v) != len(p.mLats) or m < 0', gen=lambda g: {'m': g.int(-1, 3)},
        ensures=[shp, ('statistic of the values of the nearest points', 'implies(s != RandomChoice and NOTIE(o.mTree, p), %s)' % (ALL % ('%s == let(l, %s, NaN if len(l) == 0 or len(l) < m else STAT(l, s))' % (R, L))))])
