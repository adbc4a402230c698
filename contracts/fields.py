"""src/api/fill.cpp and doping.cpp: filling of gridded fields."""
from gv.spec import logic, contract, lemma
import base, util, geo, points
from geo import PS, GR
from points import FL

logic('''
@opaque
def LASTR(v: 'vec<vec<f32>>', y: 'int', n: 'int') -> 'int':
    return 0 if n <= 0 else (n - 1 if valid(v[y][n - 1]) else LASTR(v, y, n - 1))

@opaque
def LASTC(v: 'vec<vec<f32>>', x: 'int', n: 'int') -> 'int':
    return 0 if n <= 0 else (n - 1 if valid(v[n - 1][x]) else LASTC(v, x, n - 1))

@opaque
def NEXTR(v: 'vec<vec<f32>>', y: 'int', n: 'int') -> 'int':
    return n if n >= nx(v) or valid(v[y][n]) else NEXTR(v, y, n + 1)

@opaque
def NEXTC(v: 'vec<vec<f32>>', x: 'int', n: 'int') -> 'int':
    return n if n >= len(v) or valid(v[n][x]) else NEXTC(v, x, n + 1)

def BETW(a: 'f', b: 'f', k: 'int', i: 'int', j: 'int') -> 'f':
    return a + (b - a) * toF(k - i) / toF(j - i)

@opaque
def FILLR(v: 'vec<vec<f32>>', y: 'int', x: 'int') -> 'f':
    return v[y][x] if valid(v[y][x]) else let(i, LASTR(v, y, x), let(j, NEXTR(v, y, x), NaN if j >= nx(v) else BETW(v[y][i], v[y][j], x, i, j)))

@opaque
def FILLC(v: 'vec<vec<f32>>', y: 'int', x: 'int') -> 'f':
    return v[y][x] if valid(v[y][x]) else let(i, LASTC(v, x, y), let(j, NEXTC(v, x, y), NaN if j >= len(v) else BETW(v[i][x], v[j][x], y, i, j)))

def MEAN2(a: 'f', b: 'f') -> 'f':
    return ((a + b) / 2 if valid(b) else a) if valid(a) else (b if valid(b) else NaN)

def COVER(g: 'rec:gridpp::Grid', p: 'rec:gridpp::Points', r: 'vec<f32>', y: 'int', x: 'int', n: 'int') -> 'bool':
    return False if n <= 0 else COVER(g, p, r, y, x, n - 1) or INRAD(g.mTree, p.mLats[n - 1], p.mLons[n - 1], r[n - 1], True, FLAT(y, x, g.mX))

def HIT(q: 'vec<vec<i32>>', y: 'int', x: 'int', n: 'int') -> 'bool':
    return False if n <= 0 else HIT(q, y, x, n - 1) or (q[n - 1][0] == y and q[n - 1][1] == x)

def ELEVOK(m: 'f', a: 'f', b: 'f') -> 'bool':
    return not valid(m) or not (abs(a - b) > m)

def DOPEC(g: 'rec:gridpp::Grid', v: 'vec<vec<f32>>', p: 'rec:gridpp::Points', o: 'vec<f32>', r: 'vec<f32>', m: 'f', y: 'int', x: 'int', n: 'int') -> 'f':
    return v[y][x] if n <= 0 else (o[n - 1] if INRAD(g.mTree, p.mLats[n - 1], p.mLons[n - 1], r[n - 1], True, FLAT(y, x, g.mX)) and ELEVOK(m, p.mElevs[n - 1], g.mElevs[y][x]) else DOPEC(g, v, p, o, r, m, y, x, n - 1))

def INSQ(y: 'int', x: 'int', cy: 'int', cx: 'int', h: 'int') -> 'bool':
    return cy - h <= y and y <= cy + h and cx - h <= x and x <= cx + h

def DOPES(z: 'f', g: 'rec:gridpp::Grid', v: 'vec<vec<f32>>', p: 'rec:gridpp::Points', o: 'vec<f32>', h: 'vec<i32>', m: 'f', y: 'int', x: 'int', n: 'int') -> 'bool':
    return z == v[y][x] if n <= 0 else any(ISNN(g.mTree, p.mLats[n - 1], p.mLons[n - 1], True, FLAT(cy, cx, g.mX)) and
        (z == o[n - 1] if INSQ(y, x, cy, cx, h[n - 1]) and ELEVOK(m, p.mElevs[n - 1], g.mElevs[y][x]) else DOPES(z, g, v, p, o, h, m, y, x, n - 1)) for cy in range(len(g.mLats)) for cx in range(g.mX))
''')
lemma('hit_in', 'q: vec<vec<i32>>; y: int; x: int; n: int', 'implies(HIT(q, y, x, n), any(q[k][0] == y and q[k][1] == x for k in range(n)))', induct='n', requires=['n >= 0'])
lemma('hit_has', 'q: vec<vec<i32>>; y: int; x: int; n: int; k: int', 'implies(0 <= k and k < n and q[k][0] == y and q[k][1] == x, HIT(q, y, x, n))', induct='n', requires=['n >= 0'], trigger=['HIT(q, y, x, n) ;; q[k][0]'])
HV = 'q: vec<vec<i32>>; t: rec:gridpp::KDTree; lat: f; lon: f; r: f; Y: int; X: int; y: int; x: int'
GIV = 'IS_RADIUS_SEARCH(FLATS(q, X, len(q)), t, lat, lon, r, True) and all(INGRID(q[k], Y, X) for k in range(len(q))) and 0 <= y and y < Y and 0 <= x and x < X and X >= 0 and len(t.mLats) == FLAT(Y, 0, X)'
lemma('radius_all', 'a: vec<i32>; t: rec:gridpp::KDTree; lat: f; lon: f; r: f; inc: bool; j: int', 'implies(IS_RADIUS_SEARCH(a, t, lat, lon, r, inc) and 0 <= j and j < len(t.mLats) and INRAD(t, lat, lon, r, inc, j), any(a[k] == j for k in range(len(a))))', reveal=['IS_RADIUS_SEARCH'])
lemma('radius_at', 'a: vec<i32>; t: rec:gridpp::KDTree; lat: f; lon: f; r: f; inc: bool; k: int', 'implies(IS_RADIUS_SEARCH(a, t, lat, lon, r, inc) and 0 <= k and k < len(a), INRAD(t, lat, lon, r, inc, a[k]))', reveal=['IS_RADIUS_SEARCH'])
lemma('radius_atq', 'q: vec<vec<i32>>; X: int; t: rec:gridpp::KDTree; lat: f; lon: f; r: f; inc: bool; k: int', 'implies(IS_RADIUS_SEARCH(FLATS(q, X, len(q)), t, lat, lon, r, inc) and 0 <= k and k < len(q), INRAD(t, lat, lon, r, inc, FLAT(q[k][0], q[k][1], X)))',
      trigger=['IS_RADIUS_SEARCH(FLATS(q, X, len(q)), t, lat, lon, r, inc) ;; q[k][0]'], hints=['radius_at(FLATS(q, X, len(q)), t, lat, lon, r, inc, k)'], uses=['flats_len', 'flats_at'])
lemma('hit_out', HV, 'implies((%s) and HIT(q, y, x, len(q)), INRAD(t, lat, lon, r, True, FLAT(y, x, X)))' % GIV, hints=['hit_in(q, y, x, len(q))'], uses=['radius_atq'])
lemma('hit_back', HV, 'implies((%s) and INRAD(t, lat, lon, r, True, FLAT(y, x, X)), HIT(q, y, x, len(q)))' % GIV, hints=['radius_all(FLATS(q, X, len(q)), t, lat, lon, r, True, FLAT(y, x, X))', 'flat_in(y, x, Y, X)'], uses=['flats_len', 'flats_at', 'rc_flat', 'hit_has'])
lemma('hit_radius', HV, 'implies(%s, HIT(q, y, x, len(q)) == INRAD(t, lat, lon, r, True, FLAT(y, x, X)))' % GIV, trigger=['HIT(q, y, x, len(q)) ;; IS_RADIUS_SEARCH(FLATS(q, X, len(q)), t, lat, lon, r, True) ;; FLAT(Y, 0, X)'],
      hints=['hit_out(q, t, lat, lon, r, Y, X, y, x)', 'hit_back(q, t, lat, lon, r, Y, X, y, x)'])
for R, A, LEN, AT in (('R', 'y', 'nx(v)', 'v[y][%s]'), ('C', 'x', 'len(v)', 'v[%s][x]')):
    VS = 'v: vec<vec<f32>>; %s: int' % A
    LA, NE, RV = 'LAST%s(v, %s, ' % (R, A) + '%s)', 'NEXT%s(v, %s, ' % (R, A) + '%s)', ['LAST' + R, 'NEXT' + R]
    CX = {'R': 'x', 'C': 'y'}[R]
    lemma('last%s_in' % R, VS + '; n: int', '0 <= LA and (LA < n or LA == 0)'.replace('LA', LA % 'n'), induct='n', requires=['n >= 0'], reveal=RV)
    lemma('last%s_0' % R, VS, LA % '0' + ' == 0', reveal=RV)
    lemma('last%s_step' % R, VS + '; n: int', 'implies(n >= 0, %s == (n if valid(%s) else %s))' % (LA % 'n + 1', AT % 'n', LA % 'n'), reveal=RV, trigger=[LA % 'n' + ' ;; ' + AT % 'n'])
    lemma('next%s_end' % R, VS + '; n: int', 'implies(n >= %s, %s == n)' % (LEN, NE % 'n'), reveal=RV)
    lemma('next%s_step' % R, VS + '; n: int', 'implies(n < %s, %s == (n if valid(%s) else %s))' % (LEN, NE % 'n', AT % 'n', NE % 'n + 1'), reveal=RV, trigger=[NE % 'n' + ' ;; ' + AT % 'n'])
    lemma('fill%s' % R, VS + '; %s: int' % CX, 'FILL%s(v, y, x) == (v[y][x] if valid(v[y][x]) else let(i, %s, let(j, %s, NaN if j >= %s else BETW(%s, %s, %s, i, j))))' % (R, LA % CX, NE % CX, LEN, AT % 'i', AT % 'j', CX),
          trigger=['FILL%s(v, y, x)' % R], reveal=['FILL' + R])
FMU = [n % r for r in 'RC' for n in ('last%s_in', 'last%s_0', 'last%s_step', 'next%s_end', 'next%s_step', 'fill%s')]
GCOMP2 = '(len(v) == 0 and len(g.mTree.mLats) == 0) or (len(v) > 0 and GSIZE(g, len(v), len(v[0])))'
BADPT = 'any(not VALIDLL(p.mLats[i], p.mLons[i], g.mTree.mType) for i in range(len(p.mLats)))'
SHP = '(len(result) == len(v) and all(len(result[y]) == nx(v) for y in range(len(v))))'
CELL = 'all(%s for y in range(len(v)) for x in range(nx(v)))'
def cell(z, cov):
    return "implies(outside, %s == (v[y][x] if %s else value)) and implies(not outside, %s == (value if %s else v[y][x]))" % (z, cov, z, cov)
CV = 'COVER(g, p, r, y, x, %s)'
U = FL + ['flat_mul', 'hit_radius', 'flats_len', 'flats_at']
SH2 = ('len($o) == len(v) and all(len($o[y]) == nx(v) for y in range(len(v)))', {'$o': 'vec<vec<f32>>*'})
contract('gridpp::fill(%s,vec<vec<f32>>,%s,vec<f32>,f32,bool)' % (GR, PS), 'g v p r value outside', props=['C20'], requires=['rect2(v)'], uses=U,
    throws='not (%s) or len(r) != len(p.mLats) or any(r[i] < 0 for i in range(len(r))) or %s' % (GCOMP2, BADPT),
    ensures=[('shape', SHP), ('inside or outside the radii', CELL % cell('result[y][x]', CV % 'len(p.mLats)'))],
    hints=[SH2, ('implies(outside, all($o[y][x] == (v[y][x] if COVER(g, p, r, y, x, $i) else value) for y in range(len(v)) for x in range(nx(v))))', {'$o': 'vec<vec<f32>>*', '$i': 'int+'}),
           ('implies(not outside, all($o[y][x] == (value if COVER(g, p, r, y, x, $i) else v[y][x]) for y in range(len(v)) for x in range(nx(v))))', {'$o': 'vec<vec<f32>>*', '$i': 'int+'}),
           ('implies(outside, all($o[y][x] == (v[y][x] if COVER(g, p, r, y, x, $i) or HIT($q, y, x, $j) else value) for y in range(len(v)) for x in range(nx(v))))', {'$o': 'vec<vec<f32>>*', '$i': 'int^', '$j': 'int+', '$q': 'vec<vec<i32>>'}),
           ('implies(not outside, all($o[y][x] == (value if COVER(g, p, r, y, x, $i) or HIT($q, y, x, $j) else v[y][x]) for y in range(len(v)) for x in range(nx(v))))', {'$o': 'vec<vec<f32>>*', '$i': 'int^', '$j': 'int+', '$q': 'vec<vec<i32>>'}),
           ('implies(outside, all($o[k][x] == value for k in range($y) for x in range(nx(v))))', {'$o': 'vec<vec<f32>>*', '$y': 'int+'})])
contract('gridpp::doping_circle(%s,vec<vec<f32>>,%s,vec<f32>,vec<f32>,f32)' % (GR, PS), 'g v p o r m', props=['C20'], requires=['rect2(v)'], uses=U,
    throws='not (%s) or len(o) != len(p.mLats) or len(r) != len(p.mLats) or (valid(m) and m < 0) or any(r[i] < 0 for i in range(len(r))) or %s' % (GCOMP2, BADPT),
    ensures=[('shape', SHP), ('last point that covers a cell', CELL % 'result[y][x] == DOPEC(g, v, p, o, r, m, y, x, len(p.mLats))')],
    hints=[SH2, (CELL % '$o[y][x] == DOPEC(g, v, p, o, r, m, y, x, $i)', {'$o': 'vec<vec<f32>>*', '$i': 'int+'}),
           (CELL % '$o[y][x] == (o[$i] if HIT($q, y, x, $j) and ELEVOK(m, p.mElevs[$i], g.mElevs[y][x]) else DOPEC(g, v, p, o, r, m, y, x, $i))', {'$o': 'vec<vec<f32>>*', '$i': 'int^', '$j': 'int+', '$q': 'vec<vec<i32>>'})])
contract('gridpp::doping_square(%s,vec<vec<f32>>,%s,vec<f32>,vec<i32>,f32)' % (GR, PS), 'g v p o h m', props=['C20'], requires=['rect2(v)'], uses=FL + ['flat_mul'],
    throws='not (%s) or len(o) != len(p.mLats) or len(h) != len(p.mLats) or (valid(m) and m < 0) or any(h[i] < 0 for i in range(len(h))) or (len(v) > 0 and len(v[0]) > 0 and %s)' % (GCOMP2, BADPT),
    ensures=[('shape', SHP), ('last point whose square holds a cell', CELL % 'DOPES(result[y][x], g, v, p, o, h, m, y, x, len(p.mLats))')],
    hints=[SH2, (CELL % 'DOPES($o[y][x], g, v, p, o, h, m, y, x, $i)', {'$o': 'vec<vec<f32>>*', '$i': 'int+'}),
           (CELL % '($o[y][x] == o[$i] if INSQ(y, x, $c[0], $c[1], h[$i]) and y < $j and ELEVOK(m, p.mElevs[$i], g.mElevs[y][x]) else DOPES($o[y][x], g, v, p, o, h, m, y, x, $i))', {'$o': 'vec<vec<f32>>*', '$i': 'int^', '$j': 'int+', '$c': 'vec<i32>'}),
           (CELL % '($o[y][x] == o[$i] if INSQ(y, x, $c[0], $c[1], h[$i]) and (y < $j or (y == $j and x < $k)) and ELEVOK(m, p.mElevs[$i], g.mElevs[y][x]) else DOPES($o[y][x], g, v, p, o, h, m, y, x, $i))',
            {'$o': 'vec<vec<f32>>*', '$i': 'int^', '$j': 'int^', '$k': 'int+', '$c': 'vec<i32>'})])
contract('gridpp::fill_missing(vec<vec<f32>>)', 'v', props=['C20'], bounded='generated arrays up to 5 x 5', fp=1e-6, uses=FMU, requires=['rect2(v)'],
    ensures=[('shape', SHP), ('row and column interpolation', CELL % 'result[y][x] == MEAN2(FILLR(v, y, x), FILLC(v, y, x))')],
    hints=[('all($o[y][x] == FILLR(v, y, x) for y in range($i) for x in range(nx(v)))', {'$o': 'vec<vec<f32>>*', '$i': 'int+#'}),
           ('all($o[y][x] == FILLR(v, y, x) for y in range($i) for x in range(nx(v))) and all($o[$i][x] == FILLR(v, $i, x) for x in range($j))', {'$o': 'vec<vec<f32>>*', '$i': 'int^#', '$j': 'int+#'}),
           ('all($o[y][x] == FILLC(v, y, x) for x in range($i) for y in range(len(v)))', {'$o': 'vec<vec<f32>>*', '$i': 'int+#'}),
           ('all($o[y][x] == FILLC(v, y, x) for x in range($i) for y in range(len(v))) and all($o[y][$i] == FILLC(v, y, $i) for y in range($j))', {'$o': 'vec<vec<f32>>*', '$i': 'int^#', '$j': 'int+#'}),
           ('$l == LASTR(v, $i, $j)', {'$l': 'int*', '$i': 'int^#', '$j': 'int+#'}), ('$l == LASTC(v, $i, $j)', {'$l': 'int*', '$i': 'int^#', '$j': 'int+#'}),
           ('implies($n >= $j, $n == NEXTR(v, $i, $j))', {'$n': 'int*', '$i': 'int^#', '$j': 'int+#'}), ('implies($n >= $j, $n == NEXTC(v, $i, $j))', {'$n': 'int*', '$i': 'int^#', '$j': 'int+#'}),
           ('$n >= $j and NEXTR(v, $i, $n) == NEXTR(v, $i, $j)', {'$n': 'int+#', '$i': 'int^#', '$j': 'int^#'}), ('$n >= $j and NEXTC(v, $i, $n) == NEXTC(v, $i, $j)', {'$n': 'int+#', '$i': 'int^#', '$j': 'int^#'})])
