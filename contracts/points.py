"""src/api/point.cpp, points.cpp, grid.cpp: points, lists of points, grids."""
from gv.spec import logic, contract, lemma, uninterp, invariant
import base, util, geo
from geo import KT, PT, PS, GR, CT, K

logic('''
@opaque
def ROW(k: 'int', X: 'int') -> 'int':
    return k // X

@opaque
def COL(k: 'int', X: 'int') -> 'int':
    return k % X

@opaque
def FLAT(y: 'int', x: 'int', X: 'int') -> 'int':
    return y * X + x

def PTSOK(p: 'rec:gridpp::Points') -> 'bool':
    return (len(p.mLons) == len(p.mLats) and len(p.mElevs) == len(p.mLats) and len(p.mLafs) == len(p.mLats) and TREEOK(p.mTree) and len(p.mTree.mLats) == len(p.mLats) and
        all(p.mTree.mLats[i] == p.mLats[i] and p.mTree.mLons[i] == p.mLons[i] for i in range(len(p.mLats))))

def SHAPED(a: 'vec<vec<f32>>', Y: 'int', X: 'int') -> 'bool':
    return len(a) == Y and all(len(a[i]) == X for i in range(Y))

def GRIDOK(g: 'rec:gridpp::Grid') -> 'bool':
    return (g.mX >= 0 and SHAPED(g.mLats, len(g.mLats), g.mX) and SHAPED(g.mLons, len(g.mLats), g.mX) and SHAPED(g.mElevs, len(g.mLats), g.mX) and SHAPED(g.mLafs, len(g.mLats), g.mX) and
        all(VALIDLL(g.mLats[y][x], g.mLons[y][x], g.mTree.mType) for y in range(len(g.mLats)) for x in range(g.mX)) and
        implies(len(g.mLats) == 0, g.mX == 0) and len(g.mTree.mLats) == FLAT(len(g.mLats), 0, g.mX) and TREEOK(g.mTree) and
        all(g.mTree.mLats[FLAT(y, x, g.mX)] == g.mLats[y][x] and g.mTree.mLons[FLAT(y, x, g.mX)] == g.mLons[y][x] for y in range(len(g.mLats)) for x in range(g.mX)))

def GSIZE(g: 'rec:gridpp::Grid', Y: 'int', X: 'int') -> 'bool':
    return (Y == len(g.mLats) and X == g.mX) if len(g.mTree.mLats) > 0 else (Y == 0 and X == 0)

def ISNN(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', inc: 'bool', j: 'int') -> 'bool':
    return (0 <= j and j < len(t.mLats) and (inc or not MATCHES(t, lat, lon, j)) and
            all(implies(inc or not MATCHES(t, lat, lon, k), k == j or D2(t, lat, lon, j) <= D2(t, lat, lon, k)) for k in range(len(t.mLats))))

def NONN(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', inc: 'bool') -> 'bool':
    return all(not inc if MATCHES(t, lat, lon, k) else False for k in range(len(t.mLats)))

def FLATS(r: 'vec<vec<i32>>', X: 'int', n: 'int') -> 'vec<i32>':
    return emptyi() if n <= 0 else push(FLATS(r, X, n - 1), FLAT(r[n - 1][0], r[n - 1][1], X))

def INGRID(r: 'vec<i32>', Y: 'int', X: 'int') -> 'bool':
    return len(r) == 2 and 0 <= r[0] and r[0] < Y and 0 <= r[1] and r[1] < X

def SIDE(alat: 'f', alon: 'f', blat: 'f', blon: 'f', lat: 'f', lon: 'f') -> 'f':
    return let(dx, blon - alon, let(dy, -1 * (blat - alat), (dy * lon + dx * lat) + -1 * (dy * alon + dx * alat)))

def INQUAD4(d1: 'f', d2: 'f', d3: 'f', d4: 'f') -> 'bool':
    return (0 >= d1 and 0 >= d4 and 0 <= d2 and 0 >= d3) or (0 <= d1 and 0 <= d4 and 0 >= d2 and 0 <= d3)

@opaque
def INQUAD(alat: 'f', alon: 'f', blat: 'f', blon: 'f', clat: 'f', clon: 'f', dlat: 'f', dlon: 'f', lat: 'f', lon: 'f') -> 'bool':
    return INQUAD4(SIDE(alat, alon, blat, blon, lat, lon), SIDE(alat, alon, dlat, dlon, lat, lon), SIDE(blat, blon, clat, clon, lat, lon), SIDE(clat, clon, dlat, dlon, lat, lon))

def QUAD(g: 'rec:gridpp::Grid', y: 'int', x: 'int', dy: 'int', dx: 'int', lat: 'f', lon: 'f') -> 'bool':
    return (0 <= y + dy and y + dy < len(g.mLats) and 0 <= x + dx and x + dx < g.mX and
        INQUAD(g.mLats[y][x], g.mLons[y][x], g.mLats[y + dy][x], g.mLons[y + dy][x], g.mLats[y + dy][x + dx], g.mLons[y + dy][x + dx], g.mLats[y][x + dx], g.mLons[y][x + dx], lat, lon))

@opaque
def ISBOX(g: 'rec:gridpp::Grid', lat: 'f', lon: 'f', y1: 'int', x1: 'int', y2: 'int', x2: 'int') -> 'bool':
    return (0 <= y1 and y2 == y1 + 1 and y2 < len(g.mLats) and 0 <= x1 and x2 == x1 + 1 and x2 < g.mX and
        any(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and QUAD(g, y, x, y1 + y2 - 2 * y, x1 + x2 - 2 * x, lat, lon) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)))

@opaque
def NOBOX(g: 'rec:gridpp::Grid', lat: 'f', lon: 'f') -> 'bool':
    return (len(g.mTree.mLats) == 0 or len(g.mLats) <= 1 or g.mX <= 1 or
        any(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and not QUAD(g, y, x, 1, 1, lat, lon) and not QUAD(g, y, x, 1, -1, lat, lon) and not QUAD(g, y, x, -1, 1, lat, lon) and not QUAD(g, y, x, -1, -1, lat, lon)
            for y in range(len(g.mLats)) for x in range(g.mX)))

@opaque
def HASBOX(g: 'rec:gridpp::Grid', lat: 'f', lon: 'f') -> 'bool':
    return any(ISBOX(g, lat, lon, y, x, y + 1, x + 1) for y in range(len(g.mLats)) for x in range(g.mX))
''')
lemma('flat_pair', 'y: int; x: int; b: int; c: int; X: int', 'implies(b == y, FLAT(b, c, X) - FLAT(y, x, X) == c - x) and implies(b == y + 1, FLAT(b, c, X) - FLAT(y, x, X) == X + c - x) and implies(y < b and 0 <= x and x < X and 0 <= c, FLAT(y, x, X) < FLAT(b, c, X))',
      trigger=['FLAT(y, x, X) ;; FLAT(b, c, X)'], reveal=['FLAT'])
lemma('flat_zero', 'X: int', 'FLAT(0, 0, X) == 0', trigger=['FLAT(0, 0, X)'], reveal=['FLAT'])
lemma('flat_pos', 'y: int; x: int; X: int', 'implies(y >= 0 and x >= 0 and X >= 0, FLAT(y, x, X) >= 0 and implies(y >= 1, FLAT(y, x, X) >= X + x))', trigger=['FLAT(y, x, X)'], reveal=['FLAT'])

lemma('box_adj', 'g: rec:gridpp::Grid; lat: f; lon: f; y: int; x: int; b: int; c: int', 'implies(ISBOX(g, lat, lon, y, x, b, c), 0 <= y and y < len(g.mLats) and 0 <= x and x < g.mX and b == y + 1 and c == x + 1)', reveal=['ISBOX'])
lemma('box_has', 'g: rec:gridpp::Grid; lat: f; lon: f; y: int; x: int; b: int; c: int', 'implies(ISBOX(g, lat, lon, y, x, b, c), HASBOX(g, lat, lon))', trigger=['ISBOX(g, lat, lon, y, x, b, c)'], hints=['box_adj(g, lat, lon, y, x, b, c)'], reveal=['HASBOX'])
lemma('flat_in', 'y: int; x: int; Y: int; X: int', 'implies(0 <= y and y < Y and 0 <= x and x < X, 0 <= FLAT(y, x, X) and FLAT(y, x, X) < FLAT(Y, 0, X))', trigger=['FLAT(y, x, X) ;; FLAT(Y, 0, X)'], reveal=['FLAT'], uses=['flat_pair'])
lemma('flat_rc', 'k: int; X: int', 'implies(X > 0 and k >= 0, FLAT(ROW(k, X), COL(k, X), X) == k and 0 <= COL(k, X) and COL(k, X) < X and 0 <= ROW(k, X))', trigger=['ROW(k, X)', 'COL(k, X)'], reveal=['FLAT', 'ROW', 'COL'])
lemma('rc_unique', 'y: int; x: int; b: int; c: int; X: int', 'implies(0 <= x and x < X and 0 <= c and c < X and FLAT(y, x, X) == FLAT(b, c, X), y == b and x == c)', reveal=['FLAT'])
lemma('rc_flat', 'y: int; x: int; X: int', 'implies(0 <= x and x < X and 0 <= y, ROW(FLAT(y, x, X), X) == y and COL(FLAT(y, x, X), X) == x)', trigger=['FLAT(y, x, X)'], hints=['rc_unique(y, x, ROW(FLAT(y, x, X), X), COL(FLAT(y, x, X), X), X)', 'flat_rc(FLAT(y, x, X), X)', 'flat_pos(y, x, X)'])
lemma('row_in', 'k: int; X: int; Y: int', 'implies(X > 0 and 0 <= k and k < FLAT(Y, 0, X), ROW(k, X) < Y)', trigger=['ROW(k, X) ;; FLAT(Y, 0, X)'], uses=['flat_pair', 'flat_rc'])
RC = ['flat_rc', 'rc_flat', 'row_in']
FL = ['flat_pair', 'flat_zero', 'flat_pos']
invariant('gridpp::Points', 'PTSOK(o)')
invariant('gridpp::Grid', 'GRIDOK(o)')

# ---------------------------------------------------------------- Point
P_ = 'gridpp::Point::'
contract(P_ + 'Point(f32,f32,f32,f32,%s)' % CT, 'lat lon elev laf t', props=['C12'], throws='t == Geodetic and not VALIDLL(lat, lon, t)', requires=['t == Geodetic or t == Cartesian'],
    ensures=[('fields', 'result.lat == lat and result.lon == lon and result.elev == elev and result.laf == laf and result.type == t'),
             ('coordinates', 'result.x == CX(lat, lon, t) and result.y == CY(lat, lon, t) and result.z == CZ(lat, lon, t)')], reveal=['CX', 'CY', 'CZ'], sym=True)
contract(P_ + 'Point(f32,f32,f32,f32,%s,f32,f32,f32)' % CT, 'lat lon elev laf t x y z', props=['C12'],
    ensures=[('fields', 'result.lat == lat and result.lon == lon and result.elev == elev and result.laf == laf and result.type == t'), ('coordinates', 'result.x == x and result.y == y and result.z == z')])
contract('gridpp::point_in_rectangle(%s,%s,%s,%s,%s)' % (PT, PT, PT, PT, PT), 'A B C D m', props=['C12'], sym=True, reveal=['INQUAD'],
    ensures=[('half planes', 'result == INQUAD(A.lat, A.lon, B.lat, B.lon, C.lat, C.lon, D.lat, D.lon, m.lat, m.lon)')])

NR = 'a: vec<i32>; t: rec:gridpp::KDTree; lat: f; lon: f; n: int; inc: bool'
lemma('near_at', NR + '; j: int', 'implies(IS_NEAREST(a, t, lat, lon, n, inc) and 0 <= j and j < len(t.mLats), (not inc and MATCHES(t, lat, lon, j)) or any(a[k] == j for k in range(len(a))) or (len(a) == n and D2(t, lat, lon, j) == D2(t, lat, lon, j)))', reveal=['IS_NEAREST'])
lemma('near_some', NR, 'implies(IS_NEAREST(a, t, lat, lon, n, inc) and inc and n > 0 and len(t.mLats) > 0, len(a) > 0)', trigger=['IS_NEAREST(a, t, lat, lon, n, inc)'], hints=['near_at(a, t, lat, lon, n, inc, 0)'])
lemma('near_one', NR, 'implies(IS_NEAREST(a, t, lat, lon, n, inc) and n == 1, len(a) <= 1 and implies(len(a) == 1, ISNN(t, lat, lon, inc, a[0])) and implies(len(a) == 0, NONN(t, lat, lon, inc)))', trigger=['IS_NEAREST(a, t, lat, lon, n, inc)'], reveal=['IS_NEAREST'])
# ---------------------------------------------------------------- KDTree: single neighbour and distances
contract(K + 'get_nearest_neighbour(f32,f32,bool)', 'lat lon inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mType)', uses=['near_some', 'near_one'],
    ensures=[('found', 'implies(inc and len(this.mLats) > 0, result >= 0)'), ('nearest', 'implies(result >= 0, ISNN(this, lat, lon, inc, result))'), ('none', 'implies(result < 0, result == -1 and NONN(this, lat, lon, inc))')])
for f, m in (('get_lats', 'mLats'), ('get_lons', 'mLons'), ('get_x', 'mX'), ('get_y', 'mY'), ('get_z', 'mZ'), ('get_coordinate_type', 'mType')):
    contract(K + f + '()', '', props=['C11'], ensures=[('member', 'result == this.' + m)])
contract(K + 'size()', '', props=['C11'], ensures=[('number', 'result == len(this.mLats)')])
contract(K + 'calc_distance(f32,f32,f32,f32,%s)' % CT, 'a b c d t', static=True, props=['C11'], sym=True, reveal=['GDIST'], requires=['t == Geodetic or t == Cartesian'], ensures=[('great circle', 'result == GDIST(a, b, c, d, t)')])
contract(K + 'calc_distance(%s,%s)' % (PT, PT), 'p q', static=True, props=['C11'], requires=['p.type == Geodetic or p.type == Cartesian'], throws='p.type != q.type', ensures=[('great circle', 'result == GDIST(p.lat, p.lon, q.lat, q.lon, p.type)')])
contract(K + 'calc_straight_distance(%s,%s)' % (PT, PT), 'p q', static=True, props=['C11'], ensures=[('euclidean', 'result == SDIST(p.x, p.y, p.z, q.x, q.y, q.z)')])

# ---------------------------------------------------------------- Points
Q = 'gridpp::Points::'
contract(Q + 'Points()', '', props=['C12'], ensures=[('empty', 'len(result.mLats) == 0')])
contract(Q + 'Points(vec<f32>,vec<f32>,vec<f32>,vec<f32>,%s)' % CT, 'lats lons elevs lafs t', props=['C12'], requires=['t == Geodetic or t == Cartesian'],
    throws='len(lats) != len(lons) or (len(elevs) != 0 and len(elevs) != len(lats)) or (len(lafs) != 0 and len(lafs) != len(lats)) or any(not VALIDLL(lats[i], lons[i], t) for i in range(len(lats)))',
    ensures=[('coordinates', 'result.mLats == lats and result.mLons == lons and result.mTree.mType == t'),
             ('elevations', 'result.mElevs == elevs if len(elevs) == len(lats) else all(isnan(result.mElevs[i]) for i in range(len(lats)))'),
             ('land area fractions', 'result.mLafs == lafs if len(lafs) == len(lats) else all(isnan(result.mLafs[i]) for i in range(len(lats)))')])
contract(Q + 'Points(%s,vec<f32>,vec<f32>)' % KT, 'tree elevs lafs', props=['C12'], throws='len(elevs) != len(tree.mLats) or len(lafs) != len(tree.mLats)',
    ensures=[('members', 'result.mTree == tree and result.mLats == tree.mLats and result.mLons == tree.mLons and result.mElevs == elevs and result.mLafs == lafs')])
contract(Q + 'Points(%s)' % PS, 'other', props=['C12'], ensures=[('copy', 'result == other')])
contract(Q + 'operator=(%s)' % PS, 'other', props=['C12'], ensures=[('assigned', 'this_out == other')])
for f, m in (('get_lats', 'mLats'), ('get_lons', 'mLons'), ('get_elevs', 'mElevs'), ('get_lafs', 'mLafs'), ('get_coordinate_type', 'mTree.mType')):
    contract(Q + f + '()', '', props=['C12'], ensures=[('member', 'result == this.' + m)])
contract(Q + 'size()', '', props=['C12'], ensures=[('number', 'result == len(this.mLats)')])
contract(Q + 'get_neighbours(f32,f32,f32,bool)', 'lat lon r inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', ensures=[('within the radius', 'IS_RADIUS_SEARCH(result, this.mTree, lat, lon, r, inc)')])
contract(Q + 'get_neighbours_with_distance(f32,f32,f32,vec<f32>&,bool)', 'lat lon r dist inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)',
    ensures=[('within the radius', 'IS_RADIUS_SEARCH(result, this.mTree, lat, lon, r, inc)'),
             ('distances', 'len(dist_out) == len(result) and all(dist_out[k] == QDIST(this.mTree, lat, lon, result[k]) for k in range(len(result)))')])
contract(Q + 'get_num_neighbours(f32,f32,f32,bool)', 'lat lon r inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', ensures=[('count', 'result == NRAD(this.mTree, lat, lon, r, inc, len(this.mLats))')])
contract(Q + 'get_closest_neighbours(f32,f32,i32,bool)', 'lat lon n inc', props=['C11'], requires=['n >= 0'], throws='not VALIDLL(lat, lon, this.mTree.mType)', ensures=[('the nearest points', 'IS_NEAREST(result, this.mTree, lat, lon, n, inc)')])
contract(Q + 'get_nearest_neighbour(f32,f32,bool)', 'lat lon inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', uses=['near_some', 'near_one'],
    ensures=[('found', 'implies(inc and len(this.mLats) > 0, result >= 0)'), ('nearest', 'implies(result >= 0, ISNN(this.mTree, lat, lon, inc, result))'), ('none', 'implies(result < 0, result == -1 and NONN(this.mTree, lat, lon, inc))')])
contract(Q + 'get_point(i32)', 'i', props=['C12'], requires=['0 <= i and i < len(this.mLats)'],
    ensures=[('the i-th point', 'result.lat == this.mLats[i] and result.lon == this.mLons[i] and result.elev == this.mElevs[i] and result.laf == this.mLafs[i] and result.type == this.mTree.mType'),
             ('coordinates', 'result.x == CX(result.lat, result.lon, result.type) and result.y == CY(result.lat, result.lon, result.type) and result.z == CZ(result.lat, result.lon, result.type)')])
contract(Q + 'subset(vec<i32>)', 'idx', props=['C12'], throws='any(idx[k] < 0 or idx[k] >= len(this.mLats) for k in range(len(idx)))',
    ensures=[('size', 'len(result.mLats) == len(idx) and result.mTree.mType == this.mTree.mType'),
             ('members', 'all(result.mLats[k] == this.mLats[idx[k]] and result.mLons[k] == this.mLons[idx[k]] and result.mElevs[k] == this.mElevs[idx[k]] and result.mLafs[k] == this.mLafs[idx[k]] for k in range(len(idx)))')])
contract(Q + 'get_in_domain_indices(%s)' % GR, 'grid', props=['C12'], uses=['box_has'], throws='any(not VALIDLL(this.mLats[i], this.mLons[i], grid.mTree.mType) for i in range(len(this.mLats)))',
    ensures=[('in range', 'all(0 <= result[k] and result[k] < len(this.mLats) for k in range(len(result)))'),
             ('increasing', 'all(implies(k > 0, result[k - 1] < result[k]) for k in range(len(result)))'),
             ('inside', 'all(HASBOX(grid, this.mLats[result[k]], this.mLons[result[k]]) for k in range(len(result)))'),
             ('points left out between', 'all(implies((k == 0 or result[k - 1] < i) and i < result[k], NOBOX(grid, this.mLats[i], this.mLons[i])) for k in range(len(result)) for i in range(len(this.mLats)))'),
             ('points left out at the end', 'all(implies(len(result) == 0 or result[len(result) - 1] < i, NOBOX(grid, this.mLats[i], this.mLons[i])) for i in range(len(this.mLats)))')],
    hints=[('all($v[k] < $i for k in range(len($v)))', {'$v': 'vec<i32>*', '$i': 'int+'})])
contract(Q + 'get_in_domain(%s)' % GR, 'grid', props=['C12'], throws='any(not VALIDLL(this.mLats[i], this.mLons[i], grid.mTree.mType) for i in range(len(this.mLats)))',
    ensures=[('points inside', 'all(HASBOX(grid, result.mLats[k], result.mLons[k]) for k in range(len(result.mLats)))'),
             ('coordinate type', 'result.mTree.mType == this.mTree.mType'),
             ('from these points', 'all(any(result.mLats[k] == this.mLats[i] and result.mLons[k] == this.mLons[i] and result.mElevs[k] == this.mElevs[i] and result.mLafs[k] == this.mLafs[i] for i in range(len(this.mLats))) for k in range(len(result.mLats)))')],
    hints=[('len($v) == $i and all($v[k] == this.%s[$x[k]] for k in range($i))' % m, {'$v': 'vec<f32>*', '$i': 'int+', '$x': 'vec<i32>'}) for m in ('mLats', 'mLons', 'mElevs', 'mLafs')])

# ---------------------------------------------------------------- Grid
contract('grid.cpp::(anonymous namespace)::has_shape(vec<vec<f32>>,i32,i32)', 'a Y X', internal=True, requires=['Y >= 0 and X >= 0'], ensures=[('shape', 'result == SHAPED(a, Y, X)')],
    hints=[('all(len(a[k]) == X for k in range($i))', {'$i': 'int+'})])
G = 'gridpp::Grid::'
contract(G + 'Grid()', '', props=['C12'], ensures=[('empty', 'len(result.mLats) == 0 and len(result.mTree.mLats) == 0')], uses=['flat_zero'])
SAME = 'len(lons) != len(lats) or any(len(lats[i]) != len(lats[0]) or len(lons[i]) != len(lats[0]) for i in range(len(lats)))'
X_ = 'nx(lats)'
contract(G + 'Grid(vec<vec<f32>>,vec<vec<f32>>,vec<vec<f32>>,vec<vec<f32>>,%s)' % CT, 'lats lons elevs lafs t', props=['C12'], requires=['t == Geodetic or t == Cartesian', 'len(lats) == 0 or len(lats) * len(lats[0]) <= 2147483647'],
    throws=SAME + ' or any(not VALIDLL(lats[y][x], lons[y][x], t) and FLAT(y, x, nx(lats)) >= 0 for y in range(len(lats)) for x in range(len(lats[0])))', uses=FL + RC + ['flat_mul'],
    ensures=[('coordinates', 'len(result.mLats) == len(lats) and implies(len(lats) > 0, result.mLats == lats and result.mLons == lons) and result.mTree.mType == t'),
             ('elevations', 'implies(len(lats) > 0, result.mElevs == elevs if SHAPED(elevs, len(lats), nx(lats)) else all(isnan(result.mElevs[y][x]) for y in range(len(lats)) for x in range(len(lats[0]))))'),
             ('land area fractions', 'implies(len(lats) > 0, result.mLafs == lafs if SHAPED(lafs, len(lats), nx(lats)) else all(isnan(result.mLafs[y][x]) for y in range(len(lats)) for x in range(len(lats[0]))))')],
    hints=[('$c == FLAT($i, 0, nx(lats))', {'$c': 'int*', '$i': 'int+'}), ('$c == FLAT($i, $j, nx(lats))', {'$c': 'int*', '$i': 'int^', '$j': 'int+'}),
           ('all($v[k] == lats[ROW(k, nx(lats))][COL(k, nx(lats))] for k in range($c))', {'$v': 'vec<f32>*', '$c': 'int*'}), ('all($v[k] == lons[ROW(k, nx(lats))][COL(k, nx(lats))] for k in range($c))', {'$v': 'vec<f32>*', '$c': 'int*'}),
           ('all(implies(FLAT(y, x, nx(lats)) < $c, $v[FLAT(y, x, nx(lats))] == lats[y][x]) for y in range(len(lats)) for x in range(nx(lats)))', {'$v': 'vec<f32>*', '$c': 'int*'}),
           ('all(implies(FLAT(y, x, nx(lats)) < $c, $v[FLAT(y, x, nx(lats))] == lons[y][x]) for y in range(len(lats)) for x in range(nx(lats)))', {'$v': 'vec<f32>*', '$c': 'int*'}),
           ('all(len($a[y]) == nx(lats) and all(isnan($a[y][x]) for x in range(nx(lats))) for y in range($i))', {'$a': 'vec<vec<f32>>*', '$i': 'int+'})])
for f, m in (('get_lats', 'mLats'), ('get_lons', 'mLons'), ('get_elevs', 'mElevs'), ('get_lafs', 'mLafs'), ('get_coordinate_type', 'mTree.mType')):
    contract(G + f + '()', '', props=['C12'], ensures=[('member', 'result == this.' + m)])
contract(G + 'get_indices(i32)', 'i', props=['C12'], requires=['0 <= i and i < len(this.mTree.mLats)'], reveal=['FLAT'], uses=['flat_pair'],
    ensures=[('row and column', 'INGRID(result, len(this.mLats), this.mX) and FLAT(result[0], result[1], this.mX) == i')])
contract(G + 'get_indices(vec<i32>)', 'idx', props=['C12'], requires=['all(0 <= idx[k] and idx[k] < len(this.mTree.mLats) for k in range(len(idx)))'],
    ensures=[('size', 'len(result) == len(idx)'), ('row and column', 'all(INGRID(result[k], len(this.mLats), this.mX) and FLAT(result[k][0], result[k][1], this.mX) == idx[k] for k in range(len(idx)))')])
contract(G + 'size()', '', props=['C12'], ensures=[('shape', 'len(result) == 2 and GSIZE(this, result[0], result[1])')], uses=FL)
lemma('flats_len', 'r: vec<vec<i32>>; X: int; n: int', 'len(FLATS(r, X, n)) == n', requires=['n >= 0'], induct='n', trigger=['FLATS(r, X, n)'])
lemma('flats_at', 'r: vec<vec<i32>>; X: int; n: int; k: int', 'implies(0 <= k and k < n, FLATS(r, X, n)[k] == FLAT(r[k][0], r[k][1], X))', requires=['n >= 0'], induct='n', trigger=['FLATS(r, X, n)[k]'], uses=['flats_len'])
RS = 'a: vec<i32>; b: vec<i32>; t: rec:gridpp::KDTree; lat: f; lon: f; r: f; inc: bool'
lemma('radius_same', RS, 'implies(IS_RADIUS_SEARCH(a, t, lat, lon, r, inc) and len(a) == len(b) and all(a[k] == b[k] for k in range(len(a))), IS_RADIUS_SEARCH(b, t, lat, lon, r, inc))',
      trigger=['IS_RADIUS_SEARCH(a, t, lat, lon, r, inc) ;; IS_RADIUS_SEARCH(b, t, lat, lon, r, inc)'], reveal=['IS_RADIUS_SEARCH'])
lemma('radius_range', RS.replace('b: vec<i32>; ', ''), 'implies(IS_RADIUS_SEARCH(a, t, lat, lon, r, inc), all(0 <= a[k] and a[k] < len(t.mLats) for k in range(len(a))))', trigger=['IS_RADIUS_SEARCH(a, t, lat, lon, r, inc)'], reveal=['IS_RADIUS_SEARCH'])
NS = RS.replace('r: f', 'n: int')
lemma('near_same', NS, 'implies(IS_NEAREST(a, t, lat, lon, n, inc) and len(a) == len(b) and all(a[k] == b[k] for k in range(len(a))), IS_NEAREST(b, t, lat, lon, n, inc))',
      trigger=['IS_NEAREST(a, t, lat, lon, n, inc) ;; IS_NEAREST(b, t, lat, lon, n, inc)'], reveal=['IS_NEAREST'])
lemma('near_range', NS.replace('b: vec<i32>; ', ''), 'implies(IS_NEAREST(a, t, lat, lon, n, inc), all(0 <= a[k] and a[k] < len(t.mLats) for k in range(len(a))))', trigger=['IS_NEAREST(a, t, lat, lon, n, inc)'], reveal=['IS_NEAREST'])
lemma('flat_mul', 'Y: int; X: int', 'FLAT(Y, 0, X) == Y * X', trigger=['FLAT(Y, 0, X)'], reveal=['FLAT'])
FLU = ['flats_len', 'flats_at']
LST = ('grid points', 'all(INGRID(result[k], len(this.mLats), this.mX) for k in range(len(result)))')
contract(G + 'get_neighbours(f32,f32,f32,bool)', 'lat lon r inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', uses=FLU + ['radius_same', 'radius_range'],
    ensures=[LST, ('within the radius', 'IS_RADIUS_SEARCH(FLATS(result, this.mX, len(result)), this.mTree, lat, lon, r, inc)')])
contract(G + 'get_neighbours_with_distance(f32,f32,f32,vec<f32>&,bool)', 'lat lon r dist inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', uses=FLU + ['radius_same', 'radius_range'],
    ensures=[LST, ('within the radius', 'IS_RADIUS_SEARCH(FLATS(result, this.mX, len(result)), this.mTree, lat, lon, r, inc)'),
             ('distances', 'len(dist_out) == len(result) and all(dist_out[k] == QDIST(this.mTree, lat, lon, FLAT(result[k][0], result[k][1], this.mX)) for k in range(len(result)))')])
contract(G + 'get_num_neighbours(f32,f32,f32,bool)', 'lat lon r inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', ensures=[('count', 'result == NRAD(this.mTree, lat, lon, r, inc, len(this.mTree.mLats))')], uses=['radius_count'])
contract(G + 'get_closest_neighbours(f32,f32,i32,bool)', 'lat lon n inc', props=['C11'], requires=['n >= 0'], throws='not VALIDLL(lat, lon, this.mTree.mType)', uses=FLU + ['near_same', 'near_range'],
    ensures=[LST, ('the nearest points', 'IS_NEAREST(FLATS(result, this.mX, len(result)), this.mTree, lat, lon, n, inc)')])
contract(G + 'get_nearest_neighbour(f32,f32,bool)', 'lat lon inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mTree.mType)', uses=FLU + ['near_some', 'near_one'],
    ensures=[('found', 'implies(inc and len(this.mTree.mLats) > 0, len(result) == 2)'), ('a grid point', 'len(result) == 0 or INGRID(result, len(this.mLats), this.mX)'), ('nearest', 'implies(len(result) > 0, ISNN(this.mTree, lat, lon, inc, FLAT(result[0], result[1], this.mX)))'),
             ('none', 'implies(len(result) == 0, NONN(this.mTree, lat, lon, inc))')])
contract(G + 'get_point(i32,i32)', 'y x', props=['C12'], requires=['0 <= y and y < len(this.mLats) and 0 <= x and x < this.mX'], reveal=['FLAT'], uses=FL,
    ensures=[('the grid point', 'result.lat == this.mLats[y][x] and result.lon == this.mLons[y][x] and result.elev == this.mElevs[y][x] and result.laf == this.mLafs[y][x] and result.type == this.mTree.mType'),
             ('coordinates', 'result.x == CX(result.lat, result.lon, result.type) and result.y == CY(result.lat, result.lon, result.type) and result.z == CZ(result.lat, result.lon, result.type)')])
contract(G + 'to_points()', '', props=['C12'], uses=FL + ['flat_mul'],
    ensures=[('tree', 'result.mTree == this.mTree'), ('coordinates', 'len(result.mLats) == len(this.mTree.mLats) and all(result.mLats[FLAT(y, x, this.mX)] == this.mLats[y][x] and result.mLons[FLAT(y, x, this.mX)] == this.mLons[y][x] for y in range(len(this.mLats)) for x in range(this.mX))'),
             ('elevations', 'all(result.mElevs[FLAT(y, x, this.mX)] == this.mElevs[y][x] for y in range(len(this.mLats)) for x in range(this.mX))'),
             ('land area fractions', 'all(result.mLafs[FLAT(y, x, this.mX)] == this.mLafs[y][x] for y in range(len(this.mLats)) for x in range(this.mX))')],
    hints=[('$c == FLAT($i, 0, $X)', {'$c': 'int*', '$i': 'int+', '$X': 'int'}), ('$c == FLAT($i, $j, $X)', {'$c': 'int*', '$i': 'int^', '$j': 'int+', '$X': 'int'})])
contract(G + 'get_box(f32,f32,i32&,i32&,i32&,i32&)', 'lat lon y1 x1 y2 x2', props=['C12'], throws='not VALIDLL(lat, lon, this.mTree.mType)', reveal=['ISBOX', 'NOBOX'],
    ensures=[('box around the point', 'implies(result, ISBOX(this, lat, lon, y1_out, x1_out, y2_out, x2_out))'), ('no box', 'implies(not result, NOBOX(this, lat, lon))')])
for n, t, b in (('vec2', 'vec<vec<f32>>', '(len(v) == 0 and len(g.mTree.mLats) == 0) or (len(v) > 0 and GSIZE(g, len(v), len(v[0])))'),
                ('vec3', 'vec<vec<vec<f32>>>', 'len(v) == 0 or (len(v[0]) == 0 and len(g.mTree.mLats) == 0) or (len(v[0]) > 0 and GSIZE(g, len(v[0]), len(v[0][0])))')):
    contract('gridpp::compatible_size(%s,%s)' % (GR, t), 'g v', props=['C24'], uses=['flat_mul'], ensures=[('same shape', 'result == (%s)' % b)])
contract('gridpp::compatible_size(%s,vec<vec<f32>>)' % PS, 'p v', props=['C24'], ensures=[('same shape', 'result == (len(v) == 0 or len(v[0]) == len(p.mLats))')])
contract('gridpp::compatible_size(%s,vec<f32>)' % PS, 'p v', props=['C24'], ensures=[('same shape', 'result == (len(v) == len(p.mLats))')])
