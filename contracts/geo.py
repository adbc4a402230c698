"""src/api/kdtree.cpp, point.cpp, points.cpp, grid.cpp and the coordinate functions of util.cpp."""
from gv.spec import logic, contract, lemma, uninterp, invariant
import base, util

KT, PT, PS, GR = 'rec:gridpp::KDTree', 'rec:gridpp::Point', 'rec:gridpp::Points', 'rec:gridpp::Grid'
BP = 'rec:boost::geometry::model::point'
CT = 'enum:gridpp::CoordinateType'
logic('''
def DIST2(p: 'rec:boost::geometry::model::point', q: 'rec:boost::geometry::model::point') -> 'f':
    return SQD(p.x, p.y, p.z, q.x, q.y, q.z)

@opaque
def SQD(a: 'f', b: 'f', c: 'f', x: 'f', y: 'f', z: 'f') -> 'f':
    return (a - x) * (a - x) + (b - y) * (b - y) + (c - z) * (c - z)

@opaque
def SDIST(a: 'f', b: 'f', c: 'f', x: 'f', y: 'f', z: 'f') -> 'f':
    return fsqrt((a - x) * (a - x) + (b - y) * (b - y) + (c - z) * (c - z))

def VALIDLL(lat: 'f', lon: 'f', t: 'enum:gridpp::CoordinateType') -> 'bool':
    return valid(lat) and valid(lon) and (t == Cartesian or (lat >= -90.001 and lat <= 90.001))

@opaque
def CX(lat: 'f', lon: 'f', t: 'enum:gridpp::CoordinateType') -> 'f':
    return lon if t == Cartesian else fcos(PI / 180 * lat) * fcos(PI / 180 * lon) * 6378137.0

@opaque
def CY(lat: 'f', lon: 'f', t: 'enum:gridpp::CoordinateType') -> 'f':
    return lat if t == Cartesian else fcos(PI / 180 * lat) * fsin(PI / 180 * lon) * 6378137.0

@opaque
def CZ(lat: 'f', lon: 'f', t: 'enum:gridpp::CoordinateType') -> 'f':
    return 0.0 if t == Cartesian else fsin(PI / 180 * lat) * 6378137.0

def RAD(x: 'f') -> 'f':
    return x * PI / 180

def CLAMP1(x: 'f') -> 'f':
    return 1.0 if x > 1 else (-1.0 if x < -1 else x)

@opaque
def GDIST(a: 'f', b: 'f', c: 'f', d: 'f', t: 'enum:gridpp::CoordinateType') -> 'f':
    return (fsqrt((b - d) * (b - d) + (a - c) * (a - c)) if t == Cartesian else (0.0 if feq(a, c) and feq(b, d) else
           facos(CLAMP1(fcos(RAD(a)) * fcos(RAD(b)) * fcos(RAD(c)) * fcos(RAD(d)) + fcos(RAD(a)) * fsin(RAD(b)) * fcos(RAD(c)) * fsin(RAD(d)) + fsin(RAD(a)) * fsin(RAD(c)))) * 6378137.0))

def TREEOK(t: 'rec:gridpp::KDTree') -> 'bool':
    return ((t.mType == Geodetic or t.mType == Cartesian) and len(t.mLons) == len(t.mLats) and len(t.mX) == len(t.mLats) and len(t.mY) == len(t.mLats) and len(t.mZ) == len(t.mLats) and len(t.mTree) == len(t.mLats) and
        all(t.mTree[i].second == i and t.mTree[i].first.x == t.mX[i] and t.mTree[i].first.y == t.mY[i] and t.mTree[i].first.z == t.mZ[i] for i in range(len(t.mLats))) and
        all(VALIDLL(t.mLats[i], t.mLons[i], t.mType) and t.mX[i] == CX(t.mLats[i], t.mLons[i], t.mType) and t.mY[i] == CY(t.mLats[i], t.mLons[i], t.mType) and t.mZ[i] == CZ(t.mLats[i], t.mLons[i], t.mType)
            for i in range(len(t.mLats))))

def TDIST(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', j: 'int') -> 'f':
    return SDIST(t.mX[j], t.mY[j], t.mZ[j], CX(lat, lon, t.mType), CY(lat, lon, t.mType), CZ(lat, lon, t.mType))

def BETWEEN(v: 'f', c: 'f', r: 'f') -> 'bool':
    return c - r < v and v < c + r

def INRAD(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', r: 'f', inc: 'bool', j: 'int') -> 'bool':
    return (TDIST(t, lat, lon, j) <= r and (inc or TDIST(t, lat, lon, j) > 0) and BETWEEN(t.mX[j], CX(lat, lon, t.mType), r) and BETWEEN(t.mY[j], CY(lat, lon, t.mType), r) and
        BETWEEN(t.mZ[j], CZ(lat, lon, t.mType), r))

def QDIST(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', j: 'int') -> 'f':
    return SDIST(CX(lat, lon, t.mType), CY(lat, lon, t.mType), CZ(lat, lon, t.mType), t.mX[j], t.mY[j], t.mZ[j])

def NRAD(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', r: 'f', inc: 'bool', n: 'int') -> 'int':
    return 0 if n <= 0 else NRAD(t, lat, lon, r, inc, n - 1) + (1 if INRAD(t, lat, lon, r, inc, n - 1) else 0)

def DISTINCT(v: 'vec<i32>') -> 'bool':
    return all(implies(a != b, v[a] != v[b]) for a in range(len(v)) for b in range(len(v)))

@opaque
def IS_RADIUS_SEARCH(res: 'vec<i32>', t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', r: 'f', inc: 'bool') -> 'bool':
    return (len(res) <= len(t.mLats) and DISTINCT(res) and all(0 <= res[k] and res[k] < len(t.mLats) and INRAD(t, lat, lon, r, inc, res[k]) for k in range(len(res))) and
            all(implies(INRAD(t, lat, lon, r, inc, j), any(res[k] == j for k in range(len(res)))) for j in range(len(t.mLats))))

def MATCHES(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', j: 'int') -> 'bool':
    return feq(t.mX[j], CX(lat, lon, t.mType)) and feq(t.mY[j], CY(lat, lon, t.mType)) and feq(t.mZ[j], CZ(lat, lon, t.mType))

def D2(t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', j: 'int') -> 'f':
    return SQD(CX(lat, lon, t.mType), CY(lat, lon, t.mType), CZ(lat, lon, t.mType), t.mX[j], t.mY[j], t.mZ[j])

@opaque
def IS_NEAREST(res: 'vec<i32>', t: 'rec:gridpp::KDTree', lat: 'f', lon: 'f', n: 'int', inc: 'bool') -> 'bool':
    return (len(res) <= n and len(res) <= len(t.mLats) and DISTINCT(res) and all(0 <= res[k] and res[k] < len(t.mLats) and (inc or not MATCHES(t, lat, lon, res[k])) for k in range(len(res))) and
            all(implies(inc or not MATCHES(t, lat, lon, j), any(res[k] == j for k in range(len(res))) or (len(res) == n and all(D2(t, lat, lon, res[k]) <= D2(t, lat, lon, j) for k in range(len(res))))) for j in range(len(t.mLats))))
'''.replace('PI', '3.14159265358979323846'))

lemma('coord_fin', 'lat: f; lon: f; t: %s' % CT, 'implies(valid(lat) and valid(lon), valid(CX(lat, lon, t)) and valid(CY(lat, lon, t)) and valid(CZ(lat, lon, t)))',
      trigger=['CX(lat, lon, t)'], uses=['cos_fin', 'sin_fin'], reveal=['CX', 'CY', 'CZ'])
lemma('sdist_box', 'a: f; b: f; c: f; x: f; y: f; z: f',
      'implies(valid(a) and valid(b) and valid(c) and valid(x) and valid(y) and valid(z), let(s, SDIST(a, b, c, x, y, z), valid(s) and val(s) >= 0 and val(x) - val(s) <= val(a) and val(a) <= val(x) + val(s) and val(y) - val(s) <= val(b) and val(b) <= val(y) + val(s) and val(z) - val(s) <= val(c) and val(c) <= val(z) + val(s)))',
      trigger=['SDIST(a, b, c, x, y, z)'], uses=['sqrt_fin'], reveal=['SDIST'])

# a list without duplicates that holds exactly the members of a finite set has as many elements as the set
lemma('radius_count', "res: vec<i32>; t: rec:gridpp::KDTree; lat: f; lon: f; r: f; inc: bool", 'implies(IS_RADIUS_SEARCH(res, t, lat, lon, r, inc), len(res) == NRAD(t, lat, lon, r, inc, len(t.mLats)))',
      trigger=['IS_RADIUS_SEARCH(res, t, lat, lon, r, inc)'], trusted='cardinality of a finite set')

invariant('gridpp::KDTree', 'TREEOK(o)')
K = 'gridpp::KDTree::'
PV = 'vec<pair<%s,u32>>' % BP
COPYSECOND = [('len($r) == $i and all($r[k] == $s[k].second for k in range($i))', {'$r': 'vec<i32>*', '$s': PV, '$i': 'int+'})]
contract('gridpp::convert_coordinates(f32,f32,%s,f32&,f32&,f32&)' % CT, 'lat lon t x y z', props=['C11'], throws='not VALIDLL(lat, lon, t)', reveal=['CX', 'CY', 'CZ'], sym=True,
    ensures=[('true', 'result'), ('cartesian', 'x_out == CX(lat, lon, t) and y_out == CY(lat, lon, t) and z_out == CZ(lat, lon, t)')])
contract('gridpp::convert_coordinates(vec<f32>,vec<f32>,%s,vec<f32>&,vec<f32>&,vec<f32>&)' % CT, 'lat lon t x y z', props=['C11'], requires=['len(lon) >= len(lat)'],
    throws='any(not VALIDLL(lat[i], lon[i], t) for i in range(len(lat)))',
    ensures=[('sizes', 'len(x_out) == len(lat) and len(y_out) == len(lat) and len(z_out) == len(lat)'),
             ('each x', 'all(x_out[i] == CX(lat[i], lon[i], t) for i in range(len(lat)))'), ('each y', 'all(y_out[i] == CY(lat[i], lon[i], t) for i in range(len(lat)))'), ('each z', 'all(z_out[i] == CZ(lat[i], lon[i], t) for i in range(len(lat)))')])
contract(K + 'KDTree(vec<f32>,vec<f32>,%s)' % CT, 'lats lons t', props=['C11'], requires=['t == Geodetic or t == Cartesian'], throws='len(lats) != len(lons) or any(not VALIDLL(lats[i], lons[i], t) for i in range(len(lats)))',
    ensures=[('contents', 'result.mLats == lats and result.mLons == lons and result.mType == t')],
    hints=[('len($t) == $i and all($t[k].second == k and $t[k].first.x == $x[k] and $t[k].first.y == $y[k] and $t[k].first.z == $z[k] for k in range($i))', {'$t': PV + '*', '$i': 'int+', '$x': 'vec<f32>.mX', '$y': 'vec<f32>.mY', '$z': 'vec<f32>.mZ'})])
contract(K + 'KDTree(%s)' % KT, 'other', props=['C11'], ensures=[('copy', 'result == other')])
contract(K + 'KDTree(%s)' % CT, 't', props=['C11'], requires=['t == Geodetic or t == Cartesian'], ensures=[('empty', 'len(result.mLats) == 0 and result.mType == t')])
contract(K + 'operator=(%s)' % KT, 'other', props=['C11'], ensures=[('assigned', 'this_out == other')])
contract(K + 'within_radius::operator()(pair<%s,u32>)' % BP, 'v', props=['C11'], reveal=['SDIST'],
    ensures=[('test', 'result == (SDIST(v.first.x, v.first.y, v.first.z, this.p.x, this.p.y, this.p.z) <= this.radius and (this.include_match or SDIST(v.first.x, v.first.y, v.first.z, this.p.x, this.p.y, this.p.z) > 0))')])
contract(K + 'is_not_equal::operator()(pair<%s,u32>)' % BP, 'v', props=['C11'],
    ensures=[('test', 'result == (not (feq(v.first.x, this.p.x) and feq(v.first.y, this.p.y) and feq(v.first.z, this.p.z)))')])
contract(K + 'calc_straight_distance(f32,f32,f32,f32,f32,f32)', 'a b c x y z', static=True, props=['C11'], reveal=['SDIST'], sym=True, ensures=[('euclidean', 'result == SDIST(a, b, c, x, y, z)')])
contract(K + 'get_neighbours(f32,f32,f32,bool)', 'lat lon r inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mType)', uses=['sdist_box', 'coord_fin'],
    ensures=[('exactly the points within the radius', 'IS_RADIUS_SEARCH(result, this, lat, lon, r, inc)')], hints=COPYSECOND, reveal=['IS_RADIUS_SEARCH'])
contract(K + 'get_neighbours_with_distance(f32,f32,f32,vec<f32>&,bool)', 'lat lon r dist inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mType)',
    ensures=[('exactly the points within the radius', 'IS_RADIUS_SEARCH(result, this, lat, lon, r, inc)'),
             ('distances', 'len(dist_out) == len(result) and all(dist_out[k] == QDIST(this, lat, lon, result[k]) for k in range(len(result)))')],
    hints=[('all($d[k] == QDIST(this, lat, lon, $r[k]) for k in range($i))', {'$d': 'vec<f32>*', '$r': 'vec<i32>', '$i': 'int+'})], reveal=['IS_RADIUS_SEARCH'])
contract(K + 'get_num_neighbours(f32,f32,f32,bool)', 'lat lon r inc', props=['C11'], throws='not VALIDLL(lat, lon, this.mType)',
    ensures=[('count', 'result == NRAD(this, lat, lon, r, inc, len(this.mLats))')], uses=['radius_count'])
contract(K + 'get_closest_neighbours(f32,f32,i32,bool)', 'lat lon n inc', props=['C11'], requires=['n >= 0'], throws='not VALIDLL(lat, lon, this.mType)', uses=['coord_fin'],
    ensures=[('the nearest points', 'IS_NEAREST(result, this, lat, lon, n, inc)')], hints=COPYSECOND, reveal=['IS_NEAREST'])
