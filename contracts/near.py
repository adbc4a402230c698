"""src/api/nearest.cpp: nearest neighbour interpolation."""
from gv.spec import logic, contract, lemma
import base, util, geo, points
from geo import PS, GR
from points import FL

logic('''
@opaque
def NEARP(r: 'f', p: 'rec:gridpp::Points', v: 'vec<f32>', lat: 'f', lon: 'f') -> 'bool':
    return any(ISNN(p.mTree, lat, lon, True, j) and r == v[j] for j in range(len(p.mLats)))

@opaque
def NEARG(r: 'f', g: 'rec:gridpp::Grid', v: 'vec<vec<f32>>', lat: 'f', lon: 'f') -> 'bool':
    return any(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and r == v[y][x] for y in range(len(g.mLats)) for x in range(g.mX))
''')
lemma('nearp', 'p: %s; v: vec<f32>; lat: f; lon: f; j: int' % PS, 'implies(ISNN(p.mTree, lat, lon, True, j) and 0 <= j and j < len(p.mLats), NEARP(v[j], p, v, lat, lon))', trigger=['NEARP(v[j], p, v, lat, lon)'], reveal=['NEARP'])
lemma('nearg', 'g: %s; v: vec<vec<f32>>; lat: f; lon: f; y: int; x: int' % GR, 'implies(ISNN(g.mTree, lat, lon, True, FLAT(y, x, g.mX)) and 0 <= y and y < len(g.mLats) and 0 <= x and x < g.mX, NEARG(v[y][x], g, v, lat, lon))',
      trigger=['NEARG(v[y][x], g, v, lat, lon)'], reveal=['NEARG'])
N = 'gridpp::nearest('
V1, V2, V3 = 'vec<f32>', 'vec<vec<f32>>', 'vec<vec<vec<f32>>>'
GCOMP2 = '(len(v) == 0 and len(g.mTree.mLats) == 0) or (len(v) > 0 and GSIZE(g, len(v), len(v[0])))'
GCOMP3 = 'len(v) == 0 or (len(v[0]) == 0 and len(g.mTree.mLats) == 0) or (len(v[0]) > 0 and GSIZE(g, len(v[0]), len(v[0][0])))'
PCOMP2 = 'len(v) == 0 or len(v[0]) == len(p.mLats)'
OG = 'len(result) == len(o.mLats) and all(len(result[y]) == o.mX for y in range(len(o.mLats)))'
NO_G, NO_P = 'len(g.mTree.mLats) == 0', 'len(p.mLats) == 0'
U = ['nearp', 'nearg', 'flat_mul'] + FL
SAME = '%s.mTree.mType == o.mTree.mType'
contract(N + '%s,%s,%s)' % (GR, GR, V2), 'g o v', props=['C08'], requires=['rect2(v)', SAME % 'g'], throws='not (%s)' % GCOMP2, uses=U,
    ensures=[('shape', OG), ('nearest grid point', 'all(isnan(result[y][x]) if %s else NEARG(result[y][x], g, v, o.mLats[y][x], o.mLons[y][x]) for y in range(len(o.mLats)) for x in range(o.mX))' % NO_G)])
contract(N + '%s,%s,%s)' % (PS, GR, V1), 'p o v', props=['C08'], requires=[SAME % 'p'], throws='len(p.mLats) != len(v)', uses=U,
    ensures=[('shape', OG), ('nearest point', 'all(isnan(result[y][x]) if %s else NEARP(result[y][x], p, v, o.mLats[y][x], o.mLons[y][x]) for y in range(len(o.mLats)) for x in range(o.mX))' % NO_P)])
contract(N + '%s,%s,%s)' % (GR, PS, V2), 'g o v', props=['C08'], requires=['rect2(v)', SAME % 'g'], throws='not (%s)' % GCOMP2, uses=U,
    ensures=[('size', 'len(result) == len(o.mLats)'), ('nearest grid point', 'all(isnan(result[i]) if %s else NEARG(result[i], g, v, o.mLats[i], o.mLons[i]) for i in range(len(o.mLats)))' % NO_G)])
contract(N + '%s,%s,%s)' % (PS, PS, V1), 'p o v', props=['C08'], requires=[SAME % 'p'], throws='len(p.mLats) != len(v)', uses=U,
    ensures=[('size', 'len(result) == len(o.mLats)'), ('nearest point', 'all(isnan(result[i]) if %s else NEARP(result[i], p, v, o.mLats[i], o.mLons[i]) for i in range(len(o.mLats)))' % NO_P)])
contract(N + '%s,%s,%s)' % (GR, GR, V3), 'g o v', props=['C08'], gen=lambda g: {'v': g.vec3(g.nt, g.ny, g.nx)}, requires=['rect3(v)', SAME % 'g'], throws='not (%s)' % GCOMP3, uses=U,
    ensures=[('shape', 'len(result) == len(v) and all(len(result[t]) == len(o.mLats) for t in range(len(v))) and all(len(result[t][y]) == o.mX for t in range(len(v)) for y in range(len(o.mLats)))'),
             ('nearest grid point', 'all(isnan(result[t][y][x]) if %s else NEARG(result[t][y][x], g, v[t], o.mLats[y][x], o.mLons[y][x]) for t in range(len(v)) for y in range(len(o.mLats)) for x in range(o.mX))' % NO_G)],
    hints=[('all(implies(y < $i or (y == $i and x < $j), 0 <= $I[y][x] and $I[y][x] < len(g.mLats) and 0 <= $J[y][x] and $J[y][x] < g.mX and ISNN(g.mTree, o.mLats[y][x], o.mLons[y][x], True, FLAT($I[y][x], $J[y][x], g.mX))) for y in range(len(o.mLats)) for x in range(o.mX))',
            {'$I': 'vec<vec<i32>>*', '$J': 'vec<vec<i32>>*', '$i': 'int^', '$j': 'int+'}),
           ('all(implies(y < $i, 0 <= $I[y][x] and $I[y][x] < len(g.mLats) and 0 <= $J[y][x] and $J[y][x] < g.mX and ISNN(g.mTree, o.mLats[y][x], o.mLons[y][x], True, FLAT($I[y][x], $J[y][x], g.mX))) for y in range(len(o.mLats)) for x in range(o.mX))',
            {'$I': 'vec<vec<i32>>*', '$J': 'vec<vec<i32>>*', '$i': 'int+'})])
contract(N + '%s,%s,%s)' % (PS, GR, V2), 'p o v', props=['C08'], gen=lambda g: {'v': g.vec2(g.nt, g.n)}, requires=['rect2(v)', SAME % 'p'], throws='not (%s)' % PCOMP2, uses=U,
    ensures=[('shape', 'len(result) == len(v) and all(len(result[t]) == len(o.mLats) for t in range(len(v))) and all(len(result[t][y]) == o.mX for t in range(len(v)) for y in range(len(o.mLats)))'),
             ('nearest point', 'all(isnan(result[t][y][x]) if %s else NEARP(result[t][y][x], p, v[t], o.mLats[y][x], o.mLons[y][x]) for t in range(len(v)) for y in range(len(o.mLats)) for x in range(o.mX))' % NO_P)])
contract(N + '%s,%s,%s)' % (GR, PS, V3), 'g o v', props=['C08'], gen=lambda g: {'v': g.vec3(g.nt, g.ny, g.nx)}, requires=['rect3(v)', SAME % 'g'], throws='not (%s)' % GCOMP3, uses=U,
    ensures=[('shape', 'len(result) == len(v) and all(len(result[t]) == len(o.mLats) for t in range(len(v)))'),
             ('nearest grid point', 'all(isnan(result[t][i]) if %s else NEARG(result[t][i], g, v[t], o.mLats[i], o.mLons[i]) for t in range(len(v)) for i in range(len(o.mLats)))' % NO_G)],
    hints=[('all(0 <= $I[y] and $I[y] < len(g.mLats) and 0 <= $J[y] and $J[y] < g.mX and ISNN(g.mTree, o.mLats[y], o.mLons[y], True, FLAT($I[y], $J[y], g.mX)) for y in range($i))', {'$I': 'vec<i32>*', '$J': 'vec<i32>*', '$i': 'int+'})])
contract(N + '%s,%s,%s)' % (PS, PS, V2), 'p o v', props=['C08'], gen=lambda g: {'v': g.vec2(g.nt, g.n)}, requires=['rect2(v)', SAME % 'p'], throws='not (%s)' % PCOMP2, uses=U,
    ensures=[('shape', 'len(result) == len(v) and all(len(result[t]) == len(o.mLats) for t in range(len(v)))'),
             ('nearest point', 'all(isnan(result[t][i]) if %s else NEARP(result[t][i], p, v[t], o.mLats[i], o.mLons[i]) for t in range(len(v)) for i in range(len(o.mLats)))' % NO_P)])
