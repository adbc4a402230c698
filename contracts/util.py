"""src/api/util.cpp: quantiles and statistics of lists, index lookup, interpolation, dimension tests, initialisers."""
from gv.spec import logic, contract, lemma, uninterp
import base

logic('''
def SORTED(v: 'vec<f32>') -> 'bool':
    return all(valid(v[i]) for i in range(len(v))) and all(v[i] <= v[j] for i in range(len(v)) for j in range(i, len(v)))

def IS_LOW(x: 'f', v: 'vec<f32>', i: 'int') -> 'bool':
    return 0 <= i and i < len(v) and v[i] <= x and all(v[k] < x for k in range(i)) and implies(v[i] < x, all(v[k] > x for k in range(i + 1, len(v))))

def IS_UP(x: 'f', v: 'vec<f32>', i: 'int') -> 'bool':
    return 0 <= i and i < len(v) and v[i] >= x and all(v[k] > x for k in range(i + 1, len(v))) and implies(v[i] > x, all(v[k] < x for k in range(i)))

def SEG(x: 'f', a: 'vec<f32>', b: 'vec<f32>', i: 'int', j: 'int') -> 'f':
    return (b[i] + (b[j] - b[i]) * (x - a[i]) / (a[j] - a[i]) if a[i] != a[j] else
            (b[j] if i == 0 and j != len(a) - 1 else (b[i] if i != 0 and j == len(a) - 1 else (b[i] + b[j]) / 2)))

@opaque
def IS_INTERP(r: 'f', x: 'f', a: 'vec<f32>', b: 'vec<f32>') -> 'bool':
    return (isnan(r) if not valid(x) or len(a) == 0 else
            r == b[len(a) - 1] if x > a[len(a) - 1] else
            r == b[0] if x < a[0] else
            all(implies(IS_LOW(x, a, i) and IS_UP(x, a, j), r == SEG(x, a, b, i, j)) for i in range(len(a)) for j in range(len(a))))

def NMISS1(a: 'vec<f32>', n: 'int') -> 'int':
    return 0 if n <= 0 else NMISS1(a, n - 1) + (0 if valid(a[n - 1]) else 1)

def NMISS2(a: 'vec<vec<f32>>', n: 'int') -> 'int':
    return 0 if n <= 0 else NMISS2(a, n - 1) + NMISS1(a[n - 1], len(a[n - 1]))
''')

contract('gridpp::calc_quantile(vec<vec<f32>>,f32)', 'a q', props=['C02'],
    throws='len(a) > 0 and (q < 0 or q > 1)',
    ensures=[('each row', 'len(result) == len(a) and all(result[i] == QUANTILE(a[i], q) for i in range(len(a)))')])

contract('gridpp::calc_quantile(vec<vec<vec<f32>>>,vec<vec<f32>>)', 'a q', props=['C02'],
    requires=['rect3(a)', 'rect2(q)'],
    throws='len(a) != len(q) or nx3(a) != nx(q) or any(len(a[y][x]) > 0 and (q[y][x] < 0 or q[y][x] > 1) for y in range(len(a)) for x in range(len(a[y])))',
    ensures=[('each cell', 'implies(nx3(a) > 0, len(result) == len(a)) and all(len(result[y]) == len(a[y]) for y in range(len(result))) and all(result[y][x] == QUANTILE(a[y][x], q[y][x]) for y in range(len(result)) for x in range(len(result[y])))')],
    uses=['quantile_empty'],
    gen=lambda g: dict(q=g.vec2(e=g.q)))

contract('gridpp::calc_statistic(vec<vec<f32>>,enum:gridpp::Statistic)', 'a s', props=['C01'],
    throws='len(a) > 0 and not (s == Mean or s == Sum or s == Count or s == Std or s == Variance or s == RandomChoice or s == Min or s == Median or s == Max)',
    ensures=[('each row', 'len(result) == len(a) and implies(s != RandomChoice, all(result[i] == STAT(a[i], s) for i in range(len(a))))')])

contract('gridpp::num_missing_values(vec<vec<f32>>)', 'a', props=['C01'],
    ensures=[('count', 'result == NMISS2(a, len(a))')],
    hints=[('$c == NMISS2(a, $i)', {'$c': 'int*', '$i': 'int+'}), ('$c == NMISS2(a, $i) + NMISS1(a[$i], $j)', {'$c': 'int*', '$i': 'int+', '$j': 'int+'}), ('$c == $0c + NMISS1(a[$i], $j)', {'$c': 'int*', '$i': 'int+', '$j': 'int+'})])

contract('gridpp::get_lower_index(f32,vec<f32>)', 'x v', props=['C06'],
    ensures=[('safe', '-1 <= result and result < len(v) and implies(0 <= result, valid(v[result]) and v[result] <= x)'),
             ('found', 'implies(len(v) > 0 and v[0] <= x and valid(v[0]), 0 <= result and result < len(v))'),
             ('below', 'implies(SORTED(v) and len(v) > 0 and v[0] <= x, IS_LOW(x, v, result))')],
    hints=[('implies(SORTED(v) and not isnan(x), all(v[k] < x for k in range($i)))', {'$i': 'int+'}),
           ('implies(SORTED(v) and not isnan(x) and $i > 0, $r == $i - 1)', {'$r': 'int*', '$i': 'int+'}),
           ('implies($i > 0 and v[0] <= x and valid(v[0]), 0 <= $r and $r < $i)', {'$r': 'int*', '$i': 'int+'}),
           ('-1 <= $r and $r < len(v) and implies(0 <= $r, valid(v[$r]) and v[$r] <= x)', {'$r': 'int*'})])

contract('gridpp::get_upper_index(f32,vec<f32>)', 'x v', props=['C06'],
    ensures=[('safe', '-1 <= result and result < len(v) and implies(0 <= result, valid(v[result]) and v[result] >= x)'),
             ('found', 'implies(len(v) > 0 and v[len(v) - 1] >= x and valid(v[len(v) - 1]), 0 <= result and result < len(v))'),
             ('above', 'implies(SORTED(v) and len(v) > 0 and v[len(v) - 1] >= x, IS_UP(x, v, result))')],
    hints=[('implies(SORTED(v) and not isnan(x), all(v[k] > x for k in range($i + 1, len(v))))', {'$i': 'int+'}),
           ('implies(SORTED(v) and not isnan(x) and $i < len(v) - 1, $r == $i + 1)', {'$r': 'int*', '$i': 'int+'}),
           ('implies($i < len(v) - 1 and v[len(v) - 1] >= x and valid(v[len(v) - 1]), $i < $r and $r < len(v))', {'$r': 'int*', '$i': 'int+'}),
           ('-1 <= $r and $r < len(v) and implies(0 <= $r, valid(v[$r]) and v[$r] >= x)', {'$r': 'int*'}),
           ('-1 <= $i and $i < len(v)', {'$i': 'int+'})])

contract('gridpp::interpolate(f32,vec<f32>,vec<f32>)', 'x a b', props=['C06'],
    throws='valid(x) and len(a) != len(b)',
    ensures=[('piecewise linear', 'implies(SORTED(a), IS_INTERP(result, x, a, b))')], reveal=['IS_INTERP'],
    gen=lambda g: dict(a=g.sorted(nanp=g.choice(0, 0, 0, .2)), b=g.vec()))

contract('gridpp::interpolate(vec<f32>,vec<f32>,vec<f32>)', 'x a b', props=['C06'],
    throws='len(a) != len(b)',
    ensures=[('each value', 'len(result) == len(x) and implies(SORTED(a), all(IS_INTERP(result[i], x[i], a, b) for i in range(len(x))))')],
    gen=lambda g: dict(a=g.sorted(nanp=g.choice(0, 0, 0, .2)), b=g.vec()))

contract('gridpp::compatible_size(vec<vec<f32>>,vec<vec<f32>>)', 'a b', props=['C24'],
    ensures=[('same shape', 'result == (len(a) == len(b) and all(len(a[i]) == len(b[i]) for i in range(len(a))))')],
    hints=[('all(len(a[k]) == len(b[k]) for k in range($i))', {'$i': 'int+'})])
contract('gridpp::compatible_size(vec<vec<f32>>,vec<vec<vec<f32>>>)', 'a b', props=['C24'],
    requires=['rect2(a)', 'rect3(b)'],
    ensures=[('same shape', 'result == (len(a) == len(b) and nx(a) == nx3(b))')])
contract('gridpp::compatible_size(vec<vec<vec<f32>>>,vec<vec<vec<f32>>>)', 'a b', props=['C24'],
    ensures=[('same shape', 'result == (len(a) == len(b) and all(len(a[i]) == len(b[i]) for i in range(len(a))) and all(len(a[i][j]) == len(b[i][j]) for i in range(len(a)) for j in range(len(a[i]))))')],
    hints=[('all(len(a[k]) == len(b[k]) for k in range($i))', {'$i': 'int+'}),
           ('all(len(a[k][l]) == len(b[k][l]) for k in range($i) for l in range(len(a[k])))', {'$i': 'int+'}),
           ('all(len(a[$i][l]) == len(b[$i][l]) for l in range($j))', {'$i': 'int+', '$j': 'int+'})])

for nm, t, v in (('init_vec2', 'vec<vec<f32>>', 'f32'), ('init_ivec2', 'vec<vec<i32>>', 'i32')):
    contract('gridpp::%s(i32,i32,%s)' % (nm, v), 'ny nx v', props=['C26'], requires=['ny >= 0', 'nx >= 0'],
        ensures=[('filled', 'len(result) == ny and all(len(result[y]) == nx for y in range(ny)) and all(result[y][x] == v for y in range(ny) for x in range(nx))')])
for nm, t, v in (('init_vec3', 'vec<vec<vec<f32>>>', 'f32'), ('init_ivec3', 'vec<vec<vec<i32>>>', 'i32')):
    contract('gridpp::%s(i32,i32,i32,%s)' % (nm, v), 'ny nx nt v', props=['C26'], requires=['ny >= 0', 'nx >= 0', 'nt >= 0'],
        ensures=[('filled', 'len(result) == ny and all(len(result[y]) == nx for y in range(ny)) and all(len(result[y][x]) == nt for y in range(ny) for x in range(nx)) and all(result[y][x][t] == v for y in range(ny) for x in range(nx) for t in range(nt))')])

contract('gridpp::is_valid_lat(f32,enum:gridpp::CoordinateType)', 'x t', props=['C11'],
    ensures=[('range', 'result == (valid(x) and (t == Cartesian or (x >= -90.001 and x <= 90.001)))')])
contract('gridpp::is_valid_lon(f32,enum:gridpp::CoordinateType)', 'x t', props=['C11'], ensures=[('finite', 'result == valid(x)')])
contract('gridpp::clock()', '', trusted='reads the system clock', search=False)
