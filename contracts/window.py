"""src/api/window.cpp: statistics over sliding windows in time."""
from gv.spec import logic, contract, lemma
import base, util, nbh

ST = 'enum:gridpp::Statistic'
V1, V2, V3 = 'vec<f32>', 'vec<vec<f32>>', 'vec<vec<vec<f32>>>'
logic('''
def SUB(a: 'vec<f32>', s: 'int', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else push(SUB(a, s, n - 1), a[s + n - 1])

def WSTART(x: 'int', k: 'int', before: 'bool') -> 'int':
    return let(s, x - k + 1 if before else x - k // 2, s if s > 0 else 0)

def WEND(x: 'int', k: 'int', before: 'bool', n: 'int') -> 'int':
    return x if before else (x + k // 2 if x + k // 2 < n - 1 else n - 1)

def WOVER(x: 'int', k: 'int', before: 'bool', n: 'int') -> 'bool':
    return x - k + 1 < 0 if before else x - k // 2 < 0 or x + k // 2 > n - 1

@opaque
def WVALS(a: 'vec<f32>', x: 'int', k: 'int', before: 'bool') -> 'vec<f32>':
    return let(s, WSTART(x, k, before), SUB(a, s, WEND(x, k, before, len(a)) - s + 1))

@opaque
def WINDOW(z: 'f', a: 'vec<f32>', x: 'int', k: 'int', s: 'enum:gridpp::Statistic', before: 'bool', keep: 'bool', edges: 'bool') -> 'bool':
    return let(w, WVALS(a, x, k, before), z == STAT(w, s) if s == Count else isnan(z) if keep and COUNTV(w, len(w)) < len(w) else isnan(z) if edges and WOVER(x, k, before, len(a)) else MEMBER(z, w) if s == RandomChoice else z == STAT(w, s))
''')
lemma('count_ext', 'a: vec<f32>; b: vec<f32>; n: int', 'implies(all(a[k] == b[k] for k in range(n)), COUNTV(a, n) == COUNTV(b, n))', induct='n', requires=['n >= 0'])
lemma('sum_ext', 'a: vec<f32>; b: vec<f32>; n: int', 'implies(all(a[k] == b[k] for k in range(n)), SUMV(a, n) == SUMV(b, n))', induct='n', requires=['n >= 0'])
lemma('sumsq_ext', 'a: vec<f32>; b: vec<f32>; n: int', 'implies(all(a[k] == b[k] for k in range(n)), SUMSQ(a, n) == SUMSQ(b, n))', induct='n', requires=['n >= 0'])
lemma('minv_ext', 'a: vec<f32>; b: vec<f32>; n: int', 'implies(all(a[k] == b[k] for k in range(n)), MINV(a, n) == MINV(b, n))', induct='n', requires=['n >= 0'])
lemma('maxv_ext', 'a: vec<f32>; b: vec<f32>; n: int', 'implies(all(a[k] == b[k] for k in range(n)), MAXV(a, n) == MAXV(b, n))', induct='n', requires=['n >= 0'])
lemma('filter_ext', 'a: vec<f32>; b: vec<f32>; n: int', 'implies(all(a[k] == b[k] for k in range(n)), FILTERV(a, n) == FILTERV(b, n))', induct='n', requires=['n >= 0'])
EXT = 'implies(len(a) == len(b) and all(a[k] == b[k] for k in range(len(a))), %s)'
lemma('quantile_ext', 'a: vec<f32>; b: vec<f32>; q: f', EXT % 'QUANTILE(a, q) == QUANTILE(b, q)', reveal=['QUANTILE'], trigger=['QUANTILE(a, q) ;; QUANTILE(b, q)'], hints=['count_ext(a, b, len(a))', 'minv_ext(a, b, len(a))', 'maxv_ext(a, b, len(a))', 'filter_ext(a, b, len(a))'])
lemma('variance_ext', 'a: vec<f32>; b: vec<f32>', EXT % 'VARIANCE(a) == VARIANCE(b)', reveal=['VARIANCE'], hints=['count_ext(a, b, len(a))', 'sum_ext(a, b, len(a))', 'sumsq_ext(a, b, len(a))'])
lemma('stat_ext', "a: vec<f32>; b: vec<f32>; s: %s" % ST, EXT % 'STAT(a, s) == STAT(b, s)', reveal=['STAT'], trigger=['STAT(a, s) ;; STAT(b, s)'],
      hints=['count_ext(a, b, len(a))', 'sum_ext(a, b, len(a))', 'variance_ext(a, b)', 'quantile_ext(a, b, 0.0)', 'quantile_ext(a, b, 1.0)', 'quantile_ext(a, b, 0.5)'])
lemma('sub_len', 'a: vec<f32>; s: int; n: int', 'len(SUB(a, s, n)) == n', induct='n', requires=['n >= 0'], trigger=['SUB(a, s, n)'])
lemma('sub_at', 'a: vec<f32>; s: int; n: int; k: int', 'implies(0 <= k and k < n, SUB(a, s, n)[k] == a[s + k])', induct='n', requires=['n >= 0'], trigger=['SUB(a, s, n)[k]'], uses=['sub_len'])
for nm, F in (('count', 'COUNTV'), ('sum', 'SUMV')):
    lemma('sub_' + nm, 'a: vec<f32>; s: int; n: int', '%s(SUB(a, s, n), n) == %s(a, s + n) - %s(a, s)' % (F, F, F), induct='n', requires=['n >= 0', 's >= 0'], trigger=['%s(SUB(a, s, n), n)' % F],
          uses=['sub_len', 'sub_at'], hints=['%s_ext(SUB(a, s, n + 1), SUB(a, s, n), n)' % nm, '%s_ext(SUB(a, s, n), SUB(a, s, n - 1), n - 1)' % nm])
lemma('stat_simple', "a: vec<f32>; s: %s" % ST, 'implies(s == Count, STAT(a, s) == toF(COUNTV(a, len(a)))) and implies(s != Count and COUNTV(a, len(a)) == 0, isnan(STAT(a, s))) and implies(s == Sum and COUNTV(a, len(a)) > 0, STAT(a, s) == fin(SUMV(a, len(a)))) and implies(s == Mean and COUNTV(a, len(a)) > 0, STAT(a, s) == fin(SUMV(a, len(a)) / real(COUNTV(a, len(a)))))',
      trigger=['STAT(a, s)'], reveal=['STAT'], uses=['count_range'])
OK = nbh.OK
contract('gridpp::window(%s,i32,%s,bool,bool,bool)' % (V2, ST), 'a k s before keep edges', props=['C05'], requires=['rect2(a)'], fp=1e-5,
    gen=lambda g: {'a': g.vec2(e=lambda: nbh.mv(g)), 'k': g.choice(1, 1, 2, 3, 3, 4, 5, 7, 0, -1)},
    bounded='generated arrays', crash_ok=True,
    throws='k <= 0 or (nx(a) > 0 and ((k %% 2 == 0 and not before) or not %s))' % OK,
    ensures=[('shape', 'len(result) == len(a) and all(len(result[y]) == nx(a) for y in range(len(a)))'),
             ('statistic of the window', 'all(WINDOW(result[y][x], a[y], x, k, s, before, keep, edges) for y in range(len(a)) for x in range(len(a[y])))')],
    hints=[('all(valid($v[k]) and val($v[k]) == SUMV(a[$y], k + 1) for k in range($x))', {'$v': 'vec<f32>*', '$y': 'int^', '$x': 'int+#'}),
           ('all(valid($v[k]) and val($v[k]) == real(COUNTV(a[$y], k + 1)) for k in range($x))', {'$v': 'vec<f32>*', '$y': 'int^', '$x': 'int+#'}),
           ('all(WINDOW($o[$y][j], a[$y], j, k, s, before, keep, edges) for j in range($x))', {'$o': 'vec<vec<f32>>*', '$y': 'int^', '$x': 'int+#'}),
           ('all($v[k] == a[$y][$s + k] for k in range($i - $s))', {'$v': 'vec<f32>*', '$y': 'int^', '$s': 'int', '$i': 'int+#'}),
           ('$c == $i - $s - COUNTV(a[$y], $i) + COUNTV(a[$y], $s)', {'$c': 'int*', '$y': 'int^', '$s': 'int', '$i': 'int+#'})],
    uses=['sub_len', 'sub_at', 'stat_ext', 'sub_count', 'sub_sum', 'count_range', 'stat_simple'], reveal=['WINDOW', 'WVALS'])
