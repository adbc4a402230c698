"""Logic functions, math axioms and contracts of the general utilities (src/api/util.cpp)."""
import math
from gv.spec import logic, contract, lemma, uninterp

V, V2, V3 = 'vec<f32>', 'vec<vec<f32>>', 'vec<vec<vec<f32>>>'
IV, IV2 = 'vec<i32>', 'vec<vec<i32>>'
ST = 'enum:gridpp::Statistic'


def fl(fn):
    def g(*xs):
        try:
            return fn(*xs)
        except (ValueError, ZeroDivisionError):
            return math.nan
        except OverflowError:
            return math.inf
    return g


# ---- external mathematical functions: uninterpreted, with the axioms stated below (trusted)
def _exp(x):
    return math.exp(x) if not math.isnan(x) else x


for name, impl in (('fexp', _exp), ('flog', lambda x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)),
                   ('fsqrt', math.sqrt), ('fsin', math.sin), ('fcos', math.cos), ('facos', math.acos), ('fasin', math.asin),
                   ('ftan', math.tan), ('fatan', math.atan), ('flog10', math.log10)):
    uninterp(name, ['f'], 'f', fl(impl))
uninterp('fpow', ['f', 'f'], 'f', fl(lambda x, a: math.inf if x == 0 and a < 0 else math.pow(x, a)))
uninterp('fatan2', ['f', 'f'], 'f', fl(math.atan2))
uninterp('ffmod', ['f', 'f'], 'f', fl(math.fmod))
uninterp('sortv', [V], V, sorted)

T = dict(trusted='sortv')
lemma('sort_len', 'a: vec<f32>', 'len(sortv(a)) == len(a)', trigger=['sortv(a)'], trusted='sortv')
lemma('sort_le', 'a: vec<f32>; i: int; j: int', 'sortv(a)[i] <= sortv(a)[j]',
      requires=['0 <= i and i <= j and j < len(a)', 'all(not isnan(a[k]) for k in range(len(a)))'],
      trigger=['sortv(a)[i] ;; sortv(a)[j]'], trusted='sortv')
lemma('sort_valid', 'a: vec<f32>; i: int', 'valid(sortv(a)[i])',
      requires=['0 <= i and i < len(a)', 'all(valid(a[k]) for k in range(len(a)))'], trigger=['sortv(a)[i]'], trusted='sortv')

lemma('exp_fin', 'x: f', 'implies(valid(x), valid(fexp(x)) and val(fexp(x)) > 0) and implies(isnan(x), isnan(fexp(x)))', trigger=['fexp(x)'], trusted='fexp')
lemma('exp_zero', '', 'fexp(0.0) == 1.0', trusted='fexp')
lemma('exp_mono', 'x: f; y: f', 'implies(valid(x) and valid(y) and val(x) <= val(y), val(fexp(x)) <= val(fexp(y)))', trigger=['fexp(x) ;; fexp(y)'], trusted='fexp')
lemma('cos_fin', 'x: f', 'implies(valid(x), valid(fcos(x)) and -1 <= val(fcos(x)) and val(fcos(x)) <= 1) and implies(isnan(x), isnan(fcos(x)))', trigger=['fcos(x)'], trusted='fcos')
lemma('sin_fin', 'x: f', 'implies(valid(x), valid(fsin(x)) and -1 <= val(fsin(x)) and val(fsin(x)) <= 1) and implies(isnan(x), isnan(fsin(x)))', trigger=['fsin(x)'], trusted='fsin')
lemma('sqrt_fin', 'x: f', 'implies(valid(x) and val(x) >= 0, valid(fsqrt(x)) and val(fsqrt(x)) >= 0 and val(fsqrt(x)) * val(fsqrt(x)) == val(x)) and implies(isnan(x), isnan(fsqrt(x)))', trigger=['fsqrt(x)'], trusted='fsqrt')
lemma('log_fin', 'x: f', 'implies(valid(x) and val(x) > 0, valid(flog(x)) and fexp(flog(x)) == x) and implies(isnan(x), isnan(flog(x)))', trigger=['flog(x)'], trusted='flog')

logic('''
def rect2(x: 'vec<vec<f32>>') -> 'bool':
    return all(len(x[i]) == len(x[0]) for i in range(len(x)))

def nx(x: 'vec<vec<f32>>') -> 'int':
    return len(x[0]) if len(x) > 0 else 0

def rect3(x: 'vec<vec<vec<f32>>>') -> 'bool':
    return all(len(x[i]) == len(x[0]) for i in range(len(x))) and all(len(x[i][j]) == len(x[0][0]) for i in range(len(x)) for j in range(len(x[i])))

def nx3(x: 'vec<vec<vec<f32>>>') -> 'int':
    return len(x[0]) if len(x) > 0 else 0

def nt3(x: 'vec<vec<vec<f32>>>') -> 'int':
    return (len(x[0][0]) if len(x[0]) > 0 else 0) if len(x) > 0 else 0

def COUNTV(a: 'vec<f32>', n: 'int') -> 'int':
    return 0 if n <= 0 else COUNTV(a, n - 1) + (1 if valid(a[n - 1]) else 0)

def SUMV(a: 'vec<f32>', n: 'int') -> 'r':
    return real(0) if n <= 0 else SUMV(a, n - 1) + (val(a[n - 1]) if valid(a[n - 1]) else real(0))

def SUMSQ(a: 'vec<f32>', n: 'int') -> 'r':
    return real(0) if n <= 0 else SUMSQ(a, n - 1) + (val(a[n - 1]) * val(a[n - 1]) if valid(a[n - 1]) else real(0))

def MINV(a: 'vec<f32>', n: 'int') -> 'f':
    return NaN if n <= 0 else (MINV(a, n - 1) if not valid(a[n - 1]) else (a[n - 1] if not valid(MINV(a, n - 1)) or a[n - 1] < MINV(a, n - 1) else MINV(a, n - 1)))

def MAXV(a: 'vec<f32>', n: 'int') -> 'f':
    return NaN if n <= 0 else (MAXV(a, n - 1) if not valid(a[n - 1]) else (a[n - 1] if not valid(MAXV(a, n - 1)) or a[n - 1] > MAXV(a, n - 1) else MAXV(a, n - 1)))

def FILTERV(a: 'vec<f32>', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else (push(FILTERV(a, n - 1), a[n - 1]) if valid(a[n - 1]) else FILTERV(a, n - 1))

def SHSUM(a: 'vec<f32>', k: 'r', n: 'int') -> 'r':
    return real(0) if n <= 0 else SHSUM(a, k, n - 1) + (val(a[n - 1]) - k if valid(a[n - 1]) else real(0))

def SHSQ(a: 'vec<f32>', k: 'r', n: 'int') -> 'r':
    return real(0) if n <= 0 else SHSQ(a, k, n - 1) + ((val(a[n - 1]) - k) * (val(a[n - 1]) - k) if valid(a[n - 1]) else real(0))

@opaque
def VARIANCE(a: 'vec<f32>') -> 'r':
    return let(n, real(COUNTV(a, len(a))), let(m, SUMV(a, len(a)) / n, SUMSQ(a, len(a)) / n - m * m))

def QSORTED(s: 'vec<f32>', q: 'r') -> 'f':
    return let(n, real(len(s) - 1), let(l, floor(q * n), let(u, ceil(q * n), s[l] if l == u else
           fin(val(s[l]) + (val(s[u]) - val(s[l])) * ((q - real(l) / n) / (real(u) / n - real(l) / n))))))

@opaque
def QUANTILE(a: 'vec<f32>', q: 'f') -> 'f':
    return NaN if not valid(q) or COUNTV(a, len(a)) == 0 else (MINV(a, len(a)) if q == 0 else (MAXV(a, len(a)) if q == 1 else QSORTED(sortv(FILTERV(a, len(a))), val(q))))

@opaque
def STAT(a: 'vec<f32>', s: 'enum:gridpp::Statistic') -> 'f':
    return (toF(COUNTV(a, len(a))) if s == Count else
            NaN if COUNTV(a, len(a)) == 0 else
            fin(SUMV(a, len(a))) if s == Sum else
            fin(SUMV(a, len(a)) / real(COUNTV(a, len(a)))) if s == Mean else
            fin(VARIANCE(a)) if s == Variance else
            fsqrt(fin(VARIANCE(a))) if s == Std else
            QUANTILE(a, 0.0) if s == Min else
            QUANTILE(a, 1.0) if s == Max else
            QUANTILE(a, 0.5) if s == Median else NaN)
''')

lemma('count_range', 'a: vec<f32>; n: int', '0 <= COUNTV(a, n) and COUNTV(a, n) <= n', trigger=['COUNTV(a, n)'], induct='n', requires=['n >= 0'])
lemma('filter_len', 'a: vec<f32>; n: int', 'len(FILTERV(a, n)) == COUNTV(a, n)', trigger=['FILTERV(a, n)'], induct='n', requires=['n >= 0'])
lemma('filter_valid', 'a: vec<f32>; n: int', 'all(valid(FILTERV(a, n)[k]) for k in range(COUNTV(a, n)))', trigger=['FILTERV(a, n)'], induct='n', requires=['n >= 0'], uses=['filter_len', 'count_range'])
lemma('minv_valid', 'a: vec<f32>; n: int', 'valid(MINV(a, n)) == (COUNTV(a, n) > 0) and (valid(MINV(a, n)) or isnan(MINV(a, n)))', trigger=['MINV(a, n)'], induct='n', requires=['n >= 0'], uses=['count_range'])
lemma('maxv_valid', 'a: vec<f32>; n: int', 'valid(MAXV(a, n)) == (COUNTV(a, n) > 0) and (valid(MAXV(a, n)) or isnan(MAXV(a, n)))', trigger=['MAXV(a, n)'], induct='n', requires=['n >= 0'], uses=['count_range'])

lemma('quantile_empty', 'a: vec<f32>; q: f', 'implies(len(a) == 0 or COUNTV(a, len(a)) == 0, isnan(QUANTILE(a, q)))', trigger=['QUANTILE(a, q)'], reveal=['QUANTILE'])

contract('gridpp::calc_quantile(vec<f32>,f32)', 'a q', props=['C01', 'C02'],
    throws='q < 0 or q > 1', gen=lambda g: dict(q=g.q()), timeout=30,
    ensures=[('quantile', 'result == QUANTILE(a, q)')],
    uses=['count_range', 'filter_len', 'filter_valid', 'minv_valid', 'maxv_valid'], reveal=['QUANTILE'],
    hints=[('$m == MINV(a, $i)', {'$m': 'f*', '$i': 'int+'}), ('$m == MAXV(a, $i)', {'$m': 'f*', '$i': 'int+'}),
           ('$v == FILTERV(a, $i)', {'$v': 'vec<f32>*', '$i': 'int+'})])

lemma('shsum', 'a: vec<f32>; k: r; n: int', 'SHSUM(a, k, n) == SUMV(a, n) - k * real(COUNTV(a, n))', induct='n', requires=['n >= 0'])
lemma('shsq', 'a: vec<f32>; k: r; n: int', 'SHSQ(a, k, n) == SUMSQ(a, n) - real(2) * k * SUMV(a, n) + k * k * real(COUNTV(a, n))', induct='n', requires=['n >= 0'])
lemma('shsq_pos', 'a: vec<f32>; k: r; n: int', 'SHSQ(a, k, n) >= real(0)', induct='n', requires=['n >= 0'])
lemma('sh_zero', 'a: vec<f32>; k: r; n: int', 'implies(COUNTV(a, n) == 0, SHSUM(a, k, n) == real(0) and SHSQ(a, k, n) == real(0))', trigger=['SHSUM(a, k, n)', 'SHSQ(a, k, n)'], induct='n', requires=['n >= 0'], uses=['count_range'])
lemma('var_ident', 'n: r; s: r; q: r; k: r', '(q - real(2) * k * s + k * k * n) / n - ((s - k * n) / n) * ((s - k * n) / n) == q / n - (s / n) * (s / n)', requires=['n > real(0)'])
lemma('var_shift', reveal=['VARIANCE'], vars='a: vec<f32>; k: r; n: int', ensures='implies(n == len(a) and COUNTV(a, n) > 0, SHSQ(a, k, n) / real(COUNTV(a, n)) - (SHSUM(a, k, n) / real(COUNTV(a, n))) * (SHSUM(a, k, n) / real(COUNTV(a, n))) == VARIANCE(a))', trigger=['SHSQ(a, k, n)'],
      hints=['shsum(a, k, n)', 'shsq(a, k, n)', 'var_ident(real(COUNTV(a, n)), SUMV(a, n), SUMSQ(a, n), k)'])
lemma('var_pos', vars='a: vec<f32>', ensures='implies(COUNTV(a, len(a)) > 0, VARIANCE(a) >= real(0))', trigger=['VARIANCE(a)'],
      hints=['var_shift(a, SUMV(a, len(a)) / real(COUNTV(a, len(a))), len(a))', 'shsq_pos(a, SUMV(a, len(a)) / real(COUNTV(a, len(a))), len(a))', 'shsum(a, SUMV(a, len(a)) / real(COUNTV(a, len(a))), len(a))'])

contract('gridpp::is_valid(f32)', 'x', props=['C01'], ensures=[('finite', 'result == valid(x)')])

contract('gridpp::calc_statistic(vec<f32>,enum:gridpp::Statistic)', 'a s', props=['C01'],
    throws='not (s == Mean or s == Sum or s == Count or s == Std or s == Variance or s == RandomChoice or s == Min or s == Median or s == Max)',
    ensures=[('definition', 'implies(s != RandomChoice, result == STAT(a, s))'),
             ('random choice is a valid member', 'implies(s == RandomChoice, isnan(result) if COUNTV(a, len(a)) == 0 else any(valid(a[k]) and result == a[k] for k in range(len(a))))')],
    uses=['count_range', 'minv_valid', 'maxv_valid', 'sh_zero', 'var_shift', 'var_pos', 'quantile_empty'], reveal=['STAT'],
    hints=[('$t == fin(SUMV(a, $i))', {'$t': 'f*', '$i': 'int+'}),
           ('$c == COUNTV(a, $i)', {'$c': 'int*', '$i': 'int+'}),
           ('valid($k) == (COUNTV(a, $i) > 0) and (valid($k) or isnan($k))', {'$k': 'f*', '$i': 'int+'}),
           ('$t == (fin(SHSUM(a, val($k), $i)) if valid($k) else 0.0)', {'$t': 'f*', '$k': 'f*', '$i': 'int+'}),
           ('$t == (fin(SHSQ(a, val($k), $i)) if valid($k) else 0.0)', {'$t': 'f*', '$k': 'f*', '$i': 'int+'}),
           ('$c <= $r and isnan($t)', {'$c': 'int*', '$r': 'int', '$t': 'f'}),
           ('isnan($t)', {'$t': 'f'})],
    )
