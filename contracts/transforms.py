"""src/api/transform.cpp, distribution.cpp: value transformations."""
import math
from gv.spec import logic, contract, lemma, uninterp, invariant
import base, util

TR = 'rec:gridpp::Transform'


def _num(d, k):
    return float(d[k])


def tfwd(t, x):
    if t['kind'] == 1:
        return (math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)) if math.isfinite(x) else math.nan
    if t['kind'] == 2:
        a = _num(t, 'a')
        if not math.isfinite(x):
            return math.nan
        x = max(x, 0.0)
        if a == 0:
            return math.log(x) if x > 0 else -math.inf
        return ((x ** a if x > 0 or a > 0 else math.inf) - 1) / a
    return x


def tbwd(t, x):
    if t['kind'] == 0:
        return x
    if not math.isfinite(x):
        return math.nan
    if t['kind'] == 1:
        return base._exp(x)
    a = _num(t, 'a')
    if a == 0:
        return math.exp(x)
    b = max(1 + a * x, 0.0)
    return b ** (1 / a) if b > 0 or a > 0 else math.inf


def gcdf(k, s, x):
    from scipy import stats
    return float(stats.gamma.cdf(x, k, scale=s))


def gq(k, s, p):
    from scipy import stats
    return float(stats.gamma.ppf(p, k, scale=s))


def ncdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def nq(p):
    from scipy import stats
    return float(stats.norm.ppf(p))


uninterp('TFWD', [TR, 'f'], 'f', tfwd)
uninterp('TBWD', [TR, 'f'], 'f', tbwd)
uninterp('GCDF', ['f', 'f', 'f'], 'f', base.fl(gcdf))
uninterp('GQ', ['f', 'f', 'f'], 'f', base.fl(gq))
uninterp('NCDF', ['f'], 'f', base.fl(ncdf))
uninterp('NQ', ['f'], 'f', base.fl(nq))
lemma('pow_fin', 'x: f; a: f', 'implies(valid(x) and valid(a) and val(x) > 0, valid(fpow(x, a)) and val(fpow(x, a)) > 0)', trigger=['fpow(x, a)'], trusted='fpow')
lemma('pow_zero', 'x: f; a: f', 'implies(valid(a) and x == 0, implies(val(a) > 0, fpow(x, a) == 0.0) and implies(val(a) < 0, fpow(x, a) == Inf))', trigger=['fpow(x, a)'], trusted='fpow')
lemma('pow_inv', 'x: f; a: f; b: f', 'implies(valid(x) and valid(a) and valid(b) and val(x) >= 0 and (val(x) > 0 or val(a) > 0) and val(a) * val(b) == 1, fpow(fpow(x, a), b) == x)', trigger=['fpow(fpow(x, a), b)'], trusted='fpow')
lemma('pow_one', 'x: f; a: f', 'implies(valid(x) and valid(a) and val(a) > 0 and val(x) > 1, val(fpow(x, a)) > 1)', trigger=['fpow(x, a)'], trusted='fpow')
lemma('log_exp', 'x: f', 'implies(valid(x), flog(fexp(x)) == x)', trigger=['flog(fexp(x))'], trusted='flog')
logic('''
@opaque
def LOG_F(x: 'f') -> 'f':
    return flog(x) if valid(x) else NaN
@opaque
def LOG_B(x: 'f') -> 'f':
    return fexp(x) if valid(x) else NaN
@opaque
def BC_F(a: 'f', x: 'f') -> 'f':
    return NaN if not valid(x) else let(v, 0.0 if x <= 0 else x, flog(v) if a == 0 else (fpow(v, a) - 1) / a)
@opaque
def BC_B(a: 'f', x: 'f') -> 'f':
    return NaN if not valid(x) else let(b, 1 + a * x, let(r, fexp(x) if a == 0 else fpow(0.0 if b < 0 else b, 1 / a), 0.0 if r <= 0 else r))
@opaque
def SBC_F(a: 'f', s: 'f', x: 'f') -> 'f':
    return NaN if not valid(x) else let(v, 0.0 if x < 0 else x, v if v <= s else s * (1 + ((fpow(v / s, a) - 1) / a)))
@opaque
def SBC_B(a: 'f', s: 'f', x: 'f') -> 'f':
    return NaN if not valid(x) else let(r, x if x <= s else s * fpow(1 + a / s * (x - s), 1 / a), 0.0 if r < 0 else r)
''')
# inverses: what backward undoes (with exact arithmetic; pow, exp and log by their trusted laws)
lemma('log_inverse', 'x: f', 'implies(valid(x) and val(x) > 0, LOG_B(LOG_F(x)) == x) and implies(valid(x), LOG_F(LOG_B(x)) == x)', reveal=['LOG_F', 'LOG_B'])
lemma('bc_scale', 'p: f; a: f', 'implies(valid(p) and valid(a) and val(a) != 0, 1 + a * ((p - 1) / a) == p and val(a) * val(1 / a) == 1)')
lemma('bc_inverse', 'a: f; x: f', 'implies(valid(a) and valid(x) and val(x) >= 0 and (val(x) > 0 or val(a) > 0), BC_B(a, BC_F(a, x)) == x)', reveal=['BC_F', 'BC_B'], hints=['bc_scale(fpow(x, a), a)'])
lemma('sbc_scale', 's: f; p: f; a: f', 'implies(valid(p) and valid(a) and valid(s) and val(a) > 0 and val(s) > 0, 1 + a / s * (s * (1 + ((p - 1) / a)) - s) == p and val(a) * val(1 / a) == 1)')
lemma('sbc_div', 's: f; x: f', 'implies(valid(x) and valid(s) and val(s) > 0, valid(x / s) and s * (x / s) == x and implies(x > s, x / s > 1))')
lemma('sbc_up', 's: f; p: f; a: f', 'implies(valid(p) and valid(a) and valid(s) and val(a) > 0 and val(s) > 0 and p > 1, valid(s * (1 + ((p - 1) / a))) and s * (1 + ((p - 1) / a)) > s and valid(1 / a))')
lemma('sbc_inverse', 'a: f; s: f; x: f', 'implies(valid(a) and valid(s) and valid(x) and val(a) > 0 and val(s) > 0 and val(x) >= 0, SBC_B(a, s, SBC_F(a, s, x)) == x)', reveal=['SBC_F', 'SBC_B'], hints=['sbc_scale(s, fpow(x / s, a), a)', 'sbc_div(s, x)', 'sbc_up(s, fpow(x / s, a), a)', 'pow_one(x / s, a)', 'pow_inv(x / s, a, 1 / a)', 'pow_fin(x / s, a)'])
PR = ['C15']
C = 'gridpp::Transform::%s(%s)'
for d, f in (('forward', 'TFWD'), ('backward', 'TBWD')):
    contract(C % (d, 'f32'), 'x', trusted=True, ensures=[('a function of the object and the value', 'result == %s(this, x)' % f)])
    contract(C % (d, 'vec<f32>'), 'v', props=PR, ensures=[('elementwise', 'len(result) == len(v) and all(result[i] == %s(this, v[i]) for i in range(len(v)))' % f)])
    contract(C % (d, 'vec<vec<f32>>'), 'v', props=PR, requires=[], ensures=[('shape', 'len(result) == len(v) and all(len(result[i]) == len(v[i]) for i in range(len(v)))'),
        ('elementwise', 'all(result[i][j] == %s(this, v[i][j]) for i in range(len(v)) for j in range(len(v[i])))' % f)])
    contract(C % (d, 'vec<vec<vec<f32>>>'), 'v', props=PR, requires=[], ensures=[('shape', 'len(result) == len(v) and all(len(result[i]) == len(v[i]) for i in range(len(v)))'),
        ('depth', 'all(len(result[i][j]) == len(v[i][j]) for i in range(len(v)) for j in range(len(v[i])))'),
        ('elementwise', 'all(result[i][j][k] == %s(this, v[i][j][k]) for i in range(len(v)) for j in range(len(v[i])) for k in range(len(v[i][j])))' % f)])
invariant('gridpp::StartedBoxCox', 'valid(o.mThreshold) and o.mThreshold > 0 and valid(o.mScaling) and o.mScaling > 0')
Q = 'gridpp::%s::%s(f32)'
F1 = dict(props=PR, sym=True, fp=1e-5)
contract(Q % ('Identity', 'forward'), 'x', ensures=[('identity', 'result == x')], **F1)
contract(Q % ('Identity', 'backward'), 'x', ensures=[('identity', 'result == x')], **F1)
contract(Q % ('Log', 'forward'), 'x', uses=['log_inverse'], reveal=['LOG_F'], ensures=[('logarithm', 'result == LOG_F(x)')], **F1)
contract(Q % ('Log', 'backward'), 'x', reveal=['LOG_B'], ensures=[('exponential', 'result == LOG_B(x)')], **F1)
contract(Q % ('BoxCox', 'BoxCox'), 't', props=PR, ensures=[('parameter', 'result.mThreshold == t')])
contract(Q % ('BoxCox', 'forward'), 'x', uses=['bc_inverse'], reveal=['BC_F'], ensures=[('Box-Cox', 'result == BC_F(this.mThreshold, x)')], **F1)
contract(Q % ('BoxCox', 'backward'), 'x', reveal=['BC_B'], ensures=[('inverse Box-Cox', 'result == BC_B(this.mThreshold, x)')], **F1)
contract('gridpp::StartedBoxCox::StartedBoxCox(f32,f32)', 't s', props=PR, throws='not valid(t) or t <= 0 or not valid(s) or s <= 0', ensures=[('parameters', 'result.mThreshold == t and result.mScaling == s')])
contract(Q % ('StartedBoxCox', 'forward'), 'x', uses=['sbc_inverse'], reveal=['SBC_F'], ensures=[('started Box-Cox', 'result == SBC_F(this.mThreshold, this.mScaling, x)')], **F1)
contract(Q % ('StartedBoxCox', 'backward'), 'x', reveal=['SBC_B'], ensures=[('inverse started Box-Cox', 'result == SBC_B(this.mThreshold, this.mScaling, x)')], **F1)
GIN = 'GCDF(this.shape, this.scale, x + this.m_tolerance)'
GB = dict(props=PR, bounded='generated parameters and values', fp=2e-3)
contract('gridpp::Gamma::Gamma(f32,f32,f32)', 'k s t', throws='not valid(k) or k <= 0 or not valid(s) or s <= 0 or not valid(t) or t < 0', ensures=[('parameters', 'result.shape == k and result.scale == s and result.m_tolerance == t')], **GB)
contract(Q % ('Gamma', 'forward'), 'x', may_throw='valid(x) and not (GIN > 0.000001 and GIN < 0.999999)'.replace('GIN', GIN), ensures=[('missing', 'implies(not valid(x), isnan(result))'),
    ('gamma to normal', 'implies(valid(x) and GIN > 0.001 and GIN < 0.999, result == NQ(GIN))'.replace('GIN', GIN))], **GB)
contract(Q % ('Gamma', 'backward'), 'x', may_throw='valid(x) and not (abs(x) < 5)', ensures=[('missing', 'implies(not valid(x), isnan(result))'),
    ('normal to gamma', 'implies(valid(x) and abs(x) < 3, result == GQ(this.shape, this.scale, NCDF(x)) - this.m_tolerance)')], **GB)
BADG = 'len(l) != len(k) or len(s) != len(k) or any(not valid(l[i]) or l[i] < 0 or l[i] > 1 or not valid(k[i]) or k[i] <= 0 or not valid(s[i]) or s[i] <= 0 for i in range(len(k)))'
contract('gridpp::gamma_inv(vec<f32>,vec<f32>,vec<f32>)', 'l k s', gen=lambda g: {'l': tuple(g.unit() for _ in range(g.dim(g.n))), 'k': tuple(g.pos(1, 8) for _ in range(g.dim(g.n))), 's': tuple(g.pos(1, 8) for _ in range(g.dim(g.n)))} if g.r.random() < .8 else {}, throws=BADG, ensures=[('quantile', 'len(result) == len(k) and all(result[i] == (Inf if l[i] == 1 else GQ(k[i], s[i], l[i])) for i in range(len(k)))')], **GB)
