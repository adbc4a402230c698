"""src/api/neighbourhood.cpp: statistics and quantiles over square neighbourhoods."""
from gv.spec import logic, contract, lemma, uninterp
import base, util, geo, points
from points import FL

ST = 'enum:gridpp::Statistic'
V1, V2, V3 = 'vec<f32>', 'vec<vec<f32>>', 'vec<vec<vec<f32>>>'
logic('''
def LOW(y: 'int', h: 'int') -> 'int':
    return y - h if y - h > 0 else 0

def UPP(y: 'int', h: 'int', n: 'int') -> 'int':
    return y + h if y + h < n - 1 else n - 1

@opaque
def APPEND(a: 'vec<f32>', r: 'vec<f32>', n: 'int') -> 'vec<f32>':
    return a if n <= 0 else push(APPEND(a, r, n - 1), r[n - 1])

@opaque
def WROW3(a: 'vec<f32>', r: 'vec<vec<f32>>', i: 'int', j: 'int', e: 'int') -> 'vec<f32>':
    return a if j < i else APPEND(WROW3(a, r, i, j - 1, e), r[j], e)

@opaque
def WROWS3(a: 'vec<vec<vec<f32>>>', y0: 'int', y1: 'int', x0: 'int', x1: 'int', e: 'int') -> 'vec<f32>':
    return emptyf() if y1 < y0 else WROW3(WROWS3(a, y0, y1 - 1, x0, x1, e), a[y1], x0, x1, e)

@opaque
def WIN3(a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int') -> 'vec<f32>':
    return WROWS3(a, LOW(y, h), UPP(y, h, len(a)), LOW(x, h), UPP(x, h, nx3(a)), nt3(a))

def NEQ(a: 'vec<f32>', t: 'f', n: 'int') -> 'int':
    return 0 if n <= 0 else NEQ(a, t, n - 1) + (1 if valid(a[n - 1]) and a[n - 1] <= t else 0)

@opaque
def FRAC1(v: 'f', t: 'f') -> 'f':
    return NaN if not valid(v) else (1.0 if v <= t else 0.0)

@opaque
def FRAC(a: 'vec<f32>', t: 'f') -> 'f':
    return NaN if COUNTV(a, len(a)) == 0 else toF(NEQ(a, t, len(a))) / toF(COUNTV(a, len(a)))

def CLAMP01(a: 'f') -> 'f':
    return 1.0 if a > 1 else (0.0 if a < 0 else a)

def MEMBER(z: 'f', w: 'vec<f32>') -> 'bool':
    return isnan(z) if COUNTV(w, len(w)) == 0 else any(valid(w[k]) and z == w[k] for k in range(len(w)))
''')
# the list of (derived) values in a window, row by row
FAM = {'': (V2, '', '', 'r[j]', 'nx'), 'C': (V3, ", s: '%s'" % ST, ', s', 'STAT(r[j], s)', 'nx3'),
       'F': (V2, ", t: 'f'", ', t', 'FRAC1(r[j], t)', 'nx'), 'G': (V3, ", t: 'f'", ', t', 'FRAC(r[j], t)', 'nx3'), 'Q': (V2, '', '', 'r[j] * r[j]', 'nx')}
for n, (ty, ex, ar, el, nxf) in FAM.items():
    logic('''
@opaque
def WROW%(n)s(a: 'vec<f32>', r: '%(row)s', i: 'int', j: 'int'%(ex)s) -> 'vec<f32>':
    return a if j < i else push(WROW%(n)s(a, r, i, j - 1%(ar)s), %(el)s)

@opaque
def WROWS%(n)s(a: '%(ty)s', y0: 'int', y1: 'int', x0: 'int', x1: 'int'%(ex)s) -> 'vec<f32>':
    return emptyf() if y1 < y0 else WROW%(n)s(WROWS%(n)s(a, y0, y1 - 1, x0, x1%(ar)s), a[y1], x0, x1%(ar)s)

@opaque
def WIN%(n)s(a: '%(ty)s', y: 'int', x: 'int', h: 'int'%(ex)s) -> 'vec<f32>':
    return WROWS%(n)s(a, LOW(y, h), UPP(y, h, len(a)), LOW(x, h), UPP(x, h, %(nxf)s(a))%(ar)s)
''' % dict(n=n, ty=ty, row=ty[4:-1], ex=ex, ar=ar, el=el, nxf=nxf))
logic('''
@opaque
def WSTAT(a: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int', s: 'enum:gridpp::Statistic') -> 'f':
    return STAT(WIN(a, y, x, h), s)

@opaque
def WSTATC(a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int', s: 'enum:gridpp::Statistic') -> 'f':
    return STAT(WINC(a, y, x, h, s), s)

@opaque
def WSTAT3(a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int', s: 'enum:gridpp::Statistic') -> 'f':
    return STAT(WIN3(a, y, x, h), s)

@opaque
def WQ(a: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int', q: 'f') -> 'f':
    return QUANTILE(WIN(a, y, x, h), q)

@opaque
def WQ3(a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int', q: 'f') -> 'f':
    return QUANTILE(WIN3(a, y, x, h), q)

@opaque
def WANY(z: 'f', a: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int') -> 'bool':
    return MEMBER(z, WIN(a, y, x, h))

@opaque
def WANY3(z: 'f', a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int') -> 'bool':
    return MEMBER(z, WIN3(a, y, x, h))

@opaque
def PROB(a: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int', t: 'f') -> 'f':
    return CLAMP01(STAT(WINF(a, y, x, h, t), Mean))

@opaque
def PROB3(a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int', t: 'f') -> 'f':
    return CLAMP01(STAT(WING(a, y, x, h, t), Mean))

@opaque
def PROBS(a: 'vec<vec<f32>>', y: 'int', x: 'int', h: 'int', t: 'vec<f32>', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else push(PROBS(a, y, x, h, t, n - 1), PROB(a, y, x, h, t[n - 1]))

@opaque
def PROBS3(a: 'vec<vec<vec<f32>>>', y: 'int', x: 'int', h: 'int', t: 'vec<f32>', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else push(PROBS3(a, y, x, h, t, n - 1), PROB3(a, y, x, h, t[n - 1]))

@opaque
def IS_FASTQ(z: 'f', q: 'f', p: 'vec<f32>', t: 'vec<f32>') -> 'bool':
    return (isnan(z) if len(t) == 0 or any(not valid(p[k]) for k in range(len(p))) else
            z == t[0] if q == 1 and p[0] == 1 else z == t[len(t) - 1] if q == 0 and p[len(p) - 1] == 0 else
            implies(SORTED(p), IS_INTERP(z, q, p, t)))

@opaque
def WFIL(a: 'vec<f32>', r: 'vec<f32>', n: 'int') -> 'vec<f32>':
    return a if n <= 0 else (push(WFIL(a, r, n - 1), r[n - 1]) if valid(r[n - 1]) else WFIL(a, r, n - 1))

@opaque
def ALLV(a: 'vec<vec<f32>>', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else WFIL(ALLV(a, n - 1), a[n - 1], len(a[n - 1]))

@opaque
def ALLVA(b: 'vec<f32>', a: 'vec<vec<f32>>', n: 'int') -> 'vec<f32>':
    return b if n <= 0 else WFIL(ALLVA(b, a, n - 1), a[n - 1], len(a[n - 1]))

@opaque
def ALLV3(a: 'vec<vec<vec<f32>>>', n: 'int') -> 'vec<f32>':
    return emptyf() if n <= 0 else ALLVA(ALLV3(a, n - 1), a[n - 1], len(a[n - 1]))
''')
def mv(g):
    x = g.f()
    return x if isinstance(x, float) or abs(x) < 1000 else x / 100000


OK = '(s == Mean or s == Sum or s == Count or s == Std or s == Variance or s == RandomChoice or s == Min or s == Median or s == Max)'
N = 'gridpp::'
LB = 'neighbourhood.cpp::(anonymous namespace)::neighbourhood_brute_force('
B = 'generated arrays up to 5 x 5'
SH = ('shape', '(len(result) == 0 if nx(a) == 0 else len(result) == len(a) and all(len(result[y]) == nx(a) for y in range(len(a))))')
SH3 = ('shape', '(len(result) == 0 if nt3(a) == 0 else len(result) == len(a) and all(len(result[y]) == nx3(a) for y in range(len(a))))')
CELL = 'all(%s for y in range(len(result)) for x in range(len(result[y])))'
PR3, PR4 = ['C03'], ['C04']
GH = lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5), 'a': g.vec2(ny=g.dim(5), nx=g.dim(5)) if 0 else g.vec2()}
R2, R3 = ['rect2(a)'], ['rect3(a)']
contract(N + 'neighbourhood(%s,i32,%s)' % (V2, ST), 'a h s', props=PR3, requires=R2, bounded=B, fp=1e-5, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5), 'a': g.vec2(e=lambda: mv(g))},
    throws='h < 0 or s == Quantile or (nx(a) > 0 and not %s)' % OK,
    may_throw=None,
    ensures=[SH, ('statistic of the window', 'implies(s != RandomChoice, %s)' % (CELL % 'result[y][x] == WSTAT(a, y, x, h, s)')), ('random choice', 'implies(s == RandomChoice, %s)' % (CELL % 'WANY(result[y][x], a, y, x, h)'))])
contract(N + 'neighbourhood(%s,i32,%s)' % (V3, ST), 'a h s', props=PR3, requires=R3 + ['s != RandomChoice'], bounded=B, fp=1e-5, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5), 'a': g.vec3(e=lambda: mv(g))},
    throws='nt3(a) > 0 and (h < 0 or not %s)' % OK,
    ensures=[SH3, ('statistic of the cell statistics', CELL % 'result[y][x] == WSTATC(a, y, x, h, s)')])
for k, ty, req, sh, w, z in (('', V2, R2, SH, '', 'nx(a)'), ('', V3, R3, SH3, '3', 'nt3(a)')):
    contract(LB + '%s,i32,%s,f32)' % (ty, ST), 'a h s q', props=PR3 + PR4, requires=req, bounded=B, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5), 'q': g.q()},
        throws='h < 0 or s == Unknown or (s == Quantile and (q < 0 or q > 1)) or (%s > 0 and not %s and s != Quantile)' % (z, OK),
        ensures=[sh, ('statistic of the window', 'implies(s != RandomChoice and s != Quantile, %s)' % (CELL % ('result[y][x] == WSTAT%s(a, y, x, h, s)' % w))),
                 ('random choice', 'implies(s == RandomChoice, %s)' % (CELL % ('WANY%s(result[y][x], a, y, x, h)' % w))),
                 ('quantile of the window', 'implies(s == Quantile, %s)' % (CELL % ('result[y][x] == WQ%s(a, y, x, h, q)' % w)))])
    contract(N + 'neighbourhood_brute_force(%s,i32,%s)' % (ty, ST), 'a h s', props=PR3, requires=req + ['s != Quantile'], bounded=B, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5)},
        throws='h < 0 or s == Unknown or (%s > 0 and not %s)' % (z, OK),
        ensures=[sh, ('statistic of the window', 'implies(s != RandomChoice, %s)' % (CELL % ('result[y][x] == WSTAT%s(a, y, x, h, s)' % w))),
                 ('random choice', 'implies(s == RandomChoice, %s)' % (CELL % ('WANY%s(result[y][x], a, y, x, h)' % w)))])
    for nm in ['neighbourhood_quantile'] + (['neighbourhood_quantile_ens'] if ty == V3 else []):
        contract(N + nm + '(%s,f32,i32)' % ty, 'a q h', props=PR4, requires=req, bounded=B, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5), 'q': g.q()},
            throws='h < 0 or q < 0 or q > 1', ensures=[sh, ('quantile of the window', CELL % ('result[y][x] == WQ%s(a, y, x, h, q)' % w))])
    for nm in ['neighbourhood_quantile_fast'] + (['neighbourhood_quantile_ens_fast'] if ty == V3 else []):
        contract(N + nm + '(%s,f32,i32,vec<f32>)' % ty, 'a q h t', props=PR4, requires=req, bounded=B, fp=1e-5, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1), 'q': g.q(), 't': g.sorted()},
            throws='h < 0 or (%s > 0 and valid(q) and (q < 0 or q > 1))' % z,
            ensures=[sh, ('interpolated from the probabilities', CELL % ('IS_FASTQ(result[y][x], q, PROBS%s(a, y, x, h, t, len(t)), t)' % w))])
    nn = 'nx(a)' if not w else 'nx3(a)'
    contract(N + 'neighbourhood_quantile_fast(%s,%s,i32,vec<f32>)' % (ty, V2), 'a q h t', props=PR4, requires=req + ['rect2(q)'], bounded=B, fp=1e-5, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1), 'q': g.vec2(e=g.q), 't': g.sorted()},
        throws='h < 0 or (%s > 0 and (not (len(q) == 1 and nx(q) == 1) and not (len(q) == len(a) and nx(q) == %s) or any(valid(q[y][x]) and (q[y][x] < 0 or q[y][x] > 1) for y in range(len(q)) for x in range(nx(q)))))' % (z, nn),
        ensures=[sh, ('interpolated from the probabilities', CELL % ('IS_FASTQ(result[y][x], q[0][0] if len(q) == 1 and nx(q) == 1 else q[y][x], PROBS%s(a, y, x, h, t, len(t)), t)' % w))])
contract(N + 'neighbourhood_ens(%s,i32,%s)' % (V3, ST), 'a h s', props=PR3, requires=R3 + ['s != RandomChoice'], bounded=B, fp=1e-5, gen=lambda g: {'h': g.choice(0, 1, 1, 2, 3, -1, 5), 'a': g.vec3(e=lambda: mv(g))},
    throws='nt3(a) > 0 and (h < 0 or not %s)' % OK,
    ensures=[SH3, ('statistic of the cell statistics', CELL % 'result[y][x] == WSTATC(a, y, x, h, s)')])
