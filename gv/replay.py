"""Runs the real code on generated inputs with the contracts as oracle (search for a failing input)."""
import hashlib, json, math, os, random, subprocess, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from . import frontend, spec as SP, sorts as S, conc
from .conc import Ap, NAN, INF
from .solve import Pool, JOBS

sys.setrecursionlimit(20000)
CXX = ['g++', '-std=c++14', '-O1', '-g1', '-fopenmp', '-w', '-D_GLIBCXX_ASSERTIONS']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=float-cast-overflow,float-divide-by-zero,signed-integer-overflow']

PRELUDE = r'''
#include <iostream>
#include <sstream>
#include <vector>
#include <string>
#include <memory>
#include <set>
#include <map>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <boost/geometry.hpp>
#include <boost/geometry/geometries/point.hpp>
#include <boost/geometry/geometries/box.hpp>
#include <boost/geometry/index/rtree.hpp>
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#define private public
#define protected public
#include "gridpp.h"
#undef private
#undef protected
using namespace gridpp;
static std::string tok() { std::string s; std::cin >> s; return s; }
template<class T> struct R;
template<> struct R<float> { static float get() { return strtof(tok().c_str(), 0); } };
template<> struct R<double> { static double get() { return strtod(tok().c_str(), 0); } };
template<> struct R<int> { static int get() { return (int) strtol(tok().c_str(), 0, 10); } };
template<> struct R<unsigned int> { static unsigned int get() { return (unsigned int) strtoul(tok().c_str(), 0, 10); } };
template<> struct R<long> { static long get() { return strtol(tok().c_str(), 0, 10); } };
template<> struct R<unsigned long> { static unsigned long get() { return strtoul(tok().c_str(), 0, 10); } };
template<> struct R<bool> { static bool get() { return strtol(tok().c_str(), 0, 10) != 0; } };
template<> struct R<std::string> { static std::string get() { return tok(); } };
template<class T> struct R<std::vector<T>> { static std::vector<T> get() { int n = R<int>::get(); std::vector<T> v; v.reserve(n); for(int i = 0; i < n; i++) v.push_back(R<T>::get()); return v; } };
#define RENUM(E) template<> struct R<E> { static E get() { return (E) R<int>::get(); } };
RENUM(Statistic) RENUM(Extrapolation) RENUM(Metric) RENUM(CorrectionType) RENUM(CoordinateType) RENUM(GradientType) RENUM(Downscaler) RENUM(ComparisonOperator)
template<> struct R<Point> { static Point get() { std::string k = tok(); float a = R<float>::get(), b = R<float>::get(), c = R<float>::get(), d = R<float>::get(); CoordinateType t = R<CoordinateType>::get();
    return Point(a, b, c, d, t); } };
template<> struct R<KDTree> { static KDTree get() { std::string k = tok(); vec a = R<vec>::get(), b = R<vec>::get(); CoordinateType t = R<CoordinateType>::get(); return KDTree(a, b, t); } };
template<> struct R<Points> { static Points get() { std::string k = tok(); if(k == "empty") return Points(); vec a = R<vec>::get(), b = R<vec>::get(), c = R<vec>::get(), d = R<vec>::get(); CoordinateType t = R<CoordinateType>::get(); return Points(a, b, c, d, t); } };
template<> struct R<Grid> { static Grid get() { std::string k = tok(); if(k == "empty") return Grid(); vec2 a = R<vec2>::get(), b = R<vec2>::get(), c = R<vec2>::get(), d = R<vec2>::get(); CoordinateType t = R<CoordinateType>::get(); return Grid(a, b, c, d, t); } };
template<class T> struct Holder { std::shared_ptr<T> p; };
template<> struct R<Holder<StructureFunction>> { static Holder<StructureFunction> get() { std::string k = tok(); float h = R<float>::get(), v = R<float>::get(), w = R<float>::get(), m = R<float>::get(); Holder<StructureFunction> r;
    if(k == "barnes") r.p = std::make_shared<BarnesStructure>(h, v, w, m); else if(k == "cressman") r.p = std::make_shared<CressmanStructure>(h, v, w); else if(k == "soar") r.p = std::make_shared<SoarStructure>(h, v, w, m);
    else if(k == "toar") r.p = std::make_shared<ToarStructure>(h, v, w, m); else if(k == "powerlaw") r.p = std::make_shared<PowerlawStructure>(h, v, w, m); else if(k == "linear") r.p = std::make_shared<LinearStructure>(h, v, w, m);
    else if(k == "cvbarnes") { BarnesStructure b(h, v, w, m); r.p = std::make_shared<CrossValidation>(b, m); }
    return r; } };
#define RSTRUCT(T, k0) template<> struct R<T> { static T get() { std::string k = tok(); float h = R<float>::get(), v = R<float>::get(), w = R<float>::get(), m = R<float>::get(); return T(h, v, w, m); } };
RSTRUCT(BarnesStructure, "barnes") RSTRUCT(SoarStructure, "soar") RSTRUCT(ToarStructure, "toar") RSTRUCT(PowerlawStructure, "powerlaw") RSTRUCT(LinearStructure, "linear")
template<> struct R<CressmanStructure> { static CressmanStructure get() { std::string k = tok(); float h = R<float>::get(), v = R<float>::get(), w = R<float>::get(), m = R<float>::get(); return CressmanStructure(h, v, w); } };
template<> struct R<Identity> { static Identity get() { tok(); return Identity(); } };
template<> struct R<Log> { static Log get() { tok(); return Log(); } };
template<> struct R<BoxCox> { static BoxCox get() { tok(); return BoxCox(R<float>::get()); } };
template<> struct R<StartedBoxCox> { static StartedBoxCox get() { tok(); float a = R<float>::get(), b = R<float>::get(); return StartedBoxCox(a, b); } };
template<> struct R<Gamma> { static Gamma get() { tok(); float a = R<float>::get(), b = R<float>::get(), c = R<float>::get(); return Gamma(a, b, c); } };
template<> struct R<Holder<Transform>> { static Holder<Transform> get() { std::string k = tok(); Holder<Transform> r; if(k == "identity") r.p = std::make_shared<Identity>(); else if(k == "log") r.p = std::make_shared<Log>(); else { float a = R<float>::get(); r.p = std::make_shared<BoxCox>(a); } return r; } };

static void D(std::ostream& o, float x) { char b[64]; if(x != x) o << "\"nan\""; else if(std::isinf(x)) o << (x > 0 ? "\"inf\"" : "\"-inf\""); else { snprintf(b, 64, "\"%a\"", (double) x); o << b; } }
static void D(std::ostream& o, double x) { char b[64]; if(x != x) o << "\"nan\""; else if(std::isinf(x)) o << (x > 0 ? "\"inf\"" : "\"-inf\""); else { snprintf(b, 64, "\"%a\"", x); o << b; } }
static void D(std::ostream& o, int x) { o << x; }
static void D(std::ostream& o, unsigned int x) { o << x; }
static void D(std::ostream& o, long x) { o << x; }
static void D(std::ostream& o, unsigned long x) { o << x; }
static void D(std::ostream& o, bool x) { o << (x ? "true" : "false"); }
static void D(std::ostream& o, const std::string& x) { o << "{\"str\":1}"; }
#define DENUM(E) static void D(std::ostream& o, E x) { o << (int) x; }
DENUM(Statistic) DENUM(Extrapolation) DENUM(Metric) DENUM(CorrectionType) DENUM(CoordinateType) DENUM(GradientType) DENUM(Downscaler) DENUM(ComparisonOperator)
template<class T> static void D(std::ostream& o, const std::vector<T>& v);
static void D(std::ostream& o, const Point& p) { o << "{\"lat\":"; D(o, p.lat); o << ",\"lon\":"; D(o, p.lon); o << ",\"elev\":"; D(o, p.elev); o << ",\"laf\":"; D(o, p.laf); o << ",\"type\":" << (int) p.type; o << ",\"x\":"; D(o, p.x); o << ",\"y\":"; D(o, p.y); o << ",\"z\":"; D(o, p.z); o << "}"; }
#define FLD(n) o << ",\"" #n "\":"; D(o, p.n);
template<class T> static void DT(std::ostream& o, const T& t) { std::map<long, std::string> m; for(auto it = t.begin(); it != t.end(); ++it) { std::ostringstream q; q << "{\"first\":{\"x\":"; D(q, it->first.template get<0>()); q << ",\"y\":"; D(q, it->first.template get<1>()); q << ",\"z\":"; D(q, it->first.template get<2>()); q << "},\"second\":" << (long) it->second << "}"; m[it->second] = q.str(); }
    o << "["; bool first = true; for(auto& e : m) { if(!first) o << ","; first = false; o << e.second; } o << "]"; }
static void D(std::ostream& o, const KDTree& p) { o << "{\"mTree\":"; DT(o, p.mTree); FLD(mLats) FLD(mLons) FLD(mX) FLD(mY) FLD(mZ) FLD(mType) o << "}"; }
static void D(std::ostream& o, const Points& p) { o << "{\"opaque\":0"; FLD(mTree) FLD(mLats) FLD(mLons) FLD(mElevs) FLD(mLafs) o << "}"; }
static void D(std::ostream& o, const Grid& p) { o << "{\"opaque\":0"; FLD(mTree) FLD(mX) FLD(mLats) FLD(mLons) FLD(mElevs) FLD(mLafs) o << "}"; }
static void D(std::ostream& o, const Holder<StructureFunction>& p) { o << "{\"opaque\":0}"; }
static void D(std::ostream& o, const Holder<Transform>& p) { const BoxCox* b = dynamic_cast<const BoxCox*>(p.p.get()); int k = b ? 2 : (dynamic_cast<const Log*>(p.p.get()) ? 1 : 0);
    o << "{\"opaque\":0,\"kind\":" << k << ",\"a\":"; D(o, b ? b->mThreshold : 0.0f); o << "}"; }
#define DSTRUCT(T) static void D(std::ostream& o, const T& p) { o << "{\"opaque\":0"; FLD(m_localization_distance) FLD(mH) FLD(mV) FLD(mW) FLD(m_min_rho) FLD(m_is_spatial) FLD(m_grid) o << "}"; }
DSTRUCT(BarnesStructure) DSTRUCT(SoarStructure) DSTRUCT(ToarStructure) DSTRUCT(PowerlawStructure) DSTRUCT(LinearStructure)
static void D(std::ostream& o, const CressmanStructure& p) { o << "{\"opaque\":0"; FLD(m_localization_distance) FLD(mH) FLD(mV) FLD(mW) o << "}"; }
static void D(std::ostream& o, const Identity& p) { o << "{\"opaque\":0}"; }
static void D(std::ostream& o, const Log& p) { o << "{\"opaque\":0}"; }
static void D(std::ostream& o, const BoxCox& p) { o << "{\"opaque\":0"; FLD(mThreshold) o << "}"; }
static void D(std::ostream& o, const StartedBoxCox& p) { o << "{\"opaque\":0"; FLD(mThreshold) FLD(mScaling) o << "}"; }
static void D(std::ostream& o, const Gamma& p) { o << "{\"opaque\":0"; FLD(m_tolerance) o << ",\"shape\":"; D(o, (float) p.m_gamma_dist.shape()); o << ",\"scale\":"; D(o, (float) p.m_gamma_dist.scale()); o << "}"; }
template<class A, class B> static void D(std::ostream& o, const std::pair<A, B>& p) { o << "{\"first\":"; D(o, p.first); o << ",\"second\":"; D(o, p.second); o << "}"; }
template<class T> static void D(std::ostream& o, const std::vector<T>& v) { o << "["; for(size_t i = 0; i < v.size(); i++) { if(i) o << ","; D(o, (T) v[i]); } o << "]"; }
'''

BASE = {'f32': 'float', 'f64': 'double', 'i32': 'int', 'u32': 'unsigned int', 'u64': 'unsigned long', 'i64': 'long', 'bool': 'bool', 'str': 'std::string'}
READABLE = {'gridpp::Point', 'gridpp::KDTree', 'gridpp::Points', 'gridpp::Grid', 'gridpp::BarnesStructure', 'gridpp::CressmanStructure', 'gridpp::SoarStructure', 'gridpp::ToarStructure',
            'gridpp::PowerlawStructure', 'gridpp::LinearStructure', 'gridpp::Identity', 'gridpp::Log', 'gridpp::BoxCox', 'gridpp::StartedBoxCox', 'gridpp::Gamma'}
HELD = {'gridpp::StructureFunction', 'gridpp::Transform'}


class CannotDrive(Exception):
    pass


def cxx(t):
    p = S.parse_type(t) if isinstance(t, str) else t
    if isinstance(p, tuple):
        if p[0] == 'vec':
            return 'std::vector<%s>' % cxx(p[1])
        if p[0] == 'sptr':
            return cxx(p[1])
        raise CannotDrive('type %s' % (t,))
    if p in BASE:
        return BASE[p]
    if p.startswith('enum:'):
        return p[5:]
    if p.startswith('rec:'):
        if p[4:] in READABLE:
            return p[4:]
        if p[4:] in HELD:
            return 'Holder<%s>' % p[4:]
    raise CannotDrive('type %s' % (t,))


def fnname(fn):
    k = fn['key']
    head = k[:k.index('operator()') + 10] if 'operator()' in k else k.split('(')[0]
    return head.rsplit('::', 1)[1]


def driver_case(idx, fn):
    """C++ block running one case of the function"""
    out = ['    case %d: {' % idx]
    args = []
    this = bool(fn.get('parent')) and not fn.get('static') and not fn.get('ctor')
    if 'cpp::' in fn['key'].split('(')[0] or '(anonymous' in fn['key']:
        raise CannotDrive('not visible outside its file')
    if this:
        out.append('      auto self = R<%s>::get();' % cxx('rec:' + fn['parent']))
        out.append('      o << "\\"this\\":"; D(o, self); o << ",";')
    for i, p in enumerate(fn['params']):
        t = cxx(p['t'])
        out.append('      auto a%d = R<%s>::get();' % (i, t))
        args.append('*a%d.p' % i if t.startswith('Holder') else 'a%d' % i)
        if 'rec:' in p['t']:
            out.append('      o << "\\"arg%d\\":"; D(o, a%d); o << ",";' % (i, i))
    if fn.get('ctor'):
        call = '%s(%s)' % (fn['parent'], ', '.join(args))
    elif this:
        call = '%s(%s)' % (('self.p->' if fn['parent'] in HELD else 'self.') + fnname(fn), ', '.join(args))
    else:
        call = '%s(%s)' % (fn['key'].split('(')[0], ', '.join(args))
    out.append('      std::string pre = o.str();')
    out.append('      try {')
    if fn['ret'] == 'void' and not fn.get('ctor'):
        out.append('        %s; o << "\\"ret\\":0";' % call)
    else:
        out.append('        auto r = %s; o << "\\"ret\\":"; D(o, r);' % call)
    for i, p in enumerate(fn['params']):
        if p['mut']:
            out.append('        o << ",\\"out%d\\":"; D(o, a%d);' % (i, i))
    if this and not fn.get('const'):
        out.append('        o << ",\\"this_out\\":"; D(o, self);')
    out.append('      } catch(const std::exception& e) { o.str(""); o << pre << "\\"exc\\":1"; } catch(...) { o.str(""); o << pre << "\\"exc\\":1"; }')
    out.append('      break; }')
    return '\n'.join(out)


def headers_digest():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(os.path.join(frontend.REPO, 'include'))):
        for f in sorted(fs):
            with open(os.path.join(root, f), 'rb') as g:
                h.update(f.encode() + b'\0' + g.read())
    return h


def cached_compile(cmd, src, obj):
    """compiles src; an object made earlier from the same text, headers and flags is taken from /verif/build/obj"""
    h = headers_digest()
    with open(src, 'rb') as g:
        h.update(repr(cmd).encode() + src.encode() + g.read())
    c = os.path.join(frontend.BUILD, 'obj', h.hexdigest()[:32] + '.o')
    lib = src.startswith(frontend.REPO)
    if lib and os.path.exists(c):
        shutil.copyfile(c, obj)
        return subprocess.CompletedProcess(cmd, 0, '', '')
    r = subprocess.run(cmd + ['-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if lib and r.returncode == 0:
        os.makedirs(os.path.dirname(c), exist_ok=True)
        tmp = c + '.%d.%d' % (os.getpid(), threading.get_ident())
        shutil.copyfile(obj, tmp)
        os.replace(tmp, c)
    return r


def build(workdir, fns, sources=None):
    """compiles the library with sanitizers and a driver for the given functions; returns (exe, {key: idx}, skipped)"""
    os.makedirs(workdir, exist_ok=True)
    cases, idx, skipped = [], {}, {}
    for fn in fns:
        try:
            cases.append(driver_case(len(idx), fn))
            idx[fn['key']] = len(idx)
        except CannotDrive as e:
            skipped[fn['key']] = str(e)
    main = PRELUDE + '''
int main() {
  int f; long id;
  while(std::cin >> id >> f) {
    std::cout << "BEGIN " << id << std::endl;
    std::ostringstream o; o << "{";
    switch(f) {
%s
    }
    o << "}";
    std::cout << "RES " << id << " " << o.str() << std::endl;
  }
  return 0;
}
''' % '\n'.join(cases)
    with open(os.path.join(workdir, 'driver.cpp'), 'w') as f:
        f.write(main)
    inc = ['-I' + os.path.join(frontend.REPO, 'include')]
    jobs = [(os.path.join(workdir, 'driver.cpp'), os.path.join(workdir, 'driver.o'))]
    for s in sources or frontend.api_sources():
        jobs.append((s, os.path.join(workdir, os.path.basename(s) + '.o')))

    def comp(j):
        return cached_compile(CXX + SAN + inc, j[0], j[1])
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(comp, jobs))
    for r, j in zip(rs, jobs):
        if r.returncode:
            raise RuntimeError('compiling %s failed:\n%s' % (j[0], r.stderr[-3000:]))
    exe = os.path.join(workdir, 'driver')
    r = subprocess.run(CXX + SAN + [j[1] for j in jobs] + ['-o', exe, '-larmadillo', '-lgsl', '-lgslcblas'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if r.returncode:
        raise RuntimeError('linking failed:\n' + r.stderr[-3000:])
    return exe, idx, skipped


# ------------------------------------------------------------------ inputs
def enc(v, t):
    """token text of a generated value"""
    p = S.parse_type(t) if isinstance(t, str) else t
    if isinstance(p, tuple) and p[0] == 'vec':
        return ' '.join([str(len(v))] + [enc(x, p[1]) for x in v])
    if isinstance(p, tuple) and p[0] == 'sptr':
        return enc(v, p[1])
    if p in ('f32', 'f64'):
        return encf(v)
    if p == 'bool':
        return str(int(v))
    if isinstance(p, str) and p.startswith('rec:'):
        return encrec(v)
    if p == 'str':
        return str(v)
    return str(int(v))


def encf(v):
    if isinstance(v, float) and v != v:
        return 'nan'
    if isinstance(v, float) and v in (INF, -INF):
        return 'inf' if v > 0 else '-inf'
    return float(v).hex()


def encrec(v):
    """records are given as (kind, field values...)"""
    out = [v[0]]
    for x in v[1:]:
        out.append(encany(x))
    return ' '.join(out)


def encany(x):
    if isinstance(x, (list, tuple)):
        return ' '.join([str(len(x))] + [encany(y) for y in x])
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, int):
        return str(x)
    return encf(x)


class G:
    """generator of one case"""
    POOL = [Fraction(x) for x in (0, 1, 2, 3, -1, -2, Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(3, 2), 4, 5, 7, 10, -5)]

    def __init__(self, rnd, enums, lits=((), ())):
        self.r, self.enums = rnd, enums
        self.ilits, self.flits = lits
        big = [k for k in self.ilits if 2 <= k <= 64]
        self.nanp = rnd.choice([0, 0, .15, .15, .4, 1 if rnd.random() < .15 else 0.1])
        self.small = rnd.random() < 0.5
        z = .06
        self.n = 0 if rnd.random() < z else rnd.choice([1, 1, 2, 3, 4, 5, 6, 8])
        self.m = 0 if rnd.random() < z else rnd.choice([1, 2, 3, 4])
        self.ny = 0 if rnd.random() < z else rnd.choice([1, 2, 2, 3, 4, 5])
        self.nx = 0 if rnd.random() < z else rnd.choice([1, 2, 3, 3, 4, 5])
        self.nt = 0 if rnd.random() < z else rnd.choice([1, 2, 3, 4])
        if big and rnd.random() < .15:
            self.n = rnd.choice(big) + rnd.choice([-1, 0, 1, 2, 3])
        mid = [k for k in big if k <= 20]
        if mid and rnd.random() < .1:
            k = rnd.choice(mid) + rnd.choice([0, 1, 2])
            j = rnd.random()
            if j < .35:
                self.ny = k
            elif j < .7:
                self.nx = k
            else:
                self.nt = k
        self.litp = .2 if self.flits and rnd.random() < .4 else 0
        self.mismatch = rnd.random() < .12
        self.ctype = rnd.choice([0, 1])
        self.infp = rnd.choice([0, 0, 0, 0, .1])
        self.pool = self.POOL if rnd.random() < .7 else [Fraction(0), Fraction(1), Fraction(2)]

    def lit(self):
        return self.r.choice(self.flits) + self.r.choice([0, 0, Fraction(1, 4), -Fraction(1, 4), 1, -1, Fraction(1, 64), -Fraction(1, 64), 3, -3])

    def fv(self):
        r = self.r
        if self.litp and r.random() < self.litp:
            return self.lit()
        if r.random() < .7:
            return r.choice(self.pool)
        if r.random() < .1:
            return Fraction(r.randint(-64, 64), 4096)
        return Fraction(r.randint(-64, 64), 4)

    def f(self, nanp=None):
        if self.r.random() < (self.nanp if nanp is None else nanp):
            return NAN
        if self.r.random() < self.infp:
            return self.r.choice([INF, -INF])
        return self.fv()

    def pos(self, lo=0, hi=16, den=4):
        return Fraction(self.r.randint(lo * den, hi * den), den)

    def unit(self):
        return Fraction(self.r.randint(0, 16), 16)

    def dim(self, n):
        return max(0, n + self.r.choice([-1, 1])) if self.mismatch and self.r.random() < .5 else n

    def vec(self, n=None, e=None):
        n = self.dim(self.n if n is None else n)
        return tuple((e or self.f)() for _ in range(n))

    def vec2(self, ny=None, nx=None, e=None):
        ny, nx = self.dim(self.ny if ny is None else ny), self.dim(self.nx if nx is None else nx)
        return tuple(tuple((e or self.f)() for _ in range(nx)) for _ in range(ny))

    def vec3(self, ny=None, nx=None, nt=None, e=None):
        ny, nx, nt = self.dim(self.ny if ny is None else ny), self.dim(self.nx if nx is None else nx), self.dim(self.nt if nt is None else nt)
        return tuple(tuple(tuple((e or self.f)() for _ in range(nt)) for _ in range(nx)) for _ in range(ny))

    def sorted(self, n=None, strict=False, nanp=0):
        n = self.dim(self.n if n is None else n)
        xs, c = [], self.fv()
        for _ in range(n):
            xs.append(c)
            c += Fraction(self.r.choice([1, 2, 3, 4, 8] if strict else [0, 1, 2, 4]), 4)
        return tuple(NAN if self.r.random() < nanp else x for x in xs)

    def int(self, lo=-1, hi=4):
        return self.r.randint(lo, hi)

    def choice(self, *xs):
        return self.r.choice(xs)

    def q(self):
        return self.r.choice([Fraction(0), Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(3, 4), Fraction(5, 8), Fraction(1, 8)] * 3 + [Fraction(31, 32), Fraction(127, 128), Fraction(1, 32), Fraction(self.r.randint(0, 256), 256), NAN, Fraction(-1), Fraction(3, 2)])

    def grid(self, ny=None, nx=None, ctype=None, elev=None):
        ny, nx = self.ny if ny is None else ny, self.nx if nx is None else nx
        c = self.r.choice([0, 1]) if ctype is None else ctype
        la0, lo0 = Fraction(self.r.randint(-3, 3)), Fraction(self.r.randint(-3, 3))
        d = Fraction(1, self.r.choice([1, 2, 4])) if c == 0 else Fraction(self.r.choice([1, 2, 100]))
        jit = self.r.random() < .3
        j = lambda: Fraction(self.r.randint(-2, 2), 16) * d if jit else Fraction(0)
        la = tuple(tuple(la0 + d * y + j() for x in range(nx)) for y in range(ny))
        lo = tuple(tuple(lo0 + d * x + j() for x in range(nx)) for y in range(ny))
        if self.r.random() < .15:
            q = lambda: Fraction(self.r.randint(-12, 12), 4)
            la, lo = (tuple(tuple(q() for x in range(nx)) for y in range(ny)) for _ in 'ab')
        if self.r.random() < .3:
            el, lf = (), ()
        else:
            el = tuple(tuple(Fraction(self.r.choice([0, 10, 50, 100, 400])) if self.r.random() > .1 else NAN for x in range(nx)) for y in range(ny))
            lf = tuple(tuple(self.unit() for x in range(nx)) for y in range(ny))
        return ('grid', la, lo, el, lf, c)

    def points(self, n=None, ctype=None):
        n = self.n if n is None else n
        c = self.r.choice([0, 1]) if ctype is None else ctype
        la = tuple(Fraction(self.r.randint(-12, 12), 4) for _ in range(n))
        lo = tuple(Fraction(self.r.randint(-12, 12), 4) for _ in range(n))
        if self.r.random() < .3:
            el, lf = (), ()
        else:
            el = tuple(Fraction(self.r.choice([0, 10, 50, 100, 400])) if self.r.random() > .1 else NAN for _ in range(n))
            lf = tuple(self.unit() for _ in range(n))
        return ('points', la, lo, el, lf, c)

    def kdtree(self, n=None, ctype=None):
        p = self.points(n, ctype)
        return ('kdtree', p[1], p[2], p[5])

    def point(self, ctype=None):
        c = self.r.choice([0, 1]) if ctype is None else ctype
        return ('point', Fraction(self.r.randint(-12, 12), 4), Fraction(self.r.randint(-12, 12), 4), self.f(), self.r.choice([NAN, self.unit()]), c)

    def structure(self, kind=None):
        return (kind or self.r.choice(['barnes', 'cressman', 'linear']), Fraction(self.r.choice([1000, 100000, 500000])), Fraction(self.r.choice([0, 100, 200])), Fraction(self.r.choice([0, 0, 1])) / 2, Fraction(1, 16))

    def default(self, t):
        p = S.parse_type(t)
        if p == 'f32' or p == 'f64':
            return self.f()
        if p in S.INTS:
            return self.int() if p not in S.UNSIGNED else self.int(0, 4)
        if p == 'bool':
            return self.r.random() < .5
        if isinstance(p, str) and p.startswith('enum:'):
            return self.r.choice(sorted(set(self.enums[p[5:]].values())))
        if p == ('vec', 'f32') or p == ('vec', 'f64'):
            return self.vec()
        if p == ('vec', ('vec', 'f32')):
            return self.vec2()
        if p == ('vec', ('vec', ('vec', 'f32'))):
            return self.vec3()
        if p == ('vec', 'i32'):
            return tuple(self.int() for _ in range(self.dim(self.n)))
        if p == ('vec', ('vec', 'i32')):
            return tuple(tuple(self.int() for _ in range(self.nx)) for _ in range(self.ny))
        if p == 'rec:gridpp::Grid':
            return self.grid()
        if p == 'rec:gridpp::Points':
            return self.points()
        if p == 'rec:gridpp::KDTree':
            return self.kdtree()
        if p == 'rec:gridpp::Point':
            return self.point()
        if p == 'rec:gridpp::StructureFunction':
            return self.structure()
        if p == ('vec', 'rec:gridpp::Point'):
            return tuple(self.point() for _ in range(self.n))
        for k in ('Barnes', 'Cressman', 'Soar', 'Toar', 'Powerlaw', 'Linear'):
            if p == 'rec:gridpp::%sStructure' % k:
                return self.structure(k.lower())
        if p == 'rec:gridpp::Identity':
            return ('identity',)
        if p == 'rec:gridpp::Log':
            return ('log',)
        if p == 'rec:gridpp::BoxCox':
            return ('boxcox', self.r.choice([Fraction(0), Fraction(1, 2), Fraction(1, 4), Fraction(1), Fraction(2), Fraction(-1)]))
        if p == 'rec:gridpp::StartedBoxCox':
            return ('startedboxcox', self.r.choice([Fraction(1, 4), Fraction(1, 2), Fraction(1), Fraction(2)]), self.r.choice([Fraction(1), Fraction(2), Fraction(1, 2), Fraction(4), Fraction(1, 256)]))
        if p == 'rec:gridpp::Gamma':
            return ('gamma', self.r.choice([Fraction(2), Fraction(1), Fraction(1, 2), Fraction(5)]), self.r.choice([Fraction(1), Fraction(2), Fraction(1, 2)]), self.r.choice([Fraction(1, 128), Fraction(1, 128), Fraction(1, 32)]))
        if p == 'rec:gridpp::Transform':
            return self.r.choice([('identity',), ('log',), ('boxcox', Fraction(1, 2))])
        raise CannotDrive('no generator for ' + str(t))


def scale(v):
    m = 0
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(x)
        elif isinstance(x, dict):
            st.extend(x.values())
        elif isinstance(x, Fraction):
            m = max(m, abs(x))
    return m


def dec(j, exact, tol):
    if isinstance(j, str):
        if j in ('nan', 'inf', '-inf'):
            return float(j)
        f = Fraction(float.fromhex(j))
        return f if exact else Ap(f, tol * max(1, abs(f)))
    if isinstance(j, list):
        return tuple(dec(x, exact, tol) for x in j)
    if isinstance(j, dict):
        return {k: dec(x, exact, tol) for k, x in j.items()}
    return j


def nominal(v, t):
    """value of a generated argument as the specification sees it (floats as float32)"""
    if isinstance(v, tuple):
        return tuple(nominal(x, None) for x in v)
    return v


def show(v):
    if isinstance(v, tuple):
        return '[' + ', '.join(show(x) for x in v) + ']'
    if isinstance(v, Fraction):
        return '%.9g' % float(v)
    return str(v)


class Runner:
    def __init__(self, exe):
        self.exe = exe

    def run(self, lines, timeout=120):
        """feeds the cases; yields per case ('res', dict) / ('crash', message) / ('hang', '')"""
        env = dict(os.environ, OMP_NUM_THREADS='3', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
        out = {}
        todo = list(lines)
        crashes = 0
        while todo and crashes < 40:
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, env=env)
            try:
                o, e = p.communicate('\n'.join(l for _, l in todo) + '\n', timeout=timeout)
                hang = False
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                hang = True
            cur = None
            for l in o.split('\n'):
                if l.startswith('BEGIN '):
                    cur = int(l[6:])
                elif l.startswith('RES '):
                    _, i, js = l.split(' ', 2)
                    try:
                        out[int(i)] = ('res', json.loads(js))
                    except ValueError:
                        out[int(i)] = ('bad', js)
                    cur = None
            if cur is not None:
                k = [i for i, (c, _) in enumerate(todo) if c == cur][0]
                if hang and len(todo) > 1:
                    # only a call that does not return when run alone counts
                    out.update(self.run([todo[k]], 60))
                else:
                    out[cur] = ('hang', '') if hang else ('crash', e[:4000])
                crashes += 1
                k = [i for i, (c, _) in enumerate(todo) if c == cur][0]
                todo = todo[k + 1:]
            else:
                break
        return out


def search(P, keys, workdir, seed=1, cases=150, budget=300, verbose=False, exe=None, focus=()):
    """looks for an input on which a contract is definitely violated; functions in `focus` get many more cases.
    Returns (findings, stats)"""
    fns = [P.functions[k] for k in keys if k in P.functions and 'body' in P.functions[k]]
    exe, idx, skipped = build(workdir, fns)
    runner = Runner(exe)
    findings, stats = [], {'functions': {}, 'skipped': skipped}
    t0 = time.time()
    keys = [k for k in keys if k in idx]
    parts = [(k, seed if i == 0 else seed * 1000 + i) for k in keys for i in range(8 if k in focus else 1)]
    parts.sort(key=lambda x: x[1] >= 1000)
    pool = Pool(max(1, JOBS - 2))

    def one(key, sd):
        f = []
        st = search_one(P, key, idx[key], runner, sd, cases, f, min(120, max(5, budget - (time.time() - t0))))
        return st, f
    res = pool.map([(one, p) for p in parts], 240, deadline=t0 + budget)
    for (key, sd), r in zip(parts, res):
        if r is None:
            stats['functions'].setdefault(key, {'cases': 0, 'checked': 0, 'stopped': 'time'})
            continue
        st, f = r
        old = stats['functions'].setdefault(key, {})
        for a, v in st.items():
            old[a] = old[a] + v if isinstance(v, int) and a in old else v
        findings += f
        if verbose:
            print('   search', key, st, flush=True)
    order = {k: i for i, k in enumerate(keys)}
    findings.sort(key=lambda f: order.get(f['function'], 0))
    return findings, stats


def literals(P, key, seen=None):
    """the constants in the function and the gridpp functions it calls: boundary values worth trying"""
    seen = set() if seen is None else seen
    ints, floats = set(), set()
    if key in seen or key not in P.functions:
        return ints, floats
    seen.add(key)
    st = [P.functions[key].get('body')]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(x)
        elif isinstance(x, dict):
            if x.get('k') == 'int':
                ints.add(int(x['v']))
            elif x.get('k') == 'float':
                try:
                    v = Fraction(float(x.get('d') or x['v']))
                except (ValueError, OverflowError):
                    continue
                if abs(v) < 10 ** 7 and (v * 64).denominator == 1:
                    floats.add(v)
                elif abs(v) < 10 ** 7:
                    floats.add(Fraction(round(v * 64), 64))
                    if abs(v) < 1:
                        floats.add(Fraction(round(v * 4096), 4096))
            elif x.get('k') == 'call' and isinstance(x.get('fn'), dict) and len(seen) < 6:
                a, b = literals(P, x['fn'].get('key'), seen)
                ints |= a
                floats |= b
                st.extend(v for k, v in x.items() if k != 'fn')
                continue
            st.extend(x.values())
    return ints, floats


def search_one(P, key, fidx, runner, seed, cases, findings, budget):
    c = SP.CONTRACTS[key]
    fn = P.functions[key]
    enum = P.enumconst
    t0 = time.time()
    rnd = random.Random('%s/%d' % (key, seed))
    this = bool(fn.get('parent')) and not fn.get('static') and not fn.get('ctor')
    li, lf = literals(P, key)
    lits = (sorted(li), sorted(lf | {Fraction(i) for i in li if abs(i) < 10 ** 6}))
    lines, inputs = [], {}
    names = c.params
    conc.REL = Fraction(c.fp) if c.fp else 0
    try:
        for i in range(cases):
            g = G(rnd, P.enums, lits)
            vals = {}
            if c.gen:
                vals.update(c.gen(g))
            seen = set()
            same = rnd.random() < .93
            for n, p in zip(names, fn['params']):
                if n not in vals and p['t'] in ('rec:gridpp::Grid', 'rec:gridpp::Points'):
                    # same coordinate type, dimensions of their own
                    first = p['t'] not in seen
                    ct = g.ctype if same else None
                    if p['t'].endswith('Grid'):
                        vals[n] = g.grid(ctype=ct) if first else g.grid(rnd.choice([0, 1, 2, 3, 4, 5]), rnd.choice([1, 2, 3, 4, 5]), ct)
                    else:
                        vals[n] = g.points(ctype=ct) if first else g.points(rnd.choice([0, 1, 2, 3, 5, 7]), ct)
                    seen.add(p['t'])
                if n not in vals:
                    vals[n] = g.default(p['t'])
            if this and 'this' not in vals:
                vals['this'] = g.default('rec:' + fn['parent'])
            toks = [str(i), str(fidx)]
            if this:
                toks.append(enc(vals['this'], 'rec:' + fn['parent']))
            for n, p in zip(names, fn['params']):
                toks.append(enc(vals[n], p['t']))
            lines.append((i, ' '.join(toks)))
            inputs[i] = vals
    except CannotDrive as e:
        return {'skipped': str(e)}
    # preconditions over plain arguments are filtered before running
    pre_ok = {}
    run = []
    for i, l in lines:
        env = {n: inputs[i][n] for n in names}
        recs = any('rec:' in p['t'] for p in fn['params']) or this
        ok = True
        if not recs:
            ev = conc.Ev(enum)
            e2 = lets(c, ev, env)
            for r in c.requires:
                if ev.text(r, e2) is not True:
                    ok = False
        if ok:
            run.append((i, l))
    res = runner.run(run)
    st = {'cases': len(run), 'checked': 0, 'undetermined': 0, 'violations': 0, 'exceptions': 0}
    for i, l in run:
        if time.time() - t0 > budget:
            st['stopped'] = 'time'
            break
        if i not in res:
            continue
        kind, data = res[i]
        env = {n: inputs[i][n] for n in names}
        if kind == 'bad':
            continue
        if kind in ('crash', 'hang'):
            # which precondition applies cannot be read off the objects; only report when the arguments are plain or unconstrained
            recs = any('rec:' in p['t'] for p in fn['params']) or this
            if recs and c.requires and not c.crash_ok:
                continue
            st['violations'] += 1
            findings.append(dict(function=key, input={n: show(inputs[i][n]) for n in inputs[i]}, case=l, what='the call %s' % ('does not return' if kind == 'hang' else 'crashes (sanitizer or assertion)'), detail=data[-3500:] if isinstance(data, str) else data))
            if st['violations'] >= 3:
                break
            continue
        for n, (j, p) in zip(names, enumerate(fn['params'])):
            if 'arg%d' % j in data:
                env[n] = dec(data['arg%d' % j], True, 0)
        if 'this' in data:
            env['this'] = dec(data['this'], True, 0)
        sc = max(1, scale([v for k, v in inputs[i].items()]))
        tol = Fraction(c.tol or Fraction(1, 20000)) * (sc if sc < 10000 else Fraction(sc) / 50) if not c.fp else Fraction(c.tol or Fraction(1, 200000))
        ev = conc.Ev(enum)
        try:
            env = lets(c, ev, env)
            if any(ev.text(r, env) is not True for r in c.requires):
                continue
        except conc.Unk:
            continue
        st['checked'] += 1
        exc = 'exc' in data
        st['exceptions'] += exc
        bad = None
        T = c.throws if c.throws is not None else None
        tv = ev.text(T, env) if T is not None else False
        if exc:
            if c.throws is not None:
                if tv is False:
                    bad = 'an exception is thrown although not (%s)' % T
            elif c.may_throw is not None:
                if ev.text(c.may_throw, env) is False:
                    bad = 'an exception is thrown although not (%s)' % c.may_throw
            else:
                bad = 'an exception is thrown'
        else:
            if tv is True:
                bad = 'no exception is thrown although %s' % T
            else:
                e2 = dict(env)
                if fn['ret'] != 'void' or fn.get('ctor'):
                    e2['result'] = dec(data['ret'], False, tol)
                for n, (j, p) in zip(names, enumerate(fn['params'])):
                    if 'out%d' % j in data:
                        e2[n + '_out'] = dec(data['out%d' % j], False, tol)
                if 'this_out' in data:
                    e2['this_out'] = dec(data['this_out'], False, tol)
                for name, text in c.ensures:
                    ev.steps = 0
                    r = ev.text(text, e2)
                    if r is None:
                        st['undetermined'] += 1
                    if r is False:
                        bad = '%s: %s' % (name, ' '.join(text.split()))
                        break
        if bad:
            st['violations'] += 1
            findings.append(dict(function=key, input={n: show(inputs[i][n]) for n in inputs[i]}, case=l, what=bad, detail='the code returned ' + json.dumps(readable(data))[:2500]))
            if st['violations'] >= 3:
                break
    return st


def readable(d):
    if isinstance(d, str):
        return d if d in ('nan', 'inf', '-inf') else float.fromhex(d)
    if isinstance(d, list):
        return [readable(x) for x in d]
    if isinstance(d, dict):
        return {k: readable(v) for k, v in d.items() if not k.startswith('arg') and k != 'this'}
    return d


def lets(c, ev, env):
    env = dict(env)
    for n, t in c.lets:
        try:
            env[n] = ev.ev(SP.parse(t), env)
        except conc.Unk:
            def f():
                raise conc.Unk()
            env[n] = f
    return env
