"""Front end: runs the clang-based exporter on /repo's current sources and loads the IR."""
import json, os, subprocess, hashlib, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GV_REPO', '/repo')
BUILD = os.environ.get('GV_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18'
CXX = 'clang++-18'
FLAGS = ['-std=c++14', '-fopenmp', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'tools', 'inc'),
         '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'src/client'),
         '-resource-dir', LLVM + '/lib/clang/18']


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def exporter():
    """Builds the exporter if it is missing or older than its source."""
    src = os.path.join(VERIF, 'tools', 'astdump.cpp')
    out = os.path.join(BUILD, 'astdump-' + sha([src]))
    with Lock('astdump'):
        if not os.path.exists(out):
            r = run(['g++', '-O0', '-std=c++17', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', out + '.tmp',
                     '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib'])
            if r.returncode:
                raise SystemExit('exporter build failed:\n' + r.stderr)
            os.rename(out + '.tmp', out)
    return out


def headers():
    hs = []
    for d, _, fs in os.walk(os.path.join(REPO, 'include')):
        for f in sorted(fs):
            hs.append(os.path.join(d, f))
    return sorted(hs)


def pch():
    h = os.path.join(REPO, 'include', 'gridpp.h')
    out = os.path.join(BUILD, 'gridpp-%s-%x.pch' % (sha(headers()), os.stat(h).st_mtime_ns))
    with Lock('pch'):
        if not os.path.exists(out):
            for f in os.listdir(BUILD):
                if f.endswith('.pch'):
                    os.unlink(os.path.join(BUILD, f))
            r = run([CXX] + FLAGS + ['-x', 'c++-header', h, '-o', out + '.tmp'])
            if r.returncode:
                raise ExportError('gridpp.h does not compile:\n' + r.stderr[-3000:])
            os.rename(out + '.tmp', out)
    return out


class ExportError(Exception):
    pass


def local_headers(path):
    if '/client/' not in path:
        return []
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src', 'client')):
        out += [os.path.join(d, f) for f in fs if f.endswith('.h')]
    return sorted(out)


def export_file(path, use_pch=True):
    exe = exporter()
    flags = list(FLAGS)
    cached = os.path.join(BUILD, 'ir', sha([exe, path] + headers() + local_headers(path)) + '.json')
    if os.path.exists(cached):
        with open(cached) as f:
            return f.read()
    if use_pch:
        flags += ['-include-pch', pch()]
    r = run([exe, REPO + '/', path, '--'] + flags)
    if '@@END' not in r.stdout:
        raise ExportError('%s: clang does not accept the file:\n%s' % (path, r.stderr[-3000:]))
    os.makedirs(os.path.dirname(cached), exist_ok=True)
    with open(cached + '.%d' % os.getpid(), 'w') as f:
        f.write(r.stdout)
    os.rename(cached + '.%d' % os.getpid(), cached)
    return r.stdout


class Program:
    def __init__(self):
        self.functions = {}      # key -> decl dict (with body when defined)
        self.records = {}
        self.enums = {}
        self.enumconst = {}
        self.globals = {}
        self.files = []
        self.overriders = {}

    def load(self, text, origin):
        for line in text.split('\n'):
            if not line.startswith('@@ '):
                continue
            d = json.loads(line[3:])
            k = d['kind']
            if k == 'function':
                d['origin'] = origin
                old = self.functions.get(d['key'])
                if old is None or ('body' in d and 'body' not in old):
                    if old is not None and old.get('overrides') and not d.get('overrides'):
                        d['overrides'] = old['overrides']
                    self.functions[d['key']] = d
                if d.get('overrides'):
                    for b in d['overrides']:
                        self.overriders.setdefault(b, set()).add(d['key'])
            elif k == 'record':
                self.records[d['q']] = d
            elif k == 'enum':
                self.enums[d['q']] = {c['name']: int(c['v']) for c in d['consts']}
                for c in d['consts']:
                    self.enumconst[c['name']] = int(c['v'])
            elif k == 'gvar':
                if d.get('init') is not None or d['q'] not in self.globals:
                    self.globals[d['q']] = d
            elif k == 'globals':
                for v in d['vars']:
                    self.globals.setdefault(v['q'], v)


def api_sources():
    d = os.path.join(REPO, 'src', 'api')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


def load_program(extra=()):
    """extra: client sources (parsed without the precompiled header)."""
    exporter()
    srcs = [(s, True) for s in api_sources()] + [(os.path.join(REPO, s), False) for s in extra]
    P = Program()
    with ThreadPoolExecutor(int(os.environ.get('GV_JOBS', '8'))) as ex:
        outs = list(ex.map(lambda s: export_file(*s), srcs))
    for (s, _), o in zip(srcs, outs):
        P.load(o, s)
        P.files.append(s)
    return P
