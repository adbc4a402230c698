#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> : decides one property from /repo's current sources.  Exit 0: every obligation is discharged;
exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, shutil, tempfile, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'contracts')]
os.environ.setdefault('PYTHONHASHSEED', '0')
from gv import frontend, core, solve, sorts, spec as SP, replay

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(HERE, 'evidence')
KINDS_SAFETY = ('bounds', 'alloc', 'divzero', 'assert', 'noreturn', 'precondition')


def load_contracts():
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module(f[:-3])


def findings_file():
    """known findings: (property, text) pairs; `fixed:` entries suppress nothing"""
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:'):
                    out.append(json.loads(l[8:]))
    except FileNotFoundError:
        pass
    return out


def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    t0 = time.time()
    load_contracts()
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    prop = [p for p in props if p['id'] == pid][0]
    budget = 2400 if TIER == 'thorough' else 450
    timeout = 40.0 if TIER == 'thorough' else 10.0
    reasons = []
    try:
        P = frontend.load_program(SP.EXTRA_SOURCES.get(pid, ()))
    except frontend.ExportError as e:
        print('the sources cannot be read by the front end: ' + str(e)[:2000])
        return 3
    S = sorts.Sorts(P)
    pool = solve.Pool()
    cache = core.load_cache()
    mine = [k for k, c in SP.CONTRACTS.items() if pid in c.props]
    todo = list(mine)
    done, results, bounded, absent, trusted = [], [], [], [], []
    gaps = []
    while todo:
        k = todo.pop(0)
        if k in done:
            continue
        done.append(k)
        c = SP.CONTRACTS[k]
        if k not in P.functions or 'body' not in P.functions[k]:
            if c.trusted:
                trusted.append(k)
            elif k in mine and not c.internal:
                gaps.append((k, 'the function is not defined in the sources'))
            else:
                absent.append(k)
            continue
        if c.trusted:
            trusted.append(k)
            continue
        if c.bounded:
            bounded.append(k)
            continue
        left = budget - (time.time() - t0)
        if left < 30:
            gaps.append((k, 'not attempted: the time of this check ran out'))
            continue
        R = core.verify(P, S, k, pool, cache, timeout=timeout, verbose=verbose, full_budget=min(150 if TIER == 'quick' else 900, left), limit=min(300, left + 20) if TIER == 'quick' else None)
        results.append(R)
        if verbose:
            print('%s: %s (%.1fs)' % (k, R.error or '%d obligations, %d failed' % (len(R.vcs), len(R.failed)), R.time), flush=True)
            for v in R.failed:
                print('    failed:', v.kind, v.line, v.desc[:200])
        todo += [x for x in sorted(R.assumed) if x in SP.CONTRACTS]
    # vacuity: a contract whose precondition (or the facts of the function) is contradictory proves nothing
    vac = []
    for R in results:
        if R.error is None and not core.vacuity(R, pool):
            vac.append(R.key)
            gaps.append((R.key, 'vacuous: the end of the function is unreachable under its precondition'))
    lem = {}
    need = sorted({l for R in results for l in R.lemmas})
    if results:
        T = [R.V.T for R in results if getattr(R, 'V', None)]
        if T:
            lem = core.prove_lemmas(SP.Trans(S, P.enumconst), need, pool, timeout)
    badlem = [n for n, r in lem.items() if r[0] != 'unsat']
    for n in badlem:
        gaps.append(('lemma ' + n, 'not proved'))
    failed = [(R.key, v) for R in results if R.error is None for v in R.failed]
    errors = [(R.key, R.error) for R in results if R.error]
    nob = sum(len(R.vcs) + R.inv_proved for R in results if not R.error) + len(lem)
    ndis = nob - len(failed) - len(badlem)
    # ---------------------------------------------------------------- deciding
    search_keys = []
    violations, stats = [], None
    problem = bool(failed or errors or gaps)
    work = tempfile.mkdtemp(prefix='gvcheck_')
    try:
        if bounded or problem:
            first = [k for k, _ in failed] + [k for k, _ in errors] + [k for k, _ in gaps]
            order = []
            for k in first + mine + bounded + [R.key for R in results]:
                if k in SP.CONTRACTS and k not in order and SP.CONTRACTS[k].search and (problem or k in bounded):
                    order.append(k)
            cases = (600 if TIER == 'thorough' else 150) * (3 if problem else 2)
            try:
                violations, stats = replay.search(P, order, work, SEED, cases, 150 if TIER == 'quick' else 1400, verbose, focus={k for k, _ in failed + errors + gaps} or set(bounded))
            except RuntimeError as e:
                print('search: ' + str(e)[:1500])
                stats = {'error': str(e)[:1500]}
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if failed and not violations:
        # nothing found by running the code: the solvers get more time before this counts as a violation
        for i, R in enumerate(results):
            left = (780 if TIER == 'quick' else 3000) - (time.time() - t0)
            if R.error is None and R.failed and left > 60:
                R2 = core.verify(P, S, R.key, pool, cache, timeout=timeout, verbose=verbose, full_budget=left / 2, slow=3, deadline=time.time() + left - 30, limit=left)
                if R2.error is None and len(R2.failed) < len(R.failed):
                    results[i] = R2
        failed = [(R.key, v) for R in results if R.error is None for v in R.failed]
        nob = sum(len(R.vcs) + R.inv_proved for R in results if not R.error) + len(lem)
        ndis = nob - len(failed) - len(badlem)
        problem = bool(failed or errors or gaps)
    known = [f for f in findings_file() if f['property'] == pid]
    def is_known(v):
        return any(f.get('function') == v['function'] and f.get('what') == v['what'] and f.get('case') == v['case'] for f in known)
    fresh = [v for v in violations if not is_known(v)]
    # ---------------------------------------------------------------- report
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, 'replay-%s.json' % pid)
    rc = 0
    for f in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['text']))
    if fresh:
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, title=prop['title'], inputs=fresh, failed_obligations=[dict(function=k, kind=v.kind, line=v.line, obligation=v.desc) for k, v in failed],
                           note='each input was run on the compiled code of /repo (address and undefined-behaviour sanitizers on); `what` is the contract clause it breaks'), f, indent=1)
        for v in fresh[:3]:
            print('%s: %s\n   input: %s' % (v['function'], v['what'][:600], json.dumps(v['input'])[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif problem:
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, title=prop['title'], failed_obligations=[dict(function=k, kind=v.kind, line=v.line, obligation=v.desc, verifier=v.status, goal=v.model) for k, v in failed],
                           not_generated=[dict(function=k, reason=e) for k, e in errors + gaps], searched=stats,
                           note='the verifier no longer accepts these obligations; no failing input was found by running the code'), f, indent=1, default=str)
        for k, v in failed[:10]:
            print('obligation not discharged: %s line %s: %s: %s' % (k, v.line, v.kind, v.desc[:300]))
        for k, e in (errors + gaps)[:10]:
            print('obligations of %s: %s' % (k, e[:500]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    be = {}
    for R in results:
        for b, n in R.backends.items():
            be[b] = be.get(b, 0) + n
    ass = sorted({t for R in results for t in R.trusted}) + ['trusted contract: ' + k for k in trusted]
    tl = sorted(n for n in need if SP.LEMMAS[n].trusted)
    ass += ['axiom %s: %s' % (n, SP.LEMMAS[n].ensures) for n in tl]
    for k in mine:
        if SP.CONTRACTS[k].note:
            ass.append('%s: %s' % (k, SP.CONTRACTS[k].note))
    for R in results:
        ass += ['assumed of %s (%s): %s' % (k, n, t) for k in sorted(R.assumed) if k in SP.CONTRACTS for n, t in SP.CONTRACTS[k].assumes]
        for r in SP.CONTRACTS[R.key].requires:
            ass.append('precondition of %s: %s' % (R.key, r))
    ass = sorted(set(ass), key=ass.index)
    ass += ['float arithmetic is treated as exact real arithmetic with NaN and infinities; int overflow is not modelled',
            'termination is not proved', 'vectors have at most 2^31-1 elements', 'reference parameters do not alias', 'the clang AST export and the verification condition generator are trusted']
    proved = [R for R in results if not R.error and not R.failed]
    cov = dict(obligations=nob, discharged=ndis, trivially_true=sum(R.trivial for R in results),
               checker_cmd='python3-vt check.py ' + pid,
               trusted_base=['z3 5.3', 'cvc5 1.1', 'z3 4.8', 'clang 18 AST', 'gv/vcgen.py'],
               functions_proved=[R.key for R in proved], functions_not_proved=[R.key for R in results if R not in proved],
               functions_bounded=bounded, functions_inlined=sorted({x for R in results for x in R.inlined}),
               invariants=sum(R.inv_proved for R in results), by_backend=be, lemmas_proved={n: round(r[2], 3) for n, r in lem.items() if r[0] == 'unsat'},
               solver_s=round(sum(R.time for R in results), 1), vacuity_checked=len(results), vacuous=vac, contracts_absent=absent,
               bounded_search=stats or {})
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level_of(pid, results, bounded), coverage=cov, assumptions=ass, wall_s=round(time.time() - t0, 1), violations=len(fresh) if fresh else int(problem))
    if ev['level'] == 'exploration':
        fs = (stats or {}).get('functions', {})
        cov['evaluations'] = sum(f.get('cases', 0) for f in fs.values())
        cov['distinct_nontrivial'] = sum(f.get('checked', 0) for f in fs.values())
        cov['rule'] = 'random arguments within the stated bounds; a case counts when the precondition holds and the contract was evaluated'
        cov['samples'] = sorted(fs)[:5]
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0:
        print('property %s holds: %d obligations of %d functions discharged, %d lemmas, %d functions checked within bounds (%.0fs)' % (pid, ndis, len(proved), len(lem), len(bounded), time.time() - t0))
    return rc


def level_of(pid, results, bounded):
    if not results:
        return 'exploration'
    return 'proof'


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
