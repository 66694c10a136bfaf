#!/usr/bin/env python3-vt
"""check.py <property>: verify the contracts a property rests on against /repo's current sources."""
import sys, os, json, time, multiprocessing as mp, subprocess, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
from dv import cast, build as B
import contracts.registry as R

class OutOfTime(Exception): pass
def _alarm(sig, fr): raise OutOfTime('time limit for one function reached')
def worker(key):
    import signal
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(max(5, int(DEADLINE + 15 - time.time())))
    try: return worker1(key)
    except OutOfTime as x:
        return dict(key=key, error='verifier: %s' % x, obligs=[], used=[], inlined=[], assumptions={}, time=0, prover={}, vacuous=False, tb='', loc='')
    finally: signal.alarm(0)
def worker1(key):
    from dv import contract as C
    con = R.contract_by_key(key)
    try:
        rep = C.verify(PROG, con, C.REG, dict(R.OPTS.get(key, {})), DEADLINE)
    except Exception as x:
        return dict(key=key, error='verifier error: %s' % x, obligs=[], used=[], inlined=[], assumptions={}, time=0, prover={}, vacuous=False, tb=traceback.format_exc(), loc='')
    obs = []
    for o in rep.obligs:
        r = o.res
        obs.append(dict(cat=o.cat, fn=o.fn, where=o.where, msg=o.msg, status=r.status if r else 'unknown', theory=r.theory if r else '',
                        backend=r.backend if r else '', info=(r.info or '')[:4000] if r and r.status != 'proved' else '', goal='' if r and r.status == 'proved' else repr(o.goal)[:3000]))
    return dict(key=key, error=rep.error, obligs=obs, used=sorted(rep.used), inlined=sorted(rep.inlined), assumptions=rep.assumptions,
                time=rep.time, prover=rep.prover, vacuous=rep.vacuous, loc=rep.loc, tb=getattr(rep, 'tb', ''))

def lemma_worker(name):
    return R.run_lemma(name, DEADLINE)

def main():
    global PROG, DEADLINE
    pid = sys.argv[1]
    P = R.load(pid)
    budget = 200 if TIER == 'quick' else 600
    DEADLINE = T0 + budget
    os.makedirs(B.BUILD + '/gen', exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True); os.makedirs(HERE + '/build/replays', exist_ok=True)
    reports = {}; lemmas = []; fatal = None
    try:
        cast.genproto(B.BUILD + '/gen')
        PROG = cast.Program(['src/' + s for s in R.sources(P)], B.BUILD + '/gen')
        todo = list(P['functions'])
        ctx = mp.get_context('fork')
        while todo:
            with ctx.Pool(min(8, max(1, len(todo)))) as pool:
                for r in pool.imap_unordered(worker, todo): reports[r['key']] = r
            nxt = []
            for r in list(reports.values()):
                r['used'] = [u for u in r['used'] if u not in R.OPTS.get(r['key'], {}).get('skip_ens', ())]   # stages whose contract is not relied upon, only named
                for u in r['used']:
                    if u not in reports and u not in nxt and not R.contract_by_key(u).assumed: nxt.append(u)
            todo = nxt
        for nm in P.get('lemmas', ()): lemmas.append(lemma_worker(nm))
    except Exception as x:
        fatal = '%s: %s' % (type(x).__name__, str(x)[:2000])
        if os.environ.get('DV_DEBUG'): traceback.print_exc()
    # ---------------- classify
    refuted, undecided, proved, total = [], [], 0, 0
    assumed = {}
    known = [k for k in R.KNOWN if k['property'] == pid]
    knownhit = []
    if fatal: undecided.append(dict(fn='(extraction)', cat='extract', msg=fatal, status='unknown', goal='', info='', where=''))
    for key, r in sorted(reports.items()):
        for k in r['assumptions']: assumed[k] = assumed.get(k, 0) + r['assumptions'][k]
        if r['error']:
            undecided.append(dict(fn=key, cat='extract', msg=r['error'], status='unknown', goal='', info=r.get('tb', '')[-1500:], where=r['loc'])); continue
        if r['vacuous']:
            undecided.append(dict(fn=key, cat='vacuity', msg='the contract admits no execution', status='unknown', goal='', info='', where=r['loc']))
        shaky = any(o['cat'] == 'loop' and o['status'] != 'proved' for o in r['obligs'])
        for o in r['obligs']:
            total += 1
            o['contract'] = key
            if o['status'] == 'proved':
                proved += 1; continue
            if any(k.get('fn') == o['fn'] and k.get('cat') == o['cat'] and k.get('msg', '') in o['msg'] for k in known if 'fn' in k):
                knownhit.append(o); continue
            if o['status'] == 'failed' and o['cat'] != 'loop' and not shaky: refuted.append(o)
            else: undecided.append(o)
    for l in lemmas:
        for o in l['obligs']:
            total += 1
            o['contract'] = l['name']
            if o['status'] == 'proved': proved += 1
            elif o['status'] == 'failed': refuted.append(o)
            else: undecided.append(o)
    # ---------------- replay / bounded stand-in on the real code
    H = P.get('harness'); hres = None
    rpath = os.path.join(HERE, 'build', 'replays', '%s.txt' % pid)
    if H and (refuted or undecided or knownhit or P.get('always_run') or TIER == 'thorough'):
        hres = run_harness(pid, H)
    viol = None
    if hres and hres['failed']:
        viol = 'VIOLATION property=%s replay=%s' % (pid, rpath)
    elif refuted:
        viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath)
    if viol:
        with open(rpath, 'w') as f:
            if hres: f.write('replay command: %s\n%s\n' % (hres['cmd'], hres['out']))
            for o in refuted + undecided:
                f.write('\nfailed obligation [%s] %s %s: %s (%s)\n  goal: %s\n  prover: %s\n' % (o['cat'], o['fn'], o.get('where', ''), o['msg'], o['status'], o['goal'], o['info']))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = evidence(pid, P, reports, lemmas, total, proved, refuted, undecided, assumed, hres, known, 1 if viol else 0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d obligations, %d discharged, %d refuted, %d undecided, %.1fs' % (pid, len(reports), total, proved, len(refuted), len(undecided), time.time() - T0))
    for o in (refuted + undecided)[:12]: print('  %s [%s] %s %s: %s' % ('FAILED' if o in refuted else 'UNDECIDED', o['cat'], o['fn'], o.get('where', ''), o['msg']))
    if hres: print('  replay on the real code: %s' % hres['summary'])
    if viol:
        print(viol); return 1
    return 0

def run_harness(pid, H):
    san = H.get('san', False)
    exe, err = B.build(pid, H['file'], H.get('sources', ()), san=san)
    if exe is None: return dict(failed=False, summary='not built: ' + err[:300], out=err, cmd='', cases=0)
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, ASAN_OPTIONS='detect_leaks=%d:allocator_may_return_null=1' % (1 if H.get('leaks') else 0), UBSAN_OPTIONS='print_stacktrace=1')
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='dvreplay')
    try:
        p = subprocess.run([exe], capture_output=True, text=True, errors='replace', env=env, cwd=d, timeout=200 if TIER == 'quick' else 600)
        if p.returncode != 0 and 'LeakSanitizer has encountered a fatal error' in p.stderr:      # no tracing allowed here: run without the leak check
            env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            p = subprocess.run([exe], capture_output=True, text=True, errors='replace', env=env, cwd=d, timeout=200 if TIER == 'quick' else 600)
        rc, out = p.returncode, p.stdout[-6000:] + p.stderr[-6000:]
    except subprocess.TimeoutExpired as x:
        rc, out = 124, 'FAIL: the code did not return within the time limit\n' + ((x.stdout or b'').decode(errors='replace')[-3000:] if isinstance(x.stdout, bytes) else str(x.stdout)[-3000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    failed = rc != 0
    cases = 0
    for l in out.split('\n'):
        if l.startswith('CASES '):
            try: cases = int(l.split()[1])
            except ValueError: pass
    first = next((l for l in out.split('\n') if 'FAIL' in l or 'ERROR' in l or 'runtime error' in l), 'exit code %d' % rc)
    return dict(failed=failed, summary=('failing input: ' + first[:400]) if failed else 'no failure in %d cases' % cases, out=out, cmd='VERIF_SEED=%d %s' % (SEED, exe), cases=cases)

def evidence(pid, P, reports, lemmas, total, proved, refuted, undecided, assumed, hres, known, nv):
    backends = {}; st = 0.0; q = 0; theories = {}
    for r in reports.values():
        for k, v in (r['prover'].get('by') or {}).items(): backends[k] = backends.get(k, 0) + v
        st += r['prover'].get('time', 0.0) if r['prover'] else 0; q += r['prover'].get('queries', 0) if r['prover'] else 0
        for o in r['obligs']:
            if o['status'] == 'proved' and o['theory']: theories[o['theory']] = theories.get(o['theory'], 0) + 1
    for l in lemmas:
        for o in l['obligs']:
            k = '%s/%s' % (o['backend'], o['theory']); backends[k] = backends.get(k, 0) + 1 if o['status'] == 'proved' else backends.get(k, 0)
        st += l.get('time', 0.0)
    tb = ['clang 18 AST of the preprocessed sources', 'the contract verifier in /verif/dv (symbolic execution, loop-summary induction, library contracts in dv/lib.py)', 'z3 4.15 / z3 python 5.3, cvc5 1.1.2',
          'IEEE operations are uninterpreted except for exact simplifications; obligations counted under theory "real" treat floating point as real numbers']
    asm = ['%s (%d sites)' % (k, v) for k, v in sorted(assumed.items())]
    ext = set()
    for r in reports.values():
        for u in r['used']:
            c = R.contract_by_key(u)
            if c.assumed: ext.add('assumed contract of %s: %s' % (u, c.assumed))
    asm += sorted(ext)
    asm += list(P.get('assumptions', ()))
    asm += ['container and file sizes below 2^48', 'data-dependent loops and recursion terminate (partial correctness) unless a trip count was proved']
    cov = dict(obligations=total, discharged=proved, checker_cmd='python3-vt check.py %s' % pid, trusted_base=tb,
               functions_under_contract=[dict(function=k, where=r['loc'], obligations=len(r['obligs']), discharged=sum(o['status'] == 'proved' for o in r['obligs']), seconds=round(r['time'], 2), error=r['error']) for k, r in sorted(reports.items())],
               bodies_inlined=sorted({i for r in reports.values() for i in r['inlined']}),
               lemmas=[dict(name=l['name'], obligations=len(l['obligs']), discharged=sum(o['status'] == 'proved' for o in l['obligs'])) for l in lemmas],
               discharged_by=backends, solver_seconds=round(st, 2), solver_queries=q,
               vacuity='every contract has a satisfiable exit state on this run' if not any(r['vacuous'] for r in reports.values()) else 'VACUOUS',
               undecided=[dict(fn=o['fn'], cat=o['cat'], msg=o['msg'][:300], where=o.get('where', '')) for o in undecided],
               refuted=[dict(fn=o['fn'], cat=o['cat'], msg=o['msg'][:300], where=o.get('where', '')) for o in refuted],
               unclaimed_parts=P.get('gaps', []))
    if hres: cov['bounded_stand_in'] = dict(label='bounded, not proved', cases=hres['cases'], result=hres['summary'])
    return dict(property=pid, tier=TIER, seed=SEED, level=P.get('level', 'proof'), coverage=cov, assumptions=asm, wall_s=round(time.time() - T0, 2), violations=nv)

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
