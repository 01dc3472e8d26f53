#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough] [-v] [--only wrapper]
Builds /repo's current strtk.hpp through the property's harness, discharges every
contract obligation, writes evidence/<id>.json.  Exit 0 / 1 (VIOLATION line)."""
import sys, os, time, json, importlib, multiprocessing as mp, tempfile, shutil, subprocess, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
import irbuild, llir, models
import contract as ct

MOD = None
CONS = None
OPT = None
BEAT = None
def none(i, why): return {'fn': CONS[i].fname, 'api': CONS[i].api, 'obls': [], 'error': why, 'checks': 0, 'solver_s': 0, 'wall': 0, 'paths': 0, 'models': []}
def work(i, retry=False, beat=None, attempt=0):
    left = OPT['deadline'] - time.time()
    if left < 5: return none(i, 'not reached within the time limit')
    try:
        return ct.verify(MOD, CONS[i], verbose=OPT['verbose'], extra=dict(OPT['extra'], budget=min(OPT['extra']['budget'], left), beat=beat, seed=attempt, **({'timeout': 40000, 'cand_timeout': 15000} if retry else {})))
    except Exception:
        return none(i, 'internal: ' + traceback.format_exc()[-1500:])
class Job:
    """one contract in a process of its own.  The solver sometimes does not come back within its time limit; such a process
    is ended and the contract is started again with another solver seed"""
    def __init__(s, i, retry=False): s.i, s.retry, s.attempt, s.proc, s.res = i, retry, 0, None, None
    def start(s):
        s.beat = mp.get_context('fork').RawArray('d', 1)
        s.rx, tx = mp.get_context('fork').Pipe(False)
        def body():
            tx.send(work(s.i, s.retry, s.beat, s.attempt)); tx.close(); os._exit(0)
        s.proc = mp.get_context('fork').Process(target=body, daemon=True); s.proc.start(); tx.close()
    def stop(s):
        if s.proc is not None: s.proc.kill(); s.proc.join(); s.rx.close(); s.proc = None
    def poll(s):
        """finished?"""
        now = time.time()
        if s.rx.poll():
            try: s.res = s.rx.recv()
            except EOFError: s.res = none(s.i, 'the proof process ended without a result')
        elif s.beat[0] and now > s.beat[0] + 15 and s.attempt < 4 and OPT['deadline'] - now > 5:
            print('  %s: the solver overran its time limit; started again' % CONS[s.i].fname, flush=True)
            s.stop(); s.attempt += 1; s.start(); return False
        elif now > OPT['deadline'] + 20: s.res = none(s.i, 'no answer within the time limit')
        else: return False
        s.stop(); return True

def replay(pid, src, work_dir, secs, seed, hints):
    """native search for a failing input on the real code; -> (found, text)"""
    exe = os.path.join(work_dir, 'replay_' + pid)
    flags = ['-std=c++11', '-O1', '-g', '-w', '-I', irbuild.REPO, '-I', os.path.join(HERE, 'replay'),
             '-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift,return', '-fno-sanitize-recover=all']
    p = subprocess.run(['clang++-18'] + flags + ['-o', exe, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: return False, 'replay program does not compile:\n' + p.stdout[-3000:]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0')
    try:
        p = subprocess.run([exe, str(seed), str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=secs + 60, env=env)
    except subprocess.TimeoutExpired as e:
        return False, 'replay search timed out'
    if p.returncode in (1, 77, 78) or p.returncode < 0 or p.returncode == 134:
        return True, (p.stdout[-4000:] + '\n' + p.stderr[-4000:])
    if p.returncode != 0: return False, 'replay program failed rc=%d\n%s' % (p.returncode, p.stderr[-2000:])
    return False, p.stdout[-2000:]

def main():
    global MOD, CONS, OPT
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = a[a.index('--only') + 1] if '--only' in a else None
    t0 = time.time()
    P = importlib.import_module(pid)
    work_dir = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        ll = os.path.join(work_dir, pid + '.ll')
        builderr = None
        try:
            irbuild.build_ir(os.path.join(HERE, 'harness', pid + '.cpp'), ll, noinline=getattr(P, 'NOINLINE', ()), extra=getattr(P, 'CFLAGS', ()))
        except irbuild.BuildError as e:
            print('check error: cannot build the harness against /repo:\n' + str(e)[-3000:])
            return 2
        MOD = llir.Module(open(ll).read())
        if '--keep' in a: shutil.copy(ll, '/tmp/%s.ll' % pid)
        models.demangle(list(MOD.fns))
        CONS = [c for c in P.CONTRACTS if not only or c.fname == only]
        budget = 560.0 if tier == 'quick' else 3000.0
        OPT = {'deadline': t0 + (600 if tier == 'quick' else 6000), 'verbose': '-v' in a, 'extra': dict(budget=budget, slow=(float(a[a.index('--slow') + 1]) if '--slow' in a else None),  **({'timeout': 30000, 'cand_timeout': 10000} if tier == 'thorough' else {}))}
        rsrc = os.path.join(HERE, 'replay', pid + '.cpp'); rsecs = 100 if tier == 'quick' else 400; early = None
        first = {}; order = sorted(range(len(CONS)), key=lambda i: -getattr(CONS[i], 'weight', 1))
        if '-v' in a and only:
            res = [work(i) for i in order]
        else:
            # as soon as one contract fails, the native search for a failing input starts beside the proof; when it finds
            # one the rest of the proof is abandoned.  The failed contract itself is tried once more with longer solver
            # time limits (a loaded machine can make the first attempt miss an invariant); the second result counts.
            res = []; th = None; queue = [Job(i) for i in order]; running = []
            while queue or running:
                while queue and len(running) < 8: j = queue.pop(0); j.start(); running.append(j)
                if th is not None and not th.is_alive() and box and box[0][0]:
                    early = box[0]; break
                done = [j for j in running if j.poll()]
                if not done: time.sleep(0.05); continue
                for j in done:
                    running.remove(j); i, r = j.i, j.res
                    if r['error'] or not all(o['ok'] for o in r['obls']):
                        if th is None and os.path.exists(rsrc):
                            box = []
                            th = threading.Thread(target=lambda: box.append(replay(pid, rsrc, work_dir, rsecs, seed, None)), daemon=True); th.start()
                        if not j.retry and OPT['deadline'] - time.time() > 60:
                            first[i] = r; queue.append(Job(i, True)); continue
                    if j.retry and first[i]['obls'] and (r['error'] or '').startswith(('not reached', 'no answer')): r = first[i]
                    res.append(r)
            for j in running: j.stop()
            if early is not None: res += [first[j.i] for j in queue + running if j.retry]
            elif th is not None and any(r['error'] or not all(o['ok'] for o in r['obls']) for r in res):
                th.join(); early = box[0] if box else None
        # must-fail control: a false postcondition has to be rejected by the same pipeline
        control = None
        if not only and getattr(P, 'CONTROL', True):
            c0 = CONS[getattr(P, 'CONTROL_INDEX', next(i for i, c in enumerate(CONS) if not isinstance(c, ct.Lemma)))]
            import copy
            c1 = copy.copy(c0); c1._ensures = lambda c, st, rv: c.x.oblige('post', False, 'control')
            CONS.append(c1); r = work(len(CONS) - 1); CONS.pop()
            control = any(o['desc'] == 'control' and not o['ok'] for o in r['obls'])
        nob = sum(len(r['obls']) for r in res)
        nok = sum(1 for r in res for o in r['obls'] if o['ok'])
        bad = [(r, o) for r in res for o in r['obls'] if not o['ok']]
        errs = [r for r in res if r['error']]
        zero = [r for r in res if not r['obls'] and not r['error']]
        backends = {}
        kinds = {}
        for r in res:
            for o in r['obls']:
                if o['ok']: backends[o['backend']] = backends.get(o['backend'], 0) + 1
                kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        viol = 0; line = None
        failing = bool(bad or errs or zero or control is False)
        for r in res:
            st = 'ok' if not r['error'] and r['obls'] and all(o['ok'] for o in r['obls']) else 'FAILED'
            print('%-8s %-34s obligations %d/%d  paths %d  checks %d  solver %.1fs  wall %.1fs  %s' % (st, r['fn'], sum(o['ok'] for o in r['obls']), len(r['obls']), r['paths'] if 'paths' in r else 0, r.get('checks', 0), r.get('solver_s', 0), r.get('wall', 0), (r['error'] or '')[:300]))
        rp = ''
        if failing or (tier == 'thorough' and os.path.exists(rsrc)):
            found, rp = (False, 'no replay program')
            if early is not None: found, rp = early
            elif os.path.exists(rsrc): found, rp = replay(pid, rsrc, work_dir, rsecs, seed, None)
            if failing or found:
                viol = max(1, len(bad) + len(errs))
                os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
                path = os.path.join(HERE, 'evidence', 'replay_%s.txt' % pid)
                with open(path, 'w') as f:
                    f.write('property %s\n' % pid)
                    for r, o in bad[:20]:
                        f.write('\nfailed obligation: %s / %s: %s (block %s)\n  api: %s\n  solver: %s\n' % (r['fn'], o['kind'], o['desc'], o['loc'], r['api'], (o['model'] or 'unknown')[:3000]))
                    for r in errs: f.write('\nundecided: %s: %s\n  api: %s\n' % (r['fn'], r['error'], r['api']))
                    for r in zero: f.write('\nno obligations generated for %s\n' % r['fn'])
                    if control is False: f.write('\ncontrol obligation was not rejected\n')
                    f.write('\nnative search on the real code (%s):\n%s\n' % ('failing input found' if found else 'no failing input found', rp))
                for r, o in bad[:8]: print('  failed obligation %s / %s: %s' % (r['fn'], o['kind'], o['desc']))
                if found: print('  failing input on the real code: ' + rp.strip().split('\n')[0][:400])
                line = 'VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found')
        fns = [{'wrapper': r['fn'], 'api': r['api'], 'obligations': len(r['obls']), 'discharged': sum(o['ok'] for o in r['obls']), 'paths': r.get('paths', 0), 'solver_s': r.get('solver_s', 0), 'error': r['error']} for r in res]
        used = sorted({m for r in res for m in r.get('models', [])})
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
              'coverage': {'obligations': nob, 'discharged': nok,
                           'checker_cmd': 'cd /verif && python3-vt check.py %s' % pid,
                           'trusted_base': ['clang-18 front end and the LLVM passes always-inline, sroa, early-cse, simplifycfg, instsimplify, adce, loop-simplify (opt-18)',
                                            'engine/*.py (IR semantics, VC generation, loop cut-points)', 'z3 5.3.2 (fallback cvc5 1.1.2, z3 4.8.12)'] + ['assumed contract: ' + m for m in used],
                           'functions_under_contract': fns, 'obligations_by_kind': kinds, 'discharged_by': backends,
                           'solver_s': round(sum(r.get('solver_s', 0) for r in res), 2), 'solver_queries': sum(r.get('checks', 0) for r in res),
                           'must_fail_control_rejected': control},
              'assumptions': list(getattr(P, 'ASSUMPTIONS', [])) + ['allocation never fails; exceptions are not propagated (a throw ends the path and is an obligation)',
                              'distinct caller buffers do not overlap; lengths are below 2^40', 'a read of uninitialised stack memory yields an arbitrary value'],
              'wall_s': round(time.time() - t0, 2), 'violations': viol}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s: %d/%d obligations discharged, %d wrappers, %.1fs' % (pid, nok, nob, len(res), time.time() - t0))
        if line:
            print(line); return 1
        return 0
    finally:
        shutil.rmtree(work_dir, ignore_errors=True)
if __name__ == '__main__':
    sys.exit(main())
