#!/usr/bin/env python3-vt
"""check.py ID: decides one property on the current working tree of /repo.

1. The sources named by specs/<id>.py are compiled from /repo to LLVM IR and every contract task is
   handed to the contract verifier (one process per task).
2. A task that is not proved is executed again with loops unrolled a stated number of times and no
   invariants (bounded), which separates a weak invariant from a wrong function.
3. The native driver of the property is compiled against the sources of /repo; it executes the real
   code on enumerated and random inputs against an executable form of the contracts.  It replays
   violations, and is the bounded stand-in for the functions the contracts do not reach.
"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'specs'))

import build_ir  # noqa: E402
import llir  # noqa: E402
import sym  # noqa: E402

REPO = build_ir.REPO
NPROC = int(os.environ.get('CORA_JOBS', '8'))


def run_task(task, prog, deadline, unroll, conn):
    import resource
    out = {'task': task.label, 'results': [], 'error': None, 'bounded': unroll}
    t = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    v = None
    try:
        v = task.run(prog, deadline, unroll)
    except (sym.ToolLimit, llir.ParseError) as e:
        out['error'] = 'tool limit: %s' % e
    except sym.Budget as e:
        out['error'] = 'budget: %s' % e
    except MemoryError:
        out['error'] = 'memory'
    except RecursionError:
        out['error'] = 'recursion'
    except Exception as e:
        out['error'] = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
    v = v or getattr(task, 'verifier', None)
    if v is not None:
        out['results'] = [(r.name, r.status, r.backend, r.time, r.detail) for r in v.results]
        out['assumed'] = sorted(v.assumed)
        out['inlined'] = sorted(v.inlined)
        out['contracts_used'] = sorted(v.used_contracts)
        out['solver_calls'] = v.nsolver
        out['solver_s'] = v.tsolver
        out['truncated'] = v.truncated
        out['loops'] = [(a, b, n, len(k), k) for a, b, n, k, r in v.houdini_stats]
    out['wall'] = time.time() - t
    try:
        conn.send(out)
    except Exception:
        pass
    conn.close()
    os._exit(0)


def run_tasks(tasks, prog, limit, unroll=0):
    """run all tasks, NPROC at a time; returns list of result dicts in order"""
    res = {}
    todo = list(enumerate(tasks))
    todo.sort(key=lambda x: -getattr(x[1], 'weight', 1))
    running = {}
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < NPROC:
            i, t = todo.pop(0)
            tl = min(limit, getattr(t, 'limit', None) or limit)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=run_task, args=(t, prog, time.time() + tl, unroll, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), tl, t)
        done = []
        for i, (p, a, t0, tl, t) in running.items():
            got = None
            if a.poll(0.01):
                try:
                    got = a.recv()
                except EOFError:
                    got = {'task': t.label, 'results': [], 'error': 'worker died', 'wall': time.time() - t0}
            elif not p.is_alive():
                got = {'task': t.label, 'results': [], 'error': 'worker died', 'wall': time.time() - t0}
            elif time.time() - t0 > tl + 25:
                p.kill()
                got = {'task': t.label, 'results': [], 'error': 'budget: hard time limit', 'wall': time.time() - t0}
            if got is not None:
                got['bounded'] = unroll
                res[i] = got
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                done.append(i)
        for i in done:
            del running[i]
        if not done:
            time.sleep(0.02)
    return [res[i] for i in range(len(tasks))]


def classify(r):
    """'proved' | 'failed' | 'unknown' """
    if r['error']:
        if any(x[1] == 'failed' for x in r['results']):
            return 'failed'
        return 'unknown'
    st = [x[1] for x in r['results']]
    if not st:
        return 'unknown'
    if 'failed' in st:
        return 'failed'
    if 'unknown' in st:
        return 'unknown'
    return 'proved'


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='cov_%s_' % pid)
    rc = 1
    try:
        rc = decide(pid, tier, seed, scratch, verbose, t0)
    except Exception:
        # an internal error of the check is never a verdict: report what is known and stay quiet
        traceback.print_exc()
        write_evidence(pid, {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
                             'coverage': {'explanation': 'the check could not run: ' + traceback.format_exc()[-1500:]},
                             'wall_s': time.time() - t0})
        print('CHECK-UNDECIDED property=%s internal error' % pid)
        rc = 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def write_evidence(pid, ev):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                body = l[len('finding: property=%s ' % pid):]
                key, _, text = body.partition(' | ')
                out.append((key.strip(), text.strip()))
    return out


def decide(pid, tier, seed, scratch, verbose, t0):
    import cov
    spec = importlib.import_module(pid.lower())
    ctx = cov.Ctx(pid, tier, seed, scratch)
    limit = getattr(spec, 'LIMIT', 240) if tier == 'quick' else getattr(spec, 'LIMIT_THOROUGH', 600)
    build_error = None
    prog = None
    tasks = []
    # start the native driver in parallel with the proofs
    drv = cov.Driver(spec, ctx) if getattr(spec, 'DRIVER', None) else None
    if drv:
        drv.start()
    results = []
    try:
        if getattr(spec, 'SOURCES', None):
            prog = build_ir.program(spec.SOURCES, scratch, getattr(spec, 'FLAGS', ()))
        ctx.prog = prog
        tasks = spec.tasks(ctx)
        if '--only' in sys.argv:
            tasks = [t for t in tasks if any(k in t.label for k in sys.argv[sys.argv.index('--only') + 1].split(','))]
    except (build_ir.BuildError, llir.ParseError, sym.ToolLimit, cov.SpecError) as e:
        build_error = str(e)
    except Exception as e:
        build_error = 'spec setup: %s %s' % (e, traceback.format_exc()[-800:])
    if not build_error:
        results = run_tasks(tasks, prog, limit)
    bounded = {}
    failed = []
    undecided = []
    for t, r in zip(tasks, results):
        c = classify(r)
        r['class'] = c
        if c != 'proved':
            (failed if c == 'failed' else undecided).append((t, r))
    # bounded second opinion for everything not proved
    retry = [(t, r) for t, r in failed + undecided if getattr(t, 'can_unroll', True)]
    if retry:
        br = run_tasks([t for t, r in retry], prog, min(limit, 150), unroll=getattr(spec, 'UNROLL', 3))
        for (t, r), b in zip(retry, br):
            b['class'] = classify(b)
            bounded[t.label] = b
    dres = drv.finish() if drv else None
    definite = []
    for t, r in failed:
        b = bounded.get(t.label)
        nloops = len(r.get('loops', []) or [])
        if getattr(t, 'soft', False):
            undecided.append((t, r))
        elif b is not None and b['class'] == 'failed':
            definite.append((t, r, b))
        elif nloops == 0 and not getattr(t, 'soft', False):
            definite.append((t, r, b))
        else:
            undecided.append((t, r))
    # ------------------------------------------------------------ verdict
    nob = sum(len(r['results']) for r in results)
    ndis = sum(1 for r in results for x in r['results'] if x[1] in ('proved', 'unknown-ok'))
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    violation = None
    known = known_findings(pid)
    seen_known = []
    if dres is not None:
        for f in list(dres.get('failures', [])):
            for key, text in known:
                if key and f.startswith(key):
                    seen_known.append((key, text))
                    dres['failures'].remove(f)
                    break
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, pid + '.txt')
    if dres is not None and dres.get('failures'):
        with open(replay, 'w') as f:
            f.write('property %s is violated by this input on the real code:\n\n' % pid)
            f.write('\n'.join(dres['failures'][:20]) + '\n\n')
            f.write('replay: %s\n' % dres.get('replay', ''))
            if definite:
                f.write('\nfailed obligations:\n')
                for t, r, b in definite:
                    for x in r['results']:
                        if x[1] == 'failed':
                            f.write('  [%s] %s\n     %s\n' % (t.label, x[0], x[4][:1500]))
            f.write('\ndriver output (tail):\n' + dres.get('output', '')[-3000:])
        violation = 'VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, VERIF))
    elif definite:
        with open(replay, 'w') as f:
            f.write('property %s: the verifier refutes these obligations; no failing concrete input was found\n\n' % pid)
            for t, r, b in definite:
                for x in r['results']:
                    if x[1] == 'failed':
                        f.write('  [%s] %s\n     back end %s: sat\n     %s\n' % (t.label, x[0], x[2], x[4][:3000]))
                if b is not None:
                    f.write('  bounded re-execution (loops unrolled %s times): %s\n' % (b.get('bounded'), b['class']))
            if dres is not None:
                f.write('\nconcrete runs: %s\n' % dres.get('summary', ''))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(replay, VERIF))
    backends = {}
    trusted = set(getattr(spec, 'TRUSTED', []))
    for r in results:
        for x in r['results']:
            backends[x[2]] = backends.get(x[2], 0) + (1 if x[1] in ('proved', 'unknown-ok') else 0)
        trusted.update(r.get('assumed', []) or [])
    fn = {}
    for t, r in zip(tasks, results):
        fn[t.label] = {'status': r['class'], 'obligations': len(r['results']),
                       'discharged': sum(1 for x in r['results'] if x[1] in ('proved', 'unknown-ok')),
                       'wall_s': round(r.get('wall', 0), 2), 'solver_calls': r.get('solver_calls'),
                       'solver_s': round(r.get('solver_s') or 0, 2), 'inlined': r.get('inlined'),
                       'callee_contracts': r.get('contracts_used')}
        if r['error']:
            fn[t.label]['tool'] = r['error'][:600]
        if r.get('loops'):
            fn[t.label]['loops'] = ['%s/%s: %d of %d candidate clauses inductive' % (a, b, k, n)
                                    for a, b, n, k, _ in r['loops']]
        if r['class'] != 'proved':
            fn[t.label]['not_discharged'] = [(x[0], x[1], x[4][:400]) for x in r['results']
                                             if x[1] not in ('proved', 'unknown-ok')][:6]
            b = bounded.get(t.label)
            if b is not None:
                fn[t.label]['bounded_stand_in'] = {'unroll': b.get('bounded'), 'result': b['class'],
                                                   'error': b['error'], 'truncated': b.get('truncated')}
    allproved = bool(tasks) and not failed and not undecided and not build_error
    cover = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (pid, tier),
        'trusted_base': sorted(trusted | cov.TRUSTED_BASE),
        'functions_under_contract': fn, 'backends': backends,
        'solver_s': round(sum(r.get('solver_s') or 0 for r in results), 2),
        'fully_proved': allproved,
        'not_proved': [t.label for t, r in failed + undecided],
        'proof_build_error': build_error,
        'outside_contracts': getattr(spec, 'OUTSIDE', []),
    }
    if dres is not None:
        cover['bounded_runs'] = {k: dres[k] for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples', 'summary')
                                 if k in dres}
        cover['bounded_runs']['note'] = 'bounded stand-in and replay; never counted as proved'
    level = getattr(spec, 'LEVEL', 'proof')
    if not allproved and level == 'proof':
        cover['explanation'] = 'some obligations were not discharged on this tree; see not_proved'
    write_evidence(pid, {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cover,
                         'assumptions': sorted(trusted), 'wall_s': round(time.time() - t0, 2),
                         'violations': 1 if violation else 0})
    print('%s: %d contract tasks, %d obligations, %d discharged, %d tasks not proved, %.1f s' %
          (pid, len(tasks), nob, ndis, len(failed) + len(undecided), time.time() - t0))
    if build_error:
        print('proof part not available on this tree: ' + build_error[:300])
    for t, r in failed + undecided:
        print('  not proved: %s (%s)' % (t.label, r['error'] or ''))
        for x in r['results']:
            if x[1] not in ('proved', 'unknown-ok'):
                print('     %s: %s %s' % (x[1], x[0], x[4][:300]))
        b = bounded.get(t.label)
        if b is not None:
            print('     bounded: %s %s' % (b['class'], b['error'] or ''))
            if verbose:
                for x in b['results']:
                    if x[1] not in ('proved', 'unknown-ok'):
                        print('        %s: %s %s' % (x[1], x[0], x[4][:600]))
    if verbose:
        for t, r in zip(tasks, results):
            print('  %-40s %s %d obl %.1fs solver %.1fs' % (t.label, r['class'], len(r['results']), r.get('wall', 0),
                                                          r.get('solver_s') or 0))
    if dres is not None:
        print('bounded runs: ' + dres.get('summary', ''))
    for key, text in dict(seen_known).items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text or key))
    if violation:
        print(violation)
        return 1
    return 0


if __name__ == '__main__':
    main()
