#!/usr/bin/env python3-vt
"""dbg.py ID task-substring [seconds]: run one task in-process and print loops and failures"""
import sys, os, time, tempfile, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) if 'tools' in __file__ else '/verif'
sys.path[:0] = [V + '/engine', V + '/specs']
import build_ir, cov, sym
sys.setrecursionlimit(20000)
spec = importlib.import_module(sys.argv[1].lower())
d = tempfile.mkdtemp(prefix='dbg')
ctx = cov.Ctx(sys.argv[1], 'quick', 1, d)
ctx.prog = build_ir.program(spec.SOURCES, d, getattr(spec, 'FLAGS', ())) if getattr(spec, 'SOURCES', None) else None
ts = [t for t in spec.tasks(ctx) if sys.argv[2] in t.label]
lim = float(sys.argv[3]) if len(sys.argv) > 3 else 120
unroll = int(os.environ.get('UNROLL', '0'))
for t in ts[:1]:
    t0 = time.time()
    print('task', t.label)
    try:
        v = t.run(ctx.prog, time.time() + lim, unroll)
    except Exception as e:
        print('EXC', type(e).__name__, str(e)[:500])
        v = t.verifier
        if type(e).__name__ not in ('ToolLimit', 'Budget'):
            import traceback; traceback.print_exc()
    for h in v.houdini_stats:
        print('LOOP', h[0], h[1], 'cands', h[2], 'rounds', h[4]); print('    ', h[3])
    for r in v.results:
        if r.status not in ('proved', 'unknown-ok'):
            print(r.status, r.name, r.detail[:300])
    print(len(v.results), 'results', round(time.time() - t0, 1), 's; solver', round(v.tsolver, 1), 'calls', v.nsolver)
import shutil; shutil.rmtree(d)
