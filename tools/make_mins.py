"""Writes mins.py: what a quick run must at least have observed (a fifth of what the unchanged tree gives), from evidence of several seeds."""
import json, subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {'steps_observed', 'allocations_accounted', 'distinct_overflow', 'overlapping_steps'}
props = ['C%02d' % i for i in range(1, 26)]
lo = {}
for seed in sys.argv[1:] or ['1', '2']:
    for p in props:
        subprocess.run([sys.executable, 'check.py', p], cwd=V, check=True, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER='quick'), stdout=subprocess.DEVNULL)
        c = json.load(open(os.path.join(V, 'evidence', p + '.json')))['coverage']['observed_events']
        m = lo.setdefault(p, dict(c))
        for k in list(m):
            m[k] = min(m[k], c.get(k, 0))
with open(os.path.join(V, 'mins.py'), 'w') as f:
    f.write('# Least number of observed events per quick run (written by tools/make_mins.py); fewer makes a run inconclusive.\nMINS = {\n')
    for p in props:
        d = {k: v // 5 for k, v in sorted(lo[p].items()) if v >= 50 and k not in SKIP}
        f.write('    %r: %r,\n' % (p, d))
    f.write('}\n')
