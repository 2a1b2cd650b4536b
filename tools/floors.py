"""writes floors.json: what each check must at least find (run by hand on a tree that was looked at)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

out = {}
with open(os.path.join(HERE, 'MANIFEST.json'), encoding='utf-8') as fh:
    ids = [c['property'] for c in json.load(fh)['checks']]
for pid in ids:
    prog, results = check.analyse(pid)
    f = {'obligations': len(results)}
    for k in ('constraints', 'variables', 'effects', 'compared'):
        n = sum(st[k] for _, _, st in results)
        if n:
            f[k] = n
    out[pid] = f
with open(os.path.join(HERE, 'floors.json'), 'w', encoding='utf-8') as fh:
    json.dump(out, fh, indent=1)
    fh.write('\n')
