#!/usr/bin/python3
"""summary of the violations of the last run of a check: show.py C06 [n]"""
import json, sys, collections
vs = json.load(open('/verif/evidence/replay-%s.json' % sys.argv[1]))
n = int(sys.argv[2]) if len(sys.argv) > 2 else 4
print(collections.Counter(v['what'].split(': ', 1)[-1][:100] for v in vs))
seen = set()
for v in sorted(vs, key=lambda v: len(json.dumps(v.get('plan')))):
    k = v['what'].split(': ', 1)[-1]
    if k in seen: continue
    seen.add(k)
    n -= 1
    if n < 0: break
    print('-', v['what'][:300]); print('  detail', v.get('detail', '')[:300])
    ev = v.get('event', '')
    try:
        e = json.loads(ev); e.pop('obs', None); e.pop('eqs', None); print('  ev', json.dumps(e)[:500])
    except Exception: print('  ev', ev[:500])
    print('  plan', json.dumps(v.get('plan'))[:500])
