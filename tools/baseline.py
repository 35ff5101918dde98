#!/usr/bin/env python3
# baseline.py REPO: units/open_closures.json, for every function under contract how many
# closures without a contract of their own its proof goes through with.  A proof that fails
# in a function with more of them than that says nothing about the code.
import sys, os, json
os.environ['VERIF_REPO'] = sys.argv[1]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
sp = importlib.util.spec_from_file_location('check', os.path.join(V, 'check.py')); c = importlib.util.module_from_spec(sp); sp.loader.exec_module(c)
c.BUILD = '/tmp/po-build'; os.makedirs(c.BUILD, exist_ok=True)
out = {}
for f in sorted(os.listdir(os.path.join(V, 'units'))):
    if not f.endswith('.rs.in'): continue
    u = c.Unit(f[:-6], 'po'); u.rs = os.path.join(c.BUILD, '%s_po.rs' % u.name); u.rep = os.path.join(c.BUILD, '%s_po.json' % u.name)
    rep, err = u.extract(u.rs)
    assert not err, err
    for x in rep['fns']:
        if x['open']: out[x['id']] = max(out.get(x['id'], 0), x['open'])
json.dump(out, open(os.path.join(V, 'units/open_closures.json'), 'w'), indent=1, sort_keys=True)
print(len(out))
