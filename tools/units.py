#!/usr/bin/env python3
# units.py REPO [UNIT...]: the proof part alone, against any tree (a quick look; nothing depends on it)
import sys,os,threading
os.environ['VERIF_REPO']=sys.argv[1]
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
sp=importlib.util.spec_from_file_location('check',os.path.join(V,'check.py')); c=importlib.util.module_from_spec(sp); sp.loader.exec_module(c)
c.left=lambda: 600
c.BUILD='/tmp/po-build'; os.makedirs(c.BUILD,exist_ok=True)
us=[c.Unit(n,'po') for n in (sys.argv[2:] or 'ttl wire crypto io delim fs cli proc srv'.split())]
for u in us:
    u.rs=c.os.path.join(c.BUILD,'%s_po.rs'%u.name); u.rep=c.os.path.join(c.BUILD,'%s_po.json'%u.name)
ts=[threading.Thread(target=u.run) for u in us]
for t in ts: t.start()
for t in ts: t.join()
for u in us:
    print(u.name, 'UNDECIDED '+u.undecided if u.undecided else '%d/%d'%(u.verified,u.verified+u.errors), 'missing' if u.report.get('missing') else '', u.report.get('missing') or '')
    for f,w in u.demoted.items(): print('   demoted',f,':',w[:160])
    for f in u.failures: print('   FAIL',f['tags'],f['fn'],f['msg'],[a[:100] for a in f['at']][:3])
    for l in u.lemma_failures: print('   LEMMA',l)
