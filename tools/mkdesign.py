import json,sys,os,glob
sys.path.insert(0,'/verif'); import checks
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
o=open('/verif/tools/design_head.md').read()
NA=getattr(checks,'NOT_APPLICABLE',{})
for p in P:
    i=p['id']; o+=f"### {i} {p['title']}\n\n"
    c=checks.CHECKS.get(i)
    if not c: o+="Not claimed: "+NA.get(i,"no check registered yet; machinery under construction")+"\n\n"; continue
    runs=c.get('runs',[])
    fl=sorted({r.get('flavor','asan') for r in runs})
    o+=f"*Method.* {c.get('technique','reference-model oracle over generated workloads')} ({', '.join(fl) or 'see script'}).\n\n"
    o+=f"*Workload and oracle.* {c['rule']}\n\n"
    o+="*Observed (must be non-zero).* "+", ".join(c.get('must_count',[]))+".\n\n"
    o+=f"*Beyond the tests.* {p['why_tests_cant']}\n\n"
    ex=c.get('design')
    if ex: o+=ex+"\n\n"
o+=open('/verif/tools/design_tail.md').read()
k=json.load(open('/verif/known_findings.json'))
o+="## Planted bugs and what catches them\n\nEach lies in `seeded/<id>`; \"caught\" is the quick check of its property with seed 1.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n"
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    o+=f"| {b} | {m['property']} | {m['needs'].replace('|','/')} | {caught.get(b,'?')} |\n"
open('/verif/DESIGN.md','w').write(o)
