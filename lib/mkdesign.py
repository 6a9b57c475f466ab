import json,os,glob
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
man=json.load(open('/verif/MANIFEST.json'))
bugs=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); bugs.append((m['property'],os.path.basename(os.path.dirname(d)),m['what_it_breaks'],m['needs']))
bugs.sort()
head=open('/verif/lib/design_head.md').read()
tab="| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
for p,i,w,n in bugs: tab+="| %s | %s | %s | %s | %s |\n"%(i,p,w,n,p)
open('/verif/DESIGN.md','w').write(head.replace('@@BUGS@@',tab))
