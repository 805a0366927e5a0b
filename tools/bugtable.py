# writes the table of planted bugs at the end of DESIGN.md
import json,glob,os
rows=[]
caught=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append((m['property'],i,m['what_it_breaks'],m['needs'],caught.get(i,'')))
rows.sort()
s=open('/verif/DESIGN.md').read()
a=s.index('## Planted bugs')
s=s[:a]+"## Planted bugs\n\nWritten from the statements and the code; `tools/trybug.sh ID` applies one to /repo, runs build, tests, demonstration and check, and undoes it.\n\"Result\" says what the quick check of the property makes of it (seed 1).\n\n| bug | property | breaks | needs | result |\n|---|---|---|---|---|\n"
for p,i,w,n,c in rows: s+="| %s | %s | %s | %s | %s |\n"%(i,p,w,n,c)
open('/verif/DESIGN.md','w').write(s)
