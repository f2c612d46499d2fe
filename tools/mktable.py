"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,os,glob,re
missed=set("c02-dash-name c03-map-ptr-markers c04-rules-dropped c09-url-names c01-rule-order c19-summary-prefix c22-path-prefix c22-default-override c03-multipleof".split())
mf='/verif/tools/missed.txt'
if os.path.exists(mf): missed|=set(open(mf).read().split())
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|','/')} | {'missed at first, check strengthened' if i in missed else ''} |")
t="| planted bug | caught by | needs | remark |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
s=open('/verif/DESIGN.md').read()
a='<!-- planted -->\n'
s=s[:s.index(a)+len(a)]+t
open('/verif/DESIGN.md','w').write(s)
