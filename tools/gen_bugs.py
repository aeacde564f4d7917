#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what had to be added before the check caught it (everything else was caught as soon as it was planted)
FIRST_MISSED={
 'C03-adjacent-dedup':'equations repeated with other text between them were not generated',
 'C03-constrained-at-least':'bulk attempts with more equations than fit were not generated',
 'C05-shared-stack':'calls nested through a custom function were not generated',
 'C12-narrow-node-index':'networks were too small; node numbers now go beyond 65 535',
 'C02-solved-by-text':'equations whose text occurs inside another one were not generated',
 'C10-conversion-memo':'threads used the same few unit conversions; scheduling points inside dependencies were missing',
}
rows=[]
for i in sorted(os.listdir(f'{here}/seeded')):
    p=f'{here}/seeded/{i}/meta.json'
    if not os.path.exists(p): continue
    m=json.load(open(p))
    rows.append(f"| `{i}` | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by',m['property']+' quick')}{' (at first missed: '+FIRST_MISSED[i]+')' if i in FIRST_MISSED else ''} |")
t='| bug | what it breaks | needs | caught by |\n| --- | --- | --- | --- |\n'+'\n'.join(r.replace('\n',' ') for r in rows)+'\n'
d=open(f'{here}/DESIGN.md').read()
d=re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)',lambda m:m[1]+t+m[2],d,flags=re.S)
open(f'{here}/DESIGN.md','w').write(d)
print(len(rows),'bugs')
