#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob,json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['<!-- seeded -->','| change | caught by | needs |','|---|---|---|']
for d in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m.get('caught_by',m['property'])} | {m['needs']} |")
rows.append('<!-- /seeded -->')
p=here+'/DESIGN.md'; s=open(p).read(); t='\n'.join(rows)
s=s.replace('@@SEEDED@@',t) if '@@SEEDED@@' in s else re.sub(r'<!-- seeded -->.*?<!-- /seeded -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
