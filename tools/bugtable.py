import json,glob,os
rows=["| bug | property | needs | breaks |","|---|---|---|---|"]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {d.split('/')[1]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s=open('DESIGN.md').read()
import re
t="\n".join(rows)
s=s.replace("BUGTABLE",t) if "BUGTABLE" in s else re.sub(r"\| bug \| property.*?\n\n", t+"\n\n", s, flags=re.S)
open('DESIGN.md','w').write(s)
