import json,os,re
rows=[]
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} |")
s=open('/verif/DESIGN.md').read()
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE','\n'.join(rows))
else:
    a=s.index('| id | caught by |'); b=s.index('\n## 7.')
    s=s[:a]+"| id | caught by | needs |\n|---|---|---|\n"+'\n'.join(rows)+'\n'+s[b:]
s=s.replace('| id | caught by | by what |','| id | caught by | needs |')
open('/verif/DESIGN.md','w').write(s)
