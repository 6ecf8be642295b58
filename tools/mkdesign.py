# rewrites the table of planted changes in DESIGN.md
import json,os,re
p='/verif/DESIGN.md'; s=open(p).read()
def table():
    rows={}
    for d in sorted(os.listdir('/verif/seeded')):
        m=json.load(open('/verif/seeded/%s/meta.json'%d)); rows.setdefault(m['property'],[]).append((d,m['needs']))
    t='<!-- table -->\n\n| check | planted changes it reports (what each needs) |\n|---|---|\n'
    for k in sorted(rows):
        t+='| %s | %s |\n'%(k,'; '.join('`%s` (%s)'%(d,n.strip().rstrip('.')) for d,n in rows[k]))
    return t+'\n<!-- end -->'
if '<!-- end -->' in s: s=re.sub(r'<!-- table -->.*<!-- end -->',lambda m:table(),s,flags=re.S)
else: s=s.replace('<!-- table -->',table())
open(p,'w').write(s)
