import json,glob,re,os
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('## 7. Catch table')
out='## 7. Catch table\n\n'
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); d=os.path.basename(os.path.dirname(f))
    out+='* `%s` — caught by %s. %s\n'%(d,m['property'],m['what_it_breaks'].strip().rstrip('.'))
open(p,'w').write(s[:i]+out)
