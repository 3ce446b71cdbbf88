"""Fill the generated parts of DESIGN.md (property table, fixes, seeds) from the machine-readable sources: python3 tools/mkdesign.py"""
import json,os,sys,subprocess
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(os.path.join(H,'tools','DESIGN.in.md')).read()
props=[json.loads(l) for l in open(os.path.join(H,'properties.jsonl'))]
how=json.load(open(os.path.join(H,'tools','how.json')))
na=json.load(open(os.path.join(H,'tools','not_applicable.json')))
man=json.load(open(os.path.join(H,'MANIFEST.json'))); lev={c['property']:c['level'] for c in man['checks']}
o=['## 2. Properties','']
for p in props:
    i=p['id']; o.append('### %s %s%s'%(i,p['title'],'' if i in lev else ' (not claimed)')); o.append('')
    o.append(('Level: %s. '%lev[i] if i in lev else '')+how.get(i,'')); o.append('')
fx=[]
for l in open(os.path.join(H,'known_findings.txt')):
    if l.startswith('fixed:'):
        a=l.split(None,3); fx.append('* %s (%s): %s'%(a[1].split('=')[1],a[2],a[3].strip()))
sd=[]
for d in sorted(os.listdir(os.path.join(H,'seeded'))):
    m=json.load(open(os.path.join(H,'seeded',d,'meta.json'))); sd.append('* `%s` - caught by %s. Needs %s. %s.'%(d,m['property'],m['needs'],m['what_it_breaks'][0].upper()+m['what_it_breaks'][1:]))
s=src.replace('@@PROPS@@','\n'.join(o).rstrip()).replace('@@FIXES@@','\n'.join(fx)).replace('@@SEEDS@@','\n'.join(sd))
open(os.path.join(H,'DESIGN.md'),'w').write(s)
