#!/usr/bin/env python3
# writes the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob,json,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
by={}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); by.setdefault(m['property'],[]).append((f.split('/')[1],m['what_it_breaks']))
t=['<!-- seeds -->','| Property | Planted bugs |','|---|---|']
for p in sorted(by):
    t.append('| %s | %s |'%(p,'; '.join('%s %s'%(i,w.strip().rstrip('.').replace('|','/')) for i,w in by[p])))
t.append('<!-- /seeds -->')
s=open('DESIGN.md').read()
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE','\n'.join(t))
else: s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda m:'\n'.join(t),s,flags=re.S)
open('DESIGN.md','w').write(s)
