#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import glob,json,os,re
V='/verif'; T=V+'/tools/'
ns={}; exec(open(T+'design_notes.py').read(),ns); N=ns['N']
NA=json.load(open(T+'not_applicable.json'))
out=[open(T+'design_head.md').read()]
H={}
for f in sorted(glob.glob(V+'/harness/*/c*_*.go')):
    c=''
    m=re.match(r'c(\d\d)_',os.path.basename(f))
    if not m: continue
    for l in open(f):
        if l.startswith('//'):
            c+=' '+l[2:].strip()
        else:
            g=re.match(r'func (VC\w+)\(',l)
            if g:
                o=' '.join(re.findall(r'vf:[a-z]+(?:=\d+)?',c)); t=re.sub(r'vf:[a-z]+(=\d+)?','',c).strip()
                H.setdefault('C'+m.group(1),[]).append((os.path.relpath(f,V),g.group(1),t,o))
            c=''
out.append('## 2. The properties\n')
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); i=d['id']
    out.append(f"### {i} {d['title']}\n")
    if i in NA: out.append('Not applicable: '+NA[i]+'\n'); continue
    if i not in H: out.append('No check yet.\n'); continue
    assert i in N,i
    out.append(N[i]+'\n')
    last=None
    for f,n,t,o in H[i]:
        if f!=last: out.append(f'*{f}*'); last=f
        out.append(f"- `{n}` {t}"+(f' [{o}]' if o else ''))
    out.append('')
out.append(open(T+'design_tail.md').read())
out.append('## 6. Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration. Result of the last run of the property\'s quick check:\n\n| change | property | needs | result |\n|---|---|---|---|')
R=json.load(open(T+'seed_results.json')) if os.path.exists(T+'seed_results.json') else {}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); s=m.split('/')[-2]
    out.append(f"| {s} | {d['property']} | {d['needs']} | {R.get(s,'')} |")
open(V+'/DESIGN.md','w').write('\n'.join(out)+'\n')
