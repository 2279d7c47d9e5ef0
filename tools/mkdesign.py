#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, checks.py, properties.jsonl and seeded/*/meta.json."""
import sys,os,json,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V)
import checks
T={}
for l in open(V+'/properties.jsonl'): d=json.loads(l); T[d['id']]=d['title']
out=[]
for l in open(V+'/tools/design.md').read().split('\n'):
    m=re.match(r'@@(C\d\d) (.*)',l)
    if m:
        p,t=m.groups(); out.append('### %s %s\n\n%s\n'%(p,T[p],t))
        seen=set()
        for j in checks.CHECKS[p]['jobs']:
            b=j['bounds'].strip()
            for s in seen: b=b.replace(s,'(points and schedules as above)')
            if len(j['bounds'])>300: seen.add(j['bounds'].split('chosen freely once or twice')[0]+'chosen freely once or twice')
            o=' '.join(j.get('opts') or []); tab=re.search(r'--tab (\d+)',o)
            out.append('* `%s`%s (%d configurations%s): %s'%(j['name'],', races' if j.get('race') else '',len(j['params']),'; tables up to %s bits'%tab.group(1) if tab and tab.group(1)!='0' else '',b))
        out.append('')
    elif l=='@@SEEDED':
        for s in sorted(os.listdir(V+'/seeded')):
            f=V+'/seeded/'+s+'/meta.json'
            if os.path.exists(f): d=json.load(open(f)); out.append('| %s | %s | %s | %s |'%(s,d['needs'].replace('|','/'),d['property'],d['what_it_breaks'].replace('|','/')))
    elif l=='@@MUTNOTES':
        f=V+'/tools/mutnotes.md'
        if os.path.exists(f): out.append(open(f).read().rstrip())
    else: out.append(l)
open(V+'/DESIGN.md','w').write('\n'.join(out))
