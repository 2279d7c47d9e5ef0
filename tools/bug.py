#!/usr/bin/env python3
"""dev tool: bug.py ID PROP — takes edits from seeded/ID/edits.py-style stdin JSON [{file,old,new}], writes patch.diff, validates build, tests, demo; then runs the check with the patch applied to /repo."""
import sys,json,subprocess,os,shutil
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
V='/verif'
def main():
    bid,prop=sys.argv[1:3]; d=f'{V}/seeded/{bid}'
    spec=json.load(sys.stdin) if not sys.stdin.isatty() and '--have' not in sys.argv else None
    assert sh('git -C /repo status --porcelain').stdout.strip()=='' ,'repo dirty'
    kit=f'{d}/kit'
    os.makedirs(d,exist_ok=True)
    if spec:
        if not os.path.exists(kit): shutil.copytree(f'{V}/tools/demokit',kit,ignore=shutil.ignore_patterns('demo.sh'))
        shutil.copy(f'{V}/tools/demokit/demo.sh',d)
        json.dump({'property':prop,'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(f'{d}/meta.json','w'),indent=1)
        for e in spec['edits']:
            p='/repo/'+e['file']; s=open(p).read(); n=s.count(e['old'])
            if n<1 or (n>1 and 'nth' not in e): print('edit matches',n); sh('git -C /repo checkout -- .'); sys.exit(1)
            if n==1: s=s.replace(e['old'],e['new'])
            else:
                parts=s.split(e['old']); k=e['nth']; s=e['old'].join(parts[:k+1])+e['new']+e['old'].join(parts[k+1:])
            open(p,'w').write(s)
        open(f'{d}/patch.diff','w').write(sh('git -C /repo diff').stdout); sh('git -C /repo checkout -- .')
        if 'srcs' in spec: open(f'{d}/srcs','w').write(spec['srcs'])
        if 'flags' in spec: open(f'{d}/flags','w').write(spec['flags'])
    r=sh(f'bash {d}/demo.sh',cwd='/repo'); print('demo clean rc',r.returncode,r.stdout[-600:] if r.returncode else '')
    try:
        a=sh(f'git -C /repo apply {d}/patch.diff'); print('apply',a.returncode,a.stdout)
        r=sh('bash /opt/vp/build.sh'); print('build',r.returncode,r.stdout[-300:] if r.returncode else '')
        r=sh('bash /opt/vp/test.sh /tmp/bt.json'); print('tests',r.returncode,open('/tmp/bt.json').read()[:300])
        r=sh(f'bash {d}/demo.sh',cwd='/repo'); print('demo patched rc',r.returncode,r.stdout[-300:])
        r=sh(f'python3 {V}/run.py {prop}'); print('check rc',r.returncode,'\n'.join(r.stdout.splitlines()[-4:]))
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
main()
