#!/usr/bin/env python3
"""mk.py [ID...]: builds and confirms the planted bugs of specs*.py in a scratch copy."""
import json, os, re, shutil, subprocess, sys, runpy
WT='/tmp/seedwt'; OUT='/verif/seeded'
BASE=subprocess.check_output(['git','-C','/repo','log','--format=%H','--grep=^base'],text=True).split()[0]
def sh(cmd,cwd=None,timeout=300):
    p=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout); return p.returncode,p.stdout+p.stderr
def fresh():
    shutil.rmtree(WT,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',WT])
bad=0
allspecs=[x for f in __import__('glob').glob(os.path.dirname(os.path.abspath(__file__))+'/specs*.py') for x in runpy.run_path(f)['SPECS']]
for s in [x for x in allspecs if not sys.argv[1:] or x['ID'] in sys.argv[1:]]:
    i=s['ID']; d=f'{OUT}/{i}'
    fresh()
    notorig=[]
    try:
        for f,old,new in s['EDITS']:
            p=f'{WT}/{f}'; t=open(p,'rb').read().decode(); crlf='\r\n' in t
            o,n=(old.replace('\n','\r\n'),new.replace('\n','\r\n')) if crlf else (old,new)
            assert t.count(o)==1,(f,old,t.count(o))
            open(p,'wb').write(t.replace(o,n).encode())
    except AssertionError as e:
        print(i,'EDIT FAILED',e); bad+=1; continue
    diff=subprocess.check_output(['git','-C',WT,'diff'],)
    # removed lines must be original
    for f in {e[0] for e in s['EDITS']}:
        base=subprocess.run(['git','-C','/repo','show',f'{BASE}:{f}'],capture_output=True,text=True).stdout.splitlines()
        dd=subprocess.check_output(['git','-C',WT,'diff','-U0','--',f],text=True).splitlines()
        rem=[l[1:].rstrip('\r') for l in dd if l.startswith('-') and not l.startswith('---')]
        if not rem: notorig.append('(only additions)')
        notorig+=[l for l in rem if l.strip() and l not in [b.rstrip('\r') for b in base]]
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(f'{d}/patch.diff','wb').write(diff)
    shutil.copy('/verif/tools/seed/h.py',f'{d}/h.py')
    open(f'{d}/demo.py','w').write(s['DEMO'].lstrip('\n'))
    open(f'{d}/demo.sh','w').write('#!/bin/sh\n# cwd: the tree under test\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$d" timeout 120 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':s['PROPERTY'],'needs':s['NEEDS'],'what_it_breaks':s['BREAKS']},open(f'{d}/meta.json','w'),indent=1)
    r1,o1=sh(f'sh {d}/demo.sh',cwd='/repo'); r2,o2=sh(f'sh {d}/demo.sh',cwd=WT)
    rt,ot=sh('PYTHONPATH=$PWD /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests',cwd=WT)
    m=re.search(r'(\d+) passed',ot)
    rd,_=sh(f'git -C /repo apply --check {d}/patch.diff')
    ok = r1==0 and r2!=0 and rt==0 and rd==0 and not notorig
    bad+= not ok
    print(i,s['PROPERTY'],'OK' if ok else 'BAD',f'clean={r1} patched={r2} tests={m and m.group(1)} apply={rd}',('notorig=%r'%notorig) if notorig else '', '|',o2.strip().splitlines()[-1:] )
    if r1: print(o1[-800:])
    if rt: print(ot[-500:])
shutil.rmtree(WT,ignore_errors=True)
sys.exit(bool(bad))
