"""adv.py FILE: cases '### name C22,C23 [keep|break]' followed by blocks; builds MIR and runs the checks; prints alarms"""
import sys,subprocess,os,re,shutil
sys.path.insert(0,'/verif/engine')
W='/tmp/advw'; 
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
if not os.path.isdir(W): sh('git clone -q /repo '+W)
cases=re.split(r'^### ',open(sys.argv[1]).read(),flags=re.M)[1:]
only=sys.argv[2:]
for c in cases:
    head,body=c.split('\n',1); h=head.split(); name=h[0]; checks=h[1].split(','); kind=h[2] if len(h)>2 else 'break'
    if only and name not in only: continue
    sh(f'cd {W}; git fetch -q origin; git reset -q --hard origin/HEAD; git clean -fdq')
    ok=True; cur=None
    for m in re.finditer(r'^FILE ([^\n]*)$|^<<<<\n(.*?)^====\n(.*?)^>>>>$',body,re.M|re.S):
        if m.group(1): cur=os.path.join(W,m.group(1).strip()); continue
        s=open(cur).read(); o,n=m.group(2),m.group(3)
        if s.count(o)!=1: print(name,'BLOCK MATCHES',s.count(o),repr(o[:80])); ok=False; break
        open(cur,'w').write(s.replace(o,n))
    if not ok: continue
    r=sh(f"cd /verif; python3 -c \"import sys; sys.path.insert(0,'engine'); import dump; dump.dump('{W}','/tmp/advbuild',{{}})\"")
    if r.returncode: print(name,'BUILD FAIL',r.stdout[-600:],r.stderr[-1200:]); continue
    if checks==['ALL'] or kind=='keep':
        checks=sorted(f[:-3].upper() for f in os.listdir('/verif/engine/rules') if re.match(r'c\d\d\.py',f))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex: rs=list(ex.map(lambda q: sh(f'cd /verif; timeout 300 python3 check.py {q} --dump /tmp/advbuild/mir'),checks))
    if kind=='break' and any(r.returncode==1 for r in rs):
        q,r=next((q,r) for q,r in zip(checks,rs) if r.returncode==1)
        print(name,'caught',[q for q,r in zip(checks,rs) if r.returncode==1],[q for q,r in zip(checks,rs) if r.returncode not in(0,1)],r.stdout.splitlines()[0][:200]); sys.stdout.flush(); continue
    if kind=='keep' and all(r.returncode==0 for r in rs):
        print(name,'quiet'); sys.stdout.flush(); continue
    for q,r in zip(checks,rs):
        if kind=='keep' and r.returncode==0: continue
        pass
        lines=[l for l in r.stdout.splitlines() if not l.startswith('      at') and l.strip()]
        flag='' if (r.returncode==1)==(kind=='break') else '   <<<<<<<<<< WRONG'
        print(f'{name} {q} rc={r.returncode}{flag}'); 
        for l in lines[:int(os.environ.get("L","2"))]: print('     ',l[:260])
    sys.stdout.flush()
