#!/usr/bin/env python3
"""pm.py SLOTS < json list of [name, checks, [[file,old,new]...]] : run checks on mutated private copies, in parallel mount namespaces"""
import json,sys,subprocess,os,shutil,threading,queue
slots=int(sys.argv[1]); tmo=sys.argv[2] if len(sys.argv)>2 else '600'
items=json.load(sys.stdin)
q=queue.Queue()
for it in items: q.put(it)
lock=threading.Lock()
def sh(c): return subprocess.run(c,shell=True,capture_output=True,text=True)
def work(n):
    d=f'/tmp/pm/{os.getpid()}_{n}'
    os.makedirs(d)
    sh(f'cp -a /verif {d}/verif; mkdir -p {d}/repo; cd /repo && git archive HEAD | tar x -C {d}/repo')
    sh(f'cd {d}/repo && git init -q . && git add -A && git commit -qm x')
    while True:
        try: name,checks,edits=q.get_nowait()
        except queue.Empty: break
        sh(f'cd {d}/repo && git checkout -q -- .')
        bad=None
        for f,o,nw in edits:
            p=f'{d}/repo/{f}'; s=open(p).read()
            if o not in s: bad=o; break
            open(p,'w').write(s.replace(o,nw,1))
        if bad is not None:
            with lock: print('##',name,'PATTERN NOT FOUND',bad[:80],flush=True)
            continue
        out=''
        for c in checks.split():
            r=sh(f"unshare -Urm bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && timeout {tmo} python3-vt checks/run.py {c} quick'")
            L=[l[:230] for l in (r.stdout+r.stderr).splitlines() if l.strip()]
            inc=[l for l in L if l.startswith('INCONCLUSIVE')]
            vio=[i for i,l in enumerate(L) if l.startswith('VIOLATION')]
            out+=f'  {c}: rc={r.returncode} viol={len(vio)} inc={len(inc)} | {L[-1] if L else ""}\n'
            for i in vio[:1]: out+='     '+' '.join(L[i:i+2])+'\n'
            if inc and not vio: out+='     '+inc[0]+'\n'
        with lock: print('##',name,'\n'+out,flush=True)
    shutil.rmtree(d)
ts=[threading.Thread(target=work,args=(i,)) for i in range(slots)]
[t.start() for t in ts]; [t.join() for t in ts]
