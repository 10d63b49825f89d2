"""pmut.many([(pids, [(file,old,new)...], expect)...]) : parallel mutants in /tmp/mut1..6; expect 1 (caught) or 0 (quiet refactor)"""
import subprocess,os,queue,threading
def many(jobs,workers=6):
    q=queue.Queue()
    for j in enumerate(jobs): q.put(j)
    res={}
    def work(k):
        d="/tmp/mut%d"%k
        while True:
            try: i,(pids,edits,*ex)=q.get_nowait()
            except queue.Empty: return
            ex=ex[0] if ex else 1
            subprocess.run(["git","-C",d,"checkout","-q","--","."],check=True)
            miss=None
            for f,o,n in edits:
                p=d+"/crates/"+f; s=open(p).read()
                if o not in s: miss=(f,o[:60]); break
                open(p,"w").write(s.replace(o,n,1))
            out=[]
            if miss: out.append("!! pattern missing %s"%(miss,))
            else:
                for pid in pids:
                    r=subprocess.run(["python3","/verif/check.py",pid],env=dict(os.environ,SA_REPO=d),capture_output=True,text=True)
                    pass
                    flag="OK  " if r.returncode==ex and (ex==0 or "VIOLATION" in r.stdout) else "####"; l=r.stdout.strip().splitlines() or r.stderr.strip().splitlines()[-1:]
                    out.append("%s %s rc%d want%d | %s | %s -> %s\n        %s"%(flag,pid,r.returncode,ex,edits[0][0][-28:],edits[0][1][:60].replace("\n"," "),edits[0][2][:50].replace("\n"," "),(l[0][:230] if l else "")))
            print(i,"\n".join(out),flush=True)
            subprocess.run(["git","-C",d,"checkout","-q","--","."],check=True)
    ts=[threading.Thread(target=work,args=((k if "PMUT" in os.environ else k+1),)) for k in (list(map(int,os.environ["PMUT"].split(","))) if "PMUT" in os.environ else range(workers))]
    [t.start() for t in ts];[t.join() for t in ts]
