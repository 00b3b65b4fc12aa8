import subprocess,sys,tempfile,shutil,os,concurrent.futures as cf
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:] 
def run(r):
    name,edits,checks=r
    d=tempfile.mkdtemp(prefix="rf"); shutil.copytree("/repo/src",d+"/src")
    for f,old,new in edits:
        p=d+"/src/wam2layers/"+f; s=open(p).read()
        if old not in s: shutil.rmtree(d); return name,"PATTERN NOT FOUND "+old[:80],""
        open(p,"w").write(s.replace(old,new,1))
    v=d+"/v"; shutil.copytree("/verif",v,ignore=shutil.ignore_patterns(".git","evidence","seeded"))
    res=[];tail=""
    for c in checks.split():
        if not os.path.exists(f"/verif/checks/{c}.py"): continue
        p=subprocess.run(["timeout","900","/opt/venv/bin/python","run.py",c,"-j","3"],cwd=v,env=dict(os.environ,PYTHONPATH=d+"/src"),capture_output=True,text=True)
        w=[l for l in p.stdout.splitlines() if "wall=" in l and l.startswith("OK")]
        res.append(f"{c}:{p.returncode}"+("("+w[0].split("wall=")[1]+")" if w else ""))
        if p.returncode!=0: tail+=f"--- {name} {c}\n"+p.stdout[-1500:]+p.stderr[-800:]
    shutil.rmtree(d); return name," ".join(res),tail
with cf.ThreadPoolExecutor(4) as ex:
    for n,r,t in ex.map(run,[r for r in ns["R"] if not only or r[0] in only]):
        print(n,"->",r,flush=True)
        if t: print(t,flush=True)
