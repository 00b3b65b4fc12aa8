"""run the repo tests on each refactoring (validity)"""
import subprocess,sys,tempfile,shutil,os,json,concurrent.futures as cf
ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
def run(r):
    name,edits,_=r
    d=tempfile.mkdtemp(prefix="rt"); w=d+"/repo"; shutil.copytree("/repo",w,symlinks=True,ignore=shutil.ignore_patterns(".git"))
    for f,old,new in edits:
        p=w+"/src/wam2layers/"+f; s=open(p).read()
        if old not in s: shutil.rmtree(d); return name,"NOPATTERN"
        open(p,"w").write(s.replace(old,new,1))
    p=subprocess.run(["/opt/venv/bin/python","-m","pytest","-q","-x","--deselect","tests/test_workflow.py::TestVisualize","-p","no:cacheprovider","--deselect","tests/test_download.py","tests"],cwd=w,env=dict(os.environ,PYTHONPATH=w+"/src"),capture_output=True,text=True)
    shutil.rmtree(d); return name,p.stdout[-300:]
with cf.ThreadPoolExecutor(4) as ex:
    for n,r in ex.map(run,[r for r in ns["R"] if not only or r[0] in only]): print(n,r.replace("\n"," | ")[-110:],flush=True)
