#!/usr/bin/env python3
"""coverage.py [P##...]: line coverage of the repository's sources by the checks (clang, source-based).
A development aid: prints the uncovered regions; not part of any check."""
import sys,os,subprocess,glob,shutil
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R=os.environ.get("C4_REPO","/repo")
sys.path.insert(0,V+"/tools")
from props import PROPS
B=os.environ.get("C4_COV","/tmp/c4cov"); os.makedirs(B,exist_ok=True)
ids=[a for a in sys.argv[1:]] or sorted(PROPS)
def one(p):
    d=B+"/"+p; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    std="c++17"
    cmd=["clang++","-std="+std,"-O0","-g0","-w","-DC4_NO_DEBUG_BREAK","-DPBT_COVERAGE","-fprofile-instr-generate","-fcoverage-mapping","-I",R+"/src","-I",V+"/harness",V+"/harness/%s.cpp"%p,V+"/harness/pbt.cpp"]+glob.glob(R+"/src/c4/*.cpp")+["-o",d+"/t"]
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: return p,r.stdout[:500]
    u=max(1,PROPS[p]["unit"]//4)
    r=subprocess.run([d+"/t","--seed","1","--unit",str(u),"--workers","1","--stats",d+"/s.json","--replay-out",d+"/r.txt"],env=dict(os.environ,LLVM_PROFILE_FILE=d+"/p-%p.profraw",LC_ALL="C"),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    subprocess.run(["llvm-profdata-18","merge","-sparse"]+glob.glob(d+"/p-*.profraw")+["-o",d+"/p.profdata"])
    return p,"rc=%d %s"%(r.returncode,r.stdout[-200:])
with ThreadPoolExecutor(8) as ex:
    for p,m in ex.map(one,ids): print(p,m,flush=True)
