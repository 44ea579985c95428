#!/usr/bin/env python3
"""plant.py SPEC.py...: a development aid that plants a bug in a scratch copy of /repo (never in /repo).
Each spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++ source) [, STD, FLAGS].
Confirms that it builds, that the stable tests pass, that the demonstration separates the trees, runs the
check on the changed copy, and keeps seeded/<ID>/ if the bug is valid (caught or not). No check reads seeded/."""
import sys,os,subprocess,json,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=os.environ.get("PLANT_DIR","/tmp/plant"); R=T+"/repo"
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",**k)
def prepare():
    os.makedirs(T,exist_ok=True)
    head=sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(R):
        r=sh("git clone -q --no-hardlinks /repo %s"%R); assert r.returncode==0,r.stdout
    sh("git -C %s fetch -q origin && git -C %s checkout -q -f %s"%(R,R,head))
    sh("git -C %s clean -fdq -e _build"%R)
    rt=open("/opt/vp/driver/run_tests.py").read().replace('"/repo/_build"','"%s/_build"'%R); open(T+"/run_tests.py","w").write(rt)
    if not os.path.exists(R+"/_build/build.ninja"):
        r=sh("CC=gcc CXX=g++ cmake -S /opt/vp/driver -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DREPO=%s"%(R,R)); assert r.returncode==0,r.stdout
def tests():
    sh("rm -rf %s/_build/reports"%R)
    r=sh("ninja -C %s/_build -j8"%R)
    if r.returncode: return None,r.stdout[-1500:]
    sh("python3 %s/run_tests.py"%T); sh("python3 /opt/vp/results.py %s/o.json 'junit:%s/_build/reports/*.xml' 'lines:%s/_build/reports/lost.txt'"%(T,R,R))
    return set(json.load(open(T+"/o.json"))["passed"]),""
base=json.load(open("/opt/vp/BASELINE.json")); base=base if isinstance(base,list) else base.get("passed") or base.get("tests") or base.get("stable")
def one(f):
    spec={}; exec(open(f).read(),spec)
    d=V+"/seeded/"+spec["ID"]; os.makedirs(d,exist_ok=True)
    open(d+"/demo.cpp","w").write(spec["DEMO"])
    open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: behaviour intact; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=%s -w -O1 -g %s -DC4_NO_DEBUG_BREAK -I src "$d/demo.cpp" src/c4/*.cpp -o "$t/demo" || exit 3
timeout 60 "$t/demo"
''' % (spec.get("STD","c++17"),spec.get("FLAGS","")))
    os.chmod(d+"/demo.sh",0o755)
    json.dump(dict(property=spec["PROP"],needs=spec["NEEDS"],what_it_breaks=spec["BREAKS"]),open(d+"/meta.json","w"),indent=1)
    demo=lambda: sh("cd %s && bash %s/demo.sh"%(R,d))
    prepare(); ok=True
    r0=demo()
    if r0.returncode: print(spec["ID"],"DEMO FAILS ON CLEAN TREE",r0.returncode,r0.stdout[-1500:]); ok=False
    try:
        for fn,a,b in spec["EDITS"]:
            s=open(R+"/"+fn).read(); assert s.count(a)==1,(spec["ID"],fn,a,s.count(a)); open(R+"/"+fn,"w").write(s.replace(a,b))
        open(d+"/patch.diff","w").write(sh("git -C %s diff"%R).stdout)
        if ok:
            r1=demo()
            if r1.returncode==0: print(spec["ID"],"DEMO PASSES WITH THE BUG"); ok=False
            elif r1.returncode==3: print(spec["ID"],"DEMO DOES NOT COMPILE WITH THE BUG",r1.stdout[-800:]); ok=False
        if ok:
            p,log=tests()
            if p is None: print(spec["ID"],"BUILD FAILS",log); ok=False
            elif set(base)-p: print(spec["ID"],"TESTS FAIL",len(set(base)-p),sorted(set(base)-p)[:5]); ok=False
        c=sh("cd %s && C4_REPO=%s C4_BUILD=%s/b python3 tools/check.py %s"%(V,R,T,spec["PROP"]))
        print(spec["ID"],"ok" if ok else "INVALID","| check",spec["PROP"],"exit",c.returncode,"CAUGHT" if c.returncode==1 else "MISSED","|",c.stdout.strip()[:250].replace("\n"," / "),flush=True)
    except AssertionError as e:
        print("EDIT DOES NOT APPLY",e); ok=False
    finally: sh("git -C %s checkout -q -f ."%R)
    if not ok and not os.environ.get("PLANT_KEEP"): shutil.rmtree(d)
for f in sys.argv[1:]:
    if not f.startswith("--"): one(f)
