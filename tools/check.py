#!/usr/bin/env python3
"""Driver of all checks:  check.py <property> [--tier quick|thorough] [--replay FILE]

Builds the property's harness against the current working tree of /repo in each
configuration, runs the generated-input search, writes evidence/<property>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken.
"""
import sys, os, json, subprocess, time, shutil, re, glob
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("C4_REPO","/repo")
sys.path.insert(0,os.path.join(VERIF,"tools"))
from props import PROPS, CONFIGS, COMMON

def sh(cmd, timeout=None, env=None, stdout=None):
    return subprocess.run(cmd, stdout=stdout or subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, text=True, errors="replace")

def build(prop, conf, bdir, fuzzer=False):
    """returns (binary or None, log)"""
    c=CONFIGS[conf]
    d=os.path.join(bdir,conf+("-fuzz" if fuzzer else "")); os.makedirs(d,exist_ok=True)
    flags=COMMON+c["flags"]+PROPS[prop].get("flags",[])+["-I",os.path.join(REPO,"src"),"-I",os.path.join(VERIF,"harness")]
    if fuzzer: flags=flags+["-fsanitize=fuzzer-no-link","-DPBT_LIBFUZZER"]
    srcs=[os.path.join(VERIF,"harness",f) for f in PROPS[prop].get("sources",[prop+".cpp"])]+[os.path.join(VERIF,"harness","pbt.cpp")]
    srcs+=sorted(glob.glob(os.path.join(REPO,"src/c4/*.cpp")))
    objs=[]; jobs=[]
    for s in srcs:
        o=os.path.join(d,os.path.basename(s)+".o"); objs.append(o)
        jobs.append([c["cxx"]]+flags+["-c",s,"-o",o])
    return d, c, flags, objs, jobs, fuzzer

def build_all(prop, confs, bdir, fuzz_confs=()):
    plans=[(cf,False)+(build(prop,cf,bdir),) for cf in confs]+[(cf,True)+(build(prop,cf,bdir,True),) for cf in fuzz_confs]
    alljobs=[(cf,fz,j) for cf,fz,p in plans for j in p[4]]
    # big harness sources first
    alljobs.sort(key=lambda x: 0 if "/harness/" in x[2][x[2].index("-c")+1] and not x[2][x[2].index("-c")+1].endswith("pbt.cpp") else 1)
    with ThreadPoolExecutor(max_workers=8) as ex:
        res=list(ex.map(lambda x:(x[0],x[1],sh(x[2])),alljobs))
    out={}
    for cf,fz,p in plans:
        d,c,flags,objs,jobs,_=p
        bad=[r.stdout for a,b,r in res if a==cf and b==fz and r.returncode]
        if bad: out[(cf,fz)]=(None,bad[0]); continue
        exe=os.path.join(d,"t")
        lf=[f for f in flags if f not in("-fsanitize=fuzzer-no-link",)]
        r=sh([c["cxx"]]+lf+objs+(["-fsanitize=fuzzer"] if fz else [])+["-o",exe])
        out[(cf,fz)]=(exe,"") if r.returncode==0 else (None,r.stdout)
    return out

ENV=dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=78:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=4096",
         UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", TSAN_OPTIONS="halt_on_error=1:exitcode=78:report_thread_leaks=0:report_signal_unsafe=0:handle_abort=0", LC_ALL="C", C4_SRC=os.path.join(REPO,"src"))

def main():
    prop=sys.argv[1]; args=sys.argv[2:]
    tier=os.environ.get("VERIF_TIER","quick")
    if "--tier" in args: tier=args[args.index("--tier")+1]
    seed=int(os.environ.get("VERIF_SEED","1") or 1)
    P=PROPS[prop]
    t0=time.time()
    bdir=os.path.join(os.environ.get("C4_BUILD",os.path.join(VERIF,"build")),prop); shutil.rmtree(bdir,ignore_errors=True); os.makedirs(bdir)
    rdir=os.path.join(VERIF,"replays"); os.makedirs(rdir,exist_ok=True)
    confs=list(P["configs"])
    if "--config" in args: confs=[args[args.index("--config")+1]]
    if "--replay" in args:
        f=args[args.index("--replay")+1]
        txt=open(f).read(); m=re.search(r"^config (\S+)",txt,re.M)
        cf=m.group(1) if m else confs[0]
        b=build_all(prop,[cf],bdir)
        exe,log=b[(cf,False)]
        if not exe: print(log); sys.exit(2)
        r=sh([exe,"--replay",f],env=ENV); print(r.stdout); shutil.rmtree(bdir,ignore_errors=True)
        if r.returncode==1: print("VIOLATION property=%s replay=%s"%(prop,f))
        sys.exit(r.returncode)
    fuzz=["fuzz"] if (tier=="thorough" and P.get("fuzz",True) and "--nofuzz" not in args) else []
    bins=build_all(prop,confs,bdir,fuzz)
    tb=time.time()-t0
    unit=P["unit"]*(P.get("thorough_factor",6) if tier=="thorough" else 1)
    if os.environ.get("C4_UNIT_SCALE"): unit=max(1,int(unit*float(os.environ["C4_UNIT_SCALE"])))
    agg=dict(evaluations=0,distinct=0,nontrivial=0,samples=[],targets={},labels={},configs={},skipped=[])
    violations=[]; errors=[]
    for cf in confs:
        exe,log=bins[(cf,False)]
        if not exe:
            agg["skipped"].append(cf)
            print("config %s does not build:\n%s"%(cf,log[:3000]))
            if cf==confs[0]: errors.append("primary configuration does not build")
            continue
        stats=os.path.join(bdir,cf+".json"); rp=os.path.join(rdir,"%s-%s-seed%d.txt"%(prop,cf,seed))
        if os.path.exists(rp): os.unlink(rp)
        u=max(1,int(unit*CONFIGS[cf].get("scale",1)))
        cmd=[exe,"--seed",str(seed),"--unit",str(u),"--workers",str(os.environ.get("C4_WORKERS","8")),"--stats",stats,"--replay-out",rp]
        if tier=="thorough": cmd.append("--thorough")
        if "--only" in args: cmd+=["--only",args[args.index("--only")+1]]
        r=sh(cmd,env=ENV)
        if r.stdout.strip(): print("[%s] %s"%(cf,r.stdout.strip()))
        if "FATAL: ThreadSanitizer" in r.stdout: agg["skipped"].append(cf+" (the thread sanitizer cannot start here)"); continue
        if not os.path.exists(stats): errors.append("no statistics from "+cf); continue
        st=json.load(open(stats))
        agg["evaluations"]+=st["evaluations"]; agg["distinct"]=max(agg["distinct"],st["distinct_nontrivial"]); agg["nontrivial"]+=st["nontrivial"]
        agg["configs"][cf]=dict(evaluations=st["evaluations"],nontrivial=st["nontrivial"],distinct_nontrivial=st["distinct_nontrivial"],wall_s=st["wall_s"],flags=" ".join([CONFIGS[cf]["cxx"]]+CONFIGS[cf]["flags"]))
        for k,v in st["labels"].items(): agg["labels"][k]=agg["labels"].get(k,0)+v
        for k,v in st["targets"].items():
            t=agg["targets"].setdefault(k,dict(evaluations=0,nontrivial=0,exhaustive=v["exhaustive"])); t["evaluations"]+=v["evaluations"]; t["nontrivial"]+=v["nontrivial"]
        if cf==confs[0]: agg["samples"]=st["samples"]
        if r.returncode==1:
            with open(rp,"a") as f: f.write("config %s\nproperty %s\nseed %d\n"%(cf,prop,seed))
            violations.append((cf,rp,st["message"])); break
        elif r.returncode: errors.append("%s: %s"%(cf,r.stdout[-500:]))
    fz=None
    if not violations and fuzz and bins.get(("fuzz",True),(None,))[0]:
        exe=bins[("fuzz",True)][0]; cd=os.path.join(bdir,"corpus"); os.makedirs(cd,exist_ok=True)
        runs=P.get("fuzz_runs",400000)
        def one(k):
            e=dict(ENV); e["PBT_CURRENT"]=""; e.pop("PBT_CURRENT")
            w=os.path.join(bdir,"f%d"%k); os.makedirs(w,exist_ok=True); os.makedirs(w+"/c",exist_ok=True)
            return k,w,sh([exe,"-seed=%d"%(seed*8+k+1),"-runs=%d"%runs,"-max_len=600","-len_control=20","-print_final_stats=1","-artifact_prefix=%s/"%w,"-timeout=60","-rss_limit_mb=4096",w+"/c"],env=e)
        with ThreadPoolExecutor(max_workers=8) as ex: rs=list(ex.map(one,range(8)))
        execs=0
        for k,w,r in rs:
            m=re.search(r"number_of_executed_units:\s*(\d+)",r.stdout); execs+=int(m.group(1)) if m else 0
            arts=glob.glob(w+"/crash-*")+glob.glob(w+"/timeout-*")
            if arts and not violations:
                rp=os.path.join(rdir,"%s-fuzz-seed%d.txt"%(prop,seed)); e=dict(ENV); e["PBT_CURRENT"]=rp
                sh([exe,arts[0]],env=e)
                # must replay in the plain (non-fuzzer) build
                for cf in confs:
                    if not bins[(cf,False)][0]: continue
                    rr=sh([bins[(cf,False)][0],"--replay",rp],env=ENV)
                    if rr.returncode==1:
                        with open(rp,"a") as f: f.write("config %s\nproperty %s\n"%(cf,prop))
                        violations.append((cf,rp,rr.stdout[-2000:])); break
                else: print("libFuzzer finding not reproduced in the plain builds (ignored):",r.stdout[-1500:])
        fz=dict(executions=execs,workers=8); agg["evaluations"]+=execs
    wall=time.time()-t0
    cov=dict(evaluations=agg["evaluations"],distinct_nontrivial=agg["distinct"],rule=P["rule"],samples=agg["samples"][:24] or ["(none)"],
        nontrivial_evaluations=agg["nontrivial"],targets=agg["targets"],classes=agg["labels"],configurations=agg["configs"],
        skipped_configurations=agg["skipped"],build_s=round(tb,2))
    if fz: cov["libfuzzer"]=fz
    os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
    json.dump(dict(property=prop,tier=tier,seed=seed,level="exploration",coverage=cov,wall_s=round(wall,2),violations=len(violations),
        assumptions=P.get("assumptions",[])),open(os.path.join(VERIF,"evidence",prop+".json"),"w"),indent=1)
    shutil.rmtree(bdir,ignore_errors=True)
    kf=os.path.join(VERIF,"known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m=re.match(r"known: property=(\S+) (.*)",l)
            if m and m.group(1)==prop: print("KNOWN-FINDING: property=%s %s"%(prop,m.group(2)))
    if violations:
        cf,rp,msg=violations[0]
        print("VIOLATION property=%s replay=%s"%(prop,rp)); sys.exit(1)
    if errors:
        print("CHECK ERROR:","; ".join(errors)); sys.exit(2)
    print("%s held: %d cases (%d non-trivial), %d configs, %.1fs (build %.1fs)"%(prop,agg["evaluations"],agg["nontrivial"],len(agg["configs"]),wall,tb))
    sys.exit(0)
main()
