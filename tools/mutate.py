#!/usr/bin/env python3
"""mutate.py FILE...: mutation analysis of the checks (a development aid, not a check).
For every executed line of the given files (relative to src/c4), makes single-point
mutants in a scratch copy and runs the checks that execute the line until one fails.
Needs the profiles left by coverage.py in /tmp/c4cov. Survivors are appended to
/tmp/mut/survivors.txt."""
import sys,os,re,subprocess,json,shutil,glob,threading,random,time
from concurrent.futures import ThreadPoolExecutor
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,V+"/tools")
from props import PROPS
B="/tmp/mut"; COV="/tmp/c4cov"; os.makedirs(B,exist_ok=True)
W=int(os.environ.get("MUT_W","8")); FRAC=float(os.environ.get("MUT_FRAC","1"))
FL=["-std=c++17","-O0","-w","-DC4_NO_DEBUG_BREAK"]+(["-fsanitize=address,bounds","-fno-sanitize-recover=all"] if os.environ.get("MUT_ASAN","1")=="1" else [])
ENV=dict(os.environ,ASAN_OPTIONS="abort_on_error=0:exitcode=78:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:max_allocation_size_mb=4096",LC_ALL="C")
def sh(c,t=None,env=None):
    try: return subprocess.run(c,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors="replace",timeout=t,env=env)
    except subprocess.TimeoutExpired as e:
        class R: returncode=99; stdout="timeout"
        return R
def linecov():
    res={}
    def one(d): return os.path.basename(d),sh(["llvm-cov-18","export","-format=lcov","-instr-profile",d+"/p.profdata",d+"/t"]).stdout
    with ThreadPoolExecutor(8) as ex:
        for p,o in ex.map(one,sorted(glob.glob(COV+"/P*"))):
            f=None
            for l in o.splitlines():
                if l.startswith("SF:"): f=l[3:]
                elif l.startswith("DA:") and f and "/src/c4/" in f:
                    k=f.split("/src/c4/")[-1]; n,c=l[3:].split(",")[:2]
                    if int(c)>0: res.setdefault((k,int(n)),{})[p]=int(c)
    return res
OPS=[(r"(?<= )<(?= )","<="),(r"(?<= )<=(?= )","<"),(r"(?<= )>(?= )",">="),(r"(?<= )>=(?= )",">"),(r"==(?!=)","!="),(r"!=","=="),
     (r"(?<=[\w\)\] ]) ?\+ ?(?=[\w\( ])"," - "),(r"(?<=[\w\)\]]) ?- ?(?=[\w\( ])"," + "),(r" \+= "," -= "),(r" -= "," += "),
     (r"&&","||"),(r"\|\|","&&"),(r"(?<=[\(\s,])!(?=[\w\(])",""),(r" & "," | "),(r" \| "," & "),(r"<<(?=[^=])",">>"),(r">>(?=[^=])","<<"),
     (r" \* "," + "),(r" / "," * "),(r" % "," + "),(r"\btrue\b","false"),(r"\bfalse\b","true")]
def mutants(line):
    s=line.rstrip("\n"); t=s.strip(); out=[]
    if not t or t.startswith(("//","#","/*","*","template","using","typedef","static_assert","namespace","friend","public","private","enum","C4_ASSERT","C4_XASSERT","C4_CHECK","C4_STATIC","C4_UNUSED","C4_SUPPRESS","C4_ERROR","C4_NOT")): return []
    code=s; cpos=s.find("//"); 
    if cpos>=0: code=s[:cpos]
    instr=[]; 
    for m in re.finditer(r'"(\\.|[^"\\])*"',code): instr.append((m.start(),m.end()))
    chars=[(m.start(),m.end()) for m in re.finditer(r"'(\\.[0-9a-fA-F]*|[^'\\])'",code)]
    def ok(a,b): return not any(x<b and a<y for x,y in instr+chars)
    for pat,rep in OPS:
        for m in re.finditer(pat,code):
            if not ok(*m.span()): continue
            out.append(s[:m.start()]+rep+s[m.end():])
    for m in re.finditer(r"(?<![\w\.])(0x[0-9a-fA-F]+|\d+)(?=[uUlL]*\b)",code):
        if not ok(*m.span()): continue
        v=int(m.group(0),0)
        out.append(s[:m.start()]+str(v+1)+s[m.end():])
        if v>0: out.append(s[:m.start()]+str(v-1)+s[m.end():])
    for a,b in chars: out.append(s[:a]+"'\\x01'"+s[b:])
    m=re.match(r"^(\s*)(?:else )?if\((.*)\)\s*(\{)?$",code)
    if m and m.group(2).count("(")==m.group(2).count(")") and "constexpr" not in code:
        e="else " if "else if" in code else ""
        out.append(m.group(1)+e+"if(true || (%s))"%m.group(2)+(m.group(3) or "")); out.append(m.group(1)+e+"if(false && (%s))"%m.group(2)+(m.group(3) or ""))
    if re.match(r"^\s*[\w\.\->\[\]\*\(\)\+]+\s*(=|\+=|-=|\*=|/=|>>=|<<=|\|=|&=)\s*[^=].*;\s*$",code) or re.match(r"^\s*(\+\+|--)?[\w\.\->:]+(\(.*\)|\+\+|--)?;\s*$",code) and not re.match(r"^\s*(return|break|continue)",code):
        out.append(re.match(r"^\s*",s).group(0)+";")
    if re.match(r"^\s*(break|continue);",code): out.append(re.match(r"^\s*",s).group(0)+";")
    if re.match(r"^\s*return \w+;\s*$",code): pass
    return list(dict.fromkeys(o for o in out if o!=s))
PRIM=json.load(open(B+"/prim.json")) if os.path.exists(B+"/prim.json") else {}
def prep(d):
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d); shutil.copytree("/repo/src",d+"/src"); 
def main():
    cov=linecov(); files=sys.argv[1:]
    jobs=[]
    for f in files:
        L=open("/repo/src/c4/"+f).read().split("\n")
        for i,l in enumerate(L,1):
            c=cov.get((f,i))
            if not c: continue
            for m in mutants(l): jobs.append((f,i,l,m,c))
    random.Random(5).shuffle(jobs); jobs=jobs[:int(len(jobs)*FRAC)]
    print(len(jobs),"mutants",flush=True)
    # prebuilt objects
    pre=B+"/pre"; shutil.rmtree(pre,ignore_errors=True); os.makedirs(pre)
    base=sorted(glob.glob("/repo/src/c4/*.cpp"))+[V+"/harness/pbt.cpp"]
    def comp(s): return sh(["g++"]+FL+["-I","/repo/src","-I",V+"/harness","-c",s,"-o",pre+"/"+os.path.basename(s)+".o"])
    with ThreadPoolExecutor(8) as ex: list(ex.map(comp,base))
    # prebuilt harness objects for .cpp mutants
    hs=[V+"/harness/%s.cpp"%p for p in sorted(PROPS)]
    if any(f.endswith(".cpp") for f in files):
        with ThreadPoolExecutor(8) as ex: list(ex.map(comp,hs))
    free=list(range(W)); lock=threading.Lock(); stat=dict(killed=0,survived=0,noncompiling=0); t0=time.time()
    for w in free: prep(B+"/w%d"%w)
    killers={}
    def run(j):
        f,i,l,m,c=j
        with lock: w=free.pop()
        d=B+"/w%d"%w
        try:
            p=d+"/src/c4/"+f; orig=open("/repo/src/c4/"+f).read(); L=orig.split("\n"); L[i-1]=m; open(p,"w").write("\n".join(L))
            order=sorted(c,key=lambda q:(PRIM.get(f,[]).index(q) if q in PRIM.get(f,[]) else 50,-c[q]))[:7]
            objs=[pre+"/"+os.path.basename(s)+".o" for s in base]
            if f.endswith(".cpp"):
                o=d+"/m.o"; r=sh(["g++"]+FL+["-I",d+"/src","-c",p,"-o",o])
                if r.returncode: return j,"noncompiling",None
                objs=[o if os.path.basename(x)==os.path.basename(f)+".o" else x for x in objs]
            for q in order:
                if f.endswith(".cpp"): ho=pre+"/%s.cpp.o"%q
                else:
                    ho=d+"/h.o"; r=sh(["g++"]+FL+["-I",d+"/src","-I",V+"/harness","-c",V+"/harness/%s.cpp"%q,"-o",ho])
                    if r.returncode: return j,"noncompiling",None
                r=sh(["g++"]+FL+[ho]+objs+["-o",d+"/t"])
                if r.returncode: return j,"noncompiling",None
                u=max(1,int(PROPS[q]["unit"]*float(os.environ.get("MUT_SCALE","0.05"))))
                r=sh(["nice",d+"/t","--seed","1","--unit",str(u),"--workers","1","--stats",d+"/s.json","--replay-out",d+"/r.txt","--noshrink"],t=100,env=ENV)
                if r.returncode: return j,"killed",q
            return j,"survived",order
        finally:
            open(p,"w").write(orig)
            with lock: free.append(w)
    with ThreadPoolExecutor(W) as ex:
        for n,(j,s,q) in enumerate(ex.map(run,jobs)):
            stat[s]+=1
            if s=="killed": killers[q]=killers.get(q,0)+1
            if s=="survived":
                with open(B+"/survivors.txt","a") as o: o.write("%s:%d\n  - %s\n  + %s\n  %s\n"%(j[0],j[1],j[2].strip(),j[3].strip()," ".join(q)))
            if n%50==0: print(n,stat,int(time.time()-t0),flush=True)
    print(stat,killers,int(time.time()-t0))
main()
