#!/usr/bin/env python3
"""Run the solver-based check of one property against /repo's current working tree.

  check.py ID [--tier quick|thorough] [--repo DIR] [-v]

Exit 0: the property held on everything explored (NOT-EXPLORED lines name jobs without a verdict).
Exit 1: a solver counterexample was reproduced natively; prints VIOLATION lines.
Exit 2: no verdict (nine tenths of the jobs or more could not be encoded or ran out of budget).
"""
import sys, os, json, time, hashlib, subprocess, fcntl, re, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(BUILD, "symex")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
# every source of the library (the surrogate strategies, a large set of instantiations, only where a harness names them)
ALLSRC = sorted(f[:-3] for f in os.listdir(REPO+"/src") if f.endswith(".cc") and f!="surrogatestrategy.cc")
def srclist(h): return h.get("sources",ALLSRC)+h.get("more_sources",[])
BASE_FLAGS = ["-std=c++11","-w","-O1","-Xclang","-disable-llvm-passes","-gline-tables-only","-DNDEBUG","-DEIGEN_DONT_VECTORIZE","-DEIGEN_NO_CPUID","-fno-access-control"]

def log(*a): print(*a, flush=True)

def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ""
        return 124, o if isinstance(o, str) else o.decode(errors="replace")

def incs(shim):
    r = ["-I"+HERE+"/include"]
    if shim: r.append("-I"+HERE+"/include/shim")
    return r + ["-I"+REPO+"/include/libcmaes","-I"+HERE+"/include/gen","-I"+REPO+"/include","-isystem","/usr/include/eigen3"]

def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()

def tree(d, exts=(".h",".hpp",".inc")):
    r = []
    for a,_,fs in os.walk(d):
        for f in fs:
            if f.endswith(exts): r.append(os.path.join(a,f))
    return sorted(r)

def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD,".lock"),"w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc,o = sh(["make","-s","-j4","-C",HERE+"/engine","BIN="+ENGINE])
        if rc: log(o); log("engine build failed"); sys.exit(2)

class CompileError(Exception): pass

def compile_one(src, flags, key_extra):
    key = hashlib.sha256((" ".join(flags)+src+filehash([src])+key_extra).encode()).hexdigest()[:24]
    d = os.path.join(BUILD,"bc"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src).rsplit(".",1)[0]+"-"+key+".bc")
    if not os.path.exists(out):
        tmp = out+".%d.tmp"%os.getpid()
        rc,o = sh(["clang++"]+flags+["-emit-llvm","-c",src,"-o",tmp])
        if rc: raise CompileError(src+":\n"+o[-3000:])
        os.rename(tmp,out)
    return out

def build_module(h):
    """Compile harness and library sources to bitcode from the current tree, link and optimise."""
    prop = h
    flags = BASE_FLAGS + [x.replace("@HERE@",HERE) for x in h.get("flags",[])] + incs(bool(h.get("shim")))
    for f in h.get("preinclude",[]): flags += ["-include", HERE+"/include/"+f]
    key = filehash(tree(REPO+"/include")+tree(HERE+"/include")+tree(HERE+"/harness"))
    srcs = [HERE+"/harness/"+prop["file"]] + [REPO+"/src/"+s+".cc" for s in srclist(h)] + [HERE+"/support/strings.cpp"]
    srcs += [HERE+"/"+x for x in prop.get("extra_sources",[])]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(compile_one, s, (BASE_FLAGS if s.endswith("strings.cpp") else flags), (key if not s.endswith("strings.cpp") else "")) for s in srcs]
        bcs = [f.result() for f in futs]
    k = hashlib.sha256(("".join(bcs)+filehash([ENGINE])).encode()).hexdigest()[:24]
    out = os.path.join(BUILD,"bc","mod-"+h["id"]+"-"+k+".bc")
    if not os.path.exists(out):
        tmp = out+".%d.tmp"%os.getpid()
        rc,o = sh([ENGINE,"prep",tmp]+bcs)
        if rc: raise CompileError("prep: "+o[-2000:])
        os.rename(tmp,out)
    return out, bcs

def native_build(prop, bcs, entry, opt="-O1"):
    """Native replay binary: the same translation units, compiled to machine code."""
    d = os.path.join(BUILD,"native"); os.makedirs(d, exist_ok=True)
    bcs = [b for b in bcs if not os.path.basename(b).startswith("strings-")]
    def obj(b):
        o = os.path.join(d, os.path.basename(b)[:-3]+opt+".o")
        if not os.path.exists(o):
            tmp=o+".%d.tmp"%os.getpid(); rc,t = sh(["clang++",opt,"-w","-c",b,"-o",tmp])
            if rc: raise CompileError(t[-2000:])
            os.rename(tmp,o)
        return o
    rt = os.path.join(d,"rt-%s-%s.o"%(entry,filehash([HERE+"/include/native_rt.cpp"])[:12]))
    def rto():
        if not os.path.exists(rt):
            rc,t = sh(["clang++","-O1","-w","-std=c++11","-DSYM_ENTRY="+entry]+incs(False)+["-c",HERE+"/include/native_rt.cpp","-o",rt])
            if rc: raise CompileError(t[-2000:])
        return rt
    def kmpc():
        o = os.path.join(d,"kmpc-%s.o"%filehash([HERE+"/include/omp/kmpc_rt.cpp"])[:12])
        if not os.path.exists(o):
            rc,t = sh(["clang++","-O1","-w","-c",HERE+"/include/omp/kmpc_rt.cpp","-o",o+".%d.tmp"%os.getpid()])
            if rc: raise CompileError(t[-2000:])
            os.rename(o+".%d.tmp"%os.getpid(),o)
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fo=[ex.submit(obj,b) for b in bcs]; fr=ex.submit(rto); fk=[ex.submit(kmpc)] if "-fopenmp" in prop.get("flags",[]) else []
        objs=[f.result() for f in fo]+[fr.result()]+[f.result() for f in fk]
    exe = os.path.join(d,"replay-"+prop["id"]+"-"+entry+"-"+hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        rc,t = sh(["clang++","-o",exe]+objs)
        if rc: raise CompileError(t[-2000:])
    return exe

def tsan_build(h, entry):
    """The same sources with -fsanitize=thread and a small OpenMP runtime on plain threads, to replay a reported race."""
    d = os.path.join(BUILD,"tsan"); os.makedirs(d, exist_ok=True)
    flags = ["-std=c++11","-w","-O1","-g1","-fsanitize=thread","-DNDEBUG","-DEIGEN_DONT_VECTORIZE","-DEIGEN_NO_CPUID","-fno-access-control"] + [x.replace("@HERE@",HERE) for x in h.get("flags",[])] + incs(bool(h.get("shim")))
    srcs = [HERE+"/harness/"+h["file"]] + [REPO+"/src/"+s+".cc" for s in srclist(h)]
    key = filehash(tree(REPO+"/include")+tree(HERE+"/include",(".h",".cpp"))+tree(HERE+"/harness",(".h",".cpp"))+srcs)[:16]
    def one(s,fl,tag):
        o = os.path.join(d,os.path.basename(s)+"-"+tag+"-"+key+".o")
        if not os.path.exists(o):
            rc,t = sh(["clang++"]+fl+["-c",s,"-o",o+".tmp"])
            if rc: raise CompileError(t[-2000:])
            os.rename(o+".tmp",o)
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs=[ex.submit(one,s,flags,"t") for s in srcs]+[ex.submit(one,HERE+"/include/native_rt.cpp",["-O1","-w","-std=c++11","-fsanitize=thread","-DSYM_ENTRY="+entry]+incs(False),entry),ex.submit(one,HERE+"/include/omp/kmpc_rt.cpp",["-O1","-w","-std=c++11","-fsanitize=thread"],"rt")]
        objs=[f.result() for f in fs]
    exe=os.path.join(d,"tsan-"+entry+"-"+key)
    rc,t = sh(["clang++","-fsanitize=thread","-o",exe]+objs+["-lpthread"])
    if rc: raise CompileError(t[-2000:])
    return exe

def run_tsan(exe, inp):
    """True: a race was reported; False: none; None: the sanitizer cannot run here."""
    env = dict(os.environ, SYM_INPUT=inp, TSAN_OPTIONS="exitcode=66 halt_on_error=1 report_bugs=1")
    for pre in ([],["setarch","-R"]):
        try: p = subprocess.run(pre+[exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300, env=env)
        except (subprocess.TimeoutExpired,FileNotFoundError): continue
        if p.returncode==66 and "data race" in p.stdout: return True, "ThreadSanitizer: "+" ".join(l.strip() for l in p.stdout.splitlines() if l.startswith("SUMMARY"))[:200]
        if "REPLAY-OK" in p.stdout or p.returncode in (0,1,3): return False, "ThreadSanitizer reports no race rc=%d"%p.returncode
    return None, "ThreadSanitizer does not run here"

def write_input(path, model, params):
    with open(path,"w") as f:
        for k,v in params.items(): f.write("@%s %d\n"%(k,v))
        for k,v in model.items(): f.write("%s %s\n"%(k,v))

def run_native(exe, inp, valgrind=False, timeout=120, perturb=None):
    env = dict(os.environ, SYM_INPUT=inp)
    if perturb: env["MALLOC_PERTURB_"]=perturb
    cmd = [exe]
    if valgrind: cmd = ["valgrind","-q","--error-exitcode=97","--track-origins=no",exe]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, ""

def run_job(mod, prop, job, tier, workdir, i):
    out = os.path.join(workdir,"job%d.json"%i)
    cmd = [ENGINE,"run",mod,"--entry",job["entry"],"--mode",job.get("mode","real"),"--out",out,"--time",str(job.get("time",240 if tier=="quick" else 1500))]
    for k,v in job.get("params",{}).items(): cmd += ["--param","%s=%d"%(k,v)]
    cmd += job.get("opts",[])
    t0=time.time()
    rc,o = sh(cmd, timeout=job.get("time",240 if tier=="quick" else 1500)*2+120)
    if not os.path.exists(out): return dict(error="engine rc=%d: %s"%(rc,o[-800:]), job=job)
    r = json.load(open(out)); r["job"]=job; r["elapsed"]=time.time()-t0; r["log"]=o[-2000:]
    return r

def job_name(j): return j["entry"]+"["+",".join("%s=%s"%kv for kv in j.get("params",{}).items())+("" if j.get("mode","real")=="real" else ",ieee")+"]"

def known_findings(pid):
    r=[]
    p=os.path.join(HERE,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"known: property=(\S+) entry=(\S+) assert=\"(.*?)\" (.*)$",l.strip())
            if m and m.group(1)==pid: r.append(m.groups())
    return r

def main():
    import argparse
    ap=argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier",default=os.environ.get("VERIF_TIER","quick")); ap.add_argument("-v",action="store_true"); ap.add_argument("--only"); ap.add_argument("--validate",action="store_true"); ap.add_argument("--keep",action="store_true"); ap.add_argument("--strict",action="store_true"); ap.add_argument("--all",action="store_true",help="do not stop at the first confirmed counterexample")
    a=ap.parse_args()
    import props
    prop=props.get(a.id); tier=a.tier; t0=time.time()
    ensure_engine()
    t1=time.time()
    jobs=props.jobs(prop,tier)
    if a.only: jobs=[j for j in jobs if a.only in job_name(j)]
    mods={}; problems=[]; bad=set(); confirmed=[]; unconfirmed=[]; known=[]; kf=known_findings(a.id)
    rdir=os.path.join(HERE,"evidence","replay-"+a.id)
    if os.path.isdir(rdir): shutil.rmtree(rdir,ignore_errors=True)
    for h in sorted({j["h"] for j in jobs}):
        try: mods[h]=build_module(props.H[h])
        except CompileError as e: problems.append("harness %s does not compile against this tree: %s"%(h,str(e)[-1500:])); bad|={job_name(j) for j in jobs if j["h"]==h}
    if not mods:
        log("NO-VERDICT property=%s: the harness does not compile against this tree\n%s"%(a.id,"\n".join(problems))); sys.exit(2)
    t2=time.time()
    work=os.path.join(BUILD,"work-%s-%d"%(a.id,os.getpid())); os.makedirs(work,exist_ok=True)
    res=[]; seen={}; stop=False
    deadline=t0+(700 if tier=="quick" else 6*3600)
    def verdict(r):
        """Problems of one finished job; counterexamples are replayed natively at once."""
        jn=job_name(r["job"]); np=len(problems)
        if r.get("error"): bad.add(jn); problems.append(jn+": "+r["error"]); return
        for u in r["unsupported"]: problems.append(jn+": cannot encode: "+u)
        if r["incomplete"]: problems.append(jn+": exploration incomplete: "+r["incomplete_reason"])
        for u in r["inconclusive"]: problems.append(jn+": solver gave no verdict: "+u)
        if not r["violations"] and not r["incomplete"] and not r["unsupported"]:
            for tag in r["job"].get("reach",prop.get("reach",["end"])):
                if not r["reach"].get(tag): problems.append(jn+": vacuous: witness '%s' not reached"%tag)
        if len(problems)>np: bad.add(jn)
        for v in r["violations"]:
            key=(r["job"]["entry"],v["kind"],v["msg"])
            if seen.get(key,0)>=8: continue
            seen[key]=seen.get(key,0)+1
            os.makedirs(rdir,exist_ok=True)
            n=len(os.listdir(rdir)); inp=os.path.join(rdir,"input%d.txt"%n)
            par=dict(r["job"].get("params",{})); write_input(inp,v["model"],par)
            try: exe=native_build(props.H[r["job"]["h"]],mods[r["job"]["h"]][1],r["job"]["entry"],"-O0" if v["kind"]=="uninit" else "-O1")
            except CompileError as e: problems.append("native replay build failed: "+str(e)[-500:]); bad.add(jn); break
            ok=False; note=""
            for vg in ([False,True] if v["kind"] in ("memory","uninit") or v.get("uninit") else [False]):
                for pert in ([None,"85","170"] if v.get("uninit") and not vg else [None]):
                    rc,o=run_native(exe,inp,valgrind=vg,perturb=pert)
                    if rc==1 and "ASSERT-FAIL" in o: ok=True
                    elif v["kind"]=="exception" and rc==4: ok=True
                    elif rc<0 or rc in (134,136,139): ok=True
                    elif vg and rc==97: ok=True
                    note=(o.strip().splitlines() or [""])[-1][:200]+" rc=%d"%rc
                    if ok: break
                if ok: break
            if not ok and v["kind"]=="race":
                try: ts,note=run_tsan(tsan_build(props.H[r["job"]["h"]],r["job"]["entry"]),inp)
                except CompileError as e: ts,note=None,"sanitizer build failed"
                ok=ts is not False
                if ts is None: note+="; the access sets of two iterations intersect on the executed path"
            rec=dict(job=jn,kind=v["kind"],msg=v["msg"],where=v["where"],input=inp,native=note,entry=r["job"]["entry"])
            isk=[k for k in kf if k[1]==r["job"]["entry"] and k[2]==v["msg"]]
            if ok and isk: known.append((isk[0],rec))
            elif ok: confirmed.append(rec)
            else: unconfirmed.append(rec); bad.add(jn)
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            todo=[j for j in jobs if j["h"] in mods]
            futs={ex.submit(run_job,mods[j["h"]][0],prop,j,tier,work,i):j for i,j in enumerate(todo)}
            done=set()
            try:
                for f in cf.as_completed(futs,timeout=max(1,deadline-time.time())):
                    done.add(f); r=f.result(); res.append(r)
                    if a.v or r.get("error"):
                        if r.get("error"): log("job",job_name(r["job"]),"ERROR",r["error"])
                        else: log("job",job_name(r["job"]),"paths",r["paths"],"cut",r["paths_assume_cut"],"queries",r["queries"],"aq",r["assert_queries"],"unsat",r["unsat"],"unk",r["unknown"],"solver %.1fs wall %.1fs"%(r["solver_s"],r["wall_s"]),"incomplete" if r["incomplete"] else "", "viol",len(r["violations"]),"incon",len(r["inconclusive"]),"unsup",r["unsupported"] or "", "uninit",r["uninit_at"] or "")
                    verdict(r)
                    if confirmed and not a.all: stop=True; break
            except cf.TimeoutError: pass
            if len(done)<len(futs):
                for f in futs: f.cancel()
                subprocess.run(["pkill","-9","-f",work+"/"],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
                for f,j in futs.items():
                    if f not in done:
                        bad.add(job_name(j))
                        if not stop: problems.append(job_name(j)+": not run within the time budget")
    finally:
        if not a.keep: shutil.rmtree(work,ignore_errors=True)
    validated=0
    if not confirmed and (a.validate or (tier=="thorough" and prop.get("validate",True))):
        # translation validation: replay explored paths natively; every assertion must hold there too
        os.makedirs(rdir,exist_ok=True); ent={}
        for r in res:
            for w in r.get("witnesses",[])[:4]:
                if len(ent.setdefault((r["job"]["h"],r["job"]["entry"]),[]))<12: ent[(r["job"]["h"],r["job"]["entry"])].append((r,w))
        for e,lst in ent.items():
            try: exe=native_build(props.H[e[0]],mods[e[0]][1],e[1])
            except CompileError as x: problems.append("native build failed: "+str(x)[-500:]); break
            for r,w in lst:
                inp=os.path.join(rdir,"w.txt"); write_input(inp,w,r["job"].get("params",{})); rc,o=run_native(exe,inp)
                if rc==0: validated+=1
                elif rc==3: pass
                else: problems.append("native run of an explored path disagrees: %s rc=%d %s"%(job_name(r["job"]),rc,o.strip()[-200:])); bad.add(job_name(r["job"]))
    # group
    for k,rec in {k[2]:(k,rec) for k,rec in known}.values():
        log("KNOWN-FINDING: property=%s %s"%(a.id,k[3]))
    wall=time.time()-t0
    good=[r for r in res if not r.get("error")]
    fns=sorted({f for r in good for f in r["functions"]})
    ev=dict(property=a.id,tier=tier,seed=int(os.environ.get("VERIF_SEED","1")),level=prop.get("level","model_checking"),
      coverage=dict(states=sum(r["paths"] for r in good),transitions=sum(r["forks"] for r in good),
        traces_validated_against_impl=validated+len(confirmed),
        samples=[job_name(r["job"])+": "+s for r in good for s in r["samples"][:1]][:6],
        jobs=[dict(job=job_name(r["job"]),paths=r["paths"],queries=r["queries"],assertion_queries=r["assert_queries"],assertions_unsat=r["assert_unsat"],assertions_decided_by_simplification=r["asserts_folded"],unknown=r["unknown"],solver_s=round(r["solver_s"],3),wall_s=round(r["wall_s"],2),steps=r["steps"],complete=not r["incomplete"]) for r in good],
        functions_encoded=fns, functions_encoded_count=len(fns),
        assertions=dict(sorted({m:sum(r["asserts"].get(m,0) for r in good) for r0 in good for m in r0["asserts"]}.items())),
        bounds=props.bounds(prop,tier), queries=sum(r["queries"] for r in good), queries_unsat=sum(r["unsat"] for r in good), queries_sat=sum(r["sat"] for r in good), queries_unknown=sum(r["unknown"] for r in good), solver_s=round(sum(r["solver_s"] for r in good),3),
        instructions_executed=sum(r["steps"] for r in good), build_s=round(t2-t1,1), jobs_fully_decided=len(jobs)-len(bad), not_confirmed=unconfirmed, not_explored=problems[:40],
        explanation="paths = states: every feasible path of the harness through the real code within the bounds was executed symbolically; each assertion was decided by z3 over all inputs of its path"),
      wall_s=round(wall,2),assumptions=prop.get("assumptions",[])+props.COMMON_ASSUMPTIONS,violations=len(confirmed))
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    json.dump(ev,open(os.path.join(HERE,"evidence",a.id+".json"),"w"),indent=1)
    log("property %s tier %s: %d jobs, %d paths, %d queries (%d unsat, %d sat, %d unknown), solver %.1fs, wall %.1fs"%(a.id,tier,len(jobs),ev["coverage"]["states"],ev["coverage"]["queries"],ev["coverage"]["queries_unsat"],ev["coverage"]["queries_sat"],ev["coverage"]["queries_unknown"],ev["coverage"]["solver_s"],wall))
    if confirmed:
        shown=set()
        for c in confirmed:
            if (c["entry"],c["msg"]) in shown: continue
            shown.add((c["entry"],c["msg"]))
            log("counterexample in %s: %s [%s] at %s; native: %s"%(c["job"],c["msg"],c["kind"],c["where"][:160],c["native"]))
            log("VIOLATION property=%s replay=%s"%(a.id,c["input"]))
        sys.exit(1)
    if unconfirmed:
        for c in unconfirmed[:10]: log("unconfirmed model in %s: %s [%s] at %s; native: %s"%(c["job"],c["msg"],c["kind"],c["where"][:160],c["native"]))
        problems.append("%d solver models did not reproduce natively"%len(unconfirmed)); bad|={c["job"] for c in unconfirmed}
    if problems:
        for p in problems[:12]: log("NOT-EXPLORED property=%s: %s"%(a.id,p))
        if len(bad)*10>9*len(jobs) or a.strict: log("NO-VERDICT property=%s"%a.id); sys.exit(2)
    log("HOLDS property=%s on everything explored within the stated bounds (%d of %d jobs fully decided)"%(a.id,len(jobs)-len(bad),len(jobs)))
    sys.exit(0)
if __name__=="__main__": main()
