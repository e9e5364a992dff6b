"""Registry: harnesses, properties, and the jobs (entry point + bounds) that decide each property.

gen.py writes properties.jsonl and MANIFEST.json from this file."""
H={}
def harness(id,file,**k): H[id]=dict(id=id,file=file,**k)
harness("geno","geno.cpp",sources=["pwq_bound_strategy"])
harness("run","run.cpp")
harness("twin","twin.cpp")
harness("upd","upd.cpp")
harness("config","config.cpp")
harness("err","err.cpp")
harness("stop","stop.cpp")
harness("uh","uh.cpp")
harness("mem","mem.cpp")
harness("surr","surr.cpp",more_sources=["surrogatestrategy"])
harness("rsvm","rsvm.cpp",preinclude=["rngshim.h"],more_sources=["surrogatestrategy"])
harness("omp","omp.cpp",flags=["-fopenmp","-DEIGEN_DONT_PARALLELIZE","-isystem","@HERE@/include/omp"])
harness("restart","run.cpp",preinclude=["rngshim.h"])
harness("sample","sample.cpp",preinclude=["rngshim.h"])

COMMON_ASSUMPTIONS=[
 "arithmetic on solver variables is over the reals (IEEE rounding is outside the claim; everything concrete is executed in IEEE double, and every counterexample is replayed natively before it is reported)",
 "Eigen's decompositions, the standard library and the mersenne twister are executed as compiled, on concrete operands",
 "compiled without OpenMP (the pragmas are sequential loops) except where a job says otherwise",
 "bounds: the dimension, population size, number of generations, window of symbolic values and value ranges listed per job; anything outside them is not claimed"]
P={}
def get(i): return P[i]
def jobs(p,tier):
    r=[]; seen=set()
    for j in p["jobs"](tier):
        k=(j["h"],j["entry"],tuple(sorted(j["params"].items())))
        if k not in seen: seen.add(k); r.append(j)
    return r
def bounds(p,tier): return p["bounds"]
def J(h,e,t=60,**k):
    o=k.pop("opts",[]); rc=k.pop("reach",None); md=k.pop("mode",None)
    d=dict(h=h,entry=e,params=k,time=t,opts=o)
    if rc is not None: d["reach"]=rc
    if md: d["mode"]=md
    return d
MIXED="C01 C04 C05 C06 C07 C08 C09 C11 C14 C24 C28 C29 C30 C32".split()
def prop(id,**k):
    k["id"]=id
    if id in MIXED: k["bounds"]+="; plus configurations drawn with a fixed seed from the product of the options the property admits (flavour, dimension 2..9, population 4..33, up to 60 generations, restarts, elitism, gradient, bounds and scaling, fixed parameters, step size 0.01..20, landscapes from flat to ill-conditioned, values up to 1e12), each with one to three symbolic values in a random place"
    if id in ("C12","C13","C17"): k["bounds"]+="; plus updates in configurations drawn with a fixed seed (dimension up to 100, population up to 60, step size 1e-6..1e4, covariance scale 1e-4..1e4, generation up to 400)"
    P[id]=k
K_FEVALS,K_VALUE,K_RANK,K_BEST,K_FIXED,K_ELIT,K_BOX,K_LIMITS,K_SIGMA,K_STATUS,K_RESTART=1,2,4,8,16,32,64,128,256,512,1024
exec(open(__import__("os").path.join(__import__("os").path.dirname(__file__),"proplist.py")).read())
if __import__("os").environ.get("VERIF_TP"): exec(open(__import__("os").environ["VERIF_TP"]).read())
