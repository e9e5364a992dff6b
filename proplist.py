# ---- transforms -------------------------------------------------------------------------------
def q(t,a,b): return a if t=="quick" else b
def c01(t):
    r=[J("geno","h_inbox",v=v,mat=m,bc=-1,sd=d,xd=d,dim=3,cols=1) for v in range(5) for m in (0,1) for d in range(3)]
    r+=[J("geno","h_inbox",v=v,mat=m,bc=b,xd=d,dim=3) for v in range(5) for m in (0,1) for b in (0,3) for d in range(3)]
    r+=[J("geno","h_inbox",v=v,bc=b,xd=0,dim=1,lim=2000000000) for v in (0,1,2) for b in (0,1,2,5)]
    r+=[J("geno","h_inbox",v=v,bc=b,dim=2) for v in (0,1,2) for b in (0,1,2,3)]
    r+=[J("geno","h_inbox",v=v,mat=1,bc=2,cols=101,col=c,dim=2,xd=1) for v in range(5) for c in (0,100)]
    r+=[J("sample","h_box",algo=a,gp=g,warm=w,dim=d,zlo=z) for a,d in ((0,2),(3,2),(6,2),(9,3),(12,6)) for g in (1,2) for w in (0,3) for z in (0,3)]
    r+=[J("sample","h_box",gp=g,warm=w,uh=u,grad=gr,tpa=tp,dim=2,zlo=z) for g in (1,2) for w in (0,2) for u,gr,tp,z in ((1,0,0,0),(1,0,0,8),(0,1,0,3),(0,1,0,5),(0,0,2,4),(0,1,2,6))]
    r+=[J("run","h_run",chk=K_BOX,gp=g,maxi=3,wlo=w,wn=4,**o) for g in (1,2) for w,o in ((1,dict(elit=1)),(1,dict(elit=2)),(0,dict(uh=1)),(3,dict(grad=1)),(4,dict(tpa=2)),(0,dict(ifv=1)))]
    r+=mix(21,140,gps=(1,2),uh=.3,chk=K_BOX)+[J("run","h_run",chk=K_BOX,gp=g,bset=b,xp=x,maxi=4,wlo=w,wn=2,dim=4,**o) for g in (1,2) for b in range(4) for x,w,o in ((999,5,dict(grad=1)),(2,14,dict(grad=1)),(999,3,dict(uh=1)),(500,3,dict(uh=1,lam=30)))]
    if t!="quick":
        r+=[J("geno","h_inbox",v=v,bc=b,dim=3,t=600) for v in range(3) for b in range(6)]
        r+=[J("sample","h_box",algo=a,gp=g,warm=w,dim=d,zlo=z,zn=2,t=600) for a,d in ((0,2),(3,2),(6,2),(9,3),(12,6)) for g in (1,2) for w in (0,1,5,8) for z in range(0,2*d,2)]
    return r
prop("C01",title="The objective is only ever evaluated inside the user's bounds",
 statement="When lower and upper bounds are given, every point passed to the objective function lies within them, whatever the random draws, the internal coordinates, the history of values, the bounds themselves and any custom transform supplied. This holds for population sampling, finite-difference gradients, re-evaluations under uncertainty handling, re-injected and initial points, with or without linear scaling.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all internal points within +-1e3 (one job family: +-2e9), all bounds with width in [1e-3,1e3], all draws z in [-20,20] of a generation, for every transform variant and algorithm flavour listed"),
 why="A test runs a few seeds; a point that leaves the box needs an extreme draw, a coordinate in a particular fold of the boundary transform, or one particular flavour plus option.",
 anchors=dict(files=["include/libcmaes/genopheno.h","src/pwq_bound_strategy.cc","include/libcmaes/scaling.h","src/esostrategy.cc","src/cmastrategy.cc"],mechanism=[dict(name="bound transform",where="src/pwq_bound_strategy.cc: to_f_representation, shift_into_feasible"),dict(name="geno/pheno transform",where="include/libcmaes/genopheno.h: pheno"),dict(name="evaluation",where="src/esostrategy.cc: eval, gradf, select_candidates_uh")],observe_at=["arguments of the objective function","return value of the transform"]),
 bounds="dimension 1..6, population 4, up to 3 warm-up generations, one generation with one (thorough: two) symbolic draws in +-20; transform alone: any internal coordinate in +-1e3 or +-2e9, any bounds in +-1e3 with width >= 1e-3; tolerance 1e-9 of the width where scaling is involved",jobs=c01,
 assumptions=["custom transforms are modelled as arbitrary functions with values in +-1e3"])
def c02(t):
    return [J("geno","h_inverse",v=v,mat=m,bc=b,xd=d,sd=d,dim=3) for v in range(10) for m in (0,1) for b in (-1,0,3) for d in (0,1,2)]+[J("geno","h_inverse",v=v,bc=0,dim=2) for v in range(10)]+[J("geno","h_reported",v=v,bc=-1,dim=3,sd=d) for v in range(5) for d in range(3)]+[J("geno","h_inverse",v=v,mat=1,bc=2,dim=2,xd=1,cols=101,col=100) for v in range(10)]
prop("C02",title="Mapping a feasible user point to internal space and back is the identity",
 statement="For every feasible user-space point, converting it to the optimizer's internal coordinates and converting the result back yields the same point, for bounded, scaled, custom-transformed and plain parameter spaces and all their combinations. The bounds that the transform reports are the ones the user gave.",
 quantifier=dict(over=["inputs","configurations"],text="for all feasible points and all bounds (width in [1e-3,1e3]) in one coordinate at a time, with concrete values in the others; every constructor of the transform"),
 why="The inverse is piecewise; a test that maps a few interior points never meets the quadratic pieces near each bound in each constructor variant.",
 anchors=dict(files=["include/libcmaes/genopheno.h","src/pwq_bound_strategy.cc","include/libcmaes/scaling.h"],mechanism=[dict(name="inverse transform",where="include/libcmaes/genopheno.h: geno"),dict(name="bound inverse",where="src/pwq_bound_strategy.cc: to_internal_representation")],observe_at=["return values of the two transforms"]),
 bounds="dimension 2..3, one coordinate (or all, with concrete bounds) symbolic; equality within 1e-6",jobs=c02)
def c03(t):
    r=[J("geno","h_batch",v=v,dir=d,bc=-1,sd=x,xd=x,dim=3,cols=1) for v in range(10) for d in (0,1) for x in (0,2)]
    r+=[J("geno","h_batch",v=v,dir=d,bc=b,xd=x,dim=3,cols=c,col=cc) for v in range(10) for d in (0,1) for b,x in ((2,1),(0,2)) for c,cc in ((3,1),(4,3),(101,50),(101,0))]
    return r
prop("C03",title="Transforming a whole population equals transforming each point by itself",
 statement="Applying the parameter-space transform (in either direction) to a matrix of points gives, column by column, exactly what applying it to each point alone gives, keeps the shape, and leaves its input unchanged. This holds for any number of columns and every combination of bounds, scaling and custom transform.",
 quantifier=dict(over=["inputs","configurations"],text="for all values of one coordinate of one column (internal +-1e3 or feasible user value), 1..4 and 101 columns"),
 why="Tests use one batch size and compare final optima, which hide a column that is transformed with a neighbour's data.",
 anchors=dict(files=["include/libcmaes/genopheno.h","src/pwq_bound_strategy.cc"],mechanism=[dict(name="batch transform",where="include/libcmaes/genopheno.h: pheno(dMat), geno(dMat)")],observe_at=["return value of the batch transform"]),
 bounds="dimension 3; 1, 3, 4 and 101 columns; one coordinate of one column symbolic, the remaining ones concrete and pairwise different",jobs=c03)
def c16(t):
    r=[J("geno","h_remove",v=v,dir=d,bc=-1,sd=2,xd=2,dim=3,mask=m) for v in (0,1,2,5,6,8) for d in (0,1) for m in (1,2,4,3,5,6)]
    r+=[J("geno","h_remove",v=v,dir=d,bc=2,xd=x,dim=3,mask=m) for v in (0,1,2,5,6,8) for d in (0,1) for m in (1,2,4,3,5,6) for x in (0,1,2) if not m>>x&1]
    r+=[J("geno","h_remove",v=v,dir=d,bc=2,xd=x,dim=4,mask=m,rev=1) for v in (0,1,2,5) for d in (0,1) for m,x in ((3,2),(5,3),(14,0),(10,2))]
    return r
prop("C16",title="Dropping parameters leaves the transform of the remaining ones unchanged",
 statement="After removing any set of coordinates from a parameter-space transform, in any order, each remaining coordinate is converted in both directions exactly as before and keeps its reported bounds.",
 quantifier=dict(over=["inputs","configurations"],text="for all values (and bounds) of one coordinate, every subset of removed coordinates in dimension 3 and several in dimension 4, ascending and descending order"),
 why="Profile likelihood and contour runs optimise the reduced problem; a test sees only one index set and a wrong coordinate shows up as a slightly different interval.",
 anchors=dict(files=["include/libcmaes/genopheno.h","src/pwq_bound_strategy.cc","include/libcmaes/scaling.h","include/libcmaes/eo_matrix.h"],mechanism=[dict(name="removal",where="GenoPheno::remove_dimensions and the strategies' remove_dimensions")],observe_at=["transform results before and after removal"]),
 bounds="dimension 3..4",jobs=c16)

# ---- runs -------------------------------------------------------------------------------------
ALG=[(0,2),(3,2),(6,2),(9,3),(12,6)]
def runs(chk,t,opts=(),**kw):
    r=[J("run","h_run",chk=chk,algo=a,dim=d,wlo=w,wn=4,maxi=3,**kw) for a,d in ALG for w in (0,4,8)]
    r+=[J("run","h_run",chk=chk,wn=4,maxi=3,gp=g,wlo=w,**kw) for g in (1,2,3) for w in (0,6)]
    r+=[J("run","h_run",chk=chk,wn=5,lam=5,dim=3,maxi=3,wlo=w,algo=a,**kw) for a in (0,3) for w in (0,8)]
    r+=[J("run","h_run",chk=chk,wn=4,maxi=4,wlo=8,co=c,**kw) for c in (1,2,3,4)]
    r+=[J("run","h_run",chk=chk,maxi=3,lam=l,wlo=3*l-3,wn=n,dim=d,algo=a,fm=100000,**kw) for l,d,n,a in ((21,3,2,0),(40,10,1,3),(40,10,1,6),(12,20,2,0),(12,20,2,12),(101,3,1,0))]
    r+=[J("run","h_run",chk=chk,maxi=g,wlo=4*g-5,wn=3,algo=a,dim=d,**kw) for a,d,g in ((0,2,30),(3,2,30),(6,3,40),(12,6,25))]
    for o in opts: r.append(J("run","h_run",chk=chk,**dict(dict(wn=4,maxi=3),**o)))
    if t!="quick":
        r+=[J("run","h_run",chk=chk,algo=a,dim=d,wlo=w,wn=6,lam=6,maxi=6,t=600,**kw) for a,d in ALG for w in (0,3,12,24)]
        r+=[J("run","h_run",chk=chk,algo=a,dim=d,wlo=w,wn=5,maxi=10,t=600,co=c,**kw) for a,d in ALG for w in (2,30) for c in (0,2,3)]
    return r
# configurations drawn (fixed seed, so the same ones every time) from the product of all options: interactions of options, large populations and dimensions, late generations, extreme magnitudes
import random
def mix(seed,n,h="run",wns=(2,3),big=250,uh=0,elit=(0,0,1,2),grad=(0,0,1,2),rest=0,ifv=1,fix=1,algos=(0,0,3,6,9,12),maxis=(2,3,3,4,6,12,25,60),gps=(0,0,1,2,3),mx=1,cos=(0,0,1,2,3,4,5,6,7,8,9),lams=(4,4,5,6,7,10,17,33),prest=.35,tf=1,mt=1,**kw):
    r=random.Random(seed); out=[]
    while len(out)<n:
        a=r.choice(algos); d=r.choice((6,7,9) if a>=12 else (2,2,3,5,9)); l=r.choice(lams); m=r.choice(maxis); ip=rest and r.random()<prest; rs=r.choice((2,3,4))
        if ip: a+=1; m=r.choice((1,2,3))
        if m*l*(2**rs if ip else 1)>big: continue
        o=dict(algo=a,dim=d,lam=l,maxi=m,gp=r.choice(gps),co=r.choice(cos),seed=r.randrange(1,99999))
        if ip: o["rest"]=rs
        g=r.choice(grad); e=r.choice(elit)
        if g: o["grad"]=g
        if e: o["elit"]=e
        if r.random()<.25: o["tpa"]=2
        if ifv and r.random()<.2: o["ifv"]=1
        if uh and r.random()<uh: o["uh"]=1
        if g==1 and ("uh" in o or o["co"]==7): continue # infinite values have no finite differences
        if mx and r.random()<.25: o["maximize"]=1
        if mt and r.random()<.25: o["mt"]=1
        if r.random()<.25: o["lazy"]=1
        if fix and r.random()<.3: o["fixm"]=1<<r.randrange(d)
        if r.random()<.3: o["fmx"]=r.choice((6,9,12,-6))
        if r.random()<.3: o["sg1000"]=r.choice((10,50,2000,20000))
        if o["gp"] in (1,2):
            if r.random()<.5: o["bset"]=r.randrange(1,4)
            if r.random()<.4: o["xp"]=r.choice((10,999,500,950))
        if tf and o["gp"] in (0,1) and "fixm" not in o and r.random()<.25: o["tf"]=1
        c=l+(d+1-bin(o.get("fixm",0)).count("1") if g==1 else 0); ini=1 if e in (1,2) or o.get("ifv") else 0; n_=min(r.choice(wns),1 if l>12 else 2 if l>6 else 3,l)
        G=r.randrange(m if m<12 else m//2,m+1)-1 if m>1 and r.random()<.7 else r.randrange(m)
        if ip and (e==3 or g==1): continue
        w=ini+G*c+(c-l+r.randrange(l-n_+1) if g==1 or r.random()<.5 else r.randrange(c))
        if ip: w=ini+r.randrange(m*l*(2**rs-1))
        if g!=1 and r.random()<.15: w=0
        if (ip and l*2**rs>30) or (m>=12 and w<ini+(m-4)*c): n_=1
        out.append(J(h,"h_twin" if h=="twin" else "h_run",**dict(o,wlo=w,wn=n_,**kw)))
    return out
N7=(0,0,1,2,3,4,5,6,8,9)
def BIGUH(k): return [J("run","h_run",chk=k,uh=1,lam=l,dim=d,algo=a,wlo=w,wn=1,maxi=3) for l,d,a,w in ((30,3,0,5),(40,2,6,70),(60,3,3,61),(25,6,12,27))]
UHS=[dict(uh=1,wlo=0),dict(uh=1,wlo=5,lam=5),dict(uh=1,wlo=4,algo=3)]
GRS=[dict(grad=1,wlo=3),dict(grad=2,wlo=0),dict(grad=1,wlo=10,algo=6),dict(grad=2,wlo=4,gp=1)]
ELS=[dict(elit=e,wlo=w,maxi=4) for e in (1,2) for w in (0,1,5,9)]
MIS=[dict(ifv=1,wlo=0),dict(maximize=1,wlo=0),dict(maximize=1,wlo=4,elit=1),dict(mt=1,wlo=4),dict(tpa=2,wlo=4),dict(lazy=1,wlo=4),dict(edm=1,wlo=0,maxi=2),dict(noisy=1,lam=2,wlo=10,wn=2,maxi=2)]
RES=[dict(algo=a,rest=2,wlo=w,maxi=2,**o) for a,w,o in ((1,0,{}),(1,8,{}),(4,9,{}),(7,8,{}),(13,6,dict(dim=6)),(2,0,{}),(2,9,{}),(5,8,{}))]
prop("C04",title="The reported number of evaluations equals the objective calls made",
 statement="At every generation and at the end of a run the reported number of function evaluations equals the number of times the objective was really called, including the initial point, finite-difference gradients and re-evaluations under uncertainty handling. Every generation costs exactly one call per offspring plus those extra calls; with restarts, each run's count is its own.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of 4-6 consecutive calls, in every flavour and option listed"),
 why="Budgets and comparisons rest on this count; tests check only final function values.",
 anchors=dict(files=["src/esostrategy.cc","src/cmastrategy.cc","src/ipopcmastrategy.cc"],mechanism=[dict(name="counting",where="src/esostrategy.cc: update_fevals, eval, gradf, perform_uh")],observe_at=["CMASolutions::fevals in the progress callback and at the end","calls of the objective"]),
 bounds="dimension 2..6, population 2..10, up to 4 (thorough 10) generations, 2 restarts",jobs=lambda t:runs(K_FEVALS,t,UHS+GRS+ELS+MIS+RES)+mix(11,160,uh=.2,rest=1,chk=K_FEVALS)+BIGUH(K_FEVALS))
prop("C05",title="Every reported candidate carries the value the objective returned at it",
 statement="Each candidate of the population, and the best, best-seen and worst-seen candidates, have as value exactly what the objective returned when called at that candidate's own point (its negation when maximizing), at every generation. No candidate is ever paired with the value of another point.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls, hence every ranking of them"),
 why="A mispairing needs a particular order of values, tie or re-injection to show, and a converged test run hides it.",
 anchors=dict(files=["src/esostrategy.cc","include/libcmaes/candidate.h","src/cmasolutions.cc","include/libcmaes/cmasolutions.h"],mechanism=[dict(name="evaluation",where="src/esostrategy.cc: eval"),dict(name="bookkeeping",where="src/cmasolutions.cc: update_best_candidates, sort_candidates")],observe_at=["candidates in the progress callback","objective calls"]),
 bounds="dimension 2..6, population 2..10, up to 4 (thorough 10) generations",jobs=lambda t:runs(K_VALUE,t,UHS+GRS+ELS+MIS+RES)+mix(13,160,uh=.2,rest=1,chk=K_VALUE)+BIGUH(K_VALUE))
prop("C06",title="The population is ranked best first and loses nobody",
 statement="After each generation the population holds every offspring evaluated in that generation exactly once, ordered by non-decreasing objective value (non-increasing when maximizing), and its first member is the one reported as best.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values of a generation, including ties"),
 why="All orderings and tie patterns of a population matter, a test meets a few.",
 anchors=dict(files=["include/libcmaes/cmasolutions.h","src/cmastrategy.cc","src/esostrategy.cc"],mechanism=[dict(name="ranking",where="include/libcmaes/cmasolutions.h: sort_candidates")],observe_at=["candidates in the progress callback"]),
 bounds="dimension 2..6, population 4..6 with all values symbolic in one generation, up to 4 (thorough 10) generations",jobs=lambda t:runs(K_RANK,t,GRS+MIS+ELS+RES+[dict(wn=6,lam=6,wlo=6),dict(wn=5,lam=5,wlo=5,algo=3)])+mix(14,160,rest=1,chk=K_RANK))
prop("C08",title="Best-seen and worst-seen are the extremes of everything evaluated",
 statement="At every generation the best-seen candidate's value is the minimum over all candidates evaluated so far (including an evaluated initial point), and the worst-seen one's is the maximum; neither is ever lost again, with or without elitism. When maximizing the roles follow the negated objective.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls, at any position of the run"),
 why="A best point that appears early and is then lost needs a history where later values are all worse; tests converge monotonically.",
 anchors=dict(files=["src/cmasolutions.cc","src/esostrategy.cc"],mechanism=[dict(name="tracking",where="src/cmasolutions.cc: update_best_candidates"),dict(name="re-injection",where="src/esostrategy.cc: eval")],observe_at=["CMASolutions::get_best_seen_candidate/get_worst_seen_candidate in the progress callback"]),
 bounds="dimension 2..6, population 4..6, up to 4 (thorough 10) generations; the worst-seen half without elitism; uncertainty handling excluded",jobs=lambda t:runs(K_BEST,t,GRS+ELS+MIS+RES+[dict(wlo=8,wn=5,maxi=5,co=2),dict(wlo=3,wn=4,maxi=6,co=4)])+mix(12,160,rest=1,chk=K_BEST)+[J("run","h_run",chk=K_BEST,maxi=70,soff=0xcff,wlo=w,wn=1,co=c,algo=a,dim=d) for a,d in ((0,2),(6,3),(12,6)) for w,c in ((250,6),(270,0),(110,3),(3,6))])
def c09(t):
    k=K_STATUS|K_LIMITS
    r0=mix(23,160,chk=k,cos=N7)
    r=[J("run","h_run",chk=k,wlo=w,wn=3,maxi=m,**o) for w,m,o in ((4,4,{}),(4,4,dict(mhist=2)),(8,6,dict(mhist=3,co=3)),(4,6,dict(mhist=2,co=1)),(0,3,dict(fts=1)),(4,4,dict(maxf=9)),(4,-1,dict(maxf=13,soff=256)),(0,3,dict(fts=1,soff=512)),(4,5,dict(mhist=2,co=1,soff=1)),(4,5,dict(mhist=2,soff=16,co=1)),(0,5,dict(mhist=2,co=1)),(8,5,dict(algo=12,dim=6,mhist=3)),(4,5,dict(algo=6,mhist=2,co=1)),(4,4,dict(pstop=2)),(4,3,dict(algo=1,rest=2)),(4,6,dict(mhist=2,co=1,soff=17)),(4,4,dict(algo=3,fts=1)),(4,4,dict(algo=12,dim=6,fts=1)),(4,-1,dict(maxf=1)),(0,1,{}))]
    r+=[J("run","h_run",chk=k,wlo=w,wn=n,maxi=m,**o) for w,n,m,o in ((198,1,-1,dict()),(98,2,40,dict(co=6)),(118,2,-1,dict(xtol=2)),(118,2,-1,dict(xtol=2,algo=6)),(118,2,-1,dict(ftol=2)),(30,2,-1,dict(co=1)),(60,2,30,dict(co=4)))]
    r+=[J("run","h_run",chk=k,wlo=w,wn=2,maxi=m,gp=g,**o) for g in (1,2) for w,m,o in ((4,4,dict(mhist=2)),(0,3,dict(fts=1)),(4,-1,dict(maxf=13)))]
    r+=[J("stop","h_stop",algo=a,dim=d,s=1+2+4+32+64,off=o,maxi=-1) for a,d in ALG+[(0,7),(12,12)] for o in (-1,99)]+[J("stop","h_stop",algo=a,dim=d,s=16+128+256+512,maxi=-1,small=1,i=i) for a,d in ALG for i in (0,1)]+[J("stop","h_stop",algo=a,dim=d,s=128+1024+2048,maxi=-1,sbig=1) for a,d in ALG]
    r+=[J("stop","h_stop",algo=a,dim=d,s=32+64+16+128+256+512,maxi=-1,small=1,i=i,off=o) for a,d in ALG for i in (0,1) for o in (1,6,99)]
    r+=[J("stop","h_stop",algo=a,dim=d,s=8,hs=h,flat=1,maxi=-1,hn=hn,mhist=mh,lam=l) for a,d in ALG for h,hn,mh,l in ((5,40,0,4),(2+32+1024,26,0,4),(7,3,3,4),(3,5,5,4),(1<<12,200,0,4),(1+(1<<13),60,0,15))]
    r+=[J("stop","h_stop",algo=a,dim=d,hs=h,ks=h,keq=k,maxi=-1,hn=hn,mhist=mh) for a,d in ((0,3),(3,4),(6,5),(12,9)) for h,hn,mh,k in ((1,2,2,0),(3,5,2,3),(5,4,3,0),(2,9,4,7))]
    r+=[J("stop","h_stop",algo=a,dim=d,nb=nb,nm=nm,bs=b,ms=m,mlow=ml,maxi=-1) for a,d in ALG for nb,nm,b,m,ml in ((20,20,3,0,0),(20,25,1,1,0),(20,40,1<<19,1<<19,5),(20,40,1<<19,3<<20,5),(19,20,1,1,0),(20,19,1,1,0),(20,130,0,6,-5))]
    r+=[J("stop","h_stop",algo=a,dim=d,tiny=ti,small=sm,rot=ro,s=4,maxi=-1) for a,d in ALG for ti,sm,ro in ((1,1,0),(1,2,1),(0,2,0),(1,0,0),(1,0,1))]
    r+=[J("run","h_run",chk=K_LIMITS,wlo=2,wn=3,maxf=m,maxi=-1,**o) for m,o in ((10,dict(uh=1)),(20,dict(grad=2)),(12,dict(elit=1)),(15,dict(algo=1,rest=3)))]
    return r+r0
prop("C09",title="A run stops exactly when an enabled criterion holds and says which",
 statement="Criteria are examined after every generation: a run ends at the first generation at which an enabled stopping criterion holds (target value, iteration and evaluation budgets, value and position tolerances, equal or stagnating values, no-effect axes and coordinates, automatic iteration limit, excessive step size or condition number) or the progress function asks for it, and never before. The status it reports names a criterion that is enabled and really holds, switched-off criteria never end a run, and budgets are overrun by less than one generation.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of calls and all targets, for the listed sets of enabled criteria and thresholds"),
 why="Each criterion fires on a particular history of values; tests see only the one that ends an ordinary convergence.",
 anchors=dict(files=["src/cmastopcriteria.cc","include/libcmaes/cmastopcriteria.h","src/cmastrategy.cc"],mechanism=[dict(name="criteria",where="src/cmastopcriteria.cc: constructor (the registered predicates), stop"),dict(name="histories",where="src/cmasolutions.cc: update_best_candidates")],observe_at=["CMASolutions::run_status","number of generations"]),
 bounds="whole runs: dimension 2..6, population 4, up to 60 generations of which 1 to 3 calls are symbolic; the decision alone (h_stop): iteration and evaluation counts and limits up to 2e6, any target, tolerances in [0,1], step sizes up to 1e24, path and covariance entries, extreme eigenvalues, one to three history entries symbolic; the two no-effect criteria on concrete states (they are about rounding)",jobs=c09)
prop("C24",title="With elitism the reference point stays in the population",
 statement="With elitism switched on, in every generation after the first the reference point (the best point seen so far, or the initial point, according to the chosen mode) is part of the ranked population unless at least half of the offspring are strictly better than it. Re-injection never removes a better point.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls"),
 why="Whether re-injection happens depends on how many offspring beat the reference; tests do not enable it with adversarial values.",
 anchors=dict(files=["src/esostrategy.cc","src/cmastrategy.cc","include/libcmaes/cmaparameters.h"],mechanism=[dict(name="re-injection",where="src/esostrategy.cc: eval")],observe_at=["candidates in the progress callback"]),
 bounds="dimension 2..3, population 4..6, up to 5 generations",jobs=lambda t:[J("run","h_run",chk=K_ELIT|K_BEST|K_VALUE,elit=e,wlo=w,wn=n,lam=l,maxi=5,dim=d,algo=a,**o) for e in (1,2) for a in (0,3,6) for w,n,l,d in ((0,1,4,2),(1,4,4,2),(5,4,4,2),(9,4,5,3),(13,4,6,2)) for o in (dict(),)]+[J("run","h_run",chk=K_ELIT|K_BEST|K_VALUE,elit=e,wlo=5,wn=4,maxi=4,**o) for e in (1,2) for o in (dict(gp=1),dict(gp=2),dict(maximize=1),dict(co=2),dict(co=4),dict(co=1),dict(mt=1))]+mix(25,160,elit=(1,2),rest=1,chk=K_ELIT|K_BEST|K_VALUE)+[J("run","h_run",chk=K_ELIT|K_BEST|K_VALUE,elit=e,wlo=0,wn=1,maxi=m,co=c,algo=a,soff=0xcff) for e in (1,2) for m,c,a in ((15,0,0),(30,0,6),(15,4,3),(40,8,0),(12,9,0))]+[J("run","h_run",chk=K_ELIT|K_BEST|K_VALUE,elit=e,lam=l,wlo=w,wn=n,maxi=3,algo=a,dim=3) for e in (1,2) for a in (0,6) for l,w,n in ((21,21,2),(30,60,1),(41,80,1))])
# ---- pairs of runs ----------------------------------------------------------------------------
def twins(kinds,t,opts=(),n=4,ln=3,**kw):
    r=[J("twin","h_twin",kind=k,wlo=w,wn=n,maxi=3,algo=a,dim=d,**dict(kw,**x)) for k,x in kinds for a,d in ALG for w in (0,6)]
    r+=[J("twin","h_twin",kind=k,wlo=w,wn=n,maxi=3,gp=g,**dict(kw,**x)) for k,x in kinds for g,w in ((1,0),(1,6),(2,6),(3,6))]
    r+=[J("twin","h_twin",kind=k,maxi=3,lam=l,wlo=2*l-2,wn=m,dim=d,algo=a,**dict(kw,**x)) for k,x in kinds for l,d,m,a in ((12,10,ln,0),(21,10,min(ln,2),12),(5,3,3,3))]
    r+=[J("twin","h_twin",kind=k,maxi=25,wlo=90,wn=ln,algo=a,dim=d,**dict(kw,**x)) for k,x in kinds for a,d in ((0,2),(6,3)) if k!=1]
    for k,x in kinds:
        for o in opts: r.append(J("twin","h_twin",kind=k,**dict(dict(wn=3,maxi=3),**dict(dict(kw,**x),**o))))
    if t!="quick": r+=[J("twin","h_twin",kind=k,wlo=w,wn=5,lam=l,maxi=6,algo=a,dim=d,t=600,co=c,**dict(kw,**x)) for k,x in kinds for a,d in ALG for l,w,c in ((5,5,0),(6,17,2),(4,10,3))]
    return r
TOPT=[dict(elit=1,wlo=3),dict(elit=2,wlo=3),dict(tpa=2,wlo=4),dict(lazy=1,wlo=4),dict(ifv=1,wlo=0),dict(algo=1,rest=2,wlo=3),dict(algo=4,rest=2,wlo=9),dict(algo=7,rest=2,wlo=9)]
def c07(t):
    r=twins([(1,dict(mono=0))],t,TOPT,ln=1)
    r+=[J("twin","h_twin",kind=1,mono=m,scale=s,wlo=w,wn=4,maxi=3,algo=a,dim=d) for m,s in ((1,0),(2,2),(2,-10),(3,0)) for a,d in ((0,2),(3,2),(6,2),(12,6)) for w in (0,6)]
    r+=[J("twin","h_twin",kind=1,mono=2,scale=2,maxi=25,wlo=90,wn=3,algo=a,dim=d) for a,d in ((0,2),(6,3))]
    r+=mix(26,60,h="twin",kind=1,mono=0,grad=(0,),soff=33,cos=N7,lams=(4,4,5,6,7,10),maxis=(2,3,3,4,6),wns=(1,2))+mix(261,50,h="twin",kind=1,mono=2,scale=3,grad=(0,),soff=33,cos=N7,rest=1)+mix(262,50,h="twin",kind=1,mono=1,grad=(0,),soff=33,cos=N7,maxis=(2,3,4,6))
    return r
prop("C07",title="The search depends on objective values only through their order",
 statement="Replacing the objective by any strictly increasing transformation of itself (a shift, a scaling, a jump at any threshold) leaves the whole run unchanged: the same points are evaluated in the same order, and the final mean, step size, covariance and ranking are the same. Excluded are gradient injection, uncertainty handling and stopping on function-value tolerances or targets, which use the values themselves.",
 quantifier=dict(over=["histories","inputs","configurations"],text="for all objective values in a window of consecutive calls, all thresholds and all jump heights / shifts"),
 why="The guarantee quantifies over pairs of objectives; tests compare a run only with a known optimum.",
 anchors=dict(files=["src/esostrategy.cc","src/cmastrategy.cc","src/covarianceupdate.cc","src/acovarianceupdate.cc","src/vdcmaupdate.cc","include/libcmaes/cmasolutions.h"],mechanism=[dict(name="ranking",where="include/libcmaes/cmasolutions.h: sort_candidates"),dict(name="updates",where="src/cmastrategy.cc: tell")],observe_at=["arguments of the objective","final CMASolutions"]),
 bounds="dimension 2..10, population 4..21, 3 generations (two jobs: 25), windows of 3..5 symbolic values in +-1000; transformations f+c*[f>t] for all t and c>=0, f+c for all c, 4f+c for all c, 4f and f/1024",jobs=c07)
prop("C28",title="Equal inputs and seed give equal runs, whatever ran before",
 statement="Two runs with the same parameters, seed, start and objective values evaluate exactly the same points in the same order and end with the same mean, step size, covariance, ranking, counts and status. This holds whatever other runs were made earlier in the process, for warm starts, with or without console output, and with or without parallel evaluation. Excluded are the flavours that draw from the system's entropy or clock (BIPOP, uncertainty handling).",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls"),
 why="A hidden static, an uninitialised field or a shared generator shows only in a second run of the same process with a particular history.",
 anchors=dict(files=["src/esostrategy.cc","src/cmastrategy.cc","src/cmasolutions.cc","include/libcmaes/eigenmvn.h","include/libcmaes/cmaes.h"],mechanism=[dict(name="seeding",where="src/cmastrategy.cc: constructors; include/libcmaes/eigenmvn.h"),dict(name="dispatch",where="include/libcmaes/cmaes.h")],observe_at=["arguments of the objective","final CMASolutions"]),
 bounds="dimension 2..10, population 4..21, 3 generations (some jobs 25), windows of 3..5 symbolic values",
 jobs=lambda t:twins([(0,{})],t,TOPT+[dict(grad=1,wlo=3),dict(grad=1,wlo=10,algo=6),dict(grad=2,wlo=2)])+[J("twin","h_twin",kind=k,wlo=w,wn=4,maxi=3,algo=a,dim=d,**o) for k,o in ((0,dict(warm=1)),(4,{}),(7,{})) for a,d in ALG for w in (0,6)]+[J("twin","h_twin",kind=0,pre=p,wlo=4,wn=3,maxi=3,algo=a,dim=d) for a,d in ALG for p in (1,3)]+[J("twin","h_twin",kind=0,pre=150,wlo=4,wn=2,maxi=2,algo=a,dim=d) for a,d in ALG]+mix(27,100,h="twin",kind=0,rest=1)+mix(271,20,h="twin",kind=0,pre=2)+mix(28,30,h="twin",kind=4,mt=0)+mix(29,30,h="twin",kind=7))
prop("C29",title="Ask/eval/tell driven by hand equals optimize",
 statement="Driving the optimizer step by step through ask, eval, tell and stop, or passing custom functions that forward to them, evaluates the same points in the same order and ends in the same state (mean, step size, covariance, ranking, counts, status) as calling the library's own loop.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls, each flavour and transform"),
 why="Both loops must agree on every history; the tests exercise each with one objective and never compare them.",
 anchors=dict(files=["src/cmastrategy.cc","src/esostrategy.cc","include/libcmaes/esoptimizer.h","include/libcmaes/cmastrategy.h"],mechanism=[dict(name="loop",where="src/cmastrategy.cc: optimize, ask, tell, stop"),dict(name="evaluation",where="src/esostrategy.cc: eval")],observe_at=["arguments of the objective","final CMASolutions"]),
 bounds="dimension 2..10, population 4..21, 3 generations (some jobs 25); no restarts, elitism or initial evaluation (which are done by the library's loop)",
 jobs=lambda t:twins([(3,{}),(5,{})],t,[dict(tpa=2,wlo=4),dict(lazy=1,wlo=4),dict(grad=2,wlo=2),dict(grad=1,wlo=3),dict(grad=1,wlo=10,algo=6)])+[J("twin","h_twin",kind=5,elit=3,co=4,maxi=6,wlo=w,wn=3,algo=a,**o) for a,w,o in ((0,0,{}),(3,4,{}),(6,20,{}),(0,24,dict(gp=2)))]+mix(30,70,h="twin",kind=3,elit=(0,),ifv=0)+mix(31,70,h="twin",kind=5,elit=(0,),ifv=0)+[J("twin","h_twin",kind=k,lazy=z,maxi=m,wlo=4*m-6,wn=2,algo=a,dim=d,soff=0xcff) for k in (3,5) for z in (0,1) for a,d,m in ((0,2,35),(3,3,60),(6,3,35),(12,6,30))])
prop("C30",title="Maximizing f equals minimizing its negation",
 statement="A run that maximizes f evaluates exactly the points, in the same order, that a run minimizing -f evaluates, and ends with the same mean, step size, covariance, ranking, best point and counts; its reported values are those of -f. This includes gradient use, elitism, an evaluated initial point, restarts and warm starts.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls, each flavour, transform and option listed"),
 why="One forgotten negation in a rarely used path (initial point, gradient, warm start) leaves the basic maximization test green.",
 anchors=dict(files=["include/libcmaes/cmaes.h","src/esostrategy.cc","include/libcmaes/parameters.h"],mechanism=[dict(name="negation",where="src/esostrategy.cc: constructors, set_gradient_func; include/libcmaes/parameters.h: set_maximize")],observe_at=["arguments of the objective","final CMASolutions"]),
 bounds="dimension 2..10, population 4..21, 3 generations (some jobs 25)",
 jobs=lambda t:twins([(2,{})],t,TOPT+[dict(grad=1,wlo=3),dict(grad=1,wlo=10,algo=6),dict(warm=1,wlo=0),dict(warm=1,wlo=4,algo=6),dict(warm=1,wlo=4,algo=12,dim=6),dict(warm=1,wlo=4,gp=1)])+mix(32,140,h="twin",kind=2,rest=1,mx=0)+[J("twin","h_twin",kind=2,elit=e,lam=4,maxi=6,soff=33,wlo=w,wn=3,co=c,algo=a,dim=d) for e in (1,2) for c in (0,4,8,9) for a,d in ((0,2),(6,3)) for w in (17,21)])
# ---- one distribution update ------------------------------------------------------------------
def U(chk,a,d,t=60,**k): return J("upd","h_update",t,**dict(dict(chk=chk,algo=a,dim=d,lam=4,sx=1,sj=255,it=3),**k))
def umix(seed,n,chk,**kw): # one update in configurations and states drawn with a fixed seed
    r=random.Random(seed); out=[]
    while len(out)<n:
        a=r.choice((0,3,6,9,12)); d=r.choice((6,7,9,15,30) if a==12 else (2,3,5,8,20,40,100) if a in (6,9) else (2,3,4,6,10,20)); l=r.choice((4,5,6,8,9,12,20,31,47,60))
        o=dict(lam=l,it=r.choice((0,1,2,5,9,25,70,400)),salt=r.randrange(200),sx=0,sj=1<<r.randrange(min(d,30)))
        k=r.random()
        if k<.5 or chk==33: o["sx"]=1<<r.randrange(min(l//2,30))
        elif k<.7: o["sps"]=1<<r.randrange(min(d,30))
        elif k<.85: o["spc"]=1<<r.randrange(min(d,30))
        elif a!=3 or chk!=24: o["sx"]=1<<r.randrange(min(l//2,30))
        if r.random()<.4: o["sge"]=r.choice((-6,-3,2,4))
        if r.random()<.3: o["cve"]=r.choice((-4,-2,2,4))
        if a==12: o["vsc"]=r.choice((2,5,10,20))
        if r.random()<.5: o["psx"]=r.choice((1,5,20,30))
        if r.random()<.2 and d>2: o["fix"]=1<<r.randrange(min(d,30))
        if r.random()<.3: o["ops"]=r.choice((1,2,4,8,15))
        out.append(U(chk,a,d,**dict(o,**kw)))
    return out
def c12(t):
    r=[U(33,a,d,sx=3,it=i) for a,d in ALG for i in (0,3)]+[U(33,a,d,lam=6,sx=7,sj=1) for a,d in ALG]+[U(33,a,d,lam=l,sx=s,sj=2) for a,d in ALG for l,s in ((5,3),(7,4),(6,4))]
    r+=[U(33,a,10,lam=l,sx=1,sj=1) for a in (0,6,12) for l in (10,21)]+[U(33,a,d,fix=2,sx=1,sj=1) for a,d in ALG]
    r+=[U(33,a,d,lam=l,sx=1,sj=1) for a,d,l in ((0,20,40),(3,15,30),(6,100,101),(6,200,24),(9,20,60),(12,30,14))]+[U(33,a,d,ops=o,sx=1,sj=1) for a,d in ALG for o in (4,15)]
    r+=umix(41,60,33)
    if t!="quick": r+=[U(33,a,d,lam=l,sx=s,sj=255,t=600) for a,d in ALG for l,s in ((8,15),(10,31))]
    return r
def c13(t):
    r=[U(6,a,d,sx=s,it=i) for a,d in ALG for s,i in ((1,0),(1,3),(3,3))]
    r+=[U(6,a,d,sps=1,sj=1) for a,d in ALG]+[U(6,a,d,spc=3,sj=1) for a,d in ALG]+[U(6,a,d,sm=1,sj=1) for a,d in ((0,2),(6,2),(12,6))]+[U(6,a,d,ssg=1,sj=1) for a,d in ALG if a!=3]
    r+=[U(4,a,d,tpa=2,stpa=1,it=i) for a,d in ALG for i in (0,1,5)]
    r+=[U(6,a,d,lam=6,sx=7,sj=1) for a,d in ALG]+[U(6,a,10,lam=10,sj=1) for a in (0,6,12)]+[U(6,a,d,fix=2,sj=1) for a,d in ALG]+[U(6,a,d,it=i,sps=1,sj=1) for a,d in ALG for i in (50,)]
    r+=[U(6,a,d,ops=o,sj=1) for a,d in ALG for o in (1,2,4,7,8,15)]+[U(4,a,d,tpa=2,stpa=1,ops=o) for a,d in ALG for o in (1,4,15)]+[U(6,a,d,lam=l,sj=1) for a,d,l in ((0,20,12),(3,15,30),(6,30,40),(6,200,24),(9,20,20),(12,30,14))]
    r+=umix(42,120,6)+[U(6,a,d,sps=1,sj=1,it=i,psx=p) for a,d in ((0,20),(6,30),(6,80),(9,40),(12,40)) for i in (20,40,90) for p in (10,12,15)]+umix(45,30,4,tpa=2)
    if t!="quick": r+=[U(6,a,d,sps=3,spc=3,sx=3,t=600) for a,d in ALG]+[U(6,3,2,ssg=1,sj=1,t=800)]
    return r
def c17(t):
    r=[U(24,a,d,it=i) for a,d in ALG for i in (0,3)]+[U(24,a,d,sx=3) for a,d in ALG if a!=12]+[U(24,12,6,sx=3,sj=3)]
    r+=[U(24,a,d,spc=3,sj=1) for a,d in ALG]+[U(24,a,d,sps=1,sj=1) for a,d in ALG]+[U(24,a,d,sm=1,sj=1) for a,d in ((0,2),(6,2),(12,6))]
    r+=[U(24,a,d,sc=1,sj=1) for a,d in ((6,2),)]+[U(24,a,d,lam=6,sx=7,sj=1) for a,d in ALG]+[U(64,a,d,sx=1) for a,d in ((0,2),(3,2))]+[U(24,a,d,lam=5,sx=16,sj=1) for a,d in ((0,2),(6,2),(9,3))]
    r+=[U(24,a,d,lam=5,sx=4,sj=1) for a,d in ALG]+[U(24,a,10,lam=10,sj=1) for a in (0,3,6,9,12)]
    r+=[U(24,a,d,ops=o,sj=1) for a,d in ALG for o in (1,2,4,7,15)]+[U(24,a,d,lam=l,sj=1) for a,d,l in ((0,20,12),(3,15,14),(6,30,40),(6,200,24),(9,20,20),(12,30,14))]
    r+=umix(43,120,24)
    if t!="quick": r+=[U(24,a,d,spc=3,sps=1,sx=3,t=600) for a,d in ALG if a!=12]+[U(64,a,2,sx=3,t=600) for a in (0,3)]
    return r
UF=["src/covarianceupdate.cc","src/acovarianceupdate.cc","src/vdcmaupdate.cc"]
prop("C12",title="The new mean is the weighted average of the better half of the population",
 statement="After each generation the new distribution mean is the average of the better half of the ranked population with positive, decreasing, normalised logarithmic weights; hence it lies between those parents in every coordinate. The worse half never moves it. This holds for every flavour: plain, active, separable and VD.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all positions (within +-5) of one to four parents, concrete positions of the others"),
 why="Tests check that a run converges, which a slightly wrong recombination still does.",
 anchors=dict(files=UF+["src/cmaparameters.cc"],mechanism=[dict(name="recombination",where="CovarianceUpdate::update, ACovarianceUpdate::update, VDCMAUpdate::update"),dict(name="weights",where="src/cmaparameters.cc: initialize_parameters")],observe_at=["CMASolutions::xmean after tell"]),
 bounds="dimension 2..200, population 4..101, one update from a generic concrete state; up to three (thorough five) parents symbolic",jobs=c12)
prop("C13",title="Evolution paths and step size follow cumulative step-size adaptation",
 statement="After each generation the two evolution paths and the step size are those of the published update: the step-size path accumulates the mean shift normalised by the inverse square root of the covariance before the update, the covariance path accumulates the mean shift unless the step-size path is too long, and the step size is multiplied by the exponential of the damped path length against its expectation (or of the two-point adaptation signal when selected) and stays positive.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all positions of one to three parents, all path entries in +-5, all step sizes in [0.01,100], all two-point signals in +-1"),
 why="An error in a factor, exponent or in the order of the updates still converges on the sphere and the test functions.",
 anchors=dict(files=UF+["src/cmaparameters.cc","src/cmastrategy.cc"],mechanism=[dict(name="paths and step size",where="the three update functions"),dict(name="constants",where="src/cmaparameters.cc: initialize_parameters, set_sep, set_vd")],observe_at=["CMASolutions::sigma, psigma, pc after tell"]),
 bounds="dimension 2..200, population 4..40, generation numbers 0, 1, 3, 5, 50; one update from a generic concrete state; relative tolerance 1e-7",jobs=c13,
 assumptions=["the learning rates and dampings of the oracle are the library's documented formulas as functions of the dimension, the population and the options, written out in the harness"])
prop("C17",title="The covariance follows the rank-one and rank-mu update and stays a covariance",
 statement="After each generation the covariance is the published combination of the old one, the outer product of the covariance path and the weighted outer products of the parents' steps (with the negative update of the worse half in the active flavours, the diagonal alone in the separable ones, and the natural-gradient update of diagonal and principal direction in VD). It stays symmetric, with positive variances, and positive definite.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all positions of one to three candidates, all path entries in +-5"),
 why="A wrong weight, sign or index still gives a covariance that adapts; tests only see convergence.",
 anchors=dict(files=UF,mechanism=[dict(name="covariance update",where="the three update functions")],observe_at=["CMASolutions::cov, sepcov after tell"]),
 bounds="dimension 2..200, population 4..40; positive definiteness as determinant in dimension 2 with one symbolic parent; worst candidate symbolic except in the active full-covariance flavour (its eigenvalues would be symbolic)",jobs=c17)
# ---- restarts ---------------------------------------------------------------------------------
IPS=((1,2),(4,2),(7,3),(10,3),(13,6)); BIP=((2,2),(5,2),(8,3),(11,3),(14,6))
def c14(t):
    r=[J("run","h_run",chk=K_RESTART,algo=a,dim=d,rest=3,maxi=2,wlo=w,wn=3) for a,d in IPS for w in (0,5,20)]
    r+=[J("run","h_run",chk=K_RESTART,algo=a,dim=d,rest=4,maxi=2,maxf=m,wlo=5,wn=3) for a,d in ((1,2),(7,3)) for m in (7,8,9,24,30)]
    r+=[J("run","h_run",chk=K_RESTART,algo=1,dim=2,rest=3,maxi=2,gp=g,wlo=5,wn=3,**o) for g in (0,1,2,3) for o in ({},dict(tpa=2))]
    r+=[J("run","h_run",chk=K_RESTART,algo=a,dim=d,rest=3,maxi=2,lam=l,wlo=w,wn=2,**o) for a,d in IPS for l,w,o in ((5,9,dict(maximize=1)),(7,40,{}),(4,23,dict(lazy=1)))]
    r+=[J("run","h_run",chk=K_RESTART,algo=a,dim=d,rest=1,maxi=4,wlo=3,wn=3) for a,d in IPS]
    r+=mix(24,160,rest=1,prest=1,elit=(0,),ifv=0,chk=K_RESTART,grad=(0,),lams=(4,5,6,7,9,12,20,25),big=400)
    if t!="quick": r+=[J("run","h_run",chk=K_RESTART,algo=a,dim=d,rest=5,maxi=3,wlo=w,wn=4,t=600) for a,d in IPS for w in (0,11,34)]
    return r
prop("C14",title="Each IPOP restart is a fresh run with twice the population; the best is kept",
 statement="With increasing-population restarts, run number k starts from the initial mean and step size, an identity covariance and empty evolution paths, with twice the population of the previous run and exactly the strategy parameters a fresh optimizer of that flavour, population size and options would use. Exactly the requested number of runs is made unless the evaluation budget is spent before, and the solution returned is the state of the run whose final best value is lowest.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls, hence every choice of the winning run; each flavour, transform and option listed"),
 why="Which run wins and what a restart inherits depends on the history; tests only check the optimum of the last run.",
 anchors=dict(files=["src/ipopcmastrategy.cc","src/cmaparameters.cc","src/cmasolutions.cc"],mechanism=[dict(name="restart",where="src/ipopcmastrategy.cc: optimize, lambda_inc, reset_search_state, capture_best_solution")],observe_at=["state and parameters in the progress callback at generation 0","returned CMASolutions"]),
 bounds="dimension 2..6, initial population 4..7, 1..4 (thorough 5) runs of 2..4 generations; elitism and noisy mode excluded",jobs=c14)
def c15(t):
    r=[J("restart","h_run",chk=K_RESTART,algo=a,dim=d,rest=rs,uskip=us,ulat=u,lam=l,maxi=2,wlo=w,wn=2) for a,d in BIP for rs,l,us,u,w in ((2,4,1,5,0),(2,4,0,5,9),(2,9,1,4,30),(2,4,-1,3,7),(3,4,1,2,5))]
    r+=[J("restart","h_run",chk=K_RESTART,algo=a,dim=d,rest=2,uskip=0,maxi=1,co=6,soff=0xeff,wlo=0,wn=0) for a,d in BIP if a!=5]
    r+=[J("restart","h_run",chk=K_RESTART,algo=2,dim=2,rest=2,uskip=1,ulat=3,maxi=2,wlo=5,wn=2,**o) for o in (dict(gp=1),dict(gp=2),dict(gp=3),dict(tpa=2),dict(maximize=1),dict(lazy=1))]
    if t!="quick": r+=[J("restart","h_run",chk=K_RESTART,algo=a,dim=d,rest=2,uskip=1,ulat=9,lam=9,maxi=2,wlo=40,wn=2,t=600) for a,d in BIP]
    return r
prop("C15",title="BIPOP alternates large and small runs as its budgets demand and returns the best",
 statement="With BIPOP restarts, a small-population run is made exactly while the small runs have consumed fewer evaluations than the large ones, otherwise the next large run, whose population is twice the previous large one. Large runs have the user's own evaluation budget. Small runs have a population between the default and half the large one, a step size within [0.02,2] and at most half of the large runs' evaluations as budget; every run starts at the initial mean with an identity covariance, empty paths and the strategy parameters of a fresh run of its population size. The requested number of large runs is made and the state of the run with the lowest final value is returned.",
 quantifier=dict(over=["histories","inputs","configurations"],text="for all choices of the uniform draws on a lattice of 2..5 (thorough 9) values in [0,0.999] per draw, or any real step-size draw in [0,1) (one-generation runs), and all objective values in a window"),
 why="The draws come from the clock, so a test never repeats a schedule; the regime depends on the accumulated budgets.",
 anchors=dict(files=["src/bipopcmastrategy.cc","src/ipopcmastrategy.cc","src/cmaparameters.cc"],mechanism=[dict(name="regimes",where="src/bipopcmastrategy.cc: optimize, r1, r2")],observe_at=["state and parameters in the progress callback at generation 0","returned CMASolutions"]),
 bounds="dimension 2..6, initial population 4 and 9, 2..3 large runs of 1..2 generations; no user evaluation budget",jobs=c15,
 assumptions=["std::uniform_real_distribution is replaced by a distribution whose draws are the solver's choices"])
# ---- fixed parameters -------------------------------------------------------------------------
def c11(t):
    r=[J("run","h_run",chk=K_FIXED,algo=a,dim=d,fixm=m,wlo=w,wn=3,maxi=3) for a,d in ((0,3),(3,3),(6,3),(9,3),(12,6)) for m,w in ((1,0),(2,4),(5,7))]
    r+=[J("run","h_run",chk=K_FIXED,dim=3,gp=g,fixm=m,wlo=w,wn=3,maxi=3,algo=a) for g in (1,2,3) for m,w,a in ((2,4,0),(5,7,6),(4,0,0))]
    r+=[J("run","h_run",**dict(dict(chk=K_FIXED,dim=3,fixm=2,wlo=4,wn=3,maxi=3),**o)) for o in (dict(grad=1),dict(grad=2),dict(uh=1),dict(tpa=2),dict(elit=1),dict(elit=2),dict(ifv=1),dict(lazy=1),dict(edm=1),dict(fixt=1),dict(fixu=5),dict(maximize=1),dict(grad=1,gp=1),dict(grad=1,gp=2),dict(uh=1,gp=1),dict(uh=1,gp=2),dict(algo=1,rest=2),dict(algo=4,rest=2),dict(algo=7,rest=2),dict(elit=3,maxi=6,co=4,wlo=0,gp=2))]
    r+=[J("sample","h_box",dim=3,gp=g,fixc=c,algo=a,zn=0) for g in range(4) for c in (0,2) for a in (0,3,6,9)]+[J("sample","h_box",dim=6,gp=g,fixc=c,algo=12,zn=0) for g in range(4) for c in (1,5)]
    r+=[J("sample","h_box",dim=3,gp=g,fixc=1,zn=1,zlo=z,**o) for g in range(4) for z in (1,2) for o in ({},dict(uh=1),dict(algo=6))]
    r+=[J("sample","h_box",dim=3,gp=g,fixc=1,zn=0,**o) for g in range(4) for o in (dict(uh=1),dict(grad=1),dict(grad=1,mt=1),dict(uh=1,mt=1))]
    r+=[j for j in mix(22,340,uh=.2,fix=1,gps=(0,3),tf=0,chk=K_FIXED) if "fixm" in j["params"]]
    return r
prop("C11",title="A fixed parameter keeps its value in every evaluation, the others are searched",
 statement="A parameter fixed to a value has exactly that value in every point passed to the objective (sampled points, finite differences, re-evaluations, initial and re-injected points, restarts) and in the distribution mean. Parameters that are not fixed, or were released again, are searched, and the latest value given counts. With bounds the value lies in the interior where the bound transform is the identity.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all fixed values (within +-50 or the interior of the box) and one symbolic draw in one generation; for all objective values in a window over whole runs; each flavour, transform and option listed"),
 why="Every code path that creates a point must honour the fixed set; tests fix one parameter in one flavour and look at the end result.",
 anchors=dict(files=["src/cmastrategy.cc","src/esostrategy.cc","src/cmasolutions.cc","include/libcmaes/parameters.h","src/cmaparameters.cc"],mechanism=[dict(name="reset of fixed coordinates",where="src/cmastrategy.cc: ask; src/esostrategy.cc: gradf, select_candidates_uh; src/cmasolutions.cc: constructor")],observe_at=["arguments of the objective","mean in the progress callback"]),
 bounds="dimension 3..6, population 4, up to 3 generations (elitist restart: 6)",jobs=c11)
# ---- sampling ---------------------------------------------------------------------------------
def c25(t):
    r=[J("sample","h_draw",algo=a,dim=d,gp=0,warm=w) for a,d in ALG for w in (0,3)]+[J("sample","h_draw",algo=a,dim=d,gp=g,warm=w) for a,d in ALG for g in (1,2,3) for w in (0,2)]
    r+=[J("sample","h_draw",algo=a,dim=3,tpa=2,grad=g,warm=2) for a in (0,3,6) for g in (0,2)]+[J("sample","h_draw",algo=a,dim=3,grad=g,warm=w) for a in (0,6,9) for g in (1,2) for w in (0,2)]
    r+=[J("sample","h_draw",algo=a,dim=2,lazy=1,lazyv=l,warm=w) for a in (0,3) for l,w in ((1,3),(2,4),(2,6))]+[J("sample","h_draw",algo=0,gp=3,vsig=1,dim=3),J("sample","h_draw",algo=0,gp=2,vsig=1,zb1000=100,dim=3)]
    r+=[J("sample","h_draw",algo=a,dim=d,alt=1,sge=s,cve=c,vsc=v,warm=w) for a,d,v in ((0,3,1),(3,2,1),(6,3,1),(9,4,1),(12,6,1),(12,6,8),(12,7,40),(12,6,200)) for s,c,w in ((0,0,0),(-3,2,2),(3,-2,1))]
    r+=[J("sample","h_draw",algo=a,dim=5,lam=8,warm=2) for a in (0,3,6)]+[J("sample","h_draw",algo=6,dim=10,lam=10,warm=1)]
    if t!="quick": r+=[J("sample","h_draw",algo=a,dim=d,lam=12,warm=w,t=600) for a,d in ((0,4),(3,4),(6,8),(9,8),(12,7)) for w in (1,6)]
    return r
prop("C25",title="Offspring are normal draws around the mean with covariance sigma^2 C",
 statement="Every offspring of a generation is an affine image of independent standard normal draws, one per coordinate, centred at the current mean and with the current step size squared times the current covariance (or, under lazy updates, the covariance of the last decomposition) as covariance matrix. The first generation is drawn around the given start with the given step size (or per-coordinate standard deviations). The gradient point lies along the natural gradient at the expected offspring length; the two-point pair is symmetric about the mean along the last mean shift.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all values of all normal draws of one generation, after 0..6 warm-up generations"),
 why="A biased centre, a transposed factor or a reused draw changes the distribution, which no single run reveals.",
 anchors=dict(files=["include/libcmaes/eigenmvn.h","src/cmastrategy.cc","src/esostrategy.cc","src/cmaparameters.cc"],mechanism=[dict(name="sampling",where="src/cmastrategy.cc: ask; include/libcmaes/eigenmvn.h: samples, samples_ind")],observe_at=["return value of ask"]),
 bounds="dimension 2..10, population 4..10; the sum over a generation of squared Mahalanobis lengths equals the sum of squared draws for every draw, which an affine map with another covariance cannot satisfy; tolerance 1e-6",jobs=c25,
 assumptions=["the generator's normal variates are replaced by solver variables; their distribution is the standard library's"])
# ---- configuration ----------------------------------------------------------------------------
def c27(t):
    r=[J("config","h_names",how=h) for h in range(4)]+[J("config","h_names",how=h,run=1) for h in (0,3)]
    r+=[J("config","h_opts",a=a,algo=0,dim=2) for a in range(28)]+[J("config","h_opts",a=a,algo=g,dim=d) for g,d in ((6,3),(12,7)) for a in (11,21,23,1)]
    r+=[J("config","h_ctor",gp=g,dim=d,lam=l,ptr=p,range=k) for g in (0,3) for d,l in ((2,99),(3,7),(5,-1)) for p in (0,1) for k in (0,1)]+[J("config","h_ctor",gp=g,dim=d,lam=l,ptr=p) for g in (1,2) for d,l in ((2,99),(3,7)) for p in (0,1)]
    r+=[J("config","h_ctor",gp=0,dim=d,lam=-1) for d in (1,7,10,20,33,100)]
    return r
prop("C27",title="A setting takes effect as given, alone, and in any order of calls",
 statement="Each setter of the parameter object makes the getter return the value given and leaves every other setting as it was, whatever was set before; the latest call wins and a copy has the same settings. An algorithm selected by name, in either interface, is the one that runs. A parameter object built from a start point, step size, population size and seed starts the run exactly there, with the documented default for each of those left out; a start interval yields a start inside it.",
 quantifier=dict(over=["inputs","configurations"],text="for all values in the ranges listed, all ordered pairs out of 28 setters, all 15 algorithm names, all start points in +-100, all draws of the start interval"),
 why="Settings interact through derived constants and shared fields; tests set one or two options in one order.",
 anchors=dict(files=["include/libcmaes/parameters.h","include/libcmaes/cmaparameters.h","src/cmaparameters.cc","src/cmasolutions.cc","include/libcmaes/cmaes.h"],mechanism=[dict(name="setters",where="include/libcmaes/parameters.h, cmaparameters.h"),dict(name="constructors",where="include/libcmaes/parameters.h: Parameters(...); src/cmaparameters.cc")],observe_at=["getters","state at the start of a run"]),
 bounds="dimension 1..7 (default population size up to 100), two setters in sequence",jobs=c27)
# ---- warm start -------------------------------------------------------------------------------
def c32(t):
    r=[J("twin","h_twin",kind=6,algo=a,dim=d,wlo=w,wn=3,maxi=3,gp=g) for a,d in ((0,2),(3,2),(6,2),(9,3)) for g in range(4) for w in (0,5)]
    r+=[J("twin","h_twin",kind=6,algo=a,dim=d,rest=1,wlo=w,wn=3,maxi=2) for a,d in ((1,2),(4,2),(7,3),(10,3)) for w in (0,9)]
    r+=[J("twin","h_twin",**dict(dict(kind=6,algo=a,dim=2,wlo=4,wn=3,maxi=3),**o)) for a in (0,6) for o in (dict(wlam=6),dict(wlam=3),dict(lam=7),dict(witer=0),dict(maximize=1),dict(grad=1),dict(grad=2),dict(tpa=2),dict(lazy=1),dict(ifv=1),dict(elit=1),dict(elit=2),dict(maxf=6),dict(soff=256,maxf=8),dict(fixm=2),dict(sg1000=-1000),dict(co=4),dict(noisy=1,lam=2))]
    r+=[J("twin","h_twin",**dict(dict(kind=6,algo=12,dim=6,wlo=4,wn=3,maxi=3),**o)) for o in ({},dict(gp=1),dict(gp=2),dict(tpa=2),dict(wlam=6),dict(algo=13,rest=1))]
    rounds=lambda p:p["gp"]>1 or "tf" in p or "fixm" in p # the start is rounded; equal eigenvalues or finite differences amplify that
    r+=[j for j in mix(33,200,h="twin",kind=6,maxis=(2,3,4),elit=(0,0,2)) for p in (j["params"],) if "xp" not in p and not (rounds(p) and (p["algo"]<6 and p["dim"]>3 or p.get("grad")==1))]
    return r
prop("C32",title="Starting from a solution equals a fresh run at its mean and step size",
 statement="A run started from an existing solution makes exactly the evaluations, and goes through exactly the states, of a fresh run with the same options that starts at that solution's mean with its step size: nothing else of the earlier run (its population size, evolution paths, adaptation signals, counters, histories) leaks in, except that the best point seen so far is remembered.",
 quantifier=dict(over=["histories","configurations"],text="for all objective values in a window of consecutive calls; each flavour, transform and option listed"),
 why="It is a comparison of two runs for every history; tests check that one warm start converges.",
 anchors=dict(files=["include/libcmaes/cmaes.h","include/libcmaes/esostrategy.h","src/cmasolutions.cc","src/cmastrategy.cc"],mechanism=[dict(name="warm start",where="include/libcmaes/cmaes.h: cmaes; include/libcmaes/esostrategy.h: start_from_solution; src/cmasolutions.cc: reset")],observe_at=["arguments of the objective","state in the progress callback"]),
 bounds="dimension 2..6, population 2..7, up to 3 generations; restarts after the first run excluded",jobs=c32)
# ---- error statistics -------------------------------------------------------------------------
def c20(t):
    r=[J("err","h_vpk",gp=g,dim=3,km=m,rev=v,phv=p,phx=x,wlo=2,wn=3) for g in range(4) for m,v in ((1,0),(2,0),(4,0),(5,0),(5,1),(3,1),(7,0)) for p in (0,1) for x in (0,1)]
    r+=[J("err","h_vpk",gp=g,dim=3,km=m,rev=v,phv=p,phx=1,sv=s) for g in (0,3) for m,v,s in ((1,0,1),(2,0,1),(5,0,2),(5,1,2),(7,1,2)) for p in (0,1)]+[J("err","h_vpk",gp=g,dim=3,km=m,rev=v,phv=p,phx=1,sv=s) for g in (1,2) for m,v,s in ((2,0,1),(7,1,2)) for p in (0,1)]
    r+=[J("err","h_vpk",gp=g,dim=2,km=1+k,one=1,phv=p,phx=p,wlo=w,wn=3) for g in range(4) for k in (0,1) for p in (0,1) for w in (0,3)]
    r+=[J("err","h_prof",gp=g,dim=2,k=k,curve=c,S=s,reps=2,wlo=1,wn=2,maxi=20,mi=m) for g in range(4) for k in (0,1) for c,s,m in ((0,2,100),(1,2,100),(1,3,2),(0,3,1))]
    r+=[J("err","h_prof",gp=g,dim=3,k=k,curve=c,S=2,reps=1,wlo=8,wn=1,maxi=30,mi=50) for g in range(4) for k in (0,2) for c in (0,1)]
    if t!="quick": r+=[J("err","h_prof",gp=g,dim=2,k=k,curve=c,S=2,reps=2,wlo=8,wn=2,maxi=20,mi=100,t=600) for g in range(4) for k in (0,1) for c in (0,1)]+[J("err","h_vpk",gp=g,dim=3,km=m,rev=v,phv=p,phx=1,sv=s,t=600) for g in (1,2) for m,v,s in ((1,0,1),(5,0,2),(5,1,2)) for p in (0,1)]
    return r
prop("C20",title="A profile holds the profiled parameters and reports evaluated points",
 statement="Minimising with some parameters held at given values evaluates the objective only at points with all parameters present, the held ones at their values (in the space they were given in) and all within the bounds; the result has the held values, is an evaluated point with its own objective value, is the best of the last generation, and reports the evaluations made. Each row of a profile-likelihood curve is such a point with its value, the centre row is the minimum, the confidence bounds are ordered, and the solution keeps the latest profile.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all held values (within +-5 or the interior of the box) or all objective values in a window; any subset of held parameters in any order, each transform"),
 why="Index bookkeeping between the full and the reduced problem goes wrong for particular subsets, orders and transforms only.",
 anchors=dict(files=["src/errstats.cc","include/libcmaes/errstats.h","include/libcmaes/pli.h","include/libcmaes/eo_matrix.h"],mechanism=[dict(name="reduced problem",where="src/errstats.cc: optimize_vpk"),dict(name="profile",where="src/errstats.cc: profile_likelihood, profile_likelihood_search, take_linear_step")],observe_at=["arguments of the objective","returned CMASolutions and pli"]),
 bounds="dimension 2..3, population 4, the inner run cut to one generation by a target met at once; 2..3 steps per direction; minimisation only; contour points excluded",jobs=c20)
def c21(t):
    r=[J("err","h_pli",S=s,k=k,lv=l) for s,k,l in ((1,0,0),(2,0,0),(2,1,1),(3,0,0))]
    r+=[J("err","h_acc",algo=a,dim=d,gp=g,i0=i,j0=j) for a,d in ((0,2),(0,4),(3,3),(6,2),(9,4),(12,6)) for g in (0,3) for i,j in ((0,1),(1,0))]+[J("err","h_acc",algo=a,dim=d,i0=d-1,j0=1) for a,d in ((0,6),(6,8),(12,9))]
    if t!="quick": r+=[J("err","h_pli",S=s,k=1,lv=1,s=127,t=600) for s in (2,3)]
    return r
prop("C21",title="Reported covariance, deviations, correlations and intervals are consistent",
 statement="The covariance matrix a solution reports is that of its search distribution, its standard deviations are the roots of the variances (scaled to user units), and its correlations, singly or as a matrix, are the normalised covariances: symmetric, one on the diagonal, within [-1,1]. The confidence interval of a profile is given by the points nearest to the requested level on each side of the minimum, in order, and the reported errors are relative to the minimum.",
 quantifier=dict(over=["inputs","configurations"],text="for all variances in [0.01,100] and covariances of one pair, all VD factors, all profile values in +-20 and positions in +-5, all levels"),
 why="The accessors have one branch per flavour, with its own representation of the covariance.",
 anchors=dict(files=["src/cmasolutions.cc","include/libcmaes/cmasolutions.h","include/libcmaes/pli.h"],mechanism=[dict(name="accessors",where="CMASolutions::full_cov, stds, corr"),dict(name="interval",where="pli::getMinMax, setErrMinMax")],observe_at=["return values"]),
 bounds="dimension 2..9; profiles of 1..3 points per side; correlation matrix of the separable flavours excluded (its shape is flavour specific)",jobs=c21)
NA=[dict(id="C90",title="The Python bindings mirror the C++ interface",statement="Every optimisation run through the Python module gives the same result as the same run through the C++ interface.",quantifier=dict(over=["programs","inputs"],text="all programs that use the Python module"),why_tests_cant="Tests run a couple of scripts.",anchors=dict(files=["python/lcmaes.cc"],mechanism=[dict(name="Boost.Python glue",where="python/lcmaes.cc")]),reason="The bindings are Boost.Python glue around CPython objects; the interpreter and its FFI cannot be encoded for the solver here.")]
# ---- parallel loops ---------------------------------------------------------------------------
def c26(t):
    O=lambda t=60,**k:J("omp","h_omp",t,**k)
    r=[O(maxi=2,algo=a,dim=d) for a,d in ALG]+[O(maxi=2,gp=g,dim=3,sa=1) for g in (1,2,3)]+[O(maxi=2,grad=1,sa=0,st=1,dim=d,gp=g,opts=["--fork-select"],**o) for d,g,o in ((2,0,{}),(5,0,{}),(3,1,{}),(9,0,dict(lam=7)),(3,2,dict(fixm=2)),(4,0,dict(algo=6)),(3,0,dict(edm=1)))]
    r+=[O(maxi=2 if l<30 else 1,sa=0,st=1 if l<30 else 2,lam=l,algo=a,dim=d,gp=g,opts=["--fork-select"],**o) for l,a,d,g,o in ((101,0,3,0,{}),(101,6,3,2,{}),(120,3,4,1,{}),(33,12,6,0,{}),(101,0,2,3,{}),(9,0,2,0,dict(elit=1)),(9,0,2,0,dict(elit=2,maximize=1)),(8,0,2,0,dict(tpa=2)),(10,1,2,0,dict(rest=2)),(8,2,2,0,dict(rest=2)),(6,0,3,0,dict(fixm=1)),(6,0,3,0,dict(tf=1)),(101,0,3,1,dict(tf=1)),(8,0,3,0,dict(maximize=1)),(8,0,2,0,dict(ifv=1)))]
    r+=[J("omp","h_omptr",gp=g,dir=i,tf=f,dim=d,cols=c,sc=k,sr=q,bset=b) for g,i,f in ((0,0,1),(1,0,0),(1,0,1),(1,1,0),(1,1,1),(2,0,0),(2,1,0),(3,0,0)) for d,c,k,q,b in ((3,101,7,0,0),(4,130,129,2,1),(1,100,0,0,3))]
    r+=[J("omp","h_ompsvm",kern=k,dim=d,n=n,t=q,enc=e) for k in (0,1,2) for d,n,q,e in ((2,8,5,0),(3,12,20,1))]
    if t!="quick": r+=[O(600,maxi=3,algo=a,dim=d,lam=6) for a,d in ALG]
    return r
prop("C26",title="Parallel loops have no data races and give the sequential result",
 statement="With parallel evaluation on, the iterations of the library's parallel loops (evaluating a population, finite differences, transforming a population, the surrogate's ranking SVM) never access the same memory with one of them writing, whatever the objective values and the assignment of iterations to threads, as long as the objective and the custom transforms are themselves safe to call concurrently. The result is the one of sequential evaluation.",
 quantifier=dict(over=["schedules","inputs","configurations"],text="for every assignment of iterations to threads and every interleaving (one thread per iteration, access sets compared pairwise), for all objectives of the symbolic family (linear coefficients in +-2, or a step at any threshold)"),
 why="A race shows only under a particular interleaving; tests with parallel evaluation pass on nearly every run.",
 anchors=dict(files=["src/esostrategy.cc","include/libcmaes/genopheno.h"],mechanism=[dict(name="parallel loops",where="src/esostrategy.cc: eval, gradf; include/libcmaes/genopheno.h: pheno, geno, pheno_candidates, geno_candidates")],observe_at=["memory accesses inside the loops","CMASolutions after the run, parallel against sequential"]),
 bounds="dimension 1..9, population 4..120, 100..130 columns in the transforms, 2 generations (restarts: 2 runs); statically scheduled loops; ranking SVM with 8..12 training points; the iterations' accesses on each explored path are complete, their addresses are concrete",jobs=c26)
# ---- uncertainty handling ---------------------------------------------------------------------
def UHJ(t=60,**k): return J("uh","h_uh",t,**k)
def c33(t):
    r=[UHJ(warm=w,lam=4,wn=6,algo=a,dim=d,reach=["end","noisy","quiet"]) for w,a,d in [(0,a,d) for a,d in ALG]+[(2,0,2),(1,6,2)]]+[UHJ(lam=5,wlo=o,wn=n) for o,n in ((0,3),(4,3),(2,5))]+[UHJ(lam=6,reev=k,wlo=o,wn=4) for k in (1,3,6) for o in (4,0)]+[UHJ(gp=g,wn=6) for g in (1,2,3)]+[UHJ(maximize=1,wn=6),UHJ(tf=1,wn=6),UHJ(fixm=1,dim=3,wn=6)]
    q=random.Random(77)
    for _ in range(60):
        a=q.choice((0,0,3,6,9,12)); d=q.choice((6,7,9)) if a==12 else q.choice((2,3,5,9)); l=q.choice((4,5,6,7,8,10,12,17,20,31)); k=q.choice((0,0,1,2,3,l//2,l)); kk=k or max(2,l//10); n=q.choice((1,2,3) if l<9 else (1,2)); o=dict(algo=a,dim=d,lam=l,reev=k,warm=q.choice((0,1,2,4,9)),wlo=q.randrange(l+kk-n+1),wn=n,seed=q.randrange(1,9999),co=q.choice((0,0,2,4,8,9)),gp=q.choice((0,0,1,2,3)))
        if q.random()<.2: o["maximize"]=1
        if q.random()<.2: o["fixm"]=1<<q.randrange(d)
        if q.random()<.3: o["sg1000"]=q.choice((10,2000,20000))
        r.append(UHJ(**o))
    if t!="quick": r+=[UHJ(600,lam=5,wn=7,warm=w,algo=a) for w in (0,1) for a in (0,6)]+[UHJ(600,lam=6,reev=3,wlo=2,wn=6),UHJ(600,lam=4,reev=4,wn=8)]
    return r
prop("C33",title="Uncertainty handling ranks by both evaluations and reacts to measured noise",
 statement="With uncertainty handling on, each generation evaluates a second time, next to the first points, as many candidates as the given fraction says. The population is then ordered by the sum of a candidate's rank among the first values and its rank among the second values (a candidate not evaluated again counts with its first value in both), of two re-evaluated candidates with equal sums the one whose rank changed less comes first, every candidate keeps its own first value, and the new mean is formed from that order. The step size is enlarged by the given factor exactly when the measured rank changes exceed the acceptance threshold, so never when the second evaluations leave all ranks as they were.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all (distinct) first and second objective values of one generation, after any of the listed histories, in every flavour"),
 why="The order depends on two rankings at once; tests run a noisy function and look at convergence.",
 anchors=dict(files=["src/esostrategy.cc","src/cmastrategy.cc"],mechanism=[dict(name="ranking",where="src/esostrategy.cc: uncertainty_handling, perform_uh, select_candidates_uh, eval_candidates_uh"),dict(name="reaction",where="src/cmastrategy.cc: tell")],observe_at=["candidates after tell","sigma and xmean after tell","calls of the objective"]),
 bounds="dimension 2..9, population 4..31 with 1..all candidates re-evaluated, up to 9 earlier generations; up to six (thorough eight) symbolic values in +-1000, no two equal; ties between three or more sums are not ordered; one more generation with the enlargement factor 1 is the reference for the step size",jobs=c33)
# ---- memory --------------------------------------------------------------------------------------
def memj(l): return [dict(j,h="mem",entry="h_mem",opts=["--uninit"]) for j in l]
def c31(t):
    U=["--uninit"]
    r=memj(mix(91,110,rest=1,uh=.2,cos=N7)+mix(92,40,again=1,cos=N7,uh=.2)+mix(93,15,edm=1,cos=N7)+mix(94,15,elit=(3,),cos=N7)+mix(95,10,noisy=1,cos=N7,lams=(2,3)))+[J("mem","h_fresh",algo=a,dim=d,opts=U) for a,d in ALG]+[J("mem","h_mpli",gp=g,dim=d,k=d-1,curve=c,wlo=w,wn=2,opts=U,maxi=20) for g in range(4) for d,c,w in ((2,0,2),(2,1,9),(3,0,5))]
    if t!="quick": r+=memj(mix(96,300,rest=1,uh=.2,cos=N7)+mix(97,80,again=1,cos=N7,uh=.2,edm=1))
    return r
prop("C31",title="No run reads invalid or uninitialised memory",
 statement="Whatever the options, the bounds and the objective values, constructing parameters and solutions, running any flavour (with restarts, warm starts, gradient, uncertainty handling, elitism, expected distance to minimum) and computing a profile likelihood never read or write memory out of bounds or after its release, and no decision of a run and nothing a caller can ask of the parameters, the solution or the profile, during the run or afterwards, comes from memory nobody initialised.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all objective values in a window of consecutive calls, in every flavour and option mix listed"),
 why="An uninitialised member or an index one too far usually reads something harmless in a test, and shows only for one option mix or one branch.",
 anchors=dict(files=["src/cmasolutions.cc","src/cmaparameters.cc","src/cmastrategy.cc","src/esostrategy.cc","src/cmastopcriteria.cc","src/errstats.cc","include/libcmaes/cmasolutions.h","include/libcmaes/parameters.h","include/libcmaes/pli.h"],mechanism=[dict(name="state",where="include/libcmaes/cmasolutions.h: constructors and members; include/libcmaes/parameters.h: members"),dict(name="access",where="src/: every function reached by a run")],observe_at=["every load and store of the run","getters of CMASolutions, CMAParameters, Candidate, pli"]),
 bounds="dimension 2..9, population 4..33, up to 60 generations, profile sampling of 2 points per side; configurations drawn with a fixed seed from the product of the options, each with one to three symbolic objective values",jobs=c31)
# ---- surrogates ----------------------------------------------------------------------------------
def SU(t=60,**k): return J("surr","h_surr",t,**k)
def smix(seed,n):
    q=random.Random(seed); r=[]
    while len(r)<n:
        a=q.choice((0,0,3,6,9,12)); d=q.choice((6,7)) if a==12 else q.choice((2,3,5)); l=q.choice((4,5,6,6,7,9,12)); m=q.choice((0,1,1)); ex=q.choice((0,1,1,1,1)); g=q.choice((3,4,5,7)); ll=q.choice((l,l+1,2*l,2*l-1,8,10,15,0)); ns=q.choice((1,2,3,4,-1))
        o=dict(acm=m,algo=a,dim=d,lam=l,ex=ex,gens=g,l=ll,ns=ns,seed=q.randrange(1,9999),gp=q.choice((0,0,1,2,3)),co=q.choice((0,0,2,4,8,9)),prel=q.choice((2*l,3*l,30)),wlo=q.randrange(l*g),wn=q.choice((1,2)),plo=q.randrange(3*l),pn=q.choice((0,1,2)))
        if q.random()<.4: o["lp"]=q.randrange(1,l+1)
        if q.random()<.2: o["maximize"]=1
        if q.random()<.2 and o["gp"]!=1: o["fixm"]=1<<q.randrange(d)
        if o["wn"]+o["pn"]>2 and (l>5 or o["prel"]>20): o["wn"]=1
        if o["prel"]>20: o["pn"]=min(o["pn"],1)
        if q.random()<.3 and ns>0: o["loop"]=1
        r.append(SU(**o))
    return r
def c22(t):
    r=[SU(acm=m,algo=a,dim=d,ex=e,wlo=5,wn=2,lam=6,l=10,gens=5,ns=3) for a,d in ALG for m in (0,1) for e in (0,1)]+smix(5,130)
    if t!="quick": r+=smix(6,300)
    return r
prop("C22",title="Surrogate-assisted runs spend, train and rank on true evaluations as scheduled",
 statement="With a surrogate model, the objective is called exactly as the schedule says and as reported: for all offspring until the training set is complete, afterwards for all offspring of every n-th generation (simple strategy) or for the given number of pre-selected offspring per generation, the one the model ranks first among them (ACM strategy). The model is trained only on complete sets made of the latest evaluated points with their true values, and nothing is ranked by a model never trained. Each generation's order has the evaluated candidates first, by true value, the rest by the model, and the new mean follows that order. The reported test error is the fraction of evaluated pairs the model orders wrongly. With exploitation off the search is that of the plain strategy.",
 quantifier=dict(over=["inputs","histories","configurations"],text="for all (distinct) true values and model values in windows, whatever the model, in every flavour"),
 why="What goes wrong shows only in the generation the training set fills up, or for one ordering of model and true values; tests only run an example.",
 anchors=dict(files=["src/surrogatestrategy.cc","include/libcmaes/surrogatestrategy.h"],mechanism=[dict(name="simple",where="src/surrogatestrategy.cc: SimpleSurrogateStrategy::eval, tell, do_train"),dict(name="ACM",where="src/surrogatestrategy.cc: ACMSurrogateStrategy::ask, eval, pre_selection_eval, tell"),dict(name="error",where="src/surrogatestrategy.cc: compute_error")],observe_at=["calls of the objective","arguments of the training function","candidates and xmean after tell","get_test_error"]),
 bounds="dimension 2..7, population 4..12, 3..7 generations, pre-selection from 8..36, training sets of 4..73; up to two symbolic true values and two symbolic model values in +-1000, no two equal; the selection draws of the ACM strategy are those of a fixed seed; the strategies on top of plain CMA-ES (not IPOP, BIPOP)",jobs=c22)
def c23(t):
    R=lambda t=60,**k:J("rsvm","h_rsvm",t,**k)
    r=[R(kern=k,n=n,it=i,enc=e,dim=d,salt=s,cv=c,dual=u) for k in (0,1,2) for n,i,e,d,s,c,u in ((3,2,0,2,0,0,1),(3,5,1,2,1,10,2),(4,4,2,3,2,1,1),(3,1,0,2,2,1,1),(2,1,0,2,4,1,1),(3,2,0,3,5,1,1))]+[R(kern=k,n=n,it=i,enc=e,dim=d,salt=s,cv=c) for k in (0,1,2) for n,i,e,d,s,c in ((4,9,2,3,2,1),(4,6,0,2,3,0),(5,3,1,4,7,5))]
    r+=[R(kern=k,pred=1,n=n,t=q,enc=e,dim=d,salt=s) for k in (0,1,2) for n,q,e,d,s in ((3,3,0,2,0),(3,3,1,2,1),(4,4,2,3,2),(6,2,1,5,3),(9,3,2,2,4))]+[J("rsvm","h_rsvmset",n=n,tr=q,dim=d) for n in (2,3,4) for q in (0,1) for d in (2,3)]
    if t!="quick": r+=[R(600,kern=k,n=n,it=i,enc=e,dim=d,salt=s,cv=c,dual=u) for k in (0,1,2) for n,i,e,d,s,c,u in ((4,6,0,2,3,0,3),(5,8,2,3,4,1,2))]+[J("rsvm","h_rsvmset",600,n=5,tr=1)]
    return r
prop("C23",title="The ranking SVM stays feasible, improves its dual and predicts by its kernel sum",
 statement="Training the ranking SVM keeps every multiplier between zero and its limit whatever the random start, uses the kernel of the (encoded) training points with the average distance as width, and more iterations never lower its dual objective. A prediction is the multiplier-weighted sum of kernel differences over consecutive training points and does not depend on the other points predicted with it; a model not trained predicts nothing. The error is the fraction of pairs ordered wrongly. Training candidates are handed over from worst to best, each with its own value, candidates to be ranked in their order.",
 quantifier=dict(over=["inputs"],text="for all random starts, all multipliers, all values to be ordered; points concrete, kernels linear, polynomial and radial"),
 why="Tests train one model and look at a threshold on its error.",
 anchors=dict(files=["include/libcmaes/surrogates/rankingsvm.hpp","include/libcmaes/surrogates/rsvm_surr_strategy.hpp"],mechanism=[dict(name="training",where="rankingsvm.hpp: train, compute_training_kernel, optimize"),dict(name="prediction",where="rankingsvm.hpp: encode, predict, error"),dict(name="hand-over",where="rsvm_surr_strategy.hpp: to_mat_vec")],observe_at=["_alpha, _dKij after train","fit after predict","return value of error"]),
 bounds="2..9 training points, 1..9 optimisation steps (up to 11 in thorough), dimension 2..5; training points are concrete",jobs=c23)
HOW=dict(
C25="`h_draw`: after concrete warm-up generations every normal draw of the next one is a solver variable z (the generator is shimmed); ask() returns the offspring as terms in z. z3 shows, for all z, that the summed squared Mahalanobis lengths (with the inverse covariance computed by the harness) equal the summed z^2, that the number of draws is one per coordinate and offspring, and the direction and length of the gradient and two-point points.",
C27="`h_opts`: two setters out of 28 (the second one the solver's choice) with symbolic values; a snapshot of all getters is compared with the expected one. `h_names`: every algorithm name through both interfaces, the flavour and the class that runs. `h_ctor`: constructors with symbolic start, step size, interval draws.",
C32="`h_twin` kind 6: a solution of an earlier run is given to a new run; the twin is a fresh run at pheno(mean) with its sigma. Objective values in the window are shared symbols; arguments, states and results are compared after each generation on every path.",
C20="`h_vpk`: optimize_vpk / optimize_pk with symbolic held values (the step size, hence every point, becomes a term) or symbolic objective values; assertions in the objective and on the result. `h_prof`: profile_likelihood with symbolic values inside the line searches and reduced runs.",
C21="`h_acc`: variances, one covariance or the VD factors symbolic, accessor results against the defining equations (squared, so that roots are eliminated). `h_pli`: all values and positions of a profile symbolic, every argmin outcome is a path.",
C01="`h_inbox` runs every transform (bounds, scaling, custom function, all constructors, single points and populations) on a symbolic internal point with symbolic bounds and asserts lb <= x <= ub. `h_box` runs an optimiser for a few generations and makes the normal draws of the next one symbolic: the sampled, perturbed and finite-difference points are then terms, and every argument of the objective is asserted to be in the box. `h_run` checks every concrete call of whole runs under all rankings of a window of values.",
C02="`h_inverse`: symbolic feasible point and symbolic bounds through geno then pheno, every branch of the piecewise inverse is a path; the result is compared with the point. `h_reported`: reported bounds against the given ones.",
C03="`h_batch`: one coordinate of one column symbolic; each entry of the batch result is compared with the single-point transform, by z3 on every path, and the input is compared with a copy.",
C16="`h_remove`: transform before and after remove_dimensions on the same symbolic coordinate and bounds; results and reported bounds must be equal.",
C04="`h_run` with a monitor in the progress callback: the harness counts the calls of the objective itself and compares with fevals() after every generation, for every path (ranking) of the symbolic window.",
C05="`h_run`: the harness records each evaluated point and the (symbolic) value returned; every candidate reported must be at a recorded point and carry a value recorded for that point (equality of terms decided by z3).",
C06="`h_run`: after each generation the ranked values must be ordered (z3), and each of the last lambda recorded evaluations must be found once.",
C08="`h_run`: running minimum and maximum of the recorded symbolic values, as terms, must equal the best-seen and worst-seen values (z3).",
C26="The sources are compiled with OpenMP; the executor runs the outlined body of each parallel region once per iteration, as if each iteration had a thread of its own, and records every byte of shared memory read, written or freed (thread stacks and memory allocated inside the iteration are private, critical sections and atomic operations excluded). Two iterations with a common byte that one of them writes are a race: without one, all interleavings give the same result, which is then compared with the run without parallel evaluation. Objective coefficients or thresholds are solver variables, so every data-dependent path of the loops is explored. A reported race is replayed under ThreadSanitizer on plain threads.",
C31="`h_mem`, `h_fresh`, `h_mpli`: each byte of the executor's memory carries an allocated and an initialised state. Every access on every explored path is checked against live objects; a value read from uninitialised memory is a fresh variable marked as such, a branch whose condition contains one (and is not decided without it) or a getter returning one is a violation. Replayed under valgrind on an unoptimised build.",
C23="`h_rsvm`: the uniform draws of the start are solver variables, K is concrete, so multipliers are piecewise linear terms; limits and dual objective (quadratic) are decided by z3 on each path. Prediction and error with symbolic multipliers and reference values. `h_rsvmset`: symbolic values to be sorted.",
C22="`h_surr`: training and prediction functions supplied by the harness; the model's values for some points and the objective's values in a window are solver variables, so each path is one joint order. The harness keeps its own training set, schedule and ranking and compares calls, training sets, order, mean and test error; with exploitation off a plain strategy is run on the same values.",
C33="`h_uh`: ask/eval/tell by hand; first and second values are solver variables, each path is one joint ordering of both. Ranks, sums, the acceptance threshold and the weighted mean are computed by the harness from the recorded values; the same generation is replayed with the enlargement factor set to 1 to see whether the step size was enlarged.",
C09="`h_stop`: the optimiser's state (counters, step size, paths, covariance, eigenvalues, histories) and the limits are solver variables, the twelve conditions are written out in the harness, and stop() must agree with them for every state, with any one criterion switched off. `h_run` with a second, independent statement of each criterion over the reported state (mean, step size, covariance, evolution path, ranked values of the generations so far): after each generation the disjunction of the enabled ones decides whether the run may go on or must end, and the status must be one of those that hold.",
C24="`h_run`: the reference value (running minimum or the initial value, a term) must be in the ranked population unless half of the offspring are better (counted symbolically).",
C07="`h_twin`: first run with symbolic values v_k, second run with T(v_k), T a jump at a symbolic threshold with symbolic height (or shift / scaling). Each feasible path fixes both rankings; the assertion is that both runs evaluate the same points and end alike.",
C28="`h_twin`: the same run twice in one process (after another run; warm started; quiet or not; parallel evaluation flag on or off), first with symbolic values, second with the same terms.",
C29="`h_twin`: library loop against a hand-driven ask/eval/tell/stop loop and against custom functions forwarded to the strategy's optimize.",
C30="`h_twin`: maximizing with values v_k against minimizing with -v_k.",
C12="`h_update`: one real update of each flavour on a population with symbolic ranked positions; the new mean is compared with independently computed weights, and bounded by the parents' extremes.",
C13="`h_update`: paths and step size before the update, the step size and the parents are symbolic; afterwards they are compared with the published equations written out with plain loops.",
C17="`h_update`: as C13 for covariance (full, diagonal, active) and VD's pair (D,v); symmetry, positive variances and the determinant in dimension 2 are asserted as well.",
C14="`h_run`: at generation 0 of every run the progress callback compares population size, step size, mean, covariance, paths and every strategy constant with a freshly built optimizer; at the end the returned value must be the minimum (term) of the runs' final values.",
C15="`h_run` with the uniform draws of BIPOP replaced by solver choices: the monitor keeps its own budgets, decides which regime must come next and checks population, step size, budget and constants of each run.",
C11="`h_box`: fixed value symbolic, one generation of each flavour and transform, every objective argument compared with it. `h_run`: whole runs with fixed, re-fixed and released parameters under all options, every recorded point and every mean compared.")
