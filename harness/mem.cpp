// Memory safety and uninitialised values: whole runs with every option; everything a user can ask a solution or the parameters is looked at.
#include "run.h"
#define contour contour_hdr // contour.h defines a non-inline operator for it; the library has its own
#include "errstats.h"
#undef contour
static void u(const char *n,double v){ sym_use(n,v); }
static void uv(const char *n,const dVec &v){ for(int i=0;i<v.size();i++) u(n,v(i)); }
static void um(const char *n,const dMat &v){ for(int i=0;i<v.rows();i++) for(int j=0;j<v.cols();j++) u(n,v(i,j)); }
static void uc(const char *n,const Candidate &c,bool id=true){ u(n,c.get_fvalue()); uv(n,c.get_x_dvec()); if(id){ u(n,c.get_id()); u(n,c.get_rank()); } }
template<class G> static void look(const CMAParameters<G> &p,const CMASolutions &s,int end){
  u("niter",s.niter()); u("nevals",s.nevals()); u("fevals",s.fevals()); u("sigma",s.sigma()); uv("xmean",s.xmean()); u("status",s.run_status()); u("dim",s.dim()); u("edm",s.edm()); u("elapsed_time",s.elapsed_time()); u("elapsed_last_iter",s.elapsed_last_iter());
  um("cov",s.cov()); um("sepcov",s.sepcov()); um("full_cov",s.full_cov()); u("size",s.size()); uv("pc",s._pc); uv("psigma",s._psigma); u("hsig",s._hsig);
  if(s.niter()>0){ um("eigenvectors",s.eigenvectors()); uv("eigenvalues",s.eigenvalues()); u("min_eigenv",s.min_eigenv()); u("max_eigenv",s.max_eigenv()); for(int i=0;i<s.size();i++) uc("candidate",s.get_candidate(i)); uc("best candidate",s.best_candidate()); uc("best-seen candidate",s.get_best_seen_candidate()); uc("worst-seen candidate",s.get_worst_seen_candidate()); uv("stds",s.stds(p)); uv("errors",s.errors(p)); um("corr",s.corr()); u("corr(0,1)",s.corr(0,D-1)); u("best-seen iteration",s._best_seen_iter); }
  u("lambda",p.lambda()); u("max_iter",p.get_max_iter()); u("max_fevals",p.get_max_fevals()); u("ftarget",p.get_ftarget()); u("seed",p.get_seed()); u("ftol",p.get_ftolerance()); u("xtol",p.get_xtolerance()); u("sigma_init",p.get_sigma_init()); u("algo",p.get_algo()); u("quiet",p.quiet()); u("mt",p.get_mt_feval()); u("maximize",p.get_maximize()); u("gradient",p.get_gradient()); u("edm on",p.get_edm()); u("restarts",p._nrestarts); u("uh",p.get_uh()); u("tpa",p.get_tpa()); u("lazy",p._lazy_update);
  u("mu",p._mu); u("muw",p._muw); u("csigma",p._csigma); u("c1",p._c1); u("cmu",p._cmu); u("cc",p._cc); u("dsigma",p._dsigma); u("chi",p._chi); uv("weights",p._weights); uv("x0min",p._x0min); uv("x0max",p._x0max); u("max hist",p._max_hist); u("elitist",p._elitist+2*p._initial_elitist+4*p._initial_elitist_on_restart); u("sep",p._sep+2*p._vd); u("lazy value",p._lazy_value); u("initial value",p._initial_fvalue); u("tpa damping",p._tpa_csigma);
  std::string m=s.status_msg(); u("message",m.size());
}
template<class G> static void go(){
  CMAParameters<G> p=mkparams<G>(); FitFunc f=obj; GradFunc gf=nullptr; if(PAR("grad",0)==2) gf=[](const double *x,const int &n){ dVec g(n); for(int i=0;i<n;i++) g(i)=2*(x[i]-CEN[i%8]); return g; };
  ProgressFunc<CMAParameters<G>,CMASolutions> pf=[](const CMAParameters<G> &cp,const CMASolutions &s){ look(cp,s,0); return 0; };
  CMASolutions s=cmaes<G>(f,p,pf,gf); look(p,s,1);
  if(PAR("again",0)){ CMASolutions t(s); CMASolutions v; v=t; look(p,v,1); CMAParameters<G> q(p); if(PAR("maxi",3)>=0) q.set_max_iter(PAR("maxi",3)); CMASolutions z=cmaes<G>(f,q,pf,gf,v); look(q,z,1); }
  sym_reach("end"); }
extern "C" void h_mem(){ mkglobals(); switch(PAR("gp",0)){ case 0: go<GN>(); break; case 1: go<GB>(); break; case 2: go<GBS>(); break; case 3: go<GS>(); break; } }
// solutions and parameters nobody has run yet
extern "C" void h_fresh(){ mkglobals(); CMAParameters<GN> p=mkparams<GN>(); look(p,CMASolutions(p),0); std::vector<double> x0(D,0.25),l(D,-1.0),h(D,2.0); CMAParameters<GN> q(D,&x0[0],0.5); look(q,CMASolutions(q),0); 
  CMAParameters<GN> r; CMASolutions z; u("niter of an empty solution",z.niter()); u("size of an empty solution",z.size()); u("sigma of an empty solution",z.sigma()); u("evaluations of an empty solution",z.fevals()); u("status of an empty solution",z.run_status()); u("dim of empty parameters",r.dim()); sym_reach("end"); }
// profile likelihood after a run
template<class G> static void prof(){
  CMAParameters<G> p=mkparams<G>(); FitFunc f=obj; int lo=wlo,hi=whi; wlo=whi=0; CMASolutions s=cmaes<G>(f,p); p.set_ftarget(1e9); reset_records(); wlo=lo; whi=hi;
  pli e; u("profile not computed",s.get_pli(0,e)); pli l=errstats<G>::profile_likelihood(f,p,s,PAR("k",0),PAR("curve",0),PAR("S",2),0.5,0.1,PAR("mi",20));
  uv("profile values",l.get_fvaluem()); um("profile points",l.get_xm()); u("profile bounds",l.get_err_min()); u("profile bounds",l.get_err_max()); u("profile interval",l.get_min()); u("profile interval",l.get_max()); u("profile index",l._minindex); u("profile index",l._maxindex); for(int i=0;i<l._err.size();i++) u("profile status",l._err[i]); look(p,s,1);
  sym_reach("end"); }
extern "C" void h_mpli(){ mkglobals(); switch(PAR("gp",0)){ case 0: prof<GN>(); break; case 1: prof<GB>(); break; case 2: prof<GBS>(); break; case 3: prof<GS>(); break; } }
