// Two runs of the real optimiser in one process, compared: same points evaluated in the same order, same final state.
#include "run.h"
enum { T_SAME=0, T_MONO=1, T_MAXI=2, T_ASKTELL=3, T_MT=4, T_CUSTOM=5, T_WARM=6, T_QUIET=7 };
static int inside,outside; static int kind; static double tt,tc,ts; static std::vector<double> base; static int second;
static double T(double f){ return f>tt?ts*f+tc:f; }
static double tobj(const double *x,const int &n){
  int k=F.size(); double f;
  if(!second) f=(k>=wlo&&k<whi)?sym_range("f",-FM,FM):objc(x,n,k);
  else { sym_assert(k<(int)base.size(),"both runs make the same number of objective calls"); f=base[k]; if(kind==T_MONO) f=T(f); else if(kind==T_MAXI) f=-f; }
  if(second&&!inside) outside++;
  X.push_back(Eigen::Map<dVec>(const_cast<double*>(x),n)); F.push_back(f); return f;
}
static dVec tgrad(const double *x,const int &n){ dVec g(n); for(int i=0;i<n;i++) g(i)=2*(x[i]-CEN[i%8])*(PAR("maximize",0)?-1:1); return g; }
template<class S> static void drive(S &o){ while(!o.stop()){ dMat c=o.ask(); o.eval(c,o.get_parameters().get_gp().pheno(c)); o.tell(); o.inc_iter(); } }
template<class U,class G> static CMASolutions asktell(FitFunc &f,CMAParameters<G> &p,int how){
  ESOptimizer<CMAStrategy<U,G>,CMAParameters<G>> o(f,p);
  if(PAR("grad",0)==2){ GradFunc g=tgrad; o.set_gradient_func(g); }
  if(how==1) drive(o);
  else { EvalFunc e=[&o](const dMat &c,const dMat &pc){ inside=1; o.eval(c,pc); inside=0; }; AskFunc a=[&o]{ inside=1; dMat c=o.ask(); inside=0; return c; }; TellFunc t=[&o]{ o.tell(); }; inside=outside=0; o.CMAStrategy<U,G>::optimize(e,a,t);
    sym_assert(outside<L,"the custom functions are used for the whole run"); }
  return o.get_solutions();
}
template<class G> static CMASolutions one(int which){
  CMAParameters<G> p=mkparams<G>(); FitFunc f=tobj; int a=PAR("algo",0);
  if(kind==T_MAXI) p.set_maximize(which==0);
  if(kind==T_MT) p.set_mt_feval(which==1);
  if(kind==T_QUIET) p.set_quiet(which==1);
  if((kind==T_ASKTELL||kind==T_CUSTOM)&&which==1){
    if(a==6||a==9) p.set_sep(); if(a==12) p.set_vd();
    int how=kind==T_ASKTELL?1:2;
    switch(a){ case 3: case 9: return asktell<ACovarianceUpdate,G>(f,p,how); case 12: return asktell<VDCMAUpdate,G>(f,p,how); default: return asktell<CovarianceUpdate,G>(f,p,how); }
  }
  GradFunc gf=nullptr; if(PAR("grad",0)==2) gf=tgrad; ProgressFunc<CMAParameters<G>,CMASolutions> pf=[](const CMAParameters<G>&,const CMASolutions&){ return 0; };
  if(kind==T_WARM){ // a run started from a solution against a fresh run at that solution's mean and step size
    int L0=L; if(PAR("wlam",0)) L=PAR("wlam",0); CMAParameters<G> q=mkparams<G>(); L=L0; q.set_max_iter(PAR("witer",2)); q.set_maximize(false); FitFunc f0=[](const double *x,const int &n){ return objc(x,n,0); }; CMASolutions s0=cmaes<G>(f0,q,pf);
    if(which==0) return cmaes<G>(f,p,pf,gf,s0);
    dVec m=s0.xmean(); if(!p.get_gp().get_scalingstrategy().is_id()) p.get_gp().get_scalingstrategy().scale_to_f(dVec(m),m);
    std::vector<double> x0(m.data(),m.data()+m.size()); p=mkparams<G>(x0,s0.sigma()); return cmaes<G>(f,p,pf,gf); }
  if(PAR("warm",0)){ CMAParameters<G> q=mkparams<G>(); q.set_max_iter(2); FitFunc f0=[](const double *x,const int &n){ return objc(x,n,0); }; CMASolutions s0=cmaes<G>(f0,q,pf); return cmaes<G>(f,p,pf,gf,s0); }
  return cmaes<G>(f,p,pf,gf);
}
static void eqv(const dVec &a,const dVec &b,const char *m){ sym_assert(a.size()==b.size(),m); for(int i=0;i<a.size();i++) sym_assert(kind==T_WARM?std::fabs(a(i)-b(i))<=1e-6*(1+std::fabs(a(i))):a(i)==b(i),m); }
static void eqm(const dMat &a,const dMat &b,const char *m){ sym_assert(a.rows()==b.rows()&&a.cols()==b.cols(),m); for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) sym_assert(kind==T_WARM?std::fabs(a(i,j)-b(i,j))<=1e-5*(1+std::fabs(a(i,j))):a(i,j)==b(i,j),m); }
template<class G> static void twin(){
  second=0; CMASolutions s1=one<G>(0); base=F; std::vector<dVec> X1=X; 
  for(int i=0;i<PAR("pre",0);i++){ std::vector<double> x0(2+i%3,0.1*i); CMAParameters<GN> q(x0,0.1+i,i%5,i); q.set_algo(i%3*3); q.set_max_iter(1); q.set_quiet(true); FitFunc f0=[](const double *x,const int &n){ return objc(x,n,0); }; cmaes<GN>(f0,q); } // other runs in between
  reset_records(); second=1; CMASolutions s2=one<G>(1);
  sym_assert(F.size()==base.size(),"both runs make the same number of objective calls");
  for(size_t k=0;k<X.size();k++) eqv(X1[k],X[k],"both runs evaluate the same points in the same order");
  sym_assert(s1.niter()==s2.niter()&&s1.fevals()==s2.fevals(),"both runs report the same counts");
  sym_assert(s1.run_status()==s2.run_status(),"both runs report the same status");
  eqv(s1.xmean(),s2.xmean(),"both runs end with the same mean"); sym_assert(kind==T_WARM?std::fabs(s1.sigma()-s2.sigma())<=1e-6*s1.sigma():s1.sigma()==s2.sigma(),"both runs end with the same step size");
  eqm(s1.full_cov(),s2.full_cov(),"both runs end with the same covariance");
  for(int i=0;i<s1.size();i++){ eqv(s1.get_candidate(i).get_x_dvec(),s2.get_candidate(i).get_x_dvec(),"both runs rank the population alike"); if(kind!=T_MONO) sym_assert(s1.get_candidate(i).get_fvalue()==s2.get_candidate(i).get_fvalue(),"both runs report the same values"); }
  if(s1.niter()>0){ eqv(s1.best_candidate().get_x_dvec(),s2.best_candidate().get_x_dvec(),"both runs report the same best point"); if(kind!=T_WARM) eqv(s1.get_best_seen_candidate().get_x_dvec(),s2.get_best_seen_candidate().get_x_dvec(),"both runs report the same best-seen point"); 
    if(kind==T_MAXI){ double m=0; int in=0; for(size_t k=0;k<base.size();k++){ m=base[k]; in|=(s1.best_candidate().get_fvalue()==-m); } sym_assert(in,"maximizing: the reported value is the negated objective value"); } }
  sym_reach("end");
}
extern "C" void h_twin(){
  mkglobals(); kind=PAR("kind",0); tt=0; tc=0; ts=1; base.clear();
  if(kind==T_MONO){ switch(PAR("mono",0)){ case 0: tt=sym_range("t",-FM,FM); tc=sym_range("shift",0,FM); break; // a step anywhere
      case 1: tt=-1e300; tc=sym_range("shift",-FM,FM); ts=1; break;                                        // any translation
      case 2: tt=-1e300; ts=std::pow(2.0,PAR("scale",0)); tc=0; break; case 3: tt=-1e300; ts=4; tc=sym_range("shift",-FM,FM); break; } }
  switch(PAR("gp",0)){ case 0: twin<GN>(); break; case 1: twin<GB>(); break; case 2: twin<GBS>(); break; case 3: twin<GS>(); break; }
}
