#include "run.h"
enum { K_FEVALS=1, K_VALUE=2, K_RANK=4, K_BEST=8, K_FIXED=16, K_ELIT=32, K_BOX=64, K_LIMITS=128, K_SIGMA=256, K_STATUS=512, K_RESTART=1024 };
static int K; 
struct Run { int calls0; int lambda; int niter; double best; int calls; double sigma0; dVec mean0; };
static std::vector<Run> runs; static double mn,mx; static int nseen; static double prevref;
// C05: the candidate's value is the one the objective returned at this very point
template<class G> static void own_value(const Candidate &c,const CMAParameters<G> &p,const char *what){
  dVec x=p.get_gp().pheno(c.get_x_dvec()); int found=0,ok=0;
  for(int j=(int)X.size()-1;j>=0;j--) if(same(X[j],x)){ found=1; ok|=(sgn()*F[j]==c.get_fvalue()); }
  sym_assert(found,"a reported candidate is a point at which the objective was evaluated");
  sym_assert(ok,what);
}
// C09: what each termination criterion promises, from the reported state alone
static std::vector<double> hb,hk,hm,hbf; static int hold[12],anyhold; static int ended;
static int at(int i){ static const int CR[12]={TOLHISTFUN,TOLX,NOEFFECTAXIS,NOEFFECTCOOR,EQUALFUNVALS,STAGNATION,AUTOMAXITER,MAXFEVALS,MAXITER,FTARGET,TOLUPSIGMA,CONDITIONCOV}; return CR[i]; }
static double med20(std::vector<double> v){ std::sort(v.begin(),v.end()); int n=v.size(); return n%2?v[n/2]:(v[n/2-1]+v[n/2])/2; }
template<class G> static void status_monitor(const CMAParameters<G> &p,const CMASolutions &s){
  int it=s.niter(),lam=p.lambda(); 
  if(it==0){ if(!runs.empty()&&runs.size()>1) sym_assert(anyhold,"a run ends only when an enabled criterion holds"); hb.clear(); hk.clear(); hm.clear(); hbf.clear(); anyhold=0; return; }
  sym_assert(!anyhold,"a run ends at the first generation at which an enabled criterion holds");
  for(int i=0;i<12;i++) hold[i]=0;
  int H0=10+(30*D)/lam, H=PAR("mhist",0)>0?PAR("mhist",0):H0; double ftol=std::max(PAR("ftol",0)?std::pow(10.0,-PAR("ftol",0)):1e-12,1e-12), xtol=std::max(PAR("xtol",0)?std::pow(10.0,-PAR("xtol",0)):1e-12,1e-12);
  int kc=std::min(lam-1,1+(int)std::ceil(0.1+lam/4.0));
  hb.push_back(s.get_candidate(0).get_fvalue()); hk.push_back(s.get_candidate(kc).get_fvalue()); if((int)hb.size()>H){ hb.erase(hb.begin()); hk.erase(hk.begin()); }
  hbf.push_back(s.get_candidate(0).get_fvalue()); if(hbf.size()>20) hbf.erase(hbf.begin());
  hm.push_back(lam%2?s.get_candidate(lam/2).get_fvalue():(s.get_candidate(lam/2-1).get_fvalue()+s.get_candidate(lam/2).get_fvalue())/2.0); if(hm.size()>(size_t)std::ceil(0.2*(it-1)+120+30.0*D/lam)) hm.erase(hm.begin());
  int n=hb.size(), HT=std::min(H,H0); bool diag=s.sepcov().size()>0;
  if(n>=HT){ int ok=1; for(int i=n-HT;i<n;i++) for(int j=i+1;j<n;j++) ok&=(std::fabs(hb[i]-hb[j])<ftol); hold[0]=ok; }
  double fac=s.sigma()/p.get_sigma_init(); int ok=1; for(int i=0;i<D;i++){ ok&=(std::fabs(s._pc(i))*fac<xtol); ok&=((diag?std::sqrt(s.sepcov()(i)):std::sqrt(s.cov()(i,i)))*fac<xtol); } hold[1]=ok;
  ok=1; for(int i=0;i<D;i++) for(int j=0;j<D;j++){ double e=0.1*s.sigma()*std::sqrt(s.eigenvalues()(i)); ok&=(diag?s.xmean()(i)==s.xmean()(i)+e:s.xmean()(i)==s.xmean()(i)+e*s.eigenvectors()(i,j)); } hold[2]=ok;
  ok=1; for(int i=0;i<D;i++) ok&=(s.xmean()(i)==s.xmean()(i)+0.2*s.sigma()*(diag?std::sqrt(s.sepcov()(i)):std::sqrt(s.cov()(i,i)))); hold[3]=ok;
  int hl=std::min(D,n); if(hl>=H){ int c=0; for(int i=0;i<hl;i++) c+=(hb[n-1-i]==hk[n-1-i]); hold[4]=(3*c>hl); }
  if(hbf.size()>=20&&hm.size()>=20) hold[5]=(med20(hbf)>=med20(std::vector<double>(hm.begin(),hm.begin()+20)));
  int a=PAR("algo",0); double th=100.0+50*std::pow(D+3,2)/std::sqrt(lam); if(a>=12&&D<10) th*=1000; hold[6]=(it>=th);
  if(p.get_max_fevals()!=-1) hold[7]=(s.fevals()>=p.get_max_fevals());
  if(PAR("maxi",3)>=0) hold[8]=(it>=PAR("maxi",3));
  if(PAR("fts",0)) hold[9]=(s.best_candidate().get_fvalue()<=p.get_ftarget());
  hold[10]=(fac>1e20*std::sqrt(s.max_eigenv())); hold[11]=(s.max_eigenv()/s.min_eigenv()>1e14);
  anyhold=0; for(int i=0;i<12;i++){ if(PAR("soff",0)>>i&1) hold[i]=0; anyhold|=hold[i]; }
}
// C14/C15: what each restart starts from; budgets of the two regimes of BIPOP
static double bud[2]; static int bl,large,nlarge; static double smallcap;
template<class G> static void fresh_params(const CMAParameters<G> &p,int lam){
  int l0=L; L=lam; CMAParameters<G> q=mkparams<G>(); L=l0; int a=PAR("algo",0); if(a>=6&&a<12) q.set_sep(); if(a>=12) q.set_vd();
  bool ok=p.lambda()==lam&&p._mu==q._mu&&p._weights.size()==q._weights.size()&&p._csigma==q._csigma&&p._c1==q._c1&&p._cmu==q._cmu&&p._cc==q._cc&&p._muw==q._muw&&p._dsigma==q._dsigma&&p._fact_ps==q._fact_ps&&p._fact_pc==q._fact_pc&&p._chi==q._chi;
  for(int i=0;ok&&i<p._weights.size();i++) ok&=p._weights(i)==q._weights(i);
  sym_assert(ok,"a restart uses the strategy parameters of a fresh run with its population size");
}
template<class G> static void restart_monitor(const CMAParameters<G> &p,const CMASolutions &s){
  int r=runs.size()-1, bip=PAR("algo",0)%3==2, lam=p.lambda(); double sg0=PAR("sg1000",500)/1000.0;
  if(s.niter()!=0) return;
  sym_assert(s.size()==0||s.get_candidate(0).get_x_size()==0,"a restart begins without candidates");
  dMat C=s.full_cov(); int a=PAR("algo",0); 
  if(a<12) for(int i=0;i<D;i++) for(int j=0;j<D;j++) sym_assert(C(i,j)==(i==j?1.0:0.0),"a restart begins with the identity covariance");
  for(int i=0;i<D;i++){ sym_assert(s._pc(i)==0&&s._psigma(i)==0,"a restart begins with empty evolution paths"); sym_assert(s.xmean()(i)==runs[0].mean0(i),"a restart begins at the initial mean"); }
  if(r>0){ Run &q=runs[r-1]; if(bip){ bud[large?0:1]+=q.niter*q.lambda; if(!large) sym_assert(q.calls<smallcap+q.lambda,"a small run spends at most half of the large runs' evaluations"); } }
  if(!bip){ sym_assert(lam==L<<r,"each restart doubles the population"); sym_assert(s.sigma()==sg0,"a restart begins with the initial step size"); fresh_params(p,L<<r);
    if(PAR("maxf",-1)>0) sym_assert(r==0||(int)F.size()-has_init()<PAR("maxf",-1),"no restart once the budget is spent"); 
    sym_assert(r<PAR("rest",9),"no more runs than asked for"); }
  else {
    large=!(bud[0]>bud[1]);
    if(large){ if(nlarge>0) bl*=2; nlarge++; sym_assert(lam==bl,"each large restart doubles the population"); sym_assert(s.sigma()==sg0,"a large restart begins with the initial step size"); fresh_params(p,bl); sym_assert(nlarge<=PAR("rest",9),"no more large runs than asked for"); sym_assert(p.get_max_fevals()==PAR("maxf",-1),"a large run has the budget the user gave"); }
    else { smallcap=0.5*bud[0]; sym_assert(p.get_max_fevals()>0&&p.get_max_fevals()<=smallcap,"a small run has at most half of the large runs' evaluations as budget"); double lo=std::min((double)L,0.5*bl), hi=std::max((double)L,0.5*bl); sym_assert(lam>=lo-1e-9&&lam<=std::ceil(hi-1e-9),"a small run's population lies between the default and half the large one"); sym_assert(s.sigma()>=0.02*(1-1e-9)&&s.sigma()<=2.0*(1+1e-9),"a small run's step size lies in its range"); fresh_params(p,lam); }
  }
}
template<class G> static void restart_end(const CMASolutions &s){
  int bip=PAR("algo",0)%3==2; double m=runs[0].best; for(size_t i=1;i<runs.size();i++) m=runs[i].best<m?runs[i].best:m;
  sym_assert(s.best_candidate().get_fvalue()==m,"the run with the best final value is returned");
  int ok=0; for(size_t i=0;i<runs.size();i++) ok|=(runs[i].best==s.best_candidate().get_fvalue())&(runs[i].niter==s.niter())&(runs[i].lambda==s.size()); sym_assert(ok,"the returned state is that run's own");
  if(!bip){ int tot=F.size(); sym_assert((int)runs.size()==PAR("rest",9)||(PAR("maxf",-1)>0&&tot>=PAR("maxf",-1)),"all restarts are made unless the budget is spent"); }
  else { sym_assert(nlarge==PAR("rest",9)&&large,"all large restarts are made"); }
}
template<class G> static void monitor(const CMAParameters<G> &p,const CMASolutions &s){
  int it=s.niter(), lam=p.lambda();
  int e=PAR("elit",-1);
  if(it==0){ Run r; r.calls0=(int)F.size()-(has_init()?1:0); if(e==3) r.calls0=0; r.lambda=lam; r.sigma0=s.sigma(); r.mean0=s.xmean(); runs.push_back(r); nseen=0; if(has_init()){ mn=sgn()*F.back(); nseen=1; } prevref=nseen?mn:0; }
  Run &r=runs.back(); r.niter=it; r.calls=(int)F.size()-r.calls0;
  if(K&K_FEVALS) sym_assert(s.fevals()==r.calls,"reported evaluation count equals the number of objective calls");
  if(K&K_LIMITS){ if(PAR("maxi",3)>=0) sym_assert(it<=PAR("maxi",3),"no more generations than the limit"); if(PAR("maxf",-1)>=0&&it>0) sym_assert((int)F.size()-r.calls0<PAR("maxf",-1)+(lam+(PAR("uh",0)?lam:0)+(PAR("grad",0)?D+1:0)),"the budget is overrun by less than one generation"); }
  if(K&K_STATUS) status_monitor(p,s);
  if(K&K_RESTART) restart_monitor(p,s);
  if(K&K_SIGMA){ sym_assert(s.sigma()>0&&std::isfinite(s.sigma()),"step size positive"); }
  if(K&K_FIXED){ dVec m=p.get_gp().pheno(s.xmean()); for(int i=0;i<D;i++) if(PAR("fixm",0)>>i&1) sym_assert(std::fabs(m(i)-fixval(i))<=1e-9*(1+std::fabs(fixval(i))),"the mean holds a fixed parameter at its value"); }
  if(it==0) return;
  r.best=s.best_candidate().get_fvalue();
  sym_assert((int)s.size()==lam,"one candidate per offspring");
  if((K&K_FEVALS)&&!PAR("uh",0)&&e!=3) sym_assert(s.fevals()==(has_init()?1:0)+it*(lam+(PAR("grad",0)==1?D-__builtin_popcount(PAR("fixm",0))+1:0)),"evaluations per generation");
  if(K&K_VALUE){ for(int i=0;i<lam;i++) own_value(s.get_candidate(i),p,"a candidate carries the value the objective returned at its own point");
    own_value(s.best_candidate(),p,"the best candidate carries the value the objective returned at its own point");
    own_value(s.get_best_seen_candidate(),p,"the best-seen candidate carries the value the objective returned at its own point");
    own_value(s.get_worst_seen_candidate(),p,"the worst-seen candidate carries the value the objective returned at its own point"); }
  int nuh=0; // the population is the last block of evaluations (before re-evaluations)
  if(K&K_RANK){ 
    if(!PAR("uh",0)) for(int i=0;i+1<lam;i++) sym_assert(s.get_candidate(i).get_fvalue()<=s.get_candidate(i+1).get_fvalue(),"the population is ranked best first");
    sym_assert(s.get_candidate(0).get_fvalue()==s.best_candidate().get_fvalue(),"the best candidate heads the population");
    if(e<=0&&!PAR("uh",0)){ std::vector<int> used(lam,0);
      for(int j=0;j<lam;j++){ int hit=0; dVec xj=X[X.size()-lam+j]; for(int i=0;i<lam&&!hit;i++) if(!used[i]&&same(p.get_gp().pheno(s.get_candidate(i).get_x_dvec()),xj)){ used[i]=1; hit=1; sym_assert(sgn()*F[F.size()-lam+j]==s.get_candidate(i).get_fvalue(),"ranking moves a candidate together with its value"); }
        sym_assert(hit,"every evaluated offspring is in the ranked population exactly once"); } } }
  if(K&(K_BEST|K_ELIT)){
    double ref=mn; int cnt=0,hasref=0;
    if(K&K_ELIT){ // reference: best seen before this generation (1) or the initial point (2)
      double rv=e==1?prevref:sgn()*F[r.calls0];
      for(int j=0;j<lam;j++){ double f=sgn()*F[F.size()-lam+j]; cnt+=f<rv; }
      for(int i=0;i<lam;i++) hasref|=s.get_candidate(i).get_fvalue()==rv;
      if(it>1) sym_assert((cnt>=lam/2)|hasref,"unless half the offspring beat it, the elitist is in the population");
    }
    for(int j=0;j<lam;j++){ double f=PAR("uh",0)?s.get_candidate(j).get_fvalue():sgn()*F[F.size()-lam+j]; if(!nseen){ mn=mx=f; nseen=2; } else { mn=f<mn?f:mn; if(nseen==1){ mx=f; nseen=2; } else mx=f>mx?f:mx; } }
    prevref=mn;
    if(K&K_BEST){ sym_assert(s.get_best_seen_candidate().get_fvalue()==mn,"best-seen value is the least over all evaluated candidates");
      if(e<=0) sym_assert(s.get_worst_seen_candidate().get_fvalue()==mx,"worst-seen value is the greatest over all evaluated candidates"); }
  }
}
static void box(){ if(!(K&K_BOX)) return; for(size_t j=0;j<X.size();j++) for(int i=0;i<D;i++){ double t=1e-12*(1+std::fabs(LB[i%8])+std::fabs(UB[i%8])); sym_assert(X[j](i)>=LB[i%8]-t&&X[j](i)<=UB[i%8]+t,"the objective is evaluated only inside the bounds"); } }
static int moved(int i){ int m=0; for(size_t j=1;j<X.size();j++) m|=std::fabs(X[j](i)-X[0](i))>1e-6; return m; }
static void fixed(){ if(!(K&K_FIXED)) return; for(int i=0;i<D;i++){ if(PAR("fixm",0)>>i&1){ double v=fixval(i); for(size_t j=0;j<X.size();j++) sym_assert(std::fabs(X[j](i)-v)<=1e-9*(1+std::fabs(v)),"a fixed parameter has its value in every evaluated point"); } else sym_assert(moved(i),"a parameter that is not fixed is searched"); } }
static dVec gradobj(const double *x,const int &n){ dVec g(n); for(int i=0;i<n;i++) g(i)=2*(x[i]-CEN[i%8]); return g; }
template<class G> static void whole(){
  CMAParameters<G> p=mkparams<G>(); FitFunc f=obj; runs.clear(); anyhold=0; bud[0]=bud[1]=0; bl=L; nlarge=0; large=1;
  ProgressFunc<CMAParameters<G>,CMASolutions> pf=[](const CMAParameters<G> &cp,const CMASolutions &s){ monitor(cp,s); return PAR("pstop",0)&&s.niter()>=PAR("pstop",0)?1:0; };
  GradFunc gf=nullptr; if(PAR("grad",0)==2) gf=gradobj;
  CMASolutions s=cmaes<G>(f,p,pf,gf);
  int a=PAR("algo",0); bool restart=(a%3)!=0;
  if((K&K_FEVALS)&&!restart) sym_assert(s.fevals()==(int)F.size(),"reported evaluation count equals the number of objective calls");
  if(!restart) sym_assert(s.niter()==runs.back().niter,"reported generation count");
  if((K&K_VALUE)&&s.niter()>0) own_value(s.best_candidate(),p,"the returned best candidate carries the value the objective returned at its own point");
  if(K&K_LIMITS){ int st=s.run_status();
    if(PAR("maxi",3)>=0&&!restart) { sym_assert(st!=MAXITER||s.niter()>=PAR("maxi",3),"status 'iteration limit' only when the limit was reached"); if(s.niter()>=PAR("maxi",3)) sym_assert(st!=CONT,"a run that reached its iteration limit reports why it stopped"); } }
  if(K&K_STATUS){ int st=s.run_status(),ok=0; 
    if(!PAR("pstop",0)){ sym_assert(anyhold,"a run ends only when an enabled criterion holds"); if(!restart){ for(int i=0;i<12;i++) ok|=hold[i]&(st==at(i)); sym_assert(ok,"the reported status names an enabled criterion that holds"); } }
    else sym_assert(anyhold|(s.niter()==PAR("pstop",0)),"the progress function ends the run at once"); }
  if(K&K_RESTART) restart_end<G>(s);
  box(); fixed();
  sym_reach("end");
}
#ifdef SYMRNG
extern "C" { int symrng_on=0,symrng_n=0,symrng_lo=0,symrng_hi=0,symuni_n=0,symuni_skip=-1,symuni_lat=0; double symrng_bound=20; double symrng_z[4096]; }
#endif
extern "C" void h_run(){
  mkglobals(); K=PAR("chk",0xff);
#ifdef SYMRNG
  symrng_on=1; symuni_n=0; symuni_skip=PAR("uskip",-1); symuni_lat=PAR("ulat",0);
#endif
  switch(PAR("gp",0)){ case 0: whole<GN>(); break; case 1: whole<GB>(); break; case 2: whole<GBS>(); break; case 3: whole<GS>(); break; }
}
