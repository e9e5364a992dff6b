// Whole runs of the real optimiser through its public interface. The objective's values are solver
// variables inside a window of calls and concrete outside it; sampled points are concrete (fixed seed).
#include "sym.h"
#include "cmaes.h"
#include <cmath>
#include <algorithm>
#include <vector>
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> GN; typedef GenoPheno<pwqBoundStrategy> GB;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> GS; typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> GBS;
#define PAR(n,d) static_cast<int>(sym_param(n,d))
static int D,L; static std::vector<dVec> X; static std::vector<double> F;
static int wlo,whi,co; static double FM;
static const double CEN[8]={0.31,-1.27,2.05,0.77,-0.4,1.9,-2.2,0.05};
static double objc(const double *x,int n,int k){
  double s=0; 
  switch(co){
    case 1: return 0.0;                                            // flat
    case 2: return 100.0-0.37*k;                                   // every call better than the last
    case 3: for(int i=0;i<n;i++) s+=(x[i]-CEN[i%8])*(x[i]-CEN[i%8]); return std::floor(s*2.0); // plateaus
    case 4: return 0.5*k-100.0;                                    // every call worse than the last
    case 5: for(int i=0;i<n;i++) s+=(x[i]-CEN[i%8])*(x[i]-CEN[i%8])*(i==0?1e5:1); return s;   // ill-conditioned
    case 7: if(k%5==2) return HUGE_VAL; for(int i=0;i<n;i++) s+=std::fabs(x[i]-CEN[i%8]); return s;  // infeasible points: infinite
    case 8: for(int i=0;i<n;i++) s+=(x[i]-CEN[i%8])*(x[i]-CEN[i%8]); return 1e9*s-3e10;       // large magnitudes, both signs
    case 9: for(int i=0;i<n;i++) s+=std::fabs(x[i]-CEN[i%8]); return -1e-7/(1e-3+s);            // small magnitudes, negative
    case 6: return 1e-3*((k*7)%5);
    default: for(int i=0;i<n;i++) s+=(1+0.5*i)*(x[i]-CEN[i%8])*(x[i]-CEN[i%8]); return s;
  }
}
// values of a run can be replayed (same values, negated, or order-equivalent ones) in a second run
static std::vector<double> replay; static int replaying=0; 
static double obj(const double *x,const int &n){
  int k=F.size(); double f;
  if(replaying&&k<(int)replay.size()) f=replay[k];
  else f=(k>=wlo&&k<whi)?sym_range("f",-FM,FM):objc(x,n,k);
  X.push_back(Eigen::Map<dVec>(const_cast<double*>(x),n)); F.push_back(f); return f;
}
static double LB[128],UB[128];
static const double BLO[4][8]={{-1.0,-2.5,0.0,1.0,-30.0,0.1,-5,-5},{7.0,-3.0,1e-3,-2e5,40.0,-9.0,-1e-2,2.0},{-1e6,-1e4,-1e5,-1e6,-1e3,-1e6,-1e7,-1e6},{0.5,-0.75,100.0,-1e-3,0.0,-80.0,3.0,-0.1}};
static const double BHI[4][8]={{2.0,-0.5,10.0,300.0,5.0,0.3,5,5},{7.5,-1.0,3e-3,3e5,41.0,-2.0,1e-2,50.0},{1e6,2e4,1e5,5e6,1e4,1e6,1e7,1e8},{0.75,-0.25,100.5,1e-3,1.0,-79.0,3.0625,0.1}};
static void reset_records(){ X.clear(); F.clear(); }
static void mkglobals(){ D=PAR("dim",2); L=PAR("lam",4); wlo=PAR("wlo",0); whi=wlo+PAR("wn",0); co=PAR("co",0); FM=PAR("fmx",0)?std::pow(10.0,PAR("fmx",0)):PAR("fm",1000); for(int i=0;i<128;i++){ LB[i]=BLO[PAR("bset",0)][i%8]; UB[i]=BHI[PAR("bset",0)][i%8]; } reset_records(); replaying=0; replay.clear(); }
static TransFunc tgeno=[](const double *e,double *i,const int &n){ for(int k=0;k<n;k++) i[k]=(e[k]-0.125)/(k%2?2.0:-0.5); }, tpheno=[](const double *i,double *e,const int &n){ for(int k=0;k<n;k++) e[k]=i[k]*(k%2?2.0:-0.5)+0.125; }; // tf: a custom affine transform
template<class G> struct MkGP { static G make(){ return PAR("tf",0)?G(tgeno,tpheno):G(); } };
template<> struct MkGP<GB> { static GB make(){ return PAR("tf",0)?GB(tgeno,tpheno,LB,UB,D):GB(LB,UB,D); } };
template<> struct MkGP<GS> { static GS make(){ dVec sc(D),sh(D); for(int i=0;i<D;i++){ sc(i)=0.5+i; sh(i)=0.25*i-0.3; } return GS(sc,sh); } };
template<> struct MkGP<GBS> { static GBS make(){ return GBS(LB,UB,D); } };
static double x0of(int i){ if(PAR("gp",0)==1||PAR("gp",0)==2) return LB[i%8]+(UB[i%8]-LB[i%8])*(PAR("xp",0)?PAR("xp",0)/1000.0:0.35+0.05*(i%10)); return 0.6-0.4*i; }
static double fixval(int i){ if(PAR("gp",0)==1||PAR("gp",0)==2) return LB[i%8]+(UB[i%8]-LB[i%8])*0.6; return 0.9-0.3*i; }
template<class G> static CMAParameters<G> mkparams(const std::vector<double> &x0,double sg){
  CMAParameters<G> p(x0,sg,L,PAR("seed",1234),MkGP<G>::make());
  p.set_algo(PAR("algo",0));
  if(PAR("maxi",3)>=0) p.set_max_iter(PAR("maxi",3)); 
  if(PAR("maxf",-1)>=0) p.set_max_fevals(PAR("maxf",-1));
  if(PAR("elit",-1)>=0) p.set_elitism(PAR("elit",-1));
  if(PAR("ifv",0)) p.set_initial_fvalue(true);
  if(PAR("uh",0)) p.set_uh(true);
  if(PAR("grad",0)) p.set_gradient(true);
  if(PAR("edm",0)) p.set_edm(true);
  if(PAR("maximize",0)) p.set_maximize(true);
  if(PAR("tpa",-1)>=0) p.set_tpa(PAR("tpa",-1));
  if(PAR("lazy",0)) p.set_lazy_update(true);
  if(PAR("mhist",0)) p.set_max_hist(PAR("mhist",0));
  if(PAR("mt",0)) p.set_mt_feval(true);
  if(PAR("noisy",0)) p.set_noisy();
  if(PAR("ftol",0)) p.set_ftolerance(std::pow(10.0,-PAR("ftol",0)));
  if(PAR("xtol",0)) p.set_xtolerance(std::pow(10.0,-PAR("xtol",0)));
  if(PAR("fts",0)) p.set_ftarget(sym_range("ftarget",-FM,FM));
  if(PAR("rest",-1)>=0) p.set_restarts(PAR("rest",-1));
  int so=PAR("soff",0); static const int CR[12]={TOLHISTFUN,TOLX,NOEFFECTAXIS,NOEFFECTCOOR,EQUALFUNVALS,STAGNATION,AUTOMAXITER,MAXFEVALS,MAXITER,FTARGET,TOLUPSIGMA,CONDITIONCOV};
  for(int i=0;i<12;i++) if(so>>i&1) p.set_stopping_criteria(CR[i],false);
  for(int i=0;i<D;i++){ if(PAR("fixu",0)>>i&1){ p.set_fixed_p(i,7.5); p.unset_fixed_p(i); } if(PAR("fixm",0)>>i&1){ if(PAR("fixt",0)) p.set_fixed_p(i,fixval(i)+0.01); p.set_fixed_p(i,fixval(i)); } }
  p.set_quiet(true);
  return p;
}
template<class G> static CMAParameters<G> mkparams(){
  std::vector<double> x0(D); for(int i=0;i<D;i++) x0[i]=x0of(i);
  return mkparams<G>(x0,PAR("sg1000",500)/1000.0);
}
static int nlambda(){ return PAR("noisy",0)?5*L:L; }
// objective calls per generation besides the population, and before the first one
static int has_init(){ int e=PAR("elit",-1); return PAR("ifv",0)||e==1||e==2; }
static bool same(const dVec &a,const dVec &b){ if(a.size()!=b.size()) return false; for(int i=0;i<a.size();i++) if(!(std::fabs(a(i)-b(i))<=1e-9*(1+std::fabs(a(i))))) return false; return true; }
static double sgn(){ return PAR("maximize",0)?-1.0:1.0; }
