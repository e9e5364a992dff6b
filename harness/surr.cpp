// Surrogate-assisted strategies: the model is any function of the point (solver variables for some points), true values symbolic in a window of calls.
#include "run.h"
#include "surrogatestrategy.h"
#include "ipopcmastrategy.h"
static std::vector<dVec> MX; static std::vector<double> MV; static int plo,phi; static std::vector<std::vector<Candidate>> TR;
static double model(const dVec &x){ // a function of the point
  for(size_t i=0;i<MX.size();i++){ bool eq=true; for(int d=0;d<D;d++) eq&=MX[i](d)==x(d); if(eq) return MV[i]; }
  int k=MX.size(); double v=0; for(int d=0;d<D;d++) v+=(x(d)-CEN[(d+1)%8])*(x(d)-CEN[(d+1)%8])*(1+d); if(k>=plo&&k<phi)v=sym_range("m",-FM,FM); for(double o:MV) sym_assume(v!=o);
  MX.push_back(x); MV.push_back(v); return v; }
static int colof(const dMat &c,const dVec &x,const std::vector<int> &used){ for(int j=0;j<c.cols();j++) if(!used[j]&&same(c.col(j),x)) return j; return -1; }
static bool near(const dVec &a,const dVec &b){ for(int d=0;d<D;d++) if(std::fabs(a(d)-b(d))>1e-9*(1+std::fabs(b(d)))) return false; return true; }
template<class S> struct Acm { enum{v=0}; static int prel(S &){return 0;} static int lp(S &){return 0;} static void set(S &){} };
template<template<class U,class V> class T,class U,class G> struct Acm<ACMSurrogateStrategy<T,U,G>> { typedef ACMSurrogateStrategy<T,U,G> S; enum{v=1}; static int prel(S &s){ return s.get_prelambda(); } static int lp(S &s){ return s.get_lambdaprime(); }
  static void set(S &s){ if(PAR("prel",12)>0) s.set_prelambda(PAR("prel",12)); if(PAR("lp",0)) s.set_lambdaprime(PAR("lp",0)); } };
template<class S,class G> static void go(){
  CMAParameters<G> p=mkparams<G>(); int a=PAR("algo",0); if(a==6||a==9) p.set_sep(); if(a==12) p.set_vd(); FitFunc f=obj; int n=L,l=PAR("l",9),ns=PAR("ns",1),ex=PAR("ex",1); bool acm=Acm<S>::v; MX.clear(); MV.clear(); TR.clear(); plo=PAR("plo",0); phi=plo+PAR("pn",0);
  S st(f,p); if(l>0) st.set_l(l); l=st.get_l(); st.set_nsteps(ns); st.set_exploit(ex); Acm<S>::set(st);
  CSurrFunc tr=[](const std::vector<Candidate> &c,const dMat &){ TR.push_back(c); return 0; }; SurrFunc pr=[](std::vector<Candidate> &c,const dMat &m){ sym_assert(m.size()>0,"the model is given the covariance's inverse root"); for(auto &x:c) x.set_fvalue(model(x.get_x_dvec())); return 0; };
  CSurrFunc tr2=[](const std::vector<Candidate> &c,const dMat &m){ sym_assert(m.size()>0,"the model is given the covariance's inverse root"); TR.push_back(c); return 0; }; st.set_ftrain(tr2); st.set_fpredict(pr);
  std::vector<int> ts; int G_=PAR("gens",5),mu=n/2; std::vector<double> w(mu); double sw=0; for(int t=0;t<mu;t++){ w[t]=std::log(mu+1.0)-std::log(t+1.0); sw+=w[t]; }
  std::vector<dVec> GX; // internal coordinates of each evaluation
  int trained=0;
  for(int g=0;g<G_;g++){
    int base=F.size(),nt=TR.size(); dMat c=st.ask(), ph=p.get_gp().pheno(c); bool full=(int)ts.size()<l||!ex||(!acm&&g%st.get_nsteps()==0); int lp=Acm<S>::lp(st); if(lp<1) lp=1;
    sym_assert(c.cols()==(full||!acm?n:Acm<S>::prel(st)),"as many offspring are sampled as asked for");
    for(int j=0;j<c.cols();j++) if(full) GX.push_back(c.col(j));
    st.eval(c,ph); int k=F.size()-base; CMASolutions &so=st._solutions;
    sym_assert(k==(full?n:acm?lp:0),"the objective is called as often as the surrogate's schedule says"); sym_assert(so.fevals()==(int)F.size(),"the evaluations reported are those made");
    std::vector<int> ev,used(c.cols(),0); // column of each evaluation of this generation
    for(int e=base;e<(int)F.size();e++){ int j=-1; if(full) j=e-base; else for(int t=0;t<c.cols();t++) if(!used[t]&&near(ph.col(t),X[e])){ j=t; break; } sym_assert(j>=0&&near(ph.col(j),X[e]),"the objective is evaluated at sampled points, at most once each"); if(j<0) return; used[j]=1; ev.push_back(j); if(!full) GX.push_back(c.col(j)); }
    for(int e=base;e<(int)F.size();e++){ ts.push_back(e); if((int)ts.size()>l) ts.erase(ts.begin()); }
    for(int x=base;x<(int)F.size();x++) for(int y=base;y<x;y++) sym_assume(F[x]!=F[y]);
    if(!full&&acm){ int b=0; for(int j=1;j<c.cols();j++) if(model(c.col(j))<model(c.col(b))) b=j; sym_assert(used[b],"the offspring the model ranks first is evaluated"); sym_reach("preselect");
      if(k>1){ int bad=0; for(int x=0;x<k;x++) for(int y=0;y<x;y++){ bool lo=sgn()*F[base+x]<sgn()*F[base+y], ml=model(c.col(ev[x]))<model(c.col(ev[y])); bad+=lo!=ml; } sym_assert_close(st.get_test_error(),bad/(k*(k-1)/2.0),1e-9,"the test error is the fraction of evaluated pairs the model orders wrongly"); }
      else sym_assert(st.get_test_error()>=0&&st.get_test_error()<=1,"the test error is a fraction"); }
    st.tell(); sym_assert(so.size()==n,"the population keeps its size");
    std::vector<int> seen(c.cols(),0),o; for(int j=0;j<n;j++){ int t=colof(c,so._candidates.at(j).get_x_dvec(),seen); sym_assert(t>=0,"the ranked population consists of sampled points"); if(t<0) return; seen[t]=1; o.push_back(t); }
    for(int j=0;j<n;j++){ int t=o[j]; double v=so._candidates[j].get_fvalue();
      if(full||acm){ bool isev=false; for(int e=0;e<k;e++) if(ev[e]==t){ isev=true; sym_assert(v==sgn()*F[base+e],"an evaluated candidate carries its true value"); } sym_assert(isev==(j<k),"evaluated candidates are ranked before the others"); if(j&&j<k) sym_assert(so._candidates[j-1].get_fvalue()<=v,"evaluated candidates are ranked by their true values"); if(j>k) sym_assert(model(c.col(o[j-1]))<=model(c.col(t)),"the others are ranked by the model"); }
      else { if(j) sym_assert(model(c.col(o[j-1]))<=model(c.col(t)),"without evaluations the model ranks the population"); sym_assert(nt>0,"the population is ranked only by a model that has been trained"); sym_reach("by model"); } }
    for(int d=0;d<D;d++){ double m=0; for(int t=0;t<mu;t++) m+=w[t]/sw*c(d,o[t]); sym_assert_close(so._xmean(d),m,1e-9,"the new mean averages the best half of this order"); }
    int nn=(int)TR.size()-nt; if((int)ts.size()<l) sym_assert(nn==0,"no model is trained before the training set is complete"); else if(acm||!ex||g%st.get_nsteps()==0){ sym_assert(nn==1,"the model is trained at its due time"); }
    for(int q=nt;q<(int)TR.size();q++){ sym_reach("trained"); sym_assert((int)TR[q].size()==l,"the training set has its size"); if((int)TR[q].size()!=l) return;
      std::vector<int> us(l,0); for(int j=0;j<l;j++){ int h=-1; for(int t=0;t<l&&h<0;t++) if(!us[t]&&same(TR[q][j].get_x_dvec(),GX[ts[t]])) h=t; sym_assert(h>=0,"the training set holds the latest evaluated points"); if(h<0) return; us[h]=1; sym_assert(TR[q][j].get_fvalue()==sgn()*F[ts[h]],"the model is trained on true values"); } }
    st.inc_iter();
  }
  if(!ex){ // the model is only watched: same search as without it
    std::vector<dVec> A=X; std::vector<double> B=F; CMASolutions s1=st._solutions; reset_records(); replay=B; replaying=1; CMAParameters<G> p2=mkparams<G>(); if(a==6||a==9) p2.set_sep(); if(a==12) p2.set_vd(); 
    typedef typename S::Plain Pl; Pl pl(f,p2); for(int g=0;g<G_;g++){ dMat c=pl.ask(), ph=p2.get_gp().pheno(c); pl.eval(c,ph); pl.tell(); pl.inc_iter(); }
    sym_assert(X.size()==A.size(),"without exploitation the search is that of the plain strategy"); for(size_t i=0;i<X.size()&&i<A.size();i++) sym_assert(same(X[i],A[i]),"without exploitation the search is that of the plain strategy"); sym_assert(s1._sigma==pl._solutions._sigma&&same(s1._xmean,pl._solutions._xmean),"without exploitation the search is that of the plain strategy"); sym_reach("plain"); }
}
template<class U,class G> struct Si : public SimpleSurrogateStrategy<CMAStrategy,U,G> { typedef CMAStrategy<U,G> Plain; using SimpleSurrogateStrategy<CMAStrategy,U,G>::SimpleSurrogateStrategy; };
template<class U,class G> struct Ac : public ACMSurrogateStrategy<CMAStrategy,U,G> { typedef CMAStrategy<U,G> Plain; using ACMSurrogateStrategy<CMAStrategy,U,G>::ACMSurrogateStrategy; };
template<class U,class G> struct Acm<Ac<U,G>> : public Acm<ACMSurrogateStrategy<CMAStrategy,U,G>> {};
// the library's own loop
template<class S,class G> static void loop(){
  CMAParameters<G> p=mkparams<G>(); p.set_max_iter(PAR("gens",5)); int a=PAR("algo",0); if(a==6||a==9) p.set_sep(); if(a==12) p.set_vd(); FitFunc f=obj; int n=L,l=PAR("l",9),ex=PAR("ex",1); bool acm=Acm<S>::v; MX.clear(); MV.clear(); TR.clear(); plo=PAR("plo",0); phi=plo+PAR("pn",0); S st(f,p); if(l>0) st.set_l(l); l=st.get_l(); int ns=PAR("ns",1); st.set_nsteps(ns); st.set_exploit(ex); Acm<S>::set(st);
  CSurrFunc tr=[](const std::vector<Candidate> &c,const dMat &){ TR.push_back(c); return 0; }; SurrFunc pr=[](std::vector<Candidate> &c,const dMat &){ for(auto &x:c) x.set_fvalue(model(x.get_x_dvec())); return 0; }; st.set_ftrain(tr); st.set_fpredict(pr);
  int last=0,lp=Acm<S>::lp(st); if(lp<1) lp=1;
  ProgressFunc<CMAParameters<G>,CMASolutions> pf=[&](const CMAParameters<G> &cp,const CMASolutions &so){ if(so.niter()==0) return 0; int g=so.niter()-1,k=(int)F.size()-last; bool full=last<l||!ex||(!acm&&g%ns==0);
    sym_assert(k==(full?n:acm?lp:0),"the objective is called as often as the surrogate's schedule says"); sym_assert(so.fevals()==(int)F.size(),"the evaluations reported are those made"); sym_assert(so.size()==n,"the population keeps its size");
    if(k){ for(int x=last;x<(int)F.size();x++) for(int y=last;y<x;y++) sym_assume(F[x]!=F[y]); double b=sgn()*F[last]; int e=last; for(int i=last+1;i<(int)F.size();i++) if(sgn()*F[i]<b){ b=sgn()*F[i]; e=i; } sym_assert(so.best_candidate().get_fvalue()==b,"the best candidate is the best of the points evaluated"); sym_assert(near(so.best_candidate().get_x_pheno_dvec(cp),X[e]),"the best candidate is the best of the points evaluated"); }
    last=F.size(); return 0; };
  st.set_progress_func(pf); st.optimize(); sym_reach("end"); 
  for(auto &t:TR) for(auto &c:t){ bool ok=false; dVec x=p.get_gp().pheno(c.get_x_dvec()); for(size_t i=0;i<F.size();i++) if(near(x,X[i])){ ok=true; sym_assert(c.get_fvalue()==sgn()*F[i],"the model is trained on true values"); break; } sym_assert(ok,"the training set holds evaluated points"); }
}
template<class U,class G> static void kind(){ if(PAR("loop",0)){ if(PAR("acm",1)) loop<Ac<U,G>,G>(); else loop<Si<U,G>,G>(); return; } if(PAR("acm",1)) go<Ac<U,G>,G>(); else go<Si<U,G>,G>(); }
template<class G> static void flav(){ switch(PAR("algo",0)){ case 0: case 6: kind<CovarianceUpdate,G>(); break; case 3: case 9: kind<ACovarianceUpdate,G>(); break; case 12: kind<VDCMAUpdate,G>(); break; } }
extern "C" void h_surr(){ mkglobals(); switch(PAR("gp",0)){ case 0: flav<GN>(); break; case 1: flav<GB>(); break; case 2: flav<GBS>(); break; case 3: flav<GS>(); break; } sym_reach("end"); }
