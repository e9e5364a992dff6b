// The stopping decision of the real optimiser on an arbitrary (symbolic) reported state.
#include "run.h"
static const int CR[12]={TOLHISTFUN,TOLX,NOEFFECTAXIS,NOEFFECTCOOR,EQUALFUNVALS,STAGNATION,AUTOMAXITER,MAXFEVALS,MAXITER,FTARGET,TOLUPSIGMA,CONDITIONCOV};
typedef std::vector<double> V;
static double med(V v){ std::sort(v.begin(),v.end()); int n=v.size(); return n%2?v[n/2]:(v[n/2-1]+v[n/2])/2; }
static double fobj(const double *,const int &){ return 0; }
static int S(int b){ return PAR("s",0)>>b&1; }
template<class U> static void stop1(){
  int a=PAR("algo",0); CMAParameters<GN> p=mkparams<GN>(); if(a==6||a==9) p.set_sep(); if(a==12) p.set_vd(); bool diag=a>=6;
  if(S(0)) p.set_max_iter(sym_int("max_iter",-1,1000000)); if(S(1)) p.set_max_fevals(sym_int("max_fevals",-1,1000000)); if(S(2)) p.set_ftarget(sym_range("ftarget",-FM,FM));
  if(S(3)) p.set_ftolerance(sym_range("ftol",0,1)); if(S(4)) p.set_xtolerance(sym_range("xtol",0,1));
  int off=PAR("off",-1); if(off==99) off=sym_choose("switched off",12); if(off>=0) p.set_stopping_criteria(CR[off],false);
  FitFunc f=fobj; typedef ESOptimizer<CMAStrategy<U,GN>,CMAParameters<GN>> O; O o(f,p); o.inc_iter(); CMASolutions &s=o._solutions; int n=D;
  s._niter=S(5)?sym_int("niter",1,2000000):PAR("it",25); s._nevals=S(6)?sym_int("nevals",0,2000000):100; 
  double sg=S(7)?sym_range("sigma",PAR("sbig",0)?0:1e-15,PAR("sbig",0)?1e24:10):PAR("tiny",0)?1e-19:0.4; s._sigma=sg;
  V pc(n,0.3),c(n,1.0),ev(n,1.0); for(int i=0;i<n;i++){ if(PAR("small",0)) pc[i]=c[i]=1e-30; if(PAR("small",0)==2) pc[i]=c[i]=1e-40; ev[i]=1+0.5*i; }
  if(S(8)) pc[PAR("i",0)]=sym_range("pc",-1,1); if(S(9)) c[PAR("i",0)]=sym_range("c",1e-40,4);
  for(int i=0;i<n;i++){ s._pc(i)=pc[i]; if(diag) s._sepcov(i)=c[i]; else s._cov(i,i)=c[i]; s._xmean(i)=0.75*i-0.3; }
  dVec le(n); dMat lv=dMat::Identity(n,n); for(int i=0;i<n;i++) le(i)=ev[i]; if(PAR("rot",0)) for(int i=0;i<n;i++) for(int j=0;j<n;j++) lv(i,j)=0.1*(i+1)+0.2*j; s.update_eigenv(le,lv);
  double mxe=ev[n-1],mne=1; if(S(10)){ mxe=s._max_eigenv=sym_range("max eigenvalue",1e-10,1e20); } if(S(11)){ mne=s._min_eigenv=sym_range("min eigenvalue",1e-10,1e6); } if(!S(10)&&!S(11)){ mxe=s._max_eigenv; mne=s._min_eigenv; }
  // histories, oldest first
  int H=s._max_hist, hn=PAR("hn",H), hs=PAR("hs",0), H0=10+(30*n)/L; V hb,hk,bf,mf; dVec x=dVec::Zero(n);
  for(int i=0;i<hn;i++){ double b=PAR("flat",0)?1.0:5.0-0.01*i; if(hs>>(hn-1-i)&1&&hn-1-i<31) b=sym_range("best",-FM,FM); double k=PAR("keq",0)>i?b:b+0.5; if(PAR("ks",0)>>(hn-1-i)&1&&hn-1-i<31) k=sym_range("kth",-FM,FM); hb.push_back(b); hk.push_back(k); s._best_candidates_hist.push_back(Candidate(b,x)); s._k_best_candidates_hist.push_back(Candidate(k,x)); }
  int nb=PAR("nb",0),nm=PAR("nm",0); for(int i=0;i<nb;i++){ double v=2.0+0.05*((i*7)%20); if(PAR("bs",0)>>i&1) v=sym_range("b",-10,10); bf.push_back(v); } for(int i=0;i<nm;i++){ double v=PAR("mlow",0)*(i>=20)+2.03+0.05*((i*3)%20); if(PAR("ms",0)>>i&1) v=sym_range("med",-10,10); mf.push_back(v); } s._bfvalues=bf; s._median_fvalues=mf;
  // which criteria hold
  int hold[12]={0}; double ftol=S(3)?p.get_ftolerance():1e-12; ftol=ftol<1e-12?1e-12:ftol; double xtol=S(4)?p.get_xtolerance():1e-12; xtol=xtol<1e-12?1e-12:xtol;
  if(!S(3)&&PAR("ftol",0)) ftol=std::pow(10.0,-PAR("ftol",0)); if(!S(4)&&PAR("xtol",0)) xtol=std::pow(10.0,-PAR("xtol",0));
  int HT=std::min(H,H0); if(hn>=HT){ int ok=1; for(int i=hn-HT;i<hn;i++) for(int j=i+1;j<hn;j++) ok&=(std::fabs(hb[i]-hb[j])<ftol); hold[0]=ok; }
  double fac=sg/0.5; int ok=1; for(int i=0;i<n;i++){ ok&=std::fabs(pc[i])*fac<xtol; ok&=std::sqrt(c[i])*fac<xtol; } hold[1]=ok;
  if(!S(7)){ ok=1; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ volatile double m=s._xmean(i), e=0.1*sg*std::sqrt(ev[i])*(diag?1.0:lv(i,j)), t=m+e; ok&=m==t; } hold[2]=ok; 
    if(!S(9)){ ok=1; for(int i=0;i<n;i++){ volatile double m=s._xmean(i), e=0.2*sg*std::sqrt(c[i]), t=m+e; ok&=m==t; } hold[3]=ok; } }
  int hl=std::min(n,hn); if(hl>=H){ int q=0; for(int i=0;i<hl;i++) q+=hb[hn-1-i]==hk[hn-1-i]; hold[4]=3*q>hl; }
  if(nb>=20&&nm>=20) hold[5]=med(bf)>=med(V(mf.begin(),mf.begin()+20));
  double th=100.0+50*std::pow(n+3,2)/std::sqrt(L); if(a==12&&n<10) th*=1000; hold[6]=s._niter>=th;
  if(S(1)) hold[7]=(p.get_max_fevals()!=-1)&(s._nevals>=p.get_max_fevals()); if(S(0)) hold[8]=(p.get_max_iter()!=-1)&(s._niter>=p.get_max_iter()); else if(PAR("maxi",3)>=0) hold[8]=s._niter>=PAR("maxi",3);
  if(S(2)&&hn) hold[9]=hb[hn-1]<=p.get_ftarget();
  hold[10]=fac>1e20*std::sqrt(mxe); hold[11]=mxe>1e14*mne;
  if(off>=0) hold[off]=0; int any=0; for(int i=0;i<12;i++) any|=hold[i];
  bool r=o.stop(); int st=s._run_status; sym_assert(r==(any!=0),"a run stops exactly when an enabled criterion holds");
  if(any){ int named=0; for(int i=0;i<12;i++) named|=hold[i]&(st==CR[i]); sym_assert(named,"the reported status names an enabled criterion that holds"); sym_reach("stops"); } else { sym_assert(st==CONT,"a run that goes on reports no reason"); sym_reach("goes on"); }
  sym_assert(s.run_status()==st&&!s.status_msg().empty(),"each status has a message"); sym_reach("end");
}
extern "C" void h_stop(){ mkglobals(); switch(PAR("algo",0)){ case 3: case 9: stop1<ACovarianceUpdate>(); break; case 12: stop1<VDCMAUpdate>(); break; default: stop1<CovarianceUpdate>(); } }
