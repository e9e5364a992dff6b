// Error statistics: reduced problems, profile likelihood, confidence bounds, covariance accessors.
#include "run.h"
#define contour contour_hdr // contour.h defines a non-inline operator for it; the library has its own
#include "errstats.h"
#undef contour
static std::vector<int> HK; static std::vector<double> HV; static int boxed,holding;
static void chkarg(const double *x,const int &n,int d){
  sym_assert(n==d,"the objective is called with all parameters"); sym_reach("call");
  if(boxed) for(int i=0;i<n;i++){ double t=1e-9*(1+std::fabs(LB[i%8])+std::fabs(UB[i%8])); sym_assert((x[i]>=LB[i%8]-t)&(x[i]<=UB[i%8]+t),"the objective is evaluated within the bounds"); }
  if(holding) for(size_t i=0;i<HK.size();i++) sym_assert(std::fabs(x[HK[i]]-HV[i])<=1e-7*(1+std::fabs(HV[i])),"a held parameter has its value in every evaluated point");
}
static double eobj(const double *x,const int &n){ chkarg(x,n,D); return obj(x,n); }
static double interior(const char *nm,int i,int g,int pheno){
  if(g==0||g==3) return sym_range(nm,-5,5);
  double l=LB[i%8],u=UB[i%8];
  if(pheno) return sym_range(nm,l+0.15*(u-l),u-0.15*(u-l));
  return g==1?sym_range(nm,l-0.2*(u-l),u+0.2*(u-l)):sym_range(nm,-1,12);
}
// optimize_vpk / optimize_pk, the inner run cut to one generation by a target that is met at once
template<class G> static void vpk(){
  int g=PAR("gp",0),phv=PAR("phv",1),phx=PAR("phx",1),sv=PAR("sv",0); boxed=g==1||g==2; holding=0;
  CMAParameters<G> p=mkparams<G>(); FitFunc f=eobj; int lo=wlo,hi=whi; wlo=whi=0; CMASolutions s=cmaes<G>(f,p); p.set_ftarget(1e9);
  int km=PAR("km",1); for(int i=0;i<D;i++) if(km>>i&1) HK.push_back(i); if(PAR("rev",0)) std::reverse(HK.begin(),HK.end());
  std::vector<double> vk; dVec full=dVec::Zero(D); if(boxed&&phv) for(int i=0;i<D;i++) full(i)=x0of(i);
  for(size_t i=0;i<HK.size();i++){ int k=HK[i]; double v; if(sv==(int)i+1) v=interior("v",k,g,phv); else { v=boxed?LB[k%8]+(UB[k%8]-LB[k%8])*(0.45+0.05*i):0.7-0.3*k; if(g==2&&!phv) v=3.5+k; } vk.push_back(v); full(k)=v; }
  dVec held=phv?full:p.get_gp().pheno(full); for(int k:HK) HV.push_back(held(k));
  reset_records(); wlo=lo; whi=hi; holding=1;
  dVec x0(D); for(int i=0;i<D;i++) x0(i)=x0of(i); if(!phx) x0=p.get_gp().geno(x0);
  CMASolutions r=PAR("one",0)?errstats<G>::optimize_pk(f,p,s,HK[0],vk[0],x0,phx,phv):errstats<G>::optimize_vpk(f,p,s,HK,vk,x0,phx,phv);
  int nf=F.size(); sym_assert(r.fevals()==nf,"the evaluations reported are those made"); bool all=(int)HK.size()==D; sym_assert(all?nf==1:nf>=1+L,"the reduced problem is searched");
  sym_assert(r._candidates.size()==1&&r.best_candidate().get_x_size()==(unsigned)D,"the result is one point with all parameters");
  dVec b=r.best_candidate().get_x_pheno_dvec(p); double fv=r.best_candidate().get_fvalue();
  for(size_t i=0;i<HK.size();i++) sym_assert_close(b(HK[i]),HV[i],1e-6,"a held parameter has its value in the result");
  sym_assert(r._candidates.at(0).get_fvalue()==fv,"the candidate and the best candidate agree");
  if(all){ sym_assert(fv==F[0],"the result carries the value at the held point"); sym_reach("end"); return; }
  int n0=nf-L; for(int k=n0;k<nf;k++) sym_assert(fv<=F[k],"the result is no worse than any point of the last generation");
  bool here=false; for(int k=n0;k<nf;k++) if(fv==F[k]){ bool eq=true; for(int i=0;i<D;i++) eq&=std::fabs(b(i)-X[k](i))<=1e-6*(1+std::fabs(X[k](i))); if(eq) here=true; }
  sym_assert(here,"the result is an evaluated point with its own value"); sym_reach("end");
}
#define GPS(fn) switch(PAR("gp",0)){ case 0: fn<GN>(); break; case 1: fn<GB>(); break; case 2: fn<GBS>(); break; case 3: fn<GS>(); break; }
extern "C" void h_vpk(){ mkglobals(); GPS(vpk) }
// profile likelihood around the optimum of a short run
template<class G> static void prof(){
  int g=PAR("gp",0),k=PAR("k",0),S=PAR("S",2),cv=PAR("curve",1); boxed=g==1||g==2; holding=0; CMAParameters<G> p=mkparams<G>(); FitFunc f=eobj; int lo=wlo,hi=whi; wlo=whi=0; 
  CMASolutions s=cmaes<G>(f,p); p.set_ftarget(1e9); reset_records(); wlo=lo; whi=hi;
  double fup=PAR("fup100",50)/100.0,dl=0.1; dVec bx=s.best_candidate().get_x_pheno_dvec(p); double bf=s.best_candidate().get_fvalue();
  for(int rep=0;rep<PAR("reps",1);rep++){
    if(rep) fup*=3; reset_records();
    pli le=errstats<G>::profile_likelihood(f,p,s,k,cv,S,fup,dl,PAR("mi",100));
    sym_assert(le.get_k()==k&&le.get_samplesize()==S&&le.get_fvaluem().size()==2*S+1&&le.get_xm().rows()==2*S+1&&le.get_xm().cols()==D,"the profile has one row per step in each direction");
    dVec fm=le.get_fvaluem(); dMat xm=le.get_xm();
    sym_assert(fm(S)==bf,"the centre of the profile is the minimum"); for(int i=0;i<D;i++) sym_assert(xm(S,i)==bx(i),"the centre of the profile is the minimum");
    for(int r=0;r<=2*S;r++) if(r!=S){ bool ok=false; for(size_t e=0;e<F.size()&&!ok;e++) if(fm(r)==F[e]){ bool eq=true; for(int i=0;i<D;i++) eq&=std::fabs(xm(r,i)-X[e](i))<=1e-6*(1+std::fabs(X[e](i))); ok=eq; }
      if(!ok&&fm(r)==bf){ bool eq=true; for(int i=0;i<D;i++) eq&=xm(r,i)==bx(i); ok=eq; } sym_assert(ok,"each row of the profile is an evaluated point with its own value"); }
    sym_assert(le.get_err_min()<=le.get_err_max(),"the confidence bounds are ordered");
    pli st; sym_assert(s.get_pli(k,st),"the solution keeps the profile"); for(int r=0;r<=2*S;r++) sym_assert(st.get_fvaluem()(r)==fm(r)&&st.get_xm()(r,k)==xm(r,k),"the solution keeps the latest profile"); sym_assert(st.get_err_min()==le.get_err_min()&&st.get_err_max()==le.get_err_max(),"the solution keeps the latest profile");
  }
  sym_reach("end");
}
extern "C" void h_prof(){ mkglobals(); GPS(prof) }
// confidence bounds of a profile: symbolic values and positions of its points
extern "C" void h_pli(){
  int S=PAR("S",2),n=PAR("dim",2),k=PAR("k",0),s=PAR("s",31); dVec c(n); for(int i=0;i<n;i++) c(i)=0.5*i-0.2; double f0=sym_range("f0",-10,10),fup=sym_range("fup",0.01,10); pli le(k,S,n,c,f0,fup,0.1);
  for(int r=0;r<=2*S;r++) if(r!=S){ le._fvaluem(r)=s>>r&1?sym_range("f",-20,20):f0+0.3*std::abs(r-S); for(int i=0;i<n;i++) le._xm(r,i)=i==k?sym_range("x",-5,5):100.0*i+r; }
  le.setErrMinMax(); double lv=f0+fup; int a=-1,b=-1; std::pair<double,double> mm=le.getMinMax(lv,a,b);
  sym_assert(a>=0&&a<S&&b>=0&&b<S,"the bounds are rows of the two sides"); double da=std::fabs(le._fvaluem(a)-lv),db=std::fabs(le._fvaluem(S+1+b)-lv);
  for(int r=0;r<S;r++){ sym_assert(da<=std::fabs(le._fvaluem(r)-lv),"the bound is the point of its side nearest to the level"); sym_assert(db<=std::fabs(le._fvaluem(S+1+r)-lv),"the bound is the point of its side nearest to the level"); }
  double xa=le._xm(a,k),xb=le._xm(S+1+b,k); double lo=xa<xb?xa:xb,hi=xa<xb?xb:xa;
  sym_assert(mm.first==lo&&mm.second==hi,"the bounds are the positions of those points, in order"); sym_assert(le._min==lo&&le._max==hi,"the bounds are kept");
  sym_assert_close(le.get_err_min(),lo-c(k),1e-9,"the error is the bound relative to the minimum"); sym_assert_close(le.get_err_max(),hi-c(k),1e-9,"the error is the bound relative to the minimum");
  if(PAR("lv",0)){ double l2=sym_range("level",-20,20); int e,h; std::pair<double,double> m2=le.getMinMax(l2,e,h); for(int r=0;r<S;r++) sym_assert((std::fabs(le._fvaluem(e)-l2)<=std::fabs(le._fvaluem(r)-l2))&(std::fabs(le._fvaluem(S+1+h)-l2)<=std::fabs(le._fvaluem(S+1+r)-l2)),"the bound is the point of its side nearest to the level"); sym_assert(m2.first<=m2.second,"the bounds are in order"); }
  sym_reach("end");
}
// covariance, standard deviations and correlations reported by a solution
template<class G> static void acc(){
  int a=PAR("algo",0),n=D; bool sep=a==6||a==9,vd=a==12; CMAParameters<G> p=mkparams<G>(); if(sep) p.set_sep(); if(vd) p.set_vd(); CMASolutions s(p); int i0=PAR("i0",0),j0=PAR("j0",1);
  std::vector<std::vector<double>> C(n,std::vector<double>(n,0.0)); static const double T[7]={0.25,-0.75,0.5,-0.125,0.625,-0.375,1.0};
  if(sep){ for(int i=0;i<n;i++){ double c=i==i0||i==j0?sym_range("c",0.01,100):0.5+0.25*i; s._sepcov(i)=c; C[i][i]=c; } }
  else if(vd){ std::vector<double> d(n),v(n); for(int i=0;i<n;i++){ d[i]=i==i0&&!PAR("nod",0)?sym_range("d",0.1,10):0.5+0.25*i; v[i]=i==j0||(PAR("two",0)&&i==i0)?sym_range("v",-3,3):T[i%7]; s._sepcov(i)=d[i]; s._v(i)=v[i]; } for(int i=0;i<n;i++) for(int j=0;j<n;j++) C[i][j]=d[i]*((i==j)+v[i]*v[j])*d[j]; }
  else { for(int i=0;i<n;i++) C[i][i]=i==i0||i==j0?sym_range("c",0.01,100):1.5+0.25*i; for(int i=0;i<n;i++) for(int j=0;j<i;j++) C[i][j]=C[j][i]=i==i0&&j==j0||i==j0&&j==i0?sym_range("cov",-100,100):0.25*T[(i*3+j)%7]; sym_assume(C[i0][j0]*C[i0][j0]<0.999*C[i0][i0]*C[j0][j0]); for(int i=0;i<n;i++) for(int j=0;j<n;j++) s._cov(i,j)=C[i][j]; }
  dMat fc=s.full_cov(); sym_assert(fc.rows()==n&&fc.cols()==n,"the covariance has one row per parameter"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) sym_assert_close(fc(i,j),C[i][j],1e-7,"the covariance is the one of the distribution");
  dVec st=s.stds(p); sym_assert(st.size()==n,"one standard deviation per parameter"); dVec sc=dVec::Constant(n,1.0); if(PAR("gp",0)==3) for(int i=0;i<n;i++) sc(i)=1.0/(0.5+i);
  for(int i=0;i<n;i++){ sym_assert(st(i)>=0,"standard deviations are not negative"); sym_assert_close(st(i)*st(i),C[i][i]*sc(i)*sc(i),1e-6,"the squared standard deviation is the variance"); }
  if(!sep){ dMat R=s.corr(); sym_assert(R.rows()==n&&R.cols()==n,"one correlation per pair"); for(int i=0;i<n;i++){ sym_assert_close(R(i,i),1.0,1e-7,"a parameter is fully correlated with itself"); for(int j=0;j<n;j++){ if(i==j) continue; sym_assert_close(R(i,j)*R(i,j)*(C[i][i]*C[j][j]),C[i][j]*C[i][j],1e-6,"the correlation is the normalised covariance"); sym_assert((R(i,j)>0)==(C[i][j]>0),"the correlation has the sign of the covariance"); } }
    sym_assert_close(R(i0,j0),R(j0,i0),1e-7,"correlations are symmetric"); sym_assert(R(i0,j0)*R(i0,j0)<=1+1e-9,"correlations are within [-1,1]");
    for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double c=s.corr(i,j); sym_assert_close(c*c*C[i][i]*C[j][j],C[i][j]*C[i][j],1e-6,"the single correlation is the normalised covariance"); if(i==j) sym_assert(c==1,"a parameter is fully correlated with itself"); else sym_assert((c>0)==(C[i][j]>0),"the single correlation has the sign of the covariance"); } }
  else for(int i=0;i<n;i++) for(int j=0;j<n;j++) sym_assert(s.corr(i,j)==(i==j),"separable parameters are uncorrelated");
  sym_reach("end");
}
extern "C" void h_acc(){ mkglobals(); if(PAR("gp",0)==3) acc<GS>(); else acc<GN>(); }
