// One distribution update of the real code on a symbolic state, against the published equations written out with plain loops.
#include "run.h"
#include "covarianceupdate.h"
#include "acovarianceupdate.h"
#include "vdcmaupdate.h"
enum { U_MEAN=1, U_PATHS=2, U_SIGMA=4, U_COV=8, U_SYM=16, U_HULL=32, U_PD=64 };
static double rnd(int k){ static const double T[16]={0.31,-0.72,1.13,-0.18,0.55,-1.4,0.9,0.07,-0.63,1.6,-0.29,0.42,-1.05,0.81,-0.36,1.21}; k+=PAR("salt",0); return T[((k%16)+16)%16]*(1+0.01*(k/16)); }
static int bit(const char *n,int i){ return i<31&&(PAR(n,0)>>i&1); }
typedef std::vector<double> V; typedef std::vector<V> M;
static V tov(const dVec &x){ V r(x.size()); for(int i=0;i<x.size();i++) r[i]=x(i); return r; }
static void close(double a,double b,const char *m){ sym_assert_close(a,b,1e-7,m); }
extern "C" void h_update(){
  D=PAR("dim",2); L=PAR("lam",4); int a=PAR("algo",0), K=PAR("chk",255), n=D;
  bool sep=a==6||a==9, act=a==3||a==9, vd=a==12; CMAParameters<GN> p=mkparams<GN>(); 
  // options may be set, changed and set again in any order before the final choice
  static const char *NM[13]={"cmaes","","","acmaes","","","sepcmaes","","","sepacmaes","","","vdcma"}; int ops=PAR("ops",0);
  if(ops&1){ p.set_str_algo("vdcma"); p.set_str_algo("sepcmaes"); } if(ops&2){ p.set_tpa(2); p.set_tpa(PAR("tpa",0)); } if(ops&4){ p.set_fixed_p(0,1.5); p.unset_fixed_p(0); } 
  if(ops&7) p.set_str_algo(NM[a]); if(ops&8) p.set_tpa(PAR("tpa",0));
  if(sep) p.set_sep(); if(vd) p.set_vd();
  for(int i=0;i<n;i++) if(bit("fix",i)) p.set_fixed_p(i,0.25);
  CMASolutions s(p); Eigen::EigenMultivariateNormal<double> es(false,7);
  int it=PAR("it",3); s._niter=it; double R=PAR("rng",5), sf=std::pow(10.0,PAR("sge",0)), cf=std::pow(10.0,PAR("cve",0)), vf=PAR("vsc",10)/10.0; // magnitudes of step size, covariance, VD direction
  // state before the update
  double sg=PAR("ssg",0)?sym_range("sigma",0.01,100):0.37*sf; s._sigma=sg; s._tpa_s=PAR("stpa",0)?sym_range("tpas",-1,1):0.21;
  for(int i=0;i<n;i++){ s._xmean(i)=bit("sm",i)?sym_range("m",-R,R):rnd(i+3); s._psigma(i)=bit("sps",i)?sym_range("ps",-R,R):0.6*rnd(2*i+1)*PAR("psx",10)/10.0; s._pc(i)=bit("spc",i)?sym_range("pc",-R,R):0.7*rnd(3*i+2); }
  M C(n,V(n,0.0)), Ci(n,V(n,0.0)); V dg(n),v(n);
  if(sep||vd) for(int i=0;i<n;i++){ dg[i]=bit("sc",i)?sym_range("c",0.01,100):(0.5+0.4*i)*cf; s._sepcov(i)=dg[i]; if(vd){ v[i]=0.4*vf*rnd(5*i+4); s._v(i)=v[i]; } }
  else { dMat B(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) B(i,j)=0.3*rnd(4*i+7*j)+(i==j?1.0:0.0); s._cov=cf*B*B.transpose(); es.setMean(s._xmean); es.setCovar(s._cov); s._updated_eigen=true;
    dMat X=es._eigenSolver.operatorInverseSqrt(); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ C[i][j]=s._cov(i,j); Ci[i][j]=X(i,j); } }
  M x(L,V(n)); // ranked candidates
  for(int k=0;k<L;k++){ dVec c(n); for(int i=0;i<n;i++) { double u=bit("sx",k)&&bit("sj",i)?sym_range("x",-R,R):rnd(9*k+5*i+1); c(i)=x[k][i]=sf==1.0?u:rnd(i+3)+sf*u; } s._candidates.at(k).set_x(c); s._candidates.at(k).set_fvalue(k); }
  V m0=tov(s._xmean),ps0=tov(s._psigma),pc0=tov(s._pc);
  const CMAParameters<GN> &q=p;
  switch(a){ case 0: case 6: CovarianceUpdate::update(q,es,s); break; case 3: case 9: ACovarianceUpdate::update(q,es,s); break; case 12: VDCMAUpdate::update(q,es,s); break; }
  // oracle
  int mu=L/2; V w(mu); double sw=0,sq=0; for(int i=0;i<mu;i++){ w[i]=std::log(mu+1.0)-std::log(i+1.0); sw+=w[i]; sq+=w[i]*w[i]; } double mueff=sw*sw/sq; for(int i=0;i<mu;i++) w[i]/=sw;
  V m(n,0.0); for(int i=0;i<n;i++) for(int k=0;k<mu;k++) m[i]+=w[k]*x[k][i];
  if(K&U_MEAN) for(int i=0;i<n;i++) close(s._xmean(i),m[i],"the new mean is the weighted average of the best half");
  if(K&U_HULL) for(int i=0;i<n;i++){ double lo=x[0][i],hi=x[0][i]; for(int k=1;k<mu;k++){ lo=x[k][i]<lo?x[k][i]:lo; hi=x[k][i]>hi?x[k][i]:hi; } double t=1e-7; sym_assert((s._xmean(i)>=lo-t)&(s._xmean(i)<=hi+t),"the new mean lies between the parents"); }
  V y(n); for(int i=0;i<n;i++) y[i]=(m[i]-m0[i])/sg;
  double cs=(mueff+2)/(n+mueff+5), cc=(4+mueff/n)/(n+4+2*mueff/n), c1=2/((n+1.3)*(n+1.3)+mueff), cmu=2*(mueff-2+1/mueff)/((n+2.0)*(n+2.0)+mueff); // published defaults
  if(n>=1000) cs=(std::sqrt(mueff)+2)/(std::sqrt((double)n)+std::sqrt(mueff)+3);
  if(sep){ c1*=(n+2)/3.0; cmu=(0.3+mueff-2+1/mueff)/(n+4*std::sqrt((double)n)+mueff/2); cc=(1+1.0/n+mueff/n)/(std::sqrt((double)n)+1.0/n+2*mueff/n); }
  if(vd){ c1*=(n-5)/6.0; cmu*=(n-5)/6.0; cs=std::sqrt(mueff)/(2*(std::sqrt((double)n)+std::sqrt(mueff))); }
  if(cmu>1-c1) cmu=1-c1;
  int tpa2=PAR("tpa",0)==2; double ds=tpa2?4-3.6/std::sqrt((double)n):1+cs+2*std::max(0.0,std::sqrt((mueff-1)/(n+1))-1);
  double fps=std::sqrt(cs*(2-cs)*mueff),fpc=std::sqrt(cc*(2-cc)*mueff);
  V ps(n); for(int i=0;i<n;i++){ double z=0; if(sep) z=y[i]*std::sqrt(1.0/dg[i]); else if(vd) z=y[i]/dg[i]/std::sqrt(1+v[i]*v[i]); else for(int j=0;j<n;j++) z+=Ci[i][j]*y[j]; ps[i]=(1-cs)*ps0[i]+fps*z; }
  if(K&U_PATHS) for(int i=0;i<n;i++) close(s._psigma(i),ps[i],"the step-size path accumulates the normalised mean shift");
  double n2=0; for(int i=0;i<n;i++) n2+=ps[i]*ps[i];
  double nfix=p._fixed_p.size(), nd=n-nfix, chi=std::sqrt(nd)*(1-1/(4*nd)+1/(21*nd*nd));
  double lim=std::sqrt(1-std::pow(1-cs,2.0*(it+1)))*(1.4+2.0/(nd+1))*chi;
  int hs=s._hsig; double sn=0; for(int i=0;i<n;i++) sn+=s._psigma(i)*s._psigma(i);
  if(K&U_PATHS){ if(hs) sym_assert(sn<=lim*lim*(1+1e-9),"the covariance path moves only while the step-size path is not too long"); else sym_assert(sn>=lim*lim*(1-1e-9),"the covariance path is stalled only while the step-size path is too long"); }
  V pc(n); for(int i=0;i<n;i++) pc[i]=(1-cc)*pc0[i]+(hs?fpc*y[i]:0.0);
  if(K&U_PATHS) for(int i=0;i<n;i++) close(s._pc(i),pc[i],"the covariance path accumulates the mean shift");
  if(K&U_SIGMA){
    sym_assert(s._sigma>0,"the step size stays positive");
    double e=!tpa2?cs/ds*(s._psigma.norm()/chi-1):s._tpa_s/ds; if(tpa2&&it==0) e=0;
    sym_assert_close(s._sigma,sg*std::exp(e),1e-7,"the step size follows the length of its path"); }
  if(!vd){
    double h=hs?0.0:c1*cc*(2-cc), cm=0; if(act) h=0;
    M P(n,V(n,0.0)),N(n,V(n,0.0)); 
    for(int k=0;k<mu;k++) for(int i=0;i<n;i++) for(int j=0;j<n;j++){ P[i][j]+=w[k]*((x[k][i]-m0[i])/sg)*((x[k][j]-m0[j])/sg); N[i][j]+=w[k]*((x[L-1-k][i]-m0[i])/sg)*((x[L-1-k][j]-m0[j])/sg); }
    if(act){ double big; 
      if(sep){ big=N[0][0]/dg[0]; for(int i=1;i<n;i++) big=N[i][i]/dg[i]>big?N[i][i]/dg[i]:big; }
      else { dMat T(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double t=0; for(int k=0;k<n;k++) for(int l=0;l<n;l++) t+=Ci[i][k]*N[k][l]*Ci[l][j]; T(i,j)=t; } Eigen::SelfAdjointEigenSolver<dMat> e(T); big=e.eigenvalues().maxCoeff(); }
      double lim1=(1-cmu)*(1-0.66)/big, lim2=(1-cmu)*0.25*mueff/(std::pow(n+2.0,1.5)+2*mueff); cm=lim1<lim2?lim1:lim2; }
    if(K&U_COV) for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(sep&&i!=j) continue;
      double old=sep?dg[i]:C[i][j], now=sep?s._sepcov(i):s._cov(i,j);
      close(now,(1-c1-cmu+h+cm*0.5)*old+c1*pc[i]*pc[j]+(cmu+cm*0.5)*P[i][j]-cm*N[i][j],"the covariance follows the rank-one and rank-mu update"); }
    if(K&U_SYM) { if(!sep) for(int i=0;i<n;i++) for(int j=0;j<i;j++) close(s._cov(i,j),s._cov(j,i),"the covariance stays symmetric"); 
      if(!act) for(int i=0;i<n;i++) sym_assert((sep?s._sepcov(i):s._cov(i,i))>0,"variances stay positive"); }
    if((K&U_PD)&&!sep&&n==2) sym_assert(s._cov(0,0)*s._cov(1,1)-s._cov(0,1)*s._cov(1,0)>0,"the covariance stays positive definite");
  } else if(K&U_COV){
    // VD-CMA (Akimoto, Auger, Hansen 2014), natural gradient of D and v
    double nv=0; for(int i=0;i<n;i++) nv+=v[i]*v[i]; double g=1+nv; V vb(n),vv(n); double mx=0; for(int i=0;i<n;i++){ vb[i]=v[i]/std::sqrt(nv); vv[i]=vb[i]*vb[i]; mx=vv[i]>mx?vv[i]:mx; }
    double al=std::sqrt(nv*nv+(2-1/std::sqrt(g))*g/mx)/(2+nv); if(al>1) al=1; double b=-(1-al*al)*nv*nv/g+2*al*al; V A(n); for(int i=0;i<n;i++) A[i]=2-(b+2*al*al)*vv[i];
    V pp(n,0.0),qq(n,0.0);
    for(int k=0;k<=mu;k++){ V yy(n); double wk; if(k<mu){ wk=cmu*w[k]; for(int i=0;i<n;i++) yy[i]=(x[k][i]-m0[i])/(dg[i]*sg); } else { wk=hs?c1:0.0; for(int i=0;i<n;i++) yy[i]=pc[i]/dg[i]; }
      double t=0; for(int i=0;i<n;i++) t+=vb[i]*yy[i]; 
      for(int i=0;i<n;i++){ pp[i]+=wk*(yy[i]*yy[i]-nv/g*t*vb[i]*yy[i]-1); qq[i]+=wk*(t*yy[i]-0.5*vb[i]*(t*t+g)); } }
    double nu=0; for(int i=0;i<n;i++) nu+=vb[i]*qq[i]; V r(n); for(int i=0;i<n;i++) r[i]=pp[i]-al/g*((2+nv)*vb[i]*qq[i]-nv*nu*vv[i]);
    double a1=0,a2=0; for(int i=0;i<n;i++){ a1+=vv[i]/A[i]*r[i]; a2+=vv[i]/A[i]*vv[i]; } V S(n); for(int i=0;i<n;i++) S[i]=r[i]/A[i]-b*a1/(1+b*a2)*vv[i]/A[i];
    nu=0; for(int i=0;i<n;i++) nu+=S[i]*vv[i];
    for(int i=0;i<n;i++){ close(s._sepcov(i),dg[i]+dg[i]*S[i],"VD: the diagonal follows its natural gradient"); close(s._v(i),v[i]+(qq[i]-al*((2+nv)*vb[i]*S[i]-nu*vb[i]))/std::sqrt(nv),"VD: the principal direction follows its natural gradient"); }
  }
  sym_reach("end");
}
