// The draws of one generation are the solver's variables (window of draws); everything before that generation is concrete.
#include "run.h"
extern "C" { int symrng_on=0,symrng_n=0,symrng_lo=0,symrng_hi=0,symuni_n=0,symuni_skip=-1,symuni_lat=0; double symrng_bound=20; double symrng_z[4096]; }
static int boxed,fixc; static double fixs;
static double bobj(const double *x,const int &n){
  if(boxed) for(int i=0;i<n;i++){ double t=1e-9*(1+std::fabs(LB[i%8])+std::fabs(UB[i%8]));
    sym_assert(x[i]>=LB[i%8]-t,"the objective is not evaluated below the lower bound"); sym_assert(x[i]<=UB[i%8]+t,"the objective is not evaluated above the upper bound"); }
  if(fixc>=0) sym_assert(std::fabs(x[fixc]-fixs)<=1e-7*(1+std::fabs(fixs)),"a fixed parameter has its value in every evaluated point");
  sym_reach(symrng_on?"symbolic call":"call");
  int k=F.size(); double f=co==0?100.0-0.37*((k*5)%7)-0.01*k:objc(x,n,k); F.push_back(f); X.push_back(Eigen::Map<dVec>(const_cast<double*>(x),n)); return f;
}
template<class U,class G> static void box1(){
  CMAParameters<G> p=mkparams<G>(); if(PAR("algo",0)==6||PAR("algo",0)==9) p.set_sep(); if(PAR("algo",0)==12) p.set_vd();
  if(fixc>=0){ int g=PAR("gp",1); double lo=-50,hi=50; if(g==1||g==2){ double l=LB[fixc%8],u=UB[fixc%8],al=std::min((u-l)/2,(1+std::fabs(l))/20),au=std::min((u-l)/2,(1+std::fabs(u))/20); lo=l+al; hi=u-au; if(g==2){ lo=l+0.0051*(u-l); hi=u-0.0551*(u-l); } } fixs=sym_range("fixed",lo,hi); p.set_fixed_p(fixc,fixs); }
  FitFunc f=bobj; typedef ESOptimizer<CMAStrategy<U,G>,CMAParameters<G>> O; O o(f,p); boxed=PAR("gp",1)==1||PAR("gp",1)==2;
  for(int i=0;i<PAR("warm",0);i++){ dMat c=o.ask(); o.eval(c,o.get_parameters().get_gp().pheno(c)); o.tell(); o.inc_iter(); }
  symrng_lo=PAR("zlo",0); symrng_hi=symrng_lo+PAR("zn",1); symrng_n=0; symrng_bound=PAR("zb",20); symrng_on=1;
  dMat c=o.ask(); o.eval(c,o.get_parameters().get_gp().pheno(c)); symrng_on=0;
  sym_reach("end");
}
template<class G> static void box0(){ switch(PAR("algo",0)){ case 3: case 9: box1<ACovarianceUpdate,G>(); break; case 12: box1<VDCMAUpdate,G>(); break; default: box1<CovarianceUpdate,G>(); } }
extern "C" void h_box(){ mkglobals(); fixc=PAR("fixc",-1); switch(PAR("gp",1)){ case 0: box0<GN>(); break; case 1: box0<GB>(); break; case 2: box0<GBS>(); break; case 3: box0<GS>(); break; } }

// C25: the offspring of a generation as functions of the normal draws.
static std::vector<double> cinv; // inverse covariance, row major
static double maha(const dVec &y){ double s=0; for(int i=0;i<D;i++) for(int j=0;j<D;j++) s+=y(i)*cinv[i*D+j]*y(j); return s; }
template<class U,class G> static void draw1(){
  int a=PAR("algo",0); CMAParameters<G> p=mkparams<G>(); 
  std::vector<double> sv(D); int vs=PAR("vsig",0); if(vs){ std::vector<double> x0(D),lb(LB,LB+D),ub(UB,UB+D); for(int i=0;i<D;i++){ x0[i]=x0of(i); sv[i]=0.1+0.35*i; } p=CMAParameters<G>(x0,sv,L,lb,ub,1234); p.set_algo(a); p.set_quiet(true); }
  if(a==6||a==9) p.set_sep(); if(a==12) p.set_vd();
  if(PAR("lazyv",0)) p._lazy_value=PAR("lazyv",0)+0.5;
  FitFunc f=bobj; boxed=0; fixc=-1; typedef ESOptimizer<CMAStrategy<U,G>,CMAParameters<G>> O; O o(f,p);
  if(PAR("grad",0)==2){ GradFunc g=[](const double *x,const int &n){ dVec r(n); for(int i=0;i<n;i++) r(i)=2*(x[i]-CEN[i%8]); return r; }; o.set_gradient_func(g); }
  dMat C; dVec mprev; int upd=-100;
  for(int i=0;i<=PAR("warm",0);i++){
    if(i==0||!PAR("lazyv",0)||i-upd>PAR("lazyv",0)+0.5){ upd=i; C=o.get_solutions().full_cov(); }
    if(i==PAR("warm",0)) break;
    mprev=o.get_solutions().xmean(); dMat c=o.ask(); o.eval(c,o.get_parameters().get_gp().pheno(c)); o.tell(); o.inc_iter(); }
  if(PAR("alt",0)){ CMASolutions &s=o._solutions; s._sigma=std::pow(10.0,PAR("sge",0)); for(int i=0;i<D;i++){ s._xmean(i)=x0of(i); if(a>=6) s._sepcov(i)=0.5+0.3*i; if(a==12) s._v(i)=PAR("vsc",1)*CEN[(i+3)%8]; if(a<6) for(int j=0;j<D;j++) s._cov(i,j)=(i==j?2.0+i:0.3)*std::pow(10.0,PAR("cve",0)); } C=s.full_cov(); }
  dVec m=o.get_solutions().xmean(); double sg=o.get_solutions().sigma();
  if(PAR("warm",0)==0&&!vs&&!PAR("alt",0)){ for(int i=0;i<D;i++) for(int j=0;j<D;j++) if(a!=12) sym_assert(C(i,j)==(i==j),"the first generation is drawn with the identity covariance"); sym_assert(std::fabs(sg-PAR("sg1000",500)/1000.0)<1e-12,"the first generation is drawn with the given step size"); dVec u=o.get_parameters().get_gp().pheno(m); for(int i=0;i<D;i++) sym_assert(std::fabs(u(i)-x0of(i))<1e-9,"the first generation is drawn around the given start"); }
  dMat I=C.inverse(); cinv.assign(D*D,0.0); for(int i=0;i<D;i++) for(int j=0;j<D;j++) cinv[i*D+j]=I(i,j);
  symrng_lo=PAR("zlo",0); symrng_hi=symrng_lo+PAR("zn",100); symrng_n=0; symrng_bound=PAR("zb1000",20000)/1000.0; symrng_on=1;
  dMat c=o.ask(); symrng_on=0;
  int nz=symrng_n, tpa=PAR("tpa",-1)==2&&PAR("warm",0)>0, gr=PAR("grad",0)!=0, c0=gr?1:0, rz=nz-(tpa?D:0);
  sym_assert(c.cols()==L&&c.rows()==D,"one column per offspring"); sym_assert(rz==L*D,"one independent draw per coordinate of each offspring");
  if(vs){ dMat u=o.get_parameters().get_gp().pheno(c); double t=0,z2=0; for(int k=0;k<L;k++) for(int i=0;i<D;i++){ double y=(u(i,k)-x0of(i))/sv[i]; t+=y*y; } for(int k=0;k<nz;k++) z2+=symrng_z[k]*symrng_z[k]; sym_assert_close(t,z2,1e-6,"the first offspring have the given standard deviation in each user coordinate"); sym_reach("end"); return; }
  double tot=0,z2=0; for(int k=0;k<L;k++){ if(gr&&k==0) continue; if(tpa&&(k==c0||k==c0+1)) continue; dVec y(D); for(int i=0;i<D;i++) y(i)=(c(i,k)-m(i))/sg; tot+=maha(y); }
  for(int k=0;k<L*D;k++){ int col=k/D; if(gr&&col==0) continue; if(tpa&&(col==c0||col==c0+1)) continue; z2+=symrng_z[k]*symrng_z[k]; }
  sym_assert_close(tot,z2,1e-6,"the offspring are independent normal draws around the mean with covariance sigma^2 C");
  if(gr){ dVec x=o.get_parameters().get_gp().pheno(m); dVec y(D); for(int i=0;i<D;i++) y(i)=(c(i,0)-m(i))/sg; sym_assert_close(maha(y),D,1e-6,"the gradient point has the expected length of an offspring");
    if(PAR("gp",0)==0&&PAR("grad",0)==2){ dVec g(D); for(int i=0;i<D;i++) g(i)=2*(x(i)-CEN[i%8]); dVec d=C*g; double fc=-y.norm()/d.norm(); for(int i=0;i<D;i++) sym_assert_close(y(i),fc*d(i),1e-6,"the gradient point lies along the natural gradient"); } }
  if(tpa){ double r2=0; for(int k=rz;k<nz;k++) r2+=symrng_z[k]*symrng_z[k]; dVec y(D); for(int i=0;i<D;i++){ y(i)=(c(i,c0)-m(i))/sg; sym_assert_close(c(i,c0)+c(i,c0+1),2*m(i),1e-6,"the two-point pair is symmetric about the mean"); }
    sym_assert_close(maha(y),r2,1e-6,"the two-point pair has the length of a random draw"); for(int i=1;i<D;i++) sym_assert_close(y(i)*(m(0)-mprev(0)),y(0)*(m(i)-mprev(i)),1e-6,"the two-point pair lies along the last mean shift"); }
  sym_reach("end");
}
template<class G> static void draw0(){ switch(PAR("algo",0)){ case 3: case 9: draw1<ACovarianceUpdate,G>(); break; case 12: draw1<VDCMAUpdate,G>(); break; default: draw1<CovarianceUpdate,G>(); } }
extern "C" void h_draw(){ mkglobals(); switch(PAR("gp",0)){ case 0: draw0<GN>(); break; case 1: draw0<GB>(); break; case 2: draw0<GBS>(); break; case 3: draw0<GS>(); break; } }
