// Parallel loops, compiled with OpenMP: iterations of one loop must not touch the same memory, and results must be those of the sequential run.
#include "run.h"
static double A[8],thr; static int st; static double tobj(const double *x,const int &n){ double s=0; if(st) s=x[0]>thr?0.5:0.0; for(int i=0;i<n;i++) s+=A[i%8]*x[i]+0.01*x[i]*x[i]; return s; } // reads shared data only: free of races itself
static const double A0[8]={0.3,-0.7,0.2,1.1,-0.4,0.6,0.9,-0.1};
struct Res { double best; dVec x,m; double sg; int nev; };
template<class G> static Res one(int mt){
  CMAParameters<G> p=mkparams<G>(); p.set_mt_feval(mt); FitFunc f=tobj; ProgressFunc<CMAParameters<G>,CMASolutions> pf=[](const CMAParameters<G>&,const CMASolutions&){ return 0; };
  CMASolutions s=cmaes<G>(f,p,pf); Res r; r.best=s.best_candidate().get_fvalue(); r.x=s.best_candidate().get_x_dvec(); r.m=s.xmean(); r.sg=s.sigma(); r.nev=s.fevals(); return r; }
template<class G> static void both(){
  Res a=one<G>(1), b=one<G>(0);
  sym_assert(a.nev==b.nev,"parallel evaluation makes the same number of calls"); sym_assert(a.best==b.best,"parallel evaluation finds the same value"); sym_assert(same(a.x,b.x)&&same(a.m,b.m)&&a.sg==b.sg,"parallel evaluation leads to the same distribution");
  sym_reach("end"); }
extern "C" void h_omp(){ mkglobals(); int m=PAR("sa",3); st=PAR("st",0); thr=st?sym_range("thr",st==1?-3:x0of(0)-0.02,st==1?3:x0of(0)+0.02):0; for(int i=0;i<8;i++) A[i]=(m>>i&1)?sym_range("a",-2,2):A0[i]; switch(PAR("gp",0)){ case 0: both<GN>(); break; case 1: both<GB>(); break; case 2: both<GBS>(); break; case 3: both<GS>(); break; } }
// transforms of whole populations, column by column in parallel
template<class G> struct Gen { static dMat m(G &g,const dMat &x){ return g.geno(x); } static dVec v(G &g,const dVec &x){ return g.geno(x); } };
template<> struct Gen<GS> { static dMat m(GS &g,const dMat &x){ return x; } static dVec v(GS &g,const dVec &x){ return x; } }; // not provided by the library
template<> struct Gen<GN> { static dMat m(GN &g,const dMat &x){ return x; } static dVec v(GN &g,const dVec &x){ return x; } };
template<class G> static void tr(){
  G g=MkGP<G>::make(); int c=PAR("cols",101), sc=PAR("sc",7), sr=PAR("sr",0); dMat x(D,c); for(int i=0;i<D;i++) for(int j=0;j<c;j++){ double lo=PAR("gp",0)==1||PAR("gp",0)==2?LB[i]:-1.0, w=PAR("gp",0)==1||PAR("gp",0)==2?UB[i]-LB[i]:2.0; x(i,j)=lo+w*((i*31+j*17)%100+0.5)/100; }
  int in=PAR("dir",0); if(!in){ double lo=LB[sr],w=UB[sr]-LB[sr]; x(sr,sc)=PAR("gp",0)==1||PAR("gp",0)==2?sym_range("x",lo-w,lo+2*w):sym_range("x",-5,5); } else x(sr,sc)=PAR("gp",0)==1||PAR("gp",0)==2?sym_range("x",LB[sr],UB[sr]):sym_range("x",-5,5);
  dMat y=in?Gen<G>::m(g,x):g.pheno(x); dVec o=x.col(sc), e=in?Gen<G>::v(g,o):g.pheno(o); for(int i=0;i<D;i++) sym_assert_close(y(i,sc),e(i),1e-9,"a column transformed in parallel is the transformed column");
  sym_reach("end"); }
extern "C" void h_omptr(){ mkglobals(); switch(PAR("gp",0)){ case 0: tr<GN>(); break; case 1: tr<GB>(); break; case 2: tr<GBS>(); break; case 3: tr<GS>(); break; } }
// ranking SVM: kernel matrix, pair kernel, predictions
#include "surrogates/rankingsvm.hpp"
template<class K> static void svm(){ int n=PAR("n",8),t=PAR("t",5); dMat x(D,n),y(D,t),c=dMat::Identity(D,D); dVec m=dVec::Zero(D); for(int i=0;i<D;i++){ for(int j=0;j<n;j++) x(i,j)=std::sin(1.3*i+2.1*j*(i+1)); for(int j=0;j<t;j++) y(i,j)=std::cos(0.7*i+1.9*j); }
  RankingSVM<K> r; r._encode=PAR("enc",0); dMat a=x; r.train(a,PAR("it",40),c,m); for(int i=0;i<n-1;i++) if(PAR("sa",1)>>i&1) r._alpha(i)=sym_range("alpha",0,1000); dVec f,g; a=x; dMat b=y; r.predict(f,b,a,c,m); for(int i=0;i<t;i++){ dMat o=y.col(i); a=x; r.predict(g,o,a,c,m); sym_assert_close(f(i),g(0),1e-9,"a prediction made in parallel is that of the point alone"); } sym_reach("end"); }
extern "C" void h_ompsvm(){ mkglobals(); switch(PAR("kern",2)){ case 0: svm<LinearKernel>(); break; case 1: svm<PolyKernel<2>>(); break; default: svm<RBFKernel>(); } }
