// Ranking SVM of the surrogate strategies: training from any random start, prediction with any multipliers, encoding, error.
#include "run.h"
extern "C" { int symrng_on=0,symrng_n=0,symrng_lo=0,symrng_hi=0,symuni_n=0,symuni_skip=-1,symuni_lat=0; double symrng_bound=20; double symrng_z[4096]; }
#include "surrogates/rsvm_surr_strategy.hpp"
static dMat pts(int n,int salt){ dMat x(D,n); for(int j=0;j<n;j++) for(int i=0;i<D;i++) x(i,j)=std::sin(1.7*i+2.3*j*(i+1)+salt)*2.0+0.3*((j*7+i*3+salt)%5); return x; }
struct KL { static double k(const dVec &a,const dVec &b,double){ double s=0; for(int i=0;i<a.size();i++) s+=a(i)*b(i); return s; } };
struct KP { static double k(const dVec &a,const dVec &b,double){ double s=2; for(int i=0;i<a.size();i++) s+=a(i)*b(i); return s*s*s; } };
struct KR { static double k(const dVec &a,const dVec &b,double g){ double s=0; for(int i=0;i<a.size();i++) s+=(a(i)-b(i))*(a(i)-b(i)); return std::exp(-g*s); } };
static double gam(LinearKernel &){return 0;} static double gam(PolyKernel<3,2> &){return 0;} static double gam(RBFKernel &k){return k._gamma;}
static dMat cinv(int full){ dMat c(D,full?D:1); for(int i=0;i<D;i++) for(int j=0;j<c.cols();j++) c(i,j)=full?(i==j?1.5+0.25*i:0.2*((i+j)%3)-0.1):0.5+0.25*i; return c; }
static dMat enc(const dMat &x,const dMat &c,const dVec &m){ dMat y(x.rows(),x.cols()); for(int k=0;k<x.cols();k++) for(int i=0;i<x.rows();i++){ double s=0; if(c.cols()>1) for(int j=0;j<x.rows();j++) s+=c(i,j)*(x(j,k)-m(j)); else s=c(i,0)*(x(i,k)-m(i)); y(i,k)=s; } return y; }
template<class K,class R> static void train(){
  int n=PAR("n",4),it=PAR("it",9),e=PAR("enc",0); dMat x=pts(n,PAR("salt",0)),x0=x,c=cinv(e==2); dVec m(D); for(int i=0;i<D;i++) m(i)=0.1*i-0.2; RankingSVM<K> r; r._encode=e; if(PAR("cv",0)) r._Cval=PAR("cv",0);
symuni_n=0; symuni_skip=-3; symrng_on=PAR("sym",1); r.train(x,it,c,m); symuni_skip=-2;
  dMat z=e?enc(x0,c,m):x0; double g=gam(r._kernel); 
  if(PAR("kern",2)==2){ double s=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++){ double d=0; for(int q=0;q<D;q++) d+=(z(q,i)-z(q,j))*(z(q,i)-z(q,j)); s+=std::sqrt(d); } s/=n*(n-1)/2.0; sym_assert_close(g,1/(2*s*s),1e-9,"the kernel's width is the average distance of the training points"); }
  sym_assert(r._alpha.size()==n-1,"one multiplier per pair of neighbours"); std::vector<std::vector<double>> Q(n-1,std::vector<double>(n-1)); auto k=[&](int i,int j){ return R::k(z.col(i),z.col(j),g); };
  for(int i=0;i<n-1;i++){ double C=r._Cval*std::pow((double)(i+1),2); sym_assert((r._alpha(i)>=0)&(r._alpha(i)<=C*(1+1e-12)),"multipliers stay within their limits"); for(int j=0;j<n-1;j++){ Q[i][j]=k(i,j)-k(i,j+1)-k(i+1,j)+k(i+1,j+1); sym_assert_close(r._dKij(i,j),Q[i][j],1e-9,"the pair kernel is that of the training points"); } }
  if(PAR("dual",0)){ // one more pass never lowers the dual objective
    RankingSVM<K> &r2=r,r3; symuni_n=0; r3._encode=e; r3._Cval=r._Cval; dMat x3=x0; r3.train(x3,it+PAR("dual",0),c,m);
    auto dual=[&](const dVec &a){ double s=0; for(int i=0;i<n-1;i++){ s+=a(i)*r._epsilon; for(int j=0;j<n-1;j++) s-=0.5*a(i)*a(j)*Q[i][j]; } return s; }; sym_assert(dual(r3._alpha)>=dual(r2._alpha)-1e-6*(1+std::fabs(dual(r2._alpha))),"training never gets worse with more iterations"); 
    if(PAR("conv",0)) for(int j=0;j+1<n;j++){ dVec f; dMat xt=x0,xr=x0; r3.predict(f,xt,xr,c,m); sym_assert(f(j)>f(j+1),"a trained model reproduces the order of separable points"); } }
  symrng_on=0; sym_reach("end"); }
template<class K,class R> static void predict(){
  int n=PAR("n",4),t=PAR("t",3),e=PAR("enc",0); dMat x=pts(n,PAR("salt",0)),y=pts(t,9+PAR("salt",0)),c=cinv(e==2); dVec m(D); for(int i=0;i<D;i++) m(i)=0.1*i-0.2; RankingSVM<K> r; r._encode=e; dVec f; dMat a=y,b=x;
  r.predict(f,a,b,c,m); sym_assert(f.size()==0,"a model not trained predicts nothing"); { dVec rf(t); for(int i=0;i<t;i++) rf(i)=i; a=y; b=x; sym_assert(r.error(a,b,rf,c,m)==1.0,"a model not trained has the largest error"); }
  a=x; r.train(a,0,c,m); for(int i=0;i<n-1;i++) r._alpha(i)=sym_range("alpha",0,1000); double g=gam(r._kernel); a=y; b=x; r.predict(f,a,b,c,m); sym_assert(f.size()==t,"one prediction per point");
  dMat z=e?enc(x,c,m):x,w=e?enc(y,c,m):y; for(int i=0;i<t;i++){ double s=0; for(int j=0;j<n-1;j++) s+=r._alpha(j)*(R::k(w.col(i),z.col(j),g)-R::k(w.col(i),z.col(j+1),g)); sym_assert_close(f(i),s,1e-7,"a prediction is the weighted sum over the training pairs"); dMat one=y.col(i),tr=x; dVec f1; r.predict(f1,one,tr,c,m); sym_assert_close(f1(0),f(i),1e-9,"a prediction does not depend on the other points"); }
  dVec rf(t); for(int i=0;i<t;i++) rf(i)=i==0?sym_range("v",-1,t):i; a=y; b=x; double er=r.error(a,b,rf,c,m); int bad=0; for(int i=0;i<t;i++) for(int j=0;j<i;j++) bad+=(rf(i)<rf(j)&&f(i)>f(j))||(rf(i)>rf(j)&&f(i)<f(j)); sym_assert_close(er,bad/(t*(t-1)/2.0),1e-9,"the error is the fraction of pairs ordered wrongly"); sym_reach("end"); }
// candidates handed to the model
static void conv(){ int n=PAR("n",3); dMat x=pts(n,PAR("salt",0)); std::vector<Candidate> c; std::vector<double> v; for(int i=0;i<n;i++){ v.push_back(sym_range("f",-1000,1000)); c.push_back(Candidate(v[i],x.col(i))); } dMat m; dVec f; int tr=PAR("tr",1); to_mat_vec(c,m,f,tr); sym_assert(m.cols()==n&&m.rows()==D&&f.size()==n,"every candidate is handed over");
  std::vector<int> us(n,0); for(int j=0;j<n;j++){ int h=-1; for(int i=0;i<n&&h<0;i++) if(!us[i]&&same(m.col(j),x.col(i))) h=i; sym_assert(h>=0,"every candidate is handed over"); if(h<0) return; us[h]=1; sym_assert(f(j)==v[h],"a candidate keeps its value"); if(!tr) sym_assert(h==j,"candidates to be ranked keep their order"); else if(j) sym_assert(f(j-1)>=f(j),"the training set is ordered from worst to best"); } sym_reach("end"); }
template<class K,class R> static void pick(){ if(PAR("pred",0)) predict<K,R>(); else train<K,R>(); }
extern "C" void h_rsvm(){ mkglobals(); switch(PAR("kern",2)){ case 0: pick<LinearKernel,KL>(); break; case 1: pick<PolyKernel<3,2>,KP>(); break; case 2: pick<RBFKernel,KR>(); break; } }
extern "C" void h_rsvmset(){ mkglobals(); conv(); }
