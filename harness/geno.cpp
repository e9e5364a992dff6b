// Transforms between the optimiser's internal space and the user's parameter space.
#include "sym.h"
#include "cmaes.h"
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> GN; typedef GenoPheno<pwqBoundStrategy> GB;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> GS; typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> GBS;
static const double LBC[6]={-1.0,-7.25,0.0,2.0,-300.0,1e-3}, UBC[6]={3.0,-7.0,10.0,1e4,5.0,2e-3};
static int D;
// bounds: dimension `sd` symbolic (or all concrete when bc>=0), the others concrete
static void mkbounds(double *lb,double *ub){
  int bc=sym_param("bc",-1), sd=sym_param("sd",0);
  for(int i=0;i<D;i++){ int k=(i+(bc<0?0:bc))%6; lb[i]=LBC[k]; ub[i]=UBC[k];
    if(bc<0&&i==sd){ lb[i]=sym_range("lb",-1e3,1e3); double w=sym_range("w",1e-3,1e3); ub[i]=lb[i]+w; } }
}
static const double XS[8]={0.3,-1.7,12.0,-55.5,0.0011,3.01,-7.1,250.0};
// coordinate xd symbolic (every coordinate when xd<0), the others concrete and pairwise distinct
static int isx(int i){ int xd=sym_param("xd",-1); return xd<0||i==xd; }
static dVec mkx(double lim){ dVec x(D); for(int i=0;i<D;i++) x(i)=isx(i)?sym_range("x",-lim,lim):XS[(i+5)%8]; return x; }
template<class G> static dVec phenoOf(const G &g,const dVec &x){
  if(!sym_param("mat",0)) return g.pheno(x);
  int cols=sym_param("cols",2), c=sym_param("col",cols-1);
  dMat m(D,cols); for(int j=0;j<cols;j++) for(int i=0;i<D;i++) m(i,j)=XS[(i+3*j)%8]; m.col(c)=x;
  dMat r=g.pheno(m); sym_assert(r.rows()==D&&r.cols()==cols,"batch transform keeps the shape"); return r.col(c);
}
template<class G> static void inbox(const G &g,const double *lb,const double *ub,bool scaled){
  double lim=sym_param("lim",1000); dVec x=mkx(lim); dVec y=phenoOf(g,x);
  sym_assert(y.rows()==D,"dimension preserved");
  for(int i=0;i<D;i++){ double e=scaled?1e-9*(ub[i]-lb[i]):0.0;
    sym_assert(y(i)>=lb[i]-e,"transformed point is not below the lower bound");
    sym_assert(y(i)<=ub[i]+e,"transformed point is not above the upper bound"); }
  sym_reach("end");
}
// custom transforms: an arbitrary function, i.e. outputs unrelated to the inputs (concrete for all but one column/coordinate)
static int tcall,tsym; 
static void anyf(const double *in,double *out,const int &n){ for(int i=0;i<n;i++) out[i]=(tsym<0||tcall==tsym)&&isx(i)?sym_range("t",-1e3,1e3):XS[(i+tcall)%8]; tcall++; }
// an invertible custom transform
static void cphen(const double *in,double *out,const int &n){ for(int i=0;i<n;i++) out[i]=(i+2)*in[i]+(i-1); }
static void cgen(const double *in,double *out,const int &n){ for(int i=0;i<n;i++) out[i]=(in[i]-(i-1))/(i+2); }
static dVec sc,sh;
static void mkscale(){ sc=dVec(D); sh=dVec(D); for(int i=0;i<D;i++){ sc(i)=sym_param("ssc",0)&&isx(i)?sym_range("sc",0.1,10.0):2.0+i; sh(i)=sym_param("ssc",0)&&isx(i)?sym_range("sh",-10.0,10.0):1.5-i; } }

extern "C" void h_inbox(){ // C01: whatever the internal coordinates, the user-space point is inside the box
  D=sym_param("dim",2); double lb[8],ub[8]; mkbounds(lb,ub); mkscale();
  TransFunc gf=cgen,pf=anyf; tsym=sym_param("mat",0)?sym_param("col",sym_param("cols",2)-1):0;
  switch(sym_param("v",0)){
    case 0:{ GB g(lb,ub,D); inbox(g,lb,ub,false); break; }
    case 1:{ GBS g(lb,ub,D); inbox(g,lb,ub,true); break; }
    case 2:{ GBS g(sc,sh,lb,ub); inbox(g,lb,ub,true); break; }
    case 3:{ GB g(gf,pf,lb,ub,D); inbox(g,lb,ub,false); break; }
    case 4:{ GBS g(gf,pf,lb,ub,D); inbox(g,lb,ub,true); break; }
  }
}
template<class F> static void variants(F f){ // every instantiation and constructor of the transform
  D=sym_param("dim",2); double lb[8],ub[8]; mkbounds(lb,ub); mkscale(); TransFunc gf=cgen,pf=cphen;
  switch(sym_param("v",0)){
    case 0:{ GB g(lb,ub,D); f(g,lb,ub,true); break; }
    case 1:{ GBS g(lb,ub,D); f(g,lb,ub,true); break; }
    case 2:{ GBS g(sc,sh,lb,ub); f(g,lb,ub,true); break; }
    case 3:{ GB g(gf,pf,lb,ub,D); f(g,lb,ub,true); break; }
    case 4:{ GBS g(gf,pf,lb,ub,D); f(g,lb,ub,true); break; }
    case 5:{ GS g(sc,sh); f(g,lb,ub,false); break; }
    case 6:{ GN g; f(g,lb,ub,false); break; }
    case 7:{ GN g(gf,pf); f(g,lb,ub,false); break; }
    case 8:{ GS g(lb,ub,D); f(g,lb,ub,false); break; }
    case 9:{ GS g(gf,pf,lb,ub,D); f(g,lb,ub,false); break; }
  }
}
static dVec feasible(const double *lb,const double *ub,bool bounded){
  dVec y(D); for(int i=0;i<D;i++){ if(!isx(i)){ y(i)=bounded?lb[i]+(ub[i]-lb[i])*(0.02+0.13*i):XS[i]; continue; }
    y(i)=sym_range("y",bounded?-2e3:-1e3,bounded?2e4:1e3); if(bounded){ sym_assume(y(i)>=lb[i]); sym_assume(y(i)<=ub[i]); } }
  return y;
}
// C02: user point -> internal -> user is the identity on feasible points
struct Inverse { template<class G> void operator()(const G &g,const double *lb,const double *ub,bool bounded){
  dVec y=feasible(lb,ub,bounded);
  dVec x=g.geno(y); sym_assert(x.rows()==D,"dimension preserved");
  dVec z=phenoOf(g,x);
  for(int i=0;i<D;i++) sym_assert_close(z(i),y(i),1e-6,"user point -> internal -> user is the identity");
  sym_reach("end");
} };
extern "C" void h_inverse(){ variants(Inverse()); }
// C03: the batch transform is the pointwise transform of each column
template<class G> static dMat genoMat(const G &g,const dMat &m){ return g.geno(m); }
static dMat genoMat(const GN &g,const dMat &m){ dMat r(m.rows(),m.cols()); for(int j=0;j<m.cols();j++) r.col(j)=g.geno(dVec(m.col(j))); return r; } // no batch form exists
static dMat genoMat(const GS &g,const dMat &m){ dMat r(m.rows(),m.cols()); for(int j=0;j<m.cols();j++) r.col(j)=g.geno(dVec(m.col(j))); return r; }
struct Batch { template<class G> void operator()(const G &g,const double *lb,const double *ub,bool bounded){
  int cols=sym_param("cols",3), c=sym_param("col",cols-1), dir=sym_param("dir",0);
  dVec x=dir?feasible(lb,ub,bounded):mkx(1000);
  dMat m(D,cols); for(int j=0;j<cols;j++) for(int i=0;i<D;i++) m(i,j)=dir&&bounded?lb[i]+(ub[i]-lb[i])*((i*7+j*3)%11)/11.0:XS[(i+3*j)%8]; m.col(c)=x;
  dMat m0=m; dMat r=dir?genoMat(g,m):g.pheno(m);
  sym_assert(r.rows()==D&&r.cols()==cols,"batch transform keeps the shape");
  if(r.rows()!=D||r.cols()!=cols) return;
  for(int j=0;j<cols;j++){ dVec xj=m0.col(j); dVec p=dir?g.geno(xj):g.pheno(xj); sym_assert(p.rows()==D,"dimension preserved"); for(int i=0;i<D;i++) sym_assert_close(r(i,j),p(i),1e-9,"batch transform equals the pointwise transform of the same column"); }
  for(int j=0;j<cols;j++) for(int i=0;i<D;i++) sym_assert_close(m(i,j),m0(i,j),0,"the input is left alone");
  sym_reach("end");
} };
extern "C" void h_batch(){ variants(Batch()); }
// C16: dropping coordinates leaves the transform of the remaining ones as it was
struct Remove { template<class G> void operator()(const G &g0,const double *lb,const double *ub,bool bounded){
  int msk=sym_param("mask",1), rev=sym_param("rev",0); std::vector<int> k,keep; for(int i=0;i<D;i++){ if(msk>>i&1) k.push_back(i); else keep.push_back(i); }
  if(rev) std::reverse(k.begin(),k.end());
  int dir=sym_param("dir",0); dVec x=dir?feasible(lb,ub,bounded):mkx(1000); dVec p=dir?g0.geno(x):g0.pheno(x);
  G g=g0; g.remove_dimensions(k);
  dVec xr(keep.size()); for(size_t i=0;i<keep.size();i++) xr(i)=x(keep[i]);
  dVec pr=dir?g.geno(xr):g.pheno(xr); sym_assert(pr.rows()==(int)keep.size(),"reduced dimension");
  if(pr.rows()!=(int)keep.size()) return;
  for(size_t i=0;i<keep.size();i++) sym_assert_close(pr(i),p(keep[i]),1e-9,"remaining coordinates transform as before");
  if(bounded) for(size_t i=0;i<keep.size();i++){ sym_assert_close(g.get_boundstrategy().getPhenoLBound(i),g0.get_boundstrategy().getPhenoLBound(keep[i]),0,"reported lower bound of a remaining coordinate"); sym_assert_close(g.get_boundstrategy().getPhenoUBound(i),g0.get_boundstrategy().getPhenoUBound(keep[i]),0,"reported upper bound of a remaining coordinate"); }
  sym_reach("end");
} };
extern "C" void h_remove(){ variants(Remove()); }
// C02b: the bounds reported by the transform are the user's own
struct Reported { template<class G> void operator()(const G &g,const double *lb,const double *ub,bool bounded){
  if(bounded) for(int i=0;i<D;i++){ sym_assert_close(g.get_boundstrategy().getPhenoLBound(i),lb[i],1e-9,"reported lower bound is the user's"); sym_assert_close(g.get_boundstrategy().getPhenoUBound(i),ub[i],1e-9,"reported upper bound is the user's"); }
  sym_reach("end");
} };
extern "C" void h_reported(){ variants(Reported()); }
