// Configuration: option setters, algorithm selection, construction. Arguments and the choice of calls are the solver's.
#include "run.h"
extern "C" int rand(void) noexcept { return sym_int("rand",0,RAND_MAX); } // the start point drawn from an interval: any draw
static const char *NM[15]={"cmaes","ipop","bipop","acmaes","aipop","abipop","sepcmaes","sepipop","sepbipop","sepacmaes","sepaipop","sepabipop","vdcma","vdipopcma","vdbipopcma"};
static bool issep(int a){ return a>=6&&a<=11; } static bool isvd(int a){ return a>=12; }
extern "C" void h_names(){
  mkglobals(); D=PAR("dim",7); std::vector<double> x0(D,1.0); CMAParameters<GN> p(x0,0.5,6,12);
  int a=sym_choose("first",15), b=sym_choose("second",15), how=PAR("how",0);
  if(how&1) p.set_algo(a); else p.set_str_algo(NM[a]);
  sym_assert(p.get_algo()==a,"the algorithm named is the one selected");
  if(!(how&1)) sym_assert(p.is_sep()==issep(a)&&p.is_vd()==isvd(a),"a name selects its covariance model");
  if(PAR("run",0)){ int calls=0; p.set_max_iter(1); p.set_restarts(1); p.set_quiet(true); FitFunc f=[&calls](const double *x,const int &n){ return objc(x,n,calls++); }; CMASolutions s=cmaes<GN>(f,p); sym_assert(calls>0,"every selectable algorithm runs"); sym_assert((s.sepcov().size()>0)==(issep(a)||isvd(a)),"a run uses the covariance model of the selected algorithm"); }
  if(how&2) p.set_algo(b); else p.set_str_algo(NM[b]);
  sym_assert(p.get_algo()==b,"the latest algorithm named is the one selected");
  if(!(how&2)) sym_assert(p.is_sep()==issep(b)&&p.is_vd()==isvd(b),"the latest name selects its covariance model");
  else { sym_assert(issep(b)||!p.is_sep(),"a separable covariance does not outlive its selection"); sym_assert(isvd(b)||!p.is_vd(),"a VD covariance does not outlive its selection"); }
  if(PAR("run",0)){ int calls=0; FitFunc f=[&calls](const double *x,const int &n){ return objc(x,n,calls++); }; CMASolutions s=cmaes<GN>(f,p); sym_assert((s.sepcov().size()>0)==(issep(b)||isvd(b)),"a run uses the covariance model of the latest selected algorithm"); }
  sym_reach("end");
}
enum { NS=35 }; struct Snap { double v[NS]; };
template<class G> static Snap snap(CMAParameters<G> &p){ Snap s; int k=0; double *v=s.v; for(int i=0;i<NS;i++) v[i]=0;
  v[k++]=p.get_max_iter(); v[k++]=p.get_max_fevals(); v[k++]=p.get_ftarget(); v[k++]=p.get_seed(); v[k++]=p.get_ftolerance(); v[k++]=p.get_xtolerance(); v[k++]=p.get_gradient(); v[k++]=p.get_edm(); v[k++]=p.get_mt_feval(); v[k++]=p.get_maximize(); v[k++]=p.get_uh(); v[k++]=p.get_tpa(); v[k++]=p.get_restarts(); v[k++]=p.get_lazy_update(); v[k++]=p.quiet(); v[k++]=p.get_algo();
  v[k++]=p.get_x0min()(0); v[k++]=p.get_x0max()(0); v[k++]=p.get_x0min()(D-1); v[k++]=p.get_x0max()(D-1); v[k++]=p.lambda(); v[k++]=p.dim(); v[k++]=p.get_sigma_init(); v[k++]=p.is_sep()+2*p.is_vd();
  v[k++]=p._max_hist; v[k++]=p._elitist; v[k++]=p._initial_elitist; v[k++]=p._initial_elitist_on_restart; v[k++]=p._initial_fvalue; v[k++]=p._fixed_p.size(); auto f=p._fixed_p.find(0); v[k++]=f==p._fixed_p.end()?0:(*f).second; auto c=p._stoppingcrit.find(MAXITER); v[k++]=c==p._stoppingcrit.end()?1:(*c).second; v[k++]=p._mu; v[k++]=p._full_fplot; v[k++]=p._fplot=="some.dat"; return s; }
// apply option o with symbolic argument; update the expectation
template<class G> static void apply(CMAParameters<G> &p,int o,Snap &e){
  switch(o){
    case 0: { int x=sym_int("maxiter",-10,100000); p.set_max_iter(x); e.v[0]=x; break; }
    case 1: { int x=sym_int("maxfevals",-10,100000); p.set_max_fevals(x); e.v[1]=x; break; }
    case 2: { double x=sym_range("ftarget",-1e6,1e6); p.set_ftarget(x); e.v[2]=x; break; }
    case 3: { int x=sym_int("seed",1,1000000); p.set_seed(x); e.v[3]=x; break; }
    case 4: { double x=sym_range("ftol",0,1); p.set_ftolerance(x); e.v[4]=x; break; }
    case 5: { double x=sym_range("xtol",0,1); p.set_xtolerance(x); e.v[5]=x; break; }
    case 6: { int x=sym_choose("b",2); p.set_gradient(x); e.v[6]=x; break; }
    case 7: { int x=sym_choose("b",2); p.set_edm(x); e.v[7]=x; break; }
    case 8: { int x=sym_choose("b",2); p.set_mt_feval(x); e.v[8]=x; break; }
    case 9: { int x=sym_choose("b",2); p.set_maximize(x); e.v[9]=x; break; }
    case 10: { int x=sym_choose("b",2); p.set_uh(x); e.v[10]=x; break; }
    case 11: { int x=sym_choose("t",3); p.set_tpa(x); e.v[11]=x; break; }
    case 12: { int x=sym_int("restarts",0,100); p.set_restarts(x); e.v[12]=x; break; }
    case 13: { int x=sym_choose("b",2); p.set_lazy_update(x); e.v[13]=x; break; }
    case 14: { int x=sym_choose("b",2); p.set_quiet(x); e.v[14]=x; break; }
    case 15: { double x=sym_range("x0",-100,100); p.set_x0(x); for(int k=16;k<20;k++) e.v[k]=x; break; }
    case 16: { double x=sym_range("x0min",-100,100),y=sym_range("x0max",-100,100); p.set_x0(x,y); e.v[16]=e.v[18]=x; e.v[17]=e.v[19]=y; break; }
    case 17: { double x=sym_range("x0a",-100,100),y=sym_range("x0b",-100,100); std::vector<double> v(D,0.5),w(D,0.75); v[0]=x; w[D-1]=y; p.set_x0(v,w); e.v[16]=x; e.v[17]=0.75; e.v[18]=0.5; e.v[19]=y; break; }
    case 18: p.reset_ftarget(); e.v[2]=-std::numeric_limits<double>::infinity(); break;
    case 19: { int x=sym_choose("e",4); p.set_elitism(x); e.v[25]=x==1; e.v[26]=x==2; e.v[27]=x==3; break; }
    case 20: { int x=sym_choose("b",2); p.set_initial_fvalue(x); e.v[28]=x; break; }
    case 21: { double x=sym_range("fixed",-10,10); p.set_fixed_p(0,x); e.v[29]=1; e.v[30]=x; break; }
    case 22: p.unset_fixed_p(0); e.v[29]=e.v[30]=0; break;
    case 23: { int x=sym_int("hist",1,100); p.set_max_hist(x); e.v[24]=x; break; }
    case 24: { int x=sym_choose("b",2); p.set_stopping_criteria(MAXITER,x); e.v[31]=x; break; }
    case 27: { int x=sym_choose("algo",15); p.set_str_algo(NM[x]); e.v[15]=x; e.v[23]=issep(x)+2*isvd(x); break; }
    case 25: p.set_fplot("some.dat"); e.v[34]=1; break; case 26: { int x=sym_choose("b",2); p.set_full_fplot(x); e.v[33]=x; break; }
  }
}
static void agree(const Snap &a,const Snap &e,const char *m){ for(int i=0;i<NS;i++) sym_assert(a.v[i]==e.v[i],m); }
extern "C" void h_opts(){
  mkglobals(); std::vector<double> x0(D); for(int i=0;i<D;i++) x0[i]=0.3*i-1; CMAParameters<GN> p(x0,0.5,6,12); p.set_algo(PAR("algo",0)); 
  Snap e=snap(p); int a=PAR("a",-1); if(a<0) a=sym_choose("first option",28); int b=sym_choose("second option",28);
  apply(p,a,e); agree(snap(p),e,"an option takes the value given and changes no other"); apply(p,b,e); agree(snap(p),e,"an option takes the latest value given and changes no other");
  CMAParameters<GN> q(p); agree(snap(q),e,"a copy has the same options"); sym_reach("end");
}
template<class G> static void ctor(){
  int lam=PAR("lam",-1)==99?sym_choose("lambda",8)-3:PAR("lam",-1), sd=PAR("seed",77); double sg=sym_range("sigma",-1,10); std::vector<double> x0(D); for(int i=0;i<D;i++){ x0[i]=x0of(i); if(PAR("gp",0)==0||PAR("gp",0)==3) x0[i]=sym_range("x0",-100,100); }
  CMAParameters<G> p=PAR("ptr",0)?CMAParameters<G>(D,&x0[0],sg,lam,sd,MkGP<G>::make()):CMAParameters<G>(x0,sg,lam,sd,MkGP<G>::make());
  int el=lam<2?4+(int)std::floor(3*std::log((double)D)):lam; sym_assert(p.lambda()==el,"the population size is the one given, or the default"); sym_assert(p.dim()==D,"the dimension is that of the start point"); sym_assert(p.get_seed()==sd,"the seed is the one given"); sym_assert(p.get_sigma_init()==sg,"the initial step size is the one given");
  int rg=PAR("range",0); std::vector<double> hi=x0; if(rg){ for(int i=0;i<D;i++) hi[i]=x0[i]+sym_range("width",0.001,50); p.set_x0(x0,hi); }
  CMASolutions s(p); dVec u=p.get_gp().pheno(s.xmean());
  for(int i=0;i<D;i++){ if(!rg) sym_assert_close(u(i),x0[i],1e-6,"a run starts at the point given"); else sym_assert((u(i)>=x0[i]-1e-6)&(u(i)<=hi[i]+1e-6),"a run starts within the interval given"); }
  if(sg>0) sym_assert(s.sigma()==sg,"a run starts with the step size given"); else sym_assert_close(s.sigma(),1.0/D,1e-9,"a run starts with the default step size");
  sym_assert((int)s.size()==el,"one candidate per offspring"); sym_assert(s.fevals()==0&&s.niter()==0,"a run starts with nothing spent");
  sym_reach("end");
}
extern "C" void h_ctor(){ mkglobals(); switch(PAR("gp",0)){ case 0: ctor<GN>(); break; case 1: ctor<GB>(); break; case 2: ctor<GBS>(); break; case 3: ctor<GS>(); break; } }
