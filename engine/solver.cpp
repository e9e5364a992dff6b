#include "solver.h"
#include <llvm/IR/InstrTypes.h>
#include <unistd.h>
#include <sys/wait.h>
#include <fstream>
#include <sstream>
using llvm::CmpInst;
using z3::expr;
static double now(){return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}

static z3::solver mkSolver(z3::context&c,const char*logic){
  if(logic&&*logic){ return z3::solver(c,logic); }
  return z3::solver(c);
}
SymSolver::SymSolver(bool r,const char*lg):s(mkSolver(c,lg)),real(r),logic(lg?lg:""),F64(c.fpa_sort(11,53)),RNE(c),RTZ(c){
  c.set_rounding_mode(z3::RNE);
  RNE=expr(c,Z3_mk_fpa_rne(c)); RTZ=expr(c,Z3_mk_fpa_rtz(c));
}
static expr realConst(z3::context&c,double d){
  if(!(std::isfinite(d))) throw Unsupported{"infinite or NaN constant in real arithmetic"};
  if(d==0) return c.real_val(0);
  int e; double m=frexp(d,&e); // d=m*2^e
  long long mant=(long long)ldexp(m,53); e-=53;
  while((mant&1)==0){mant>>=1;e++;}
  // build num/den strings
  auto pow2=[&](int k){ // decimal string of 2^k
    std::string v="1"; for(int i=0;i<k;i++){int carry=0;for(int j=v.size()-1;j>=0;j--){int x=(v[j]-'0')*2+carry;v[j]='0'+x%10;carry=x/10;} if(carry)v.insert(v.begin(),'0'+carry);} return v;};
  static std::map<int,std::string> memo;
  auto P=[&](int k)->std::string&{auto it=memo.find(k);if(it==memo.end())it=memo.emplace(k,pow2(k)).first;return it->second;};
  if(e>=0){ expr a=c.real_val(std::to_string(mant).c_str()); expr b=c.real_val(P(e).c_str()); return (a*b).simplify(); }
  std::string q=std::to_string(mant)+"/"+P(-e);
  return c.real_val(q.c_str());
}
expr SymSolver::trb(Expr*e){ return tr(e); }
expr SymSolver::tr(Expr*e){
  if(e->id<have.size()&&have[e->id]) return cache[e->id];
  // explicit post-order to avoid deep recursion
  std::vector<std::pair<Expr*,int>> stk; stk.push_back({e,0});
  while(!stk.empty()){
    auto [x,ph]=stk.back();
    if(x->id<have.size()&&have[x->id]){stk.pop_back();continue;}
    if(ph==0){ stk.back().second=1; for(Expr*y:{x->a,x->b,x->c}) if(y&&!(y->id<have.size()&&have[y->id])) stk.push_back({y,0}); continue; }
    stk.pop_back();
    auto A=[&](){return cache[x->a->id];}; auto B=[&](){return cache[x->b->id];}; auto C=[&](){return cache[x->c->id];};
    expr r(c); unsigned w=x->ty;
    auto pow2i=[&](unsigned k){return c.int_val(std::to_string((unsigned long long)1<<(k>63?63:k)).c_str())*(k>63?c.int_val(2):c.int_val(1));};
    auto toU=[&](expr v,unsigned ww){return z3::ite(v<0,v+pow2i(ww),v);};
    switch(x->op){
      case O_CONST:
        if(x->isF()) r= real?realConst(c,bits2d(x->k)):expr(c,Z3_mk_fpa_numeral_double(c,bits2d(x->k),F64));
        else if(w==1) r=c.bool_val(x->k!=0);
        else if(real) r=c.int_val((int64_t)sextw(x->k,w));
        else r=c.bv_val((uint64_t)x->k,w);
        break;
      case O_VAR:{ std::string n="v"+std::to_string(x->k);
        if(x->isF()) r= real?c.real_const(n.c_str()):c.constant(n.c_str(),F64);
        else if(w==1) r=c.bool_const(n.c_str());
        else r= real?c.int_const(n.c_str()):c.bv_const(n.c_str(),w);
        break;}
      case O_FADD: r=real?A()+B():expr(c,Z3_mk_fpa_add(c,RNE,A(),B()));break;
      case O_FSUB: r=real?A()-B():expr(c,Z3_mk_fpa_sub(c,RNE,A(),B()));break;
      case O_FMUL: r=real?A()*B():expr(c,Z3_mk_fpa_mul(c,RNE,A(),B()));break;
      case O_FDIV: r=real?A()/B():expr(c,Z3_mk_fpa_div(c,RNE,A(),B()));break;
      case O_FREM: if(real){expr q=A()/B(); expr t=z3::ite(q>=0,expr(c,Z3_mk_int2real(c,Z3_mk_real2int(c,q))),-expr(c,Z3_mk_int2real(c,Z3_mk_real2int(c,-q)))); r=A()-B()*t;} else throw Unsupported{"frem in fp"};break;
      case O_FMIN: r=real?z3::ite(A()<=B(),A(),B()):expr(c,Z3_mk_fpa_min(c,A(),B()));break;
      case O_FMAX: r=real?z3::ite(A()>=B(),A(),B()):expr(c,Z3_mk_fpa_max(c,A(),B()));break;
      case O_FNEG: r=real?-A():expr(c,Z3_mk_fpa_neg(c,A()));break;
      case O_FABS: r=real?z3::ite(A()>=0,A(),-A()):expr(c,Z3_mk_fpa_abs(c,A()));break;
      case O_FCMP:{
        if(real){ switch(x->k){case CmpInst::FCMP_OEQ:r=A()==B();break;case CmpInst::FCMP_OLT:r=A()<B();break;case CmpInst::FCMP_OLE:r=A()<=B();break;default:throw Unsupported{"fcmp pred"};} }
        else { switch(x->k){case CmpInst::FCMP_OEQ:r=expr(c,Z3_mk_fpa_eq(c,A(),B()));break;case CmpInst::FCMP_OLT:r=expr(c,Z3_mk_fpa_lt(c,A(),B()));break;case CmpInst::FCMP_OLE:r=expr(c,Z3_mk_fpa_leq(c,A(),B()));break;
          case CmpInst::FCMP_ORD:r=!expr(c,Z3_mk_fpa_is_nan(c,A()))&&!expr(c,Z3_mk_fpa_is_nan(c,B()));break;
          case CmpInst::FCMP_ONE:r=expr(c,Z3_mk_fpa_lt(c,A(),B()))||expr(c,Z3_mk_fpa_lt(c,B(),A()));break;
          case CmpInst::FCMP_UEQ:r=!(expr(c,Z3_mk_fpa_lt(c,A(),B()))||expr(c,Z3_mk_fpa_lt(c,B(),A())));break;
          default:throw Unsupported{"fcmp pred"};} }
        break;}
      case O_SELECT: r=z3::ite(A(),B(),C());break;
      case O_ZEXT: if(x->a->ty==1) r= real?z3::ite(A(),c.int_val(1),c.int_val(0)):z3::ite(A(),c.bv_val(1,w),c.bv_val(0,w)); else r= real?toU(A(),x->a->ty):z3::zext(A(),w-x->a->ty);break;
      case O_SEXT: if(x->a->ty==1) r= real?z3::ite(A(),c.int_val(-1),c.int_val(0)):z3::ite(A(),~c.bv_val(0,w),c.bv_val(0,w)); else r= real?A():z3::sext(A(),w-x->a->ty);break;
      case O_TRUNC: if(w==1) r= real?(z3::mod(A(),2)==1):(A().extract(0,0)==c.bv_val(1,1));
        else if(real){expr m=z3::mod(A(),pow2i(w)); r=z3::ite(m>=pow2i(w-1),m-pow2i(w),m);} else r=A().extract(w-1,0);break;
      case O_SITOFP: r= real?expr(c,Z3_mk_int2real(c,A())):expr(c,Z3_mk_fpa_to_fp_signed(c,RNE,A(),F64));
        break;
      case O_UITOFP: if(x->a->ty==1) r= real?z3::ite(A(),c.real_val(1),c.real_val(0)):z3::ite(A(),expr(c,Z3_mk_fpa_numeral_double(c,1.0,F64)),expr(c,Z3_mk_fpa_numeral_double(c,0.0,F64)));
        else r= real?expr(c,Z3_mk_int2real(c,toU(A(),x->a->ty))):expr(c,Z3_mk_fpa_to_fp_unsigned(c,RNE,A(),F64));break;
      case O_FPTOSI: if(real) r=z3::ite(A()>=0,expr(c,Z3_mk_real2int(c,A())),-expr(c,Z3_mk_real2int(c,-A())));
        else { unsigned ww=w<32?32:w; double hi=ldexp(1.0,ww-1); expr lo=expr(c,Z3_mk_fpa_numeral_double(c,ww==32?-hi-1:-hi,F64)),h=expr(c,Z3_mk_fpa_numeral_double(c,hi,F64));
          expr in=(ww==32?expr(c,Z3_mk_fpa_gt(c,A(),lo)):expr(c,Z3_mk_fpa_geq(c,A(),lo)))&&expr(c,Z3_mk_fpa_lt(c,A(),h));
          r=z3::ite(in,expr(c,Z3_mk_fpa_to_sbv(c,RTZ,A(),ww)),c.bv_val((uint64_t)1<<(ww-1),ww)); if(w<32) r=r.extract(w-1,0);} break;
      case O_FPTOUI: if(real) r=expr(c,Z3_mk_real2int(c,A())); else r=expr(c,Z3_mk_fpa_to_ubv(c,RTZ,A(),w));break;
      case O_F2I: if(real) throw Unsupported{"bit pattern of a real"}; r=expr(c,Z3_mk_fpa_to_ieee_bv(c,A()));break;
      case O_I2F: if(real) throw Unsupported{"real from bit pattern"}; r=expr(c,Z3_mk_fpa_to_fp_bv(c,A(),F64));break;
      case O_FN1:{
        if(x->k==F_SQRT&&!real){r=expr(c,Z3_mk_fpa_sqrt(c,RNE,A()));break;}
        if(x->k==F_FLOOR||x->k==F_CEIL||x->k==F_TRUNC||x->k==F_ROUND){
          if(real){ auto fl=[&](expr v){return expr(c,Z3_mk_int2real(c,Z3_mk_real2int(c,v)));};
            if(x->k==F_FLOOR)r=fl(A()); else if(x->k==F_CEIL)r=-fl(-A()); else if(x->k==F_TRUNC)r=z3::ite(A()>=0,fl(A()),-fl(-A())); else r=z3::ite(A()>=0,fl(A()+c.real_val("1/2")),-fl(-A()+c.real_val("1/2"))); }
          else { Z3_ast rm= x->k==F_FLOOR?Z3_mk_fpa_rtn(c):x->k==F_CEIL?Z3_mk_fpa_rtp(c):x->k==F_TRUNC?Z3_mk_fpa_rtz(c):Z3_mk_fpa_rna(c); r=expr(c,Z3_mk_fpa_round_to_integral(c,rm,A())); }
          break; }
        if(x->k==F_SQRT&&real&&0){}
        z3::sort so=real?c.real_sort():F64; z3::func_decl f=c.function(fn_names[x->k],so,so); r=f(A());break;}
      case O_FN2:{ if(x->k==F_COPYSIGN&&real){ r=z3::ite((A()>=0)==(B()>=0),A(),-A()); break; }
        z3::sort so=real?c.real_sort():F64; z3::func_decl f=c.function(fn_names[x->k],so,so,so); r=f(A(),B());break;}
      case O_ICMP:{ expr a=A(),b=B(); unsigned aw=x->a->ty;
        if(aw==1){ auto bi=[&](expr q){return z3::ite(q,c.int_val(1),c.int_val(0));}; a=bi(a);b=bi(b); // compare as unsigned 0/1, signed reversed
          switch(x->k){case CmpInst::ICMP_UGT:case CmpInst::ICMP_SLT:r=a>b;break;case CmpInst::ICMP_UGE:case CmpInst::ICMP_SLE:r=a>=b;break;case CmpInst::ICMP_ULT:case CmpInst::ICMP_SGT:r=a<b;break;case CmpInst::ICMP_ULE:case CmpInst::ICMP_SGE:r=a<=b;break;default:r=a==b;} break; }
        if(real){ bool un=x->k==CmpInst::ICMP_UGT||x->k==CmpInst::ICMP_UGE||x->k==CmpInst::ICMP_ULT||x->k==CmpInst::ICMP_ULE; if(un){a=toU(a,aw);b=toU(b,aw);} }
        switch(x->k){ case CmpInst::ICMP_EQ:r=a==b;break;
          case CmpInst::ICMP_UGT:r=real?a>b:z3::ugt(a,b);break;case CmpInst::ICMP_UGE:r=real?a>=b:z3::uge(a,b);break;case CmpInst::ICMP_ULT:r=real?a<b:z3::ult(a,b);break;case CmpInst::ICMP_ULE:r=real?a<=b:z3::ule(a,b);break;
          case CmpInst::ICMP_SGT:r=a>b;break;case CmpInst::ICMP_SGE:r=a>=b;break;case CmpInst::ICMP_SLT:r=a<b;break;case CmpInst::ICMP_SLE:r=a<=b;break; default:throw Unsupported{"icmp"};}
        break;}
      case O_AND: if(w==1)r=A()&&B(); else if(real){ if(isC(x->b)&&((x->b->k+1)&x->b->k)==0){ expr m=c.int_val(std::to_string(x->b->k+1).c_str()); r=z3::mod(A(),m);} else throw Unsupported{"and over Int"}; } else r=A()&B();break;
      case O_OR: if(w==1)r=A()||B(); else if(real)throw Unsupported{"or over Int"}; else r=A()|B();break;
      case O_XOR: if(w==1){ if(isCv(x->b,1))r=!A(); else r=A()!=B(); } else if(real){ if(isCv(x->b,maskw(~0ull,w))) r=-A()-1; else throw Unsupported{"xor over Int"};} else r=A()^B();break;
      case O_ADD:r=A()+B();break;case O_SUB:r=A()-B();break;case O_MUL:r=A()*B();break;
      case O_UDIV:r=real?expr(c,Z3_mk_div(c,toU(A(),w),toU(B(),w))):z3::udiv(A(),B());break;
      case O_UREM:r=real?z3::mod(toU(A(),w),toU(B(),w)):z3::urem(A(),B());break;
      case O_SDIV: if(real){expr a=A(),b=B(); expr q=expr(c,Z3_mk_div(c,z3::ite(a>=0,a,-a),z3::ite(b>=0,b,-b))); r=z3::ite((a>=0)==(b>=0),q,-q);} else r=A()/B();break;
      case O_SREM: if(real){expr a=A(),b=B(); expr m=z3::mod(z3::ite(a>=0,a,-a),z3::ite(b>=0,b,-b)); r=z3::ite(a>=0,m,-m);} else r=z3::srem(A(),B());break;
      case O_SHL: if(real){ if(!isC(x->b))throw Unsupported{"shl"}; r=A()*pow2i(x->b->k);} else r=z3::shl(A(),B());break;
      case O_LSHR: if(real){ if(!isC(x->b))throw Unsupported{"lshr"}; r=expr(c,Z3_mk_div(c,toU(A(),w),pow2i(x->b->k)));} else r=z3::lshr(A(),B());break;
      case O_ASHR: if(real){ if(!isC(x->b))throw Unsupported{"ashr"}; r=expr(c,Z3_mk_div(c,A(),pow2i(x->b->k)));} else r=z3::ashr(A(),B());break;
      default: throw Unsupported{"blob used in a constraint"};
    }
    if(x->id>=have.size()){ size_t n=std::max<size_t>(x->id+1,have.size()*2+1024); have.resize(n,0); cache.resize(n,expr(c)); }
    cache[x->id]=r; have[x->id]=1;
  }
  return cache[e->id];
}
void SymSolver::collectFns(Expr*e,std::vector<Expr*>&out,std::set<uint32_t>&seen){
  std::vector<Expr*> stk{e};
  while(!stk.empty()){ Expr*x=stk.back();stk.pop_back(); if(!seen.insert(x->id).second)continue;
    if(x->op==O_FN1||x->op==O_FN2||x->op==O_FDIV)out.push_back(x);
    for(Expr*y:{x->a,x->b,x->c})if(y&&y->op!=O_CONST&&y->op!=O_VAR)stk.push_back(y); }
}
// Facts about math functions used when they have symbolic arguments (listed in DESIGN.md).
void SymSolver::axioms(Expr*e,std::vector<expr>&out){
  std::vector<Expr*>*fl; 
  if(!e->fnsDone){ std::vector<Expr*>*v=new std::vector<Expr*>(); std::set<uint32_t> seen; collectFns(e,*v,seen); e->fns=v; e->fnsDone=true; }
  fl=e->fns; if(!fl)return;
  for(Expr*f:*fl){
    if(f->op==O_FDIV){ if(real&&!isC(f->b)) out.push_back(tr(f->b)!=0); continue; }
    expr y=tr(f), x=tr(f->a);
    if(real){
      switch(f->k){
        case F_SQRT: out.push_back(y>=0); out.push_back(z3::implies(x>=0,y*y==x)); break;
        case F_EXP: case F_EXP2: out.push_back(y>0); out.push_back(z3::implies(x>=0,y>=1)); out.push_back(z3::implies(x<=0,y<=1)); out.push_back(z3::implies(x>0,y>1)); out.push_back(z3::implies(x<0,y<1)); if(f->k==F_EXP){ out.push_back(y>=x+1); Itv r=PC.range(f); char b[64]; if(std::isfinite(r.lo)&&r.lo>1e-100){ snprintf(b,64,"%.25f",r.lo*(1-1e-9)); out.push_back(y>=c.real_val(b)); } if(std::isfinite(r.hi)&&r.hi<1e100){ snprintf(b,64,"%.25f",r.hi*(1+1e-9)); out.push_back(y<=c.real_val(b)); } } break;
        case F_LOG: out.push_back(z3::implies(x>0,y<=x-1)); out.push_back(z3::implies(x>=1,y>=0)); out.push_back(z3::implies(x>1,y>0)); out.push_back(z3::implies(x>0&&x<1,y<0)); out.push_back(z3::implies(x==1,y==0)); out.push_back(z3::implies(x>0,x*(1-y)<=1)); break;
        case F_LOG10: case F_LOG2: out.push_back(z3::implies(x>1,y>0)); out.push_back(z3::implies(x>0&&x<1,y<0)); out.push_back(z3::implies(x==1,y==0)); break;
        case F_SIN: case F_COS: case F_TANH: case F_ERF: out.push_back(y>=-1); out.push_back(y<=1); break;
        case F_POW: { expr p=tr(f->b); out.push_back(z3::implies(x>0,y>0)); out.push_back(z3::implies(x==1,y==1)); out.push_back(z3::implies(p==0,y==1)); out.push_back(z3::implies(x>=1&&p>=0,y>=1)); out.push_back(z3::implies(x>=1&&p<=0,y<=1)); out.push_back(z3::implies(x>0&&x<=1&&p>=0,y<=1)); out.push_back(z3::implies(x>0&&x<=1&&p<=0,y>=1)); out.push_back(z3::implies(x==0&&p>0,y==0)); out.push_back(z3::implies(x>=1&&p>=1,y>=x)); out.push_back(z3::implies(x>0&&x<=1&&p>=1,y<=x)); if(isC(f->b)&&f->b->isF()&&bits2d(f->b->k)==floor(bits2d(f->b->k))&&fmod(bits2d(f->b->k),2.0)==0) out.push_back(y>=0); break; }
        case F_HYPOT: out.push_back(y>=0); out.push_back(y*y==x*x+tr(f->b)*tr(f->b)); break;
        case F_CBRT: out.push_back(y*y*y==x); break;
      }
    } else {
      auto N=[&](double d){return expr(c,Z3_mk_fpa_numeral_double(c,d,F64));};
      auto ge=[&](expr a,expr b){return expr(c,Z3_mk_fpa_geq(c,a,b));}; auto le=[&](expr a,expr b){return expr(c,Z3_mk_fpa_leq(c,a,b));};
      switch(f->k){
        case F_EXP: out.push_back(z3::implies(!expr(c,Z3_mk_fpa_is_nan(c,x)),ge(y,N(0)))); out.push_back(z3::implies(ge(x,N(0)),ge(y,N(1)))); out.push_back(z3::implies(le(x,N(0)),le(y,N(1)))); break;
        case F_SIN: case F_COS: out.push_back(expr(c,Z3_mk_fpa_is_nan(c,y))||(ge(y,N(-1))&&le(y,N(1)))); break;
        case F_POW: out.push_back(z3::implies(ge(x,N(0)),ge(y,N(0))||expr(c,Z3_mk_fpa_is_nan(c,y)))); break;
      }
    }
  }
}
void SymSolver::sync(const std::vector<Expr*>&pc){
  size_t n=0; while(n<pc.size()&&n<stack.size()&&pc[n]==stack[n])n++;
  if(stack.size()>n){ s.pop(stack.size()-n); stack.resize(n); }
  for(size_t i=n;i<pc.size();i++){ 
    std::vector<expr> ax; axioms(pc[i],ax); expr t=tr(pc[i]);
    s.push(); for(auto&a:ax)s.add(a); s.add(t); stack.push_back(pc[i]); }
}
static uint64_t fpaBits(z3::context&c,expr v){
  unsigned long long r=0; 
  Z3_ast bv=Z3_mk_fpa_to_ieee_bv(c,v); expr b=expr(c,bv).simplify();
  if(Z3_fpa_is_numeral_nan(c,v)) return 0x7ff8000000000000ull;
  Z3_get_numeral_uint64(c,b,(uint64_t*)&r); return r;
}
uint64_t SymSolver::modelVal(z3::model&m,Expr*v){
  expr val=m.eval(tr(v),true);
  if(v->isF()){
    if(!real) return fpaBits(c,val);
    if(val.is_numeral()){ std::string num=val.numerator().get_decimal_string(0),den=val.denominator().get_decimal_string(0); 
      double d; if(num.size()<300&&den.size()<300){ long double a=strtold(num.c_str(),0),b=strtold(den.c_str(),0); d=(double)(a/b);} else d=strtod(val.get_decimal_string(30).c_str(),0);
      return d2bits(d); }
    std::string ds=Z3_is_algebraic_number(c,val)?std::string(Z3_get_numeral_decimal_string(c,val,25)):std::string("0");
    return d2bits(strtod(ds.c_str(),0));
  }
  if(v->ty==1) return val.is_true();
  if(real){ int64_t r=0; if(val.is_numeral()) val.is_numeral_i64(r); return maskw((uint64_t)r,v->ty); }
  uint64_t r=0; val.is_numeral_u64(r); return r;
}
void SymSolver::getModel(z3::model m,Model*out){
  out->v.assign(EP.vars.size(),0);
  for(size_t i=0;i<EP.vars.size();i++){ Expr*v=EP.vars[i].e; if(!(v->id<have.size()&&have[v->id]))continue; out->v[i]=modelVal(m,v); }
}
SatRes SymSolver::check(const std::vector<Expr*>&pc,Expr*extra,Model*out,unsigned tmo,bool isAssert){
  if(extra&&isC(extra)&&!extra->k) return R_UNSAT;
  double t0=now(); st.queries++; if(isAssert)st.asserts_checked++; else st.branch_q++;
  sync(pc);
  std::vector<expr> ax; 
  s.push(); if(extra){ axioms(extra,ax); for(auto&a:ax)s.add(a); s.add(tr(extra)); }
  z3::params p(c); p.set("timeout",tmo); s.set(p);
  z3::check_result r=z3::unknown;
  try { r=s.check(); if(r==z3::sat&&out) getModel(s.get_model(),out); } catch(z3::exception&ex){ r=z3::unknown; }
  s.pop();
  SatRes res= r==z3::sat?R_SAT:r==z3::unsat?R_UNSAT:R_UNKNOWN;
  if(res==R_UNKNOWN&&isAssert) res=fallback(pc,extra,out,tmo*2);
  double dt=now()-t0; st.time+=dt; if(dt>st.maxq)st.maxq=dt;
  if(res==R_SAT)st.sat++; else if(res==R_UNSAT){st.unsat++; if(isAssert)st.assert_unsat++;} else st.unknown++;
  return res;
}
// A portfolio for queries the incremental core gives up on: one-shot z3 and cvc5 processes in parallel.
SatRes SymSolver::fallback(const std::vector<Expr*>&pc,Expr*extra,Model*out,unsigned tmo){
  st.fallback++;
  z3::solver f(c); for(Expr*e:pc){std::vector<expr> ax;axioms(e,ax);for(auto&a:ax)f.add(a);f.add(tr(e));} 
  if(extra){std::vector<expr> ax;axioms(extra,ax);for(auto&a:ax)f.add(a);f.add(tr(extra));}
  std::string smt=f.to_smt2();
  char tmpl[]="/tmp/symexqXXXXXX"; int fd=mkstemp(tmpl); if(fd<0)return R_UNKNOWN; 
  std::string head=real?"(set-logic ALL)\n":"(set-logic ALL)\n"; std::string all=head+smt; if(write(fd,all.data(),all.size())<0){} close(fd);
  std::string T=std::to_string(tmo/1000+1); std::string F=tmpl;
  std::vector<std::string> cmds={"timeout "+T+" z3-new -smt2 "+F, "timeout "+T+" cvc5 --tlimit="+std::to_string(tmo)+" "+(real?"--nl-cov ":"")+F, "timeout "+T+" z3-new -smt2 tactic.default_tactic='(then simplify solve-eqs "+std::string(real?"purify-arith nlsat":"fpa2bv simplify bit-blast sat")+")' "+F};
  std::vector<FILE*> ps; for(auto&cm:cmds) ps.push_back(popen((cm+" 2>/dev/null").c_str(),"r"));
  SatRes res=R_UNKNOWN; 
  for(FILE*p:ps){ if(!p)continue; char line[256]; std::string o; while(fgets(line,256,p))o+=line; pclose(p); 
    if(res!=R_UNKNOWN)continue; if(o.find("(error")!=std::string::npos)continue; if(o.rfind("unsat",0)==0)res=R_UNSAT; else if(o.rfind("sat",0)==0)res=R_SAT; }
  unlink(tmpl);
  if(res==R_SAT&&out){ z3::params p(c);p.set("timeout",tmo);f.set(p); try{ if(f.check()==z3::sat)getModel(f.get_model(),out); else res=R_UNKNOWN; }catch(z3::exception&){res=R_UNKNOWN;} }
  return res;
}

// a < b (strict) or a <= b, decided over the linear relaxation of the polynomial normal form of a-b
bool SymSolver::preIneq(Expr*a,Expr*b,bool strict){
  try{ Poly p=PC.norm(a); for(auto&t:PC.norm(b)){ auto it=p.find(t.first); if(it==p.end())p[t.first]=-t.second; else { it->second-=t.second; if(it->second==0)p.erase(it);} }
    if(p.size()>3000)return false;
    Itv r=PC.rangeOf(p); if(strict?!(r.hi<0):!(r.hi<=0)){ bool cst=p.empty()||(p.size()==1&&p.begin()->first.empty()); if(!cst)return false; }
    double t0=now(); z3::solver q(c,"QF_LRA"); expr sum=c.real_val(0); int k=0;
    auto num=[&](double d){return realConst(c,d);};
    z3::expr_vector terms(c);
    for(auto&t:p){ expr co=c.real_val(t.second.get_str().c_str()); if(t.first.empty()){terms.push_back(co);continue;} expr m=c.real_const(("m"+std::to_string(k++)).c_str()); Itv mr=PC.monoRange(t.first); if(std::isfinite(mr.lo))q.add(m>=num(mr.lo)); if(std::isfinite(mr.hi))q.add(m<=num(mr.hi)); terms.push_back(co*m); }
    if(terms.size())sum=z3::sum(terms);
    q.add(strict?sum>=0:sum>0); z3::params pr(c); pr.set("timeout",5000u); q.set(pr); z3::check_result r2=q.check(); st.queries++; st.time+=now()-t0; if(r2==z3::unsat){st.unsat++;return true;} st.unknown+=0; if(r2==z3::sat)st.sat++; return false;
  }catch(TooBig&){return false;}catch(z3::exception&){return false;} }
bool SymSolver::presolve(Expr*e){ if(!real)return false; if(isC(e))return e->k; 
  switch(e->op){ case O_AND: if(e->ty==1)return presolve(e->a)&&presolve(e->b); return false; case O_OR: if(e->ty==1)return presolve(e->a)||presolve(e->b); return false;
    case O_FCMP: if(e->k==CmpInst::FCMP_OLT)return preIneq(e->a,e->b,true); if(e->k==CmpInst::FCMP_OLE)return preIneq(e->a,e->b,false); if(e->k==CmpInst::FCMP_OEQ)return preIneq(e->a,e->b,false)&&preIneq(e->b,e->a,false); return false;
    case O_XOR: if(e->ty==1&&isCv(e->b,1)){ Expr*f=e->a; if(f->op==O_FCMP&&f->k==CmpInst::FCMP_OLT)return preIneq(f->b,f->a,false); if(f->op==O_FCMP&&f->k==CmpInst::FCMP_OLE)return preIneq(f->b,f->a,true); if(f->op==O_AND&&f->ty==1)return presolve(x_not(f->a))||presolve(x_not(f->b)); if(f->op==O_OR&&f->ty==1)return presolve(x_not(f->a))&&presolve(x_not(f->b)); } return false;
    default: return false; } }
