#include "expr.h"
#include "poly.h"
#include <llvm/IR/InstrTypes.h>
using llvm::CmpInst;
ExprPool EP;
const char *fn_names[]={"sqrt","exp","log","pow","floor","ceil","trunc","round","sin","cos","tan","atan","atan2","log10","log2","cbrt","tanh","exp2","log1p","expm1","acos","asin","sinh","cosh","lgamma","hypot","copysign","erf"};

double fn1_eval(unsigned f,double x){
  switch(f){case F_SQRT:return sqrt(x);case F_EXP:return exp(x);case F_LOG:return log(x);case F_FLOOR:return floor(x);case F_CEIL:return ceil(x);case F_TRUNC:return trunc(x);case F_ROUND:return round(x);case F_SIN:return sin(x);case F_COS:return cos(x);case F_TAN:return tan(x);case F_ATAN:return atan(x);case F_LOG10:return log10(x);case F_LOG2:return log2(x);case F_CBRT:return cbrt(x);case F_TANH:return tanh(x);case F_EXP2:return exp2(x);case F_LOG1P:return log1p(x);case F_EXPM1:return expm1(x);case F_ACOS:return acos(x);case F_ASIN:return asin(x);case F_SINH:return sinh(x);case F_COSH:return cosh(x);case F_LGAMMA:return lgamma(x);case F_ERF:return erf(x);}
  abort();
}
double fn2_eval(unsigned f,double x,double y){
  switch(f){case F_POW:return pow(x,y);case F_ATAN2:return atan2(x,y);case F_HYPOT:return hypot(x,y);case F_COPYSIGN:return copysign(x,y);} abort(); }

bool fcmp_eval(unsigned p,double a,double b){
  bool uno=(a!=a)||(b!=b);
  switch(p){
    case CmpInst::FCMP_FALSE:return false; case CmpInst::FCMP_TRUE:return true;
    case CmpInst::FCMP_OEQ:return !uno&&a==b; case CmpInst::FCMP_OGT:return !uno&&a>b;
    case CmpInst::FCMP_OGE:return !uno&&a>=b; case CmpInst::FCMP_OLT:return !uno&&a<b;
    case CmpInst::FCMP_OLE:return !uno&&a<=b; case CmpInst::FCMP_ONE:return !uno&&a!=b;
    case CmpInst::FCMP_ORD:return !uno; case CmpInst::FCMP_UNO:return uno;
    case CmpInst::FCMP_UEQ:return uno||a==b; case CmpInst::FCMP_UGT:return uno||a>b;
    case CmpInst::FCMP_UGE:return uno||a>=b; case CmpInst::FCMP_ULT:return uno||a<b;
    case CmpInst::FCMP_ULE:return uno||a<=b; case CmpInst::FCMP_UNE:return uno||a!=b;}
  abort();
}
bool icmp_eval(unsigned p,uint64_t a,uint64_t b,unsigned w){
  a=maskw(a,w);b=maskw(b,w);int64_t sa=sextw(a,w),sb=sextw(b,w);
  switch(p){case CmpInst::ICMP_EQ:return a==b;case CmpInst::ICMP_NE:return a!=b;case CmpInst::ICMP_UGT:return a>b;case CmpInst::ICMP_UGE:return a>=b;case CmpInst::ICMP_ULT:return a<b;case CmpInst::ICMP_ULE:return a<=b;case CmpInst::ICMP_SGT:return sa>sb;case CmpInst::ICMP_SGE:return sa>=sb;case CmpInst::ICMP_SLT:return sa<sb;case CmpInst::ICMP_SLE:return sa<=sb;} abort();
}
uint64_t ibin_eval(Op op,uint64_t a,uint64_t b,unsigned w,bool&ok){
  ok=true;a=maskw(a,w);b=maskw(b,w);
  switch(op){
    case O_ADD:return maskw(a+b,w);case O_SUB:return maskw(a-b,w);case O_MUL:return maskw(a*b,w);
    case O_UDIV:if(!b){ok=false;return 0;}return a/b;
    case O_UREM:if(!b){ok=false;return 0;}return a%b;
    case O_SDIV:if(!b){ok=false;return 0;}{int64_t x=sextw(a,w),y=sextw(b,w);if(y==-1)return maskw((uint64_t)0-a,w);return maskw((uint64_t)(x/y),w);}
    case O_SREM:if(!b){ok=false;return 0;}{int64_t x=sextw(a,w),y=sextw(b,w);if(y==-1)return 0;return maskw((uint64_t)(x%y),w);}
    case O_AND:return a&b;case O_OR:return a|b;case O_XOR:return a^b;
    case O_SHL:return b>=w?0:maskw(a<<b,w);case O_LSHR:return b>=w?0:a>>b;
    case O_ASHR:{int64_t x=sextw(a,w);return maskw((uint64_t)(x>>(b>=w?w-1:b)),w);}
    default:abort();}
}
double fbin_eval(Op op,double a,double b){
  switch(op){case O_FADD:return a+b;case O_FSUB:return a-b;case O_FMUL:return a*b;case O_FDIV:return a/b;case O_FREM:return fmod(a,b);case O_FMIN:return fmin(a,b);case O_FMAX:return fmax(a,b);default:abort();}
}
uint64_t fptosi_eval(double d,unsigned w){
  // x86-64 semantics of out-of-range conversions (cvttsd2si "integer indefinite")
  if(w<=32){ if(w<32){ // via 32-bit conversion then truncation
      if(!(d>-2147483649.0&&d<2147483648.0)) return maskw(0x80000000ull,w); return maskw((uint64_t)(int64_t)(int32_t)d,w);} 
    if(!(d>-2147483649.0&&d<2147483648.0)) return 0x80000000ull; return maskw((uint64_t)(int64_t)(int32_t)d,32);} 
  if(!(d>=-9223372036854775808.0&&d<9223372036854775808.0)) return 0x8000000000000000ull; return (uint64_t)(int64_t)d;
}
uint64_t fptoui_eval(double d,unsigned w){
  if(w<=32) return maskw(fptosi_eval(d,64),w);
  if(!(d>-1.0&&d<18446744073709551616.0)) return 0x8000000000000000ull; return (uint64_t)d;
}

static bool isF0(Expr*e){return isC(e)&&bits2d(e->k)==0.0;}
static bool isF1(Expr*e){return isC(e)&&bits2d(e->k)==1.0;}
Expr* x_fbin(Op op,Expr*a,Expr*b){
  if(isC(a)&&isC(b)) return EP.fconst(fbin_eval(op,bits2d(a->k),bits2d(b->k)));
  if(op==O_FMUL){ if(isF1(a))return b; if(isF1(b))return a; if(EP.real){if(isF0(a))return a; if(isF0(b))return b;} }
  if(op==O_FDIV){ if(isF1(b))return a; if(EP.real&&isF0(a))return a; }
  if(EP.real){ if(op==O_FADD){if(isF0(a))return b;if(isF0(b))return a;} if(op==O_FSUB){if(isF0(b))return a;if(a==b)return EP.fconst(0);} }
  else { if((op==O_FADD&&isC(b)&&b->k==0x8000000000000000ull)||(op==O_FSUB&&isC(b)&&b->k==0))return a; }
  if((op==O_FADD||op==O_FMUL)&&a->id>b->id) std::swap(a,b); // commutative (NaN payload ignored)
  return EP.mk(op,TF64,a,b);
}
Expr* x_funary(Op op,Expr*a){
  if(isC(a)){double d=bits2d(a->k);return EP.fconst(op==O_FNEG?-d:fabs(d));}
  if(op==O_FNEG&&a->op==O_FNEG)return a->a;
  if(op==O_FABS&&(a->op==O_FABS))return a;
  if(op==O_FABS&&a->op==O_FNEG)return x_funary(O_FABS,a->a);
  return EP.mk(op,TF64,a);
}
Expr* x_fcmp(unsigned p,Expr*a,Expr*b){
  if(isC(a)&&isC(b))return EP.iconst(fcmp_eval(p,bits2d(a->k),bits2d(b->k)),1);
  if(p==CmpInst::FCMP_TRUE)return EP.iconst(1,1); if(p==CmpInst::FCMP_FALSE)return EP.iconst(0,1);
  if(EP.real){
    // no NaN among symbolic reals; infinities only as constants
    if((isC(a)&&std::isnan(bits2d(a->k)))||(isC(b)&&std::isnan(bits2d(b->k)))) return EP.iconst((p&8)?1:0,1);
    unsigned q=p&7; // ordered part
    if(q==7)return EP.iconst(p==CmpInst::FCMP_ORD||1,1);
    if(q==0)return EP.iconst(0,1); // UNO
    if(isC(a)&&std::isinf(bits2d(a->k))){bool r=fcmp_eval(q,bits2d(a->k),0.0);return EP.iconst(r,1);} 
    if(isC(b)&&std::isinf(bits2d(b->k))){bool r=fcmp_eval(q,0.0,bits2d(b->k));return EP.iconst(r,1);} 
    if(a==b)return EP.iconst(fcmp_eval(q,0,0),1);
    for(int sw=0;sw<2;sw++){ Expr*cc=sw?a:b,*o=sw?b:a; if(isC(cc)&&fabs(bits2d(cc->k))>=1e100){ Itv r=PC.range(o); double v=bits2d(cc->k); if(v>0?r.hi<v:r.lo>v){ double t=0; return EP.iconst(sw?fcmp_eval(q,v,t):fcmp_eval(q,t,v),1); } } }
    p=q; // canonical ordered predicates
    if(p==CmpInst::FCMP_ORD)return EP.iconst(1,1);
    if(p==CmpInst::FCMP_OGT){p=CmpInst::FCMP_OLT;std::swap(a,b);} else if(p==CmpInst::FCMP_OGE){p=CmpInst::FCMP_OLE;std::swap(a,b);} 
    if(p==CmpInst::FCMP_ONE) return x_not(x_fcmp(CmpInst::FCMP_OEQ,a,b));
    if(p==CmpInst::FCMP_OEQ&&a->id>b->id)std::swap(a,b);
  } else {
    if(p==CmpInst::FCMP_OGT){p=CmpInst::FCMP_OLT;std::swap(a,b);} else if(p==CmpInst::FCMP_OGE){p=CmpInst::FCMP_OLE;std::swap(a,b);} 
    else if(p==CmpInst::FCMP_UGT){p=CmpInst::FCMP_ULT;std::swap(a,b);} else if(p==CmpInst::FCMP_UGE){p=CmpInst::FCMP_ULE;std::swap(a,b);} 
    // unordered forms as negations of ordered ones
    if(p==CmpInst::FCMP_ULT) return x_not(EP.mk(O_FCMP,1,b,a,0,CmpInst::FCMP_OLE));
    if(p==CmpInst::FCMP_ULE) return x_not(EP.mk(O_FCMP,1,b,a,0,CmpInst::FCMP_OLT));
    if(p==CmpInst::FCMP_UNE) return x_not(EP.mk(O_FCMP,1,a,b,0,CmpInst::FCMP_OEQ));
    if(p==CmpInst::FCMP_UNO) return x_not(EP.mk(O_FCMP,1,a,b,0,CmpInst::FCMP_ORD));
  }
  return EP.mk(O_FCMP,1,a,b,0,p);
}
Expr* x_not(Expr*c){
  if(isC(c))return EP.iconst(!c->k,1);
  if(c->op==O_XOR&&c->ty==1&&isCv(c->b,1))return c->a;
  return EP.mk(O_XOR,1,c,EP.iconst(1,1));
}
static Expr* boolOf(Expr*a){ // the i1 expression behind a 0/1 integer, or null
  if(isC(a))return a->k<=1?EP.iconst(a->k,1):nullptr;
  if(a->op==O_ZEXT&&a->a->ty==1)return a->a;
  if(a->op==O_SELECT){ Expr*x=boolOf(a->b),*y=boolOf(a->c); if(x&&y)return x_ibin(O_OR,x_ibin(O_AND,a->a,x),x_ibin(O_AND,x_not(a->a),y)); }
  return nullptr;
}
Expr* x_ibin(Op op,Expr*a,Expr*b){
  unsigned w=a->ty;
  if(w>1&&(op==O_AND||op==O_OR||op==O_XOR)&&!(isC(a)&&isC(b))){ Expr*x=boolOf(a),*y=x?boolOf(b):nullptr; if(x&&y)return x_cast(O_ZEXT,x_ibin(op,x,y),w); }
  if(isC(a)&&isC(b)){bool ok;uint64_t r=ibin_eval(op,a->k,b->k,w,ok);if(ok)return EP.iconst(r,w);}
  if(isC(a)&&(op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR))std::swap(a,b);
  if(isC(b)){
    if(b->k==0){ if(op==O_ADD||op==O_SUB||op==O_OR||op==O_XOR||op==O_SHL||op==O_LSHR||op==O_ASHR)return a; if(op==O_AND||op==O_MUL)return b; }
    if(b->k==maskw(~0ull,w)){ if(op==O_AND)return a; if(op==O_OR)return b; }
    if(b->k==1&&(op==O_MUL||op==O_UDIV||op==O_SDIV))return a;
    if(op==O_XOR&&w==1)return x_not(a);
    if(op==O_SUB) return x_ibin(O_ADD,a,EP.iconst(0-b->k,w));
    if(op==O_ADD&&a->op==O_ADD&&isC(a->b)) return x_ibin(O_ADD,a->a,EP.iconst(a->b->k+b->k,w));
  }
  if(a==b){ if(op==O_AND||op==O_OR)return a; if(op==O_XOR||op==O_SUB)return EP.iconst(0,w); }
  if(w==1&&op==O_ADD)op=O_XOR;
  if((op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR)&&!isC(b)&&a->id>b->id)std::swap(a,b);
  return EP.mk(op,w,a,b);
}
Expr* x_icmp(unsigned p,Expr*a,Expr*b){
  unsigned w=a->ty;
  if(isC(a)&&isC(b))return EP.iconst(icmp_eval(p,a->k,b->k,w),1);
  if(a==b)return EP.iconst(icmp_eval(p,0,0,w),1);
  if(isC(a)){std::swap(a,b);p=CmpInst::getSwappedPredicate((CmpInst::Predicate)p);} 
  if(isC(b)&&(a->op==O_ZEXT||a->op==O_SEXT)&&a->a->ty==1&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){
    uint64_t one=a->op==O_ZEXT?1:maskw(~0ull,w); bool eq=p==CmpInst::ICMP_EQ;
    if(b->k==0)return eq?x_not(a->a):a->a; if(b->k==one)return eq?a->a:x_not(a->a); return EP.iconst(!eq,1);
  }
  if(w==1){ // booleans
    if(p==CmpInst::ICMP_EQ) return isC(b)?(b->k?a:x_not(a)):x_not(x_ibin(O_XOR,a,b));
    if(p==CmpInst::ICMP_NE) return isC(b)?(b->k?x_not(a):a):x_ibin(O_XOR,a,b);
  }
  if(a->op==O_SELECT&&isC(b)&&isC(a->b)&&isC(a->c)){
    bool t=icmp_eval(p,a->b->k,b->k,w),f=icmp_eval(p,a->c->k,b->k,w);
    if(t==f)return EP.iconst(t,1); return t?a->a:x_not(a->a);
  }
  if(p==CmpInst::ICMP_NE)return x_not(x_icmp(CmpInst::ICMP_EQ,a,b));
  return EP.mk(O_ICMP,1,a,b,0,p);
}
Expr* x_select(Expr*c,Expr*a,Expr*b){
  if(isC(c))return c->k?a:b; if(a==b)return a;
  if(a->ty==1){ if(isCv(a,1)&&isCv(b,0))return c; if(isCv(a,0)&&isCv(b,1))return x_not(c);
    if(isCv(b,0))return x_ibin(O_AND,c,a); if(isCv(a,1))return x_ibin(O_OR,c,b);
    if(isCv(a,0))return x_ibin(O_AND,x_not(c),b); if(isCv(b,1))return x_ibin(O_OR,x_not(c),a); }
  return EP.mk(O_SELECT,a->ty,c,a,b);
}
Expr* x_cast(Op op,Expr*a,uint8_t ty){
  if(isC(a)){
    switch(op){
      case O_ZEXT:case O_TRUNC:return EP.iconst(a->k,ty);
      case O_SEXT:return EP.iconst((uint64_t)sextw(a->k,a->ty),ty);
      case O_SITOFP:return EP.fconst((double)sextw(a->k,a->ty));
      case O_UITOFP:return EP.fconst((double)a->k);
      case O_FPTOSI:return EP.iconst(fptosi_eval(bits2d(a->k),ty),ty);
      case O_FPTOUI:return EP.iconst(fptoui_eval(bits2d(a->k),ty),ty);
      case O_F2I:return EP.iconst(a->k,64);
      case O_I2F:return EP.fconst(bits2d(a->k));
      default:break;}
  }
  if((op==O_ZEXT||op==O_SEXT||op==O_TRUNC)&&a->ty==ty)return a;
  if(op==O_F2I&&a->op==O_I2F)return a->a; if(op==O_I2F&&a->op==O_F2I)return a->a;
  if(op==O_TRUNC&&(a->op==O_ZEXT||a->op==O_SEXT)){ if(a->a->ty==ty)return a->a; if(a->a->ty>ty)return x_cast(O_TRUNC,a->a,ty); return x_cast(a->op,a->a,ty); }
  if(op==O_ZEXT&&a->op==O_ZEXT)return x_cast(O_ZEXT,a->a,ty);
  return EP.mk(op,ty,a,0,0,0);
}
Expr* x_fn1(unsigned f,Expr*a){ if(isC(a))return EP.fconst(fn1_eval(f,bits2d(a->k))); return EP.mk(O_FN1,TF64,a,0,0,f); }
Expr* x_fn2(unsigned f,Expr*a,Expr*b){ if(isC(a)&&isC(b))return EP.fconst(fn2_eval(f,bits2d(a->k),bits2d(b->k))); 
  if(f==F_POW&&isC(a)&&EP.real){ double c=bits2d(a->k); if(c==1.0)return EP.fconst(1.0); if(c>0&&std::isfinite(c))return x_fn1(F_EXP,x_fbin(O_FMUL,EP.fconst(log(c)),b)); }
  if(f==F_POW&&isC(b)){double e=bits2d(b->k); if(e==1.0)return a; if(e==2.0)return x_fbin(O_FMUL,a,a); if(e==0.5)return x_fn1(F_SQRT,a); if(e==0.0)return EP.fconst(1.0);} 
  return EP.mk(O_FN2,TF64,a,b,0,f); }

static const char*opn[]={"const","var","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fcmp","select","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","icmp","zext","sext","trunc","sitofp","uitofp","fptosi","fptoui","f2i","i2f","fn1","fn2","fmin","fmax","isnan","blob"};
std::string x_str(Expr*e,int d){
  char buf[64];
  if(e->op==O_CONST){ if(e->isF())snprintf(buf,64,"%.17g",bits2d(e->k)); else snprintf(buf,64,"%lld",(long long)sextw(e->k,e->ty)); return buf; }
  if(e->op==O_VAR)return EP.vars[e->k].name;
  if(d<=0)return "..";
  std::string s="("; s+=opn[e->op]; if(e->op==O_FN1||e->op==O_FN2){s+=":";s+=fn_names[e->k];} if(e->op==O_FCMP||e->op==O_ICMP){snprintf(buf,64,".%s",CmpInst::getPredicateName((CmpInst::Predicate)e->k).str().c_str());s+=buf;}
  for(Expr*x:{e->a,e->b,e->c})if(x){s+=" ";s+=x_str(x,d-1);} return s+")";
}

uint64_t Evaluator::ev(Expr*e){
  if(e->op==O_CONST)return e->k;
  if(e->op==O_VAR)return e->k<m->v.size()?m->v[e->k]:0;
  auto it=memo.find(e->id); if(it!=memo.end())return it->second;
  uint64_t r=0; bool ok;
  switch(e->op){
    case O_FADD:case O_FSUB:case O_FMUL:case O_FDIV:case O_FREM:case O_FMIN:case O_FMAX:r=d2bits(fbin_eval(e->op,bits2d(ev(e->a)),bits2d(ev(e->b))));break;
    case O_FNEG:r=d2bits(-bits2d(ev(e->a)));break; case O_FABS:r=d2bits(fabs(bits2d(ev(e->a))));break;
    case O_FCMP:r=fcmp_eval(e->k,bits2d(ev(e->a)),bits2d(ev(e->b)));break;
    case O_SELECT:r=(ev(e->a)&1)?ev(e->b):ev(e->c);break;
    case O_ICMP:r=icmp_eval(e->k,ev(e->a),ev(e->b),e->a->ty);break;
    case O_ZEXT:r=ev(e->a);break; case O_TRUNC:r=maskw(ev(e->a),e->ty);break; case O_SEXT:r=maskw((uint64_t)sextw(ev(e->a),e->a->ty),e->ty);break;
    case O_SITOFP:r=d2bits((double)sextw(ev(e->a),e->a->ty));break; case O_UITOFP:r=d2bits((double)ev(e->a));break;
    case O_FPTOSI:r=fptosi_eval(bits2d(ev(e->a)),e->ty);break; case O_FPTOUI:r=fptoui_eval(bits2d(ev(e->a)),e->ty);break;
    case O_F2I:case O_I2F:r=ev(e->a);break;
    case O_FN1:r=d2bits(fn1_eval(e->k,bits2d(ev(e->a))));break; case O_FN2:r=d2bits(fn2_eval(e->k,bits2d(ev(e->a)),bits2d(ev(e->b))));break;
    case O_BLOB:r=0;break;
    default:r=ibin_eval(e->op,ev(e->a),ev(e->b),e->ty,ok);
  }
  memo[e->id]=r; return r;
}
