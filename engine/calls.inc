// Included inside struct Engine: calls, intrinsics, and models of external functions.
typedef std::vector<Val> Args;
std::unordered_map<std::string,std::function<void(DInst&,Args&)>> ext;
static int mathId(const std::string&n){ for(int i=0;i<F_NUM;i++)if(n==fn_names[i])return i; return -1; }
void throwEvent(const std::string&what){ throwsSeen++; if(expectThrow)throw PathEnd{1}; report("exception",what); throw PathEnd{2}; }

void call(DInst&d){
  Function*F=d.callee;
  if(!F){ // indirect
    if(isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())){ retVal(d,Val()); return; }
    uint64_t a=concretize(get(d.ops.back()),64); auto it=fnByAddr.find(a); if(it==fnByAddr.end()){ report("memory","call through an invalid function pointer"); throw PathEnd{2}; }
    F=it->second; Args args; for(size_t i=0;i+1<d.ops.size();i++)args.push_back(get(d.ops[i])); callF(d,F,args); return; }
  Args args; args.reserve(d.ops.size()); for(auto&o:d.ops)args.push_back(get(o)); callF(d,F,args);
}
void callF(DInst&d,Function*F,Args&args){
  if(!F->isDeclaration()){ pushFrame(F,args,d.dest); return; }
  if(F->isIntrinsic()){ intrinsic(d,F,args); return; }
  std::string n=F->getName().str();
  if(ext.empty())initExt();
  auto it=ext.find(n); if(it!=ext.end()){ it->second(d,args); return; }
  int m=mathId(n); if(m>=0&&F->getReturnType()->isDoubleTy()){ if(args.size()==1){retVal(d,math1(m,args[0]));return;} if(args.size()==2){ retVal(d,math2(m,args[0],args[1])); return; } }
  if(isStubName(n)){ // output streams: no effect
    if(n.find("_ZNSt13random_device")==0){ stubRandomDevice(d,n); return; }
    if(n.find("3nowEv")!=std::string::npos){ st.rdcount++; retVal(d,vI(st.rdcount*1000)); return; }
    Val r; if(F->getReturnType()->isPointerTy()&&!args.empty())r=args[0]; 
    if(F->hasParamAttribute(0,Attribute::StructRet)){ // returns an object by value (e.g. stringstream::str): an empty string
      uint64_t a=args[0].u; if(n.find("3str")!=std::string::npos){ store(a,vI(a+16),TI{T_PTR,64,8}); store(a+8,vI(0),TI{T_INT,64,8}); store(a+16,vI(0),TI{T_INT,8,1}); } }
    retVal(d,r); return; }
  if(n.rfind("_ZSt",0)==0&&n.find("__throw_")!=std::string::npos){ throwEvent(llvm::demangle(n)); return; }
  throw Unsupported{"external function "+llvm::demangle(n)};
}
Val math2(unsigned m,const Val&a,const Val&b){ if(!a.e&&!b.e)return vD(fn2_eval(m,a.d,b.d)); return vE(x_fn2(m,asF(a),asF(b))); }
void stubRandomDevice(DInst&d,const std::string&n){ // an arbitrary but fixed entropy source; seeds are irrelevant where RNG outputs are symbolic
  st.rdcount++; Val r; if(n.find("_M_getval")!=std::string::npos||n.find("clEv")!=std::string::npos)r=vI(maskw(12345u+st.rdcount*2654435761u,32)); retVal(d,r); }

void intrinsic(DInst&d,Function*F,Args&a){
  switch(F->getIntrinsicID()){
    case Intrinsic::dbg_value:case Intrinsic::dbg_declare:case Intrinsic::lifetime_start:case Intrinsic::lifetime_end:case Intrinsic::assume:case Intrinsic::experimental_noalias_scope_decl:case Intrinsic::invariant_start:case Intrinsic::invariant_end:case Intrinsic::prefetch:case Intrinsic::donothing:case Intrinsic::var_annotation: retVal(d,Val());return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: retVal(d,a[0]);return;
    case Intrinsic::memcpy:case Intrinsic::memmove:case Intrinsic::memcpy_inline:{ uint64_t x=concretize(a[0],64),y=concretize(a[1],64),n=concretize(a[2],64); if(n>(1ull<<30))memErr("memcpy of an absurd size"); copyMem(x,y,n); retVal(d,Val());return; }
    case Intrinsic::memset:{ uint64_t x=concretize(a[0],64),v=concretize(a[1],8),n=concretize(a[2],64); if(n>(1ull<<30))memErr("memset of an absurd size"); setMem(x,v,n); retVal(d,Val());return; }
    case Intrinsic::sqrt:mathI(d,F_SQRT,a);return; case Intrinsic::exp:mathI(d,F_EXP,a);return; case Intrinsic::log:mathI(d,F_LOG,a);return; case Intrinsic::floor:mathI(d,F_FLOOR,a);return; case Intrinsic::ceil:mathI(d,F_CEIL,a);return; case Intrinsic::trunc:mathI(d,F_TRUNC,a);return; case Intrinsic::round:mathI(d,F_ROUND,a);return; case Intrinsic::sin:mathI(d,F_SIN,a);return; case Intrinsic::cos:mathI(d,F_COS,a);return; case Intrinsic::log10:mathI(d,F_LOG10,a);return; case Intrinsic::log2:mathI(d,F_LOG2,a);return; case Intrinsic::exp2:mathI(d,F_EXP2,a);return;
    case Intrinsic::pow: retVal(d,math2(F_POW,a[0],a[1]));return;
    case Intrinsic::copysign: retVal(d,math2(F_COPYSIGN,a[0],a[1]));return;
    case Intrinsic::powi:{ int64_t n=sextw(concretize(a[1],32),32); Val r=vD(1); TI f{T_F64,64,8}; for(int i=0;i<(n<0?-n:n);i++)r=fbinV(O_FMUL,r,a[0],f); if(n<0)r=fbinV(O_FDIV,vD(1),r,f); retVal(d,r);return; }
    case Intrinsic::fabs:{ Val r; if(d.ti.k==T_F80){r.ld=fabsl(a[0].ld);} else if(d.ti.k==T_F32){r.u=0;r.f=fabsf(a[0].f);} else if(a[0].e)r=vE(x_funary(O_FABS,asF(a[0]))); else r=vD(fabs(a[0].d)); retVal(d,r);return; }
    case Intrinsic::fmuladd: case Intrinsic::fma: { TI f{T_F64,64,8}; retVal(d,fbinV(O_FADD,fbinV(O_FMUL,a[0],a[1],f),a[2],f));return; }
    case Intrinsic::maxnum: case Intrinsic::minnum:{ TI f{T_F64,64,8}; retVal(d,fbinV(F->getIntrinsicID()==Intrinsic::maxnum?O_FMAX:O_FMIN,a[0],a[1],f));return; }
    case Intrinsic::smax:case Intrinsic::smin:case Intrinsic::umax:case Intrinsic::umin:{ unsigned p=F->getIntrinsicID()==Intrinsic::smax?CmpInst::ICMP_SGT:F->getIntrinsicID()==Intrinsic::smin?CmpInst::ICMP_SLT:F->getIntrinsicID()==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; unsigned w=d.ti.w; if(!a[0].e&&!a[1].e)retVal(d,icmp_eval(p,a[0].u,a[1].u,w)?a[0]:a[1]); else { Expr*x=asI(a[0],w),*y=asI(a[1],w); retVal(d,vE(x_select(x_icmp(p,x,y),x,y))); } return; }
    case Intrinsic::abs:{ unsigned w=d.ti.w; if(!a[0].e)retVal(d,vI(maskw((uint64_t)std::llabs(sextw(a[0].u,w)),w))); else { Expr*x=asI(a[0],w); retVal(d,vE(x_select(x_icmp(CmpInst::ICMP_SLT,x,EP.iconst(0,w)),x_ibin(O_SUB,EP.iconst(0,w),x),x))); } return; }
    case Intrinsic::usub_sat:{ unsigned w=d.ti.w; uint64_t x=concretize(a[0],w),y=concretize(a[1],w); retVal(d,vI(x>y?x-y:0)); return; }
    case Intrinsic::uadd_sat:{ unsigned w=d.ti.w; uint64_t x=concretize(a[0],w),y=concretize(a[1],w); uint64_t s=maskw(x+y,w); retVal(d,vI(s<x?maskw(~0ull,w):s)); return; }
    case Intrinsic::umul_with_overflow:case Intrinsic::uadd_with_overflow:case Intrinsic::usub_with_overflow:case Intrinsic::smul_with_overflow:case Intrinsic::sadd_with_overflow:case Intrinsic::ssub_with_overflow:{ unsigned w=F->getReturnType()->getStructElementType(0)->getIntegerBitWidth(); uint64_t x=concretize(a[0],w),y=concretize(a[1],w); unsigned id=F->getIntrinsicID(); Val r; aggPool.emplace_back(); Agg*ag=&aggPool.back(); uint64_t res; bool ov; 
        if(id==Intrinsic::umul_with_overflow){u128 p=(u128)x*y;res=maskw((uint64_t)p,w);ov=p>(u128)maskw(~0ull,w);} else if(id==Intrinsic::uadd_with_overflow){u128 p=(u128)x+y;res=maskw((uint64_t)p,w);ov=p>(u128)maskw(~0ull,w);} else if(id==Intrinsic::usub_with_overflow){res=maskw(x-y,w);ov=x<y;} else { __int128 sx=sextw(x,w),sy=sextw(y,w),p=id==Intrinsic::smul_with_overflow?sx*sy:id==Intrinsic::sadd_with_overflow?sx+sy:sx-sy; res=maskw((uint64_t)p,w); ov=p!=(__int128)sextw(res,w);} 
        ag->v.push_back(vI(res)); ag->v.push_back(vI(ov)); r.agg=ag; retVal(d,r);return; }
    case Intrinsic::ctlz:{ unsigned w=d.ti.w; uint64_t x=concretize(a[0],w); retVal(d,vI(x?__builtin_clzll(x)-(64-w):w)); return; }
    case Intrinsic::cttz:{ unsigned w=d.ti.w; uint64_t x=concretize(a[0],w); retVal(d,vI(x?__builtin_ctzll(x):w)); return; }
    case Intrinsic::ctpop:{ retVal(d,vI(__builtin_popcountll(concretize(a[0],d.ti.w)))); return; }
    case Intrinsic::bswap:{ uint64_t x=concretize(a[0],d.ti.w); retVal(d,vI(__builtin_bswap64(x)>>(64-d.ti.w))); return; }
    case Intrinsic::fshl:case Intrinsic::fshr:{ unsigned w=d.ti.w; uint64_t x=concretize(a[0],w),y=concretize(a[1],w),s=concretize(a[2],w)%w; uint64_t r; if(F->getIntrinsicID()==Intrinsic::fshl)r=s?maskw((x<<s)|(y>>(w-s)),w):x; else r=s?maskw((y>>s)|(x<<(w-s)),w):y; retVal(d,vI(r)); return; }
    case Intrinsic::stacksave: retVal(d,vI(st.sp)); return;
    case Intrinsic::stackrestore: spRestore(a[0].u); retVal(d,Val()); return;
    case Intrinsic::trap: report("crash","trap executed"); throw PathEnd{2};
    case Intrinsic::objectsize: retVal(d,vI(maskw(~0ull,d.ti.w))); return;
    case Intrinsic::is_constant: retVal(d,vI(0)); return;
    case Intrinsic::eh_typeid_for: retVal(d,vI(0)); return;
    case Intrinsic::threadlocal_address: retVal(d,a[0]); return;
    case Intrinsic::is_fpclass:{ unsigned mask=a[1].u; if(!a[0].e){ double x=a[0].d; bool r=false; if(std::isnan(x))r=mask&3; else if(std::isinf(x))r=x<0?(mask&4):(mask&512); else if(x==0)r=std::signbit(x)?(mask&32):(mask&64); else if(std::fpclassify(x)==FP_SUBNORMAL)r=x<0?(mask&16):(mask&128); else r=x<0?(mask&8):(mask&256); retVal(d,vI(r)); return; }
        Expr*e=asF(a[0]); Expr*nan=x_not(x_fcmp(CmpInst::FCMP_ORD,e,e)); Expr*inf=x_fcmp(CmpInst::FCMP_OEQ,x_funary(O_FABS,e),EP.fconst(INFINITY)); Expr*r=EP.iconst(0,1); unsigned rest=mask; if((mask&3)==3){r=x_ibin(O_OR,r,nan);rest&=~3u;} if((mask&516)==516){r=x_ibin(O_OR,r,inf);rest&=~516u;} if((rest&504)==504){ r=x_ibin(O_OR,r,x_ibin(O_AND,x_not(nan),x_not(inf))); rest&=~504u; } if(rest)throw Unsupported{"is_fpclass"}; retVal(d,vE(r)); return; }
    default: break; }
  throw Unsupported{"intrinsic "+F->getName().str()};
}
void mathI(DInst&d,unsigned f,Args&a){ if(d.ti.k==T_F64){retVal(d,math1(f,a[0]));return;} Val r; if(d.ti.k==T_F32){ r.u=0; r.f=(float)fn1_eval(f,a[0].f); } else if(d.ti.k==T_F80){ switch(f){case F_LOG:r.ld=logl(a[0].ld);break;case F_SQRT:r.ld=sqrtl(a[0].ld);break;case F_CEIL:r.ld=ceill(a[0].ld);break;case F_FLOOR:r.ld=floorl(a[0].ld);break;case F_LOG2:r.ld=log2l(a[0].ld);break;case F_EXP:r.ld=expl(a[0].ld);break;default:throw Unsupported{"long double math"};} } else throw Unsupported{"vector math"}; retVal(d,r); }
void markInit(uint64_t a,unsigned n){ uint8_t*m=meta(a); for(unsigned i=0;i<n;i++)m[i]|=M_INIT; }

void initExt();
