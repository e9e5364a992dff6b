// Models of external functions (C/C++ runtime) and the harness intrinsics.
namespace std { struct _Rb_tree_node_base; }
void Engine::initExt(){
  auto E=[&](const char*n,std::function<void(DInst&,Args&)> f){ext[n]=f;};
  auto nop=[this](DInst&d,Args&){retVal(d,Val());};
  auto nop0=[this](DInst&d,Args&){retVal(d,vI(0));};
  auto mall=[this](DInst&d,Args&a){ uint64_t n=concretize(a[0],64); retVal(d,vI(alloc(n))); };
  for(auto n:{"malloc","_Znwm","_Znam"})E(n,mall);
  E("_ZnwmRKSt9nothrow_t",mall); E("_ZnamRKSt9nothrow_t",mall);
  E("_ZnwmSt11align_val_t",[this](DInst&d,Args&a){ retVal(d,vI(alloc(concretize(a[0],64),std::max<uint64_t>(16,a[1].u)))); });
  E("aligned_alloc",[this](DInst&d,Args&a){ retVal(d,vI(alloc(concretize(a[1],64),std::max<uint64_t>(16,a[0].u)))); });
  E("posix_memalign",[this](DInst&d,Args&a){ uint64_t p=alloc(concretize(a[2],64),std::max<uint64_t>(16,a[1].u)); store(a[0].u,vI(p),TI{T_PTR,64,8}); retVal(d,vI(0)); });
  E("calloc",[this](DInst&d,Args&a){ uint64_t n=concretize(a[0],64)*concretize(a[1],64); uint64_t p=alloc(n); setMem(p,0,n); retVal(d,vI(p)); });
  E("realloc",[this](DInst&d,Args&a){ uint64_t o=concretize(a[0],64),n=concretize(a[1],64); uint64_t p=alloc(n); if(o){ uint64_t on=*(uint64_t*)(o-16); copyMem(p,o,std::min(on,n)); dealloc(o);} retVal(d,vI(p)); });
  auto fre=[this](DInst&d,Args&a){ dealloc(concretize(a[0],64)); retVal(d,Val()); };
  for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"})E(n,fre);
  auto cpy=[this](DInst&d,Args&a){ uint64_t x=concretize(a[0],64),y=concretize(a[1],64),n=concretize(a[2],64); if(n>(1ull<<30))memErr("memcpy of an absurd size"); copyMem(x,y,n); retVal(d,vI(x)); };
  E("memcpy",cpy);E("memmove",cpy);
  E("memset",[this](DInst&d,Args&a){ uint64_t x=concretize(a[0],64); setMem(x,(int)concretize(a[1],32),concretize(a[2],64)); retVal(d,vI(x)); });
  auto cmp=[this](DInst&d,Args&a){ uint64_t x=concretize(a[0],64),y=concretize(a[1],64),n=concretize(a[2],64); if(n){chk(x,n,false);chk(y,n,false); if(anySym(x,n)||anySym(y,n))throw Unsupported{"memcmp of symbolic bytes"};} int r=memcmp((void*)x,(void*)y,n); retVal(d,vI(maskw((uint64_t)(int64_t)(r<0?-1:r>0),32))); };
  E("memcmp",cmp);E("bcmp",cmp);
  E("strlen",[this](DInst&d,Args&a){ uint64_t x=concretize(a[0],64),n=0; while(true){chk(x+n,1,false); if(!*(char*)(x+n))break; n++;} retVal(d,vI(n)); });
  E("strcmp",[this](DInst&d,Args&a){ int r=strcmp((char*)concretize(a[0],64),(char*)concretize(a[1],64)); retVal(d,vI(maskw((uint64_t)(int64_t)(r<0?-1:r>0),32))); });
  E("memchr",[this](DInst&d,Args&a){ uint64_t x=concretize(a[0],64),n=concretize(a[2],64); chk(x,n,false); void*r=memchr((void*)x,(int)a[1].u,n); retVal(d,vI((uint64_t)r)); });
  for(auto n:{"__cxa_atexit","__cxa_guard_release","__cxa_guard_abort","atexit","__cxa_free_exception","__cxa_end_catch","_ZNSt8ios_base4InitC1Ev","_ZNSt8ios_base4InitD1Ev","fflush","fclose","puts","printf","putchar","fputs","fputc"})E(n,nop0);
  // OpenMP: iteration k of a statically scheduled loop belongs to thread k
  E("__kmpc_fork_call",[this](DInst&d,Args&a){ ompFork(d,a); });
  for(auto n:{"__kmpc_global_thread_num","omp_get_thread_num"}) E(n,[this](DInst&d,Args&a){ retVal(d,vI(st.omp.on?st.omp.tid:0)); });
  for(auto n:{"__kmpc_serialized_parallel","__kmpc_end_serialized_parallel","__kmpc_for_static_fini","__kmpc_push_num_threads","omp_set_num_threads","__kmpc_flush"}) E(n,[this](DInst&d,Args&a){ retVal(d,Val()); });
  for(auto n:{"omp_get_max_threads","omp_get_num_procs","omp_get_num_threads"}) E(n,[this](DInst&d,Args&a){ retVal(d,vI(st.omp.on?4:1)); });
  E("omp_in_parallel",[this](DInst&d,Args&a){ retVal(d,vI(st.omp.on)); });
  E("__kmpc_barrier",[this](DInst&d,Args&a){ retVal(d,Val()); ompBarrier(); });
  auto sini=[this](DInst&d,Args&a,unsigned sz,bool sg){ // loc,gtid,sched,plast,plb,pub,pstride,incr,chunk
    auto rd=[&](uint64_t p)->int64_t{ TI ti{T_INT,sz*8,sz}; uint64_t x=concretize(load(p,ti),sz*8); return sg?sextw(x,sz*8):(int64_t)x; }; TI ti{T_INT,sz*8,sz};
    int64_t lb=rd(a[4].u),ub=rd(a[5].u),inc=sextw(concretize(a[7],sz*8),sz*8); if(inc==0)throw Unsupported{"loop increment"}; int64_t n=inc>0?(ub>=lb?(ub-lb)/inc+1:0):(lb>=ub?(lb-ub)/-inc+1:0);
    if(st.omp.on){ if(n>st.omp.T){ if(st.omp.phase)throw Unsupported{"a larger loop after a barrier"}; st.omp.T=n; } int64_t k=st.omp.tid; if(k<n){ store(a[4].u,vI(maskw(lb+k*inc,sz*8)),ti); store(a[5].u,vI(maskw(lb+k*inc,sz*8)),ti); } else { store(a[4].u,vI(maskw(lb+n*inc,sz*8)),ti); store(a[5].u,vI(maskw(lb+(n-1)*inc,sz*8)),ti); }
      store(a[3].u,vI(k==n-1),TI{T_INT,32,4}); store(a[6].u,vI(maskw(n*inc,sz*8)),ti); }
    else store(a[3].u,vI(1),TI{T_INT,32,4});
    retVal(d,Val()); };
  E("__kmpc_for_static_init_4",[sini](DInst&d,Args&a){ sini(d,a,4,true); }); E("__kmpc_for_static_init_4u",[sini](DInst&d,Args&a){ sini(d,a,4,false); });
  E("__kmpc_for_static_init_8",[sini](DInst&d,Args&a){ sini(d,a,8,true); }); E("__kmpc_for_static_init_8u",[sini](DInst&d,Args&a){ sini(d,a,8,false); });
  auto dini=[this](DInst&d,Args&a,unsigned sz,bool sg){ auto v=[&](int i){ uint64_t x=concretize(a[i],sz*8); return sg?sextw(x,sz*8):(int64_t)x; }; auto&o=st.omp; o.dlb=v(3); o.dub=v(4); o.dinc=sextw(concretize(a[5],sz*8),sz*8); o.given=false; retVal(d,Val()); };
  auto dnext=[this](DInst&d,Args&a,unsigned sz){ auto&o=st.omp; TI ti{T_INT,sz*8,sz}; int64_t n=o.dinc>0?(o.dub>=o.dlb?(o.dub-o.dlb)/o.dinc+1:0):(o.dlb>=o.dub?(o.dlb-o.dub)/-o.dinc+1:0); int64_t k=o.tid; if(o.on&&n>o.T){ if(o.phase)throw Unsupported{"a larger loop after a barrier"}; o.T=n; }
    if(o.given||n==0||(o.on&&k>=n)){ retVal(d,vI(0)); return; } o.given=true;
    store(a[2].u,vI(!o.on||k==n-1),TI{T_INT,32,4}); store(a[3].u,vI(maskw(o.on?o.dlb+k*o.dinc:o.dlb,sz*8)),ti); store(a[4].u,vI(maskw(o.on?o.dlb+k*o.dinc:o.dub,sz*8)),ti); store(a[5].u,vI(maskw(o.dinc,sz*8)),ti); retVal(d,vI(1)); };
  E("__kmpc_dispatch_init_4",[dini](DInst&d,Args&a){ dini(d,a,4,true); }); E("__kmpc_dispatch_init_4u",[dini](DInst&d,Args&a){ dini(d,a,4,false); }); E("__kmpc_dispatch_init_8",[dini](DInst&d,Args&a){ dini(d,a,8,true); }); E("__kmpc_dispatch_init_8u",[dini](DInst&d,Args&a){ dini(d,a,8,false); });
  E("__kmpc_dispatch_next_4",[dnext](DInst&d,Args&a){ dnext(d,a,4); }); E("__kmpc_dispatch_next_4u",[dnext](DInst&d,Args&a){ dnext(d,a,4); }); E("__kmpc_dispatch_next_8",[dnext](DInst&d,Args&a){ dnext(d,a,8); }); E("__kmpc_dispatch_next_8u",[dnext](DInst&d,Args&a){ dnext(d,a,8); });
  for(auto n:{"__kmpc_dispatch_fini_4","__kmpc_dispatch_fini_4u","__kmpc_dispatch_fini_8","__kmpc_dispatch_fini_8u","__kmpc_dispatch_deinit"}) E(n,[this](DInst&d,Args&a){ retVal(d,Val()); });
  for(auto n:{"__kmpc_critical","__kmpc_critical_with_hint"}) E(n,[this](DInst&d,Args&a){ st.omp.locked++; retVal(d,Val()); });
  E("__kmpc_end_critical",[this](DInst&d,Args&a){ st.omp.locked--; retVal(d,Val()); });
  for(auto n:{"__kmpc_reduce","__kmpc_reduce_nowait"}) E(n,[this](DInst&d,Args&a){ st.omp.locked++; retVal(d,vI(1)); });
  for(auto n:{"__kmpc_end_reduce","__kmpc_end_reduce_nowait"}) E(n,[this](DInst&d,Args&a){ st.omp.locked--; retVal(d,Val()); });
  E("__cxa_guard_acquire",[this](DInst&d,Args&a){ uint8_t*g=(uint8_t*)a[0].u; if(*g)retVal(d,vI(0)); else {*g=1;retVal(d,vI(1));} });
  E("__cxa_pure_virtual",[this](DInst&d,Args&){ report("crash","pure virtual call"); throw PathEnd{2}; });
  E("abort",[this](DInst&d,Args&){ report("crash","abort called"); throw PathEnd{2}; });
  E("exit",[this](DInst&d,Args&){ report("crash","exit called"); throw PathEnd{2}; });
  E("_ZSt9terminatev",[this](DInst&d,Args&){ report("crash","terminate called"); throw PathEnd{2}; });
  E("__assert_fail",[this](DInst&d,Args&a){ report("crash","assertion failed: "+cstr(a[0].u)); throw PathEnd{2}; });
  E("__cxa_allocate_exception",[this](DInst&d,Args&a){ retVal(d,vI(alloc(a[0].u))); });
  E("__cxa_throw",[this](DInst&d,Args&a){ std::string n; for(auto&g:gaddr)if(g.second==a[1].u)n=llvm::demangle(g.first->getName().str()); throwEvent("exception thrown: "+n); });
  E("__cxa_rethrow",[this](DInst&d,Args&a){ throwEvent("exception rethrown"); });
  for(auto n:{"_ZNSt13runtime_errorC1EPKc","_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","_ZNSt9exceptionD2Ev","_ZNSt13runtime_errorD1Ev","_ZNSt9bad_allocD1Ev"})E(n,nop);
  E("time",[this](DInst&d,Args&a){ retVal(d,vI(1700000000)); });
  E("pthread_self",nop0); E("__libc_single_threaded",nop0);
  E("omp_get_max_threads",[this](DInst&d,Args&a){retVal(d,vI(1));}); E("omp_get_num_threads",[this](DInst&d,Args&a){retVal(d,vI(1));}); E("omp_get_thread_num",nop0); E("omp_in_parallel",nop0);
  // red-black trees and lists of the C++ runtime: run natively, arena memory is host memory
  E("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base",[this](DInst&d,Args&a){ retVal(d,vI((uint64_t)std::_Rb_tree_increment((std::_Rb_tree_node_base*)a[0].u))); });
  ext["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"]=ext["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"];
  E("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",[this](DInst&d,Args&a){ retVal(d,vI((uint64_t)std::_Rb_tree_decrement((std::_Rb_tree_node_base*)a[0].u))); });
  ext["_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"]=ext["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"];
  E("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",[this](DInst&d,Args&a){ uint64_t ins=concretize(a[0],1); std::_Rb_tree_insert_and_rebalance(ins,(std::_Rb_tree_node_base*)a[1].u,(std::_Rb_tree_node_base*)a[2].u,*(std::_Rb_tree_node_base*)a[3].u); markInit(a[1].u,32); retVal(d,Val()); });
  E("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",[this](DInst&d,Args&a){ retVal(d,vI((uint64_t)std::_Rb_tree_rebalance_for_erase((std::_Rb_tree_node_base*)a[0].u,*(std::_Rb_tree_node_base*)a[1].u))); });
  E("_ZNSt8__detail15_List_node_base7_M_hookEPS0_",[this](DInst&d,Args&a){ ((std::__detail::_List_node_base*)a[0].u)->_M_hook((std::__detail::_List_node_base*)a[1].u); markInit(a[0].u,16); retVal(d,Val()); });
  E("_ZNSt8__detail15_List_node_base9_M_unhookEv",[this](DInst&d,Args&a){ ((std::__detail::_List_node_base*)a[0].u)->_M_unhook(); retVal(d,Val()); });
  E("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_",[this](DInst&d,Args&a){ ((std::__detail::_List_node_base*)a[0].u)->_M_transfer((std::__detail::_List_node_base*)a[1].u,(std::__detail::_List_node_base*)a[2].u); retVal(d,Val()); });
  E("_ZSt11_Hash_bytesPKvmm",[this](DInst&d,Args&a){ retVal(d,vI(std::_Hash_bytes((void*)a[0].u,a[1].u,a[2].u))); });
  E("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm",[this](DInst&d,Args&a){ auto p=((std::__detail::_Prime_rehash_policy*)a[0].u)->_M_need_rehash(a[1].u,a[2].u,a[3].u); Val r; aggPool.emplace_back(); r.agg=&aggPool.back(); r.agg->v.push_back(vI(p.first)); r.agg->v.push_back(vI(p.second)); retVal(d,r); });
  E("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm",[this](DInst&d,Args&a){ retVal(d,vI(((std::__detail::_Prime_rehash_policy*)a[0].u)->_M_next_bkt(a[1].u))); });
  for(auto n:{"logl","log2l","sqrtl","ceill","floorl","expl"}){ std::string s=n; E(n,[this,s](DInst&d,Args&a){ Val r; long double x=a[0].ld; r.ld=s=="logl"?logl(x):s=="log2l"?log2l(x):s=="sqrtl"?sqrtl(x):s=="ceill"?ceill(x):s=="floorl"?floorl(x):expl(x); retVal(d,r); }); }
  E("fmod",[this](DInst&d,Args&a){ retVal(d,fbinV(O_FREM,a[0],a[1],TI{T_F64,64,8})); });
  E("fmax",[this](DInst&d,Args&a){ retVal(d,fbinV(O_FMAX,a[0],a[1],TI{T_F64,64,8})); });
  E("fmin",[this](DInst&d,Args&a){ retVal(d,fbinV(O_FMIN,a[0],a[1],TI{T_F64,64,8})); });
  E("ldexp",[this](DInst&d,Args&a){ if(a[0].e)throw Unsupported{"ldexp"}; retVal(d,vD(ldexp(a[0].d,(int)a[1].u))); });
  E("frexp",[this](DInst&d,Args&a){ if(a[0].e)throw Unsupported{"frexp"}; int e; double m=frexp(a[0].d,&e); store(a[1].u,vI((uint32_t)e),TI{T_INT,32,4}); retVal(d,vD(m)); });
  E("roundf",[this](DInst&d,Args&a){ Val r; r.u=0; r.f=roundf(a[0].f); retVal(d,r); });
  E("__errno_location",[this](DInst&d,Args&a){ static uint64_t p=0; (void)p; uint64_t q=ABASE+CG_OFF; memset(meta(q),M_ALLOC|M_INIT,16); retVal(d,vI(q)); });
  // ---- harness intrinsics
  E("sym_double",[this](DInst&d,Args&a){ Expr*e=namedVar(uniq(cstr(a[0].u)),TF64); retVal(d,vE(e)); });
  E("sym_range",[this](DInst&d,Args&a){ std::string nm=cstr(a[0].u); Expr*lo=asF(a[1]),*hi=asF(a[2]); int k=st.nameCount[nm]; Expr*e=namedVar(nm+"#"+std::to_string(k),TF64);
    Expr*c=x_ibin(O_AND,x_fcmp(CmpInst::FCMP_OGE,e,lo),x_fcmp(CmpInst::FCMP_OLE,e,hi)); 
    if(isC(lo)&&isC(hi)){ auto vr=PC.varRange.find(e->k); Itv iv{bits2d(lo->k),bits2d(hi->k)}; if(vr==PC.varRange.end())PC.varRange[e->k]=iv; else if(vr->second.lo!=iv.lo||vr->second.hi!=iv.hi){ if(iv.lo<vr->second.lo||iv.hi>vr->second.hi)throw Unsupported{"one variable, two ranges"}; }
      if(st.model.v.size()<EP.vars.size())st.model.v.resize(EP.vars.size(),0); bool used=false; for(Expr*p:st.pc)if(p==c)used=true; if(!used){ double v=0; double l=bits2d(lo->k),h=bits2d(hi->k); if(v<l||v>h)v=std::isfinite(l+h)?(l+h)/2:(std::isfinite(l)?l:h); st.model.v[e->k]=d2bits(v);} }
    assume(c); st.nameCount[nm]++; retVal(d,vE(e)); });
  E("sym_int",[this](DInst&d,Args&a){ std::string nm=cstr(a[0].u); int k=st.nameCount[nm]; Expr*e=namedVar(nm+"#"+std::to_string(k),32); Expr*lo=asI(a[1],32),*hi=asI(a[2],32); Expr*c=x_ibin(O_AND,x_icmp(CmpInst::ICMP_SGE,e,lo),x_icmp(CmpInst::ICMP_SLE,e,hi)); if(isC(lo)){ if(st.model.v.size()<EP.vars.size())st.model.v.resize(EP.vars.size(),0); bool used=false; for(Expr*p:st.pc)if(p==c)used=true; if(!used)st.model.v[e->k]=lo->k; } assume(c); st.nameCount[nm]++; retVal(d,vE(e)); });
  E("sym_choose",[this](DInst&d,Args&a){ std::string nm=cstr(a[0].u); int k=st.nameCount[nm]; Expr*e=namedVar(nm+"#"+std::to_string(k),32); uint64_t n=concretize(a[1],32); Expr*c=x_ibin(O_AND,x_icmp(CmpInst::ICMP_SGE,e,EP.iconst(0,32)),x_icmp(CmpInst::ICMP_SLT,e,EP.iconst(n,32))); bool used=false; for(Expr*p:st.pc)if(p==c)used=true; if(!used)assume(c); uint64_t v=n-1; for(uint64_t i=0;i+1<n;i++) if(decide(x_icmp(CmpInst::ICMP_EQ,e,EP.iconst(i,32)))){v=i;break;} st.nameCount[nm]++; retVal(d,vI(v)); });
  E("sym_assume",[this](DInst&d,Args&a){ Expr*c=a[0].e?x_icmp(CmpInst::ICMP_NE,asI(a[0],32),EP.iconst(0,32)):EP.iconst(a[0].u!=0,1); assume(c); retVal(d,Val()); });
  E("sym_assert",[this](DInst&d,Args&a){ Expr*c=a[0].e?x_icmp(CmpInst::ICMP_NE,asI(a[0],32),EP.iconst(0,32)):EP.iconst(a[0].u!=0,1); doAssert(c,cstr(a[1].u)); retVal(d,Val()); });
  // equality up to rounding: exact equality of real-valued expressions in real mode
  E("sym_assert_close",[this](DInst&d,Args&a){ std::string msg=cstr(a[3].u); double tol=a[2].d;
    if(!a[0].e&&!a[1].e){ double x=a[0].d,y=a[1].d; bool ok=x==y||(std::isnan(x)&&std::isnan(y))||fabs(x-y)<=tol*(1+fabs(x)+fabs(y)); doAssert(EP.iconst(ok,1),msg); retVal(d,Val()); return; }
    Expr*x=asF(a[0]),*y=asF(a[1]); if(x==y){ assertCount[msg]++; S->st.folded++; retVal(d,Val()); return; }
    Expr*c; if(EP.real&&tol<=0)c=x_fcmp(CmpInst::FCMP_OEQ,x,y); else if(EP.real){ c=x_ibin(O_AND,x_fcmp(CmpInst::FCMP_OLE,x_fbin(O_FSUB,x,y),EP.fconst(tol)),x_fcmp(CmpInst::FCMP_OLE,x_fbin(O_FSUB,y,x),EP.fconst(tol))); } else c=x_ibin(O_OR,x_fcmp(CmpInst::FCMP_OEQ,x,y),x_ibin(O_AND,x_not(x_fcmp(CmpInst::FCMP_ORD,x,x)),x_not(x_fcmp(CmpInst::FCMP_ORD,y,y))));
    std::vector<Expr*> sg; if(EP.real)for(double g:{1.0,1e-3,1e-6})if(g>tol)sg.push_back(x_ibin(O_OR,x_fcmp(CmpInst::FCMP_OLT,EP.fconst(g),x_fbin(O_FSUB,x,y)),x_fcmp(CmpInst::FCMP_OLT,EP.fconst(g),x_fbin(O_FSUB,y,x))));
    doAssert(c,msg,sg); retVal(d,Val()); });
  E("sym_param",[this](DInst&d,Args&a){ auto it=params.find(cstr(a[0].u)); retVal(d,vI(maskw(it!=params.end()?(uint64_t)it->second:a[1].u,32))); });
  E("sym_reach",[this](DInst&d,Args&a){ reach[cstr(a[0].u)]++; retVal(d,Val()); });
  E("sym_mode",[this](DInst&d,Args&a){ retVal(d,vI(EP.real?2:1)); });
  E("sym_allow_throw",[this](DInst&d,Args&a){ expectThrow=a[0].u; retVal(d,Val()); });
  E("sym_prefer",[this](DInst&d,Args&a){ // hint only: pick a starting value for a fresh variable
    if(a[0].e&&a[0].e->op==O_VAR){ if(st.model.v.size()<EP.vars.size())st.model.v.resize(EP.vars.size(),0); st.model.v[a[0].e->k]=d2bits(a[1].d); } retVal(d,Val()); });
  E("sym_is_concrete",[this](DInst&d,Args&a){ retVal(d,vI(!a[0].e)); });
  E("sym_use",[this](DInst&d,Args&a){ if(a[1].e&&hasUninit(a[1].e))report("uninit","uninitialised: "+cstr(a[0].u)); retVal(d,Val()); });
  E("sym_dump",[this](DInst&d,Args&a){ if(verbose){ errs()<<"DUMP "<<cstr(a[0].u)<<" = "; if(a[1].e)errs()<<x_str(a[1].e,8); else errs()<<a[1].d; errs()<<"\n"; } retVal(d,Val()); });
  // fork on a condition without constraining the program
  E("sym_split",[this](DInst&d,Args&a){ bool r=a[0].e?decide(x_icmp(CmpInst::ICMP_NE,asI(a[0],32),EP.iconst(0,32))):a[0].u!=0; retVal(d,vI(r)); });
}
