// symex: a symbolic executor for LLVM bitcode of the real code under test.
//   symex prep OUT.bc IN.bc...            link, drop stubbed bodies, optimise (-O1)
//   symex run MOD.bc --entry F [options]  explore all paths of F, write a JSON report
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Analysis/InlineCost.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/DCE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <iostream>
#include <sstream>
#include <list>
#include <map>
#include <set>
#include <dlfcn.h>
using namespace llvm;
typedef unsigned __int128 u128;
static double nowS(){return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}

// ---------------------------------------------------------------- prep
static bool startsW(StringRef s,const char*p){return s.starts_with(p);}
static bool isStubName(StringRef n){
  static const char* pre[]={"_ZNSo","_ZNKSo","_ZStlsI","_ZSt4endl","_ZSt4ends","_ZSt5flush","_ZNSt13basic_ostream","_ZNSt9basic_ios","_ZNKSt9basic_ios","_ZSt16__ostream_insert",
    "_ZNSt14basic_ofstream","_ZNSt13basic_filebuf","_ZNSt8ios_base","_ZNKSt8ios_base","_ZN5EigenlsI","_ZNSt6locale","_ZNSt15basic_streambuf","_ZNSt14basic_ifstream","_ZNSt12basic_fstream","_ZNSi",
    "_ZNSt18basic_stringstream","_ZNKSt18basic_stringstream","_ZNSt7__cxx1118basic_stringstream","_ZNKSt7__cxx1118basic_stringstream","_ZNSt7__cxx1115basic_stringbuf","_ZNSt7__cxx1119basic_ostringstream","_ZNKSt7__cxx1119basic_ostringstream",
    "_ZSt9use_facet","_ZSt13__check_facet","_ZNKSt5ctype","_ZStrsI","_ZStls","_ZSt7getline",
    "_ZNSt13random_device","_ZNSt6chrono"};
  for(auto p:pre) if(startsW(n,p)){ if(startsW(n,"_ZNSt6chrono")) return n.contains("3now"); return true; }
  return false;
}
static int prep(int argc,char**argv){
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
  std::string out=argv[0];
  for(int i=1;i<argc;i++){ auto m=parseIRFile(argv[i],err,ctx); if(!m){err.print("symex",errs());return 2;} 
    for(Function&F:*m) if(!F.isDeclaration()){
      if(isStubName(F.getName())) { F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); F.setComdat(nullptr);} 
    }
    if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))){errs()<<"link failed\n";return 2;} }
  for(Function&F:*M) if(!F.isDeclaration()&&F.hasAvailableExternallyLinkage()){ F.setLinkage(GlobalValue::LinkOnceODRLinkage); }
  for(Function&F:*M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); if(F.getName().starts_with("h_")) {F.addFnAttr(Attribute::NoInline);} 
    if(F.getName().contains("kernel_keep")) F.addFnAttr(Attribute::NoInline);} 
  internalizeModule(*M,[](const GlobalValue&G){ return G.getName().starts_with("h_")||G.getName()=="main"||G.getName()=="llvm.global_ctors"||G.getName()=="llvm.used"; });
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization=false; PTO.SLPVectorization=false; PTO.LoopUnrolling=false; PTO.MergeFunctions=false;
  PassBuilder PB(nullptr,PTO); PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CGAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  { ModulePassManager P; P.addPass(GlobalDCEPass()); P.run(*M,MAM); }
  if(getenv("SYMEX_O1")){ ModulePassManager MPM=PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(*M,MAM); }
  else { ModulePassManager MPM;
    auto fp=[&](bool late){ FunctionPassManager F; F.addPass(SROAPass(SROAOptions::ModifyCFG)); F.addPass(EarlyCSEPass(true)); F.addPass(SimplifyCFGPass()); F.addPass(InstCombinePass()); F.addPass(SimplifyCFGPass()); if(late){ F.addPass(EarlyCSEPass(true)); F.addPass(DCEPass()); } return F; };
    MPM.addPass(createModuleToFunctionPassAdaptor(fp(false)));
    { InlineParams IP=getInlineParams(120); ModuleInlinerWrapperPass MI(IP); CGSCCPassManager CG; MI.getPM().addPass(createCGSCCToFunctionPassAdaptor([&]{FunctionPassManager F; F.addPass(SROAPass(SROAOptions::ModifyCFG)); F.addPass(EarlyCSEPass(false)); F.addPass(SimplifyCFGPass()); return F;}())); MPM.addPass(std::move(MI)); }
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(fp(true)));
    MPM.run(*M,MAM); }
  std::error_code ec; raw_fd_ostream os(out,ec); WriteBitcodeToFile(*M,os); return 0;
}

// ---------------------------------------------------------------- runtime values
struct Agg;
struct Val { Expr*e; union { uint64_t u; double d; float f; Agg*agg; }; long double ld; Val():e(nullptr),u(0),ld(0){} };
struct Agg { std::vector<Val> v; };
static std::deque<Agg> aggPool;
static Val vI(uint64_t u){Val v;v.u=u;return v;}
static Val vD(double d){Val v;v.d=d;return v;}
static Val vE(Expr*e){ Val v; if(isC(e)) v.u=e->k; else v.e=e; return v; }

enum TK : uint8_t { T_INT,T_PTR,T_F32,T_F64,T_F80,T_AGG,T_VOID,T_VEC };
struct TI { TK k; uint16_t w; uint32_t size; };
struct Opnd { int slot; Val c; };
struct DInst { Instruction*I; unsigned op; int dest; TI ti; std::vector<Opnd> ops; 
  // gep
  std::vector<std::pair<int,int64_t>> gep; int64_t gepoff; std::vector<uint8_t> gepw;
  int bb0,bb1; Function*callee; int extid; TI ti0; bool isInvoke; };
struct BBInfo { bool seen=false; std::vector<DInst> insts; std::vector<std::vector<std::pair<int,Opnd>>> phis; std::vector<int> preds; int nphi; };
struct FuncInfo { Function*F; int nslots; std::vector<BBInfo> bbs; std::map<BasicBlock*,int> bbidx; std::string name,dem; uint64_t calls=0; bool inRepo=false; };

static const uint64_t ABASE=0x200000000000ull, MBASE=0x300000000000ull;
static const uint64_t CG_OFF=0, G_OFF=64ull<<20, S_OFF=128ull<<20, H_OFF=1024ull<<20, A_SIZE=9ull<<30;
static const uint64_t FN_BASE=0x10000000ull;
enum { M_ALLOC=1,M_INIT=2,M_SYM=4 };
static inline uint8_t* meta(uint64_t a){return (uint8_t*)(MBASE+(a-ABASE));}

struct SymCell { Expr*e; uint8_t size; };
struct Frame { FuncInfo*f; int bb,prev; size_t pc; std::vector<Val> regs; uint64_t sp; int ret; std::vector<Val> varargs; bool isCtor; };
struct Event { std::string tag; };
struct State {
  std::vector<Frame> frames; std::unordered_map<uint64_t,SymCell> sh;
  std::vector<Expr*> pc; Model model; bool modelOk=true;
  uint64_t sp,hw; std::map<uint64_t,std::deque<uint64_t>> freel;
  std::map<std::string,int> nameCount; uint64_t steps=0; int depth=0; uint64_t rdcount=0; int throwDepth=0;
  std::vector<uint8_t> snapG,snapS,snapH,msG,msS,msH; // only when parked
  // an OpenMP parallel region: its threads (one loop iteration each) run one after the other, accesses to shared bytes are recorded
  struct Omp { bool on=false; int tid=0,locked=0; int64_t dlb=0,dub=-1,dinc=1; bool given=true; int64_t T=0; size_t depth=0; uint64_t sp=0; std::unordered_map<uint64_t,std::pair<int,int>> acc; int phase=0; std::vector<Frame> susp; } omp;
};
struct Violation { std::string msg,kind,where; Model m; bool hasModel; };
struct PathEnd { int kind; }; // 0 normal,1 assumption false,2 error,3 limit

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout*DL; 
  std::unordered_map<Function*,FuncInfo*> finfo; std::unordered_map<uint64_t,Function*> fnByAddr; std::unordered_map<const GlobalValue*,uint64_t> gaddr;
  uint64_t cgend,gend; SymSolver*S; State st; std::vector<State> pending;
  std::map<std::string,long> params; std::vector<Violation> viols; std::map<std::string,int> violCount; std::map<std::string,long> reach,assertCount; std::vector<std::string> inconclusive; std::map<std::string,int> unsupported;
  uint64_t paths=0,pathsAssume=0,totalSteps=0,forks=0,memErrs=0; bool forkSelect=false,incomplete=false; std::string incReason; double deadline=1e18; uint64_t maxPaths=1000000,maxSteps=400000000ull; int maxViol=6; bool expectThrow=false; std::vector<std::string> samples; bool verbose=false; uint64_t throwsSeen=0; bool trackUninit=true; uint64_t uninitReads=0; std::map<std::string,uint64_t> uninitAt;
  std::vector<std::pair<std::string,Model>> witnesses;
  bool ompMode=false; size_t maxWit=6;
  // ---- OpenMP iteration tracking
  uint64_t ompLoops=0,ompRaces=0,ompIters=0,ompBytes=0;

  TI typeInfo(Type*t){ TI r{T_VOID,0,0}; 
    if(t->isIntegerTy()){r.k=T_INT;r.w=t->getIntegerBitWidth();r.size=DL->getTypeStoreSize(t);} else if(t->isPointerTy()){r.k=T_PTR;r.w=64;r.size=8;} else if(t->isDoubleTy()){r.k=T_F64;r.w=64;r.size=8;} else if(t->isFloatTy()){r.k=T_F32;r.w=32;r.size=4;} else if(t->isX86_FP80Ty()){r.k=T_F80;r.w=80;r.size=10;} else if(t->isVectorTy()){r.k=T_VEC;r.size=DL->getTypeStoreSize(t);} else if(t->isStructTy()||t->isArrayTy()){r.k=T_AGG;r.size=DL->getTypeStoreSize(t);} return r; }

  // ------------------------------------------------------------ constants
  Val constVal(Constant*C){
    Val v; Type*t=C->getType();
    if(isa<UndefValue>(C)||isa<ConstantPointerNull>(C)||isa<ConstantAggregateZero>(C)){
      if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()){ aggPool.emplace_back(); v.agg=&aggPool.back(); unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++)v.agg->v.push_back(constVal(isa<UndefValue>(C)?UndefValue::get(t->isStructTy()?t->getStructElementType(i):t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType()):Constant::getNullValue(t->isStructTy()?t->getStructElementType(i):t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType()))); }
      return v; }
    if(auto*CI=dyn_cast<ConstantInt>(C)){ if(CI->getBitWidth()<=64)v.u=CI->getZExtValue(); else v.u=CI->getValue().extractBitsAsZExtValue(64,0); return v; }
    if(auto*CF=dyn_cast<ConstantFP>(C)){ if(t->isDoubleTy())v.d=CF->getValueAPF().convertToDouble(); else if(t->isFloatTy()){v.u=0;v.f=CF->getValueAPF().convertToFloat();} else { APInt b=CF->getValueAPF().bitcastToAPInt(); uint64_t w[2]={b.getRawData()[0],b.getRawData()[1]}; long double ld=0; memcpy(&ld,w,10); v.ld=ld; } return v; }
    if(auto*GV=dyn_cast<GlobalValue>(C)){ if(auto*GA=dyn_cast<GlobalAlias>(GV)) return constVal(GA->getAliasee()); auto it=gaddr.find(GV); if(it==gaddr.end()){errs()<<"no addr "<<GV->getName()<<"\n";abort();} v.u=it->second; return v; }
    if(isa<ConstantStruct>(C)||isa<ConstantArray>(C)||isa<ConstantVector>(C)){ aggPool.emplace_back(); v.agg=&aggPool.back(); for(unsigned i=0;i<C->getNumOperands();i++)v.agg->v.push_back(constVal(cast<Constant>(C->getOperand(i)))); return v; }
    if(auto*CD=dyn_cast<ConstantDataSequential>(C)){ aggPool.emplace_back(); v.agg=&aggPool.back(); for(unsigned i=0;i<CD->getNumElements();i++)v.agg->v.push_back(constVal(CD->getElementAsConstant(i))); return v; }
    if(auto*CE=dyn_cast<ConstantExpr>(C)){
      switch(CE->getOpcode()){
        case Instruction::GetElementPtr:{ Val b=constVal(CE->getOperand(0)); APInt off(64,0); if(!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL,off))abort(); v.u=b.u+off.getSExtValue(); return v; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(CE->getOperand(0));
        case Instruction::Add:case Instruction::Sub:{Val a=constVal(CE->getOperand(0)),b=constVal(CE->getOperand(1));v.u=maskw(CE->getOpcode()==Instruction::Add?a.u+b.u:a.u-b.u,t->getIntegerBitWidth());return v;}
        case Instruction::Trunc:{Val a=constVal(CE->getOperand(0));v.u=maskw(a.u,t->getIntegerBitWidth());return v;}
      }
    }
    errs()<<"unsupported constant: "; C->print(errs()); errs()<<"\n"; abort();
  }
  void initConst(uint64_t a,Constant*C){
    Type*t=C->getType(); 
    if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)){ return; }
    if(auto*CD=dyn_cast<ConstantDataSequential>(C)){ StringRef r=CD->getRawDataValues(); memcpy((void*)a,r.data(),r.size()); return; }
    if(t->isStructTy()){ auto*SL=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<C->getNumOperands();i++)initConst(a+SL->getElementOffset(i),cast<Constant>(C->getOperand(i))); return; }
    if(t->isArrayTy()||t->isVectorTy()){ uint64_t es=DL->getTypeAllocSize(t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType()); for(unsigned i=0;i<C->getNumOperands();i++)initConst(a+i*es,cast<Constant>(C->getOperand(i))); return; }
    Val v=constVal(C); TI ti=typeInfo(t); rawStore(a,v,ti);
  }
  void rawStore(uint64_t a,const Val&v,TI ti){
    if(ti.k==T_F80)memcpy((void*)a,&v.ld,10); else memcpy((void*)a,&v.u,ti.size>8?8:ti.size);
    if(ti.k==T_INT&&ti.w==1)*(uint8_t*)a=v.u&1;
  }

  // ------------------------------------------------------------ decode
  FuncInfo* getFunc(Function*F){
    auto it=finfo.find(F); if(it!=finfo.end())return it->second;
    FuncInfo*fi=new FuncInfo(); finfo[F]=fi; fi->F=F; fi->name=F->getName().str(); fi->dem=llvm::demangle(fi->name);
    std::map<Value*,int> slot; int n=0; for(auto&A:F->args())slot[&A]=n++;
    for(auto&B:*F){ fi->bbidx[&B]=fi->bbs.size(); fi->bbs.emplace_back(); for(auto&I:B)if(!I.getType()->isVoidTy())slot[&I]=n++; }
    fi->nslots=n;
    auto O=[&](Value*v)->Opnd{ Opnd o; if(auto*C=dyn_cast<Constant>(v)){o.slot=-1;o.c=constVal(C);} else if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)){o.slot=-1;} else o.slot=slot.at(v); return o; };
    for(auto&B:*F){ BBInfo&bi=fi->bbs[fi->bbidx[&B]]; bi.nphi=0;
      for(auto*P:predecessors(&B))bi.preds.push_back(fi->bbidx[P]);
      for(auto&I:B){ DInst d; d.I=&I; d.op=I.getOpcode(); d.dest=I.getType()->isVoidTy()?-1:slot[&I]; d.ti=typeInfo(I.getType()); d.bb0=d.bb1=-1; d.callee=nullptr; d.extid=-1; d.isInvoke=isa<InvokeInst>(I); d.gepoff=0; d.ti0=TI{T_VOID,0,0};
        if(I.isDebugOrPseudoInst())continue;
        if(auto*P=dyn_cast<PHINode>(&I)){ // store as ops in incoming order; bb indices in gep
          for(unsigned i=0;i<P->getNumIncomingValues();i++){ d.ops.push_back(O(P->getIncomingValue(i))); d.gep.push_back({fi->bbidx[P->getIncomingBlock(i)],0}); }
          bi.nphi++; bi.insts.push_back(d); continue; }
        if(auto*G=dyn_cast<GetElementPtrInst>(&I)){
          d.ops.push_back(O(G->getPointerOperand()));
          for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*idx=gi.getOperand();
            if(StructType*ST=gi.getStructTypeOrNull()){ d.gepoff+=DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
            else { int64_t es=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*CI=dyn_cast<ConstantInt>(idx))d.gepoff+=CI->getSExtValue()*es; else { d.ops.push_back(O(idx)); d.gep.push_back({(int)d.ops.size()-1,es}); d.gepw.push_back(idx->getType()->getIntegerBitWidth()); } } }
          bi.insts.push_back(d); continue; }
        if(auto*CB=dyn_cast<CallBase>(&I)){ for(auto&A:CB->args())d.ops.push_back(O(A.get())); Value*cv=CB->getCalledOperand()->stripPointerCasts(); if(auto*GA=dyn_cast<GlobalAlias>(cv))cv=GA->getAliasee(); d.callee=dyn_cast<Function>(cv); if(!d.callee&&!isa<InlineAsm>(cv))d.ops.push_back(O(CB->getCalledOperand())); if(auto*II=dyn_cast<InvokeInst>(&I)){d.bb0=fi->bbidx[II->getNormalDest()];d.bb1=fi->bbidx[II->getUnwindDest()];} bi.insts.push_back(d); continue; }
        if(auto*BI=dyn_cast<BranchInst>(&I)){ if(BI->isConditional()){d.ops.push_back(O(BI->getCondition()));d.bb0=fi->bbidx[BI->getSuccessor(0)];d.bb1=fi->bbidx[BI->getSuccessor(1)];} else d.bb0=fi->bbidx[BI->getSuccessor(0)]; bi.insts.push_back(d); continue; }
        if(auto*SI=dyn_cast<SwitchInst>(&I)){ d.ops.push_back(O(SI->getCondition())); d.ti0=typeInfo(SI->getCondition()->getType()); d.bb0=fi->bbidx[SI->getDefaultDest()]; for(auto&c:SI->cases()){ d.gep.push_back({fi->bbidx[c.getCaseSuccessor()],(int64_t)c.getCaseValue()->getZExtValue()}); } bi.insts.push_back(d); continue; }
        for(auto&U:I.operands())d.ops.push_back(O(U.get()));
        if(I.getNumOperands()>0)d.ti0=typeInfo(I.getOperand(0)->getType());
        bi.insts.push_back(d);
      } }
    return fi;
  }

  // ------------------------------------------------------------ memory
  void memErr(const std::string&m){ report("memory",m); throw PathEnd{2}; }
  bool okRange(uint64_t a,uint64_t n){ if(a<ABASE||a+n>ABASE+A_SIZE||a+n<a)return false; uint8_t*m=meta(a); 
    if(n==8){uint64_t x;memcpy(&x,m,8);return (x&0x0101010101010101ull)==0x0101010101010101ull;}
    for(uint64_t i=0;i<n;i++)if(!(m[i]&M_ALLOC))return false; return true; }
  void chk(uint64_t a,uint64_t n,bool wr){ if(!okRange(a,n)){ char b[128]; snprintf(b,128,"%s of %llu bytes at invalid address 0x%llx",wr?"write":"read",(unsigned long long)n,(unsigned long long)a); memErr(b);} if(st.omp.on)ompAcc(a,n,wr); }
  void ompAcc(uint64_t a,uint64_t n,bool wr){ // memory on the thread's own stack is private; the heap is never reused inside a region, so equal addresses are equal objects
    auto&o=st.omp; if(o.locked||(a>=o.sp&&a<ABASE+H_OFF))return; int it=o.tid+1;
    for(uint64_t k=a;k<a+n;k++){ auto&p=o.acc[k]; // first = writing thread (0 none), second = reading thread (0 none, -1 several)
      if(wr){ if((p.first&&p.first!=it)||(p.second&&p.second!=it))ompRaceFound(k); p.first=it; }
      else { if(p.first&&p.first!=it)ompRaceFound(k); if(!p.second)p.second=it; else if(p.second!=it)p.second=-1; } }
  }
  void ompRaceFound(uint64_t a){ ompRaces++; report("race","iterations of a parallel loop conflict on shared memory"); throw PathEnd{2}; }
  void killCells(uint64_t a,uint64_t n){ // remove symbolic cells overlapping [a,a+n)
    for(uint64_t x=a>=15?a-15:0;x<a+n;x++){ auto it=st.sh.find(x); if(it==st.sh.end())continue; uint64_t e=x+it->second.size; if(e<=a)continue; 
      Expr*ce=it->second.e; unsigned cs=it->second.size; st.sh.erase(it);
      for(uint64_t y=x;y<e;y++)*meta(y)&=~M_SYM;
      if(x<a||e>a+n){ // partial overwrite: keep remaining bytes as extracted pieces
        Expr*ie=ce->isF()?x_cast(O_F2I,ce,64):ce; if(ie->op==O_BLOB){continue;}
        for(uint64_t y=x;y<e;y++)if(y<a||y>=a+n){ Expr*b=x_cast(O_TRUNC,x_ibin(O_LSHR,ie,EP.iconst((y-x)*8,ie->ty)),8); if(isC(b))*(uint8_t*)y=b->k; else {st.sh[y]=SymCell{b,1};*meta(y)|=M_SYM;} }
        (void)cs; } }
  }
  bool anySym(uint64_t a,uint64_t n){ uint8_t*m=meta(a); for(uint64_t i=0;i<n;i++)if(m[i]&M_SYM)return true; return false; }
  void store(uint64_t a,const Val&v,TI ti){
    if(ti.k==T_AGG||ti.k==T_VEC){errs()<<"agg store\n";abort();}
    chk(a,ti.size,true);
    if(anySym(a,ti.size))killCells(a,ti.size);
    uint8_t*m=meta(a);
    if(!v.e){ rawStore(a,v,ti); for(unsigned i=0;i<ti.size;i++)m[i]|=M_INIT; return; }
    storeExpr(a,v.e,ti.size);
  }
  void storeExpr(uint64_t a,Expr*e,unsigned size){
    uint8_t*m=meta(a);
    if(e->op==O_BLOB){ Blob*b=e->blob; memcpy((void*)a,b->raw,b->size); for(unsigned i=0;i<b->size;i++)m[i]|=M_INIT; for(auto&c:b->cells)storeExpr(a+c.off,c.e,c.size); return; }
    if(!e->isF()&&e->ty<size*8)e=x_cast(O_ZEXT,e,size*8);
    st.sh[a]=SymCell{e,(uint8_t)size}; for(unsigned i=0;i<size;i++)m[i]|=M_INIT|M_SYM;
  }
  Val load(uint64_t a,TI ti){
    chk(a,ti.size,false); Val v; uint8_t*m=meta(a); unsigned n=ti.size; bool sym=false,uninit=false,allun=true;
    if(n==8){ uint64_t x;memcpy(&x,m,8); if(x==0x0303030303030303ull){memcpy(&v.u,(void*)a,8);return v;} }
    for(unsigned i=0;i<n;i++){ if(m[i]&M_SYM)sym=true; if(!(m[i]&M_INIT))uninit=true; else allun=false; }
    if(uninit&&!sym){
      if(allun&&trackUninit&&ti.k!=T_F80&&ti.k!=T_F32&&(ti.k!=T_INT||ti.w<=64)){ uninitReads++; std::string w=where(); uninitAt[w]++; Expr*e=EP.var("uninit@"+st.frames.back().f->name,ti.k==T_F64?TF64:n*8,true); storeExpr(a,e,n); return finish(e,ti); }
    }
    if(!sym){ if(ti.k==T_F80){memcpy(&v.ld,(void*)a,10);return v;} memcpy(&v.u,(void*)a,n>8?8:n); if(ti.k==T_INT&&ti.w<8)v.u&=((1<<ti.w)-1); return v; }
    auto it=st.sh.find(a); if(it!=st.sh.end()&&it->second.size==n)return finish(it->second.e,ti);
    // mixed load
    Blob*b=new Blob(); b->size=n; memset(b->raw,0,16); memcpy(b->raw,(void*)a,n>16?16:n); bool inside=true;
    for(uint64_t x=a>=15?a-15:0;x<a+n;x++){ auto c=st.sh.find(x); if(c==st.sh.end())continue; if(x+c->second.size<=a)continue; if(x<a||x+c->second.size>a+n){inside=false;
        // sub-load of a larger cell
        if(x<=a&&x+c->second.size>=a+n&&ti.k!=T_F80){ Expr*ce=c->second.e; if(ce->isF()){ if(EP.real)throw Unsupported{"partial load of a real"}; ce=x_cast(O_F2I,ce,64);} if(ce->op==O_BLOB)break; Expr*r=x_cast(O_TRUNC,x_ibin(O_LSHR,ce,EP.iconst((a-x)*8,ce->ty)),n*8); delete b; return finish(r,ti); }
        break; }
      b->cells.push_back({(uint8_t)(x-a),c->second.size,c->second.e}); }
    if(!inside)throw Unsupported{"unaligned symbolic load"};
    if(ti.k==T_INT||ti.k==T_PTR||ti.k==T_F64){ Val r; r.e=EP.blob(b); 
      if(ti.k!=T_F64&&!EP.real){ // try to lower to a plain bit-vector when every cell is an integer
        bool ok=true; for(auto&c:b->cells)if(c.e->op==O_BLOB)ok=false; (void)ok; }
      return r; }
    throw Unsupported{"mixed load"};
  }
  Expr* lowerBlob(Expr*e){ // bit-vector meaning of a blob
    if(e->op!=O_BLOB)return e; Blob*b=e->blob; unsigned w=b->size*8; uint64_t raw; memcpy(&raw,b->raw,8); uint64_t msk=0; for(auto&c:b->cells)msk|=maskw(~0ull,c.size*8)<<(c.off*8);
    Expr*r=EP.iconst(raw&~msk,w); for(auto&c:b->cells){ Expr*x=c.e; if(x->op==O_BLOB)throw Unsupported{"nested blob"}; if(x->isF()){ if(EP.real)throw Unsupported{"bits of a real"}; x=x_cast(O_F2I,x,64);} x=x_cast(O_ZEXT,x,w); r=x_ibin(O_OR,r,x_ibin(O_SHL,x,EP.iconst(c.off*8,w))); }
    return r; }
  Val finish(Expr*e,TI ti){
    if(e->op==O_BLOB){ Val v; v.e=e; return v; }
    if(ti.k==T_F64){ if(!e->isF()){ if(e->ty!=64){throw Unsupported{"double from int cell"};} 
        if(e->op==O_VAR&&EP.vars[e->k].uninit){ Expr*f=EP.var(EP.vars[e->k].name,TF64,true); return vE(f);} 
        e=x_cast(O_I2F,e,TF64);} return vE(e); }
    if(ti.k==T_INT||ti.k==T_PTR){ if(e->isF()){ 
        // keep the double inside a blob so that copies through integer registers stay exact
        Blob*b=new Blob(); b->size=8; memset(b->raw,0,16); b->cells.push_back({0,8,e}); Val v; v.e=EP.blob(b); return v; }
      if(e->ty>ti.w)e=x_cast(O_TRUNC,e,ti.w); return vE(e); }
    throw Unsupported{"load type"};
  }
  void copyMem(uint64_t d,uint64_t s,uint64_t n){
    if(!n)return; chk(s,n,false); chk(d,n,true);
    std::vector<std::pair<uint64_t,SymCell>> cells; if(anySym(s,n)) for(uint64_t x=s;x<s+n;x++){auto it=st.sh.find(x);if(it!=st.sh.end()){ if(x+it->second.size>s+n)throw Unsupported{"memcpy splits a symbolic cell"}; cells.push_back({x-s,it->second}); }}
    if(anySym(d,n))killCells(d,n);
    memmove((void*)d,(void*)s,n); uint8_t*md=meta(d),*ms=meta(s); std::vector<uint8_t> t(ms,ms+n); for(uint64_t i=0;i<n;i++)md[i]=(md[i]&M_ALLOC)|(t[i]&M_INIT);
    for(auto&c:cells){ st.sh[d+c.first]=c.second; for(unsigned i=0;i<c.second.size;i++)meta(d+c.first)[i]|=M_SYM|M_INIT; }
  }
  void setMem(uint64_t d,int v,uint64_t n){ if(!n)return; chk(d,n,true); if(anySym(d,n))killCells(d,n); memset((void*)d,v,n); uint8_t*m=meta(d); for(uint64_t i=0;i<n;i++)m[i]|=M_INIT; }
  uint64_t alloc(uint64_t n,uint64_t al=16){
    if(n>(1ull<<28)){ report("memory","allocation of an absurd size"); throw PathEnd{2}; }
    uint64_t cls=((n?n:1)+15)&~15ull; auto&fl=st.freel[cls|(al>16?1:0)]; uint64_t a;
    if(!st.omp.on&&fl.size()>8&&al<=16){ a=fl.front(); fl.pop_front(); }
    else { uint64_t h=st.hw; a=(h+32+al-1)&~(al-1); st.hw=a+cls+16; if(st.hw>ABASE+A_SIZE){report("memory","out of arena");throw PathEnd{3};} *(uint64_t*)(a-16)=0; }
    *(uint64_t*)(a-16)=n; *(uint64_t*)(a-8)=0xA110C8ED;
    uint8_t*m=meta(a); memset(m,M_ALLOC,n); memset((void*)a,0,n); return a;
  }
  void dealloc(uint64_t a){ if(!a)return; if(a<ABASE+H_OFF||a>=st.hw||*(uint64_t*)(a-8)!=0xA110C8ED){memErr("free of an invalid pointer");}
    uint64_t n=*(uint64_t*)(a-16); if(n&&!(*meta(a)&M_ALLOC))memErr("double free"); if(st.omp.on)ompAcc(a,n,true); if(anySym(a,n))killCells(a,n); memset(meta(a),0,n); *(uint64_t*)(a-8)=0xF4EED; uint64_t cls=((n?n:1)+15)&~15ull; st.freel[cls].push_back(a); }
  uint64_t salloc(uint64_t n,uint64_t al){ uint64_t a=(st.sp+16+al-1)&~(al-1); st.sp=a+((n+15)&~15ull); if(st.sp>ABASE+H_OFF){report("memory","stack overflow");throw PathEnd{2};} memset(meta(a),M_ALLOC,n); return a; }
  void spRestore(uint64_t sp){ if(st.sp>sp){ uint64_t n=st.sp-sp; uint8_t*m=meta(sp); bool s=false; for(uint64_t i=0;i<n;i++)if(m[i]&M_SYM){s=true;break;} if(s) for(uint64_t x=sp;x<st.sp;x++){ if(*meta(x)&M_SYM)st.sh.erase(x);} memset(m,0,n); st.sp=sp; } }

  // ------------------------------------------------------------ snapshots
  void park(State&s){ auto cp=[&](std::vector<uint8_t>&d,std::vector<uint8_t>&m,uint64_t off,uint64_t end){ uint64_t b=ABASE+off; size_t n=end>b?end-b:0; d.assign((uint8_t*)b,(uint8_t*)b+n); m.assign(meta(b),meta(b)+n); };
    cp(s.snapG,s.msG,G_OFF,gend); cp(s.snapS,s.msS,S_OFF,s.sp); cp(s.snapH,s.msH,H_OFF,s.hw); }
  void unpark(State&s){ // current st memory is dropped
    auto rs=[&](std::vector<uint8_t>&d,std::vector<uint8_t>&m,uint64_t off,uint64_t curEnd){ uint64_t b=ABASE+off; if(d.size()){memcpy((void*)b,d.data(),d.size());memcpy(meta(b),m.data(),m.size());} if(curEnd>b+d.size())memset(meta(b+d.size()),0,curEnd-(b+d.size())); std::vector<uint8_t>().swap(d); std::vector<uint8_t>().swap(m); };
    uint64_t csp=st.sp,chw=st.hw; rs(s.snapG,s.msG,G_OFF,0); rs(s.snapS,s.msS,S_OFF,csp); rs(s.snapH,s.msH,H_OFF,chw); st=std::move(s); }

  // ------------------------------------------------------------ solver helpers
  Expr* asE(const Val&v,TI ti){ if(v.e)return v.e; if(ti.k==T_F64)return EP.fconst(v.d); return EP.iconst(v.u,ti.k==T_PTR?64:ti.w); }
  Expr* asI(const Val&v,unsigned w){ if(v.e){ Expr*e=lowerBlob(v.e); return e; } return EP.iconst(v.u,w); }
  Expr* asF(const Val&v){ if(v.e){ if(v.e->op==O_BLOB){ Blob*b=v.e->blob; if(b->cells.size()==1&&b->cells[0].size==8&&b->cells[0].e->isF())return b->cells[0].e; throw Unsupported{"blob as double"};} return v.e; } return EP.fconst(v.d); }
  bool modelSays(Expr*c){ Evaluator ev(&st.model); if(st.model.v.size()<EP.vars.size())st.model.v.resize(EP.vars.size(),0); return ev.evb(c); }
  bool uninitReport=false; std::unordered_map<uint32_t,bool> uninitMemo;
  bool hasUninit(Expr*e){ if(!e||isC(e))return false; if(e->op==O_VAR)return EP.vars[e->k].uninit; auto it=uninitMemo.find(e->id); if(it!=uninitMemo.end())return it->second; bool r=false; if(e->op==O_BLOB){ for(auto&c:e->blob->cells)r|=hasUninit(c.e); } else r=hasUninit(e->a)||hasUninit(e->b)||hasUninit(e->c); uninitMemo[e->id]=r; return r; }
  // decide a symbolic condition: may fork. returns the truth value on this path
  bool decide(Expr*c){
    if(isC(c))return c->k;
    for(Expr*p:st.pc)if(p==c)return true; Expr*nc=x_not(c); for(Expr*p:st.pc)if(p==nc)return false;
    checkTime(); if(uninitReport&&hasUninit(c)){ report("uninit","a decision depends on uninitialised memory"); throw PathEnd{2}; }
    bool t=modelSays(c); Expr*other=t?nc:c; Model m; SatRes r=S->check(st.pc,other,&m,S->tmo_branch,false);
    if(r==R_UNSAT){ st.pc.push_back(t?c:nc); return t; }
    if(r==R_UNKNOWN){ m=st.model; }
    forks++; State s2=st; s2.pc.push_back(other); s2.model=m; s2.depth++; 
    // the parked state re-executes the current instruction with the condition decided
    park(s2); pending.push_back(std::move(s2));
    st.pc.push_back(t?c:nc); st.depth++; return t;
  }
  uint64_t concretize(const Val&v,unsigned w){ if(!v.e)return v.u; Expr*e=lowerBlob(v.e); if(isC(e))return e->k; 
    for(int i=0;i<4096;i++){ Evaluator ev(&st.model); if(st.model.v.size()<EP.vars.size())st.model.v.resize(EP.vars.size(),0); uint64_t x=maskw(ev.ev(e),e->ty); if(decide(x_icmp(CmpInst::ICMP_EQ,e,EP.iconst(x,e->ty))))return x; }
    throw PathEnd{3}; }
  void checkTime(){ if(nowS()>deadline){incomplete=true;incReason="time limit";throw PathEnd{4};} }
  std::string where(){ std::string r; int n=0; for(int i=(int)st.frames.size()-1;i>=0&&n<6;i--){ std::string d=st.frames[i].f->dem; size_t p=d.find('('); if(p!=std::string::npos)d=d.substr(0,p); if(d.size()>90)d=d.substr(0,90); if(d.rfind("std::",0)==0&&n>0&&n<5&&i>0&&0)continue; r+=(n?" < ":"")+d; n++; } return r; }
  void report(const std::string&kind,const std::string&msg){
    int&n=violCount[kind+":"+msg]; n++; if(n>1&&kind!="assert")return; if(n>maxViol)return;
    Violation v; v.kind=kind; v.msg=msg; v.where=where(); v.hasModel=true; Model m; SatRes r=S->check(st.pc,nullptr,&m,S->tmo_assert,true); if(r==R_UNSAT){ n--; throw PathEnd{1}; } v.m=r==R_SAT?m:st.model; if(r==R_UNKNOWN)v.msg+=" [path feasibility unknown]"; viols.push_back(v); if(verbose)errs()<<"VIOL "<<kind<<" "<<msg<<" at "<<v.where<<"\n"; }
  void doAssert(Expr*c,const std::string&msg,std::vector<Expr*> stronger={}){
    assertCount[msg]++;
    if(isC(c)){ S->st.folded++; if(!c->k){ reportAssert(msg,nullptr); throw PathEnd{2}; } return; }
    checkTime();
    if(S->presolve(c)){ S->st.asserts_checked++; S->st.assert_unsat++; S->st.presolved++; return; }
    Model m; SatRes r=S->check(st.pc,x_not(c),&m,S->tmo_assert,true);
    if(r==R_UNSAT)return;
    if(r==R_SAT){ for(Expr*g:stronger){ Model m2; if(S->check(st.pc,g,&m2,S->tmo_assert,false)==R_SAT){m=m2;break;} } reportAssert(msg,&m); st.pc.push_back(c); if(S->check(st.pc,nullptr,&m,S->tmo_branch,false)==R_UNSAT)throw PathEnd{2}; st.model=m; return; }
    inconclusive.push_back(msg+" @ "+where());
  }
  void reportAssert(const std::string&msg,Model*m){
    int&n=violCount["assert:"+msg]; n++; if(n>maxViol)return; Violation v; v.kind="assert"; v.msg=msg; v.where=where(); v.hasModel=true; if(m)v.m=*m; else { Model mm; SatRes r=S->check(st.pc,nullptr,&mm,S->tmo_assert,true); if(r==R_UNSAT){n--;throw PathEnd{1};} v.m=r==R_SAT?mm:st.model; }
    viols.push_back(v); if(verbose)errs()<<"VIOL assert "<<msg<<" at "<<v.where<<"\n"; }

  // ------------------------------------------------------------ interpreter
  Val& R(int s){return st.frames.back().regs[s];}
  const Val& get(const Opnd&o){ return o.slot<0?o.c:st.frames.back().regs[o.slot]; }
  void jump(int to){ Frame&f=st.frames.back(); f.prev=f.bb; f.bb=to; f.pc=0; BBInfo&b=f.f->bbs[to]; b.seen=true;
    if(b.nphi){ std::vector<Val> tmp(b.nphi); for(int i=0;i<b.nphi;i++){ DInst&d=b.insts[i]; bool ok=false; for(size_t k=0;k<d.gep.size();k++)if(d.gep[k].first==f.prev){tmp[i]=get(d.ops[k]);ok=true;break;} if(!ok)abort(); } for(int i=0;i<b.nphi;i++)f.regs[b.insts[i].dest]=tmp[i]; f.pc=b.nphi; } }
  void pushFrame(Function*F,const std::vector<Val>&args,int ret){
    FuncInfo*fi=getFunc(F); fi->calls++; st.frames.emplace_back(); Frame&f=st.frames.back(); f.f=fi;f.bb=0;f.prev=-1;f.pc=0;f.regs.resize(fi->nslots);fi->bbs[0].seen=true;f.sp=st.sp;f.ret=ret; f.isCtor=false; unsigned na=F->arg_size(); for(unsigned i=0;i<na&&i<args.size();i++)f.regs[i]=args[i]; 
    // byval args
    for(unsigned i=0;i<na;i++) if(F->hasParamAttribute(i,Attribute::ByVal)){ Type*t=F->getParamByValType(i); uint64_t n=DL->getTypeAllocSize(t); uint64_t p=salloc(n,16); copyMem(p,args[i].u,n); f.regs[i]=vI(p); }
    if(st.frames.size()>2000){report("memory","call depth");throw PathEnd{2};} }
  void setRet(int slot,const Val&v){ if(slot>=0)st.frames.back().regs[slot]=v; }

  Val fcmpV(unsigned pred,const Val&a,const Val&b,TI ti){ if(ti.k==T_F64){ if(!a.e&&!b.e)return vI(fcmp_eval(pred,a.d,b.d)); return vE(x_fcmp(pred,asF(a),asF(b))); } if(ti.k==T_F32)return vI(fcmp_eval(pred,a.f,b.f)); return vI(fcmp_eval(pred,(double)a.ld,(double)b.ld)&&1); }
  Val fbinV(Op op,const Val&a,const Val&b,TI ti){ Val r; if(ti.k==T_F64){ if(!a.e&&!b.e){r.d=fbin_eval(op,a.d,b.d);return r;} return vE(x_fbin(op,asF(a),asF(b))); }
    if(ti.k==T_F32){ r.u=0; switch(op){case O_FADD:r.f=a.f+b.f;break;case O_FSUB:r.f=a.f-b.f;break;case O_FMUL:r.f=a.f*b.f;break;case O_FDIV:r.f=a.f/b.f;break;default:abort();} return r; }
    if(ti.k==T_F80){ switch(op){case O_FADD:r.ld=a.ld+b.ld;break;case O_FSUB:r.ld=a.ld-b.ld;break;case O_FMUL:r.ld=a.ld*b.ld;break;case O_FDIV:r.ld=a.ld/b.ld;break;default:abort();} return r; }
    abort(); }
  Val ibinV(Op op,const Val&a,const Val&b,unsigned w){ if(w>64){ u128 x=((u128)0)|a.u,y=b.u; // 128-bit: only what 64x64 multiplication idioms need
      (void)x;(void)y; throw Unsupported{"128-bit integer arithmetic"}; }
    if(!a.e&&!b.e){ bool ok; uint64_t r=ibin_eval(op,a.u,b.u,w,ok); if(!ok){report("arith","integer division by zero");throw PathEnd{2};} return vI(r); }
    Expr*x=asI(a,w),*y=asI(b,w); if(op==O_SDIV||op==O_UDIV||op==O_SREM||op==O_UREM){ if(!isC(y)||y->k==0){ if(decide(x_icmp(CmpInst::ICMP_EQ,y,EP.iconst(0,w)))){report("arith","integer division by zero");throw PathEnd{2};} } }
    return vE(x_ibin(op,x,y)); }

  Val loadTy(uint64_t a,Type*t){ TI ti=typeInfo(t); if(ti.k==T_AGG||ti.k==T_VEC){ Val v; aggPool.emplace_back(); v.agg=&aggPool.back(); Agg*ag=v.agg; if(t->isStructTy()){auto*SL=DL->getStructLayout(cast<StructType>(t));for(unsigned i=0;i<t->getStructNumElements();i++)ag->v.push_back(loadTy(a+SL->getElementOffset(i),t->getStructElementType(i)));} else { Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); uint64_t es=DL->getTypeAllocSize(et); for(unsigned i=0;i<n;i++)ag->v.push_back(loadTy(a+i*es,et)); } v.agg=ag; return v; } return load(a,ti); }
  void storeTy(uint64_t a,const Val&v,Type*t){ TI ti=typeInfo(t); if(ti.k==T_AGG||ti.k==T_VEC){ if(t->isStructTy()){auto*SL=DL->getStructLayout(cast<StructType>(t));for(unsigned i=0;i<t->getStructNumElements();i++)storeTy(a+SL->getElementOffset(i),v.agg->v[i],t->getStructElementType(i));} else { Type*et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); uint64_t es=DL->getTypeAllocSize(et); for(unsigned i=0;i<v.agg->v.size();i++)storeTy(a+i*es,v.agg->v[i],et);} return; } store(a,v,ti); }

  Val vecMap(Type*t,unsigned n,std::function<Val(unsigned)> f){ Val v; aggPool.emplace_back(); Agg*a=&aggPool.back(); for(unsigned i=0;i<n;i++)a->v.push_back(f(i)); v.agg=a; return v; }

  void step(){
    Frame&f=st.frames.back(); BBInfo&bb=f.f->bbs[f.bb]; DInst&d=bb.insts[f.pc]; Instruction*I=d.I;
    totalSteps++; st.steps++;
    if((totalSteps&0xfffff)==0)checkTime();
    if(st.steps>maxSteps){incomplete=true;incReason="step limit";throw PathEnd{3};}
    auto binop=[&](Op o,bool fl){ Type*t=I->getType(); if(d.ti.k==T_VEC){ auto*VT=cast<FixedVectorType>(t); TI et=typeInfo(VT->getElementType()); const Val&a=get(d.ops[0]),&b=get(d.ops[1]); Val r=vecMap(t,VT->getNumElements(),[&](unsigned i){return fl?fbinV(o,a.agg->v[i],b.agg->v[i],et):ibinV(o,a.agg->v[i],b.agg->v[i],et.w);}); R(d.dest)=r; } else { Val r=fl?fbinV(o,get(d.ops[0]),get(d.ops[1]),d.ti):ibinV(o,get(d.ops[0]),get(d.ops[1]),d.ti.w); R(d.dest)=r; } st.frames.back().pc++; };
    switch(d.op){
      case Instruction::FAdd:binop(O_FADD,true);return; case Instruction::FSub:binop(O_FSUB,true);return; case Instruction::FMul:binop(O_FMUL,true);return; case Instruction::FDiv:binop(O_FDIV,true);return; case Instruction::FRem:binop(O_FREM,true);return;
      case Instruction::Add:binop(O_ADD,false);return;case Instruction::Sub:binop(O_SUB,false);return;case Instruction::Mul:binop(O_MUL,false);return;case Instruction::UDiv:binop(O_UDIV,false);return;case Instruction::SDiv:binop(O_SDIV,false);return;case Instruction::URem:binop(O_UREM,false);return;case Instruction::SRem:binop(O_SREM,false);return;
      case Instruction::And:binop(O_AND,false);return;case Instruction::Or:binop(O_OR,false);return;case Instruction::Xor:binop(O_XOR,false);return;case Instruction::Shl:binop(O_SHL,false);return;case Instruction::LShr:binop(O_LSHR,false);return;case Instruction::AShr:binop(O_ASHR,false);return;
      case Instruction::FNeg:{ const Val&a=get(d.ops[0]); Val r; if(d.ti.k==T_F64){ if(a.e)r=vE(x_funary(O_FNEG,asF(a))); else r.d=-a.d; } else if(d.ti.k==T_F32)r.f=-a.f; else if(d.ti.k==T_F80)r.ld=-a.ld; else if(d.ti.k==T_VEC){ r=vecMap(I->getType(),a.agg->v.size(),[&](unsigned i){Val q; if(a.agg->v[i].e)q=vE(x_funary(O_FNEG,asF(a.agg->v[i])));else q.d=-a.agg->v[i].d; return q;}); } R(d.dest)=r; f.pc++; return; }
      case Instruction::ICmp:{ const Val&a=get(d.ops[0]),&b=get(d.ops[1]); unsigned p=cast<ICmpInst>(I)->getPredicate(); unsigned w=d.ti0.w; if(d.ti0.k==T_VEC)throw Unsupported{"vector icmp"}; if(!a.e&&!b.e)R(d.dest)=vI(icmp_eval(p,a.u,b.u,w)); else R(d.dest)=vE(x_icmp(p,asI(a,w),asI(b,w))); f.pc++; return; }
      case Instruction::FCmp:{ const Val&a=get(d.ops[0]),&b=get(d.ops[1]); if(d.ti0.k==T_VEC){auto*VT=cast<FixedVectorType>(I->getOperand(0)->getType());TI et=typeInfo(VT->getElementType());Val r=vecMap(I->getType(),VT->getNumElements(),[&](unsigned i){return fcmpV(cast<FCmpInst>(I)->getPredicate(),a.agg->v[i],b.agg->v[i],et);});R(d.dest)=r;} else { if(d.ti0.k==T_F80){ unsigned p=cast<FCmpInst>(I)->getPredicate(); long double x=a.ld,y=b.ld; bool r; bool uno=x!=x||y!=y; switch(p&7){case 1:r=x==y;break;case 2:r=x>y;break;case 3:r=x>=y;break;case 4:r=x<y;break;case 5:r=x<=y;break;case 6:r=x!=y;break;case 7:r=true;break;default:r=false;} r=uno?(p&8)!=0:r; R(d.dest)=vI(r);} else R(d.dest)=fcmpV(cast<FCmpInst>(I)->getPredicate(),a,b,d.ti0);} f.pc++; return; }
      case Instruction::Load:{ uint64_t a=concretize(get(d.ops[0]),64); Val v=loadTy(a,I->getType()); R(d.dest)=v; st.frames.back().pc++; return; }
      case Instruction::Store:{ uint64_t a=concretize(get(d.ops[1]),64); Val v=get(d.ops[0]); storeTy(a,v,I->getOperand(0)->getType()); st.frames.back().pc++; return; }
      case Instruction::GetElementPtr:{ const Val&b=get(d.ops[0]); if(d.ti.k==T_VEC)throw Unsupported{"vector gep"}; bool sym=b.e; for(auto&g:d.gep)if(get(d.ops[g.first]).e)sym=true;
        if(!sym){ uint64_t r=b.u+d.gepoff; for(size_t i=0;i<d.gep.size();i++)r+=(uint64_t)(sextw(get(d.ops[d.gep[i].first]).u,d.gepw[i])*d.gep[i].second); R(d.dest)=vI(r); }
        else { // concretise indices (forks over feasible values)
          uint64_t r=concretize(b,64)+d.gepoff; for(size_t i=0;i<d.gep.size();i++){ uint64_t x=concretize(get(d.ops[d.gep[i].first]),d.gepw[i]); r+=(uint64_t)(sextw(x,d.gepw[i])*d.gep[i].second);} R(d.dest)=vI(r); }
        st.frames.back().pc++; return; }
      case Instruction::Alloca:{ auto*AI=cast<AllocaInst>(I); uint64_t n=concretize(get(d.ops[0]),64)*DL->getTypeAllocSize(AI->getAllocatedType()); uint64_t p=salloc(n,std::max<uint64_t>(16,AI->getAlign().value())); R(d.dest)=vI(p); st.frames.back().pc++; return; }
      case Instruction::Br:{ if(d.ops.empty()){jump(d.bb0);return;} const Val&c=get(d.ops[0]); bool t; if(!c.e)t=c.u&1; else t=decide(lowerBlob(c.e)); jump(t?d.bb0:d.bb1); return; }
      case Instruction::Switch:{ const Val&c=get(d.ops[0]); int to=d.bb0; if(!c.e){ uint64_t x=maskw(c.u,d.ti0.w); for(auto&g:d.gep)if((uint64_t)g.second==x){to=g.first;break;} } else { Expr*e=lowerBlob(c.e); for(auto&g:d.gep)if(decide(x_icmp(CmpInst::ICMP_EQ,e,EP.iconst(g.second,e->ty)))){to=g.first;break;} } jump(to); return; }
      case Instruction::Select:{ const Val c=get(d.ops[0]); if(I->getOperand(0)->getType()->isVectorTy())throw Unsupported{"vector select"}; const Val a=get(d.ops[1]),b=get(d.ops[2]); Val r; if(!c.e)r=(c.u&1)?a:b; else { bool blob=(a.e&&a.e->op==O_BLOB)||(b.e&&b.e->op==O_BLOB); if((d.ti.k==T_F64&&!forkSelect&&!blob)||(d.ti.k==T_INT&&d.ti.w<=64&&!blob&&(d.ti.w==1||!forkSelect))){ Expr*x,*y; if(d.ti.k==T_F64){x=asF(a);y=asF(b);} else {x=asI(a,d.ti.w);y=asI(b,d.ti.w);} 
            if(EP.real&&d.ti.k==T_F64&&((isC(x)&&!std::isfinite(bits2d(x->k)))||(isC(y)&&!std::isfinite(bits2d(y->k))))) r=decide(c.e)?a:b; else r=vE(x_select(c.e,x,y)); } else r=decide(c.e)?a:b; } R(d.dest)=r; st.frames.back().pc++; return; }
      case Instruction::Ret:{ Val v; bool has=!d.ops.empty(); if(has)v=get(d.ops[0]); int ret=f.ret; spRestore(f.sp); st.frames.pop_back(); if(st.frames.empty())throw PathEnd{0}; Frame&c=st.frames.back(); if(has&&ret>=0)c.regs[ret]=v; // advance caller
        advanceCaller(); return; }
      case Instruction::Unreachable: report("crash","unreachable code executed"); throw PathEnd{2};
      case Instruction::ZExt:{ const Val&a=get(d.ops[0]); if(d.ti.w>64)throw Unsupported{"i128"}; if(!a.e)R(d.dest)=vI(maskw(a.u,d.ti0.w)); else R(d.dest)=vE(x_cast(O_ZEXT,asI(a,d.ti0.w),d.ti.w)); f.pc++; return; }
      case Instruction::SExt:{ const Val&a=get(d.ops[0]); if(d.ti.w>64)throw Unsupported{"i128"}; if(!a.e)R(d.dest)=vI(maskw((uint64_t)sextw(a.u,d.ti0.w),d.ti.w)); else R(d.dest)=vE(x_cast(O_SEXT,asI(a,d.ti0.w),d.ti.w)); f.pc++; return; }
      case Instruction::Trunc:{ const Val&a=get(d.ops[0]); if(!a.e)R(d.dest)=vI(maskw(a.u,d.ti.w)); else { if(a.e->op==O_BLOB){ for(auto&c:a.e->blob->cells) if(c.off==0&&c.size*8==d.ti.w&&!c.e->isF()&&c.e->op!=O_BLOB){ R(d.dest)=vE(c.e); f.pc++; return; } } R(d.dest)=vE(x_cast(O_TRUNC,asI(a,d.ti0.w),d.ti.w)); } f.pc++; return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a=get(d.ops[0]); if(!a.e&&d.ti.k==T_INT)a.u=maskw(a.u,d.ti.w); R(d.dest)=a; f.pc++; return; }
      case Instruction::Freeze: { Val a=get(d.ops[0]); R(d.dest)=a; f.pc++; return; }
      case Instruction::SIToFP: case Instruction::UIToFP:{ const Val&a=get(d.ops[0]); bool sg=d.op==Instruction::SIToFP; Val r; unsigned w=d.ti0.w; if(d.ti0.k==T_VEC)throw Unsupported{"vector conv"}; if(!a.e){ int64_t s=sextw(a.u,w); uint64_t u=maskw(a.u,w); if(d.ti.k==T_F64)r.d=sg?(double)s:(double)u; else if(d.ti.k==T_F32){r.u=0;r.f=sg?(float)s:(float)u;} else r.ld=sg?(long double)s:(long double)u; } else { if(d.ti.k!=T_F64)throw Unsupported{"symbolic int to float"}; r=vE(x_cast(sg?O_SITOFP:O_UITOFP,asI(a,w),TF64)); } R(d.dest)=r; f.pc++; return; }
      case Instruction::FPToSI: case Instruction::FPToUI:{ const Val&a=get(d.ops[0]); bool sg=d.op==Instruction::FPToSI; Val r; if(!a.e){ double x=d.ti0.k==T_F64?a.d:d.ti0.k==T_F32?(double)a.f:0; if(d.ti0.k==T_F80){ r.u=maskw(sg?(uint64_t)(int64_t)a.ld:(uint64_t)a.ld,d.ti.w);} else r.u=sg?fptosi_eval(x,d.ti.w):fptoui_eval(x,d.ti.w); } else { Expr*x=asF(a); bool in=true; if(sg&&(d.ti.w==32||d.ti.w==64)){ double lim=ldexp(1.0,d.ti.w-1); Expr*c=x_ibin(O_AND,x_fcmp(CmpInst::FCMP_OGT,x,EP.fconst(d.ti.w==32?-lim-1:-lim)),x_fcmp(CmpInst::FCMP_OLT,x,EP.fconst(lim))); in=isC(c)?c->k!=0:(S->presolve(c)||decide(c)); }
        if(in) r=vE(x_cast(sg?O_FPTOSI:O_FPTOUI,x,d.ti.w)); else r=vI(maskw(1ull<<(d.ti.w-1),d.ti.w)); /* x86 cvttsd2si */ } R(d.dest)=r; f.pc++; return; }
      case Instruction::FPExt: case Instruction::FPTrunc:{ const Val&a=get(d.ops[0]); Val r; if(a.e){ 
            if(d.op==Instruction::FPExt&&d.ti.k==T_F80){ r.e=a.e; } else throw Unsupported{"symbolic float width change"}; } else { long double x=d.ti0.k==T_F64?a.d:d.ti0.k==T_F32?a.f:a.ld; if(d.ti.k==T_F64)r.d=(double)x; else if(d.ti.k==T_F32){r.u=0;r.f=(float)x;} else r.ld=x; } R(d.dest)=r; f.pc++; return; }
      case Instruction::BitCast:{ Val a=get(d.ops[0]); Val r=a; if(a.e){ if(d.ti.k==T_INT&&d.ti0.k==T_F64){ TI t{T_INT,64,8}; r=finish(asF(a),t); } else if(d.ti.k==T_F64&&d.ti0.k==T_INT){ if(a.e->op==O_BLOB)r=vE(asF(a)); else { if(EP.real)throw Unsupported{"bitcast in reals"}; r=vE(x_cast(O_I2F,a.e,TF64)); } } } else if(d.ti.k==T_VEC||d.ti0.k==T_VEC)throw Unsupported{"vector bitcast"}; R(d.dest)=r; f.pc++; return; }
      case Instruction::ExtractValue:{ const Val*a=&get(d.ops[0]); for(unsigned i:cast<ExtractValueInst>(I)->indices())a=&a->agg->v[i]; Val r=*a; R(d.dest)=r; f.pc++; return; }
      case Instruction::InsertValue:{ const Val a=get(d.ops[0]); Val x=get(d.ops[1]); std::function<Val(const Val&,ArrayRef<unsigned>)> ins=[&](const Val&ag,ArrayRef<unsigned> ix)->Val{ if(ix.empty())return x; Val r; aggPool.emplace_back(*ag.agg); Agg*na=&aggPool.back(); Val in=ins(na->v[ix[0]],ix.slice(1)); na->v[ix[0]]=in; r.agg=na; return r; }; Val r=ins(a,cast<InsertValueInst>(I)->getIndices()); R(d.dest)=r; f.pc++; return; }
      case Instruction::ExtractElement:{ const Val&a=get(d.ops[0]); uint64_t i=concretize(get(d.ops[1]),64); Val r=a.agg->v.at(i); R(d.dest)=r; f.pc++; return; }
      case Instruction::InsertElement:{ const Val&a=get(d.ops[0]); Val x=get(d.ops[1]); uint64_t i=concretize(get(d.ops[2]),64); Val r; aggPool.emplace_back(*a.agg); aggPool.back().v.at(i)=x; r.agg=&aggPool.back(); R(d.dest)=r; f.pc++; return; }
      case Instruction::ShuffleVector:{ const Val a=get(d.ops[0]),b=get(d.ops[1]); Val r; aggPool.emplace_back(); Agg*na=&aggPool.back(); unsigned n=a.agg->v.size(); for(int m:cast<ShuffleVectorInst>(I)->getShuffleMask()){ if(m<0)na->v.push_back(a.agg->v[0]); else if((unsigned)m<n)na->v.push_back(a.agg->v[m]); else na->v.push_back(b.agg->v[m-n]); } r.agg=na; R(d.dest)=r; f.pc++; return; }
      case Instruction::AtomicRMW:{ struct L{int&l;L(int&x):l(x){l++;}~L(){l--;}} lk(st.omp.locked); auto*A=cast<AtomicRMWInst>(I); uint64_t a=concretize(get(d.ops[0]),64); Val o=load(a,d.ti); Val x=get(d.ops[1]); Val n; switch(A->getOperation()){case AtomicRMWInst::Add:n=ibinV(O_ADD,o,x,d.ti.w);break;case AtomicRMWInst::Sub:n=ibinV(O_SUB,o,x,d.ti.w);break;case AtomicRMWInst::Xchg:n=x;break;default:throw Unsupported{"atomicrmw"};} store(a,n,d.ti); R(d.dest)=o; f.pc++; return; }
      case Instruction::Fence: f.pc++; return;
      case Instruction::Call: case Instruction::Invoke: call(d); return;
      case Instruction::LandingPad: case Instruction::Resume: throw Unsupported{"exception handling"};
    }
    std::string s; raw_string_ostream os(s); I->print(os); throw Unsupported{"instruction "+s};
  }
  void ompThread(DInst&d,const std::vector<Val>&args){ // run the outlined region as thread omp.tid
    auto it=fnByAddr.find(args[2].u); if(it==fnByAddr.end()||it->second->isDeclaration())throw Unsupported{"parallel region"};
    uint64_t t=salloc(8,16); *(uint32_t*)t=st.omp.tid; memset(meta(t),M_ALLOC|M_INIT,8); std::vector<Val> v{vI(t),vI(t)}; for(size_t i=3;i<args.size();i++)v.push_back(args[i]); uint64_t s0=t>st.omp.sp+64?t:st.omp.sp; pushFrame(it->second,v,-1); st.frames.back().sp=s0; }
  void ompFork(DInst&d,const std::vector<Val>&args){ auto&o=st.omp; if(o.on)throw Unsupported{"nested parallel region"}; o.on=true; o.tid=0; o.T=2; o.locked=0; o.phase=0; o.susp.clear(); o.depth=st.frames.size(); o.sp=st.sp; o.acc.clear(); ompLoops++; ompThread(d,args); }
  bool ompAdvance(DInst&d){ auto&o=st.omp; if(++o.tid<o.T){ if(o.phase==0){ std::vector<Val> args; for(auto&x:d.ops)args.push_back(get(x)); ompThread(d,args); } else st.frames.push_back(o.susp[o.tid]); return true; } return false; }
  // a barrier orders what is before it in every thread and what is after it in every thread: the thread waits, and when all do a new phase starts with no access recorded
  void ompBarrier(){ auto&o=st.omp; if(!o.on)return; if(st.frames.size()!=o.depth+1)throw Unsupported{"barrier inside a called function"}; Frame f=st.frames.back(); st.frames.pop_back(); f.sp=~0ull; if((size_t)o.tid<o.susp.size())o.susp[o.tid]=f; else { if((size_t)o.tid!=o.susp.size())throw Unsupported{"barrier not reached by every thread"}; o.susp.push_back(f); }
    Frame&c=st.frames.back(); if(ompAdvance(c.f->bbs[c.bb].insts[c.pc]))return; ompBytes+=o.acc.size(); o.acc.clear(); o.phase++; o.tid=0; st.frames.push_back(o.susp[0]); }
  bool ompNext(DInst&d){ auto&o=st.omp; if(!o.on||st.frames.size()!=o.depth)return false; ompIters++; if(o.phase==0&&!o.susp.empty())throw Unsupported{"barrier not reached by every thread"}; if(ompAdvance(d))return true; ompBytes+=o.acc.size(); o.on=false; o.acc.clear(); o.susp.clear(); spRestore(o.sp); return false; }
  void advanceCaller(){ { Frame&c=st.frames.back(); DInst&d=c.f->bbs[c.bb].insts[c.pc]; if(st.omp.on&&ompNext(d))return; } Frame&c=st.frames.back(); DInst&d=c.f->bbs[c.bb].insts[c.pc]; if(d.isInvoke)jump(d.bb0); else c.pc++; }
  void retVal(DInst&d,const Val&v){ if(d.dest>=0)st.frames.back().regs[d.dest]=v; advanceCaller(); }

  std::string cstr(uint64_t a){ std::string s; while(true){ if(!okRange(a,1))break; char ch=*(char*)a; if(!ch)break; s+=ch; a++; if(s.size()>400)break; } return s; }
  std::string uniq(const std::string&n){ int&k=st.nameCount[n]; std::string r=n+"#"+std::to_string(k); k++; return r; }
  // A variable drawn at the same point of two paths with the same name is the same variable.
  std::map<std::string,Expr*> varByName;
  Expr* namedVar(const std::string&n,uint8_t ty){ auto it=varByName.find(n); if(it!=varByName.end()&&it->second->ty==ty)return it->second; Expr*e=EP.var(n,ty); varByName[n]=e; return e; }
  void assume(Expr*c){ if(isC(c)){ if(!c->k)throw PathEnd{1}; return; } 
    if(modelSays(c)){ st.pc.push_back(c); return; }
    Model m; SatRes r=S->check(st.pc,c,&m,S->tmo_assert,false); if(r==R_UNSAT)throw PathEnd{1}; st.pc.push_back(c); if(r==R_SAT)st.model=m; }
  Expr* fRange(Expr*v,double lo,double hi){ return x_ibin(O_AND,x_fcmp(CmpInst::FCMP_OGE,v,EP.fconst(lo)),x_fcmp(CmpInst::FCMP_OLE,v,EP.fconst(hi))); }
  Val math1(unsigned f,const Val&a){ if(!a.e)return vD(fn1_eval(f,a.d)); return vE(x_fn1(f,asF(a))); }
  #include "calls.inc"

  // ------------------------------------------------------------ driver
  void layout(){
    cgend=ABASE+CG_OFF+64; gend=ABASE+G_OFF+64; uint64_t fa=FN_BASE; 
    for(auto&F:*M){ gaddr[&F]=fa; fnByAddr[fa]=&F; fa+=16; }
    for(auto&G:M->globals()){ uint64_t n=DL->getTypeAllocSize(G.getValueType()); uint64_t al=std::max<uint64_t>(16,G.getAlign()?G.getAlign()->value():16); bool cst=G.isConstant()&&!G.isDeclaration(); uint64_t&e=cst?cgend:gend; e=(e+al-1)&~(al-1); gaddr[&G]=e; uint64_t sz=n; if(G.isDeclaration()&&n<512)sz=512; memset(meta(e),M_ALLOC|M_INIT,sz); e+=sz+32; }
    for(auto&G:M->globals())if(G.hasInitializer())initConst(gaddr[&G],G.getInitializer());
    for(auto&G:M->globals())if(G.isDeclaration()){ // vtables/typeinfo of library classes: leave zero; builtin streams likewise
    }
  }
  void run(const std::string&entry){
    st.sp=ABASE+S_OFF+64; st.hw=ABASE+H_OFF+64;
    Function*E=M->getFunction(entry); if(!E){errs()<<"no entry "<<entry<<"\n";exit(2);} 
    // global constructors, concretely
    std::vector<std::pair<int,Function*>> ctors; if(auto*GC=M->getGlobalVariable("llvm.global_ctors"))if(GC->hasInitializer())if(auto*CA=dyn_cast<ConstantArray>(GC->getInitializer()))for(auto&U:CA->operands()){ auto*CS=cast<ConstantStruct>(U.get()); if(auto*F=dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts()))ctors.push_back({(int)cast<ConstantInt>(CS->getOperand(0))->getZExtValue(),F}); }
    std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){return a.first<b.first;});
    for(auto&c:ctors){ pushFrame(c.second,{},-1); try{ while(true)step(); }catch(PathEnd&p){ if(p.kind!=0){errs()<<"constructor failed: "<<c.second->getName()<<"\n";exit(2);} }catch(Unsupported&u){errs()<<"constructor unsupported: "<<u.what<<" in "<<c.second->getName()<<" "<<where()<<"\n";exit(2);} st.frames.clear(); }
    for(auto&p:finfo)p.second->calls=0; totalSteps=0; st.steps=0;
    pushFrame(E,{},-1); bool have=true;
    while(have){
      try{ while(true)step(); }
      catch(PathEnd&p){ if(p.kind==0){paths++; if(samples.size()<3)samples.push_back(pathSample()); if(witnesses.size()<maxWit&&(paths&(paths-1))==0)witnesses.push_back({"",st.model});} else if(p.kind==1)pathsAssume++; else if(p.kind==2){paths++;} else if(p.kind==3){ incomplete=true; if(incReason.empty())incReason="resource limit"; } else if(p.kind==4){ break; } }
      catch(Unsupported&u){ unsupported[u.what+" @ "+where()]++; }
      if(paths>=maxPaths){ if(!pending.empty()){incomplete=true;incReason="path limit";} break; }
      if(nowS()>deadline){incomplete=true;incReason="time limit";break;}
      have=!pending.empty(); if(have){ State s=std::move(pending.back()); pending.pop_back(); unpark(s); }
    }
  }
  std::string pathSample(){ std::string s="depth="+std::to_string(st.pc.size())+" inputs:"; int n=0; if(st.model.v.size()<EP.vars.size())st.model.v.resize(EP.vars.size(),0); for(size_t i=0;i<EP.vars.size()&&n<8;i++){ char b[96]; auto&v=EP.vars[i]; if(v.ty==TF64)snprintf(b,96," %.30s=%.6g",v.name.c_str(),bits2d(st.model.v[i])); else snprintf(b,96," %.30s=%lld",v.name.c_str(),(long long)sextw(st.model.v[i],v.ty)); s+=b; n++; } return s; }
};
#include "ext.cpp.inc"
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32)r+=' '; else r+=c; } return r; }

static int realMain(int argc,char**argv){
  if(argc>=4&&!strcmp(argv[1],"prep"))return prep(argc-2,argv+2);
  if(argc<4||strcmp(argv[1],"run")){errs()<<"usage\n";return 2;}
  Engine E; std::string mod=argv[2],entry,out; bool real=false; std::string logic; double tlim=600; unsigned tb=3000,ta=30000;
  for(int i=3;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){return std::string(argv[++i]);};
    if(a=="--entry")entry=nx(); else if(a=="--mode")real=nx()=="real"; else if(a=="--param"){std::string p=nx();size_t q=p.find('=');E.params[p.substr(0,q)]=atol(p.substr(q+1).c_str());} else if(a=="--out")out=nx(); else if(a=="--time")tlim=atof(nx().c_str()); else if(a=="--fork-select")E.forkSelect=true; else if(a=="--logic")logic=nx(); else if(a=="--tb")tb=atoi(nx().c_str()); else if(a=="--ta")ta=atoi(nx().c_str()); else if(a=="--max-paths")E.maxPaths=atol(nx().c_str()); else if(a=="-v")E.verbose=true; else if(a=="--uninit")E.uninitReport=true; else if(a=="--no-uninit")E.trackUninit=false; else if(a=="--max-viol")E.maxViol=atoi(nx().c_str()); else {errs()<<"bad arg "<<a<<"\n";return 2;} }
  EP.real=real; SMDiagnostic err; E.M=parseIRFile(mod,err,E.ctx); if(!E.M){err.print("symex",errs());return 2;} E.DL=&E.M->getDataLayout();
  void*p1=mmap((void*)ABASE,A_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0),*p2=mmap((void*)MBASE,A_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if(p1!=(void*)ABASE||p2!=(void*)MBASE){errs()<<"mmap failed\n";return 2;}
  E.S=new SymSolver(real,logic.c_str()); E.S->tmo_branch=tb;E.S->tmo_assert=ta; double t0=nowS(); E.deadline=t0+tlim; E.layout();
  E.run(entry); double wall=nowS()-t0;
  std::ostringstream o; auto&q=E.S->st;
  o<<"{\"entry\":\""<<entry<<"\",\"mode\":\""<<(real?"real":"fp")<<"\",\"params\":{"; bool first=true; for(auto&p:E.params){o<<(first?"":",")<<"\""<<p.first<<"\":"<<p.second;first=false;}
  o<<"},\"paths\":"<<E.paths<<",\"paths_assume_cut\":"<<E.pathsAssume<<",\"forks\":"<<E.forks<<",\"steps\":"<<E.totalSteps<<",\"queries\":"<<q.queries<<",\"sat\":"<<q.sat<<",\"unsat\":"<<q.unsat<<",\"unknown\":"<<q.unknown<<",\"assert_queries\":"<<q.asserts_checked<<",\"assert_unsat\":"<<q.assert_unsat<<",\"asserts_folded\":"<<q.folded<<",\"fallback\":"<<q.fallback<<",\"solver_s\":"<<q.time<<",\"solver_max_s\":"<<q.maxq<<",\"wall_s\":"<<wall<<",\"vars\":"<<EP.vars.size()<<",\"exprs\":"<<EP.pool.size()<<",\"throws\":"<<E.throwsSeen<<",\"uninit_reads\":"<<E.uninitReads<<",\"omp_loops\":"<<E.ompLoops<<",\"omp_iters\":"<<E.ompIters<<",\"omp_bytes\":"<<E.ompBytes<<",\"incomplete\":"<<(E.incomplete?"true":"false")<<",\"incomplete_reason\":\""<<E.incReason<<"\"";
  o<<",\"reach\":{"; first=true; for(auto&r:E.reach){o<<(first?"":",")<<"\""<<jesc(r.first)<<"\":"<<r.second;first=false;} 
  o<<"},\"asserts\":{"; first=true; for(auto&r:E.assertCount){o<<(first?"":",")<<"\""<<jesc(r.first)<<"\":"<<r.second;first=false;}
  o<<"},\"uninit_at\":{"; first=true; for(auto&r:E.uninitAt){o<<(first?"":",")<<"\""<<jesc(r.first)<<"\":"<<r.second;first=false;}
  o<<"},\"unsupported\":{"; first=true; for(auto&r:E.unsupported){o<<(first?"":",")<<"\""<<jesc(r.first)<<"\":"<<r.second;first=false;}
  o<<"},\"inconclusive\":["; first=true; for(auto&r:E.inconclusive){o<<(first?"":",")<<"\""<<jesc(r)<<"\"";first=false;}
  o<<"],\"samples\":["; first=true; for(auto&r:E.samples){o<<(first?"":",")<<"\""<<jesc(r)<<"\"";first=false;}
  o<<"],\"functions\":["; first=true; std::set<std::string> fnset; std::set<std::string> lineset; for(auto&p:E.finfo){ if(!p.second->calls)continue; for(auto&bi:p.second->bbs)if(bi.seen)for(auto&di:bi.insts){ for(const DILocation*L=di.I->getDebugLoc().get();L;L=L->getInlinedAt()){ auto*SP=L->getScope()->getSubprogram(); if(!SP)continue; std::string fl=SP->getFilename().str(); if(fl.find("/repo/")==std::string::npos)continue; std::string ln=SP->getLinkageName().empty()?SP->getName().str():SP->getName().str(); size_t sl=fl.rfind('/'); fnset.insert(fl.substr(sl+1)+":"+ln); lineset.insert(fl.substr(sl+1)+":"+std::to_string(L->getLine())); } } } std::vector<std::string> fns(fnset.begin(),fnset.end());  for(auto&f:fns){o<<(first?"":",")<<"\""<<jesc(f.substr(0,200))<<"\"";first=false;}
  o<<"],\"repo_lines\":"<<lineset.size()<<",\"witnesses\":["; first=true; for(auto&w:E.witnesses){ o<<(first?"":",")<<"{"; bool f2=true; for(size_t i=0;i<EP.vars.size();i++){ auto&vi=EP.vars[i]; if(vi.uninit)continue; uint64_t x=i<w.second.v.size()?w.second.v[i]:0; char b[64]; if(vi.ty==TF64)snprintf(b,64,"\"%016llx\"",(unsigned long long)x); else snprintf(b,64,"\"i%lld\"",(long long)sextw(x,vi.ty)); o<<(f2?"":",")<<"\""<<jesc(vi.name)<<"\":"<<b; f2=false; } o<<"}"; first=false; }
  o<<"],\"violations\":["; first=true; for(auto&v:E.viols){ o<<(first?"":",")<<"{\"kind\":\""<<v.kind<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"where\":\""<<jesc(v.where)<<"\",\"uninit\":"; bool un=false; std::ostringstream m; bool f2=true; m<<"{"; for(size_t i=0;i<EP.vars.size();i++){ auto&vi=EP.vars[i]; uint64_t x=i<v.m.v.size()?v.m.v[i]:0; if(vi.uninit){un=true;continue;} char b[64]; if(vi.ty==TF64)snprintf(b,64,"\"%016llx\"",(unsigned long long)x); else snprintf(b,64,"\"i%lld\"",(long long)sextw(x,vi.ty)); m<<(f2?"":",")<<"\""<<jesc(vi.name)<<"\":"<<b; f2=false; } m<<"}"; o<<(un?"true":"false")<<",\"model\":"<<m.str()<<"}"; first=false; }
  o<<"]}\n";
  if(out.empty())std::cout<<o.str(); else { FILE*f=fopen(out.c_str(),"w"); fputs(o.str().c_str(),f); fclose(f); }
  std::cout.flush(); _exit(0);
}
int main(int argc,char**argv){
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(512ul<<20)&&!getenv("SYMEX_STK")){ rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(1ul<<30):std::min<rlim_t>(rl.rlim_max,1ul<<30); if(setrlimit(RLIMIT_STACK,&rl)==0){ setenv("SYMEX_STK","1",1); execv("/proc/self/exe",argv);} }
  return realMain(argc,argv);
}
