// Hash-consed expression DAG over machine integers (width 1..64), doubles, and
// opaque "blobs" (several memory cells glued together by one wide load).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <deque>
#include <cstdio>
#include <cstdlib>

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FABS, O_FCMP,
  O_SELECT,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_ICMP,
  O_ZEXT, O_SEXT, O_TRUNC,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
  O_F2I, O_I2F,      // bitcasts
  O_FN1, O_FN2,      // math library functions, k = function id
  O_FMIN, O_FMAX,    // llvm.minnum / maxnum
  O_ISNAN,           // is.fpclass style predicate
  O_BLOB
};
enum Fn : uint8_t { F_SQRT, F_EXP, F_LOG, F_POW, F_FLOOR, F_CEIL, F_TRUNC, F_ROUND,
  F_SIN, F_COS, F_TAN, F_ATAN, F_ATAN2, F_LOG10, F_LOG2, F_CBRT, F_TANH, F_EXP2, F_LOG1P, F_EXPM1,
  F_ACOS, F_ASIN, F_SINH, F_COSH, F_LGAMMA, F_HYPOT, F_COPYSIGN, F_ERF, F_NUM };
extern const char *fn_names[];

static const uint8_t TF64 = 255;
static const uint8_t TBLOB = 254;

struct Expr;
struct BlobCell { uint8_t off, size; Expr *e; };
struct Blob { std::vector<BlobCell> cells; unsigned char raw[16]; uint8_t size; };

struct Expr {
  Op op; uint8_t ty; uint32_t id;
  Expr *a, *b, *c;
  uint64_t k;          // constant bits / predicate / var index / fn id
  Blob *blob;
  std::vector<Expr*> *fns; // function applications in the cone (lazily)
  bool fnsDone;
  bool isF() const { return ty == TF64; }
};

struct VarInfo { std::string name; uint8_t ty; bool uninit; Expr *e; };

struct Key { uint64_t h1, h2, h3, k; 
  bool operator==(const Key &o) const { return h1==o.h1&&h2==o.h2&&h3==o.h3&&k==o.k; } };
struct KeyHash { size_t operator()(const Key &k) const {
  uint64_t h=k.h1*0x9E3779B97F4A7C15ull; h^=(h>>29); h+=k.h2; h*=0xBF58476D1CE4E5B9ull; h^=h>>32; h+=k.h3; h*=0x94D049BB133111EBull; h^=h>>29; h+=k.k; h*=0x9E3779B97F4A7C15ull; return h^(h>>31);} };

static inline double bits2d(uint64_t u){double d;memcpy(&d,&u,8);return d;}
static inline uint64_t d2bits(double d){uint64_t u;memcpy(&u,&d,8);return u;}
static inline uint64_t maskw(uint64_t v,unsigned w){ return w>=64? v : (v & ((1ull<<w)-1)); }
static inline int64_t sextw(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v=maskw(v,w); return (int64_t)((v^m)-m); }

double fn1_eval(unsigned f,double x);
double fn2_eval(unsigned f,double x,double y);

struct ExprPool {
  std::deque<Expr> pool;
  std::unordered_map<Key,Expr*,KeyHash> table;
  std::vector<VarInfo> vars;
  bool real=false;
  Expr* mk(Op op,uint8_t ty,Expr*a=nullptr,Expr*b=nullptr,Expr*c=nullptr,uint64_t k=0){
    Key key{(uint64_t)op | ((uint64_t)ty<<8) | ((uint64_t)(a?a->id+1:0)<<16), (uint64_t)(b?b->id+1:0), (uint64_t)(c?c->id+1:0), k};
    auto it=table.find(key); if(it!=table.end()) return it->second;
    pool.push_back(Expr{op,ty,(uint32_t)pool.size(),a,b,c,k,nullptr,nullptr,false});
    Expr*e=&pool.back(); table.emplace(key,e); return e;
  }
  Expr* blob(Blob*b){ pool.push_back(Expr{O_BLOB,TBLOB,(uint32_t)pool.size(),0,0,0,0,b,nullptr,true}); return &pool.back(); }
  Expr* iconst(uint64_t v,uint8_t w){ return mk(O_CONST,w,0,0,0,maskw(v,w)); }
  Expr* fconst(double d){ if(d!=d) d=bits2d(0x7ff8000000000000ull); return mk(O_CONST,TF64,0,0,0,d2bits(d)); }
  Expr* var(const std::string&n,uint8_t ty,bool uninit=false){
    Expr*e=mk(O_VAR,ty,0,0,0,vars.size()); vars.push_back({n,ty,uninit,e}); return e; }
};
extern ExprPool EP;

static inline bool isC(Expr*e){return e->op==O_CONST;}
static inline bool isCv(Expr*e,uint64_t v){return e->op==O_CONST&&e->k==v;}

// ---- concrete semantics -------------------------------------------------
bool fcmp_eval(unsigned pred,double a,double b);      // LLVM predicate numbering
bool icmp_eval(unsigned pred,uint64_t a,uint64_t b,unsigned w);
uint64_t ibin_eval(Op op,uint64_t a,uint64_t b,unsigned w,bool&ok);
double fbin_eval(Op op,double a,double b);
uint64_t fptosi_eval(double d,unsigned w);
uint64_t fptoui_eval(double d,unsigned w);

// ---- smart constructors ---------------------------------------------------
Expr* x_fbin(Op op,Expr*a,Expr*b);
Expr* x_funary(Op op,Expr*a);
Expr* x_fcmp(unsigned pred,Expr*a,Expr*b);
Expr* x_ibin(Op op,Expr*a,Expr*b);
Expr* x_icmp(unsigned pred,Expr*a,Expr*b);
Expr* x_select(Expr*c,Expr*a,Expr*b);
Expr* x_not(Expr*c);
Expr* x_cast(Op op,Expr*a,uint8_t ty);
Expr* x_fn1(unsigned f,Expr*a);
Expr* x_fn2(unsigned f,Expr*a,Expr*b);
std::string x_str(Expr*e,int depth=6);

struct Model { std::vector<uint64_t> v; }; // bits per var index (missing -> 0)
struct Evaluator {
  const Model*m; std::unordered_map<uint32_t,uint64_t> memo;
  explicit Evaluator(const Model*mm):m(mm){}
  uint64_t ev(Expr*e);
  bool evb(Expr*e){return ev(e)&1;}
};
