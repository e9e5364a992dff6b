#include "poly.h"
#include <algorithm>
PolyCtx PC;
static const double INF=INFINITY;
static double dn(double x){return std::isfinite(x)?std::nextafter(x,-INF):x;} static double up(double x){return std::isfinite(x)?std::nextafter(x,INF):x;}
static Itv all(){return {-INF,INF};}
static Itv fix(Itv r){ if(std::isnan(r.lo))r.lo=-INF; if(std::isnan(r.hi))r.hi=INF; return r; }
static Itv iadd(Itv a,Itv b){return fix({dn(a.lo+b.lo),up(a.hi+b.hi)});}
static Itv imul(Itv a,Itv b){ double lo=INF,hi=-INF; for(double x:{a.lo,a.hi})for(double y:{b.lo,b.hi}){ double p=(x==0||y==0)?0:x*y; if(std::isnan(p))return all(); lo=std::min(lo,p);hi=std::max(hi,p);} return {dn(lo),up(hi)}; }
static Itv ipow(Itv a,int n){ Itv r{1,1}; if(n%2==0){ double m=std::max(fabs(a.lo),fabs(a.hi)); double l=(a.lo<=0&&a.hi>=0)?0:std::min(fabs(a.lo),fabs(a.hi)); Itv b{l,m}; for(int i=0;i<n;i++)r=imul(r,b); if(r.lo<0)r.lo=0; return r; } for(int i=0;i<n;i++)r=imul(r,a); return r; }
static Itv iinv(Itv b){ if(b.lo>0||b.hi<0){ return {dn(1.0/b.hi),up(1.0/b.lo)}; } return all(); }
static mpq_class q(double d){ if(!std::isfinite(d))throw TooBig(); return mpq_class(d); }
Itv PolyCtx::monoRange(const Mono&m){ Itv r{1,1}; for(auto&f:m)r=imul(r,ipow(atomRng[f.first],f.second)); return r; }
static Itv qitv(const mpq_class&c){ double d=c.get_d(); return {dn(dn(d)),up(up(d))}; }
Itv PolyCtx::rangeOf(const Poly&p){ Itv r{0,0}; for(auto&t:p)r=iadd(r,imul(qitv(t.second),monoRange(t.first))); return r; }
// plain interval evaluation
Itv PolyCtx::range(Expr*e){
  auto it=rng.find(e->id); if(it!=rng.end())return it->second; Itv r=all();
  if(e->isF()) switch(e->op){
    case O_CONST: { double d=bits2d(e->k); r={d,d}; if(std::isnan(d))r=all(); break; }
    case O_VAR: { auto v=varRange.find(e->k); if(v!=varRange.end())r=v->second; break; }
    case O_FADD: r=iadd(range(e->a),range(e->b));break;
    case O_FSUB: {Itv b=range(e->b); r=iadd(range(e->a),{-b.hi,-b.lo});break;}
    case O_FNEG: {Itv b=range(e->a); r={-b.hi,-b.lo};break;}
    case O_FMUL: if(e->a==e->b)r=ipow(range(e->a),2); else r=imul(range(e->a),range(e->b));break;
    case O_FDIV: r=imul(range(e->a),iinv(range(e->b)));break;
    case O_FABS: r=range(e->a); { double m=std::max(fabs(r.lo),fabs(r.hi)); double l=(r.lo<=0&&r.hi>=0)?0:std::min(fabs(r.lo),fabs(r.hi)); r={l,m}; } break;
    case O_SELECT: {Itv a=range(e->b),b=range(e->c); r={std::min(a.lo,b.lo),std::max(a.hi,b.hi)};break;}
    case O_FMIN: {Itv a=range(e->a),b=range(e->b); r={std::min(a.lo,b.lo),std::min(a.hi,b.hi)};break;}
    case O_FMAX: {Itv a=range(e->a),b=range(e->b); r={std::max(a.lo,b.lo),std::max(a.hi,b.hi)};break;}
    case O_SITOFP: if(e->a->op==O_VAR){ auto v=varRange.find(e->a->k); if(v!=varRange.end())r=v->second; } break;
    case O_FN1: { Itv a=range(e->a); switch(e->k){ case F_SQRT: r={dn(sqrt(std::max(0.0,a.lo))),up(sqrt(std::max(0.0,a.hi)))}; if(r.lo<0)r.lo=0; break; case F_EXP: r={std::max(0.0,dn(dn(exp(a.lo)))),up(up(exp(a.hi)))}; break; case F_LOG: if(a.lo>0)r={dn(dn(log(a.lo))),up(up(log(a.hi)))}; break; case F_SIN: case F_COS: case F_TANH: r={-1,1}; break; case F_FLOOR: case F_CEIL: case F_TRUNC: case F_ROUND: r={a.lo-1,a.hi+1}; break; } break; }
    default: break;
  }
  rng[e->id]=r; return r;
}
std::string PolyCtx::key(const Poly&p){ std::string s; for(auto&t:p){ for(auto&f:t.first){s+=std::to_string(f.first)+"^"+std::to_string(f.second)+"*";} s+=t.second.get_str(62)+"+"; } return s; }
uint32_t PolyCtx::atom(const std::string&k,Expr*e,Itv r,int sq){ auto it=atomKey.find(k); if(it!=atomKey.end()){ Itv&o=atomRng[it->second]; o.lo=std::max(o.lo,r.lo); o.hi=std::min(o.hi,r.hi); return it->second; } uint32_t id=atoms.size(); atoms.push_back(e); atomRng.push_back(r); sqOf.push_back(sq); atomKey[k]=id; return id; }
// Atoms whose arguments agree up to the rounding of constants (relative 1e-11 of the largest
// coefficient) are the same atom: constants folded in IEEE arithmetic differ in the last bits
// between two ways of writing one formula, and comparisons are made up to a tolerance anyway.
uint32_t PolyCtx::atomP(const std::string&kind,const Poly&p,Expr*e,Itv r,int sq){
  double mx=0; std::vector<double> mag; for(auto&t:p){ Itv m=monoRange(t.first); double g=std::max(fabs(m.lo),fabs(m.hi)); if(!std::isfinite(g)||g<1)g=1; mag.push_back(g); mx=std::max(mx,fabs(t.second.get_d())*g); }
  std::string k=kind; std::vector<double> co; int i=0; for(auto&t:p){ double c=t.second.get_d(); if(fabs(c)*mag[i++]<1e-11*mx)continue; for(auto&f:t.first)k+=std::to_string(f.first)+"^"+std::to_string(f.second)+"*"; k+="+"; co.push_back(c); }
  for(auto&c:sim[k]){ bool ok=true; for(size_t j=0;j<co.size()&&ok;j++)ok=fabs(co[j]-c.first[j])<=1e-11*(fabs(co[j])+1e-2*mx); if(ok){ Itv&o=atomRng[c.second]; o.lo=std::max(o.lo,r.lo); o.hi=std::min(o.hi,r.hi); return c.second; } }
  uint32_t id=atom(kind+key(p),e,r,sq); sim[k].push_back({co,id}); return id; }
static void addTo(Poly&p,const Mono&m,const mpq_class&c){ if(c==0)return; auto it=p.find(m); if(it==p.end())p[m]=c; else { it->second+=c; if(it->second==0)p.erase(it); } }
Poly PolyCtx::mul(const Poly&a,const Poly&b){
  if(a.size()*b.size()>20*maxTerms)throw TooBig(); Poly r; 
  for(auto&x:a)for(auto&y:b){ Mono m; size_t i=0,j=0; while(i<x.first.size()||j<y.first.size()){ if(j>=y.first.size()||(i<x.first.size()&&x.first[i].first<y.first[j].first))m.push_back(x.first[i++]); else if(i>=x.first.size()||y.first[j].first<x.first[i].first)m.push_back(y.first[j++]); else { m.push_back({x.first[i].first,x.first[i].second+y.first[j].second}); i++;j++; } }
    // sqrt(p)^2 = p (the argument is >= 0 wherever the code is defined)
    int si=-1; for(size_t k=0;k<m.size();k++)if(sqOf[m[k].first]>=0&&m[k].second>=2){si=k;break;}
    mpq_class c=x.second*y.second; 
    if(si<0){ addTo(r,m,c); continue; }
    Poly base; uint32_t at=m[si].first; m[si].second-=2; if(m[si].second==0)m.erase(m.begin()+si); base[m]=c; Poly t=mul(base,sqArg[sqOf[at]]); for(auto&z:t)addTo(r,z.first,z.second); }
  if(r.size()>maxTerms)throw TooBig(); return r; }
const Poly& PolyCtx::norm(Expr*e){
  auto it=memo.find(e->id); if(it!=memo.end())return it->second;
  Poly r; 
  switch(e->op){
    case O_CONST: addTo(r,{},q(bits2d(e->k))); break;
    case O_FADD: case O_FSUB: { r=norm(e->a); const Poly&b=norm(e->b); for(auto&t:b)addTo(r,t.first,e->op==O_FADD?t.second:mpq_class(-t.second)); break; }
    case O_FNEG: for(auto&t:norm(e->a))r[t.first]=-t.second; break;
    case O_FMUL: { Poly a=norm(e->a); r=mul(a,norm(e->b)); break; }
    case O_FDIV: { Poly a=norm(e->a); const Poly b=norm(e->b); if(b.size()==1&&b.begin()->first.empty()){ mpq_class c=1/b.begin()->second; for(auto&t:a)addTo(r,t.first,t.second*c); break; }
      if(b.empty())throw TooBig();
      if(a.size()==b.size()&&a==b){ addTo(r,{},1); break; }
      Itv ri=iinv(range(e->b)); Itv r2=iinv(rangeOf(b)); ri.lo=std::max(ri.lo,r2.lo); ri.hi=std::min(ri.hi,r2.hi);
      uint32_t at=atomP("inv:",b,e,ri); Poly p; p[{{at,1}}]=1; r=mul(a,p); break; }
    case O_FN1: if(e->k==F_SQRT){ Poly a=norm(e->a); if(a.empty())break; 
        Itv ar=rangeOf(a); Itv r0=range(e->a); ar.lo=std::max({ar.lo,r0.lo,0.0}); ar.hi=std::min(ar.hi,r0.hi); Itv rr{std::max(0.0,dn(sqrt(ar.lo))),up(sqrt(std::max(0.0,ar.hi)))};
        sqArg.push_back(a); uint32_t at=atomP("sqrt:",a,e,rr,(int)sqArg.size()-1); r[{{at,1}}]=1; break; }
      { Poly a=norm(e->a); uint32_t at=atomP("fn"+std::to_string(e->k)+":",a,e,range(e)); r[{{at,1}}]=1; break; }
    default: { uint32_t at=atom("e:"+std::to_string(e->id),e,range(e)); r[{{at,1}}]=1; break; }
  }
  if(r.size()>maxTerms)throw TooBig();
  return memo[e->id]=r;
}
