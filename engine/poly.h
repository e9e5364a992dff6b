// Polynomial normal form of real-valued expressions. Used before the general solver: an
// (in)equality between doubles becomes  sum c_k*m_k <= 0  over the monomials m_k, and z3 decides
// its linear relaxation, where each m_k is an unknown bounded by its interval. unsat there is
// unsat of the original; anything else falls through to the full non-linear query.
#pragma once
#include "expr.h"
#include <gmpxx.h>
#include <map>
#include <set>
typedef std::vector<std::pair<uint32_t,int>> Mono; // (atom,power), sorted
typedef std::map<Mono,mpq_class> Poly;
struct Itv { double lo,hi; };
struct TooBig {};
struct PolyCtx {
  std::unordered_map<uint32_t,Poly> memo; std::unordered_map<uint32_t,Itv> rng;
  std::map<uint32_t,Itv> varRange;                 // by variable index
  std::vector<Expr*> atoms; std::vector<Itv> atomRng; std::vector<int> sqOf; // atoms; sqOf>=0: sqrt atom, index into sqArg
  std::vector<Poly> sqArg; std::map<std::string,uint32_t> atomKey; size_t maxTerms=4000;
  const Poly& norm(Expr*e); Itv range(Expr*e); Itv rangeOf(const Poly&p);
  Poly mul(const Poly&a,const Poly&b); uint32_t atom(const std::string&key,Expr*e,Itv r,int sq=-1);
  std::string key(const Poly&p); uint32_t atomP(const std::string&kind,const Poly&p,Expr*e,Itv r,int sq=-1); std::map<std::string,std::vector<std::pair<std::vector<double>,uint32_t>>> sim;
  Itv monoRange(const Mono&m);
};
extern PolyCtx PC;
