#pragma once
#include "expr.h"
#include "poly.h"
#include <z3++.h>
#include <map>
#include <chrono>
#include <set>
enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats { uint64_t queries=0,sat=0,unsat=0,unknown=0,asserts_checked=0,assert_unsat=0,folded=0,branch_q=0,fallback=0,presolved=0; double time=0; double maxq=0; };
struct Unsupported { std::string what; };
struct SymSolver {
  z3::context c; z3::solver s;
  std::vector<Expr*> stack;              // constraints currently pushed
  std::vector<z3::expr> cache; std::vector<char> have;
  SolverStats st; unsigned tmo_branch=2000,tmo_assert=20000;
  bool real; std::string logic; std::string dumpdir; 
  z3::sort F64; z3::expr RNE,RTZ;
  explicit SymSolver(bool real,const char*logic);
  z3::expr tr(Expr*e);
  z3::expr trb(Expr*e); // as Bool
  void axioms(Expr*e,std::vector<z3::expr>&out);
  void collectFns(Expr*e,std::vector<Expr*>&out,std::set<uint32_t>&seen);
  void sync(const std::vector<Expr*>&pc);
  SatRes check(const std::vector<Expr*>&pc,Expr*extra,Model*out,unsigned tmo,bool isAssert);
  bool presolve(Expr*c); // true: c is valid over the variable ranges alone
  bool preIneq(Expr*a,Expr*b,bool strict);
  void getModel(z3::model m,Model*out);
  uint64_t modelVal(z3::model&m,Expr*v);
  SatRes fallback(const std::vector<Expr*>&pc,Expr*extra,Model*out,unsigned tmo);
};
