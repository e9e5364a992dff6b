// Pre-included (-include) where the random draws themselves are the quantified inputs: the
// standard distributions keep their interface but return a solver variable for the draws whose
// index lies in [symrng_lo,symrng_hi) while symrng_on is set (uniform draws: always while on).
#pragma once
#define SYMRNG 1
#include <random>
#include "sym.h"
extern "C" { extern int symrng_on,symrng_n,symrng_lo,symrng_hi,symuni_n,symuni_skip,symuni_lat; extern double symrng_bound; extern double symrng_z[4096]; }
namespace std {
  template<class T=double> struct sym_normal_distribution : public normal_distribution<T> {
    typedef normal_distribution<T> B; using B::B; sym_normal_distribution():B(){}
    template<class G> T operator()(G &g){ if(symrng_on){ int k=symrng_n++; if(k>=symrng_lo&&k<symrng_hi){ T z=sym_range("z",-symrng_bound,symrng_bound); symrng_z[k]=z; return z*this->stddev()+this->mean(); } } return B::operator()(g); }
  };
  template<class T=double> struct sym_uniform_real_distribution : public uniform_real_distribution<T> {
    typedef uniform_real_distribution<T> B; using B::B; sym_uniform_real_distribution():B(){}
    template<class G> T operator()(G &g){ if(symrng_on) { int k=symuni_n++; if(symuni_skip==-2) return symrng_z[k]*(this->b()-this->a())+this->a(); T z=symuni_skip>=0&&k%2==symuni_skip?0.37:symuni_lat>0?0.999*sym_choose("u",symuni_lat)/(symuni_lat-1):sym_range("u",0.0,0.99999999999); if(symuni_skip==-3) symrng_z[k]=z; return z*(this->b()-this->a())+this->a(); } return B::operator()(g); }
  };
}
#define normal_distribution sym_normal_distribution
#define uniform_real_distribution sym_uniform_real_distribution
