// Harness interface. Under symex these are symbolic; in a native replay they read the
// solver's assignment from the file named by SYM_INPUT.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
double sym_double(const char *name);                       // any double
double sym_range(const char *name,double lo,double hi);    // lo <= x <= hi
int sym_int(const char *name,int lo,int hi);
int sym_choose(const char *name,int n);                    // 0..n-1, one path per value
void sym_assume(int c);
void sym_assert(int c,const char *msg);
// a == b: exact in the solver when tol==0 (over the reals / bit-for-bit), |a-b|<=tol otherwise; 
// native replay and concrete operands: relative tolerance max(tol,1e-9)
void sym_assert_close(double a,double b,double tol,const char *msg);
int sym_param(const char *name,int dflt);
void sym_reach(const char *tag);
int sym_mode(void);                                        // 0 native, 1 ieee, 2 real
void sym_allow_throw(int on);
void sym_prefer(double v,double value);
void sym_use(const char *name,double v);                     // v must not come from uninitialised memory
void sym_dump(const char *name,double v);
int sym_split(int c);
int sym_is_concrete(double v);
void sym_eigen(int n,const double *A,double *vals,double *vecs); // symmetric eigendecomposition contract
#ifdef __cplusplus
}
#endif
