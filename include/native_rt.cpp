// Native side of sym.h, used to replay a solver model against the compiled real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <unistd.h>
#include <Eigen/Dense>
static std::map<std::string,std::string> in; static std::map<std::string,int> cnt; static std::map<std::string,long> par; static bool loaded=false; static int fails=0;
static void ld(){ if(loaded)return; loaded=true; const char*f=getenv("SYM_INPUT"); if(f){ FILE*p=fopen(f,"r"); char l[1024]; while(p&&fgets(l,sizeof l,p)){ char*e=l+strlen(l); while(e>l&&(e[-1]=='\n'||e[-1]==' '))*--e=0; char*b=strrchr(l,' '); if(!b)continue; *b=0; if(l[0]=='@')par[l+1]=atol(b+1); else in[l]=b+1; } if(p)fclose(p);} }
static std::string key(const char*n){ ld(); int k=cnt[n]++; return std::string(n)+"#"+std::to_string(k); }
extern "C" {
double sym_double(const char*n){ auto it=in.find(key(n)); if(it==in.end())return 0; uint64_t u=strtoull(it->second.c_str(),0,16); double d; memcpy(&d,&u,8); return d; }
double sym_range(const char*n,double lo,double hi){ std::string k=key(n); auto it=in.find(k); double d; if(it==in.end()){ d=0; if(d<lo||d>hi)d=std::isfinite(lo+hi)?(lo+hi)/2:(std::isfinite(lo)?lo:hi); } else { uint64_t u=strtoull(it->second.c_str(),0,16); memcpy(&d,&u,8);} if(!(d>=lo&&d<=hi)){ if(d<lo&&d>lo-1e-9*(1+fabs(lo)))d=lo; else if(d>hi&&d<hi+1e-9*(1+fabs(hi)))d=hi; else {printf("ASSUME-FAIL range %s\n",n);fflush(stdout);_exit(3);} } return d; }
int sym_int(const char*n,int lo,int hi){ auto it=in.find(key(n)); int v=it==in.end()?lo:atoi(it->second.c_str()+1); if(v<lo||v>hi){printf("ASSUME-FAIL int %s\n",n);fflush(stdout);_exit(3);} return v; }
int sym_choose(const char*n,int k){ auto it=in.find(key(n)); return it==in.end()?0:atoi(it->second.c_str()+1); }
void sym_assume(int c){ if(!c){printf("ASSUME-FAIL\n");fflush(stdout);_exit(fails?1:3);} }
void sym_assert(int c,const char*m){ if(!c){printf("ASSERT-FAIL %s\n",m);fflush(stdout);fails++;_exit(1);} }
void sym_assert_close(double a,double b,double tol,const char*m){ double t=tol>1e-9?tol:1e-9; bool ok=a==b||(std::isnan(a)&&std::isnan(b))||fabs(a-b)<=t*(1+fabs(a)+fabs(b)); if(!ok){printf("ASSERT-FAIL %s (%.17g vs %.17g)\n",m,a,b);fflush(stdout);fails++;_exit(1);} }
int sym_param(const char*n,int d){ ld(); auto it=par.find(n); return it==par.end()?d:(int)it->second; }
void sym_reach(const char*){}
int sym_mode(void){return 0;}
void sym_allow_throw(int){}
void sym_prefer(double,double){}
static volatile int used; __attribute__((noinline)) void sym_use(const char*,double v){ uint64_t u; memcpy(&u,&v,8); for(int i=0;i<64;i++) if(u>>i&1) used++; }
void sym_dump(const char*n,double v){ if(getenv("SYM_DUMP"))printf("DUMP %s = %.17g\n",n,v); }
int sym_split(int c){return c;}
int sym_is_concrete(double){return 1;}
void sym_eigen(int n,const double*A,double*vals,double*vecs){ Eigen::MatrixXd M(n,n); for(int i=0;i<n*n;i++)M.data()[i]=A[i]; Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s(M); for(int i=0;i<n;i++)vals[i]=s.eigenvalues()(i); for(int i=0;i<n*n;i++)vecs[i]=s.eigenvectors().data()[i]; }
void SYM_ENTRY();
}
int main(){ try{ SYM_ENTRY(); }catch(...){ printf("EXCEPTION\n"); fflush(stdout); _exit(4);} printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
