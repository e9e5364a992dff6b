// A minimal OpenMP runtime on plain threads, for replaying a reported race under ThreadSanitizer: thread creation and joining are the only synchronisation besides critical sections.
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
static const int T=8; static __thread int tid=0,inpar=0; static pthread_mutex_t mx=PTHREAD_MUTEX_INITIALIZER;
typedef void (*Fn)(int*,int*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*,void*);
struct A { int t; Fn f; void **v; };
static pthread_barrier_t br; static pthread_once_t once=PTHREAD_ONCE_INIT; static void bi(){ pthread_barrier_init(&br,0,T); }
static void *go(void *p){ A *a=(A*)p; tid=a->t; inpar=1; int g=a->t; void **v=a->v; a->f(&g,&g,v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10],v[11],v[12],v[13],v[14],v[15]); return 0; }
template<class I> static void ini(int *last,I *lb,I *ub,I *st,I inc){
  if(!inpar){ *last=1; return; } I n=inc>0?(*ub>=*lb?(*ub-*lb)/inc+1:0):(*lb>=*ub?(*lb-*ub)/(-inc)+1:0), q=n/T, r=n%T, b=tid*q+((I)tid<r?(I)tid:r), c=q+((I)tid<r?1:0), l0=*lb;
  *st=n*inc; *last=c>0&&b+c==n; *lb=l0+b*inc; *ub=c?l0+(b+c-1)*inc:*lb-inc; }
extern "C" {
void __kmpc_fork_call(void*,int n,void *f,...){ void *v[16]={0}; va_list ap; va_start(ap,f); for(int i=0;i<n&&i<16;i++) v[i]=va_arg(ap,void*); va_end(ap); pthread_t t[T]; A a[T]; for(int i=0;i<T;i++){ a[i].t=i; a[i].f=(Fn)f; a[i].v=v; pthread_create(&t[i],0,go,&a[i]); } for(int i=0;i<T;i++) pthread_join(t[i],0); }
void __kmpc_barrier(void*,int){ if(!inpar) return; pthread_once(&once,bi); pthread_barrier_wait(&br); }
int __kmpc_global_thread_num(void*){ return tid; } void __kmpc_serialized_parallel(void*,int){} void __kmpc_end_serialized_parallel(void*,int){} void __kmpc_for_static_fini(void*,int){} void __kmpc_push_num_threads(void*,int,int){} void __kmpc_flush(void*){}
void __kmpc_for_static_init_4(void*,int,int,int *l,int32_t *a,int32_t *b,int32_t *s,int32_t i,int32_t){ ini(l,a,b,s,i); } void __kmpc_for_static_init_4u(void*,int,int,int *l,uint32_t *a,uint32_t *b,uint32_t *s,int32_t i,int32_t){ ini<int32_t>(l,(int32_t*)a,(int32_t*)b,(int32_t*)s,i); }
void __kmpc_for_static_init_8(void*,int,int,int *l,int64_t *a,int64_t *b,int64_t *s,int64_t i,int64_t){ ini(l,a,b,s,i); } void __kmpc_for_static_init_8u(void*,int,int,int *l,uint64_t *a,uint64_t *b,uint64_t *s,int64_t i,int64_t){ ini<int64_t>(l,(int64_t*)a,(int64_t*)b,(int64_t*)s,i); }
static __thread int64_t dl,du,di; static __thread int dg=1;
#define DISP(S,I) void __kmpc_dispatch_init_##S(void*,int,int,I l,I u,I s,I){ dl=l; du=u; di=s; dg=0; } int __kmpc_dispatch_next_##S(void*,int,int *last,I *l,I *u,I *s){ if(dg) return 0; dg=1; int64_t a=dl,b=du,st; ini<int64_t>(last,&a,&b,&st,di); *l=a; *u=b; *s=di; return di>0?b>=a:a>=b; } void __kmpc_dispatch_fini_##S(void*,int){}
DISP(4,int32_t) DISP(4u,uint32_t) DISP(8,int64_t) DISP(8u,uint64_t) void __kmpc_dispatch_deinit(void*,int){}
void __kmpc_critical(void*,int,void*){ pthread_mutex_lock(&mx); } void __kmpc_end_critical(void*,int,void*){ pthread_mutex_unlock(&mx); } void __kmpc_critical_with_hint(void*,int,void*,unsigned){ pthread_mutex_lock(&mx); }
int __kmpc_reduce(void*,int,int,uint64_t,void*,void*,void*){ pthread_mutex_lock(&mx); return 1; } int __kmpc_reduce_nowait(void*,int,int,uint64_t,void*,void*,void*){ pthread_mutex_lock(&mx); return 1; } void __kmpc_end_reduce(void*,int,void*){ pthread_mutex_unlock(&mx); } void __kmpc_end_reduce_nowait(void*,int,void*){ pthread_mutex_unlock(&mx); }
int omp_get_thread_num(void){ return tid; } int omp_get_num_threads(void){ return inpar?T:1; } int omp_get_max_threads(void){ return T; } int omp_get_num_procs(void){ return T; } int omp_in_parallel(void){ return inpar; } void omp_set_num_threads(int){} double omp_get_wtime(void){ return 0; }
}
