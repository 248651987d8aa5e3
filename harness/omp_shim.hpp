// Stand-in for the OpenMP run time library (g++'s GOMP interface), on plain threads which
// ThreadSanitizer understands: every parallel region starts and joins its own threads.
#ifndef OMP_SHIM_HPP
#define OMP_SHIM_HPP
#include <thread>
#include <mutex>
#include <condition_variable>
#include <vector>
#include <functional>
#include <atomic>
namespace shim{
struct Team{int n;std::mutex m;std::condition_variable cv;int waiting=0;long gen=0;
  // work sharing
  std::mutex wm;long next=0,end=0,incr=1,chunk=1;bool stat=false;int arrived=0;long loopgen=0;int single=0;long secnext=0,secn=0;
  void barrier(){std::unique_lock<std::mutex> l(m);long g=gen;if(++waiting==n){waiting=0;++gen;cv.notify_all();}else cv.wait(l,[&]{return gen!=g;});}};
inline int& want(){static int w=4;return w;}
inline std::atomic<long>& regions(){static std::atomic<long> r{0};return r;}
inline std::atomic<long>& maxteam(){static std::atomic<long> r{0};return r;}
struct Tls{Team*t=0;int id=0;long statpos=0;};
inline Tls& tls(){static thread_local Tls t;return t;}
inline std::recursive_mutex& big(){static std::recursive_mutex m;return m;}
inline void run(void(*fn)(void*),void*data,unsigned nt,std::function<void(Team&)> prep=nullptr){
  int n=nt?nt:want();if(tls().t)n=1; // nested regions: one thread
  Team T;T.n=n;if(prep)prep(T);++regions();if(n>maxteam())maxteam()=n;std::vector<std::thread> th;
  for(int i=1;i<n;i++)th.emplace_back([&T,i,fn,data]{tls().t=&T;tls().id=i;tls().statpos=0;fn(data);});
  Tls old=tls();tls().t=&T;tls().id=0;tls().statpos=0;fn(data);for(auto&t:th)t.join();tls()=old;}
inline bool nextChunk(long*s,long*e){Team&T=*tls().t;
  if(T.stat){long tot=(T.end-T.next+T.incr-(T.incr>0?1:-1))/T.incr;if(tot<0)tot=0;if(T.chunk<=0){if(tls().statpos++)return false;long q=tot/T.n,r=tot%T.n,b=tls().id*q+std::min<long>(tls().id,r),c=q+(tls().id<r);if(!c)return false;*s=T.next+b*T.incr;*e=*s+c*T.incr;return true;}
    long k=(tls().statpos++)*T.n+tls().id,b=k*T.chunk;if(b>=tot)return false;*s=T.next+b*T.incr;*e=T.next+std::min(tot,b+T.chunk)*T.incr;return true;}
  std::lock_guard<std::mutex> l(T.wm);if(T.incr>0?T.next>=T.end:T.next<=T.end)return false;*s=T.next;long e2=T.next+T.incr*std::max(1L,T.chunk);if(T.incr>0?e2>T.end:e2<T.end)e2=T.end;*e=e2;T.next=e2;return true;}
inline bool startLoop(bool stat,long a,long b,long i,long c,long*s,long*e){Team&T=*tls().t;{std::lock_guard<std::mutex> l(T.wm);if(T.arrived++==0){T.next=a;T.end=b;T.incr=i;T.chunk=c;T.stat=stat;}}tls().statpos=0;return nextChunk(s,e);}
inline void endLoop(){Team&T=*tls().t;T.barrier();if(tls().id==0){std::lock_guard<std::mutex> l(T.wm);T.arrived=0;}T.barrier();}
}
extern "C"{
void GOMP_parallel(void(*fn)(void*),void*d,unsigned n,unsigned){shim::run(fn,d,n);}
unsigned GOMP_parallel_reductions(void(*fn)(void*),void*d,unsigned n,unsigned){shim::run(fn,d,n);return n?n:shim::want();}
void GOMP_barrier(){if(shim::tls().t)shim::tls().t->barrier();}
void GOMP_critical_start(){shim::big().lock();} void GOMP_critical_end(){shim::big().unlock();}
void GOMP_critical_name_start(void**){shim::big().lock();} void GOMP_critical_name_end(void**){shim::big().unlock();}
void GOMP_atomic_start(){shim::big().lock();} void GOMP_atomic_end(){shim::big().unlock();}
bool GOMP_single_start(){auto*t=shim::tls().t;if(!t)return true;std::lock_guard<std::mutex> l(t->wm);bool f=t->single%t->n==0;++t->single;return f;}
#define PL(name,st) void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long a,long b,long i,long c,unsigned){shim::run(fn,d,n,[=](shim::Team&T){T.next=a;T.end=b;T.incr=i;T.chunk=c;T.stat=st;T.arrived=1;});}
#define PR(name) void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long a,long b,long i,unsigned){shim::run(fn,d,n,[=](shim::Team&T){T.next=a;T.end=b;T.incr=i;T.chunk=1;T.stat=false;T.arrived=1;});}
PL(static,true) PL(dynamic,false) PL(guided,false) PL(nonmonotonic_dynamic,false) PL(nonmonotonic_guided,false) PR(runtime) PR(nonmonotonic_runtime) PR(maybe_nonmonotonic_runtime)
#define LP(name,st) bool GOMP_loop_##name##_start(long a,long b,long i,long c,long*s,long*e){return shim::startLoop(st,a,b,i,c,s,e);} bool GOMP_loop_##name##_next(long*s,long*e){return shim::nextChunk(s,e);}
#define LR(name) bool GOMP_loop_##name##_start(long a,long b,long i,long*s,long*e){return shim::startLoop(false,a,b,i,1,s,e);} bool GOMP_loop_##name##_next(long*s,long*e){return shim::nextChunk(s,e);}
LP(static,true) LP(dynamic,false) LP(guided,false) LP(nonmonotonic_dynamic,false) LP(nonmonotonic_guided,false) LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(){shim::endLoop();} void GOMP_loop_end_nowait(){}
static unsigned secNext(){auto&T=*shim::tls().t;std::lock_guard<std::mutex> l(T.wm);return T.secnext<T.secn?(unsigned)++T.secnext:0;}
void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned k,unsigned){shim::run(fn,d,n,[=](shim::Team&T){T.secn=k;});}
unsigned GOMP_sections_start(unsigned k){auto&T=*shim::tls().t;{std::lock_guard<std::mutex> l(T.wm);if(T.arrived++==0){T.secn=k;T.secnext=0;}}return secNext();}
unsigned GOMP_sections_next(){return secNext();} void GOMP_sections_end(){shim::endLoop();} void GOMP_sections_end_nowait(){}
void GOMP_ordered_start(){} void GOMP_ordered_end(){}
int omp_get_thread_num(){return shim::tls().t?shim::tls().id:0;} int omp_get_num_threads(){return shim::tls().t?shim::tls().t->n:1;} int omp_get_max_threads(){return shim::want();}
void omp_set_num_threads(int n){shim::want()=n;} int omp_in_parallel(){return shim::tls().t!=0;} int omp_get_num_procs(){return 4;} double omp_get_wtime(){return 0;} void omp_set_dynamic(int){} void omp_set_nested(int){} int omp_get_level(){return shim::tls().t!=0;}
}
#endif
