// C06: the same scenarios with different contents of fresh heap memory and of the unused stack: everything
// observed is the same bit for bit. With MEMCHECK, under valgrind: everything observed is defined.
#include <cstdlib>
#include <new>
#include <cstring>
#include <cstdint>
static int mode=-1;static uint64_t fillSeed=1;static long fills=0;
static uint64_t xs(uint64_t&s){s^=s<<13;s^=s>>7;s^=s<<17;return s;}
__attribute__((noinline)) static void fillBytes(void*p,size_t n){
  if(mode<0||!p)return;++fills;unsigned char*c=(unsigned char*)p;
  switch(mode){case 0:memset(c,0,n);break;case 1:memset(c,0xff,n);break;case 2:memset(c,1,n);break;
    case 3:{double d=1e300;size_t i=0;for(;i+8<=n;i+=8)memcpy(c+i,&d,8);memset(c+i,0x7f,n-i);}break;
    case 4:{size_t i=0;for(;i+8<=n;i+=8){uint64_t v=xs(fillSeed);memcpy(c+i,&v,8);}for(;i<n;i++)c[i]=(unsigned char)xs(fillSeed);}break;
    case 5:{size_t i=0;for(;i+8<=n;i+=8){double v=(double)(xs(fillSeed)%2000)/1000-1;memcpy(c+i,&v,8);}memset(c+i,0x55,n-i);}break;
    case 6:{double d=-0.5;size_t i=0;for(;i+8<=n;i+=8)memcpy(c+i,&d,8);memset(c+i,0xbf,n-i);}break;}
}
#ifndef MEMCHECK
extern "C"{void*__real_malloc(size_t);int __real_posix_memalign(void**,size_t,size_t);void*__real_aligned_alloc(size_t,size_t);
void*__wrap_malloc(size_t n){void*p=__real_malloc(n);fillBytes(p,n);return p;}
int __wrap_posix_memalign(void**p,size_t a,size_t n){int r=__real_posix_memalign(p,a,n);if(!r)fillBytes(*p,n);return r;}
void*__wrap_aligned_alloc(size_t a,size_t n){void*p=__real_aligned_alloc(a,n);fillBytes(p,n);return p;}}
void*operator new(size_t n){void*p=malloc(n?n:1);if(!p)throw std::bad_alloc();return p;}
void*operator new[](size_t n){return operator new(n);}
void*operator new(size_t n,std::align_val_t a){void*p=0;if(posix_memalign(&p,(size_t)a<8?8:(size_t)a,n?n:1))throw std::bad_alloc();return p;}
void*operator new[](size_t n,std::align_val_t a){return operator new(n,a);}
void operator delete(void*p)noexcept{free(p);}void operator delete[](void*p)noexcept{free(p);}
void operator delete(void*p,size_t)noexcept{free(p);}void operator delete[](void*p,size_t)noexcept{free(p);}
void operator delete(void*p,std::align_val_t)noexcept{free(p);}void operator delete[](void*p,std::align_val_t)noexcept{free(p);}
void operator delete(void*p,size_t,std::align_val_t)noexcept{free(p);}void operator delete[](void*p,size_t,std::align_val_t)noexcept{free(p);}
#endif
#include "comp.hpp"
using namespace vf;
__attribute__((noinline)) static void paintStack(){volatile char b[12288];fillBytes((void*)b,sizeof b);asm volatile(""::"r"(b):"memory");}
int main(int a,char**b){init(a,b);
#ifdef MEMCHECK
  cases(fmt("memcheck %d",COMP),scaled(12,200),[&](Rng&r){uint64_t seed=r.next();describe(fmt("scenario %llu",(unsigned long long)seed));std::string d;Trace T;T.keep=false;unsigned e0=VALGRIND_COUNT_ERRORS;{Rng q(seed);scenario(q,T,d);}
    VCHECK(T.undefs==0,"undefined-value-observed","%ld observations contain undefined bytes, the first is: %s (%s)",T.undefs,T.firstUndef,d.c_str());
    VCHECK(VALGRIND_COUNT_ERRORS==e0||T.undefs,"undefined-value-used","memcheck reports %u errors (%s)",VALGRIND_COUNT_ERRORS-e0,d.c_str());
    count(RUNNING_ON_VALGRIND?"scenarios under memcheck":"not under valgrind");count("observations",T.events);sig(fmt("mc %s %ld",d.c_str(),std::min(T.events/50,60l)));if(st().nsamples<3)sample(st().desc+" "+d+fmt(": %ld observations, all defined",T.events));});
#else
  paintHook()=&paintStack;
  cases(fmt("fill %d",COMP),scaled(500,12000),[&](Rng&r){uint64_t seed=r.next();describe(fmt("scenario %llu",(unsigned long long)seed));std::string d;Trace T[7];static const char*nm[]={"zero","all ones","small integers","huge numbers","random bits","random numbers","-0.5"};
    for(int m=0;m<7;m++){mode=m;fillSeed=seed|1;paint();{Rng q(seed);scenario(q,T[m],d);}mode=-1;if(m&&!T[m].same(T[0])){std::string t=T[0].diff(T[m]);viol("depends-on-memory",fmt("memory filled with %s and %s: %s (%s)",nm[0],nm[m],t.c_str(),d.c_str()));}
      if(m)count("comparisons");}
    count("observations",T[0].events);sig(fmt("fl %s %ld",d.c_str(),std::min(T[0].events/50,60l)));if(st().nsamples<3)sample(st().desc+" "+d+fmt(": %ld observations, 7 fillings",T[0].events));});
  count("blocks filled",fills);VCHECK(fills>1000,"filling-did-not-happen","%ld",fills);
#endif
  count("successful calls",okCalls);count("failed calls",failedCalls);count("user exceptions",userFails);
  return finish();}
