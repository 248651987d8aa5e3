// C05: scenarios of construction, use, failure and destruction under sanitizers; storage in equals storage out.
#include "comp.hpp"
#ifdef LAPG
#include "lapack_guard.hpp"
#endif
#if defined(__SANITIZE_ADDRESS__)
#define BAL 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define BAL 1
#endif
#endif
#ifdef BAL
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t inUse(){return __sanitizer_get_current_allocated_bytes();}
#else
static size_t inUse(){return 0;} // storage is balanced in the configurations with AddressSanitizer
#endif
using namespace vf;
static size_t once(uint64_t seed,std::string&d,long&ev){size_t a=inUse();{Rng r(seed);Trace T;T.keep=false;std::string s;scenario(r,T,s);ev=T.events;if(d.empty()){d=s;}}return inUse()-a;}
int main(int a,char**b){init(a,b);
  cases(fmt("life %d",COMP),scaled(1500,30000),[&](Rng&r){uint64_t seed=r.next();std::string d;long ev=0;d.reserve(200);describe(fmt("scenario %llu",(unsigned long long)seed));
    once(seed,d,ev);d=d.substr(0,60);size_t l=once(seed,d,ev);
    if(l)l=once(seed,d,ev);
    VCHECK(l==0,"leak","%zd bytes not released (%s)",(ssize_t)l,d.c_str());count("scenarios");count("events observed",ev);sig(fmt("%s %ld",d.c_str(),std::min(ev/50,60l)));if(st().nsamples<4)sample(st().desc+" "+d+fmt(": %ld observations",ev));});
  count("successful calls",okCalls);count("failed calls",failedCalls);count("user exceptions",userFails);count("library exceptions",libFails);count("objects",objects);
#ifdef LAPG
  count("library calls guarded",lg::calls);count("arrays checked at library calls",lg::arrays);maxv("largest system",lg::largest);if(lg::largest>128)count("harnesses with blocked factorizations");
#endif
  return finish();}
