// C09: one source file of a program of several. COMP: the component it uses (as in comp.hpp), in a namespace of its own.
#define VFCAT2(a,b) a##b
#define VFCAT(a,b) VFCAT2(a,b)
#define vf VFCAT(vf_tu_,COMP)
#include "comp.hpp"
extern "C" void VFCAT(tu_scenario_,COMP)(unsigned long long seed,unsigned long long*hash,long*events){vf::Rng r(seed);vf::Trace T;T.keep=false;std::string s;vf::scenario(r,T,s);*hash=T.fin;*events=T.events;}
