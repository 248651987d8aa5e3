// C09: the main program of the several source files.
#include <cstdio>
#include <cstdlib>
#include <string>
extern "C"{
#define T(k) void tu_scenario_##k(unsigned long long,unsigned long long*,long*);
T(0)T(1)T(2)T(3)T(4)T(5)T(6)
}
#ifdef CROSS
struct Cross;
Cross*cross_make_1(int,int);Cross*cross_make_2(int,int);std::string cross_use_1(Cross*);std::string cross_use_2(Cross*);void cross_free_1(Cross*);void cross_free_2(Cross*);
#endif
static void go(int k,void(*f)(unsigned long long,unsigned long long*,long*),unsigned long long s,long n){for(long i=0;i<n;i++){unsigned long long h=0;long e=0;f(s*1000003ull+i*7919+k,&h,&e);printf("%d/%ld|%llx (%ld observations)\n",k,i,h,e);}}
int main(int,char**v){unsigned long long s=strtoull(v[1],0,10);long n=atol(v[2]);
#if WHICH&1
go(0,tu_scenario_0,s,n);
#endif
#if WHICH&2
go(1,tu_scenario_1,s,n);
#endif
#if WHICH&4
go(2,tu_scenario_2,s,n);
#endif
#if WHICH&8
go(3,tu_scenario_3,s,n);
#endif
#if WHICH&16
go(4,tu_scenario_4,s,n);
#endif
#if WHICH&32
go(5,tu_scenario_5,s,n);
#endif
#if WHICH&64
go(6,tu_scenario_6,s,n);
#endif
#ifdef CROSS
  for(int k=0;k<6;k++)for(int va=0;va<2;va++)for(int m=0;m<8;m++){Cross*c=m&1?cross_make_2(k,va):cross_make_1(k,va);std::string r=m&2?cross_use_2(c):cross_use_1(c);(m&4)?cross_free_2(c):cross_free_1(c);for(auto&ch:r)if(ch=='\n')ch=' ';printf("x%d.%d made in %d used in %d freed in %d|%s\n",k,va,1+(m&1),1+!!(m&2),1+!!(m&4),r.c_str());}
#endif
  return 0;}
