// K07: the OpenMP build, against the sequential one and, with -DSHIM and ThreadSanitizer, for races.
#include "rock.hpp"
#ifdef SHIM
#include "omp_shim.hpp"
#else
#include <omp.h>
#endif
using namespace vf;
#ifndef ROCK4_OMP
#error
#endif
extern "C" void omp_set_num_threads(int);
void seqRun(const void*prob,int n,double rho,double at,double rt,double t0,double te,double h,double*y,long*info,double*hl,void(*rhs)(const void*,int,const double*,double*));
struct Diff{double d,k;bool par;};
static void diffRhs(const void*p,int n,const double*in,double*o){const Diff&D=*(const Diff*)p;for(int i=0;i<n;i++){double l=i?in[i-1]:in[i],r=i<n-1?in[i+1]:in[i];o[i]=D.d*(l-2*in[i]+r)+D.k*std::sin(in[i]);}}
static void diffPar(const void*p,int n,const double*in,double*o){const Diff&D=*(const Diff*)p;
#pragma omp parallel for
  for(int i=0;i<n;i++){double l=i?in[i-1]:in[i],r=i<n-1?in[i+1]:in[i];o[i]=D.d*(l-2*in[i]+r)+D.k*std::sin(in[i]);}}
struct FP{Diff*D;int n;double r;long nf=0;int size()const{return n;}double rho(){return r;}void operator()(double*in,double*o){++nf;if(nf>400000)throw Runaway();(D->par?diffPar:diffRhs)(D,n,in,o);}};
int main(int ac,char**av){init(ac,av);
#ifdef SHIM
  long nq=scaled(120,1500);
#else
  long nq=scaled(500,8000);
#endif
  cases("parallel",nq,[&](Rng& r){int n=r.p(0.4)?r.i(1,9):r.i(10,300);
#ifdef SHIM
    int nt=r.i(2,6);
#else
    int nt=r.i(1,8);
#endif
    Diff D{r.lg(-1,r.pick({1.,2.,3.})),r.p(0.3)?0:r.lg(-1,1),r.p(0.5)};double rho=4*D.d+D.k,rt=r.lg(-8,-2),at=rt*r.lg(-1,1),len=r.lg(-1.5,0),h=len*r.lg(-3,0.3);bool one=r.p(0.3);if(one){at=1e200;rt=1;h=len;}
#ifdef SHIM
    if(!one){rt=r.lg(-5,-2);at=rt;}
#endif
    std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);describe(fmt("n=%d threads=%d parallel rhs=%d one=%d d=%.17g k=%.17g rt=%.3g at=%.3g len=%.17g h=%.17g y0=",n,nt,(int)D.par,(int)one,D.d,D.k,rt,at,len,h)+vec(y));
    std::vector<double> ys(y);long info[5];double hl;seqRun(&D,n,rho,at,rt,0,len,h,ys.data(),info,&hl,diffRhs);
    omp_set_num_threads(nt);FP F{&D,n,rho};odes::Rock4<FP> S(F);S.setTolerances(at,rt);int reps=one?3:2;for(int q=0;q<reps;q++){YArr A(y);int out=0;try{S(A.p,0,len,h);}catch(odes::OdesException&){out=1;}catch(Runaway&){out=3;}
      std::string w=fmt("steps %d/%ld accepted %d/%ld rejected %d/%ld f %d/%ld out %d/%ld",S.NbSteps(),info[1],S.NbAccepted(),info[2],S.NbRejected(),info[3],S.NbRhsComputed(),info[4],out,info[0]);
      count("runs compared");count("steps",S.NbSteps());
      VCHECK(out==info[0],"outcome-differs","%s",w.c_str());if(out)continue;
      double d=0,m=0;for(int i=0;i<n;i++){d=std::max(d,std::fabs(A.p[i]-ys[i]));m=std::max(m,std::fabs(ys[i]));}
      if(one){VCHECK(memcmp(A.p,ys.data(),8*n)==0||d<=1e-13*(1+m),"single-step-differs","%s: distance %.3g",w.c_str(),d);VCHECK(S.NbSteps()==info[1]&&S.NbRhsComputed()==info[4],"single-step-counts","%s",w.c_str());}
      else if(S.NbSteps()==info[1]&&S.NbRhsComputed()==info[4]){maxv("distance between parallel and sequential",d);count("runs with equal counters");VCHECK(d<=1e-9*(1+m)+0.03*(at+rt*m),"parallel-differs","%s: distance %.3g",w.c_str(),d);
        VCHECK(std::fabs(S.LastAcceptedTimeStep()-hl)<=0.03*hl,"last-step-differs","%.17g, sequential %.17g",S.LastAcceptedTimeStep(),hl);}
      else{count("runs with other counters");VCHECK(d<=50*(at+rt*m),"parallel-differs","%s: distance %.3g",w.c_str(),d);VCHECK(std::labs(S.NbSteps()-info[1])<=3+info[1]/20,"steps-differ","%s",w.c_str());}
      sig(fmt("%d %d %d %ld",std::min(n,40),nt,(int)D.par,std::min(info[1],50l)));}
    if(st().nsamples<3)sample(st().desc+fmt(" -> %ld steps",info[1]));});
  // faults in the parallel version: the exception leaves, the object is usable
  cases("summary",1,[&](Rng&){if(st().onlycase>=0)return;auto&C=st().counts;VCHECK(C["runs with other counters"]<=3+0.05*C["runs compared"],"steps-differ","%ld of %ld runs take other steps in parallel",C["runs with other counters"],C["runs compared"]);});
#ifdef SHIM
  count("parallel regions",shim::regions());maxv("threads in a region",shim::maxteam());
#endif
  return finish();}
