// the sequential build of Rock4, in a namespace of its own
#undef ROCK4_OMP
#define odes odes_sequential
#define vf vf_sequential
#include "rock.hpp"
using namespace vf;
void seqRun(const void*prob,int n,double rho,double at,double rt,double t0,double te,double h,double*y,long*info,double*hl,void(*rhs)(const void*,int,const double*,double*)){
  struct FS{const void*p;int n;double r;long nf=0;void(*f)(const void*,int,const double*,double*);int size()const{return n;}double rho(){return r;}void operator()(double*in,double*o){++nf;if(nf>400000)throw Runaway();f(p,n,in,o);}};
  FS F;F.p=prob;F.n=n;F.r=rho;F.f=rhs;odes::Rock4<FS> S(F);S.setTolerances(at,rt);double*Y=odes::allocDoubleArray(n);std::copy(y,y+n,Y);int out=0;try{S(Y,t0,te,h);}catch(odes::OdesException&){out=1;}catch(Runaway&){out=3;}
  std::copy(Y,Y+n,y);odes::destroyDoubleArray(Y);info[0]=out;info[1]=S.NbSteps();info[2]=S.NbAccepted();info[3]=S.NbRejected();info[4]=S.NbRhsComputed();*hl=S.LastAcceptedTimeStep();}
