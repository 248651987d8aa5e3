// R05: counters against what was observed from outside: calls of the user's
// functions, stage times, calls of the linear algebra library.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static long nreal=0,ncplx=0;
#define W(name,cnt,ARGS,CALL) extern "C" { int __real_##name ARGS; int __wrap_##name ARGS{++cnt;return __real_##name CALL;} }
W(dgetrf_,nreal,(int*m,int*n,double*a,int*l,int*p,int*i),(m,n,a,l,p,i))
W(zgetrf_,ncplx,(int*m,int*n,double*a,int*l,int*p,int*i),(m,n,a,l,p,i))
W(dgbtrf_,nreal,(int*m,int*n,int*k,int*u,double*a,int*l,int*p,int*i),(m,n,k,u,a,l,p,i))
W(zgbtrf_,ncplx,(int*m,int*n,int*k,int*u,double*a,int*l,int*p,int*i),(m,n,k,u,a,l,p,i))
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){
  typedef Fon<N,SUB,SUP,H,NJ> F; odes::Radau5cc<F>* sh=0; double rt0=1e-4,at0=1e-4; sh=new odes::Radau5cc<F>(true,&at0,&rt0);
  cases(fmt("stats n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ),scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,SUB,SUP,r.p(0.8),r.p(0.6)?r.u(0,4):r.u(0,1),r.p(0.2)?0:r.lg(-1,1));
    double rt=r.lg(-8,-2),at=rt*r.lg(-1.5,1);bool shared=r.p(0.5);odes::Radau5cc<F> own(true,&at,&rt);odes::Radau5cc<F>& S=shared?*sh:own;
    S.setTestPolicy(true,&at,&rt);int nit=r.p(0.6)?7:r.i(3,10),nmax=r.p(0.85)?10000:r.i(1,30);bool one=r.p(0.15);double thet=r.pick({0.001,0.001,-1.,0.3,1e9});
    S.setMaxIterationsNewton(nit);S.setNmax(nmax);S.performOnlyOneStep(one);S.setRecomputeJacobianTreshold(thet);
    Ctx c;c.P=&P;c.limit=3000000;
    double x0=r.u(-20,20),dir=r.p(0.7)?1:-1,len=r.lg(-1.5,0.8);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));double xe=x0+dir*len,h=dir*len*r.lg(-3,0.3);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?50:1);
    long thr=r.p(0.15)?r.i(1,80):-1;c.throwAt=thr;
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g at=%.3g one=%d nit=%d nmax=%d thet=%g throwAt=%ld shared=%d y0=",x0,xe,h,rt,at,(int)one,nit,nmax,thet,thr,(int)shared)+vec(y));
    // classify the calls of f: at the start of the current step, Jacobian differences, stages
    struct Call{double t;bool jac;};std::vector<Call> calls;std::vector<size_t> mark; // calls seen before each hook event
    c.onF=[&](double t,const double* yy,const double*){ calls.push_back({t,false}); (void)yy;};
    nreal=ncplx=0; Mon m; Result R;{ // record, noting the call index at each attempt
      R=go(S,c,h,x0,xe,y);}
    for(auto&a:R.at)mark.push_back((size_t)a.nf);
    long acc=0,rej=0,rejall=0;double first=NAN;for(auto&a:R.at){if(a.acc){if(!acc)first=a.h;++acc;}else{++rejall;if(acc)++rej;}}
    // attempts seen from outside: groups of three stage calls with the same end time
    long attempts=0,stagecalls=0,iters=0; double x=x0;size_t ia=0;double cur=NAN;
    std::vector<double> trip;
    for(size_t k=0;k<calls.size();k++){
      while(ia<R.at.size()&&mark[ia]<=k){if(R.at[ia].acc)x=R.at[ia].t+R.at[ia].h;cur=NAN;trip.clear();++ia;}
      if(calls[k].t==x)continue; // evaluations at the start of the step (right-hand side, Jacobian, error estimate)
      ++stagecalls;trip.push_back(calls[k].t);
      if(trip.size()==3){double e=trip[0];for(double t:trip)if(std::fabs(t-x)>std::fabs(e-x))e=t;if(!(e==cur)){++attempts;cur=e;iters=0;}++iters;trip.clear();}
    }
    if(trip.size()&&R.out!=RETURNED){double e=trip[0];(void)e; // an interrupted group: belongs to a new attempt unless it continues the current one
      bool cont=false;for(double cc:{0.15505102572168219,0.64494897427831781,1.0})if(std::fabs((trip[0]-x)-cc*(cur-x))<=1e-9*std::fabs(cur-x)+4e-16*std::fabs(x))cont=true;if(!cont)++attempts;}
    count("integrations");count("calls of f",R.nf);count("attempted steps",attempts);count("error test rejections",rejall);count("Newton failures",attempts-(long)R.at.size()-(R.out==USEREX?1:0)>0?attempts-(long)R.at.size():0);
    std::string w=R.str();
    // an exception thrown by f interrupts the count of the group of calls it belongs to
    long slack=R.out==USEREX?(NJ?N+3:3):0;
    VCHECK(std::labs(R.nfc-R.nf)<=slack,"nfonccalled","reported %d right-hand side calls, %ld seen: %s",R.nfc,R.nf,w.c_str());
    if(!NJ)VCHECK(R.njac==R.nj,"njac","reported %d Jacobians, %ld seen: %s",R.njac,R.nj,w.c_str());
    VCHECK(R.nacc==acc,"naccpt","reported %d accepted steps, %ld seen: %s",R.nacc,acc,w.c_str());
    VCHECK(R.nrej==rej,"nrejct","reported %d rejected steps, %ld error-test rejections after the first accepted step: %s",R.nrej,rej,w.c_str());
    if(R.out!=USEREX)VCHECK(R.nstep==attempts,"nstep","reported %d steps, %ld attempts seen (%zu ended by the error test): %s",R.nstep,attempts,R.at.size(),w.c_str());
    else VCHECK(R.nstep>=(long)R.at.size()&&R.nstep<=attempts+1,"nstep","reported %d steps, %ld attempts seen: %s",R.nstep,attempts,w.c_str());
    if(R.out==RETURNED&&R.at.size()&&R.at.back().acc){VCHECK(S.getNewt()==iters,"newt","reported %d Newton iterations, %ld seen in the last step: %s",S.getNewt(),iters,w.c_str());count("Newton iterations of last steps",iters);}
    if(acc)VCHECK(R.first==first,"first-accepted-step","reported %.17g, first accepted step was %.17g",R.first,first);
    if(!H){VCHECK(nreal==ncplx,"decompositions-unpaired","%ld real and %ld complex factorizations",nreal,ncplx);VCHECK(R.ndec==nreal,"ndec","reported %d decompositions, %ld pairs seen: %s",R.ndec,nreal,w.c_str());count("factorizations",nreal);}
    else VCHECK(R.ndec>=R.njac-(R.out==USEREX?1:0)&&R.ndec<=attempts+1,"ndec","Hessenberg: %d decompositions, %d Jacobians, %ld attempts",R.ndec,R.njac,attempts);
    if(NJ&&R.out==RETURNED){ // n calls per numerical Jacobian; the rest: stages, one per start of a step, error estimates
      long rest=R.nf-stagecalls-(long)N*R.njac, starts=acc; // one at the beginning; the last step needs no new value
      VCHECK(rest>=starts&&rest<=starts+rejall+acc,"njac-numeric","%d Jacobians of %d calls leave %ld other calls at step starts; %ld steps, %ld rejections",R.njac,N,rest,acc,rejall);}
    if(thet<0&&R.out==RETURNED&&!one)VCHECK(R.njac>=acc,"njac-threshold","threshold %g: %d Jacobians for %ld accepted steps",thet,R.njac,acc);
    if(R.out==RETURNED){count("normal returns");}
    sig(fmt("%d%d%d%d %d %ld %ld %ld",N,SUB,H,NJ,R.out,std::min(acc,20L),std::min(rejall,6L),std::min(attempts-(long)R.at.size(),6L)));
    if(st().nsamples<3)sample(st().group+": "+st().desc+" -> "+w);
  });
  delete sh;
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,false,false>(800,20000);run<2,1,1,false,true>(800,20000);
#elif PART==1
  run<3,2,2,true,false>(800,20000);run<2,1,1,true,true>(800,20000);
#elif PART==2
  run<4,1,1,false,false>(800,20000);
#elif PART==3
  run<4,2,1,false,true>(800,20000);
#elif PART==4
  run<3,2,2,false,false>(800,20000);
#endif
  return finish();}
