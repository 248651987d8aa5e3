// R01: every accepted Radau5 step against the Radau IIA collocation equations
// solved in long double.
#include "radau_mon.hpp"
using namespace vf;
#define MED90 10
#ifndef PART
#define PART 0
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){
  typedef Fon<N,SUB,SUP,H,NJ> F; std::vector<double> dt,dd; const int psub=SUB,psup=SUP;
  cases(fmt("step n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ),scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,r.p(0.7),r.p(0.5)?r.u(0,4):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.6));
    double at[N],rt[N];bool same=r.p(0.6),tight=r.p(0.65);for(int i=0;i<N;i++){rt[i]=tight?r.lg(-5,-2):r.lg(-9,-3);at[i]=rt[i]*r.lg(-1,1);} if(same)for(int i=1;i<N;i++){at[i]=at[0];rt[i]=rt[0];}
    odes::Radau5cc<F> S(same,at,rt); Ctx c;c.P=&P;c.keep=10;S.rhs().c=&c; RTol T(N,same,at,rt); double fn=T.fnewt;
    if(tight){ // a stopping tolerance well below the error tolerance
      double rm=1;for(int i=0;i<N;i++)rm=std::min(rm,(double)std::min(T.rt[i],T.at[i]));fn=std::max(2e3*1e-16/rm,r.lg(-10,-7));S.setFnewt(fn);}
    int nit=7;if(r.p(0.4)){nit=r.i(4,14);S.setMaxIterationsNewton(nit);}
    if(r.p(0.3))S.setRecomputeJacobianTreshold(r.pick({0.0,0.01,0.3,-1.0}));
    if(r.p(0.3))S.setGustafssonTest(false);
    if(r.p(0.3))S.setSafe(r.u(0.5,0.95));
    bool one=r.p(0.3);S.performOnlyOneStep(one);
    double x0=r.p(0.3)?0:r.u(-50,50),dir=r.sg(),len=one?1:r.lg(-2,0.7); // backward: keep it short, the problem is unstable that way
    if(dir<0)len=std::min(len,8.0/(1e-3+P.lip));
    double x=x0,xe=x0+dir*len,h=dir*len*r.lg(-4,0);if(r.p(0.2))h=-h;
    double y[N],y0[N];for(int i=0;i<N;i++)y0[i]=y[i]=r.u(-2,2)*(r.p(0.1)?1e3:1);
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g one=%d same=%d rt0=%.3g at0=%.3g fn=%.3g nit=%d y0=",x0,xe,h,one,same,rt[0],at[0],fn,nit)+vec(y0,N));
    c.limit=400000; Mon m;m.start(&c);
    try{S(h,x,xe,y);}catch(odes::OdesException&){count("library exception");}catch(Runaway&){count("runaway");m.stop();return;}
    m.stop();
    std::vector<double> cur(y0,y0+N);long acc=0;
    for(size_t k=0;k<m.at.size();k++){Attempt& a=m.at[k]; count("attempts"); if(!a.acc)continue; ++acc; if(acc>60&&(k%7)){cur=a.y;continue;}
      std::vector<LD> Z; if(!refStages(P,a.t,a.h,cur.data(),&a,Z)){count("reference not converged");cur=a.y;continue;}
      std::vector<LD> s=T.scal(cur.data()),d(N);LD rnd=0;
      for(int i=0;i<N;i++){d[i]=(LD)a.y[i]-((LD)cur[i]+Z[2*N+i]);
        // rounding floor: solution magnitude and stiff components seen through the iteration matrix
        LD fl=2e-14L*(1+fabsl(cur[i])+fabsl(Z[2*N+i])); rnd=std::max(rnd,fl/s[i]);}
      LD dev=rms(d,s),bound=(tight?(LD)3e4*fn:(LD)60)+rnd;
      maxv(std::string(tight?"tight: max dev/(fnewt+rounding)":"default: max dev/(fnewt+rounding)"),(double)(dev/((LD)fn+rnd)));
      (tight?dt:dd).push_back((double)(dev/((LD)fn+rnd)));
      count("accepted steps compared");
      sig(fmt("%d,%d,%d,%d,%d,%d,%d,%d",N,SUB,H,NJ,(int)std::floor(std::log10(std::fabs(a.h)*P.lip)),(int)(a.h>0),tight,(int)std::floor(std::log10(rt[0]))));
      VCHECK(dev<=bound,"radau-step-not-collocation","step %ld t=%.17g h=%.17g: distance to the Radau IIA solution %.3Lg (weighted), allowed %.3Lg; y=%s ref3=%.17Lg",acc,a.t,a.h,dev,bound,vec(a.y).c_str(),(LD)cur[0]+Z[2*N]);
      cur=a.y;
    }
    if(acc){count("runs with accepted steps");VCHECK(finite(y,N),"radau-nonfinite","non finite result");
      VCHECK(cur==std::vector<double>(y,y+N),"radau-last-accepted","y on return is not the last accepted solution: %s",vec(y,N).c_str());}
    if(st().nsamples<4)sample(st().group+": "+st().desc+fmt(" -> %ld accepted of %zu attempts",acc,m.at.size()));
  });
  // the stopping test is a heuristic for a single step; over many steps it must do its job
  st().k=-2;
  for(auto*v:{&dt,&dd})if(v->size()>200){std::sort(v->begin(),v->end());double med=(*v)[v->size()/2],q90=(*v)[v->size()*9/10];
    maxv(v==&dt?"tight: median dev/(fnewt+rounding)":"default: median dev/(fnewt+rounding)",med);maxv(v==&dt?"tight: q90":"default: q90",q90);
    VCHECK(med<=0.5&&q90<=MED90,"radau-steps-far-from-collocation","median %.3g, 90%% quantile %.3g of the distance to the Radau IIA solution over the stopping tolerance (%zu steps)",med,q90,v->size());}
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,false,false>(60,3000);run<2,1,1,false,false>(80,3000);run<5,4,4,false,false>(60,3000);run<36,35,35,false,false>(3,60);
#elif PART==1
  run<3,2,2,true,false>(80,3000);run<4,3,3,true,true>(60,3000);run<1,0,0,true,false>(40,1000);run<33,32,32,true,false>(3,60);
#elif PART==2
  run<6,1,1,false,false>(60,3000);run<6,2,1,false,true>(60,3000);run<40,3,2,false,true>(3,60);run<3,0,0,false,false>(30,600);run<4,2,0,false,false>(30,600);run<72,1,2,false,false>(1,20);
#elif PART==3
  run<5,0,3,false,false>(60,3000);run<3,2,2,false,true>(60,3000);run<5,4,1,false,true>(40,2000);
#endif
  return finish();}
