// S01: every accepted Rodas step against the Rosenbrock formula evaluated in
// long double; observed order of the local error.
#include "rod_ref.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static const RodasRef& ref(){static RodasRef R(RMETH);return R;}
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){
  typedef Fn<N,SUB,SUP,H,NJ> F; const int psub=SUB,psup=SUP; const bool numdt=!RAUTO&&!RUSEDT; std::vector<double> devs;
  std::string lay=sname()+fmt("n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);
  cases("step "+lay,scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,!RAUTO&&r.p(0.8),r.p(0.5)?r.u(0,4):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.6));
    double at[N],rt[N];bool same=r.p(0.5);for(int i=0;i<N;i++){rt[i]=r.lg(-8,-2);at[i]=rt[i]*r.lg(-1,1);}if(same)for(int i=1;i<N;i++){at[i]=at[0];rt[i]=rt[0];}
    Solver<F> S(same,at,rt);Ctx c;c.P=&P;c.limit=400000;if(r.p(0.3))S.setGustafssonTest(false);if(r.p(0.3))S.setSafe(r.u(0.5,0.95));bool one=r.p(0.3);S.performOnlyOneStep(one);
    double x0=r.p(0.3)?0:r.u(-50,50),dir=r.sg(),len=one?1:r.lg(-2,0.7);if(dir<0)len=std::min(len,8.0/(1e-3+P.lip));
    double xe=x0+dir*len,h=dir*len*r.lg(-4,0);if(r.p(0.2))h=-h;std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?1e3:1);
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g one=%d same=%d rt0=%.3g at0=%.3g y0=",x0,xe,h,one,same,rt[0],at[0])+vec(y));
    Result R=go(S,c,h,x0,xe,y);std::vector<double> cur(y);long acc=0;
    for(size_t k=0;k<R.at.size();k++){Attempt&a=R.at[k];count("attempts");if(!a.acc)continue;++acc;if(acc>60&&k%7){cur=a.y;continue;}
      std::vector<LD> yc(cur.begin(),cur.end()),yn,e,yp,ep;LD size,s2;
      if(!ref().step(P,a.t,yc.data(),a.h,yn,e,size)){count("reference failed");cur=a.y;continue;}
      // what the allowed error of numerical derivatives may change
      LD sens=0;if(NJ||numdt){LD ym=0;for(LD v:yc)ym=std::max(ym,fabsl(v));
        // forward differences: d/2*|f''| + rounding of f over the increment
        LD dd=sqrtl(1e-16L*std::max((LD)1e-5,ym)),dJ=NJ?2*dd*P.lip+1e-15L*(P.lip*ym+3)/sqrtl(1e-21L):0,dT=numdt?1e-15L*(P.lip*ym+3)/sqrtl(1e-16L*std::max((LD)1e-5,fabsl((LD)a.t)))+4e-7L:0;
        for(LD sg:{1.L,-1.L})if(NJ&&ref().step(P,a.t,yc.data(),a.h,yp,ep,s2,sg*dJ,0)){LD q=0;for(int i=0;i<N;i++)q=std::max(q,fabsl(yp[i]-yn[i]));sens+=q;}
        for(int k=0;k<N&&numdt;k++)if(ref().step(P,a.t,yc.data(),a.h,yp,ep,s2,0,dT,k)){LD q=0;for(int i=0;i<N;i++)q=std::max(q,fabsl(yp[i]-yn[i]));sens+=q;}}
      LD dev=0,cond=1+0.05L*fabsl(a.h)*(LD)P.lip,mag=0;for(int i=0;i<N;i++){dev=std::max(dev,fabsl((LD)a.y[i]-yn[i]));mag=std::max(mag,std::max(fabsl(yn[i]),fabsl((LD)cur[i])));}
      LD bound=2e-15L*(mag+size*cond+2.3e-16L*0)+4*sens+1e-15L*fabsl((LD)a.t)*P.lip*fabsl(a.h);
      maxv("max distance/allowed",(double)(dev/bound));devs.push_back((double)(dev/bound));
      count("accepted steps compared");sig(lay+fmt("%d %d",(int)std::floor(2*std::log10(std::fabs(a.h)*P.lip)),(int)(a.h>0)));
      VCHECK(dev<=4*bound,"rodas-step-not-rosenbrock","step %ld t=%.17g h=%.17g: distance to the Rosenbrock formula %.3Lg, allowed %.3Lg; y=%s ref=%s",acc,a.t,a.h,dev,4*bound,vec(a.y).c_str(),vec(yn).c_str());
      cur=a.y;}
    if(acc){count("runs with accepted steps");VCHECK(cur==R.y,"rodas-last-accepted","y on return is not the last accepted solution: %s",vec(R.y).c_str());}
    if(st().nsamples<3)sample(st().group+": "+st().desc+fmt(" -> %ld accepted of %zu attempts",acc,R.at.size()));
  });
  // order of the local error: one step each, with tolerances that never reject
  std::vector<double> ord;
  if(N<20)cases("order "+lay,scaled(nq/4+20,nt/4),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,!RAUTO,0,r.lg(-0.3,0.3));double x0=r.u(-3,3);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);double h0=0.7/P.lip;describe(P.name+fmt(" x0=%.17g h0=%.17g y0=",x0,h0)+vec(y));
    double big=1e9;Solver<F> S(true,&big,&big);S.performOnlyOneStep(true);LD prev=0;
    for(int q=0;q<4;q++){double h=h0/(1<<q);Ctx c;c.P=&P;Result R=go(S,c,h,x0,x0+100*h,y);if(R.out!=RETURNED||R.at.size()!=1||R.at[0].h!=h){viol("single-step-failed",R.str());return;}
      std::vector<LD> ex;if(!refSol(P,x0,y,x0+h,1e-17L,ex,200))return;LD e=0;for(int i=0;i<N;i++)e=std::max(e,fabsl(ex[i]-R.y[i]));
      if(q>0&&e>(NJ||numdt?1e-8L:1e-12L)){ord.push_back((double)log2l(prev/e));count("orders observed");}prev=e;}
    sig("ord"+lay+fmt("%ld",vf::st().k));});
  st().k=-2;if(N<20&&ord.size()>=30){std::sort(ord.begin(),ord.end());double m=ord[ord.size()/2];maxv(fmt("median local order (negated) %s",sname().c_str()),-m);VCHECK(m>=4.5,"local-order","median observed order of the local error %.3g (%zu pairs), expected 5",m,ord.size());}
  if(devs.size()>200){std::sort(devs.begin(),devs.end());maxv("median distance/allowed",devs[devs.size()/2]);
    VCHECK(devs[devs.size()/2]<=0.3,"rodas-steps-far-from-formula","median distance to the formula over the allowed one: %.3g",devs[devs.size()/2]);}
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,false,false>(150,4000);run<2,1,1,false,true>(150,4000);run<3,2,2,true,false>(150,4000);run<34,33,33,true,false>(2,40);
#elif PART==1
  run<4,3,3,true,true>(120,3000);run<5,1,1,false,false>(150,3000);run<1,0,0,true,false>(60,1000);run<40,2,3,false,false>(2,40);
#elif PART==2
  run<5,2,0,false,true>(150,3000);run<4,3,3,false,false>(150,3000);run<6,0,3,false,false>(100,3000);run<36,35,35,false,true>(2,40);run<3,0,0,false,false>(60,600);run<4,2,0,false,false>(60,600);run<72,1,2,false,true>(1,20);run<70,69,69,true,false>(1,20);
#endif
  return finish();}
