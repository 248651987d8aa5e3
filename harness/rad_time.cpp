// R02, S02: times of every call of the user's functions, of every attempted step and of the return.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){
  typedef Fn<N,SUB,SUP,H,NJ> F; const int psub=SUB,psup=SUP;
  cases(sname()+fmt("time n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ),scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,!RAUTO&&r.p(0.8),r.p(0.5)?r.u(0,3):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.6));
    double rt=r.lg(-8,-2),at=rt*r.lg(-2,1); Solver<F> S(true,&at,&rt); Ctx c;c.P=&P;c.limit=2000000;
    bool one=r.p(0.25);S.performOnlyOneStep(one); if(r.p(0.2))S.setGustafssonTest(false); if(r.p(0.2))setNit(S,r.i(3,5),0);
    double x0=r.p(0.2)?0:(r.p(0.2)?r.sg()*r.lg(2,7):r.u(-20,20)),dir=r.sg(),len=r.lg(-3,0.8);
    if(dir<0)len=std::min(len,8.0/(1e-3+P.lip));
    if(r.p(0.1))len=std::max(r.lg(-9,-4),1e-9*std::fabs(x0)); // short intervals
    double xe=x0+dir*len; if(xe==x0)return;
    double h=r.pick({0.,1.,1e-7,1e10,1e-30,-1.,0.9999,1.00005,0.5})*len; if(r.p(0.4))h=len*r.sg()*r.lg(-5,1);
    std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g one=%d rt=%.3g at=%.3g y0=",x0,xe,h,(int)one,rt,at)+vec(y));
    double sc=std::max(std::fabs(x0),std::fabs(xe)),ulp=2.3e-16*sc; double lo=std::min(x0,xe),hi=std::max(x0,xe);
    std::vector<double> ycur(y); double xcur=x0; int calls=0; double hh=h,xret=x0; std::vector<double> ystart(y);
    for(;;){ double xst=xcur; // in one-step mode, go on step by step to the end
      c.resetCounts(); Result R=go(S,c,hh,xcur,xe,ycur); ++calls; xret=R.x; count("calls"); count("right-hand side times",R.nf); count("attempted steps",R.at.size());
      // never outside of the interval of this call
      double clo=std::min(xcur,xe)-3*ulp,chi=std::max(xcur,xe)+3*ulp+dtdelta(sc);
      VCHECK(!(c.tmin<clo)&&!(c.tmax>chi)&&!(R.nf>0&&(c.tmin!=c.tmin||c.tmax!=c.tmax)),"rhs-time-outside","right-hand side called at t in [%.17g,%.17g], interval [%.17g,%.17g]",c.tmin,c.tmax,std::min(xcur,xe),std::max(xcur,xe));
      VCHECK(!(c.jtmin<clo)&&!(c.jtmax>chi),"jacobian-time-outside","Jacobian called at t in [%.17g,%.17g], interval [%.17g,%.17g]",c.jtmin,c.jtmax,xcur,xe);
      double t=xcur;LD sum=0;int nacc=0; std::vector<double> yl(ycur);
      for(auto&a:R.at){
        VCHECK(a.t==t,"step-not-contiguous","attempt starts at %.17g, the last accepted step ended at %.17g",a.t,t);
        VCHECK(a.h*dir>0,"step-wrong-direction","attempt at %.17g with h=%.17g, direction %g",a.t,a.h,dir);
        VCHECK((a.t+a.h-xe)*dir<=2*ulp,"step-past-end","attempt at %.17g with h=%.17g goes past the end %.17g",a.t,a.h,xe);
        if(a.acc){t=a.t+a.h;sum+=a.h;++nacc;yl=a.y;} else VCHECK(a.y==yl,"rejected-step-moved-y","solution changed by a rejected step at %.17g: %s was %s",a.t,vec(a.y).c_str(),vec(yl).c_str());
      }
      VCHECK(R.x==t||std::fabs(R.x-t)<=ulp,"x-not-at-last-step","x=%.17g on return (%s), last accepted step ended at %.17g",R.x,oname(R.out),t);
      VCHECK(R.y==yl,"y-not-at-last-step","y on return (%s) is not the solution of the last accepted step",oname(R.out));
      VCHECK(fabsl(sum-((LD)R.x-xcur))<=(nacc+2)*ulp,"steps-do-not-sum","sum of steps %.17Lg, x moved by %.17Lg",sum,(LD)R.x-xcur);
      if(R.out==RUNAWAY){viol("runaway","more than 2000000 right-hand side calls");return;}
      if(R.out==LIBEX){count("library exceptions");return;}
      count("normal returns"); count("accepted steps",nacc);
      if(!one){
        VCHECK(std::fabs(R.x-xe)<=1.2e-15*sc+2*ulp,"end-not-reached","returned at x=%.17g, end %.17g",R.x,xe);
        // seen by the user's function: stages reach the end and not less
        double far=dir>0?c.tmax:c.tmin;
        VCHECK(std::fabs(far-xe)<=1.2e-15*sc+4*ulp+dtdelta(sc),"end-not-evaluated","farthest evaluation at %.17g, end %.17g",far,xe);
        VCHECK(nacc>=1,"no-step","returned normally without any accepted step");
        break; }
      VCHECK(nacc==1,"one-step-mode","%d accepted steps in one-step mode",nacc);
      VCHECK(std::fabs(hh)<4*ulp?(R.x-xcur)*dir>=0:(R.x-xcur)*dir>0,"one-step-no-progress","x=%.17g after a step from %.17g",R.x,xcur);
      double ylen=std::fabs(R.hlast);
      xcur=R.x;ycur=R.y;hh=R.hlast; (void)ylen;
      if(std::fabs(xcur-xe)<=1.2e-15*sc+2*ulp)break;
      if(calls>30||R.x==xst){break;}
    }
    sig(fmt("%d%d%d%d %d %d %d %d",N,SUB,H,NJ,(int)one,(int)dir,(int)std::floor(std::log10(len)),(int)std::floor(std::log10(std::fabs(h)/len+1e-20))));
    if(st().nsamples<3)sample(st().group+": "+st().desc+fmt(" -> x=%.17g in %d call(s)",xret,calls));
  });
  // solution delivered at the end: y'=cos t decoupled from everything: exact by quadrature
  if(!RAUTO)cases(sname()+fmt("delivered n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ),scaled(nq/4+1,nt/4+1),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,false,0,0);for(auto&v:P.A)v=0;for(auto&v:P.B)v=0;P.timedep=true;for(int i=0;i<N;i++){P.c[i]=r.u(0.5,2)*r.sg();P.w[i]=r.u(0.3,2);P.p[i]=r.u(0,6);}
    double rt=1e-9,at=1e-9;Solver<F> S(true,&at,&rt);Ctx c;c.P=&P;double x0=r.u(-10,10),xe=x0+r.sg()*r.lg(-1,1),h=r.lg(-3,0);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);
    describe(fmt("quadrature x0=%.17g xe=%.17g h=%.17g",x0,xe,h));
    Result R=go(S,c,h,x0,xe,y,false); if(R.out!=RETURNED){viol("quadrature-failed",R.str());return;}
    for(int i=0;i<N;i++){LD ex=(LD)y[i]-(LD)P.c[i]/P.w[i]*(cosl((LD)P.w[i]*xe+P.p[i])-cosl((LD)P.w[i]*x0+P.p[i]));
      VCHECK(fabsl(ex-R.y[i])<=1e-6L,"solution-not-at-end","component %d: %.17g, exact %.17Lg",i,R.y[i],ex);}
    count("exact quadratures");
  });
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,false,false>(600,12000);run<2,1,1,false,true>(600,12000);
#elif PART==1
  run<3,2,2,true,false>(600,12000);run<4,3,3,true,true>(500,10000);
#elif PART==2
  run<5,1,1,false,false>(500,10000);run<5,2,0,false,true>(500,10000);
#endif
  return finish();}
