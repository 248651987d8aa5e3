// K03: steps contiguous, positive, summing to the interval; the solution at the end is delivered through the caller's pointer.
#include "rock.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
int main(int ac,char**av){init(ac,av);
#if PART==0
  cases("clock",scaled(1500,40000),[&](Rng& r){int n=r.i(2,12);Prob P=rockProb(r,n,r.u(0,4),r.p(0.4)?0:r.lg(-1,0.6),true,r.p(0.7));
    double tol=r.lg(-7,-1),t0=r.p(0.3)?0:r.p(0.2)?r.sg()*r.lg(2,6):r.u(-20,20),len=r.lg(-3,0.7);if(r.p(0.1))len=std::max(r.lg(-9,-4),1e-9*std::fabs(t0));double te=t0+len;if(!(te-t0>1e-14))return;len=te-t0;
    double h=r.pick({1.,1e-7,1e10,0.9999,1.00005,0.5,0.99,1/1.01,1/1.0100001,0.91,1/3.})*len;if(r.p(0.4))h=len*r.lg(-5,1);h=std::max(h,2e-14*std::max(std::fabs(t0),0.1));
    std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);y[0]=r.p(0.5)?0:r.u(-1,1);
    describe(P.name+fmt(" t0=%.17g te=%.17g h=%.17g tol=%.3g y0=",t0,te,h,tol)+vec(y));
    RCtx c;c.P=&P;c.limit=3000000;c.rho_=P.lip*r.pick({1.,1.2,2.});FR F{&c,n};
    // the clock as seen by the user's function never runs past the end (stages excepted)
    odes::Rock4<FR> S(F);S.setTolerances(tol,tol);YArr A(y);double*before=A.p;bool sw=false;RResult R=goRock(S,F,c,t0,te,h,A.p);sw=A.p!=before;count("calls");
    if(sw)count("calls that exchanged the caller's pointer");
    double sc=std::max(std::fabs(t0),std::fabs(te)),ulp=2.3e-16*sc;double t=t0;LD sum=0;long nacc=0;std::vector<double> cur(y);
    for(auto&a:R.at){
      VCHECK(a.t==t||std::fabs(a.t-t)<=ulp,"step-not-contiguous","attempt starts at %.17g, the last accepted step ended at %.17g",a.t,t);
      VCHECK(a.h>0,"step-not-positive","attempt at %.17g with h=%.17g",a.t,a.h);
      VCHECK(a.t+a.h<=te+2*ulp,"step-past-end","attempt at %.17g with h=%.17g goes past the end %.17g",a.t,a.h,te);
      if(a.acc){LD want=(LD)cur[0]+a.h;VCHECK(fabsl(want-a.y[0])<=(40+8*(a.nf))*1.2e-16L*(1+fabsl(want))&&fabsl(want-a.y[0])<=1e-12L*(1+fabsl(want)),"clock-differs","a step of %.17g moved the clock from %.17g to %.17g",a.h,cur[0],a.y[0]);
        t=a.t+a.h;sum+=a.h;++nacc;cur=a.y;}
      else VCHECK(a.y==cur,"rejected-step-moved-y","solution changed by a rejected step at %.17g",a.t);}
    VCHECK(R.y==cur,"y-not-at-last-step","the array designated on return (%d) is not the solution of the last accepted step",R.out);
    if(R.out==RRUN){viol("runaway","more than 3000000 calls");return;}
    if(R.out!=RRET){count("exceptions");VCHECK(false,"ordinary-problem-fails","%s",R.str().c_str());return;}
    count("normal returns");count("accepted steps",nacc);
    VCHECK(nacc>=1,"no-step","returned without a step");
    VCHECK(fabsl(sum-(LD)te+t0)<=(nacc+2)*ulp,"steps-do-not-sum","sum of steps %.17Lg, interval %.17Lg",sum,(LD)te-t0);
    VCHECK(fabsl((LD)R.y[0]-y[0]-((LD)te-t0))<=(nacc+2)*(ulp+1e-14*(std::fabs(y[0])+len)),"clock-at-end","clock advanced by %.17g, interval %.17g",R.y[0]-y[0],te-t0);
    sig(fmt("%d %d %d %d",n,(int)std::floor(std::log10(len)),(int)std::floor(2*std::log10(h/len)),(int)std::min(nacc,30l)));
    if(st().nsamples<3)sample(st().desc+" -> "+R.str());});
  // short intervals, far from time zero: constant rates, so that the solution tells how far time went
  cases("short",scaled(600,20000),[&](Rng& r){int n=r.i(1,6);Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w=P.c;P.p=P.c;std::vector<double> y(n,0.),c(n);
    double t0=r.sg()*r.lg(-1,7),at=std::fabs(t0),len=std::max(at*r.lg(-14.8,-6),3e-14),te=t0+len;len=te-t0;if(!(len>1e-14))return;double cs=1/len;for(int i=0;i<n;i++){c[i]=r.sg()*r.u(0.5,2)*cs;P.c[i]=c[i];P.p[i]=1.5707963267948966;}P.lip=0;
    double h=r.pick({1.,1.,10.,0.99,0.995,0.5,1/3.,0.1,0.01,1e-3})*len;if(h<len){h=std::max(h,3e-15*std::max(at,1.));if(len<1e-12)h=std::max(h,len);/* what is left must be more than the smallest step */}h=std::max(h,2e-15);
    describe(fmt("short n=%d t0=%.17g te=%.17g h=%.17g rates=",n,t0,te,h)+vec(c));RCtx x;x.P=&P;x.rho_=r.pick({1e-3,1.,100.});x.limit=100000;FR F{&x,n};odes::Rock4<FR> S(F);S.setTolerances(1e-4,1e-4);YArr A(y);RResult R=goRock(S,F,x,t0,te,h,A.p);
    if(R.out!=RRET){VCHECK(false,"ordinary-problem-fails","%s",R.str().c_str());return;}
    VCHECK(R.nacc>=1,"no-step","returned without a step");double ulp=2.3e-16*std::max(at,std::fabs(te));count("short intervals");count(fmt("short intervals of 1e%d of the time",(int)std::floor(std::log10(len/at))));
    for(int i=0;i<n;i++){LD want=(LD)c[i]*sinl((LD)P.p[i])*len;maxv("short intervals: (distance from c*length)/allowed",(double)(fabsl(R.y[i]-want)/(fabsl(c[i])*((R.nacc+1)*ulp+1e-12*len))));VCHECK(fabsl(R.y[i]-want)<=fabsl(c[i])*((R.nacc+1)*ulp+1e-12*len),"clock-at-end","component %d: %.17g, the rate times the interval is %.17Lg (%d steps)",i,R.y[i],want,(int)R.nacc);}
    sig(fmt("sh%d %d %d",n,(int)std::floor(std::log10(len/at)),(int)std::min<long>(R.nacc,20)));});
#elif PART==1
  // the solution delivered is that at the end: decoupled modes, known exactly; successive intervals; nothing done otherwise
  cases("exact",scaled(500,10000),[&](Rng& r){int n=r.i(1,10);Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w=P.p=P.c;double mx=0;std::vector<double> y(n);
    for(int i=0;i<n;i++){double l=r.p(0.2)?0:r.lg(-2,r.p(0.3)?3:1);P.A[i*n+i]=-l;mx=std::max(mx,l);y[i]=r.u(-2,2);if(r.p(0.5)){P.c[i]=r.u(-2,2);P.p[i]=1.5707963267948966;}}P.lip=mx;
    double t0=r.u(-10,10);int seg=r.i(1,4);double tol=1e-9;RCtx c;c.P=&P;c.rho_=mx;c.limit=3000000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(tol,tol);YArr A(y);double t=t0;describe(fmt("exact n=%d seg=%d mx=%.3g t0=%.17g",n,seg,mx,t0));
    for(int k=0;k<seg;k++){double len=r.lg(-2,0.5),te=t+len,h=len*r.lg(-3,0);RResult R=goRock(S,F,c,t,te,h,A.p,false);if(R.out!=RRET){viol("ordinary-problem-fails",R.str());return;}t=te;
      for(int i=0;i<n;i++){LD l=-(LD)P.A[i*n+i],T=(LD)t-t0,cc=P.c[i]*sinl((LD)P.p[i]),ex=l==0?y[i]+cc*T:(y[i]-cc/l)*expl(-l*T)+cc/l;
        maxv("error against the exact solution (tolerance 1e-9)",(double)fabsl(ex-R.y[i]));VCHECK(fabsl(ex-R.y[i])<=3e-7L,"solution-not-at-end","component %d: %.17g, exact %.17Lg",i,R.y[i],ex);}
      count("exact solutions compared");}
    sig(fmt("ex%d %d %d",n,seg,(int)(2*std::log10(mx+1e-3))));});
  cases("nothing",scaled(300,5000),[&](Rng& r){int n=r.i(1,9);Prob P=rockProb(r,n,r.u(0,2),0.5,false);double t0=r.u(-10,10),te=r.p(0.3)?t0:t0-r.lg(-9,1),h=r.sg()*r.lg(-5,1);std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);
    describe(P.name+fmt(" nothing t0=%.17g te=%.17g h=%.17g",t0,te,h));RCtx c;c.P=&P;c.rho_=P.lip;FR F{&c,n};odes::Rock4<FR> S(F);if(r.p(0.4)){RResult q=goRock(S,F,c,0,1,0.1,y);if(q.out!=RRET)viol("ordinary-problem-fails",q.str());}
    YArr A(y);RResult R=goRock(S,F,c,t0,te,h,A.p);
    VCHECK(R.out==RRET&&R.at.empty()&&R.y==y&&R.nf<=1&&R.ns==0&&R.nacc==0&&R.nrej==0,"something-done","end %.17g not after start %.17g: %s",te,t0,R.str().c_str());count("calls with nothing to do");sig(fmt("no%d",n));});
#endif
  return finish();}
