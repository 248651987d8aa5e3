// S05: Rodas counters and options against what was observed from outside.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static long nreal=0;
#define W(name,cnt,ARGS,CALL) extern "C" { int __real_##name ARGS; int __wrap_##name ARGS{++cnt;return __real_##name CALL;} }
W(dgetrf_,nreal,(int*m,int*n,double*a,int*l,int*p,int*i),(m,n,a,l,p,i))
W(dgbtrf_,nreal,(int*m,int*n,int*k,int*u,double*a,int*l,int*p,int*i),(m,n,k,u,a,l,p,i))
template<int N,int SUB,int SUP,bool H,bool NJ> struct T{
  typedef Fn<N,SUB,SUP,H,NJ> F; typedef Solver<F> S;
  struct In{Prob P;double rt,at,x0,xe,h;std::vector<double> y;
    In(Rng& r){P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.8),r.p(0.6)?r.u(0,3.5):r.u(0,1),r.p(0.15)?0:r.lg(-1,0.8));rt=r.lg(-7,-2);at=rt*r.lg(-1,1);
      x0=r.p(0.3)?0:r.u(-20,20);double dir=r.p(0.7)?1:-1,len=r.lg(-1,0.8);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));xe=x0+dir*len;h=dir*len*r.lg(-3,0.3);y.resize(N);for(auto&v:y)v=r.u(-2,2);}
    std::string str()const{return P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g at=%.3g y0=",x0,xe,h,rt,at)+vec(y);}
    Result go1(S& s,bool rec=true)const{Ctx c;c.P=&P;c.limit=1000000;return go(s,c,h,x0,xe,y,rec);}};
  static void run(long nq,long nt){
    std::string lay=sname()+fmt("n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);double rt0=1e-4,at0=1e-4;S* sh=new S(true,&at0,&rt0);
    cases("stats "+lay,scaled(nq,nt),[&](Rng& r){In Q(r);bool shared=r.p(0.5);S own(true,&Q.at,&Q.rt);S& s=shared?*sh:own;s.setTestPolicy(true,&Q.at,&Q.rt);int nmax=r.p(0.85)?10000:r.i(1,30);bool one=r.p(0.15);s.setNmax(nmax);s.performOnlyOneStep(one);
      Ctx c;c.P=&Q.P;c.limit=3000000;long thr=r.p(0.15)?r.i(1,80):-1;c.throwAt=thr;describe(Q.str()+fmt(" one=%d nmax=%d throwAt=%ld shared=%d",(int)one,nmax,thr,(int)shared));
      nreal=0;Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);std::string w=R.str();long acc=0,rej=0;double first=NAN;for(auto&a:R.at)if(a.acc){if(!acc)first=a.h;++acc;}else ++rej;
      bool ex=R.out==USEREX;count("integrations");count("calls of f",R.nf);count("attempted steps",R.at.size());count("rejections",rej);
      VCHECK(R.nacc==acc,"naccpt","reported %d accepted steps, %ld seen: %s",R.nacc,acc,w.c_str());
      VCHECK(R.nstep==(long)R.at.size(),"nstep","reported %d steps, %zu attempts seen: %s",R.nstep,R.at.size(),w.c_str());
      if(acc)VCHECK(R.first==first,"first-accepted-step","reported %.17g, first accepted step was %.17g",R.first,first);
      if(!NJ)VCHECK(R.njac==R.nj,"njac","reported %d Jacobians, %ld seen: %s",R.njac,R.nj,w.c_str());
      // one Jacobian per step, kept over its rejections
      if(R.out==RETURNED)VCHECK(R.njac==acc,"njac-per-step","%d Jacobians for %ld accepted steps: %s",R.njac,acc,w.c_str());
      VCHECK(R.ndec>=(long)R.at.size()&&R.ndec<=(long)R.at.size()+(R.out!=RETURNED),"ndec","reported %d decompositions for %zu attempts: %s",R.ndec,R.at.size(),w.c_str());
      if(!H){VCHECK(R.ndec==nreal,"ndec","reported %d decompositions, %ld seen: %s",R.ndec,nreal,w.c_str());count("factorizations",nreal);}
      if(R.out==RETURNED){const bool ndt=!RAUTO&&!RUSEDT;long want=(long)R.njac*(1+(NJ?N:0)+(ndt?1:0))+5L*R.at.size();VCHECK(R.nf==want,"calls-per-step","%ld right-hand side calls for %d steps and %zu attempts, expected %ld",R.nf,R.njac,R.at.size(),want);count("normal returns");
        VCHECK(c.ndt==(RAUTO||!RUSEDT?0:R.njac),"time-derivatives","%ld time derivatives for %d steps",c.ndt,R.njac);}
      (void)ex;sig("stats"+lay+fmt("%d %ld %ld",R.out,std::min(acc,20L),std::min(rej,8L)));if(st().nsamples<3)sample(st().group+": "+st().desc+" -> "+w);});
    delete sh;
    cases("one-step "+lay,scaled(nq/4,nt/4),[&](Rng& r){In Q(r);describe(Q.str());S s(true,&Q.at,&Q.rt);s.performOnlyOneStep(true);double x=Q.x0,h=Q.h;std::vector<double> y=Q.y;int k;
      for(k=0;k<12;k++){Ctx c;c.P=&Q.P;c.limit=300000;Result R=go(s,c,h,x,Q.xe,y);count("one-step calls");if(R.out!=RETURNED)break;
        VCHECK(R.acc().size()==1,"one-step-count","%zu accepted steps in one-step mode",R.acc().size());
        if(R.acc().size()==1){Attempt a=R.acc()[0];VCHECK(R.at.back().acc,"one-step-continues","attempts after the accepted step");VCHECK(R.x==a.t+a.h&&Result::bits(R.y,a.y),"one-step-result","x,y are not those of the accepted step");}
        x=R.x;y=R.y;h=R.hlast;VCHECK(std::isfinite(h)&&h!=0&&h*(Q.xe-Q.x0)>0,"one-step-next-step","getLastTimeStep()=%g",h);if(std::fabs(x-Q.xe)<=1e-14*std::fabs(Q.xe)+1e-300)break;}
      s.performOnlyOneStep(false);Result R=Q.go1(s);S f(true,&Q.at,&Q.rt);Result R0=Q.go1(f);VCHECK(R.same(R0),"one-step-sticks","after switching one-step mode off: %s, new object: %s",R.str().c_str(),R0.str().c_str());sig("one"+lay+fmt("%d",k));});
    cases("nmax "+lay,scaled(nq/4,nt/4),[&](Rng& r){In Q(r);S f(true,&Q.at,&Q.rt);Result R0=Q.go1(f);describe(Q.str()+fmt(" unlimited: %d attempts",R0.nstep));if(R0.out!=RETURNED)return;
      for(int m:{1,2,R0.nstep/2,R0.nstep-2,R0.nstep-1,R0.nstep,R0.nstep+1,R0.nstep+50})if(m>0){S s(true,&Q.at,&Q.rt);s.setNmax(m);for(int rep=0;rep<2;rep++){Result R=Q.go1(s);count("step limits tried");
        if(m>=R0.nstep)VCHECK(R.same(R0),"nmax-stops-early","nmax=%d, %d attempts needed: %s",m,R0.nstep,R.str().c_str());if(m<R0.nstep-1)VCHECK(R.out==LIBEX,"nmax-ignored","nmax=%d, %d attempts needed: %s",m,R0.nstep,R.str().c_str());
        if(R.out==LIBEX)VCHECK(R.nstep>=m&&R.nstep<=m+1,"nmax-inexact","nmax=%d: stopped after %d attempts",m,R.nstep);}sig("nmax"+lay+fmt("%d",std::min(m,50)));}});
    cases("safety "+lay,scaled(nq/4,nt/4),[&](Rng& r){In Q(r);double safe=r.u(0.3,0.98);describe(Q.str()+fmt(" safe=%g",safe));S s(true,&Q.at,&Q.rt);s.setSafe(safe);s.setGustafssonTest(false);
      for(int rep=0;rep<2;rep++){Result R=Q.go1(s);bool rej=false;for(size_t k=0;k+1<R.at.size();k++){Attempt&a=R.at[k],&b=R.at[k+1];double q=b.h/a.h,hn=1/std::max(1/6.,std::min(5.,std::sqrt(std::sqrt(a.err))/safe));if(a.acc&&rej)hn=std::min(hn,1.);
        bool end=std::fabs(b.t+b.h-Q.xe)<=2e-15*std::max(std::fabs(Q.xe),std::fabs(Q.x0));count("step sizes checked");
        VCHECK(end?q<=hn*(1+2e-4):std::fabs(q-hn)<=1e-9*hn||std::fabs(b.h)>=std::fabs(Q.xe-Q.x0)*(1-1e-9),"safety-factor","ratio %.9g after error %.9g with safety factor %g, expected %.9g",q,a.err,safe,hn);rej=!a.acc;}}
      sig("safe"+lay+fmt("%d",(int)(safe*20)));});
    cases("per component "+lay,scaled(nq/4,nt/4),[&](Rng& r){In Q(r);double a[N],q[N];for(int i=0;i<N;i++){a[i]=Q.at;q[i]=Q.rt;}describe(Q.str());S s(true,&Q.at,&Q.rt),t(false,a,q);Result R=Q.go1(s),R2=Q.go1(t);
      VCHECK(R.same(R2),"scalar-vs-component","scalar tolerances: %s, equal per-component ones: %s",R.str().c_str(),R2.str().c_str());count("scalar and component runs compared");s.setTestPolicy(false,a,q);Result R3=Q.go1(s);VCHECK(R3.same(R),"policy-switch","switching to equal per-component tolerances changes results");
      if(N==1)return;Prob D=Q.P;D.timedep=!RAUTO;for(int i=0;i<N;i++)for(int j=0;j<N;j++)if(i!=j)D.A[i*N+j]=D.B[i*N+j]=0;for(int i=0;i<N;i++){D.A[i*N+i]=-r.lg(-0.5,1.5);D.B[i*N+i]=r.u(-1,1);if(!RAUTO){D.c[i]=r.u(-2,2);D.w[i]=r.u(0.5,3);D.p[i]=r.u(0,6);}}
      std::vector<int> pm(N);for(int i=0;i<N;i++)pm[i]=i;for(int i=N-1;i>0;i--)std::swap(pm[i],pm[r.i(0,i)]);for(int i=0;i<N;i++){a[i]=Q.rt*r.lg(-3,2);q[i]=Q.rt*r.lg(-3,2);}
      Prob D2=D;double a2[N],q2[N];std::vector<double> y2(N);for(int i=0;i<N;i++){int k=pm[i];D2.A[i*N+i]=D.A[k*N+k];D2.B[i*N+i]=D.B[k*N+k];D2.c[i]=D.c[k];D2.w[i]=D.w[k];D2.p[i]=D.p[k];a2[i]=a[k];q2[i]=q[k];y2[i]=Q.y[k];}
      double xe=Q.x0+r.lg(-1,0.3),h=(xe-Q.x0)*0.01;S u(false,a,q),v(false,a2,q2);Ctx c,d;c.P=&D;d.P=&D2;c.limit=d.limit=1000000;Result U=go(u,c,h,Q.x0,xe,Q.y),V=go(v,d,h,Q.x0,xe,y2);
      VCHECK(U.out==V.out,"decoupled-outcome","%s / %s",U.str().c_str(),V.str().c_str());
      if(U.at.size()&&V.at.size()&&!H&&!NJ&&(RAUTO||RUSEDT)){double e1=U.at[0].err,e2=V.at[0].err;VCHECK(std::fabs(e1-e2)<=1e-5*(e1+e2)+1e-6,"component-tolerance-misplaced","first error estimate %.9g, after permuting components and tolerances %.9g",e1,e2);
        VCHECK(std::abs(U.nacc-V.nacc)<=2+U.nacc/20,"component-tolerance-misplaced","%d steps, %d after permuting components with their tolerances",U.nacc,V.nacc);count("permutations");}
      sig("comp"+lay);});
  }
};
int main(int a,char**b){init(a,b);
#if PART==0
  T<1,0,0,false,false>::run(600,12000);T<2,1,1,false,true>::run(600,12000);
#elif PART==1
  T<3,2,2,true,false>::run(600,12000);T<2,1,1,true,true>::run(600,12000);
#elif PART==2
  T<4,1,1,false,false>::run(600,12000);T<3,2,2,false,false>::run(600,12000);
#elif PART==3
  T<4,2,1,false,true>::run(600,12000);
#endif
  return finish();}
