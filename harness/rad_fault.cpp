// R04, S04: failing right-hand sides and Jacobians at every call, singular iteration
// matrices, step limits: bounded work, last accepted point, object still usable.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> struct T{
  typedef Fn<N,SUB,SUP,H,NJ> F; typedef Solver<F> S;
  static std::string lay(){return sname()+fmt("n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);}
  struct Setup{Prob P;double at,rt,x0,xe,h;std::vector<double> y;bool one,gus;int nit,nmax;double thet;
    Setup(Rng& r){P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.8),r.p(0.5)?r.u(0,3):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.8));rt=r.lg(-7,-2);at=rt*r.lg(-1,1);
      x0=r.p(0.3)?0:r.u(-20,20);double dir=r.p(0.7)?1:-1,len=r.lg(-1.5,0.5);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));xe=x0+dir*len;h=dir*len*r.lg(-3,0.3);
      y.resize(N);for(auto&v:y)v=r.u(-2,2);one=r.p(0.1);gus=r.p(0.7);nit=r.p(0.7)?7:r.i(3,10);nmax=r.p(0.7)?10000:r.i(1,300);thet=r.p(0.7)?0.001:r.pick({-1.,0.1,1e9});}
    void set(S& s)const{s.performOnlyOneStep(one);s.setGustafssonTest(gus);setNit(s,nit,0);s.setNmax(nmax);setThet(s,thet,0);}
    // attempts<=nmax+1, each with at most nit Newton iterations of 3 calls, an error estimate, a Jacobian, one call after acceptance
    long bound()const{return (long)(nmax+2)*((isRodas?6:3*nit)+3+(NJ?N:0))+N+2;}
    std::string str()const{return P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g at=%.3g one=%d gus=%d nit=%d nmax=%d thet=%g y0=",x0,xe,h,rt,at,one,gus,nit,nmax,thet)+vec(y);}
  };
  //! what must hold after any call, faulty or not
  static void after(const Setup& Q,Ctx& c,const Result& R,const std::vector<double>& y0,double x0,const char* what){
    VCHECK(R.out!=RUNAWAY,"unbounded-work","%s: more than %ld right-hand side calls",what,Q.bound());
    VCHECK(R.nj<=Q.nmax+2+1,"too-many-jacobians","%s: %ld Jacobians for nmax=%d",what,R.nj,Q.nmax);
    double x=x0;std::vector<double> yl(y0);long na=0;for(auto&a:R.at)if(a.acc){x=a.t+a.h;yl=a.y;++na;
      VCHECK(finite(a.y.data(),N)&&std::isfinite(a.h),"nonfinite-step-accepted","%s: accepted step at t=%.17g h=%.17g gives %s",what,a.t,a.h,vec(a.y).c_str());
      VCHECK(isRodas?a.err<=1:a.err<1,"accepted-with-bad-error","%s: accepted with error estimate %g",what,a.err);}
    // a right-hand side that is not finite where a step takes it for its starting slope makes every estimate from there not a number
    if(c.nanAt>0&&!NJ&&c.faultsFired){long prev=0;bool pacc=true,slope=false;for(auto&a:R.at){long k=c.nanAt;if(pacc&&k==prev+1)slope=true;bool inside=isRodas&&k>prev&&k<=a.nf;
        if(a.acc)VCHECK(!slope&&!inside,"accepted-with-bad-evaluation","%s: the step accepted at t=%.17g h=%.17g used it",what,a.t,a.h);
        if(slope||inside)count("attempts using a value that is not finite");prev=a.nf;pacc=a.acc;}}
    VCHECK((long)R.at.size()<=Q.nmax+1,"too-many-attempts","%s: %zu attempts, nmax=%d",what,R.at.size(),Q.nmax);
    VCHECK(R.x==x,"x-not-last-accepted","%s (%s): x=%.17g, last accepted step ended at %.17g",what,oname(R.out),R.x,x);
    VCHECK(Result::bits(R.y,yl),"y-not-last-accepted","%s (%s): y=%s, last accepted solution %s",what,oname(R.out),vec(R.y).c_str(),vec(yl).c_str());
    if(R.out==RETURNED){VCHECK(finite(R.y.data(),N),"nonfinite-return","%s: returned normally with %s",what,vec(R.y).c_str());
      VCHECK(Q.one||std::fabs(R.x-Q.xe)<=1e-14*std::max(std::fabs(Q.xe),std::fabs(Q.x0)),"returned-early","%s: returned normally at x=%.17g, end %.17g",what,R.x,Q.xe);}
    count(std::string("outcome: ")+oname(R.out));
  }
  static void reuse(const Setup& Q,S& s,const Result& fresh,const char* what){ // the object must now behave as a new one
    Ctx c;c.P=&Q.P;c.limit=Q.bound();Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);
    VCHECK(R.same(fresh),"not-usable-after-failure","%s: next call gives %s, a new object gives %s",what,R.str().c_str(),fresh.str().c_str());
    count("reuse after failure");
  }
  static void run(long nq,long nt){
    // every call of the right-hand side and of the Jacobian, one fault each, over all calls of a run
    cases("throw "+lay(),scaled(nq,nt),[&](Rng& r){
      Setup Q(r);describe(Q.str());S s0(true,&Q.at,&Q.rt);Q.set(s0);Ctx c0;c0.P=&Q.P;c0.limit=Q.bound();Result R0=go(s0,c0,Q.h,Q.x0,Q.xe,Q.y);after(Q,c0,R0,Q.y,Q.x0,"no fault");
      long K=R0.nf,J=R0.nj;long st=K>120?1+(long)(K/100):1;
      S s(true,&Q.at,&Q.rt);Q.set(s);
      for(long k=1;k<=K;k+=(k<60?1:st)){Ctx c;c.P=&Q.P;c.limit=Q.bound();c.throwAt=k;Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);std::string w=fmt("exception at call %ld of %ld",k,K);
        VCHECK(R.out==USEREX,"exception-swallowed","%s: %s",w.c_str(),R.str().c_str());VCHECK(c.nf==k,"called-after-exception","%s: called again",w.c_str());
        after(Q,c,R,Q.y,Q.x0,w.c_str());count("fault points: exception in f");
        // prefix property: steps accepted before the fault are those of the run without it
        auto a=R.acc(),b=R0.acc();bool pre=a.size()<=b.size();for(size_t i=0;pre&&i<a.size();i++)pre=a[i].t==b[i].t&&a[i].h==b[i].h&&Result::bits(a[i].y,b[i].y);
        VCHECK(pre,"history-changed-before-fault","%s: accepted steps before the fault differ",w.c_str());
        if(k%5==1||k+st>K)reuse(Q,s,R0,w.c_str()); sig(fmt("throw f %d%d%d%d %zu %ld",N,SUB,H,NJ,a.size(),std::min(k,40L)));}
      for(long k=1;k<=J&&!NJ;k+=(k<30?1:J/20+1)){Ctx c;c.P=&Q.P;c.limit=Q.bound();c.jthrowAt=k;Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);std::string w=fmt("exception at Jacobian %ld of %ld",k,J);
        VCHECK(R.out==USEREX,"exception-swallowed","%s: %s",w.c_str(),R.str().c_str());after(Q,c,R,Q.y,Q.x0,w.c_str());count("fault points: exception in Jacobian");reuse(Q,s,R0,w.c_str());}
      if(vf::st().nsamples<2)sample(vf::st().group+": "+vf::st().desc+fmt(" -> %ld calls, %ld Jacobians",K,J));
    });
#ifdef RODAS
    if(!RAUTO&&RUSEDT)cases("derivative "+lay(),scaled(nq,nt),[&](Rng& r){
      Setup Q(r);describe(Q.str());S s0(true,&Q.at,&Q.rt);if(Q.nmax>200)Q.nmax=200;Q.set(s0);Ctx c0;c0.P=&Q.P;c0.limit=Q.bound();Result R0=go(s0,c0,Q.h,Q.x0,Q.xe,Q.y);S s(true,&Q.at,&Q.rt);Q.set(s);
      for(long k=1;k<=c0.ndt&&k<25;k++){Ctx c;c.P=&Q.P;c.limit=Q.bound();bool thr=k%2;(thr?c.dthrowAt:c.dnanAt)=k;Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);std::string w=fmt("%s at time derivative %ld of %ld",thr?"exception":"NaN",k,c0.ndt);
        after(Q,c,R,Q.y,Q.x0,w.c_str());count("fault points: time derivative");if(thr)VCHECK(R.out==USEREX,"exception-swallowed","%s: %s",w.c_str(),R.str().c_str());
        else VCHECK(R.out==LIBEX,"nan-derivative-accepted","%s: %s",w.c_str(),R.str().c_str());
        if(k%3==1)reuse(Q,s,R0,w.c_str());sig(fmt("dt %d%d%d%d %d %ld",N,SUB,H,NJ,thr,k));}});
#endif
    cases("nan "+lay(),scaled(nq,nt),[&](Rng& r){
      Setup Q(r);describe(Q.str());S s0(true,&Q.at,&Q.rt);Q.set(s0);Ctx c0;c0.P=&Q.P;c0.limit=Q.bound();Result R0=go(s0,c0,Q.h,Q.x0,Q.xe,Q.y);
      if(Q.nmax>400){Q.nmax=400;Q.set(s0);c0.resetCounts();R0=go(s0,c0,Q.h,Q.x0,Q.xe,Q.y);}
      long K=R0.nf,J=R0.nj;long st=K>30?1+K/25:1; S s(true,&Q.at,&Q.rt);Q.set(s);
      std::vector<LD> ref;bool have=false;
      if(R0.out==RETURNED&&!Q.one)have=refSol(Q.P,Q.x0,Q.y,Q.xe,1e-11L,ref,200);
      auto judge=[&](const Result& R,const std::string& w){
        // a normal return must come with a solution of the problem, fault or not
        if(R.out==RETURNED&&have){LD e=0;for(int i=0;i<N;i++)e=std::max(e,fabsl(R.y[i]-ref[i])/(Q.at+Q.rt*fabsl(ref[i])));LD e0=0;for(int i=0;i<N;i++)e0=std::max(e0,fabsl(R0.y[i]-ref[i])/(Q.at+Q.rt*fabsl(ref[i])));
          maxv("global error over tolerance after a transient fault",(double)e);
          VCHECK(e<=400+10*e0,"fault-taken-into-solution","%s: returned normally with error %.3Lg tolerances (%.3Lg without fault): %s exact %s",w.c_str(),e,e0,vec(R.y).c_str(),vec(ref).c_str());count("normal returns judged");}};
      for(long k=1;k<=K;k+=(k<25?1:st)){int kind=r.i(0,2);bool forever=r.p(0.4);Ctx c;c.P=&Q.P;c.limit=Q.bound();c.nanAt=k;c.badKind=kind;c.nanForever=forever;
        std::string w=fmt("%s from f %s call %ld of %ld",kind==0?"NaN":kind==1?"Inf":"-Inf",forever?"from":"at",k,K);
        Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);after(Q,c,R,Q.y,Q.x0,w.c_str());count(forever?"fault points: lasting NaN in f":"fault points: transient NaN in f");
        if(!forever||k>K-3)judge(R,w); if(k%4==1)reuse(Q,s,R0,w.c_str());
        sig(fmt("nan f %d%d%d%d %d %d %d %ld",N,SUB,H,NJ,kind,forever,R.out,std::min(k,30L)));}
      for(long k=1;k<=J&&k<40&&!NJ;k++){int kind=r.i(0,2);bool forever=r.p(0.4);Ctx c;c.P=&Q.P;c.limit=Q.bound();c.jnanAt=k;c.badKind=kind;c.jnanForever=forever;
        std::string w=fmt("%s from Jacobian %s call %ld of %ld",kind==0?"NaN":kind==1?"Inf":"-Inf",forever?"from":"at",k,J);
        Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);after(Q,c,R,Q.y,Q.x0,w.c_str());judge(R,w);count("fault points: NaN in Jacobian");if(k%3==1)reuse(Q,s,R0,w.c_str());}
    });
    // NaN or blow up at a point of the solution rather than at a call
    cases("region "+lay(),scaled(nq*2,nt*2),[&](Rng& r){
      Setup Q(r);Q.nmax=r.i(5,300);Q.one=false;describe(Q.str());S s(true,&Q.at,&Q.rt);Q.set(s);double tb=Q.x0+(Q.xe-Q.x0)*r.u(0,1);int kind=r.i(0,2);bool thr=r.p(0.3);double dir=Q.xe>Q.x0?1:-1;
      Ctx c;c.P=&Q.P;c.limit=Q.bound();bool arm=false;c.onF=[&](double t,const double*,const double*){arm=(t-tb)*dir>0;if(arm&&thr)throw UserEx{2};};
      struct PP:Prob{};
      // the probe adds the bad value through nanAt of the next call
      auto f0=c.onF;c.onF=[&](double t,const double*a,const double*b){f0(t,a,b);c.nanAt=arm?c.nf:-1;};c.badKind=kind;
      Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);std::string w=fmt("%s beyond t=%.17g",thr?"exception":kind==0?"NaN":kind==1?"Inf":"-Inf",tb);
      after(Q,c,R,Q.y,Q.x0,w.c_str());count("fault regions");
      VCHECK(R.out!=RETURNED||c.nanAt<0,"returned-over-a-bad-region","%s: returned normally",w.c_str());
      VCHECK((R.x-tb)*dir<=1e-12*std::fabs(tb)+1e-300,"accepted-inside-bad-region","%s: x=%.17g",w.c_str(),R.x);
    });
    // step limits, bad arguments and a blow-up in finite time
    cases("limits "+lay(),scaled(nq*2,nt*2),[&](Rng& r){
      Setup Q(r);Q.nmax=r.i(1,12);Q.one=false;Q.rt=1e-8;Q.at=1e-10;describe(Q.str());S s(true,&Q.at,&Q.rt);Q.set(s);Ctx c;c.P=&Q.P;c.limit=Q.bound();Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);after(Q,c,R,Q.y,Q.x0,"small nmax");
      VCHECK(R.out==RETURNED||R.out==LIBEX,"unexpected-outcome","%s",R.str().c_str());if(R.out==LIBEX)count("stopped by the step limit");
      // go on from where it stopped: the state must be good enough to finish
      double x=R.x;std::vector<double> y=R.y;int guard=0;s.setNmax(20000);Q.nmax=20000;
      if(R.out==LIBEX){Ctx d;d.P=&Q.P;d.limit=Q.bound();Result R2=go(s,d,Q.h,x,Q.xe,y);after(Q,d,R2,y,x,"continued");(void)guard;
        std::vector<LD> ref; if(R2.out==RETURNED&&refSol(Q.P,Q.x0,Q.y,Q.xe,1e-12L,ref,400)){LD e=0;for(int i=0;i<N;i++)e=std::max(e,fabsl(R2.y[i]-ref[i])/(1+fabsl(ref[i])));VCHECK(e<=1e-5L,"continuation-wrong","continued after the step limit: error %.3Lg",e);count("continued to the end after the step limit");}}
      // unusual arguments
      for(double h:{(double)NAN,(double)INFINITY,-(double)INFINITY,0.,1e-320,1e300}){Ctx d;d.P=&Q.P;Q.nmax=50;s.setNmax(50);d.limit=Q.bound();Result R3=go(s,d,h,Q.x0,Q.xe,Q.y);after(Q,d,R3,Q.y,Q.x0,fmt("h=%g",h).c_str());}
      for(double xe:{(double)NAN,(double)INFINITY,Q.x0}){Setup W(Q);W.xe=xe;Ctx d;d.P=&Q.P;d.limit=W.bound();Result R3=go(s,d,Q.h,Q.x0,xe,Q.y);VCHECK(R3.out!=RUNAWAY,"unbounded-work","xe=%g",xe);VCHECK(R3.out!=RETURNED||finite(R3.y.data(),N),"nonfinite-return","xe=%g",xe);}
      count("argument faults",9);
    });
    // exactly singular iteration matrix: J = (u1/h) I for the real system at the first step
    if(!NJ)cases("singular "+lay(),scaled(nq/2+1,nt/2+1),[&](Rng& r){
      Setup Q(r);Q.one=false;describe(Q.str());S s0(true,&Q.at,&Q.rt);Q.set(s0);Ctx c0;c0.P=&Q.P;c0.limit=Q.bound();Result R0=go(s0,c0,Q.h,Q.x0,Q.xe,Q.y);
      // the probe's Jacobian is replaced by the shift of the iteration matrix of the first step
      struct JF:F{ };
      double hh=std::min(std::fabs(Q.h),std::fabs(Q.xe-Q.x0))*(Q.xe>Q.x0?1:-1); if(std::fabs(hh)<1e-15)return;
      if((Q.x0+hh*1.0001-Q.xe)*(Q.xe>Q.x0?1:-1)>0)hh=Q.xe-Q.x0;
      double U1=(6.e+0+pow(81.e+0,(1.e+0/3.e+0))-pow(9.e+0,(1.e+0/3.e+0)))/30.e+0;U1=1.0/U1; double sh=isRodas?1./(hh*0.25):U1/hh;
      S s(true,&Q.at,&Q.rt);Q.set(s);Prob B=Q.P;B.timedep=false;int z=r.i(0,N-1);for(auto&v:B.A)v=0;for(auto&v:B.B)v=0;for(int i=0;i<N;i++)B.A[i*N+i]=(i==z||H||r.p(0.3))?sh:-1-i;
      Ctx c;c.P=&B;c.limit=Q.bound();Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);after(Q,c,R,Q.y,Q.x0,"singular iteration matrix");
      if(R.out==LIBEX)count("singular matrices refused"); reuse(Q,s,R0,"singular iteration matrix");
    });
  }
};
int main(int a,char**b){init(a,b);
#if PART==0
  T<1,0,0,false,false>::run(25,250);T<2,1,1,false,true>::run(25,250);
#elif PART==1
  T<3,2,2,true,false>::run(25,250);T<2,1,1,true,true>::run(25,250);
#elif PART==2
  T<4,1,1,false,false>::run(25,250);
#elif PART==3
  T<4,2,1,false,true>::run(25,250);
#elif PART==4
  T<3,2,2,false,false>::run(25,250);
#endif
  return finish();}
