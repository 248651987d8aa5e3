// K06: counters against what is observed from outside; reproducibility; histories of calls.
#include "rock.hpp"
#include <thread>
using namespace vf;
#ifndef PART
#define PART 0
#endif
struct Case{Prob P;std::vector<double> y;double t0,te,h,at,rt,rho;};
static Case make(Rng&r,double maxstiff=4){Case C;int n=r.pick({1,2,3,4,5,8,13,21});C.P=rockProb(r,n,r.u(0,r.pick({1.,maxstiff})),r.p(0.3)?0:r.lg(-1,0.8),r.p(0.3));C.rt=r.lg(-7,-1);C.at=C.rt*r.lg(-1,1);double len=r.lg(-1.5,0.5);C.t0=r.p(0.3)?0:r.u(-5,5);C.te=C.t0+len;C.h=len*r.lg(-3,0.5);C.rho=C.P.lip*r.u(1,1.3);C.y.resize(n);for(auto&v:C.y)v=r.u(-2,2);return C;}
static std::string str(const Case&C){return C.P.name+fmt(" t0=%.17g te=%.17g h=%.17g at=%.3g rt=%.3g rho=%.17g y0=",C.t0,C.te,C.h,C.at,C.rt,C.rho)+vec(C.y);}
static RResult fresh(const Case&C,bool rec=true){RCtx c;c.P=&C.P;c.rho_=C.rho;c.limit=400000;FR F{&c,C.P.n};odes::Rock4<FR> S(F);S.setTolerances(C.at,C.rt);return goRock(S,F,c,C.t0,C.te,C.h,C.y,rec);}
int main(int ac,char**av){init(ac,av);
#if PART==0
  cases("counters",scaled(1200,30000),[&](Rng& r){Case C=make(r);describe(str(C));int n=C.P.n;RCtx c;c.P=&C.P;c.limit=400000;c.rho_=C.rho;if(r.p(0.3)){double f=r.u(0.5,3);c.onRho=[&,f]{return C.rho*(c.nrho%2?1:f);};}
    FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(C.at,C.rt);int times=r.i(1,3);for(int q=0;q<times;q++){RCtx&k=c;YArr A(C.y);RResult R=goRock(S,F,k,C.t0,C.te,C.h*(q+1),A.p);long acc=0,rej=0,st=0,prev=1;long f0=R.at.empty()?0:R.at[0].nf;(void)f0;double hl=0;long base=k.nf-R.nf;
      for(auto&a:R.at){(a.acc?acc:rej)++;if(a.acc)hl=a.h;st=std::max(st,a.nf-base-prev);prev=a.nf-base;}
      if(R.out==RRUN){count("stopped");return;}
      VCHECK(R.fc==R.nf,"rhs-count","%d right-hand sides reported, %ld seen",R.fc,R.nf);VCHECK(R.ns==(int)R.at.size(),"step-count","%d steps reported, %zu seen",R.ns,R.at.size());VCHECK(R.nacc==acc,"accepted-count","%d accepted steps reported, %ld seen",R.nacc,acc);VCHECK(R.nrej==rej,"rejected-count","%d rejected steps reported, %ld seen",R.nrej,rej);
      VCHECK(acc==0||R.hlast==hl,"last-step","last step %.17g reported, %.17g seen",R.hlast,hl);VCHECK(R.at.empty()||S.NbStages()==st,"stages-count","%d stages reported, %ld seen",S.NbStages(),st);VCHECK(S.nbUnkn()==n,"size","%d",S.nbUnkn());
      // independently of the hook: the calls of an attempt are the tabulated degree + 4
      count("normal returns",R.out==RRET);count("accepted steps",acc);count("rejected steps",rej);sig(fmt("%d %ld %ld %ld",n,std::min(acc,40l),std::min(rej,20l),st));}
    if(st().nsamples<3)sample(st().desc);});
#elif PART==1
  cases("histories",scaled(250,6000),[&](Rng& r){int k=r.i(2,4);std::vector<Case> C;std::vector<RResult> G;int n=0;for(int i=0;i<k;i++){C.push_back(make(r,3));if(i==0)n=C[0].P.n;else{while(C[i].P.n!=n)C[i]=make(r,3);}C[i].at=C[0].at;C[i].rt=C[0].rt;}
    describe(fmt("histories k=%d ",k)+str(C[0]));for(auto&q:C)G.push_back(fresh(q));for(int i=0;i<k;i++)VCHECK(fresh(C[i]).same(G[i]),"new-objects-differ","case %d",i);
    RCtx c0;c0.P=&C[0].P;FR F{&c0,n},F2{&c0,n};odes::Rock4<FR> S(F),T(F2);S.setTolerances(C[0].at,C[0].rt);T.setTolerances(C[0].at,C[0].rt);YArr shared(C[0].y);
    int len=r.i(4,9);for(int q=0;q<len;q++){int i=r.i(0,k-1);RCtx c;c.P=&C[i].P;c.rho_=C[i].rho;c.limit=400000;int how=r.i(0,5);odes::Rock4<FR>&X=r.p(0.5)?S:T;FR&FX=&X==&S?F:F2;
      std::string w=fmt("call %d, case %d, kind %d",q,i,how);
      if(how==0){c.throwAt=r.i(1,(int)G[i].nf);YArr A(C[i].y);RResult R=goRock(X,FX,c,C[i].t0,C[i].te,C[i].h,A.p);VCHECK(R.out==RUSR,"exception-lost","%s",w.c_str());count("interrupted calls");continue;}
      if(how==1){ // another integration inside of a right-hand side, with the other object
        odes::Rock4<FR>&Y=&X==&S?T:S;FR&FY=&X==&S?F2:F;int j=r.i(0,k-1);long at=r.i(1,(int)G[i].nf);RResult in;bool done=false;RCtx c2;c2.P=&C[j].P;c2.rho_=C[j].rho;c2.limit=400000;
        c.onF=[&](const double*,const double*){if(c.nf==at&&!done){done=true;in=goRock(Y,FY,c2,C[j].t0,C[j].te,C[j].h,C[j].y,false);}};
        RResult R=goRock(X,FX,c,C[i].t0,C[i].te,C[i].h,C[i].y,false);VCHECK(R.same(G[i]),"nested-outer-differs","%s: %s expected %s",w.c_str(),R.str().c_str(),G[i].str().c_str());VCHECK(in.same(G[j]),"nested-inner-differs","%s: %s expected %s",w.c_str(),in.str().c_str(),G[j].str().c_str());count("nested calls");count("calls compared",2);continue;}
      if(how==2)X.setTolerances(C[0].at,C[0].rt);
      RResult R;if(how==3){shared.set(C[i].y);R=goRock(X,FX,c,C[i].t0,C[i].te,C[i].h,shared.p,false);}else R=goRock(X,FX,c,C[i].t0,C[i].te,C[i].h,C[i].y,how==4);
      VCHECK(R.same(G[i]),"history-matters","%s: %s, with a new object %s",w.c_str(),R.str().c_str(),G[i].str().c_str());count("calls compared");sig(fmt("hi%d %d %d",n,how,q));}
    if(st().nsamples<3)sample(st().desc);});
#elif PART==2
  cases("threads",scaled(30,400),[&](Rng& r){int k=r.i(2,6);std::vector<Case> C;std::vector<RResult> G,R(k);for(int i=0;i<k;i++){C.push_back(make(r,2));G.push_back(fresh(C[i],false));}describe(fmt("threads k=%d ",k)+str(C[0]));
    std::vector<std::thread> t;std::vector<int> bad(k,0);for(int i=0;i<k;i++)t.emplace_back([&,i]{for(int q=0;q<4;q++){R[i]=fresh(C[i],false);if(!R[i].same(G[i]))bad[i]=1;}});for(auto&x:t)x.join();for(int i=0;i<k;i++){VCHECK(!bad[i],"threads-differ","%s alone %s",R[i].str().c_str(),G[i].str().c_str());count("calls compared",4);}count("thread runs");sig(fmt("th%d %d",k,C[0].P.n));});
#endif
  return finish();}
