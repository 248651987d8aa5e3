// C07: one history of calls of one solver; included by the program built with the log and by the one built without.
#if COMP==2
#define RODAS
#endif
#include "vf.hpp"
#if COMP<=2
#include "radau_run.hpp"
#else
#include "rock.hpp"
#endif
#include <memory>
using namespace vf;
#if COMP<=2
typedef std::vector<Attempt> Seen;
template<int N,int SUB,int SUP,bool H,bool NJ,class CB> void scen(Rng&r,CB cb){
  typedef Fn<N,SUB,SUP,H,NJ> F;typedef Solver<F> S;double rt=r.lg(-7,-2),at=rt*r.lg(-1,1);S s(true,&at,&rt);int nc=r.i(1,4);
  for(int q=0;q<nc;q++){double slow=r.lg(-3,0);Prob P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.7),r.u(0,3.5),r.p(0.2)?0:r.lg(-1,1),slow);
    s.performOnlyOneStep(r.p(0.1));s.setGustafssonTest(r.p(0.7));s.setNmax(r.p(0.8)?10000:r.i(1,30));
#ifndef RODAS
    int nit=r.pick({7,7,7,4,4,3,2,2});s.setMaxIterationsNewton(nit);if(nit<3)s.setNmax(300);s.setRecomputeJacobianTreshold(r.pick({0.001,0.001,-1.,0.1,1e9}));
#endif
    double dir=r.p(0.7)?1:-1,len=r.lg(-1,1.3)/slow;if(dir<0)len=std::min(len,5/(1e-9+P.lip));double x=r.p(0.3)?0:r.u(-10,10),xe=x+dir*len,h=dir*len*r.lg(-3,0.4);
    Ctx c;c.P=&P;c.limit=20000;int kind=r.i(0,9);long w=r.i(1,r.pick({1,8,30,200}));c.badKind=r.i(0,2);
    if(kind==1)c.throwAt=w;if(kind==2){c.nanAt=w;c.nanForever=r.p(0.5);s.setNmax(100);}if(kind==3)c.jthrowAt=r.i(1,4);if(kind==4){c.jnanAt=r.i(1,3);c.jnanForever=true;}if(kind==5)h=r.pick({0.,(double)NAN,-h});
    std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.2)?50:1);double x0=x;
    Result R=go(s,c,h,x,xe,y);(void)x0;cb(s,R,R.at,P.name+fmt(" call %d of %d x=%.17g xe=%.17g h=%.17g kind=%d at %ld y0=",q+1,nc,x,xe,h,kind,w)+vec(y),x,std::vector<double>{(double)R.out,R.x,(double)R.nstep,(double)R.nacc,(double)R.nrej,(double)R.njac,(double)R.ndec,(double)R.nf,(double)R.nj,R.hlast,R.first});}}
template<class CB> void scenario(Rng&r,CB cb){
#if COMP==0
  switch(r.i(0,3)){case 0:scen<1,0,0,false,false>(r,cb);break;case 1:scen<2,1,1,false,true>(r,cb);break;case 2:scen<5,1,2,false,false>(r,cb);break;case 3:scen<4,3,3,false,false>(r,cb);break;}
#elif COMP==1
  switch(r.i(0,2)){case 0:scen<1,0,0,true,false>(r,cb);break;case 1:scen<3,2,2,true,false>(r,cb);break;case 2:scen<4,3,3,true,true>(r,cb);break;}
#else
  switch(r.i(0,3)){case 0:scen<1,0,0,false,false>(r,cb);break;case 1:scen<2,1,1,true,false>(r,cb);break;case 2:scen<4,1,2,false,true>(r,cb);break;case 3:scen<4,3,3,false,false>(r,cb);break;}
#endif
}
#else
typedef std::vector<RStep> Seen;
struct Result{int out;std::vector<double> y;double x;std::string str()const{return fmt("outcome %d ",out)+vec(y);}};
template<class CB> void scenario(Rng&r,CB cb){int n=r.pick({1,2,3,5,8,16});FR F;F.n=n;RCtx c0;F.c=&c0;odes::Rock4<FR> S(F);double*y=odes::allocDoubleArray(n);int nc=r.i(1,4);
  for(int q=0;q<nc;q++){double slow=r.lg(-3,0);Prob P=rockProb(r,n,r.u(0,2.5),r.p(0.3)?0:r.lg(-1,0.8),r.p(0.3));for(auto&v:P.A)v*=slow;for(auto&v:P.B)v*=slow;for(auto&v:P.c)v*=slow;P.lip*=slow;
    S.setTolerances(r.lg(-7,-2),r.lg(-7,-2));RCtx c;c.P=&P;c.rho_=P.lip*r.u(1,1.4);c.limit=20000;double len=r.lg(-1,0.9)/slow,t0=r.u(-10,10),te=t0+len,h=len*r.lg(-2,0.4);int kind=r.i(0,7);long w=r.i(1,r.pick({1,8,30,200}));c.badKind=r.i(0,2);
    if(kind==1)c.throwAt=w;if(kind==2){c.nanAt=w;c.nanForever=r.p(0.5);}if(kind==3)c.rthrowAt=r.i(1,4);if(kind==4)h=r.pick({0.,(double)NAN,-h});
    F.c=&c;for(int i=0;i<n;i++)y[i]=r.u(-2,2);std::string d=P.name+fmt(" call %d of %d t0=%.17g te=%.17g h=%.17g kind=%d at %ld rho=%.17g y0=",q+1,nc,t0,te,h,kind,w,c.rho_)+vec(y,n);
    Result R;R.out=0;RMon m;m.start(&c);try{S(y,t0,te,h);}catch(odes::OdesException&){R.out=1;}catch(UserEx&){R.out=2;}catch(Runaway&){R.out=3;}m.stop();R.y.assign(y,y+n);R.x=R.out==0?te:NAN;
    cb(S,R,m.at,d,t0,std::vector<double>{(double)R.out,(double)S.NbSteps(),(double)S.NbAccepted(),(double)S.NbRejected(),(double)S.NbRhsComputed(),(double)S.NbStages(),S.LastAcceptedTimeStep()});}
  F.c=&c0;odes::destroyDoubleArray(y);}
#endif
