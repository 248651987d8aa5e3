// K05: exceptions and values that are not finite, at every call of the right-hand side and of the spectral radius.
#include "rock.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
struct Case{Prob P;std::vector<double> y;double t0,te,h,tol,rho;};
static Case make(Rng&r){Case C;int n=r.pick({1,2,3,4,5,8,13});C.P=rockProb(r,n,r.u(0,r.pick({1.,3.})),r.p(0.3)?0:r.lg(-1,0.6),r.p(0.3));C.tol=r.lg(-7,-1);double len=r.lg(-1.5,0.5);C.t0=r.p(0.3)?0:r.u(-5,5);C.te=C.t0+len;C.h=len*r.lg(-2,0.2);C.rho=C.P.lip*r.u(1,1.3);C.y.resize(n);for(auto&v:C.y)v=r.u(-2,2);
  describe(C.P.name+fmt(" t0=%.17g te=%.17g h=%.17g tol=%.3g rho=%.17g y0=",C.t0,C.te,C.h,C.tol,C.rho)+vec(C.y));return C;}
static void setup(RCtx&c,const Case&C,long lim){c.P=&C.P;c.rho_=C.rho;c.limit=lim;}
enum Kind{THROWF,NANF,NANFOR,THROWR,BADR};static const char*kn[]={"exception in f","NaN or infinity in f","lasting NaN in f","exception in rho","spectral radius not finite"};
int main(int ac,char**av){init(ac,av);
  cases(fmt("fault %d",PART),scaled(60,1200),[&](Rng& r){Case C=make(r);int n=C.P.n;
    RCtx g;setup(g,C,100000);FR G{&g,n};RResult good;{odes::Rock4<FR> S(G);S.setTolerances(C.tol,C.tol);good=goRock(S,G,g,C.t0,C.te,C.h,C.y);}if(good.out!=RRET){count("not a usable problem");return;}
    long lim=good.nf*3+20000;
    for(int kind=0;kind<5;kind++){long N=kind>=THROWR?good.nrho:good.nf;std::vector<long> at;if(N<=60)for(long k=1;k<=N;k++)at.push_back(k);else{for(long k=1;k<=20;k++)at.push_back(k);for(int q=0;q<40;q++)at.push_back(r.i(21,(int)N));}
      for(long k:at){RCtx c;setup(c,C,lim);FR F{&c,n};c.badKind=r.i(0,2);if(kind==THROWF)c.throwAt=k;if(kind==NANF)c.nanAt=k;if(kind==NANFOR){c.nanAt=k;c.nanForever=true;}if(kind==THROWR)c.rthrowAt=k;if(kind==BADR)c.rbadAt=k;
        int life=r.i(0,3);auto S=std::make_unique<odes::Rock4<FR>>(F);S->setTolerances(C.tol,C.tol);double*y=odes::allocDoubleArray(n);std::copy(C.y.begin(),C.y.end(),y);double*other=odes::allocDoubleArray(n);for(int i=0;i<n;i++)other[i]=i+0.5;
        RResult R=goRock(*S,F,c,C.t0,C.te,C.h,y);std::string w=fmt("%s at call %ld (kind %d): ",kn[kind],k,c.badKind);count(std::string("fault points: ")+kn[kind]);if(!c.faultsFired){viol("fault-not-reached",w);}
        std::vector<double> last(C.y);for(auto&a:R.at)if(a.acc)last=a.y;
        if(kind==NANF||kind==NANFOR){long prev=0;for(auto&a:R.at){bool in=kind==NANF?k>prev&&k<=a.nf:k<=a.nf;if(in)count("attempts using a value that is not finite");
            VCHECK(!in||!a.acc,"accepted-with-bad-evaluation","%sthe step accepted at t=%.17g h=%.17g used it",w.c_str(),a.t,a.h);VCHECK(!a.acc||a.err<1,"accepted-with-bad-error","%saccepted with error estimate %g",w.c_str(),a.err);prev=a.nf;}}
        VCHECK(R.out!=RRUN,"unbounded","%smore than %ld calls (%ld without faults)",w.c_str(),lim,good.nf);
        if(kind==THROWF||kind==THROWR)VCHECK(R.out==RUSR,"exception-lost","%s%s",w.c_str(),R.str().c_str());
        else{VCHECK(R.out==RRET||R.out==RLIB,"outcome","%s%s",w.c_str(),R.str().c_str());count(R.out==RRET?"recovered":"refused");
          if(kind==NANFOR)VCHECK(R.out==RLIB,"lasting-nan-not-refused","%s%s",w.c_str(),R.str().c_str());}
        if(R.out==RRET)VCHECK(finite(R.y.data(),n),"not-finite","%sreturned normally with y=%s",w.c_str(),vec(R.y).c_str());
        VCHECK(R.y==last||(memcmp(R.y.data(),last.data(),8*n)==0),"y-not-last-accepted","%sthe caller's pointer designates %s, the last accepted solution is %s",w.c_str(),vec(R.y).c_str(),vec(last).c_str());
        VCHECK(finite(R.y.data(),n),"last-accepted-not-finite","%sy=%s",w.c_str(),vec(R.y).c_str());
        VCHECK(R.fc>=0&&R.nacc>=0&&R.nrej>=0,"counters","%s%s",w.c_str(),R.str().c_str());
        // recovered: close to the solution without fault
        if(R.out==RRET&&kind==NANF){double d=0,m=0;for(int i=0;i<n;i++){d=std::max(d,std::fabs(R.y[i]-good.y[i]));m=std::max(m,std::fabs(good.y[i]));}VCHECK(d<=1e3*C.tol*(1+m),"recovered-elsewhere","%sdistance %.3g to the solution without fault (tolerance %.3g)",w.c_str(),d,C.tol);}
        // ownership: the array, the other array and the object are independent
        for(int i=0;i<n;i++)VCHECK(other[i]==i+0.5,"foreign-array-written","%s",w.c_str());
        if(life==0){for(int i=0;i<n;i++)y[i]=1e300;S.reset();for(int i=0;i<n;i++)y[i]+=1;odes::destroyDoubleArray(y);}
        else if(life==1){odes::destroyDoubleArray(y);S.reset();}
        else{ // reuse: same result as with a new object. y given back or another array
          RCtx c2;setup(c2,C,100000);F.c=&c2;double*y2=y;if(life==3){odes::destroyDoubleArray(y);y2=odes::allocDoubleArray(n);}std::copy(C.y.begin(),C.y.end(),y2);
          RResult Q=goRock(*S,F,c2,C.t0,C.te,C.h,y2);VCHECK(Q.same(good),"reuse-differs","%sreused object: %s new object: %s",w.c_str(),Q.str().c_str(),good.str().c_str());count("reuse after failure");
          std::vector<double> keep(y2,y2+n);double*y3=odes::allocDoubleArray(n);std::copy(C.y.begin(),C.y.end(),y3);RCtx c3;setup(c3,C,100000);F.c=&c3;S->setTolerances(C.tol*3,C.tol);goRock(*S,F,c3,C.t0,C.te,C.h/2,y3);
          VCHECK(memcmp(keep.data(),y2,8*n)==0,"result-changed-by-a-later-call","%s",w.c_str());odes::destroyDoubleArray(y3);odes::destroyDoubleArray(y2);S.reset();}
        odes::destroyDoubleArray(other);
        sig(fmt("%d %d %ld %d %d",n,kind,std::min(k,40l),R.out,std::min(R.nacc,20)));}}
    if(st().nsamples<3)sample(st().desc+fmt(" -> %ld calls, %ld spectral radii, faults at each",good.nf,good.nrho));});
  // problems without faults that cannot be solved: blow-up, hostile numbers
  cases(fmt("hostile %d",PART),scaled(400,8000),[&](Rng& r){int n=r.i(1,6);Prob P=rockProb(r,n,r.u(0,4),r.lg(-1,6),false);bool grow=r.p(0.5);if(grow)for(auto&v:P.A)v=-v;
    auto weird=[&](double v){return r.p(0.12)?r.pick({0.,-0.,1e300,-1e300,1e-300,5e-324,1e18,(double)INFINITY,-(double)INFINITY,(double)NAN,1e308}):v;};
    double t0=weird(r.u(-5,5)),te=weird(t0+r.lg(-2,1)),h=weird(r.lg(-4,2)),at=std::fabs(weird(r.lg(-9,0))),rt=std::fabs(weird(r.lg(-9,0)));std::vector<double> y(n);for(auto&v:y)v=weird(r.u(-2,2));double rho=weird(P.lip);bool bl=r.p(0.3);
    describe(P.name+fmt(" hostile grow=%d t0=%.17g te=%.17g h=%.17g at=%.3g rt=%.3g rho=%.17g quad=%d y0=",(int)grow,t0,te,h,at,rt,rho,(int)bl)+vec(y));
    RCtx c;c.P=&P;c.rho_=rho;long lim=400000;c.limit=lim;if(bl)c.onF=[&](const double*in,const double*){double s=0;for(int i=0;i<n;i++)s+=in[i]*in[i];for(int i=0;i<n;i++){P.c[i]=s;P.w[i]=0;P.p[i]=1.5707963267948966;}};
    FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(at,rt);YArr A(y);RResult R=goRock(S,F,c,t0,te,h,A.p);count(R.out==RRET?"hostile: returned":R.out==RLIB?"hostile: refused":"hostile: stopped");
    // a step size that suits the problem may need many calls: only a lack of progress is a failure
    if(R.out==RRUN){long rej=0,still=0;double tl=-INFINITY;long na=0;for(auto&a:R.at){if(a.acc){++na;tl=a.t;rej=0;if(!(a.t+a.h>a.t))++still;}else ++rej;}(void)tl;VCHECK(still<=50,"time-stands-still","%ld accepted steps do not advance the time",still);VCHECK(rej<=200,"unbounded-rejections","%ld rejections in a row",rej);count("hostile: still advancing",na>0);VCHECK(na>0,"no-progress","%ld calls without an accepted step",lim);}
    if(R.out==RRET&&t0<te)VCHECK(finite(R.y.data(),n),"not-finite","returned normally with y=%s",vec(R.y).c_str());
    sig(fmt("ho%d %d %d",n,R.out,std::min(R.nacc,20)));});
  // steps needed below the resolution of the time
  cases(fmt("resolution %d",PART),scaled(100,2000),[&](Rng& r){int n=r.i(1,4);Prob P=rockProb(r,n,0,r.lg(2,10),false);double q=r.lg(-3,2);double t0=r.sg()*q*1e16/P.lip,te=t0+std::fabs(t0)*r.lg(-9,1),h=r.p(0.5)?te-t0:r.lg(0,4)/P.lip,tol=r.lg(-8,-3);std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);
    describe(P.name+fmt(" resolution t0=%.17g te=%.17g h=%.17g tol=%.3g y0=",t0,te,h,tol)+vec(y));RCtx c;c.P=&P;c.rho_=P.lip;c.limit=40000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(tol,tol);YArr A(y);RResult R=goRock(S,F,c,t0,te,h,A.p);count(R.out==RRET?"resolution: returned":R.out==RLIB?"resolution: refused":"resolution: stopped");
    long still=0;for(auto&a:R.at)if(a.acc&&!(a.t+a.h>a.t))++still;VCHECK(still<=3,"time-stands-still","%ld accepted steps of %zu attempts do not advance the time",still,R.at.size());
    LD sum=0;long na=0;for(auto&a:R.at)if(a.acc){sum+=a.h;++na;}if(R.out==RRET)VCHECK(fabsl(sum-((LD)te-t0))<=(na+2)*2.3e-16L*std::max(std::fabs(t0),std::fabs(te)),"steps-do-not-sum","sum of steps %.17Lg, interval %.17Lg",sum,(LD)te-t0);
    sig(fmt("re%d %d %d",n,R.out,(int)std::log10(q)));});
  return finish();}
