// L03: interval, counters, refusals, failing operators, reproducibility of Rock4L.
#include "rockl.hpp"
#include <thread>
using namespace vf;
#ifndef PART
#define PART 0
#endif
struct LC{Prob P;std::vector<double> y,b;double t0,te,h,rho;};
static LC makeL(Rng&r,bool A){LC C;int n=r.pick({1,2,3,4,5,8,13,21});C.P=linProb(r,n,r.u(0,4),A,r.p(0.2));C.b=C.P.c;double len=r.lg(-2,1);C.t0=r.p(0.3)?0:r.u(-10,10);C.te=C.t0+len;C.h=len*r.lg(-2,0.3);if(r.p(0.2))C.h=len/r.i(1,20);if(r.p(0.1))C.h=len/1.01*(1+r.u(-1,1)*1e-3);C.rho=C.P.lip*r.u(1,1.5);if(C.h*C.rho>7000)C.h=7000/C.rho;if(len/C.h>400)C.te=C.t0+400*C.h;C.y.resize(n);for(auto&v:C.y)v=r.u(-2,2);return C;}
static std::string str(const LC&C,bool A){return C.P.name+fmt(" affine=%d t0=%.17g te=%.17g h=%.17g rho=%.17g y0=",A,C.t0,C.te,C.h,C.rho)+vec(C.y);}
template<bool A> LResult on(odes::Rock4L<FL,A>&S,FL&F,const LC&C,long thr=-1,long rthr=-1){LCtx c;c.P=&C.P;c.rho_=C.rho;c.throwAt=thr;c.rthrowAt=rthr;return goL<A>(S,F,c,C.t0,C.te,C.h,C.y,A?&C.b:0);}
template<bool A> LResult freshL(const LC&C){FL F(0,C.P.n);odes::Rock4L<FL,A> S(F);return on<A>(S,F,C);}
template<bool A> void run(){std::string g=A?" affine":" linear";
  cases("interval"+g,scaled(900,20000),[&](Rng&r){LC C=makeL(r,A);int n=C.P.n;bool clk=A&&n>1;if(A){ // a clock: y0'=1
      for(int j=0;j<n;j++)C.P.A[j]=C.P.A[j*n]=0;C.P.c[0]=1;C.b=C.P.c;}
    else if(n>2&&C.P.sup>0){clk=true;for(int j=0;j<n;j++){C.P.A[j]=C.P.A[n+j]=0;C.P.A[j*n]=C.P.A[j*n+1]=0;}C.P.A[1]=1;C.y[1]=1;}
    if(!(C.te>C.t0))return;describe(str(C,A));LResult R=freshL<A>(C);if(R.out!=LRET){viol("ordinary-problem-fails",R.str());return;}
    VCHECK(R.t==C.te,"end-time","Time() is %.17g, end %.17g",R.t,C.te);VCHECK(R.fc==R.nf,"operator-count","%d reported, %ld seen",R.fc,R.nf);VCHECK(R.nrho>=1,"rho-not-asked","the spectral radius was not asked");
    double len=C.te-C.t0;VCHECK(R.ns*1.01*C.h>=len*(1-1e-12)-1e-15*(std::fabs(C.t0)+len),"steps-too-long","%d steps for %.17g, proposed step %.17g",R.ns,len,C.h);
    double q=len/C.h;VCHECK(R.ns<=std::ceil(q*(1+1e-9))+1,"steps-too-many","%d steps, proposed step %.17g would need %.6g",R.ns,C.h,q);
    auto hs=stepsOf(C.t0,C.te,C.h);double fr=q-std::floor(q);bool edge=std::fabs(fr-0.01)<1e-6||fr<1e-6||fr>1-1e-6;long calls=0;int ms=0;for(double h:hs){int m=stagesFor(h*C.rho);calls+=m+4;ms=std::max(ms,m+4);}
    if(!edge){VCHECK(R.ns==(int)hs.size(),"step-count","%d steps reported, %zu expected",R.ns,hs.size());VCHECK(R.nf==calls,"calls","%ld applications, %ld expected",R.nf,calls);}VCHECK(R.stages==ms||edge,"stages-count","%d stages reported, %d expected",R.stages,ms);
    if(clk){double w=A?1:C.y[1];LD ex=(LD)C.y[0]+(LD)w*((LD)C.te-C.t0);VCHECK(fabsl(ex-R.y[0])<=(R.ns+2)*(2e-14L*(std::fabs(C.y[0])+len)+3e-16L*std::max(std::fabs(C.t0),std::fabs(C.te))),"interval-not-covered","clock at %.17g, %.17Lg expected",R.y[0],ex);count("clocks");}
    count("calls compared");count("steps",R.ns);sig(fmt("iv%d %d %d",A,n,std::min(R.ns,60)));if(st().nsamples<2)sample(st().desc+" -> "+R.str());});
  cases("refusals"+g,scaled(600,10000),[&](Rng&r){LC C=makeL(r,A);int n=C.P.n,k=r.i(0,7);std::string w;bool must=true;bool same=true;
    if(k==0){C.rho=r.lg(0.001,6)*8160/C.h;C.te=C.t0+2*C.h;w="too many stages";}else if(k==1){C.rho=r.pick({(double)NAN,(double)INFINITY,1e308});C.h=std::max(C.h,1e-3);C.te=C.t0+2*C.h;w="spectral radius not finite or huge";}
    else if(k==2){C.h=r.pick({(double)NAN,0.,-0.,-1.,1e-16,5e-324,-1e-3,-(double)INFINITY});w="bad step";}else if(k==3){C.t0=r.lg(1,8);C.te=C.t0*(1+r.lg(-3,0));C.h=C.t0*r.lg(-20,-17);w="step below resolution";}
    else if(k==4){C.te=r.pick({C.t0,C.t0-1,-(double)INFINITY,(double)NAN});must=false;w="end not after start";}
    else if(k==5){w="wrong interface";}else if(k==6){C.h=r.lg(0,300);C.rho=0;must=false;w="step longer than the interval";}else{C.te=C.t0+r.lg(-17,-15.3);C.t0=0;C.te=r.lg(-20,-15.1);w="interval too short";}
    describe(w+" "+str(C,A));FL F(0,n);odes::Rock4L<FL,A> S(F);if(r.p(0.5)){LC D=makeL(r,A);while(D.P.n!=n)D=makeL(r,A);on<A>(S,F,D);}
    LCtx c;c.P=&C.P;c.rho_=C.rho;c.limit=2000000;LResult R;if(k==5)R=A?goL<A>(S,F,c,C.t0,C.te,C.h,C.y,0):goL<A>(S,F,c,C.t0,C.te,C.h,C.y,&C.b);else R=goL<A>(S,F,c,C.t0,C.te,C.h,C.y,A?&C.b:0);
    if(must){VCHECK(R.out==LLIB,"not-refused","%s: %s",w.c_str(),R.str().c_str());VCHECK(R.nf==0&&R.y==C.y,"refused-late","%s: %s",w.c_str(),R.str().c_str());count("refusals");}
    else{VCHECK(R.out==LRET,"wrongly-refused","%s: %s",w.c_str(),R.str().c_str());if(k==4)VCHECK(R.y==C.y&&R.nf==0&&R.ns==0&&(R.t==C.t0),"something-done","%s: %s",w.c_str(),R.str().c_str());count("calls that must succeed");}(void)same;
    LC D=makeL(r,A);while(D.P.n!=n)D=makeL(r,A);LResult X=on<A>(S,F,D),Y=freshL<A>(D);VCHECK(X.same(Y),"refusal-matters","after %s: %s, new object %s",w.c_str(),X.str().c_str(),Y.str().c_str());sig(fmt("re%d %d %d",A,k,n));});
  cases("faults"+g,scaled(60,1000),[&](Rng&r){LC C=makeL(r,A);describe(str(C,A));LResult G=freshL<A>(C);if(G.out!=LRET){viol("ordinary-problem-fails",G.str());return;}FL F(0,C.P.n);auto S=std::make_unique<odes::Rock4L<FL,A>>(F);
    for(long k=1;k<=G.nf;k+=(k<40?1:1+G.nf/40)){LResult R=on<A>(*S,F,C,k);VCHECK(R.out==LUSR&&R.nf==k,"exception-lost","at call %ld: %s",k,R.str().c_str());count("fault points");LResult Q=on<A>(*S,F,C);VCHECK(Q.same(G),"failure-matters","after an exception at call %ld: %s, new object %s",k,Q.str().c_str(),G.str().c_str());if(k%7==0)S=std::make_unique<odes::Rock4L<FL,A>>(F);}
    LResult R=on<A>(*S,F,C,-1,1);VCHECK(R.out==LUSR,"exception-lost","in rho: %s",R.str().c_str());VCHECK(on<A>(*S,F,C).same(G),"failure-matters","after an exception in rho");sig(fmt("fa%d %d %ld",A,C.P.n,G.nf));});
  cases("histories"+g,scaled(200,4000),[&](Rng&r){int k=r.i(2,4);std::vector<LC> C;std::vector<LResult> G;for(int i=0;i<k;i++){C.push_back(makeL(r,A));while(C[i].P.n!=C[0].P.n)C[i]=makeL(r,A);G.push_back(freshL<A>(C[i]));}describe(fmt("histories k=%d ",k)+str(C[0],A));int n=C[0].P.n;FL F(0,n),F2(0,n);odes::Rock4L<FL,A> S(F),T(F2);
    for(int q=0;q<12;q++){int i=r.i(0,k-1);bool s=r.p(0.5);LResult R=on<A>(s?S:T,s?F:F2,C[i]);VCHECK(R.same(G[i]),"history-matters","%s, new object %s",R.str().c_str(),G[i].str().c_str());VCHECK((s?S:T).nbUnkn()==n,"size","x");count("calls compared");}
    if(r.p(0.2)){std::vector<std::thread> th;std::vector<LResult> R(k);for(int i=0;i<k;i++)th.emplace_back([&,i]{R[i]=freshL<A>(C[i]);});for(auto&t:th)t.join();for(int i=0;i<k;i++)VCHECK(R[i].same(G[i]),"threads-matter","%s alone %s",R[i].str().c_str(),G[i].str().c_str());count("thread runs");}
    sig(fmt("hi%d %d %d",A,n,k));});}
int main(int ac,char**av){init(ac,av);
#if PART==0
  run<false>();
#elif PART==1
  run<true>();
#endif
  return finish();}
