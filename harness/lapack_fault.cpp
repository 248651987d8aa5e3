// C02: every call of the linear algebra library reports failure in turn, and exactly singular
// systems are met inside the integrators (found from the shifts seen at the factorizations).
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
namespace lf{
static long calls=0,failAt=-1,fired=0,userCallsAfter=0;static int info=0;static bool destroy=true;static std::map<std::string,long> seen;
static double lastReal=NAN,lastRe=NAN,lastIm=NAN; // first diagonal element of the matrices to factor
static bool hit(const char*w){++calls;++seen[w];if(failAt==calls){++fired;return true;}return false;}
static void reset(long at=-1,int inf=1,bool d=true){calls=0;failAt=at;fired=0;info=inf;destroy=d;}
}
extern "C"{
void __real_dgetrf_(int*,int*,double*,int*,int*,int*);void __real_zgetrf_(int*,int*,double*,int*,int*,int*);
void __real_dgetrs_(const char*,int*,int*,double*,int*,int*,double*,int*,int*);void __real_zgetrs_(const char*,int*,int*,double*,int*,int*,double*,int*,int*);
void __real_dgbtrf_(int*,int*,int*,int*,double*,int*,int*,int*);void __real_zgbtrf_(int*,int*,int*,int*,double*,int*,int*,int*);
void __real_dgbtrs_(const char*,int*,int*,int*,int*,double*,int*,int*,double*,int*,int*);void __real_zgbtrs_(const char*,int*,int*,int*,int*,double*,int*,int*,double*,int*,int*);
void __real_dgehrd_(int*,int*,int*,double*,int*,double*,double*,int*,int*);
static void spoil(double*a,long k){if(lf::destroy)for(long i=0;i<k;i++)a[i]=i%3==0?0:1e3*(i%7);}
void __wrap_dgetrf_(int*n,int*m,double*a,int*l,int*p,int*i){lf::lastReal=a[0];bool f=lf::hit("dgetrf");__real_dgetrf_(n,m,a,l,p,i);if(f){*i=lf::info;spoil(a,(long)*n**l);}}
void __wrap_zgetrf_(int*n,int*m,double*a,int*l,int*p,int*i){lf::lastRe=a[0];lf::lastIm=a[1];bool f=lf::hit("zgetrf");__real_zgetrf_(n,m,a,l,p,i);if(f){*i=lf::info;spoil(a,2l**n**l);}}
void __wrap_dgetrs_(const char*s,int*n,int*k,double*a,int*l,int*p,double*b,int*lb,int*i){bool f=lf::hit("dgetrs");__real_dgetrs_(s,n,k,a,l,p,b,lb,i);if(f){*i=-lf::info;spoil(b,*n);}}
void __wrap_zgetrs_(const char*s,int*n,int*k,double*a,int*l,int*p,double*b,int*lb,int*i){bool f=lf::hit("zgetrs");__real_zgetrs_(s,n,k,a,l,p,b,lb,i);if(f){*i=-lf::info;spoil(b,2l**n);}}
void __wrap_dgbtrf_(int*n,int*m,int*kl,int*ku,double*a,int*l,int*p,int*i){lf::lastReal=a[*kl+*ku];bool f=lf::hit("dgbtrf");__real_dgbtrf_(n,m,kl,ku,a,l,p,i);if(f){*i=lf::info;spoil(a,(long)*n**l);}}
void __wrap_zgbtrf_(int*n,int*m,int*kl,int*ku,double*a,int*l,int*p,int*i){lf::lastRe=a[2*(*kl+*ku)];lf::lastIm=a[2*(*kl+*ku)+1];bool f=lf::hit("zgbtrf");__real_zgbtrf_(n,m,kl,ku,a,l,p,i);if(f){*i=lf::info;spoil(a,2l**n**l);}}
void __wrap_dgbtrs_(const char*s,int*n,int*kl,int*ku,int*k,double*a,int*l,int*p,double*b,int*lb,int*i){bool f=lf::hit("dgbtrs");__real_dgbtrs_(s,n,kl,ku,k,a,l,p,b,lb,i);if(f){*i=-lf::info;spoil(b,*n);}}
void __wrap_zgbtrs_(const char*s,int*n,int*kl,int*ku,int*k,double*a,int*l,int*p,double*b,int*lb,int*i){bool f=lf::hit("zgbtrs");__real_zgbtrs_(s,n,kl,ku,k,a,l,p,b,lb,i);if(f){*i=-lf::info;spoil(b,2l**n);}}
void __wrap_dgehrd_(int*n,int*lo,int*hi,double*a,int*l,double*t,double*w,int*lw,int*i){if(*lw==-1){__real_dgehrd_(n,lo,hi,a,l,t,w,lw,i);return;}bool f=lf::hit("dgehrd");__real_dgehrd_(n,lo,hi,a,l,t,w,lw,i);if(f){*i=-lf::info;spoil(a,(long)*n**l);}}
}
template<int N,int SUB,int SUP,bool H,bool NJ> struct T{
  typedef Fn<N,SUB,SUP,H,NJ> F; typedef Solver<F> S;
  static std::string lay(){return sname()+fmt("n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);}
  static void last(const Result&R,const std::vector<double>&y0,double x0,const char*w){double x=x0;std::vector<double> y(y0);for(auto&a:R.at)if(a.acc){x=a.t+a.h;y=a.y;}
    VCHECK(R.x==x&&Result::bits(R.y,y),"not-last-accepted","%s: x=%.17g y=%s, last accepted %.17g %s",w,R.x,vec(R.y).c_str(),x,vec(y).c_str());}
  static void run(long nq,long nt){
    cases("library "+lay(),scaled(nq,nt),[&](Rng&r){
      Prob P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.7),r.u(0,3),r.p(0.3)?0:r.lg(-1,0.8));double rt=r.lg(-6,-2),at=rt*r.lg(-1,1),x0=r.u(-5,5),xe=x0+r.lg(-1,0.4),h=(xe-x0)*r.lg(-2.5,0);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);
      describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g at=%.3g y0=",x0,xe,h,rt,at)+vec(y));
      S s0(true,&at,&rt);Ctx c0;c0.P=&P;lf::reset();Result R0=go(s0,c0,h,x0,xe,y);long K=lf::calls;count("library calls",K);S s(true,&at,&rt);
      VCHECK(K>0||H,"no-library-call","%s",R0.str().c_str());
      for(long k=1;k<=K;k+=k<40?1:1+K/40){int inf=r.p(0.7)?r.i(1,N):-r.i(1,5);Ctx c;c.P=&P;long calls=0,nf=0;c.limit=100000;
        lf::reset(k,inf,r.p(0.6));bool after=false;c.onF=[&](double,const double*,const double*){if(lf::fired)after=true;};c.onJ=[&](double,const double*){if(lf::fired)after=true;};(void)calls;(void)nf;
        Result R=go(s,c,h,x0,xe,y);std::string w=fmt("library call %ld of %ld reports %d",k,K,inf);long more=lf::calls-k;
        VCHECK(lf::fired==1,"fault-not-reached","%s",w.c_str());
        VCHECK(R.out==LIBEX,"failure-ignored","%s: %s",w.c_str(),R.str().c_str());
        VCHECK(!after,"used-after-failure","%s: right-hand side or Jacobian called afterwards",w.c_str());
        VCHECK(more<=0,"used-after-failure","%s: %ld more library calls",w.c_str(),more);
        last(R,y,x0,w.c_str());count("library failures");
        if(k%4==0||k==K){lf::reset();Ctx d;d.P=&P;Result Q=go(s,d,h,x0,xe,y);VCHECK(Q.same(R0),"not-usable-after-failure","%s: %s, without failure %s",w.c_str(),Q.str().c_str(),R0.str().c_str());count("reuse after failure");}
        sig(fmt("%d%d%d%d %ld %d",N,SUB,H,NJ,std::min(k,40l),inf>0));}
      lf::reset();if(vf::st().nsamples<3)sample(vf::st().group+": "+vf::st().desc+fmt(" -> %ld library calls",K));});
    if(NJ)return;
    // exactly singular systems: the shifts of the first step, seen with a zero Jacobian in the full or band layout, become eigenvalues
    cases("singular "+lay(),scaled(nq*3,nt*3),[&](Rng&r){
      typedef Fn<N,H?N-1:SUB,H?N-1:SUP,false,false> FF;Prob P=makeProb(r,N,SUB,SUP,false,0,0);double rt=1e-4,at=1e-4,x0=r.u(-5,5),xe=x0+r.lg(-1,1),h=(xe-x0)*r.lg(-3,0);std::vector<double> y(N);for(auto&v:y)v=r.u(-1,1);bool cx=!isRodas&&N>1&&SUB>0&&SUP>0&&r.p(0.5);
      std::fill(P.A.begin(),P.A.end(),0.);std::fill(P.B.begin(),P.B.end(),0.);
      auto shifts=[&](double hh){Solver<FF> s(true,&at,&rt);Ctx c;c.P=&P;lf::reset();lf::lastReal=lf::lastRe=lf::lastIm=NAN;c.limit=100000;bool got=false;double a=NAN,b=NAN,d=NAN;
        c.onF=[&](double,const double*,const double*){if(!got&&lf::calls>=(isRodas?1:2)){got=true;a=lf::lastReal;b=lf::lastRe;d=lf::lastIm;}};go(s,c,hh,x0,xe,y);return std::array<double,3>{a,b,d};};
      auto q=shifts(h);double want=0;
      if(cx){want=std::exp2(std::floor(std::log2(q[2])));h*=q[2]/want;q=shifts(h);for(int i=0;i<6&&q[2]!=want;i++){h=std::nextafter(h,q[2]>want?INFINITY:0);q=shifts(h);}if(q[2]!=want){count("no exact shift");return;}}
      int k=r.i(0,N-(cx?2:1));
      std::vector<double> J(N*N,0);if(!cx)J[k*N+k]=q[0];else{J[k*N+k]=J[(k+1)*N+k+1]=q[1];double s=r.sg();J[k*N+k+1]=s*q[2];J[(k+1)*N+k]=-s*q[2];}
      // other diagonal elements: regular and exact
      describe(fmt("%s eigenvalue %.17g %.17g of the Jacobian of the first step, position %d n=%d h=%.17g x0=%.17g xe=%.17g",cx?"complex":"real",cx?q[1]:q[0],cx?q[2]:0.,k+1,N,h,x0,xe));
      S s(true,&at,&rt);P.A=J;Ctx c;c.P=&P;c.limit=100000;lf::reset();bool late=false;long nfAt=0;c.onF=[&](double,const double*,const double*){if(lf::calls>0)late=true;};(void)nfAt;
      Result R=go(s,c,h,x0,xe,y);VCHECK(R.out==LIBEX,"singular-accepted","%s",R.str().c_str());VCHECK(!late,"used-after-failure","right-hand side called after the singular factorization");last(R,y,x0,"singular");count(cx?"complex singular systems":"real singular systems");
      // and is usable
      P.A.assign(N*N,0.);for(int i=0;i<N;i++)P.A[i*N+i]=-1-i;S s2(true,&at,&rt);Ctx c1,c2;c1.P=c2.P=&P;Result A=go(s,c1,h,x0,xe,y),B=go(s2,c2,h,x0,xe,y);VCHECK(A.same(B),"not-usable-after-failure","%s, new object %s",A.str().c_str(),B.str().c_str());count("reuse after failure");
      sig(fmt("sing %d%d%d %d %d",N,SUB,H,cx,k));});
  }
};
int main(int a,char**b){init(a,b);
#if PART==0
  T<1,0,0,false,false>::run(10,150);T<4,3,3,false,false>::run(12,200);T<3,2,2,false,true>::run(10,150);
#else
  T<3,2,2,true,false>::run(10,150);T<5,4,4,true,false>::run(8,150);T<6,1,2,false,false>::run(10,150);T<5,1,1,false,true>::run(8,100);T<4,0,1,false,false>::run(6,100);
#endif
  return finish();}
