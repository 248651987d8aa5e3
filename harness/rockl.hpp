// Rock4L (linear and affine problems): problems, probe, model of a whole run.
#ifndef ROCKL_HPP
#define ROCKL_HPP
#define NOROCK
#include "rock.hpp"
#include "Rock4L.hpp"
#undef MAX
#undef MIN
#undef ABS
#undef SIGN
#undef max
#undef min
namespace vf {
struct LCtx{const Prob*P=0;double rho_=0;long nf=0,nrho=0,limit=3000000,throwAt=-1,rthrowAt=-1;bool affineCalls=false,linearCalls=false;std::function<void(const double*,const double*,const double*,double,double,double)> onOp;const double*b=0;bool bseen=false;};
struct FL{LCtx*c=0;int n=0;FL(){}FL(LCtx*c_,int n_):c(c_),n(n_){}
  int size()const{return n;}double rho(){++c->nrho;if(c->nrho==c->rthrowAt)throw UserEx{-1};return c->rho_;}
  void call(){++c->nf;if(c->nf>c->limit)throw Runaway();if(c->nf==c->throwAt)throw UserEx{(int)c->nf};}
  std::vector<double> mv(const double*in)const{const Prob&P=*c->P;std::vector<double> r(n);for(int i=0;i<n;i++){double s=0;for(int j=P.lo(i);j<=P.hi(i);j++)s+=P.A[i*n+j]*in[j];r[i]=s;}return r;}
  void operator()(double*in,double*s,double a,double b,double*out){call();if(c->onOp)c->onOp(in,s,0,a,b,0);auto v=mv(in);for(int i=0;i<n;i++)out[i]=a*v[i]+b*s[i];}
  void operator()(double*in,double*s,double a,double b,double*g,double*out){call();if(c->onOp)c->onOp(in,s,g,a,b,0);c->affineCalls=true;auto v=mv(in);for(int i=0;i<n;i++)out[i]=a*(v[i]+g[i])+b*s[i];}
  void operator()(double*in,double*s,double a,double b,double q,double*out){call();if(c->onOp)c->onOp(in,s,0,a,b,q);c->linearCalls=true;auto v=mv(in);for(int i=0;i<n;i++)out[i]=a*v[i]+b*in[i]+q*s[i];}
  void operator()(double*in,double*s,double a,double b,double q,double*g,double*out){call();if(c->onOp)c->onOp(in,s,g,a,b,q);c->affineCalls=true;auto v=mv(in);for(int i=0;i<n;i++)out[i]=a*(v[i]+g[i])+b*in[i]+q*s[i];}
};
//! steps a run makes: the proposed step, the last one fitted to the end (at most one percent longer)
inline std::vector<double> stepsOf(double t0,double te,double h){std::vector<double> r;double t=t0;while(t<te&&r.size()<100000){if(1.01*h>=te-t){r.push_back(te-t);break;}r.push_back(h);t+=h;if(t+h>te)h=te-t;}return r;}
//! model of a run; dy: what double precision may change
inline void runRef(const Prob&P,const std::vector<double>&y0,const std::vector<double>&hs,double rho,std::vector<LD>&yn,LD&dy,long*calls=0,int rep=3){
  int n=P.n;auto f=[&](const LD*u,LD*o){P.f<LD>(0.L,u,o);};std::vector<LD> e;LD cm=0;for(double c:P.c)cm=std::max(cm,(LD)fabs(c));long nc=0;
  auto go=[&](Rng*q,std::vector<LD>&y){y.assign(y0.begin(),y0.end());nc=0;for(double h:hs){int m=stagesFor(h*rho);nc+=m+4;LD ym=0;for(LD v:y)ym=std::max(ym,fabsl(v));std::vector<LD> t;RockRef(m).step(f,n,y.data(),h,t,e,q,P.lip+cm/(ym+1e-300L));y=t;}};
  go(0,yn);dy=0;std::vector<LD> y2;for(int k=0;k<rep;k++){Rng q(k*7919+17);go(&q,y2);for(int i=0;i<n;i++)dy=std::max(dy,fabsl(y2[i]-yn[i]));}for(int i=0;i<n;i++)dy=std::max(dy,1e-16L*fabsl(yn[i]));if(calls)*calls=nc;}
//! linear part dissipative, symmetric or not; no B; b in c when affine
inline Prob linProb(Rng&r,int n,double stiff,bool affine,bool singular){Prob P=rockProb(r,n,stiff,0,false,r.p(0.6));double z=1.5707963267948966;for(int i=0;i<n;i++){P.c[i]=affine&&r.p(0.8)?r.u(-2,2):0;P.p[i]=z;P.w[i]=0;}
  // sin(pi/2) is 1 in double and long double to rounding: make it exact
  if(singular){int k=r.i(0,n-1);for(int j=0;j<n;j++)P.A[k*n+j]=P.A[j*n+k]=0;if(r.p(0.2))for(auto&v:P.A)v=0;}
  double L=0;for(int i=0;i<n;i++){double s=0;for(int j=0;j<n;j++)s+=std::fabs(P.A[i*n+j]);L=std::max(L,s);}P.lip=L;return P;}
enum LOut{LRET,LLIB,LUSR,LRUN};
struct LResult{int out=LRET;std::vector<double> y;long nf=0,nrho=0;int fc=-1,ns=-1,stages=-1;double t=0;
  bool same(const LResult&o)const{return out==o.out&&y.size()==o.y.size()&&memcmp(y.data(),o.y.data(),8*y.size())==0&&nf==o.nf&&nrho==o.nrho&&fc==o.fc&&ns==o.ns&&stages==o.stages&&t==o.t;}
  std::string str()const{static const char*w[]={"returned","OdesException","user exception","runaway"};return fmt("%s steps=%d f=%d (seen %ld) stages=%d t=%.17g y=",w[out],ns,fc,nf,stages,t)+vec(y);}};
template<bool A> LResult goL(odes::Rock4L<FL,A>&S,FL&F,LCtx&c,double t0,double te,double h,const std::vector<double>&y0,const std::vector<double>*b,bool check=true){
  F.c=&c;LResult r;double*y=odes::allocDoubleArray(F.n);std::copy(y0.begin(),y0.end(),y);double*bb=0;if(b){bb=odes::allocDoubleArray(F.n);std::copy(b->begin(),b->end(),bb);}long f0=c.nf,q0=c.nrho;
  try{if(b)S(y,bb,t0,te,h);else S(y,t0,te,h);}catch(odes::OdesException&){r.out=LLIB;}catch(UserEx&){r.out=LUSR;}catch(Runaway&){r.out=LRUN;}
  r.y.assign(y,y+F.n);r.nf=c.nf-f0;r.nrho=c.nrho-q0;r.fc=S.NbRhsComputed();r.ns=S.NbSteps();r.stages=S.NbStages();r.t=S.Time();
  if(b)VCHECK(memcmp(bb,b->data(),8*F.n)==0,"forcing-modified","the forcing vector was modified");
  odes::destroyDoubleArray(y);if(bb)odes::destroyDoubleArray(bb);(void)check;return r;}
}
#endif
