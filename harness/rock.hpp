// Rock4: problems, recorder and a long double model of one ROCK4 step.
#ifndef ROCK_HPP
#define ROCK_HPP
#include "implicit.hpp"
#include "golden/rock4.h"
#ifndef NOROCK
#include "Rock4.hpp"
#endif
#undef MAX
#undef MIN
#undef ABS
#undef SIGN
#undef max
#undef min
#include "radau_ref.hpp"
namespace vf {
//! autonomous, dissipative, real spectrum mostly; component 0 is a clock when clk
inline Prob rockProb(Rng& r,int n,double stiff,double nl,bool clk,bool sym=true){
  int b=std::min(n-1,r.i(0,2));Prob P=makeProb(r,n,b,b,false,stiff,nl);
  if(sym)for(int i=0;i<n;i++)for(int j=i+1;j<n&&j<=i+b;j++)P.A[j*n+i]=P.A[i*n+j];
  for(int i=0;i<n;i++){P.c[i]=r.p(0.5)?r.u(-2,2):0;P.w[i]=0;P.p[i]=1.5707963267948966;}
  if(clk&&n>1){for(int j=0;j<n;j++)P.A[j]=P.B[j]=P.A[j*n]=P.B[j*n]=0;P.c[0]=1;}
  double L=0;for(int i=0;i<n;i++){double s=0;for(int j=0;j<n;j++)s+=std::fabs(P.A[i*n+j])+std::fabs(P.B[i*n+j]);L=std::max(L,s);}P.lip=L;
  P.name+=fmt(" clk=%d",(int)clk);return P;}
struct RCtx{
  const Prob* P=0;double rho_=0;std::function<double()> onRho;long nf=0,nrho=0,limit=20000000,faultsFired=0;
  long throwAt=-1,nanAt=-1,rthrowAt=-1,rbadAt=-1;bool nanForever=false;int badKind=0;std::function<void(const double*,const double*)> onF;
  double lastrho=NAN;
  double bad(int k)const{return k%3==0?NAN:(k%3==1?INFINITY:-INFINITY);}
  void F(double*y,double*o){++nf;if(nf>limit)throw Runaway();if(onF)onF(y,o);if(nf==throwAt){++faultsFired;throw UserEx{(int)nf};}
    P->f<double>(0.,y,o);if(nanAt>0&&(nf==nanAt||(nanForever&&nf>nanAt))){++faultsFired;o[(nf*7)%P->n]=bad(badKind);}}
  double rho(){++nrho;if(nrho==rthrowAt){++faultsFired;throw UserEx{-(int)nrho};}if(nrho==rbadAt){++faultsFired;return lastrho=(badKind%2?INFINITY:NAN);}return lastrho=onRho?onRho():rho_;}
};
struct FR{RCtx*c=0;int n=0;int size()const{return n;}double rho(){return c->rho();}void operator()(double*in,double*out){c->F(in,out);}};
struct RStep{double t,h,err;bool acc;std::vector<double> y;long nf,nrho;double rho;};
struct RMon{RCtx*c=0;std::vector<RStep> at;static RMon*&cur(){static thread_local RMon*m=0;return m;}
#ifndef NOROCK
  static void cb(const odes::MonitoredStep&s){RMon*m=cur();if(m&&m->at.size()<2000000){RStep a{s.t,s.h,s.err,s.accepted,std::vector<double>(s.y,s.y+s.n),m->c->nf,m->c->nrho,m->c->lastrho};m->at.push_back(a);}}
  void start(RCtx*k){c=k;cur()=this;odes::monitorCallback()=&cb;}void stop(){cur()=0;odes::monitorCallback()=0;}~RMon(){if(cur()==this)stop();}
#endif
};
//! long double model of a step with internal degree m (a tabulated one)
struct RockRef{
  int mz,mr,m;bool ok;
  explicit RockRef(int m_):mz(0),mr(1),m(m_),ok(false){for(int i=1;i<=50;i++){if(G_MS[i-1]==m){mz=i;ok=true;break;}mr+=G_MS[i-1]*2-1;}}
  static LD recf(int i){return G_RECF[i-1];}
  LD fpa(int j)const{return G_FPA[(j-1)*50+mz-1];}LD fpb(int j)const{return G_FPB[(j-1)*50+mz-1];}LD fpbe(int j)const{return G_FPBE[(j-1)*50+mz-1];}
  //! one step; with a generator: every stage is perturbed by rounding errors of double precision
  template<class FF> void step(FF f0,int n,const LD*y,LD h,std::vector<LD>&yn,std::vector<LD>&e,Rng*q=0,LD lip=0)const{
    typedef std::vector<LD> V;V g0(y,y+n),g1(n),k(n),t(n),k1(n),k2(n),k3(n),k4(n),k5(n);const LD u=2.3e-16L;
    auto f=[&](const LD*in,LD*o){f0(in,o);if(q){LD m=0;for(int i=0;i<n;i++)m=std::max(m,fabsl(in[i]));for(int i=0;i<n;i++)o[i]+=u*(2*fabsl(o[i])+2*lip*m)*q->u(-1,1);}};
    auto rd=[&](LD v,LD mag){return q?v+u*2*mag*(LD)q->u(-1,1):v;};
    f(g0.data(),k.data());for(int i=0;i<n;i++)g1[i]=rd(g0[i]+h*recf(mr)*k[i],fabsl(g0[i])+fabsl(h*recf(mr)*k[i]));
    for(int s=2;s<=m;s++){f(g1.data(),k.data());LD a=h*recf(mr+2*(s-2)+1),c=-recf(mr+2*(s-2)+2),b=1-c;for(int i=0;i<n;i++){LD v=rd(a*k[i]+b*g1[i]+c*g0[i],fabsl(a*k[i])+fabsl(b*g1[i])+fabsl(c*g0[i]));g0[i]=g1[i];g1[i]=v;}}
    auto lc=[&](V&o,int nt,const LD*a,V**K){for(int i=0;i<n;i++){LD v=g1[i],mg=fabsl(v);for(int j=0;j<nt;j++){v+=h*a[j]*(*K[j])[i];mg+=fabsl(h*a[j]*(*K[j])[i]);}o[i]=rd(v,mg);}};
    V*K[5]={&k1,&k2,&k3,&k4,&k5};
    f(g1.data(),k1.data());{LD a[]={fpa(1)};lc(t,1,a,K);}f(t.data(),k2.data());{LD a[]={fpa(2),fpa(3)};lc(t,2,a,K);}f(t.data(),k3.data());{LD a[]={fpa(4),fpa(5),fpa(6)};lc(t,3,a,K);}f(t.data(),k4.data());
    yn.resize(n);e.resize(n);{LD a[]={fpb(1),fpb(2),fpb(3),fpb(4)};lc(yn,4,a,K);}
    f(yn.data(),k5.data());for(int i=0;i<n;i++){LD v=0,mg=0;for(int j=0;j<5;j++){LD w=h*((fpbe(j+1)-(j<4?fpb(j+1):0))*(*K[j])[i]);v+=w;mg+=fabsl(w)+(j<4?fabsl(h*fpb(j+1)*(*K[j])[i]):0);}e[i]=rd(v,mg);}}
  //! the step, and by how much double precision may change its result and its error estimate
  void both(const Prob&P,const std::vector<double>&y0,double h,std::vector<LD>&yn,std::vector<LD>&e,LD&dy,std::vector<LD>&de,int rep=3)const{
    int n=P.n;std::vector<LD> y(y0.begin(),y0.end()),y2,e2;auto f=[&](const LD*u,LD*o){P.f<LD>(0.L,u,o);};step(f,n,y.data(),h,yn,e);dy=0;de.assign(n,0);
    LD cm=0;for(double c:P.c)cm=std::max(cm,(LD)fabs(c));LD ym=0;for(LD v:y)ym=std::max(ym,fabsl(v));
    for(int k=0;k<rep;k++){Rng q(k*7919+17);step(f,n,y.data(),h,y2,e2,&q,P.lip+cm/(ym+1e-300L));for(int i=0;i<n;i++){dy=std::max(dy,fabsl(y2[i]-yn[i]));de[i]=std::max(de[i],fabsl(e2[i]-e[i]));}}
    for(int i=0;i<n;i++)dy=std::max(dy,1e-16L*fabsl(yn[i]));}
};
inline int tabulated(int m){for(int v:G_MS)if(v>=m)return v;return -1;}
//! smallest admissible and largest sensible number of stages for a step
inline int stagesFor(double hr){double s=std::sqrt((3+hr)/0.353)+1;int m=s<153?(int)s:153;return tabulated(std::max(std::min(m,152),5)-4);}
#ifndef NOROCK
enum ROut{RRET,RLIB,RUSR,RRUN};
struct RResult{int out=RRET;std::vector<double> y;long nf=0,nrho=0;int fc=-1,ns=-1,nacc=-1,nrej=-1,stages=-1;double hlast=0;std::vector<RStep> at;
  bool same(const RResult&o)const{return out==o.out&&y.size()==o.y.size()&&memcmp(y.data(),o.y.data(),y.size()*8)==0&&nf==o.nf&&nrho==o.nrho&&fc==o.fc&&ns==o.ns&&nacc==o.nacc&&nrej==o.nrej&&(nacc<1||hlast==o.hlast);}
  long nattempts()const{return (long)at.size();}
  std::string str()const{static const char*w[]={"returned","OdesException","user exception","runaway"};return fmt("%s steps=%d acc=%d rej=%d f=%d (seen %ld, rho %ld) h=%.17g y=",w[out],ns,nacc,nrej,fc,nf,nrho,hlast)+vec(y);}};
inline RResult goRock(odes::Rock4<FR>&s,FR&F,RCtx&c,double t0,double tend,double h,double*&y,bool rec=true){
  RResult r;F.c=&c;RMon m;long f0=c.nf,q0=c.nrho;if(rec)m.start(&c);
  try{s(y,t0,tend,h);}catch(odes::OdesException&){r.out=RLIB;}catch(UserEx&){r.out=RUSR;}catch(Runaway&){r.out=RRUN;}
  if(rec){m.stop();r.at.swap(m.at);}r.y.assign(y,y+F.n);r.nf=c.nf-f0;r.nrho=c.nrho-q0;r.fc=s.NbRhsComputed();r.ns=s.NbSteps();r.nacc=s.NbAccepted();r.nrej=s.NbRejected();r.hlast=s.LastAcceptedTimeStep();return r;}
//! an array owned by the caller
struct YArr{double*p;int n;explicit YArr(const std::vector<double>&v):p(odes::allocDoubleArray((int)v.size())),n((int)v.size()){std::copy(v.begin(),v.end(),p);}~YArr(){odes::destroyDoubleArray(p);}YArr(const YArr&)=delete;void set(const std::vector<double>&v){std::copy(v.begin(),v.end(),p);}};
inline RResult goRock(odes::Rock4<FR>&s,FR&F,RCtx&c,double t0,double tend,double h,const std::vector<double>&y0,bool rec=true){YArr y(y0);return goRock(s,F,c,t0,tend,h,y.p,rec);}
#endif
}
#endif
