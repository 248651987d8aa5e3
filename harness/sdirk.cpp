// D01-D03: steps of the linear SDIRK integrator against the tableaux in long double; orders; modes; protocol.
#include "vf.hpp"
#include <complex>
#include <thread>
#include <memory>
#include <cstdlib>
#include "Sdirkl.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#ifndef PART
#define PART 0
#endif
using namespace vf;
typedef Mat<LD> ML;
//! the tableaux, from the literature
struct Tab{int s,order;LD A[5][5],b[5];LD g;};
//! a tableau of the user: the one drawn last in this thread
static thread_local Tab userTab;
template<int s> struct UserRK{static const int nstage=s;double A[s][s],S[s],D[s];std::string name;
  UserRK(){name=fmt("user%d",s);const Tab&T=userTab;LD d[5];for(int i=s-1;i>=0;i--){LD q=T.b[i];for(int j=i+1;j<s;j++)q-=d[j]*T.A[j][i];d[i]=q/T.g;if(fabsl(d[i])<1e-13L)d[i]=0;}
    for(int i=0;i<s;i++){LD q=0;for(int j=0;j<=i;j++){A[i][j]=(double)T.A[i][j];q+=T.A[i][j];}S[i]=(double)q;D[i]=(double)d[i];}}};
//! any lower triangular tableau with one diagonal coefficient; weights d=b A^-1 of either sign, some zero
static Tab randomTab(Rng&r,int s){Tab T={};T.s=s;T.order=0;T.g=r.lg(-1,0.6);LD d[5];for(int i=0;i<s;i++){T.A[i][i]=T.g;for(int j=0;j<i;j++)T.A[i][j]=r.p(0.2)?0:r.u(-2,2);d[i]=r.p(0.25)?0:r.u(-2,2);}
  for(int i=0;i<s;i++){T.b[i]=0;for(int j=i;j<s;j++)T.b[i]+=d[j]*T.A[j][i];}return T;}
template<class RK> Tab tab(){return userTab;}
template<class RK> struct IsUser{static const int s=0;};
template<int k> struct IsUser<UserRK<k>>{static const int s=k;};
template<> Tab tab<odes::EulerImp>(){Tab t={1,1,{{1}},{1},1};return t;}
template<> Tab tab<odes::CrN>(){Tab t={1,2,{{.5L}},{1},.5L};return t;}
template<> Tab tab<odes::RKRS>(){LD g=1+sqrtl(.5L);Tab t={2,2,{{g},{1-2*g,g}},{.5L,.5L},g};return t;}
template<> Tab tab<odes::RKMethod2>(){LD g=cosl(acosl(-1)/18)/sqrtl(3)+.5L,d=1/(6*(2*g-1)*(2*g-1));Tab t={3,4,{{g},{.5L-g,g},{2*g,1-4*g,g}},{d,1-2*d,d},g};return t;}
template<> Tab tab<odes::RKMethod1>(){LD q=.25L;Tab t={5,4,{{q},{.5L,q},{17/50.L,-1/25.L,q},{371/1360.L,-137/2720.L,15/544.L,q},{25/24.L,-49/48.L,125/16.L,-85/12.L,q}},{25/24.L,-49/48.L,125/16.L,-85/12.L,q},q};return t;}
//! what the operator belongs to
struct Problem{int n=0;ML A;std::vector<double> b;};
struct Ctx{const Problem*P=0;long ninit=0,napply=0,throwAt=-1;bool throwInit=false,badInit=false;int n=0;double coef=NAN;const double*bound0=0,*bound1=0;bool badArgs=false;ML M;};
static thread_local Ctx*cur=0;
static bool solve(const ML&M,std::vector<LD>&b){return gsolve(M,b);}
struct Op{Ctx*c;Op():c(cur){}
  void init(int n,double coef){++c->ninit;c->n=n;c->coef=coef;if(c->throwInit)throw UserEx{-1};const ML&A=c->P->A;c->M=ML(n,n);if(n!=c->P->n){c->badInit=true;return;}for(int i=0;i<n;i++)for(int j=0;j<n;j++)c->M(i,j)=(i==j)-(LD)coef*A(i,j);}
  void apply(double in[],double out[]){++c->napply;if(c->napply==c->throwAt)throw UserEx{(int)c->napply};int n=c->n;std::vector<double> keep(in,in+n);std::vector<LD> b(in,in+n);for(int i=0;i<n;i++)out[i]=NAN;if(memcmp(in,keep.data(),8*n))c->badArgs=true;
    if(!solve(c->M,b))throw UserEx{-2};for(int i=0;i<n;i++)out[i]=(double)b[i];}};
//! one step of the tableau in long double; with a generator, perturbed as double precision might
static bool refStep(const Tab&T,const Problem&P,LD h,const std::vector<LD>&u,bool affine,std::vector<LD>&un,Rng*q=0){
  int n=P.n;const LD e=q?2.3e-16L:0,ec=q?6e-15L:0;auto r=[&](){return q?(LD)q->sg()*q->u(0.6,1):0;};LD g=T.g*(1+0.3L*ec*r());ML M(n,n);for(int i=0;i<n;i++)for(int j=0;j<n;j++)M(i,j)=(i==j)-h*g*P.A(i,j)*(1+(q?2e-19L*r():0));
  // z_i=sum_j a_ij h k_j; with d=b A^-1 the step is u+sum d_i z_i
  std::vector<std::vector<LD>> z(T.s,std::vector<LD>(n));LD d[5];{for(int i=T.s-1;i>=0;i--){LD s=T.b[i];for(int j=i+1;j<T.s;j++)s-=d[j]*T.A[j][i];d[i]=s/T.g;}}
  for(int i=0;i<T.s;i++){LD S=0;for(int j=0;j<=i;j++)S+=T.A[i][j];S*=1+ec*r();
    // (I-h g A) z_i = S_i h b + h A (S_i/.. u) ... written with w=(S_i/g) u + sum_{j<i} a_ij/g z_j: z_i=(I-hgA)^-1 (w+S_i h b) - w
    std::vector<LD> w(n),x(n);for(int k=0;k<n;k++){LD a=S/g*u[k],m=fabsl(a);w[k]=a;for(int j=0;j<i;j++){LD c=T.A[i][j]/g*(1+ec*r())*z[j][k];w[k]+=c;m+=fabsl(c);}w[k]+=2*e*m*r();x[k]=w[k];if(affine){LD c=S*h*P.b[k];x[k]+=c+2*e*(fabsl(c)+fabsl(w[k]))*r();}}
    if(!solve(M,x))return false;for(int k=0;k<n;k++){x[k]*=1+2*e*r();z[i][k]=x[k]-w[k];z[i][k]+=e*(fabsl(x[k])+fabsl(w[k]))*r();}}
  un.resize(n);for(int k=0;k<n;k++){LD m=fabsl(u[k]);un[k]=u[k];for(int i=0;i<T.s;i++){LD c=d[i]*(1+ec*r())*z[i][k];un[k]+=c;m+=fabsl(c);}un[k]+=2*e*m*r();}
  return true;}
static bool refBoth(const Tab&T,const Problem&P,double h,const std::vector<double>&u0,bool affine,std::vector<LD>&un,std::vector<LD>&du,int rep=4){
  std::vector<LD> u(u0.begin(),u0.end()),v;if(!refStep(T,P,h,u,affine,un))return false;LD d=0;du.assign(P.n,0);for(int k=0;k<rep;k++){Rng q(k*7919+5);if(!refStep(T,P,h,u,affine,v,&q))return false;for(int i=0;i<P.n;i++){du[i]=std::max(du[i],fabsl(v[i]-un[i]));d=std::max(d,du[i]);}}
  for(int i=0;i<P.n;i++)du[i]=std::max(du[i],std::max(0.05L*d,1e-16L*fabsl(un[i])));return true;}
static const char*kinds[]={"symmetric dissipative","dissipative","general","skew","singular","zero","diagonal"};
static Problem problem(Rng&r,int n,int kind,double scale){Problem P;P.n=n;P.A=ML(n,n);P.b.assign(n,0);int bw=r.p(0.4)?n:r.i(0,2);auto&A=P.A;
  for(int i=0;i<n;i++)for(int j=0;j<n;j++)if(std::abs(i-j)<=bw)A(i,j)=r.u(-1,1);
  if(kind==0){for(int i=0;i<n;i++)for(int j=0;j<i;j++)A(i,j)=A(j,i);}if(kind==3){for(int i=0;i<n;i++){A(i,i)=0;for(int j=0;j<i;j++)A(i,j)=-A(j,i);}}
  if(kind<=1||kind==4)for(int i=0;i<n;i++){LD s=0;for(int j=0;j<n;j++)if(j!=i)s+=std::max(fabsl(A(i,j)),fabsl(A(j,i)));A(i,i)=-s-(LD)r.u(0,0.5);}
  if(kind==4){int k=r.i(0,n-1);for(int j=0;j<n;j++)A(k,j)=0;if(r.p(0.5))for(int j=0;j<n;j++)A(j,k)=0;}if(kind==5)P.A=ML(n,n);
  if(kind==6)for(int i=0;i<n;i++)for(int j=0;j<n;j++)A(i,j)=i==j?-(LD)r.lg(-6,1):0;
  for(int i=0;i<n;i++)for(int j=0;j<n;j++)A(i,j)=(double)(A(i,j)*scale);for(auto&v:P.b)v=r.p(0.8)?r.u(-2,2):0;return P;}
template<class RK> struct Name{static std::string get(){RK k;return k.name;}};
template<class RK> void compareStep(odes::Sdirkl<RK,Op>&S,Ctx&c,const Problem&P,double h,std::vector<double>&u,bool affine,const char*what){
  Tab T=tab<RK>();int n=P.n;std::vector<double> u0=u,b=P.b;long a0=c.napply;std::vector<LD> un,du;
  // exactly the storage asked for
  std::unique_ptr<double[]> x(new double[n]),ph(new double[n]);std::copy(u.begin(),u.end(),x.get());std::copy(b.begin(),b.end(),ph.get());
  if(affine)S.step(x.get(),ph.get());else S.step(x.get());std::copy(x.get(),x.get()+n,u.begin());
  VCHECK(memcmp(ph.get(),b.data(),8*n)==0,"forcing-modified","%s",what);
  VCHECK(c.napply-a0==T.s,"solves","%ld solves in one step, %d stages",c.napply-a0,T.s);VCHECK(!c.badArgs,"overlapping-arguments","input and output of the solve overlap");
  if(!refBoth(T,P,h,u0,affine,un,du)){count("singular");return;}
  LD worst=0;for(int i=0;i<n;i++){LD q=fabsl(un[i]-u[i])/(du[i]+1e-300L);if(!(q<=worst))worst=q;}if(!std::isfinite((double)un[0])){count("overflow");return;}
  count("steps compared");maxv("max distance/allowed",(double)worst);
  VCHECK(worst<=30,"step-not-the-tableau","%s: %.3Lg times what rounding explains; u=%s gives %s, tableau %s",what,worst,vec(u0).c_str(),vec(u).c_str(),vec(un).c_str());}
template<class RK> void steps(bool affine,long q,long t){std::string nm=Name<RK>::get();cases(fmt("steps %s%s",nm.c_str(),affine?" forced":""),scaled(q,t),[&](Rng&r){
  if(IsUser<RK>::s)userTab=randomTab(r,IsUser<RK>::s);
  int n=r.p(0.02)?r.pick({40,70}):r.pick({1,2,3,4,7,12,20});int kind=r.i(0,6);double h=r.lg(-4,2)*(r.p(0.1)?-1:1);double sc=r.lg(-3,r.p(0.3)?7:2)/std::fabs(h);Problem P=problem(r,n,kind,sc);if(h<0&&r.p(0.7))for(auto&v:P.A.a)v=-v;if(r.p(0.05))h=0;
  if(affine)for(auto&v:P.b)v*=r.lg(-2,2)*(r.p(0.2)?1/(std::fabs(h)+1e-9):1);
  std::vector<double> u(n);double us=r.lg(-5,5);for(auto&v:u)v=r.p(0.1)?0:r.u(-1,1)*us;describe(fmt("%s n=%d %s scale=%g h=%.17g u=",nm.c_str(),n,kinds[kind],sc,h)+vec(u));
  Ctx c;c.P=&P;cur=&c;odes::Sdirkl<RK,Op> S(n,h,affine);RK k0;VCHECK(c.ninit==1&&c.n==n&&!c.badInit,"set-up","operator initialised %ld times, n=%d",c.ninit,c.n);
  Tab T=tab<RK>();VCHECK(std::fabs(c.coef-(double)(T.g*h))<=1e-14*std::fabs((double)(T.g*h)),"set-up-coefficient","%.17g, expected %.17g",c.coef,(double)(T.g*h));
  int ns=r.i(1,4);for(int s=0;s<ns;s++){compareStep(S,c,P,h,u,affine,"step");if(!finite(u.data(),n))break;double m=0;for(double v:u)m=std::max(m,std::fabs(v));if(m>1e100)break;}
  VCHECK(c.ninit==1,"set-up","initialised again by a step");
  sig(fmt("%s %d %d %d %d",nm.c_str(),n,kind,(int)std::log10(sc*std::fabs(h)+1e-9),affine));if(st().nsamples<3)sample(st().desc+" -> "+vec(u));});}
template<class F> void all(F f){f((odes::EulerImp*)0);f((odes::CrN*)0);f((odes::RKRS*)0);f((odes::RKMethod2*)0);f((odes::RKMethod1*)0);}
// ---------------------------------------------------------------- observed orders, modes
typedef std::complex<LD> CL;
//! integrate one complex mode as a 2x2 real system
template<class RK> CL mode(CL lam,double h,int ns,CL u0){Problem P;P.n=2;P.A=ML(2,2);P.A(0,0)=P.A(1,1)=(double)lam.real();P.A(0,1)=-(double)lam.imag();P.A(1,0)=(double)lam.imag();P.b.assign(2,0);Ctx c;c.P=&P;cur=&c;odes::Sdirkl<RK,Op> S(2,h);double u[2]={(double)u0.real(),(double)u0.imag()};for(int i=0;i<ns;i++)S.step(u);return CL(u[0],u[1]);}
template<class RK> void orders(){std::string nm=Name<RK>::get();int order=tab<RK>().order;
  cases("orders "+nm,scaled(60,1500),[&](Rng&r){double ph=r.u(1.6,4.6);CL lam=CL((double)cosl(ph),(double)sinl(ph));double T=order>2?1:0.5;describe(fmt("%s lambda=(%.17g,%.17g)",nm.c_str(),(double)lam.real(),(double)lam.imag()));
    std::vector<LD> e;std::vector<int> ns=order>2?std::vector<int>{8,16,32}:std::vector<int>{64,128,256};for(int k:ns)e.push_back(std::abs(mode<RK>(lam,T/k,k,CL(1,0))-std::exp(lam*(LD)T)));
    for(size_t i=1;i<e.size();i++){double p=std::log2((double)(e[i-1]/e[i]));count("orders observed");maxv("max order deviation "+nm,std::fabs(p-order));VCHECK(p>order-0.5||e[i]<3e-14L,"order","%s: order %.3f between %d and %d steps, expected %d (errors %.3Lg %.3Lg)",nm.c_str(),p,ns[i-1],ns[i],order,e[i-1],e[i]);}
    sig(fmt("or %s %d",nm.c_str(),(int)(ph*10)));});}
template<class RK> void modes(bool lstable,bool astable){std::string nm=Name<RK>::get();
  cases("modes "+nm,scaled(300,10000),[&](Rng&r){double ph=r.p(0.2)?1.5707963267948966:r.p(0.2)?3.141592653589793:r.u(1.5708,3.1416);double m=r.lg(-3,9),h=r.lg(-4,2)/1;CL lam=std::polar((LD)m/h,(LD)ph);if(lam.real()>0)lam=CL(0,lam.imag());if(r.p(0.5))lam=std::conj(lam);describe(fmt("%s h*lambda=(%.17g,%.17g) h=%.17g",nm.c_str(),(double)lam.real()*h,(double)lam.imag()*h,h));
    double ps=r.u(0,6.28);CL u0(std::cos(ps),std::sin(ps));u0=CL((double)u0.real(),(double)u0.imag());int ns=r.i(1,5);CL u=mode<RK>(lam,h,ns,u0);LD q=std::abs(u)/std::abs(u0);count("modes observed");
    if(astable){maxv("max amplification-1 "+nm,(double)(q-1));VCHECK(q<=1+1e-12L,"mode-amplified","%s: |u| grew by %.17Lg in %d steps",nm.c_str(),q,ns);}
    if(lstable&&m>1e4)VCHECK(q<=std::max(200./m,1e-12),"stiff-mode-not-damped","%s: |u| multiplied by %.3Lg",nm.c_str(),q);
    sig(fmt("mo %s %d %d",nm.c_str(),(int)std::log10(m),(int)(ph*10)));});}
// ---------------------------------------------------------------- steady states, forced versus linear
template<class RK> void steady(){std::string nm=Name<RK>::get();
  cases("steady "+nm,scaled(300,10000),[&](Rng&r){int n=r.pick({1,2,3,5,9});int kind=r.pick({0,1,6});double h=r.lg(-3,1),sc=r.lg(-2,5)/h;Problem P=problem(r,n,kind,sc);std::vector<double> us(n);for(auto&v:us)v=r.u(-2,2);
    // b=-A u*, rounded
    LD nb=0;for(int i=0;i<n;i++){LD s=0,m=0;for(int j=0;j<n;j++){s-=P.A(i,j)*us[j];m+=fabsl(P.A(i,j)*us[j]);}P.b[i]=(double)s;nb=std::max(nb,m);}
    int ns=r.i(1,30);describe(fmt("%s steady n=%d %s scale=%g h=%.17g steps=%d u*=",nm.c_str(),n,kinds[kind],sc,h,ns)+vec(us));
    Ctx c;c.P=&P;cur=&c;odes::Sdirkl<RK,Op> S(n,h,true);std::vector<double> u=us,b=P.b;for(int s=0;s<ns;s++)S.step(u.data(),b.data());LD d=0;for(int i=0;i<n;i++)d=std::max(d,fabsl(u[i]-us[i]));
    // one rounding of h*b enters per step; it is not amplified
    LD tol=ns*(1e-12L);count("steady states");maxv("max steady drift per step",(double)(d/ns));VCHECK(d<=tol,"steady-state-lost","%s: distance %.3Lg after %d steps",nm.c_str(),d,ns);
    // deviation from it follows the linear scheme
    std::vector<double> v(n),w(n);for(int i=0;i<n;i++){double x=r.u(-1,1);v[i]=us[i]+x;w[i]=v[i]-us[i];}Ctx c2;c2.P=&P;cur=&c2;odes::Sdirkl<RK,Op> L(n,h,false);for(int s=0;s<ns;s++){S.step(v.data(),b.data());L.step(w.data());}
    d=0;for(int i=0;i<n;i++)d=std::max(d,fabsl((LD)v[i]-us[i]-w[i]));count("deviations");maxv("max deviation error per step",(double)(d/ns));VCHECK(d<=tol,"deviation-not-linear","%s: distance %.3Lg",nm.c_str(),d);
    sig(fmt("st %s %d %d",nm.c_str(),n,(int)std::log10(sc*h)));});
  cases("no forcing "+nm,scaled(200,5000),[&](Rng&r){int n=r.pick({1,2,3,5,9});int kind=r.i(0,6);double h=r.lg(-3,1),sc=r.lg(-3,4)/h;Problem P=problem(r,n,kind,sc);std::vector<double> u(n),z(n,0.);for(auto&v:u)v=r.u(-2,2);describe(fmt("%s zero forcing n=%d %s scale=%g h=%.17g u=",nm.c_str(),n,kinds[kind],sc,h)+vec(u));
    Ctx c;c.P=&P;cur=&c;odes::Sdirkl<RK,Op> S(n,h,true),L(n,h,false);std::vector<double> a=u,b=u;std::vector<LD> un,du;if(!refBoth(tab<RK>(),P,h,u,false,un,du))return;S.step(a.data(),z.data());L.step(b.data());for(int i=0;i<n;i++){VCHECK(fabsl(a[i]-(LD)b[i])<=30*du[i]+1e-300L,"zero-forcing","%s: %.17g linear %.17g",nm.c_str(),a[i],b[i]);}count("zero forcing");});
  // forcing only: constants and, with A=0, the exact solution u+t b
  cases("forcing only "+nm,scaled(100,2000),[&](Rng&r){int n=r.pick({1,2,3,5,9});double h=r.lg(-3,3);Problem P=problem(r,n,5,1);std::vector<double> u(n);for(auto&v:u)v=r.u(-2,2);int ns=r.i(1,40);describe(fmt("%s A=0 n=%d h=%.17g steps=%d",nm.c_str(),n,h,ns));Ctx c;c.P=&P;cur=&c;odes::Sdirkl<RK,Op> S(n,h,true);std::vector<double> x=u,b=P.b;for(int s=0;s<ns;s++)S.step(x.data(),b.data());
    for(int i=0;i<n;i++){LD e=u[i]+(LD)ns*h*P.b[i];VCHECK(fabsl(x[i]-e)<=ns*5e-14L*(fabsl(u[i])+ns*h*fabsl(P.b[i])+1e-300L),"forcing-only","%s: %.17g exact %.17Lg",nm.c_str(),x[i],e);}count("forcing only");});}
// ---------------------------------------------------------------- protocol
template<class F> int outcome(F f){try{f();return 0;}catch(UserEx&){return 2;}catch(GenericException&){return 1;}catch(...){return 3;}}
template<class RK> struct Obj{Problem P;Ctx c;std::unique_ptr<odes::Sdirkl<RK,Op>> S;std::vector<double> u,b;bool aff;double h;
  Obj(Rng&r,bool a):aff(a){int n=r.pick({1,2,3,5,9});h=r.lg(-3,1);P=problem(r,n,r.i(0,6),r.lg(-2,2)/h);u.resize(n);for(auto&v:u)v=r.u(-2,2);make();}
  void make(){c=Ctx();c.P=&P;cur=&c;S.reset(new odes::Sdirkl<RK,Op>(P.n,h,aff));}
  void step(){if(aff){b=P.b;S->step(u.data(),b.data());}else S->step(u.data());}};
template<class RK> void protocol(){std::string nm=Name<RK>::get();int s=tab<RK>().s;
  cases("protocol "+nm,scaled(300,8000),[&](Rng&r){describe(nm+" protocol");bool aff=r.p(0.5);Obj<RK> O(r,aff);int n=O.P.n;auto u0=O.u;
    VCHECK(O.c.ninit==1&&O.c.napply==0,"set-up","%ld set-ups, %ld solves at construction",O.c.ninit,O.c.napply);
    // the wrong interface
    int o=outcome([&]{if(aff)O.S->step(O.u.data());else{O.b=O.P.b;O.S->step(O.u.data(),O.b.data());}});VCHECK(o==1,"misuse-not-refused","the %s step of an object for the %s case: outcome %d",aff?"linear":"forced",aff?"affine":"linear",o);
    VCHECK(O.u==u0&&O.c.napply==0,"misuse-changes","the refused step changed something");count("misuse");
    // a solve that fails: nothing changed, and the next step is as if it had not been tried
    Obj<RK> Q(r,aff);int k=r.i(1,s);u0=Q.u;Q.c.throwAt=k;o=outcome([&]{Q.step();});VCHECK(o==2,"exception-lost","outcome %d",o);VCHECK(Q.u==u0,"failed-step-changes","solution changed by a step whose solve %d of %d failed",k,s);auto ref=[&](int ns){Obj<RK> R(r,aff);R.P=Q.P;R.h=Q.h;R.u=u0;R.make();for(int i=0;i<ns;i++)R.step();return R.u;};
    int ns=r.i(1,4);Q.c.throwAt=-1;for(int i=0;i<ns;i++)Q.step();auto g=ref(ns);VCHECK(memcmp(g.data(),Q.u.data(),8*g.size())==0,"failed-step-matters","%s, without the failure %s",vec(Q.u).c_str(),vec(g).c_str());count("failed solves");
    // set-up that fails
    Ctx c;c.P=&O.P;c.throwInit=true;cur=&c;o=outcome([&]{odes::Sdirkl<RK,Op> S(n,1.,aff);});VCHECK(o==2,"exception-lost","set-up: outcome %d",o);
    sig(fmt("pr %s %d %d %d %d",nm.c_str(),aff,n,k,ns));});
  cases("interleaved "+nm,scaled(150,4000),[&](Rng&r){describe(nm+" interleaved");int k=r.i(2,4);std::vector<std::unique_ptr<Obj<RK>>> v;std::vector<std::vector<double>> u0,g;std::vector<int> ns(k,0);for(int i=0;i<k;i++){v.emplace_back(new Obj<RK>(r,r.p(0.5)));u0.push_back(v[i]->u);}
    for(int q=0;q<12;q++){int i=r.i(0,k-1);v[i]->step();ns[i]++;if(r.p(0.2))outcome([&]{auto&O=*v[i];if(O.aff)O.S->step(O.u.data());else O.S->step(O.u.data(),O.P.b.data());});}
    for(int i=0;i<k;i++){Obj<RK> R(r,v[i]->aff);R.P=v[i]->P;R.h=v[i]->h;R.u=u0[i];R.make();for(int q=0;q<ns[i];q++)R.step();VCHECK(memcmp(R.u.data(),v[i]->u.data(),8*R.u.size())==0,"history-matters","%s, alone %s",vec(v[i]->u).c_str(),vec(R.u).c_str());VCHECK(v[i]->c.ninit==1&&v[i]->c.napply==(long)ns[i]*tab<RK>().s,"solves","%ld set-ups, %ld solves in %d steps",v[i]->c.ninit,v[i]->c.napply,ns[i]);count("objects compared");}
    if(r.p(0.15)){std::vector<std::unique_ptr<Obj<RK>>> w(k);for(int i=0;i<k;i++){w[i].reset(new Obj<RK>(r,v[i]->aff));w[i]->P=v[i]->P;w[i]->h=v[i]->h;w[i]->u=u0[i];w[i]->make();}std::vector<std::thread> th;for(int i=0;i<k;i++)th.emplace_back([&,i]{for(int q=0;q<ns[i];q++)w[i]->step();});for(auto&t:th)t.join();for(int i=0;i<k;i++)VCHECK(memcmp(w[i]->u.data(),v[i]->u.data(),8*w[i]->u.size())==0,"threads-matter","x");count("thread runs");}
    sig(fmt("in %s %d",nm.c_str(),k));});}
int main(int ac,char**av){init(ac,av);
#if PART==0
  all([](auto*p){steps<std::remove_pointer_t<decltype(p)>>(false,1200,40000);});
  steps<UserRK<1>>(false,400,10000);steps<UserRK<2>>(false,800,20000);steps<UserRK<3>>(false,800,20000);steps<UserRK<4>>(false,800,20000);steps<UserRK<5>>(false,800,20000);
#elif PART==1
  all([](auto*p){orders<std::remove_pointer_t<decltype(p)>>();});
  modes<odes::EulerImp>(true,true);modes<odes::CrN>(false,true);modes<odes::RKRS>(true,true);modes<odes::RKMethod2>(false,true);modes<odes::RKMethod1>(true,true);
#elif PART==2
  all([](auto*p){steps<std::remove_pointer_t<decltype(p)>>(true,1200,40000);});
  steps<UserRK<1>>(true,400,10000);steps<UserRK<2>>(true,800,20000);steps<UserRK<3>>(true,800,20000);steps<UserRK<4>>(true,800,20000);steps<UserRK<5>>(true,800,20000);
#elif PART==3
  all([](auto*p){steady<std::remove_pointer_t<decltype(p)>>();});
#elif PART==4
  all([](auto*p){protocol<std::remove_pointer_t<decltype(p)>>();});
#endif
  return finish();}
