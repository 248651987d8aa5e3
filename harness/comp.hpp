// One scenario of the life of a component: objects made, asked, used, made to fail, used again and
// destroyed, with everything a user can observe recorded in a Trace. COMP selects the component:
// 0,1 Radau5 - 2 Rodas (RMETH, RAUTO, RUSEDT) - 3 Rock4 - 4 Rock4L - 5 Sdirkl - 6 SymplecticRK.
#ifndef COMP_HPP
#define COMP_HPP
#if COMP==2
#define RODAS
#endif
#include "vf.hpp"
#if COMP<=2
#include "radau_run.hpp"
#elif COMP==3
#include "rock.hpp"
#ifdef ROCK4_OMP
#include <omp.h>
#endif
#elif COMP==4
#include "rockl.hpp"
#elif COMP==5
#include <memory>
#include "Sdirkl.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#undef MAX
#undef MIN
#else
#include "gauss.hpp"
#endif
#ifdef MEMCHECK
#include <valgrind/memcheck.h>
#define MUST_BE_DEFINED(p,n) (VALGRIND_CHECK_MEM_IS_DEFINED(p,n)!=0)
#else
#define MUST_BE_DEFINED(p,n) false
#endif
namespace vf {
//! what to do with the stack below, before the library runs
inline void(*&paintHook())(){static void(*h)()=0;return h;}
inline void paint(){if(paintHook())paintHook()();}
//! everything the user sees, in order
struct Trace{std::vector<std::pair<const char*,uint64_t>> e;std::vector<double> v;uint64_t fin=1469598103934665603ull;long events=0,undefs=0;const char*firstUndef=0;bool keep=true;
  void add(const char*l,const void*p,size_t n){if(MUST_BE_DEFINED(p,n)){++undefs;if(!firstUndef)firstUndef=l;}const unsigned char*q=(const unsigned char*)p;uint64_t h=1469598103934665603ull;for(size_t i=0;i<n;i++){h^=q[i];h*=1099511628211ull;}++events;fin=(fin^h)*1099511628211ull;
    paint();if(keep&&e.size()<20000){e.push_back({l,h});double d=0;if(n>=8)memcpy(&d,q,8);else if(n==4){int i;memcpy(&i,q,4);d=i;}v.push_back(d);}}
  void num(const char*l,double d){add(l,&d,8);} void num(const char*l,int d){add(l,&d,4);} void num(const char*l,bool d){add(l,&d,1);}
  void num(const char*l,LD d){add(l,&d,10);}
  void str(const char*l,const std::string&s){add(l,s.data(),s.size());}
  bool same(const Trace&o)const{return fin==o.fin&&events==o.events;}
  std::string diff(const Trace&o)const{size_t k=0;while(k<e.size()&&k<o.e.size()&&e[k].second==o.e[k].second&&!strcmp(e[k].first,o.e[k].first))++k;
    if(k>=e.size()||k>=o.e.size())return fmt("traces of %ld and %ld events",events,o.events);return fmt("event %zu: %s (%.17g) against %s (%.17g)",k,e[k].first,v[k],o.e[k].first,o.v[k]);}};
//! an array of exactly n numbers, at any address numbers may have
template<class D> struct UArr{char*base;D*p;int n;UArr(Rng&r,int n_,bool aligned=false):n(n_){int off=aligned?0:(int)alignof(D)*r.i(0,sizeof(D)==8?7:3);void*q=0;if(posix_memalign(&q,64,n*sizeof(D)+off))abort();base=(char*)q;p=(D*)(base+off);}~UArr(){free(base);}UArr(const UArr&)=delete;D&operator[](int i){return p[i];}};
struct Capture{std::stringbuf b;std::streambuf*o;Capture():o(std::cout.rdbuf(&b)){}~Capture(){std::cout.rdbuf(o);}};
static long okCalls=0,failedCalls=0,userFails=0,libFails=0,objects=0;
#if COMP<=2
template<class S> void getters(S&s,Trace&T,const char*w,bool called){T.num(w,s.getNstep());T.num(w,s.getNaccpt());T.num(w,s.getNrejct());T.num(w,s.getNJac());T.num(w,s.getNdec());T.num(w,nfcOf(s,0));T.num(w,s.getLastTimeStep());T.num(w,s.getfirstAcceptedStep());(void)called;
#ifndef RODAS
  T.num(w,s.getNewt());
#endif
}
template<int N,int SUB,int SUP,bool H,bool NJ> void scen(Rng&r,Trace&T){
  typedef Fn<N,SUB,SUP,H,NJ> F;typedef Solver<F> S;int no=r.i(1,2);std::vector<std::unique_ptr<S>> o;std::vector<bool> called;
  auto make=[&]{bool same=r.p(0.5);UArr<double> at(r,same?1:N),rt(r,same?1:N);for(int i=0;i<at.n;i++){rt[i]=r.lg(-6,-2);at[i]=rt[i]*r.lg(-1,1);}++objects;paint();return std::unique_ptr<S>(new S(same,at.p,rt.p));};
  for(int k=0;k<no;k++){o.push_back(make());called.push_back(false);getters(*o[k],T,"counters of a new object",false);}
  int nc=r.i(1,5);for(int q=0;q<nc;q++){int k=r.i(0,no-1);S&s=*o[k];Prob P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.7),r.u(0,3.5),r.p(0.2)?0:r.lg(-1,0.8));
    if(r.p(0.3)){s.performOnlyOneStep(r.p(0.5));s.setGustafssonTest(r.p(0.5));s.setNmax(r.i(1,500));}
#ifndef RODAS
    if(r.p(0.3)){s.setMaxIterationsNewton(r.i(3,9));s.setRecomputeJacobianTreshold(r.pick({-1.,0.001,0.1}));s.setSafe(r.u(0.7,0.95));s.setFacrFacl(r.u(0.1,0.3),r.u(4,9));}
    if(r.p(0.1))try{s.setFnewt(r.lg(-5,-1));T.num("setFnewt",true);}catch(odes::OdesException&){T.num("setFnewt",false);}
#endif
    if(r.p(0.3)){bool same=r.p(0.5);UArr<double> at(r,same?1:N),rt(r,same?1:N);for(int i=0;i<at.n;i++){rt[i]=r.lg(-6,-2);at[i]=rt[i]*r.lg(-1,1);}s.setTestPolicy(same,at.p,rt.p);}
    double dir=r.p(0.7)?1:-1,len=r.lg(-1.5,0.5);if(dir<0)len=std::min(len,5/(1e-3+P.lip));double x0=r.p(0.3)?0:r.u(-10,10),xe=x0+dir*len,h=dir*len*r.lg(-3,0.3);
    Ctx c;c.P=&P;c.limit=3000;int kind=r.i(0,9);long at=r.i(1,r.pick({3,30,200}));c.badKind=r.i(0,2);
    if(kind==1)c.throwAt=at;if(kind==2){c.nanAt=at;c.nanForever=r.p(0.7);s.setNmax(100);}if(kind==3)c.jthrowAt=r.i(1,4);if(kind==4){c.jnanAt=r.i(1,3);c.jnanForever=true;}if(kind==5)c.dthrowAt=r.i(1,4);
    if(kind==6){int w=r.i(0,4);if(w==0)h=0;if(w==1)h=NAN;if(w==2)xe=x0;if(w==3)xe=NAN;if(w==4)h=-h;}
    if(kind==7){double m=0;for(auto v:P.A)m=std::max(m,std::fabs(v));for(auto&v:P.A)v*=1e3/m;for(int i=0;i<N;i++)if(r.p(0.5))P.A[i*N+i]*=-1;s.setNmax(60);} // growth, singular systems, overflow
    c.onF=[&](double t,const double*y,const double*){T.num("time given to f",t);T.add("y given to f",y,8*N);};c.onJ=[&](double t,const double*y){T.num("time given to the Jacobian",t);T.add("y given to the Jacobian",y,8*N);};
    s.rhs().c=&c;UArr<double> y(r,N);for(int i=0;i<N;i++)y[i]=r.u(-2,2);double x=x0;int out=RETURNED;std::string msg;int rep=r.p(0.15)?3:1;
    for(int z=0;z<rep;z++){paint();try{s(h,x,xe,y.p);}catch(odes::OdesException&){out=LIBEX;}catch(UserEx&){out=USEREX;}catch(Runaway&){out=RUNAWAY;}
      T.num("outcome",out);T.num("x",x);T.add("y",y.p,8*N);getters(s,T,"counters",true);out==RETURNED?++okCalls:++failedCalls;if(out==USEREX)++userFails;if(out==LIBEX)++libFails;if(out!=RETURNED)break;}
    called[k]=true;s.performOnlyOneStep(false);s.setNmax(2000);
    if(r.p(0.2)){o[k].reset();o[k]=make();called[k]=false;}
  }
  if(r.p(0.5))std::reverse(o.begin(),o.end());o.clear();}
inline void scenario(Rng&r,Trace&T,std::string&d){
#ifdef MEMCHECK
  const double big=0;
#else
  const double big=0.006; // sizes from which the library works on blocks
#endif
#if COMP==0
  switch(r.p(big)?8+r.i(0,1):r.i(0,3)){case 8:d="n=140 full numj";scen<140,139,139,false,true>(r,T);break;case 9:d="n=300 band 70,40";scen<300,70,40,false,false>(r,T);break;case 0:d="n=1";scen<1,0,0,false,false>(r,T);break;case 1:d="n=2 numj";scen<2,1,1,false,true>(r,T);break;case 2:d="n=5 band 1,2";scen<5,1,2,false,false>(r,T);break;case 3:d="n=11 full";scen<11,10,10,false,false>(r,T);break;}
#elif COMP==1
  switch(r.p(big)?8:r.i(0,3)){case 8:d="n=150 hess";scen<150,149,149,true,false>(r,T);break;case 0:d="n=1 hess";scen<1,0,0,true,false>(r,T);break;case 1:d="n=3 hess";scen<3,2,2,true,false>(r,T);break;case 2:d="n=8 band 2,1 numj";scen<8,2,1,false,true>(r,T);break;case 3:d="n=7 hess numj";scen<7,6,6,true,true>(r,T);break;}
#else
  switch(r.p(big)?8+r.i(0,1):r.i(0,4)){case 8:d="n=135 hess numj";scen<135,134,134,true,true>(r,T);break;case 9:d="n=200 band 3,66";scen<200,3,66,false,false>(r,T);break;case 0:d="n=1";scen<1,0,0,false,false>(r,T);break;case 1:d="n=2 hess";scen<2,1,1,true,false>(r,T);break;case 2:d="n=6 band 1,3";scen<6,1,3,false,false>(r,T);break;case 3:d="n=4 numj";scen<4,3,3,false,true>(r,T);break;case 4:d="n=5 hess numj";scen<5,4,4,true,true>(r,T);break;}
#endif
}
#elif COMP==3
inline void getters(odes::Rock4<FR>&S,Trace&T,const char*w,bool called,bool acc){T.num(w,S.NbSteps());T.num(w,S.NbAccepted());T.num(w,S.NbRejected());T.num(w,S.NbRhsComputed());T.num(w,S.NbStages());T.num(w,S.nbUnkn());T.num(w,S.LastAcceptedTimeStep());(void)called;(void)acc;}
inline void scenario(Rng&r,Trace&T,std::string&d){int n=r.pick({1,2,3,4,5,7,8,9,16,33,100});d=fmt("n=%d",n);
#ifdef ROCK4_OMP
  omp_set_num_threads(r.i(1,4));
#endif
  int no=r.i(1,2);std::vector<std::unique_ptr<odes::Rock4<FR>>> o;std::vector<std::unique_ptr<FR>> F;auto make=[&](int k){F[k]->c=0;F[k]->n=n;++objects;paint();auto s=std::unique_ptr<odes::Rock4<FR>>(new odes::Rock4<FR>(*F[k]));getters(*s,T,"counters of a new object",false,false);return s;};
  for(int k=0;k<no;k++){F.emplace_back(new FR);o.push_back(make(k));}
  double*y=odes::allocDoubleArray(n);int nc=r.i(1,5);
  for(int q=0;q<nc;q++){int k=r.i(0,no-1);auto&S=*o[k];Prob P=rockProb(r,n,r.u(0,2.5),r.p(0.3)?0:r.lg(-1,0.6),r.p(0.3));RCtx c;c.P=&P;c.rho_=P.lip*r.u(1,1.4);c.limit=3000;double len=r.lg(-1.5,0.4),t0=r.u(-5,5),te=t0+len,h=len*r.lg(-2,0.2);
    if(r.p(0.5))S.setTolerances(r.lg(-7,-2),r.lg(-7,-2));int kind=r.i(0,6);c.badKind=r.i(0,2);long at=r.i(1,r.pick({3,20,100}));if(kind==1)c.throwAt=at;if(kind==2){c.nanAt=at;c.nanForever=r.p(0.7);}if(kind==3)c.rthrowAt=r.i(1,3);if(kind==4)c.rbadAt=r.i(1,3);
    if(kind==5){int w=r.i(0,4);if(w==0)h=0;if(w==1)h=NAN;if(w==2)te=t0;if(w==3)te=NAN;if(w==4)c.rho_=1e12;}
    c.onF=[&](const double*in,const double*){T.add("y given to f",in,8*n);};F[k]->c=&c;for(int i=0;i<n;i++)y[i]=r.u(-2,2);int out=RRET;
    paint();try{S(y,t0,te,h);}catch(odes::OdesException&){out=RLIB;}catch(UserEx&){out=RUSR;}catch(Runaway&){out=RRUN;}
    T.num("outcome",out);T.add("y",y,8*n);getters(S,T,"counters",true,S.NbAccepted()>0);out==RRET?++okCalls:++failedCalls;if(out==RUSR)++userFails;if(out==RLIB)++libFails;
    if(r.p(0.2)){o[k].reset();o[k]=make(k);}if(r.p(0.3)){odes::destroyDoubleArray(y);y=odes::allocDoubleArray(n);}}
  bool first=r.p(0.5);if(first)odes::destroyDoubleArray(y);if(r.p(0.5))std::reverse(o.begin(),o.end());o.clear();if(!first)odes::destroyDoubleArray(y);}
#elif COMP==4
template<bool A> void scenL(Rng&r,Trace&T,int n){typedef odes::Rock4L<FL,A> S;std::vector<std::unique_ptr<S>> o;std::vector<std::unique_ptr<FL>> F;int no=r.i(1,2);
  auto get=[&](S&s,const char*w,bool called){T.num(w,s.NbSteps());T.num(w,s.NbRhsComputed());T.num(w,s.NbStages());T.num(w,s.nbUnkn());T.num(w,s.Time());(void)called;};
  auto make=[&](int k){++objects;paint();auto s=std::unique_ptr<S>(new S(*F[k]));get(*s,"counters of a new object",false);return s;};for(int k=0;k<no;k++){F.emplace_back(new FL(0,n));o.push_back(make(k));}
  int nc=r.i(1,5);for(int q=0;q<nc;q++){int k=r.i(0,no-1);S&s=*o[k];Prob P=linProb(r,n,r.u(0,3),A,r.p(0.2));LCtx c;c.P=&P;c.rho_=P.lip*r.u(1,1.4);c.limit=4000;double len=r.lg(-1.5,0.4),t0=r.u(-5,5),te=t0+len,h=len*r.lg(-1.3,0.2);
    int kind=r.i(0,5);if(kind==1)c.throwAt=r.i(1,r.pick({3,20,100}));if(kind==2)c.rthrowAt=r.i(1,2);bool wrong=kind==3;if(kind==4){int w=r.i(0,4);if(w==0)h=0;if(w==1)h=NAN;if(w==2)te=t0;if(w==3)te=NAN;if(w==4)c.rho_=1e12;}
    c.onOp=[&](const double*in,const double*w,const double*g,double a,double b,double q){T.add("vector given to the operator",in,8*n);T.add("second vector given to the operator",w,8*n);if(g)T.add("forcing given to the operator",g,8*n);T.num("coefficient a",a);T.num("coefficient b",b);T.num("coefficient q",q);};F[k]->c=&c;double*y=odes::allocDoubleArray(n),*b=odes::allocDoubleArray(n);for(int i=0;i<n;i++){y[i]=r.u(-2,2);b[i]=P.c[i];}int out=LRET;
    paint();try{if(A!=wrong)s(y,b,t0,te,h);else s(y,t0,te,h);}catch(odes::OdesException&){out=LLIB;}catch(UserEx&){out=LUSR;}catch(Runaway&){out=LRUN;}
    T.num("outcome",out);T.add("y",y,8*n);T.add("forcing",b,8*n);get(s,"counters",out==LRET);out==LRET?++okCalls:++failedCalls;if(out==LUSR)++userFails;if(out==LLIB)++libFails;odes::destroyDoubleArray(y);odes::destroyDoubleArray(b);
    if(r.p(0.2)){o[k].reset();o[k]=make(k);}}
  if(r.p(0.5))std::reverse(o.begin(),o.end());o.clear();}
inline void scenario(Rng&r,Trace&T,std::string&d){int n=r.pick({1,2,3,4,5,7,8,9,16,33,100});bool a=r.p(0.5);d=fmt("n=%d %s",n,a?"affine":"linear");a?scenL<true>(r,T,n):scenL<false>(r,T,n);}
#elif COMP==5
struct SC{Mat<LD> A;long napply=0,throwAt=-1;bool throwInit=false;Trace*T=0;};static thread_local SC*scur=0;
struct SOp{SC*c;Mat<LD> M;int n=0;SOp():c(scur){}
  void init(int n_,double coef){n=n_;c->T->num("size given to the operator",n);c->T->num("coefficient given to the operator",coef);if(c->throwInit)throw UserEx{-1};M=Mat<LD>(n,n);for(int i=0;i<n;i++)for(int j=0;j<n;j++)M(i,j)=(i==j)-(LD)coef*c->A(i,j);}
  void apply(double in[],double out[]){++c->napply;c->T->add("right-hand side given to the operator",in,8*n);if(c->napply==c->throwAt)throw UserEx{1};std::vector<LD> b(in,in+n);if(!gsolve(M,b))throw UserEx{-2};for(int i=0;i<n;i++)out[i]=(double)b[i];}};
template<class RK> void scenS(Rng&r,Trace&T,int n){int no=r.i(1,2);typedef odes::Sdirkl<RK,SOp> S;std::vector<std::unique_ptr<SC>> C;std::vector<std::unique_ptr<S>> o(no);std::vector<bool> aff(no);
  for(int k=0;k<no;k++)C.emplace_back(new SC);
  auto make=[&](int k){SC&c=*C[k];c=SC();c.T=&T;c.A=Mat<LD>(n,n);for(auto&v:c.A.a)v=r.u(-1,1);for(int i=0;i<n;i++)c.A(i,i)-=n;if(r.p(0.15))c.throwInit=true;scur=&c;aff[k]=r.p(0.5);o[k].reset();++objects;paint();try{o[k].reset(new S(n,r.lg(-3,1),aff[k]));}catch(UserEx&){T.num("outcome",2);++failedCalls;++userFails;}};
  for(int k=0;k<no;k++)make(k);int nc=r.i(1,6);
  for(int q=0;q<nc;q++){int k=r.i(0,no-1);if(!o[k]||r.p(0.2)){make(k);if(!o[k])continue;}SC&c=*C[k];c.napply=0;c.throwAt=r.p(0.3)?r.i(1,6):-1;UArr<double> u(r,n),ph(r,n);for(int i=0;i<n;i++){u[i]=r.u(-2,2);ph[i]=r.u(-1,1);}bool a=aff[k]!=r.p(0.1);int out=0;
    paint();try{if(a)o[k]->step(u.p,ph.p);else o[k]->step(u.p);}catch(UserEx&){out=2;++userFails;}catch(GenericException&){out=3;++libFails;}catch(std::exception&){out=4;}
    T.num("outcome",out);T.add("u",u.p,8*n);T.add("forcing",ph.p,8*n);out?++failedCalls:++okCalls;}
  if(r.p(0.5))std::reverse(o.begin(),o.end());}
inline void scenario(Rng&r,Trace&T,std::string&d){int n=r.pick({1,2,3,4,5,7,8,9,16,33});int m=r.i(0,4);d=fmt("method %d n=%d",m,n);switch(m){case 0:scenS<odes::EulerImp>(r,T,n);break;case 1:scenS<odes::CrN>(r,T,n);break;case 2:scenS<odes::RKRS>(r,T,n);break;case 3:scenS<odes::RKMethod1>(r,T,n);break;case 4:scenS<odes::RKMethod2>(r,T,n);break;}}
#elif COMP==6
template<int N,int S_,class D> void scenG(Rng&r,Trace&T){typedef odes::SymplecticRK<GF<N,D>,S_,D> S;std::vector<std::unique_ptr<S>> o;int no=r.i(1,2);auto make=[&]{++objects;paint();return std::unique_ptr<S>(new S(r.pick({5,20,100})));};for(int k=0;k<no;k++)o.push_back(make());
  std::vector<bool> first(no,true);int nc=r.i(1,8);
  for(int q=0;q<nc;q++){int k=r.i(0,no-1);S&s=*o[k];SP P=makeSP(r,N,r.i(0,7));GCtx c;c.P=&P;c.limit=20000;int kind=r.i(0,5);if(kind==1)c.throwAt=r.i(1,60);if(kind==2){c.nanAt=r.i(1,60);c.nanForever=r.p(0.7);c.badKind=r.i(0,2);}
    UArr<D> u(r,N);auto u0=startSP(r,P,true);for(int i=0;i<N;i++)u[i]=(D)u0[i];D h=(D)r.lg(-3,kind==3?2:-0.5)*(D)r.sg();s.rhs().c=&c;bool f=first[k]||r.p(0.4);int out=0;
    int reps=r.i(1,4);for(int z=0;z<reps;z++){bool ok=false;bool g=f;paint();try{ok=s.step(h,u.p,g);}catch(UserEx&){out=2;}catch(Runaway&){out=3;}catch(odes::OdesException&){out=1;}
      T.num("outcome",out);T.num("success",ok);for(int i=0;i<N;i++)T.num("u",(LD)u[i]);T.num("first",g);T.num("iterations",s.maxIter());T.num("last difference",(LD)s.lastdiff());
      (out||!ok)?++failedCalls:++okCalls;if(out==2)++userFails;if(out)break;f=g;first[k]=false;}
    if(r.p(0.2)){o[k].reset();o[k]=make();first[k]=true;}}
  if(r.p(0.5))std::reverse(o.begin(),o.end());o.clear();}
template<int N,class D> void scenGS(Rng&r,Trace&T,int s){switch(s){
#define C(S) case S:scenG<N,S,D>(r,T);break;
  C(2)C(3)C(5)C(8)C(16)}
#undef C
}
inline void scenario(Rng&r,Trace&T,std::string&d){int s=r.pick({2,3,5,8,16}),n=r.pick({1,2,4});
#ifdef MEMCHECK
  bool dbl=true;
#else
  bool dbl=r.p(0.6);
#endif
  d=fmt("s=%d n=%d %s",s,n,dbl?"double":"long double");if(dbl)switch(n){case 1:scenGS<1,double>(r,T,s);break;case 2:scenGS<2,double>(r,T,s);break;case 4:scenGS<4,double>(r,T,s);break;}
  else switch(n){case 1:scenGS<1,LD>(r,T,s);break;case 2:scenGS<2,LD>(r,T,s);break;case 4:scenGS<4,LD>(r,T,s);break;}}
#endif
}
#endif
