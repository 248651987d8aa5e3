// Symplectic Gauss integrator: problems, wrapper over all stage numbers and precisions, reference solver.
#ifndef GAUSS_HPP
#define GAUSS_HPP
#include "vf.hpp"
#ifdef __clang__
extern "C"{__float128 sinq(__float128);__float128 cosq(__float128);__float128 sqrtq(__float128);__float128 fabsq(__float128);__float128 powq(__float128,__float128);__float128 logq(__float128);__float128 expq(__float128);}
#define M_PIq 3.141592653589793238462643383279502884Q
#else
#include <quadmath.h>
#endif
#include <memory>
#include <thread>
#include "SymplecticRK.hpp"
#undef MAX
#undef MIN
#undef ABS
#undef SIGN
#undef max
#undef min
typedef __float128 QD;
namespace vf {
inline double Rsin(double x){return std::sin(x);}inline LD Rsin(LD x){return sinl(x);}inline QD Rsin(QD x){return sinq(x);}
inline double Rcos(double x){return std::cos(x);}inline LD Rcos(LD x){return cosl(x);}inline QD Rcos(QD x){return cosq(x);}
inline double Rsqrt(double x){return std::sqrt(x);}inline LD Rsqrt(LD x){return sqrtl(x);}inline QD Rsqrt(QD x){return sqrtq(x);}
template<class R> R Rabs(R x){return x<0?-x:x;}
//! u'=f(u); kinds: 0 linear, 1 pendulums, 2 polynomial Hamiltonian (coupled, not separable), 3 quadratic invariant, 4 general, 5 constant, 6 linear Hamiltonian, 7 two bodies (n=4)
struct SP{int kind=0,n=1;std::vector<double> A,B,c,g;double lip=1; // g: factors of the rows, if any (unknowns that hardly move, or not at all)
  bool ham()const{return kind==1||kind==2||kind==6||kind==7;}
  template<class R> void f(const R*u,R*o)const{int m=n/2;auto a=[&](int i,int j){return (R)A[i*n+j];};
    switch(kind){
    case 0:for(int i=0;i<n;i++){R s=0;for(int j=0;j<n;j++)s+=a(i,j)*u[j];o[i]=s;}break;
    case 1:for(int i=0;i<m;i++){o[i]=u[m+i];R s=-(R)c[i]*Rsin(u[i]);for(int j=0;j<m;j++)if(j!=i)s-=(R)c[m]*(u[i]-u[j]);o[m+i]=s;}break;
    case 2:// H=sum p^2/2 (1+b q^2)+k q^2/2+g q^4/4 + coupling d (q_i q_{i+1})^2/2
      for(int i=0;i<m;i++){R q=u[i],p=u[m+i];o[i]=p*(1+(R)B[0]*q*q);R s=-(R)B[0]*p*p*q-(R)c[i]*q-(R)B[1]*q*q*q;if(m>1){R x=u[(i+1)%m],y=u[(i+m-1)%m];s-=(R)B[2]*q*(x*x+(m>2?y*y:0));}o[m+i]=s;}break;
    case 3:for(int i=0;i<n;i++){R s=0;for(int j=0;j<n;j++)if(j!=i)s+=(a(i,j)-a(j,i))*(1+(R)B[(i*j)%n]*u[(i+j)%n])*u[j];o[i]=s/(R)c[i];}break;
    case 4:for(int i=0;i<n;i++){R s=(R)c[i];for(int j=0;j<n;j++)s+=a(i,j)*u[j]+(R)B[i]*Rsin(u[j]);s+=(R)B[n]*u[i]*u[(i+1)%n];o[i]=s;}break;
    case 5:for(int i=0;i<n;i++)o[i]=(R)c[i];break;
    case 6:for(int i=0;i<n;i++){int k=i<m?i+m:i-m;R s=0;for(int j=0;j<n;j++)s+=(a(k,j)+a(j,k))*u[j];o[i]=i<m?s:-s;}break; // H=u^T A u
    case 7:{R r2=u[0]*u[0]+u[1]*u[1],r3=r2*Rsqrt(r2);o[0]=u[2];o[1]=u[3];o[2]=-(R)c[0]*u[0]/r3;o[3]=-(R)c[0]*u[1]/r3;}break;
    }
    if(!g.empty()&&(kind==0||kind==4))for(int i=0;i<n;i++)o[i]*=(R)g[i];}
  template<class R> R H(const R*u)const{int m=n/2;R h=0;auto a=[&](int i,int j){return (R)A[i*n+j];};
    switch(kind){case 1:for(int i=0;i<m;i++){h+=u[m+i]*u[m+i]/2-(R)c[i]*Rcos(u[i]);for(int j=0;j<i;j++)h+=(R)c[m]*(u[i]-u[j])*(u[i]-u[j])/2;}break;
    case 2:for(int i=0;i<m;i++){R q=u[i],p=u[m+i];h+=p*p/2*(1+(R)B[0]*q*q)+(R)c[i]*q*q/2+(R)B[1]*q*q*q*q/4;}if(m>1)for(int i=0;i<m;i++){if(m==2&&i==1)break;R q=u[i],x=u[(i+1)%m];h+=(R)B[2]*q*q*x*x/2;}break;
    case 6:for(int i=0;i<n;i++)for(int j=0;j<n;j++)h+=a(i,j)*u[i]*u[j];break;
    case 7:h=(u[2]*u[2]+u[3]*u[3])/2-(R)c[0]/Rsqrt(u[0]*u[0]+u[1]*u[1]);break;}
    return h;}
  //! quadratic invariant
  template<class R> R I(const R*u)const{R s=0;if(kind==3)for(int i=0;i<n;i++)s+=(R)c[i]*u[i]*u[i];else if(kind==6)s=H<R>(u);else if(kind==7)s=u[0]*u[3]-u[1]*u[2];return s;}
  bool quad()const{return kind==3||kind==6||kind==7;}
  std::string name()const{static const char*k[]={"linear","pendulums","polynomial Hamiltonian","quadratic invariant","general","constant","linear Hamiltonian","two bodies"};return fmt("%s n=%d",k[kind],n);}
};
inline SP makeSP(Rng&r,int n,int kind){SP P;P.n=n;if(n%2&&(kind==1||kind==2||kind==6))kind=3;if(kind==7&&n!=4)kind=n%2?4:1;if(kind==3&&n==1)kind=4;P.kind=kind;P.A.assign(n*n,0);for(auto&v:P.A)v=r.u(-1,1)/std::sqrt(n);P.B.assign(n+3,0);for(auto&v:P.B)v=r.u(-0.5,0.5);P.c.assign(n+1,0);for(auto&v:P.c)v=r.u(-1,1);
  if(kind==1){for(auto&v:P.c)v=r.u(0.2,1.5);P.c[n/2]=n>2?r.u(0,0.5):0;}if(kind==2){for(auto&v:P.c)v=r.u(0.2,1.5);P.B[0]=r.u(0,0.5);P.B[1]=r.u(0,0.5);P.B[2]=r.u(0,0.5);}if(kind==3)for(auto&v:P.c)v=r.u(0.5,2);
  if(kind==6&&r.p(0.7))for(int i=0;i<n;i++)for(int j=0;j<n;j++)P.A[i*n+j]=i==j?r.u(0.4,1):r.u(-0.1,0.1);if(kind==7)P.c[0]=r.u(0.5,1.5);
  if(n>1&&r.p(0.3)){double z=r.p(0.5)?0:r.lg(-7,-2);P.g.assign(n,1);int m=n/2,k=r.i(0,n-1);bool many=r.p(0.5);for(int i=0;i<n;i++)if(i!=k&&(many||r.p(0.5)))P.g[i]=z;
    if(kind==6)for(int i=0;i<m;i++)P.g[i+m]=P.g[i];if(kind==3||kind==6)for(int i=0;i<n;i++)for(int j=0;j<n;j++)P.A[i*n+j]*=P.g[i]*P.g[j];
    if(kind==1&&m>1){P.c[m]=0;P.c[k%m]=z;}}
  P.lip=kind==5?0:kind==7?4:4;return P;}
inline std::vector<LD> startSP(Rng&r,const SP&P,bool dbl){std::vector<LD> u(P.n);for(auto&v:u)v=r.u(-1.2,1.2)+(dbl?0:(LD)r.u(-1,1)*1e-17L);if(P.kind==7){u[0]=r.u(0.8,1.2);u[1]=r.u(-0.3,0.3);u[2]=r.u(-0.3,0.3);u[3]=r.u(0.7,1.1)*std::sqrt(P.c[0]);}for(auto&v:u)if(dbl)v=(double)v;return u;}
//! what the right-hand side does besides
struct GCtx{const SP*P=0;long nf=0,limit=10000000,nanAt=-1,throwAt=-1,nest=-1;bool nanForever=false;int badKind=0;std::function<void()> inside;
  void tick(){++nf;if(nf>limit)throw Runaway();if(nf==throwAt)throw UserEx{(int)nf};}
  bool bad()const{return nanAt>0&&(nf==nanAt||(nanForever&&nf>nanAt));}};
template<int N,class D> struct GF{static const int n=N;GCtx*c=0;void operator()(D*in,D*out){c->tick();if(c->inside)c->inside();c->P->f<D>(in,out);if(c->bad())out[(c->nf*7)%N]=c->badKind==0?NAN:c->badKind==1?INFINITY:-INFINITY;}};
struct Sym{GCtx c;LD umax=0;int s,n;bool dbl;virtual ~Sym(){}virtual bool step(LD h,std::vector<LD>&u,bool first)=0;virtual int iters()=0;virtual LD diff()=0;virtual void coeffs(std::vector<LD>&A,std::vector<LD>&b)=0;
  LD eps()const{return dbl?2.220446049250313e-16L:1.0842021724855044e-19L;}};
template<int N,int S,class D> struct SymI:Sym{odes::SymplecticRK<GF<N,D>,S,D> o;
  explicit SymI(int itermax):o(itermax){s=S;n=N;dbl=std::is_same<D,double>::value;o.rhs().c=&c;}
  bool step(LD h,std::vector<LD>&u,bool first)override{std::unique_ptr<D[]> v(new D[N]);for(int i=0;i<N;i++)v[i]=(D)u[i];bool ok;struct Back{D*v;std::vector<LD>&u;~Back(){for(int i=0;i<N;i++)u[i]=v[i];}}b{v.get(),u};ok=o.step((D)h,v.get(),first);return ok;}
  int iters()override{return o.maxIter();}LD diff()override{return o.lastdiff();}
  void coeffs(std::vector<LD>&A,std::vector<LD>&b)override{odes::GaussianMethod<S,D> g;A.resize(S*S);b.resize(S);for(int i=0;i<S;i++){b[i]=g.b[i];for(int j=0;j<S;j++)A[i*S+j]=g.A(i,j);}}};
template<int N,class D> Sym* makeSym2(int s,int it){
#define C(S) case S:return new SymI<N,S,D>(it);
  switch(s){C(2)C(3)C(4)C(5)C(6)C(7)C(8)C(9)C(10)C(11)C(12)C(13)C(14)C(15)C(16)}
#undef C
  abort();}
template<class D> Sym* makeSym10(int s,int it){switch(s){case 2:return new SymI<10,2,D>(it);case 5:return new SymI<10,5,D>(it);case 12:return new SymI<10,12,D>(it);}abort();}
inline std::unique_ptr<Sym> makeSym(int n,int s,bool dbl,int it=200){Sym*p=0;
#ifndef ONLY_DOUBLE
  if(!dbl)switch(n){case 1:p=makeSym2<1,LD>(s,it);break;case 2:p=makeSym2<2,LD>(s,it);break;case 4:p=makeSym2<4,LD>(s,it);break;case 10:p=makeSym10<LD>(s,it);break;}
#endif
#ifndef ONLY_LONG
  if(dbl)switch(n){case 1:p=makeSym2<1,double>(s,it);break;case 2:p=makeSym2<2,double>(s,it);break;case 4:p=makeSym2<4,double>(s,it);break;case 10:p=makeSym10<double>(s,it);break;}
#endif
  return std::unique_ptr<Sym>(p);}
// ---------------------------------------------------------------- Gauss coefficients in quadruple precision
struct GTab{int s;std::vector<QD> c,b,A;};
inline const GTab& gtab(int s){static std::map<int,GTab> T;auto it=T.find(s);if(it!=T.end())return it->second;GTab g;g.s=s;g.c.resize(s);g.b.resize(s);g.A.assign(s*s,0);
  for(int k=0;k<s;k++){QD x=cosq(M_PIq*(k+0.75Q)/(s+0.5Q)),dp=0;for(int it2=0;it2<100;it2++){QD p0=1,p1=x;for(int j=2;j<=s;j++){QD p=((2*j-1)*x*p1-(j-1)*p0)/j;p0=p1;p1=p;}dp=s*(x*p1-p0)/(x*x-1);QD d=p1/dp;x-=d;if(fabsq(d)<1e-33Q)break;}
    {QD p0=1,p1=x;for(int j=2;j<=s;j++){QD p=((2*j-1)*x*p1-(j-1)*p0)/j;p0=p1;p1=p;}dp=s*(x*p1-p0)/(x*x-1);}g.c[s-1-k]=(1+x)/2;g.b[s-1-k]=1/((1-x*x)*dp*dp);}
  // a_ij=int_0^ci l_j, through the Legendre expansion of l_j: exact by the quadrature itself: a_ij=b_j sum_k (2k+1) P~_k(c_j) int_0^ci P~_k
  for(int i=0;i<s;i++)for(int j=0;j<s;j++){QD sum=0;auto leg=[&](int k,QD x){QD p0=1,p1=2*x-1,y=2*x-1;if(k==0)return p0;for(int q=2;q<=k;q++){QD p=((2*q-1)*y*p1-(q-1)*p0)/q;p0=p1;p1=p;}return p1;};
      for(int k=0;k<s;k++){QD in=k==0?g.c[i]:(leg(k+1,g.c[i])-leg(k-1,g.c[i]))/(2*(2*k+1));sum+=(2*k+1)*leg(k,g.c[j])*in;}g.A[i*s+j]=g.b[j]*sum;}
  return T[s]=g;}
//! the collocation step by fixed point iteration; pert: relative perturbation of everything rounded (fixed pattern)
template<class R> bool refGauss(const SP&P,int s,R h,const std::vector<R>&u,std::vector<R>&un,LD pert=0,uint64_t key=0){
  const GTab&g=gtab(s);int n=P.n;std::vector<R> A(s*s),b(s);Rng q(key*977+3);auto r=[&](){return pert?(R)(pert*(LD)q.u(-1,1)):R(0);};
  for(int i=0;i<s*s;i++)A[i]=(R)g.A[i]*(1+r());for(int i=0;i<s;i++)b[i]=(R)g.b[i]*(1+r());
  // the rounding of the coefficients times h, of every sum and of f
  std::vector<R> eS(s*n,R(0)),eF(s*n,R(0)),eL(s*n,R(0)),eU(n,R(0));if(pert)for(int i=0;i<s*n;i++){eS[i]=2*r();eF[i]=3*r();eL[i]=2*r();}for(int i=0;i<n;i++)eU[i]=2*r();
  std::vector<R> Y(s*n),F(s*n),Z(s*n);for(int i=0;i<s;i++)for(int l=0;l<n;l++)Y[i*n+l]=u[l];R tol=sizeof(R)==16&&!std::is_same<R,LD>::value?(R)1e-31:(R)2e-19L;bool quad=!std::is_same<R,LD>::value;tol=quad?R(1e-31):R(3e-19L);
  R old=1e30;for(int it=0;it<3000;it++){R m=0,d=0;
    for(int i=0;i<s;i++){P.f<R>(&Y[i*n],&F[i*n]);if(pert){R um=0;for(int l=0;l<n;l++)um=std::max(um,Rabs(Y[i*n+l]));for(int l=0;l<n;l++)F[i*n+l]+=eF[i*n+l]*Rabs(F[i*n+l])+eL[i*n+l]*(R)P.lip*um;}}
    for(int i=0;i<s;i++)for(int l=0;l<n;l++){R v=u[l],mg=Rabs(u[l]);for(int j=0;j<s;j++){R w=h*A[i*s+j]*F[j*n+l];v+=w;mg+=Rabs(w);}v+=eS[i*n+l]*mg;Z[i*n+l]=v;d=std::max(d,Rabs(v-Y[i*n+l]));m=std::max(m,Rabs(v));}
    Y.swap(Z);if(!(d<(R)1e30))return false;if(d<=tol*(m+(R)1e-300)){un.resize(n);for(int l=0;l<n;l++){R v=0;for(int j=0;j<s;j++){R w=h*b[j]*F[j*n+l];v+=w+eS[j*n+l]*Rabs(w);}un[l]=u[l]+v;}return true;}
    old=d;}
  return false;}
//! reference and what rounding (unit eps) may do to a step
inline bool refStepG(const SP&P,int s,bool dbl,LD h,const std::vector<LD>&u,std::vector<QD>&un,LD&allow,int rep=3){
  std::vector<LD> a,b;LD eps=dbl?2.220446049250313e-16L:1.0842021724855044e-19L;if(!refGauss<LD>(P,s,h,u,a))return false;
  if(dbl)un.assign(a.begin(),a.end());else{std::vector<QD> uq(u.begin(),u.end());if(!refGauss<QD>(P,s,(QD)h,uq,un))return false;}
  allow=0;const LD big=1e-9L;for(int k=0;k<rep;k++){if(!refGauss<LD>(P,s,h,u,b,big,k+1))return false;for(int l=0;l<P.n;l++)allow=std::max(allow,fabsl(b[l]-a[l]));}allow*=eps/big;
  LD m=0;for(LD v:u)m=std::max(m,fabsl(v));for(LD v:a)m=std::max(m,fabsl(v));allow+=eps*m;return true;}
inline std::string pr(const std::vector<LD>&u){std::string s="[";for(size_t i=0;i<u.size();i++)s+=fmt("%s%.21Lg",i?",":"",u[i]);return s+"]";}
inline LD dist(const std::vector<LD>&a,const std::vector<QD>&b){LD d=0;for(size_t i=0;i<a.size();i++){LD x=(LD)fabsq((QD)a[i]-b[i]);if(!(x<=d))d=x;}return d;}
}
#endif
