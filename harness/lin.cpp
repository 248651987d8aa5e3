// Linear systems in every layout, on the class the integrators derive from.
// PART 0 full, 1 Hessenberg, 2 and 3 band: residuals (C01), and exactly singular systems (C02, -DSINGULAR).
#include "vf.hpp"
#include <memory>
#include "protos_lapack.hpp"
#include "Matrices.hpp"
#include <complex>
#undef MAX
#undef MIN
#undef ABS
using namespace vf;
template<bool F,bool H,int N,int KL,int KU> struct Probe: odes::Matrices<F,H,N,KL,KU>{
  typedef odes::Matrices<F,H,N,KL,KU> B; using B::calhes; using B::decomr; using B::decomc; using B::solvereal; using B::solvecomplex; using B::Ibegin; using B::Iend;
};
typedef std::complex<LD> CLD;
//! matrices of the kinds integrators meet, and less friendly ones; only elements of the band
inline void fillMatrix(Rng&r,int n,int kl,int ku,std::vector<double>&A,std::string&what){
  A.assign((size_t)n*n,0);int k=r.i(0,11);static const char*nm[]={"random","sparse","graded rows","graded columns","zero","diagonal","nilpotent","companion","stiff","permutation","symmetric","huge spread"};what=nm[k];
  auto in=[&](int i,int j){return i>=0&&j>=0&&i<n&&j<n&&i-j<=kl&&j-i<=ku;};
  double sc=r.p(0.4)?1:r.lg(-6,6);
  for(int i=0;i<n;i++)for(int j=0;j<n;j++)if(in(i,j)){double v=r.u(-1,1);
    switch(k){case 1:if(!r.p(0.3))v=0;break;case 2:v*=pow(10.,-6.*i/n);break;case 3:v*=pow(10.,-6.*j/n);break;case 4:v=0;break;case 5:if(i!=j)v=0;break;
      case 6:if(j<=i)v=0;break;case 7:v=i==j+1?1:(j==n-1||(ku<n-1&&j==i+ku))?v:0;break;case 8:if(i==j)v=-r.lg(0,6);break;case 9:v=0;break;case 10:if(j<i&&in(j,i))v=A[j*n+i];break;case 11:v*=r.lg(-9,3);break;}
    A[i*n+j]=v*sc;}
  if(k==9){std::vector<int> p(n);for(int i=0;i<n;i++)p[i]=i;for(int i=0;i+1<n;i++)if(r.p(0.6)&&in(i,p[i+1])&&in(i+1,p[i]))std::swap(p[i],p[i+1]);for(int i=0;i<n;i++)A[i*n+p[i]]=sc*r.sg();}
}
struct Cond{LD norm;};
template<class M> void putJ(M&J,const std::vector<double>&A,int n,int kl,int ku){for(int i=1;i<=n;i++)for(int j=1;j<=n;j++)if(i-j<=kl&&j-i<=ku)J(i,j)=A[(i-1)*n+j-1];}
template<class T> LD normM(const std::vector<T>&A,int n){LD m=0;for(int i=0;i<n;i++){LD s=0;for(int j=0;j<n;j++)s+=std::abs(A[i*n+j]);m=std::max(m,s);}LD f=0;for(int j=0;j<n;j++){LD s=0;for(int i=0;i<n;i++)s+=std::abs(A[i*n+j]);f=std::max(f,s);}return std::max(m,f);}
// residual b-Ax over eps*(|A||x|+|b|), in the maximum norm
template<class T> LD resid(const std::vector<T>&A,int n,const std::vector<T>&x,const std::vector<T>&b){LD xm=0,bm=0,w=0;for(int i=0;i<n;i++){xm=std::max(xm,(LD)std::abs(x[i]));bm=std::max(bm,(LD)std::abs(b[i]));}
  for(int i=0;i<n;i++){T s=b[i];for(int j=0;j<n;j++)s-=A[i*n+j]*x[j];LD d=std::abs(s);if(!(d<=w))w=d;}
  LD den=normM(A,n)*xm+bm;if(den==0)return w==0?0:INFINITY;return w/(den*2.220446049250313e-16L);}
inline bool unsolvable(std::vector<CLD> A,int n){Mat<CLD> M(n,n);for(int i=0;i<n*n;i++)M.a[i]=A[i];LD nm=normM(A,n);
  // smallest pivot in long double elimination: singular to working precision of double?
  for(int k=0;k<n;k++){int p=k;for(int i=k;i<n;i++)if(std::abs(M(i,k))>std::abs(M(p,k)))p=i;if(std::abs(M(p,k))<=nm*1e-13L)return true;for(int j=0;j<n;j++)std::swap(M(k,j),M(p,j));for(int i=k+1;i<n;i++){CLD l=M(i,k)/M(k,k);for(int j=k;j<n;j++)M(i,j)-=l*M(k,j);}}
  return false;}
template<bool F,bool H,int N,int KL,int KU> void residuals(long nq,long nt){
  typedef Probe<F,H,N,KL,KU> P;const int kl=F?N-1:KL,ku=F?N-1:KU;
  cases(fmt("residuals %s n=%d kl=%d ku=%d",F?(H?"hessenberg":"full"):"band",N,KL,KU),scaled(nq,nt),[&](Rng&r){
    std::unique_ptr<P> p(new P);typename P::B::MatrixReal J;std::vector<double> A;std::string what;int rounds=r.i(1,3);LD worst=0;
    for(int rd=0;rd<rounds;rd++){
      fillMatrix(r,N,kl,ku,A,what);putJ(J,A,N,kl,ku);p->calhes=true;LD nA=normM(A,N);
      int shifts=r.i(1,4);typename P::B::MatrixReal J1;bool have=false;
      for(int s=0;s<shifts;s++){
        LD base=nA>0?nA:1;double sh=(double)(base*r.lg(-3,5))*(r.p(0.15)?-1:1);if(r.p(0.05))sh=0;
        double al=(double)(base*r.lg(-3,4)),be=(double)(base*r.lg(-3,4))*r.sg();if(r.p(0.05))al=0;
        describe(fmt("round %d shift %d %s n=%d kl=%d ku=%d shift=%.17g alpha=%.17g beta=%.17g A=",rd,s,what.c_str(),N,kl,ku,sh,al,be)+vec(A));
        std::vector<CLD> R(N*N),C(N*N);for(int i=0;i<N;i++)for(int j=0;j<N;j++){R[i*N+j]=-(LD)A[i*N+j]+(i==j?(LD)sh:0);C[i*N+j]=CLD(-(LD)A[i*N+j]+(i==j?(LD)al:0),i==j?(LD)be:0);}
        bool ur=unsolvable(R,N),uc=unsolvable(C,N);
        bool okr=true,okc=true;
        try{p->decomr(sh,J);}catch(odes::OdesException&){okr=false;VCHECK(ur,"regular-system-refused","real system");}
        if(have){bool eq=true;for(int i=1;i<=N&&eq;i++)for(int j=1;j<=N;j++)if(i-j<=kl&&j-i<=ku&&!(J(i,j)==J1(i,j)))eq=false;VCHECK(eq,"jacobian-changed","by a factorization with a new shift");}
        if(!H||s==0){if(!H){bool eq=true;for(int i=1;i<=N;i++)for(int j=1;j<=N;j++)if(i-j<=kl&&j-i<=ku&&J(i,j)!=A[(i-1)*N+j-1])eq=false;VCHECK(eq,"jacobian-changed","by decomr");}J1=J;have=true;}
        try{p->decomc(al,be,J);}catch(odes::OdesException&){okc=false;VCHECK(uc,"regular-system-refused","complex system");}
        int solves=r.i(1,4);
        for(int q=0;q<solves;q++){
          bool cx=r.p(0.5);odes::fortranVectorF<N> b,bi;std::vector<CLD> B(N),X(N);double bs=r.lg(-8,8);int sparse=r.i(0,3);
          for(int i=1;i<=N;i++){b(i)=sparse==0&&!r.p(0.3)?0:bs*r.u(-1,1);bi(i)=sparse==1&&!r.p(0.3)?0:bs*r.u(-1,1);B[i-1]=CLD(b(i),cx?bi(i):0);}
          if(!cx&&okr&&!ur){p->solvereal(b,J);for(int i=0;i<N;i++)X[i]=CLD(b(i+1),0);LD w=resid(R,N,X,B);worst=std::max(worst,w/(3+N));count("real systems");maxv("max residual/(3+n) eps (real)",(double)(w/(3+N)));VCHECK(w<=20*(3+N),"residual","real system, solve %d: %.3Lg eps",q,w);}
          else if(cx&&okc&&!uc){p->solvecomplex(b,bi,J);for(int i=0;i<N;i++)X[i]=CLD(b(i+1),bi(i+1));LD w=resid(C,N,X,B);worst=std::max(worst,w/(3+N));count("complex systems");maxv("max residual/(3+n) eps (complex)",(double)(w/(3+N)));VCHECK(w<=20*(3+N),"residual","complex system, solve %d: %.3Lg eps",q,w);}
          else count("systems singular to rounding");
          bool eq=true;for(int i=1;i<=N&&eq;i++)for(int j=1;j<=N;j++)if(i-j<=kl&&j-i<=ku&&!(J(i,j)==J1(i,j)))eq=false;VCHECK(eq,"jacobian-changed","by a solve");
        }
        sig(fmt("%d%d %d %d %d %s %d",F,H,N,KL,KU,what.c_str(),shifts));
      }
    }
    if(st().nsamples<3)sample(st().desc+fmt(" -> residual %.3Lg (3+n) eps",worst));});
  for(int j=1;j<=N;j++){Probe<F,H,N,KL,KU>p;VCHECK(p.Ibegin(j)==std::max(1,j-ku)&&p.Iend(j)==std::min(N,j+kl),"band-limits","column %d of n=%d kl=%d ku=%d: %d..%d",j,N,kl,ku,p.Ibegin(j),p.Iend(j));}
}
// Systems singular in exact arithmetic, with small integers and powers of two so that every pivot is exact.
template<bool F,bool H,int N,int KL,int KU> void singular(long nq,long nt){
  typedef Probe<F,H,N,KL,KU> P;const int kl=F?N-1:KL,ku=F?N-1:KU;
  cases(fmt("singular %s n=%d kl=%d ku=%d",F?(H?"hessenberg":"full"):"band",N,KL,KU),scaled(nq,nt),[&](Rng&r){
    std::vector<double> S(N*N,0),A(N*N);auto in=[&](int i,int j){return i-j<=kl&&j-i<=ku;};
    double sh=std::ldexp(1.,r.i(-2,3)),be=std::ldexp(1.,r.i(-2,3))*r.sg();bool cx=r.p(0.5);int kind=0;
    auto p2=[&]{return std::ldexp(1.,r.i(-2,2))*r.sg();};
    // S: upper triangular with powers of two on the diagonal
    for(int i=0;i<N;i++)for(int j=i;j<N;j++)if(in(i,j))S[i*N+j]=i==j?p2():(double)r.i(-2,2);
    if(!cx){
      kind=r.i(0,(H||kl==0||N<2)?(N>1&&kl>0?1:0):3);int k=r.i(0,N-1);
      if(kind==0)S[k*N+k]=0;                                             // zero pivot at any place
      else if(kind==1){k=r.i(0,N-2);S[k*N+k]=1;S[(k+1)*N+k]=r.sg()*(r.p(0.5)?1:0.5);double l=S[(k+1)*N+k];for(int j=k+1;j<N;j++)if(in(k+1,j))S[(k+1)*N+j]=in(k,j)?l*S[k*N+j]:0;} // a row is a multiple of the one above (Hessenberg form)
      else if(kind==2){for(int i=0;i<N;i++)S[i*N+k]=0;}                    // a column of zeros
      else {for(int j=0;j<N;j++)S[k*N+j]=0;}                               // a row of zeros
      if(kind==1&&ku>0&&k+1+ku<N){/* the row below may reach further: its last element stays zero */}
      for(int i=0;i<N;i++)for(int j=0;j<N;j++)A[i*N+j]=(i==j?sh:0)-S[i*N+j];
    }else{
      // alpha+i beta a simple eigenvalue of A: block [alpha beta; -beta alpha] in a triangular matrix. alpha=0.
      if(N<2||kl<1||ku<1){count("no complex eigenvalue");return;}
      int k=r.i(0,N-2);for(int i=0;i<N;i++)S[i*N+i]=(double)(i==k||i==k+1?0:p2()); // S= real part of alpha I - A
      double sg=r.sg();S[k*N+k+1]=-sg*be;S[(k+1)*N+k]=sg*be;for(int i=0;i<N;i++)for(int j=i+1;j<N;j++)if(!(i==k&&j==k+1))S[i*N+j]=0; // other elements: block diagonal
      for(int i=0;i<N;i++)for(int j=0;j<N;j++)A[i*N+j]=(i==j?sh:0)-S[i*N+j];kind=9;}
    if(!cx&&r.p(0.5)&&F&&!H){ // permuted rows and columns
      for(int q=0;q<N;q++){int a=r.i(0,N-1),b=r.i(0,N-1);if(a==b)continue;for(int j=0;j<N;j++)std::swap(S[a*N+j],S[b*N+j]);}
      for(int i=0;i<N;i++)for(int j=0;j<N;j++)A[i*N+j]=(i==j?sh:0)-S[i*N+j];}
    describe(fmt("%s kind %d n=%d kl=%d ku=%d shift=%g beta=%g A=",cx?"complex":"real",kind,N,kl,ku,sh,be)+vec(A));
    std::unique_ptr<P> p(new P);typename P::B::MatrixReal J;putJ(J,A,N,kl,ku);p->calhes=true;bool thrown=false;
    if(!cx){ // exact check of singularity by fraction free reasoning is unnecessary: the constructions are singular
      try{p->decomr(sh,J);}catch(odes::OdesException&){thrown=true;}
      VCHECK(thrown,"singular-accepted","real system");count(kind==0?"zero pivot":kind==1?"dependent rows":kind==2?"zero column":"zero row");
    }else{double s2=sh;for(int i=0;i<20;i++){s2=sh+100*(i+1);bool ok=true;try{p->decomr(s2,J);}catch(odes::OdesException&){ok=false;}if(ok)break;}
      try{p->decomc(sh,be,J);}catch(odes::OdesException&){thrown=true;}
      VCHECK(thrown,"singular-accepted","complex system");count("complex eigenvalue");}
    sig(fmt("s%d%d %d %d %d %d",F,H,N,KL,KU,kind));
    // the object stays usable: another matrix
    std::vector<double> B(N*N,0);for(int i=0;i<N;i++)for(int j=0;j<N;j++)if(in(i,j))B[i*N+j]=r.u(-1,1);putJ(J,B,N,kl,ku);p->calhes=true;double s3=3*N;
    try{p->decomr(s3,J);p->decomc(s3,1,J);odes::fortranVectorF<N> b,c,d;std::vector<CLD> R(N*N),C(N*N),X(N),Bv(N),X2(N),B2(N);for(int i=0;i<N;i++){b(i+1)=r.u(-1,1);c(i+1)=r.u(-1,1);d(i+1)=r.u(-1,1);Bv[i]=b(i+1);B2[i]=CLD(c(i+1),d(i+1));for(int j=0;j<N;j++){R[i*N+j]=-(LD)B[i*N+j]+(i==j?(LD)s3:0);C[i*N+j]=CLD(R[i*N+j].real(),i==j?1:0);}}
      p->solvereal(b,J);p->solvecomplex(c,d,J);for(int i=0;i<N;i++){X[i]=b(i+1);X2[i]=CLD(c(i+1),d(i+1));}
      LD w=std::max(resid(R,N,X,Bv),resid(C,N,X2,B2));VCHECK(w<=20*(3+N),"residual","after a singular matrix: %.3Lg eps",w);count("regular systems after singular ones");
    }catch(odes::OdesException&){VCHECK(false,"regular-system-refused","after a singular one");}
  });
  // Jacobians with infinite or NaN entries anywhere
  cases(fmt("not finite %s n=%d kl=%d ku=%d",F?(H?"hessenberg":"full"):"band",N,KL,KU),scaled(std::min<long>(nq,6),nt),[&](Rng&r){
    std::vector<double> A;std::string what;fillMatrix(r,N,kl,ku,A,what);int i,j;do{i=r.i(0,N-1);j=r.i(0,N-1);}while(!(i-j<=kl&&j-i<=ku));double v=r.pick({NAN,INFINITY,-INFINITY});A[i*N+j]=v;
    describe(fmt("element (%d,%d)=%g n=%d kl=%d ku=%d",i+1,j+1,v,N,kl,ku));std::unique_ptr<P> p(new P);typename P::B::MatrixReal J;putJ(J,A,N,kl,ku);p->calhes=true;bool t=false;try{p->decomr(5,J);}catch(odes::OdesException&){t=true;}
    VCHECK(t,"not-finite-accepted","factored");count("Jacobians not finite");sig(fmt("nf%d%d %d %d %d",F,H,N,KL,KU));});
}
#ifdef SINGULAR
#define RUN(F,H,N,KL,KU) singular<F,H,N,KL,KU>(N>100?2:25,N>100?30:800)
#else
#define RUN(F,H,N,KL,KU) residuals<F,H,N,KL,KU>(N>100?2:N>20?15:60,N>100?30:N>20?400:2500)
#endif
int main(int a,char**b){init(a,b);
#if PART==0
  RUN(true,false,1,0,0);RUN(true,false,2,1,1);RUN(true,false,3,2,2);RUN(true,false,4,3,3);RUN(true,false,5,4,4);RUN(true,false,7,6,6);RUN(true,false,12,11,11);RUN(true,false,33,32,32);RUN(true,false,70,69,69);RUN(true,false,140,139,139);
#elif PART==1
  RUN(true,true,1,0,0);RUN(true,true,2,1,1);RUN(true,true,3,2,2);RUN(true,true,4,3,3);RUN(true,true,5,4,4);RUN(true,true,7,6,6);RUN(true,true,12,11,11);RUN(true,true,33,32,32);RUN(true,true,70,69,69);RUN(true,true,160,159,159);
#elif PART==2
  RUN(false,false,2,0,0);RUN(false,false,3,1,0);RUN(false,false,3,0,1);RUN(false,false,3,1,1);RUN(false,false,4,2,1);RUN(false,false,4,0,2);RUN(false,false,5,3,0);RUN(false,false,5,1,4);RUN(false,false,6,4,1);
#elif PART==3
  RUN(false,false,7,2,2);RUN(false,false,8,0,7);RUN(false,false,8,7,0);RUN(false,false,9,3,5);RUN(false,false,12,1,1);RUN(false,false,30,1,1);RUN(false,false,40,5,3);RUN(false,false,50,2,9);RUN(false,false,20,18,0);RUN(false,false,64,0,0);RUN(false,false,150,70,40);
#endif
  return finish();}
