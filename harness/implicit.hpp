// Problems, probes and reference steps for the implicit integrators (Radau5, Rodas).
#ifndef IMPLICIT_HPP
#define IMPLICIT_HPP
#include "vf.hpp"
#include <memory>
namespace vf {
// f_i(t,y)= sum_j A_ij y_j + sum_j B_ij s(y_j) + c_i sin(w_i t + p_i),  j in the band of i
// s(y)=sin(y): smooth, bounded. c=0: autonomous.
struct Prob{
  int n=0,sub=0,sup=0; bool timedep=false; std::vector<double> A,B,c,w,p; double lip=0; std::string name;
  int lo(int i)const{return std::max(0,i-sub);} int hi(int i)const{return std::min(n-1,i+sup);}
  template<class R> void f(R t,const R* y,R* o)const{
    for(int i=0;i<n;i++){R s=0;for(int j=lo(i);j<=hi(i);j++){s+=R(A[i*n+j])*y[j]; if(B[i*n+j]!=0)s+=R(B[i*n+j])*std::sin(y[j]);}
      if(c[i]!=0)s+=R(c[i])*std::sin(R(w[i])*t+R(p[i])); o[i]=s;}}
  template<class R> R jac(const R* y,int i,int j)const{ if(j<lo(i)||j>hi(i))return 0; R r=A[i*n+j]; if(B[i*n+j]!=0) r+=R(B[i*n+j])*std::cos(y[j]); return r;}
  template<class R> R dft(R t,int i)const{return c[i]!=0?R(c[i])*R(w[i])*std::cos(R(w[i])*t+R(p[i])):R(0);}
};
//! random, mildly dissipative problem. stiff: decades of stiffness; nl: strength of the nonlinear part
inline Prob makeProb(Rng& r,int n,int sub,int sup,bool timedep,double stiff,double nl,double slow=1){
  Prob P;P.n=n;P.sub=sub;P.sup=sup;P.timedep=timedep;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w.assign(n,0);P.p.assign(n,0);
  std::vector<double> d(n);for(int i=0;i<n;i++)d[i]=slow*r.lg(-0.5,std::max(0.0,stiff)*(r.p(0.5)?1:r.u()));
  double band=std::min(n,sub+sup+1);
  for(int i=0;i<n;i++)for(int j=P.lo(i);j<=P.hi(i);j++){
    if(i==j)P.A[i*n+j]=-d[i]; else P.A[i*n+j]=r.u(-1,1)*0.9*std::sqrt(d[i]*d[j])/band;
    P.B[i*n+j]=nl*slow*r.u(-1,1)/band*(i==j?0.5:1);
  }
  for(int i=0;i<n;i++)if(timedep&&(n==1||r.p(0.8))){P.c[i]=slow*r.u(0.3,2)*r.sg();P.w[i]=slow*r.u(0.5,3);P.p[i]=r.u(0,6.3);}
  double L=0;for(int i=0;i<n;i++){double s=0;for(int j=0;j<n;j++)s+=std::fabs(P.A[i*n+j])+std::fabs(P.B[i*n+j]);L=std::max(L,s);}P.lip=L;
  P.name=fmt("n=%d sub=%d sup=%d t=%d stiff=%.2g nl=%.2g L=%.3g",n,sub,sup,(int)timedep,stiff,nl,L);
  return P;
}
//! context shared by all copies of the user's function object
struct Ctx{
  const Prob* P=0; long nf=0,nj=0,ndt=0,limit=20000000; double tmin=INFINITY,tmax=-INFINITY,jtmin=INFINITY,jtmax=-INFINITY;
  struct Call{double t;std::vector<double> y;};
  std::vector<Call> last; int keep=0; size_t pos=0;   // ring of the last calls
  // faults (call numbers count from 1)
  long throwAt=-1,nanAt=-1; bool nanForever=false; int badKind=0; long jthrowAt=-1,jnanAt=-1; bool jnanForever=false; long dthrowAt=-1,dnanAt=-1;
  std::function<void(double,const double*,const double*)> onF; // before evaluation (t,in,out)
  std::function<void(double,const double*)> onJ;
  const double* userY=0; long faultsFired=0;
  double bad(int k)const{ return k%3==0?NAN:(k%3==1?INFINITY:-INFINITY);}
  void resetCounts(){nf=nj=ndt=0;tmin=jtmin=INFINITY;tmax=jtmax=-INFINITY;last.clear();pos=0;faultsFired=0;}
  void F(double t,const double* y,double* o){
    ++nf; if(nf>limit) throw Runaway();
    if(t<tmin)tmin=t; if(t>tmax)tmax=t; if(t!=t)tmax=NAN;
    if(onF)onF(t,y,o);
    if(keep){ Call c{t,std::vector<double>(y,y+P->n)}; if((int)last.size()<keep)last.push_back(c);else last[pos%keep]=c; ++pos; }
    if(nf==throwAt){++faultsFired;throw UserEx{(int)nf};}
    std::vector<double> tmp(P->n); P->f<double>(t,y,tmp.data());
    for(int i=0;i<P->n;i++)o[i]=tmp[i];
    if(nanAt>0&&(nf==nanAt||(nanForever&&nf>nanAt))){++faultsFired;o[(nf*7)%P->n]=bad(badKind);}
  }
  template<class V,class M> void J(double t,const V& Y,M& Jac){
    ++nj; if(nj>limit) throw Runaway();
    if(t<jtmin)jtmin=t; if(t>jtmax)jtmax=t;
    int n=P->n;std::vector<double> y(n);for(int i=0;i<n;i++)y[i]=Y(i+1);
    if(onJ)onJ(t,y.data());
    if(nj==jthrowAt){++faultsFired;throw UserEx{(int)nj};}
    for(int i=0;i<n;i++)for(int j=P->lo(i);j<=P->hi(i);j++)Jac(i+1,j+1)=P->jac<double>(y.data(),i,j);
    if(jnanAt>0&&(nj==jnanAt||(jnanForever&&nj>jnanAt))){++faultsFired;Jac(1,1)=bad(badKind);}
  }
  Call lastCall(int back)const{ // back=0: most recent
    if((int)last.size()<=back) return Call{NAN,{}}; size_t N=last.size(); return last[(pos-1-back)%N]; }
};
//! the user's problem class. the layout may be wider than the problem's band.
template<int N,int SUB,int SUP,bool HESS,bool NUMJ,int METH=1,bool AUTO=false,bool USEDT=true> struct Fon{
  static const int n=N,nsub=SUB,nsup=SUP; static const bool Hessenberg=HESS,ComputeJacobianNumerically=NUMJ;
  static const int method=METH; static const bool autonomous=AUTO,use_DF_t=USEDT;
  Ctx* c=0;
  void operator()(double t,double* y,double* o){c->F(t,y,o);}
  template<class V1,class V2,class M> void Jacobian(double t,V1 Y,V2& y0,M& Jac){(void)y0;
    for(int i=1;i<=N;i++)for(int j=std::max(1,i-SUB);j<=std::min(N,i+SUP);j++)Jac(i,j)=0.;
    c->J(t,Y,Jac);}
  template<class V,class W> void DF_t(double t,const V& Y,W& FX){(void)Y;++c->ndt; if(c->ndt==c->dthrowAt){++c->faultsFired;throw UserEx{-1};}
    for(int i=0;i<N;i++)FX(i+1)=c->P->template dft<double>(t,i); if(c->ndt==c->dnanAt){++c->faultsFired;FX(1)=NAN;}}
};
// ------------------------------------------------------------ Radau IIA reference
struct RadauRef{
  LD c[3],A[3][3],DD[3],U1;
  RadauRef(){LD s6=sqrtl(6.L);c[0]=(4-s6)/10;c[1]=(4+s6)/10;c[2]=1;
    A[0][0]=(88-7*s6)/360;A[0][1]=(296-169*s6)/1800;A[0][2]=(-2+3*s6)/225;
    A[1][0]=(296+169*s6)/1800;A[1][1]=(88+7*s6)/360;A[1][2]=(-2-3*s6)/225;
    A[2][0]=(16-s6)/36;A[2][1]=(16+s6)/36;A[2][2]=1.L/9;
    DD[0]=-(13+7*s6)/3;DD[1]=(-13+7*s6)/3;DD[2]=-1.L/3;
    U1=(6+cbrtl(81.L)-cbrtl(9.L))/30; U1=1/U1;}
  //! solve the collocation equations. Z: start (3n) and result. returns convergence.
  bool solve(const Prob& P,LD x,const LD* y,LD h,std::vector<LD>& Z)const{
    int n=P.n; std::vector<LD> f(3*n),yy(n); LD prev=INFINITY;
    for(int it=0;it<40;it++){
      Mat<LD> M(3*n,3*n);std::vector<LD> r(3*n);
      for(int s=0;s<3;s++){for(int i=0;i<n;i++)yy[i]=y[i]+Z[s*n+i];P.f<LD>(x+c[s]*h,yy.data(),&f[s*n]);
        for(int i=0;i<n;i++)for(int j=P.lo(i);j<=P.hi(i);j++){LD J=P.jac<LD>(yy.data(),i,j);for(int q=0;q<3;q++)M(q*n+i,s*n+j)-=h*A[q][s]*J;}}
      LD nr=0,nz=0;
      for(int q=0;q<3;q++)for(int i=0;i<n;i++){LD g=Z[q*n+i];for(int s=0;s<3;s++)g-=h*A[q][s]*f[s*n+i];r[q*n+i]=-g;M(q*n+i,q*n+i)+=1;}
      if(!gsolve(M,r))return false;
      for(int i=0;i<3*n;i++){if(!std::isfinite((double)r[i]))return false;Z[i]+=r[i];nr=std::max(nr,std::abs(r[i]));nz=std::max(nz,std::abs(Z[i]));}
      if(nr<=1e-16L*(1e-3L+nz)) return true;
      if(it>25&&nr>prev*0.5L) return nr<1e-12L*(1e-3L+nz);
      prev=nr;
    }
    return false;
  }
  //! err estimate. second=true: refined with f(x,y+est)
  LD err(const Prob& P,LD x,const LD* y,LD h,const std::vector<LD>& Z,const LD* yJ,const std::vector<LD>& scal,bool second)const{
    int n=P.n; Mat<LD> M(n,n);std::vector<LD> f(n),b(n),g(n);
    P.f<LD>(x,y,f.data());
    for(int i=0;i<n;i++){g[i]=(DD[0]*Z[i]+DD[1]*Z[n+i]+DD[2]*Z[2*n+i])/h;b[i]=g[i]+f[i];for(int j=P.lo(i);j<=P.hi(i);j++)M(i,j)-=P.jac<LD>(yJ,i,j);M(i,i)+=U1/h;}
    if(!gsolve(M,b))return NAN;
    if(second){std::vector<LD> yy(n);for(int i=0;i<n;i++)yy[i]=y[i]+b[i];P.f<LD>(x,yy.data(),f.data());for(int i=0;i<n;i++)b[i]=g[i]+f[i];if(!gsolve(M,b))return NAN;}
    LD e=0;for(int i=0;i<n;i++)e+=(b[i]/scal[i])*(b[i]/scal[i]);return std::max((LD)1e-10L,sqrtl(e/n));
  }
};
}
#endif
