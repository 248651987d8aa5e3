// Monitor for Radau5: records each attempted step through the hook and the
// calls of the user's functions, and replays attempts in the reference model.
#ifndef RADAU_MON_HPP
#define RADAU_MON_HPP
#include "implicit.hpp"
#include "radau_ref.hpp"
#ifdef RODAS
#include "Rodascc.hpp"
#else
#include "Radau5cc.hpp"
#endif
#undef MAX
#undef MIN
#undef ABS
#undef SIGN
#ifndef RMETH
#define RMETH 1
#define RAUTO false
#define RUSEDT true
#endif
namespace vf {
#ifdef RODAS
template<class F> using Solver=odes::Rodascc<F>; const bool isRodas=true; inline std::string sname(){return vf::fmt("rodas%d%s%s ",RMETH,RAUTO?" auto":"",RUSEDT?"":" numdt");}
#else
template<class F> using Solver=odes::Radau5cc<F>; const bool isRodas=false; inline std::string sname(){return "";}
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> using Fn=Fon<N,SUB,SUP,H,NJ,RMETH,RAUTO,RUSEDT>;
// options only one of the solvers has
template<class S> auto nfcOf(S&s,int)->decltype(s.getNfoncCalled()){return s.getNfoncCalled();} template<class S> int nfcOf(S&,long){return -1;}
template<class S> auto setNit(S&s,int v,int)->decltype(s.setMaxIterationsNewton(v)){s.setMaxIterationsNewton(v);} template<class S> void setNit(S&,int,long){}
template<class S> auto setThet(S&s,double v,int)->decltype(s.setRecomputeJacobianTreshold(v)){s.setRecomputeJacobianTreshold(v);} template<class S> void setThet(S&,double,long){}
//! forward difference in time used by Rodas when the user gives no time derivative
inline double dtdelta(double x){return isRodas&&!RAUTO&&!RUSEDT?sqrt(1.e-16*std::max(1.e-5,std::fabs(x)))*(1+1e-9):0;}
struct Attempt{double t,h,err;bool acc;std::vector<double> y;long nf,nj;std::vector<double> z[3];bool hasz;};
struct Mon{
  Ctx* c=0; std::vector<Attempt> at; const double* userY=0; bool seeZ=true; size_t maxAt=1000000;
  static Mon*& cur(){static thread_local Mon* m=0;return m;}
  static void cb(const odes::MonitoredStep& s){ if(cur())cur()->on(s);}
  void on(const odes::MonitoredStep& s){
    Attempt a;a.t=s.t;a.h=s.h;a.err=s.err;a.acc=s.accepted;a.y.assign(s.y,s.y+s.n);a.nf=c?c->nf:0;a.nj=c?c->nj:0;a.hasz=false;
    if(c&&c->keep&&seeZ){ static const LD s6=sqrtl(6.L);const LD cc[3]={(4-s6)/10,(4+s6)/10,1};
      bool ok=true;for(int q=0;q<3;q++){bool f=false;LD want=(LD)s.t+cc[q]*(LD)s.h;
        // when accepted, s.t is the start of the step
        for(int b=0;b<(int)c->last.size()&&!f;b++){Ctx::Call k=c->lastCall(b);if(fabsl((LD)k.t-want)<=1e-9L*fabsl(s.h)+8e-16L*fabsl(want)){a.z[q]=k.y;f=true;}}
        ok=ok&&f;}
      a.hasz=ok;}
    if(at.size()<maxAt)at.push_back(a);
  }
  void start(Ctx* c_){c=c_;at.clear();cur()=this;odes::monitorCallback()=&Mon::cb;}
  void stop(){cur()=0;odes::monitorCallback()=0;}
  ~Mon(){if(cur()==this)stop();}
};
struct RTol{ // effective Radau tolerances
  std::vector<LD> at,rt; double fnewt;
  RTol(){fnewt=0;}
  RTol(int n,bool same,const double* a,const double* r){for(int i=0;i<n;i++){int k=same?0:i;LD q=(LD)a[k]/(LD)r[k];LD R=0.1L*powl(r[k],2.L/3);rt.push_back(R);at.push_back(R*q);}
    fnewt=std::max(10*1e-16/(double)rt[0],std::min(0.03,std::sqrt((double)rt[0])));}
  std::vector<LD> scal(const double* y)const{std::vector<LD> s;for(size_t i=0;i<rt.size();i++)s.push_back(at[i]+rt[i]*fabsl(y[i]));return s;}
};
inline LD rms(const std::vector<LD>& d,const std::vector<LD>& s){LD e=0;for(size_t i=0;i<d.size();i++)e+=(d[i]/s[i])*(d[i]/s[i]);return sqrtl(e/d.size());}
//! reference stages of a step from y0; false when the reference does not converge
inline bool refStages(const Prob& P,double t,double h,const double* y0,const Attempt* a,std::vector<LD>& Z){
  int n=P.n;std::vector<LD> y(y0,y0+n);Z.assign(3*n,0);
  if(a&&a->hasz)for(int q=0;q<3;q++)for(int i=0;i<n;i++)Z[q*n+i]=(LD)a->z[q][i]-y[i];
  if(rref().solve(P,t,y.data(),h,Z))return true;
  Z.assign(3*n,0);return rref().solve(P,t,y.data(),h,Z);
}
}
#endif
