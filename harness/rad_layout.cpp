// R08, S07: one problem in every Jacobian layout and source; accuracy of the
// numerical Jacobian; the caller's array during an integration.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static int NIT=0;static double THET=-1;static double FN=-1; // options of the next runs (Radau5 only)
struct Got{std::string name;Result R;double errtol;};
template<int N,int SUB,int SUP,bool H,bool NJ,bool AUTO,bool UDT> Got one(const Prob& P,double rt,double at,double h,double x0,double xe,const std::vector<double>& y){
  typedef Fon<N,SUB,SUP,H,NJ,RMETH,AUTO,UDT> F;Solver<F> s(true,&at,&rt);Ctx c;c.P=&P;c.limit=6000000;
#ifndef RODAS
  if(NIT)s.setMaxIterationsNewton(NIT);if(THET>=0)s.setRecomputeJacobianTreshold(THET);if(FN>0)s.setFnewt(FN);
#endif
  std::vector<double> cur(y);long bad=0;double bt=0;Mon*& m=Mon::cur();size_t seen=0;
  c.onF=[&](double t,const double*,const double*){ if(m&&m->at.size()){for(;seen<m->at.size();seen++)if(m->at[seen].acc)cur=m->at[seen].y;} if(memcmp(cur.data(),c.userY,N*8)){++bad;bt=t;}};
  Got g;g.R=go(s,c,h,x0,xe,y);g.name=fmt("n%d sub%d sup%d hess%d numj%d auto%d udt%d",N,SUB,SUP,H,NJ,AUTO,UDT);
  VCHECK(!bad,"user-array-perturbed","%s: the caller's array differs from the last accepted solution during %ld right-hand side calls, e.g. at t=%.17g",g.name.c_str(),bad,bt);
  count("integrations");count("calls with the caller's array watched",c.nf);return g;}
template<int N,int SUB,int SUP,bool NJ,bool AUTO,bool UDT> void jac(Rng& r,const Prob& P,double x0,const std::vector<double>& y){
  typedef Fon<N,SUB,SUP,false,NJ,RMETH,AUTO,UDT> F;double rt=1e-3,at=1e-3;Solver<F> s(true,&at,&rt);s.performOnlyOneStep(true);Ctx c;c.P=&P;c.limit=100000;
  // no step is accepted before the Jacobian at (x0,y) is there, and one-step mode computes no other
  Result R=go(s,c,1e-6/(1+P.lip),x0,x0+1,y);auto& J=s.Jacobian();double worst=0;
  if(R.out!=RETURNED){viol("tiny-step-fails",R.str());return;}
  for(int i=0;i<N;i++)for(int j=std::max(0,i-SUB);j<=std::min(N-1,i+SUP);j++){
    double ex=P.jac<double>(y.data(),i,j),d=std::sqrt(1e-16*std::max(1e-5,std::fabs(y[j]))),fs=0;
    for(int k=P.lo(i);k<=P.hi(i);k++)fs+=std::fabs(P.A[i*N+k]*y[k])+std::fabs(P.B[i*N+k]);fs+=std::fabs(P.c[i]);
    double b=(j>=P.lo(i)&&j<=P.hi(i))?std::fabs(P.B[i*N+j]):0;
    double tol=NJ?2*d*b+12*2.3e-16*fs/d+6*2.3e-16*std::fabs(y[j])/d*std::fabs(ex)+1e-12*std::fabs(ex):1e-300;
    double e=std::fabs(J(i+1,j+1)-ex);worst=std::max(worst,e/tol);
    VCHECK(e<=tol,NJ?"numerical-jacobian-wrong":"jacobian-not-the-users","element (%d,%d): %.17g, exact %.17g, allowed difference %.2g (n%d sub%d sup%d)",i+1,j+1,J(i+1,j+1),ex,tol,N,SUB,SUP);count(NJ?"numerical Jacobian elements":"analytical Jacobian elements");}
  if(NJ)maxv("numerical Jacobian: error over bound",worst);}
template<int N,int PS,int PU,bool AUTO> void run(long nq,long nt){
  std::string lay=sname()+fmt("n%d band %d,%d auto%d",N,PS,PU,(int)AUTO); const int WS=PS+1<N?PS+1:PS,WU=PU+2<N?PU+2:PU; std::vector<double> rel;
  cases("layouts "+lay,scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,PS,PU,!AUTO,r.p(0.5)?r.u(0,2.5):0,r.p(0.2)?0:r.lg(-1,0.3));
    double x0=r.u(-5,5),dir=r.p(0.7)?1:-1,len=r.lg(-0.5,0.4);if(dir<0)len=std::min(len,2.0/P.lip);double xe=x0+dir*len;std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?20:1);
    double rt=r.lg(-9,-4),at=rt*r.lg(-1,0),h=dir*len*0.01;
    describe(P.name+fmt(" rt=%.3g at=%.3g x0=%.17g xe=%.17g y0=",rt,at,x0,xe)+vec(y));
    std::vector<LD> ref;if(!refSol(P,x0,y,xe,1e-12L,ref,N>3?800:1600)){count("no reference solution");return;}
    std::vector<Got> g;
#define RUN(S,U,H,NJ,UDT) g.push_back(one<N,S,U,H,NJ,AUTO,UDT>(P,rt,at,h,x0,xe,y))
    RUN(N-1,N-1,false,false,true);RUN(N-1,N-1,false,true,true);RUN(N-1,N-1,true,false,true);RUN(N-1,N-1,true,true,true);
    RUN(PS,PU,false,false,true);RUN(PS,PU,false,true,true);RUN(WS,WU,false,false,true);RUN(WS,WU,false,true,true);
#ifdef RODAS
    if(!AUTO){RUN(N-1,N-1,false,false,false);RUN(PS,PU,false,true,false);RUN(N-1,N-1,true,false,false);}
    if(AUTO){g.push_back(one<N,N-1,N-1,false,false,false,true>(P,rt,at,h,x0,xe,y));g.push_back(one<N,PS,PU,false,true,false,false>(P,rt,at,h,x0,xe,y));}
#endif
    int nmin=1<<30,nmax=0;
    for(auto&q:g){if(q.R.out!=RETURNED){viol("ordinary-problem-fails",q.name+": "+q.R.str());continue;}
      LD e=0;for(int i=0;i<N;i++)e=std::max(e,fabsl(q.R.y[i]-ref[i])/(at+rt*fabsl(ref[i])));q.errtol=(double)e;maxv("error over tolerance",(double)e);
      VCHECK(e<=3000,"layout-solution-wrong","%s: error %.4Lg tolerances",q.name.c_str(),e);nmin=std::min(nmin,q.R.nstep);nmax=std::max(nmax,q.R.nstep);rel.push_back((double)e);
      LD d=0;for(int i=0;i<N;i++)d=std::max(d,fabsl((LD)q.R.y[i]-g[0].R.y[i])/(at+rt*fabsl(ref[i])));
      VCHECK(d<=3000,"layouts-differ","%s differs from %s by %.4Lg tolerances",q.name.c_str(),g[0].name.c_str(),d);}
    // a wrong Jacobian shows in the work before it shows in the solution
    maxv("attempts: max over layouts / min",nmin?(double)nmax/nmin:0);
    VCHECK(nmax<=nmin*2+10,"layout-costs-more","between %d and %d attempts depending on the layout",nmin,nmax);
    std::vector<int> w;for(auto&q:g)w.push_back(q.R.nstep);sig(lay+fmt("%d %d",nmin,nmax));
    if(vf::st().nsamples<3){std::string s=lay+": "+vf::st().desc+" attempts";for(int v:w)s+=fmt(" %d",v);sample(s);}
  });
  st().k=-2;if(rel.size()>100){std::sort(rel.begin(),rel.end());double q9=rel[rel.size()*9/10];maxv("90% quantile of error over tolerance",q9);VCHECK(q9<=40,"layout-error-quantile","90%% quantile of error over tolerance %.3g",q9);}
#ifndef RODAS
  // Jacobians kept for long and few Newton iterations: iterations fail, with old and with new Jacobians
  {long tot[4]={0,0,0,0},acc=0,runs=0;
  cases("kept Jacobians "+lay,scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,PS,PU,!AUTO,r.u(0,2.5),r.lg(-0.5,0.9));
    double x0=r.u(-5,5),dir=r.p(0.7)?1:-1,len=r.lg(-0.2,0.8);if(dir<0)len=std::min(len,2.0/P.lip);double xe=x0+dir*len;std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?20:1);
    double rt=r.lg(-5,-2),at=rt*r.lg(-1,0),h=dir*len*r.lg(-3,0);NIT=r.i(2,7);THET=r.p(0.6)?1e9:r.lg(-3,0);FN=r.p(0.5)?-1:r.lg(-4,-1.5);
    describe(P.name+fmt(" kept rt=%.3g at=%.3g x0=%.17g xe=%.17g h=%.17g nit=%d thet=%g fnewt=%g y0=",rt,at,x0,xe,h,NIT,THET,FN)+vec(y));
    std::vector<Got> g;
    RUN(N-1,N-1,false,false,true);RUN(N-1,N-1,true,false,true);RUN(PS,PU,false,false,true);RUN(N-1,N-1,true,true,true);NIT=0;THET=-1;FN=-1;
    bool all=true;int nmin=1<<30,nmax=0;for(auto&q:g){all=all&&q.R.out==RETURNED;nmin=std::min(nmin,q.R.nstep);nmax=std::max(nmax,q.R.nstep);}
    if(!all){bool any=false;for(auto&q:g)any=any||q.R.out==RETURNED;count("runs that fail with few iterations");if(any)count("runs that fail in some layouts only");return;}
    ++runs;count("runs with kept Jacobians");for(int i=0;i<4;i++)tot[i]+=g[i].R.nstep;acc+=g[0].R.nacc;st().counts["attempts not accepted, with kept Jacobians"]+=g[0].R.nstep-g[0].R.nacc;
    maxv("attempts with kept Jacobians: max over layouts / min",(double)nmax/nmin);
    // rounding differences may change single decisions, a wrong factorization changes many
    if(nmax>nmin*1.5+6)count("runs with more attempts in one layout");
    sig("kept"+lay+fmt("%d %d",nmin,nmax));});
  cases("kept summary "+lay,1,[&](Rng&){if(st().onlycase>=0||runs<10)return;for(int i=1;i<4;i++){maxv("attempts with kept Jacobians, in all: layout / full",(double)tot[i]/tot[0]);
    VCHECK(tot[i]<=tot[0]*1.1+30,"layout-costs-more","with Jacobians kept: %ld attempts in all, %ld with the full layout",tot[i],tot[0]);}
    long b=st().counts["runs that fail in some layouts only"];VCHECK(b<=2+0.02*runs,"layout-fails","with Jacobians kept, %ld of %ld runs fail in some layouts only",b,runs);});}
#endif
  cases("jacobian "+lay,scaled(nq*4,nt*4),[&](Rng& r){
    Prob P=makeProb(r,N,PS,PU,!AUTO,r.p(0.5)?r.u(0,3):0,r.lg(-1,0.5));double x0=r.u(-5,5);std::vector<double> y(N);for(auto&v:y)v=r.p(0.2)?0:r.sg()*r.lg(-6,2);
    describe(P.name+fmt(" x0=%.17g y0=",x0)+vec(y));
    jac<N,N-1,N-1,true,AUTO,true>(r,P,x0,y);jac<N,PS,PU,true,AUTO,true>(r,P,x0,y);jac<N,WS,WU,true,AUTO,true>(r,P,x0,y);jac<N,PS,PU,false,AUTO,true>(r,P,x0,y);jac<N,N-1,N-1,false,AUTO,true>(r,P,x0,y);
    sig("jac"+lay+fmt("%ld",vf::st().k));});
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,RAUTO>(60,1500);run<2,1,0,RAUTO>(60,1500);
#elif PART==1
  run<3,1,1,RAUTO>(60,1500);
#elif PART==2
  run<4,0,2,RAUTO>(60,1000);
#elif PART==3
  run<5,1,1,RAUTO>(40,600);
#elif PART==4
  run<4,2,1,RAUTO>(60,1000);
#endif
  return finish();}
