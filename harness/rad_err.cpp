// R03: acceptance decisions, error estimates and step ratios against a reference estimate;
// global error against a long double solution.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){
  typedef Fon<N,SUB,SUP,H,NJ> F; const int psub=SUB,psup=SUP;
  cases(fmt("estimate n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ),scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,r.p(0.8),r.p(0.5)?r.u(0,3):r.u(0,1),r.p(0.2)?0:r.lg(-1,0.6));
    double at[N],rt[N];bool same=r.p(0.4);for(int i=0;i<N;i++){rt[i]=r.lg(-6,-2);at[i]=rt[i]*r.lg(-1.5,1.5);}
    if(same)for(int i=1;i<N;i++){at[i]=at[0];rt[i]=rt[0];}
    odes::Radau5cc<F> S(same,at,rt);Ctx c;c.P=&P;c.keep=10;c.limit=400000;RTol T(N,same,at,rt);
    double rm=1;for(int i=0;i<N;i++)rm=std::min(rm,(double)std::min(T.rt[i],T.at[i]));double fn=std::max(2e3*1e-16/rm,r.lg(-9,-7));S.setFnewt(fn);S.setMaxIterationsNewton(r.i(10,16));
    S.setRecomputeJacobianTreshold(-1); // Jacobian at the start of each step
    double safe=0.9;if(r.p(0.3)){safe=r.u(0.5,0.95);S.setSafe(safe);}
    double facr=0.125,facl=5;if(r.p(0.3)){facr=r.u(0.1,0.8);facl=r.u(1.5,8);S.setFacrFacl(facr,facl);}
    if(r.p(0.3))S.setGustafssonTest(false);
    double x0=r.p(0.3)?0:r.u(-20,20),dir=r.sg(),len=r.lg(-1.5,0.8);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));
    double xe=x0+dir*len,h=dir*len*r.lg(-3,0.3);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?100:1);
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g same=%d rt0=%.3g at0=%.3g fn=%.3g safe=%g facr=%g facl=%g y0=",x0,xe,h,(int)same,rt[0],at[0],fn,safe,facr,facl)+vec(y));
    Result R=go(S,c,h,x0,xe,y,true,true); if(R.out!=RETURNED)count("not returned normally");
    std::vector<double> cur(y);bool first=true,rej=false;
    for(size_t k=0;k<R.at.size();k++){Attempt&a=R.at[k];count("attempts");if(k>80&&k%5){if(a.acc){cur=a.y;first=false;rej=false;}else rej=true;continue;}
      VCHECK(a.acc==(a.err<1),"decision-against-own-estimate","attempt %zu err=%.17g accepted=%d",k,a.err,(int)a.acc);
      std::vector<LD> Z;
      if(refStages(P,a.t,a.h,cur.data(),&a,Z)){
        std::vector<LD> s=T.scal(cur.data()),yc(cur.begin(),cur.end()),z3(N);
        LD e1=rref().err(P,a.t,yc.data(),a.h,Z,yc.data(),s,false),e2=NAN;
        bool two=first||rej; // a Newton failure before this attempt also allows the second estimate
        if(e1>=0.9L)e2=rref().err(P,a.t,yc.data(),a.h,Z,yc.data(),s,true);
        // slack: stages known to the Newton stopping tolerance only, rounding, numerical Jacobian
        LD rnd=0;for(int i=0;i<N;i++)rnd=std::max(rnd,1e-13L*(1+fabsl(cur[i]))/s[i]*(1+0.01L*(LD)P.lip*fabsl(a.h)));
        LD tol=2e3L*fn+30*rnd+(NJ?1e-3L:1e-6L); LD w=1;auto near=[&](LD e,LD rel){return fabsl((LD)a.err-e)<=tol*w+rel*e;};
        LD rel=NJ?2e-2L:2e-3L; bool m1=near(e1,rel),m2=e1>=0.9L&&near(e2,rel);
        if(std::isfinite((double)e1)&&tol<0.1L){
          count("error estimates compared");
          maxv("max |err-ref|/(tol+rel ref)",(double)std::min(fabsl((LD)a.err-e1)/(tol+rel*e1),e1>=0.9L?fabsl((LD)a.err-e2)/(tol+rel*e2):INFINITY));
          auto okk=[&]{m1=near(e1,rel);m2=e1>=0.9L&&near(e2,rel);if(e1<0.9L)return m1;if(first||rej)return m2||(e1<1.1L&&m1);return m1||m2;};bool ok=okk();(void)two;
          if(!ok){w=20;ok=okk();if(ok)count("estimates at a distance");}
          VCHECK(ok,"error-estimate-differs","attempt %zu t=%.17g h=%.17g (%s): error %.6g, reference estimate %.6Lg refined %.6Lg, slack %.2Lg",k,a.t,a.h,a.acc?"accepted":"rejected",a.err,e1,e2,tol);
          // the decision itself, against the reference
          LD em=e1<1?e1:std::min(e1,e2); LD eM=(e1>=0.9L)?std::max(e1,e2):e1;
          VCHECK(!(a.acc&&em>1.05L+tol),"accepted-above-tolerance","attempt %zu t=%.17g h=%.17g accepted, reference error %.6Lg",k,a.t,a.h,em);
          VCHECK(!(!a.acc&&eM<0.95L-tol),"rejected-below-tolerance","attempt %zu t=%.17g h=%.17g rejected, reference error %.6Lg",k,a.t,a.h,eM);
          if(a.acc&&em>0.3L)count("decisions close to the limit"); if(!a.acc)count("rejections confirmed");
        } else count("estimate beyond the resolution of the reference");
      } else count("reference not converged");
      if(k+1<R.at.size()){Attempt&b=R.at[k+1]; count("step ratios");
        double q=b.h/a.h,lim=std::min(1/facr,std::max(1/facl,safe/std::sqrt(std::sqrt(std::max(1e-10,a.err)))));
        VCHECK(q<=std::max(lim,a.acc?1/facl:0.1)*(1+1e-10),"step-grows-too-much","step ratio %.6g after error %.6g (%s), allowed %.6g",q,a.err,a.acc?"accepted":"rejected",lim);
        if(!a.acc){ VCHECK(b.t==a.t,"retry-elsewhere","retry at %.17g after a rejection at %.17g",b.t,a.t);VCHECK(std::fabs(b.h)<std::fabs(a.h),"retry-not-smaller","retry with h=%.17g after a rejection with h=%.17g",b.h,a.h);
          VCHECK(a.y==cur,"rejection-moved-y","y changed by a rejection"); }
        else if(rej) VCHECK(std::fabs(b.h)<=std::fabs(a.h)*(1+1e-12)||(xe-b.t-b.h)*dir<=1e-12*std::fabs(xe),"grows-after-rejection","step %.17g after a rejected and then accepted step of %.17g",b.h,a.h);
      }
      if(a.acc){cur=a.y;first=false;rej=false;}else rej=true;
      sig(fmt("%d%d%d%d %d %d %d",N,SUB,H,NJ,(int)a.acc,(int)std::floor(2*std::log10(a.err+1e-12)),(int)std::floor(std::log10(std::fabs(a.h)*P.lip))));
    }
    if(st().nsamples<3)sample(st().group+": "+st().desc+" -> "+R.str());
  });
  // lower bound of the step ratio: needs to know of Newton failures, so linear problems with exact Jacobian (one Newton loop always converges)
  cases(fmt("ratio n%d sub%d sup%d hess%d",N,SUB,SUP,H),scaled(nq/3+1,nt/3+1),[&](Rng& r){ if(NJ)return;
    Prob P=makeProb(r,N,psub,psup,true,r.u(0,2),0); double rt=r.lg(-6,-2),at=rt;odes::Radau5cc<F> S(true,&at,&rt);Ctx c;c.P=&P;c.limit=400000;
    double facr=r.u(0.1,0.8),facl=r.u(1.5,8);if(r.p(0.8))S.setFacrFacl(facr,facl);else{facr=0.125;facl=5;} if(r.p(0.4))S.setGustafssonTest(false);
    double x0=r.u(-20,20),xe=x0+r.lg(-1,1),h=(xe-x0)*r.lg(-3,0.3);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g facr=%g facl=%g y0=",x0,xe,h,rt,facr,facl)+vec(y));
    Result R=go(S,c,h,x0,xe,y); bool first=true;
    for(size_t k=0;k+1<R.at.size();k++){Attempt&a=R.at[k],&b=R.at[k+1];double q=b.h/a.h; bool lastb=std::fabs(b.t+b.h-xe)<=1e-13*std::fabs(xe)+1e-300;
      if(a.acc)first=false;
      count("bounded step ratios"); if(lastb)continue; double lo=(!a.acc&&first)?0.1:1/facl;
      VCHECK(q<=1/facr*(1+1e-10)||q<=1,"ratio-above-bound","step ratio %.6g above 1/facr=%.6g",q,1/facr);
      VCHECK(q>=lo*(1-1e-10)*0.5||false,"ratio-below-bound","step ratio %.6g below %.6g",q,lo);
      if(q<lo*(1-1e-10))count("below facl after a Newton failure");
    }
  });
  // global error
  std::vector<double> ratios; std::map<double,std::vector<double>> errs;
  cases(fmt("global n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ),scaled(nq/8+2,nt/8+2),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,r.p(0.8),r.p(0.4)?r.u(0,2.5):0,r.p(0.2)?0:r.lg(-1,0.3));
    double x0=r.u(-5,5),dir=r.p(0.7)?1:-1,len=r.lg(-0.5,0.4);if(dir<0)len=std::min(len,2.0/P.lip);double xe=x0+dir*len;std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);
    describe(P.name+fmt(" x0=%.17g xe=%.17g y0=",x0,xe)+vec(y));
    std::vector<LD> ref;if(!refSol(P,x0,y,xe,1e-13L,ref,N>3?800:1600)){count("no reference solution");return;}
    LD first=0,last=0; int ne=0;
    bool comp=r.p(0.5); double w[N];for(int i=0;i<N;i++)w[i]=comp?r.lg(-1.5,0):1;
    for(double rt:{1e-2,1e-4,1e-6,1e-8,1e-10}){double ats[N],rts[N];for(int i=0;i<N;i++){rts[i]=rt*w[i];ats[i]=rt*w[i];}
      odes::Radau5cc<F> S(!comp,ats,rts);Ctx c;c.P=&P;c.limit=4000000;Result R=go(S,c,dir*len*0.01,x0,xe,y,false);
      if(!(R.out==RETURNED)){viol("ordinary-problem-fails",fmt("rt=%g: ",rt)+R.str());continue;}
      LD e=0;for(int i=0;i<N;i++)e=std::max(e,fabsl(R.y[i]-ref[i])/(ats[i]+rts[i]*fabsl(ref[i]))); // in units of the tolerance
      count("global errors"); maxv(fmt("global error / tolerance (rt=%g)",rt),(double)e);
      VCHECK(e<=300,"global-error-large","rt=%g: global error is %.4Lg times the tolerance: %s, exact %s",rt,e,vec(R.y).c_str(),vec(ref).c_str());
      errs[rt].push_back((double)e);LD E=e*rt;if(!ne)first=E;last=E;++ne;
    }
    if(ne==5)ratios.push_back((double)(last/(first+1e-18L)));
  });
  st().k=-2; if(ratios.size()>=40){std::sort(ratios.begin(),ratios.end());double m=ratios[ratios.size()/2];maxv("median of global error(1e-10)/error(1e-2)",m);
    VCHECK(m<=1e-5,"error-does-not-decrease","median over %zu problems of global error at rt=1e-10 over that at 1e-2: %.3g",ratios.size(),m);
    for(auto&q:errs){auto&v=q.second;std::sort(v.begin(),v.end());double md=v[v.size()/2],q9=v[v.size()*9/10];maxv(fmt("median global error/tolerance rt=%g",q.first),md);maxv(fmt("90%% quantile global error/tolerance rt=%g",q.first),q9);
      VCHECK(q9<=15,"global-error-quantile","rt=%g: 90%% quantile of global error over tolerance %.3g",q.first,q9);}}
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,false,false>(600,12000);run<2,1,1,false,true>(600,12000);
#elif PART==1
  run<3,2,2,true,false>(600,10000);
#elif PART==2
  run<4,1,1,false,false>(600,10000);
#elif PART==3
  run<3,2,2,false,false>(600,10000);
#elif PART==4
  run<4,2,1,false,true>(400,6000);
#endif
  // the Newton stopping test estimates the rate of convergence, so that the stages of a few steps are less accurate
  cases("summary",1,[&](Rng&){if(st().onlycase>=0)return;auto&C=st().counts;VCHECK(C["estimates at a distance"]<=1+0.001*C["error estimates compared"],"error-estimate-differs","%ld of %ld estimates differ from the reference by more than their slack",C["estimates at a distance"],C["error estimates compared"]);});
  return finish();}
