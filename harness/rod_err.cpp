// S03: Rodas error estimates, decisions and step ratios against the reference
// estimate; global error against a long double solution.
#include "rod_ref.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static const RodasRef& ref(){static RodasRef R(RMETH);return R;}
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){
  typedef Fn<N,SUB,SUP,H,NJ> F; const int psub=SUB,psup=SUP;const bool numdt=!RAUTO&&!RUSEDT;
  std::string lay=sname()+fmt("n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);
  cases("estimate "+lay,scaled(nq,nt),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,!RAUTO&&r.p(0.8),r.p(0.5)?r.u(0,3):r.u(0,1),r.p(0.2)?0:r.lg(-1,0.6));
    double at[N],rt[N];bool same=r.p(0.4);for(int i=0;i<N;i++){rt[i]=r.lg(-6,-2);at[i]=rt[i]*r.lg(-1.5,1.5);}if(same)for(int i=1;i<N;i++){at[i]=at[0];rt[i]=rt[0];}
    Solver<F> S(same,at,rt);Ctx c;c.P=&P;c.limit=400000;double safe=0.9;if(r.p(0.3)){safe=r.u(0.5,0.98);S.setSafe(safe);}bool gus=r.p(0.6);S.setGustafssonTest(gus);
    double x0=r.p(0.3)?0:r.u(-20,20),dir=r.sg(),len=r.lg(-1.5,0.8);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));double xe=x0+dir*len,h=dir*len*r.lg(-3,0.3);std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?100:1);
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g same=%d rt0=%.3g at0=%.3g safe=%g gus=%d y0=",x0,xe,h,(int)same,rt[0],at[0],safe,(int)gus)+vec(y));
    Result R=go(S,c,h,x0,xe,y);if(R.out!=RETURNED)count("not returned normally");
    std::vector<double> cur(y);bool rej=false;int nacc=0;double hacc=0,eracc=1;
    for(size_t k=0;k<R.at.size();k++){Attempt&a=R.at[k];count("attempts");
      VCHECK(a.acc==(a.err<=1),"decision-against-own-estimate","attempt %zu err=%.17g accepted=%d",k,a.err,(int)a.acc);
      if(k<=80||k%5==0){std::vector<LD> yc(cur.begin(),cur.end()),yn,e,yp,ep;LD size,s2;
        if(ref().step(P,a.t,yc.data(),a.h,yn,e,size)){
          auto norm=[&](const std::vector<LD>& E,const std::vector<LD>& Y){LD s=0;for(int i=0;i<N;i++){LD q=at[i]+(LD)rt[i]*std::max(fabsl(yc[i]),fabsl(Y[i]));s+=(E[i]/q)*(E[i]/q);}return sqrtl(s/N);};
          LD er=norm(e,yn),tol=0,smin=INFINITY;for(int i=0;i<N;i++)smin=std::min(smin,(LD)at[i]+(LD)rt[i]*fabsl(yc[i]));
          LD ph=0;for(int i=0;i<N;i++)ph=std::max(ph,fabsl(P.c[i])*(fabsl((LD)P.w[i]*a.t)+fabsl((LD)P.p[i])+1)); // rounding of the argument of the sine
          tol=4*2e-15L*(size*(1+0.05L*fabsl(a.h)*(LD)P.lip)+fabsl((LD)a.t)*P.lip*fabsl(a.h)+0.5L*ph*fabsl(a.h))/smin;
          if(NJ||numdt){LD ym=0;for(LD v:yc)ym=std::max(ym,fabsl(v));LD dJ=NJ?2*sqrtl(1e-16L*std::max((LD)1e-5,ym))*P.lip+1e-15L*(P.lip*ym+3)/sqrtl(1e-21L):0,dT=numdt?1e-15L*(P.lip*ym+3)/sqrtl(1e-16L*std::max((LD)1e-5,fabsl((LD)a.t)))+4e-7L:0;
            for(LD sg:{1.L,-1.L})if(NJ&&ref().step(P,a.t,yc.data(),a.h,yp,ep,s2,sg*dJ,0)){for(int i=0;i<N;i++)ep[i]-=e[i];tol+=4*norm(ep,yn);}
            for(int q=0;q<N&&numdt;q++)if(ref().step(P,a.t,yc.data(),a.h,yp,ep,s2,0,dT,q)){for(int i=0;i<N;i++)ep[i]-=e[i];tol+=4*norm(ep,yn);}}
          if(std::isfinite((double)er)&&tol<0.1L){count("error estimates compared");maxv("max |err-ref|/slack",(double)(fabsl(er-a.err)/(tol+1e-9L*er)));
            VCHECK(fabsl(er-a.err)<=tol+1e-9L*er,"error-estimate-differs","attempt %zu t=%.17g h=%.17g (%s): error %.9g, reference %.9Lg, slack %.2Lg",k,a.t,a.h,a.acc?"accepted":"rejected",a.err,er,tol);
            VCHECK(!(a.acc&&er>1+tol+1e-9L),"accepted-above-tolerance","attempt %zu accepted, reference error %.9Lg",k,er);VCHECK(!(!a.acc&&er<1-tol-1e-9L),"rejected-below-tolerance","attempt %zu rejected, reference error %.9Lg",k,er);
            if(a.acc&&er>0.5L)count("decisions close to the limit");if(!a.acc)count("rejections confirmed");}
          else count("estimate beyond the resolution of the reference");}
        else count("reference failed");}
      // step ratios
      double fac=std::max(1/6.,std::min(5.,std::sqrt(std::sqrt(a.err))/safe)),hn=1/fac;if(a.acc)++nacc;
      if(a.acc&&gus&&nacc>1){double fg=(hacc/a.h)*std::sqrt(std::sqrt(a.err*a.err/eracc))/safe;fg=std::max(1/6.,std::min(5.,fg));hn=1/std::max(fac,fg);if(fg>fac)count("predictive controller active");}
      if(a.acc){hacc=a.h;eracc=std::max(1e-2,a.err);}
      if(a.acc&&rej)hn=std::min(hn,1.0);
      if(k+1<R.at.size()){Attempt&b=R.at[k+1];double q=b.h/a.h;count("step ratios");bool clipped=std::fabs(b.t+b.h-xe)<=2e-15*std::max(std::fabs(xe),std::fabs(x0));
        VCHECK(q<=6*(1+2e-4),"ratio-above-bound","step ratio %.9g above 6",q);VCHECK(clipped||q>=0.2*(1-1e-9),"ratio-below-bound","step ratio %.9g below 1/5",q);
        VCHECK(clipped?q<=hn*(1+2e-4):std::fabs(q-hn)<=1e-9*hn||std::fabs(b.h)>=std::fabs(xe-x0)*(1-1e-9),"step-size-formula","step ratio %.9g after error %.9g (%s%s), expected %.9g",q,a.err,a.acc?"accepted":"rejected",rej?" after a rejection":"",hn);
        if(!a.acc){VCHECK(b.t==a.t,"retry-elsewhere","retry at %.17g after a rejection at %.17g",b.t,a.t);VCHECK(std::fabs(b.h)<std::fabs(a.h),"retry-not-smaller","retry with h=%.17g after a rejection with h=%.17g",b.h,a.h);VCHECK(a.y==cur,"rejection-moved-y","y changed by a rejection");}}
      if(a.acc){cur=a.y;rej=false;}else rej=true;
      sig(lay+fmt("%d %d %d",(int)a.acc,(int)std::floor(2*std::log10(a.err+1e-12)),(int)std::floor(std::log10(std::fabs(a.h)*P.lip))));}
    if(st().nsamples<3)sample(st().group+": "+st().desc+" -> "+R.str());
  });
  std::vector<double> ratios;std::map<double,std::vector<double>> errs;
  cases("global "+lay,scaled(nq/8+2,nt/8+2),[&](Rng& r){
    Prob P=makeProb(r,N,psub,psup,!RAUTO&&r.p(0.8),r.p(0.4)?r.u(0,2.5):0,r.p(0.2)?0:r.lg(-1,0.3));
    double x0=r.u(-5,5),dir=r.p(0.7)?1:-1,len=r.lg(-0.5,0.4);if(dir<0)len=std::min(len,2.0/P.lip);double xe=x0+dir*len;std::vector<double> y(N);for(auto&v:y)v=r.u(-2,2);
    bool comp=r.p(0.5);double w[N];for(int i=0;i<N;i++)w[i]=comp?r.lg(-1.5,0):1;
    describe(P.name+fmt(" x0=%.17g xe=%.17g comp=%d y0=",x0,xe,(int)comp)+vec(y));
    std::vector<LD> ex;if(!refSol(P,x0,y,xe,1e-13L,ex,N>3?800:1600)){count("no reference solution");return;}
    LD first=0,last=0;int ne=0;
    for(double rt:{1e-2,1e-4,1e-6,1e-8,1e-10}){double ats[N],rts[N];for(int i=0;i<N;i++){rts[i]=rt*w[i];ats[i]=rt*w[i];}
      Solver<F> S(!comp,ats,rts);S.setNmax(100000);Ctx c;c.P=&P;c.limit=4000000;Result R=go(S,c,dir*len*0.01,x0,xe,y,false);
      if(R.out!=RETURNED){viol("ordinary-problem-fails",fmt("rt=%g: ",rt)+R.str());continue;}
      LD e=0;for(int i=0;i<N;i++)e=std::max(e,fabsl(R.y[i]-ex[i])/(ats[i]+rts[i]*fabsl(ex[i])));
      count("global errors");maxv(fmt("global error / tolerance (rt=%g)",rt),(double)e);
      VCHECK(e<=60,"global-error-large","rt=%g: global error is %.4Lg times the tolerance: %s, exact %s",rt,e,vec(R.y).c_str(),vec(ex).c_str());
      errs[rt].push_back((double)e);LD E=e*rt;if(!ne)first=E;last=E;++ne;}
    if(ne==5)ratios.push_back((double)(last/(first+1e-18L)));});
  st().k=-2;if(ratios.size()>=40){std::sort(ratios.begin(),ratios.end());double m=ratios[ratios.size()/2];maxv("median of global error(1e-10)/error(1e-2)",m);
    VCHECK(m<=1e-4,"error-does-not-decrease","median over %zu problems of global error at rt=1e-10 over that at 1e-2: %.3g",ratios.size(),m);
    for(auto&q:errs){auto&v=q.second;std::sort(v.begin(),v.end());double md=v[v.size()/2],q9=v[v.size()*9/10];maxv(fmt("median global error/tolerance rt=%g",q.first),md);maxv(fmt("90%% quantile global error/tolerance rt=%g",q.first),q9);
      VCHECK(q9<=5,"global-error-quantile","rt=%g: 90%% quantile of global error over tolerance %.3g",q.first,q9);}}
}
int main(int a,char**b){init(a,b);
#if PART==0
  run<1,0,0,false,false>(500,10000);run<2,1,1,false,true>(500,10000);
#elif PART==1
  run<3,2,2,true,false>(500,8000);
#elif PART==2
  run<4,1,1,false,false>(400,8000);
#elif PART==3
  run<4,2,1,false,true>(400,6000);
#endif
  return finish();}
