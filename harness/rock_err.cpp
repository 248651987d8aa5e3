// K04: acceptance decisions, error estimates and step sizes against a long double model; global error.
#include "rock.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
//! step proposed after an attempt: hnew/h
static double factor(double err,double errp,double h,double hp,bool rej,double facmax){double f=std::sqrt(std::sqrt(1/err));if(errp>0&&!rej)f=std::min(f,std::sqrt(std::sqrt(errp))*f*f*(h/hp));if(rej)facmax=1;return std::min(facmax,std::max(0.1,0.8*f));}
static void trace(const RResult&R,const Prob&P,const std::vector<double>&y0,double t0,double te,double h0,double at,double rt,double rho,bool model){
  int n=P.n;std::vector<double> cur(y0);double errp=-1,hp=h0,facmax=5;bool rej=false;long prev=1;int same=0;
  for(size_t k=0;k<R.at.size();k++){const RStep&a=R.at[k];long s=a.nf-prev;prev=a.nf;int m=(int)s-4;count("attempts");
    VCHECK(a.acc==(a.err<1),"decision-against-own-estimate","attempt %zu err=%.17g accepted=%d",k,a.err,(int)a.acc);
    RockRef M(m);
    if(model&&M.ok&&(k<40||k%4==0)){std::vector<LD> yn,e,de;LD dy;M.both(P,cur,a.h,yn,e,dy,de);LD er=0,dr=0;for(int i=0;i<n;i++){LD w=at+rt*fabsl(yn[i]);LD q=fabsl(e[i])/w,d=(3*de[i]+1e-17L*fabsl(yn[i])*s)/w+q*(rt*12*dy/w);er+=q*q;dr+=d*d;}er=sqrtl(er/n);dr=sqrtl(dr/n);
      if(std::isfinite((double)er)&&dr<0.2L){count("error estimates compared");LD tol=dr+1e-6L*er;maxv("max |err-ref|/slack",(double)(fabsl(a.err-er)/tol));maxv("slack",(double)dr);
        VCHECK(fabsl(a.err-er)<=tol,"error-estimate-differs","attempt %zu t=%.17g h=%.17g stages %ld: error %.10g, reference %.10Lg, slack %.2Lg",k,a.t,a.h,s,a.err,er,tol);
        VCHECK(!(a.acc&&er>1+tol),"accepted-above-tolerance","attempt %zu h=%.17g accepted, reference error %.6Lg",k,a.h,er);
        VCHECK(!(!a.acc&&er<1-tol),"rejected-below-tolerance","attempt %zu h=%.17g rejected, reference error %.6Lg",k,a.h,er);if(!a.acc)count("rejections confirmed");if(a.acc&&er>0.3L)count("decisions close to the limit");}
      else count("estimate below rounding");}
    double fac=factor(a.err,errp,a.h,hp,rej,facmax),hn=a.h*fac;same=a.acc?0:same+1;
    if(k+1<R.at.size()){const RStep&b=R.at[k+1];count("step sizes");
      if(!a.acc){VCHECK(b.t==a.t,"retry-elsewhere","retry at %.17g after a rejection at %.17g",b.t,a.t);VCHECK(b.h<a.h,"retry-not-smaller","retry with h=%.17g after a rejection with h=%.17g (%d rejections)",b.h,a.h,same);VCHECK(a.y==cur,"rejection-moved-y","y changed by a rejection");count("retries");}
      else if(rej){VCHECK(b.h<=a.h*(1+1e-12)*1.1,"grows-after-rejection","step %.17g after a rejected and then accepted step of %.17g",b.h,a.h);count("steps after a rejection");}
      if(same>=10){count("many rejections in a row");}
      else{double want=a.acc?(rej?std::min(hn,a.h):hn):0.8*hn,left=te-b.t,hmax=0.8*(152.*152*.353-3)/rho;
        bool clip=std::fabs(b.h-left)<=1e-12*std::max(std::fabs(te),std::fabs(t0))&&want>=b.h/1.12; // the last step is fitted to the end
        bool cut=rho>0&&std::fabs(b.h-hmax)<=1e-9*hmax&&want>=b.h*(1-1e-9);
        if(!clip&&!cut)VCHECK(std::fabs(b.h-want)<=1e-9*want,"step-size-controller","attempt %zu (%s, error %.6g, previous %.6g) with h=%.17g: next h=%.17g, controller %.17g",k,a.acc?"accepted":"rejected",a.err,errp,a.h,b.h,want);
        else count("steps fitted to the end or to the largest degree");}
    }
    if(a.acc){errp=a.err;hp=a.h;facmax=2;rej=false;cur=a.y;}else rej=true,facmax=1;
    sig(fmt("%d %d %d %d",n,(int)a.acc,(int)std::floor(2*std::log10(a.err+1e-12)),m));}}
int main(int ac,char**av){init(ac,av);
#if PART==0 || PART==1
  cases("estimate",scaled(700,15000),[&](Rng& r){int n=PART?r.i(6,24):r.i(1,6);Prob P=rockProb(r,n,r.u(0,r.pick({1.,3.,5.})),r.p(0.3)?0:r.lg(-1,1),r.p(0.3),r.p(0.7));
    double rt=r.lg(-9,-1),at=rt*r.lg(-2,1);if(r.p(0.1))rt=0;double t0=r.p(0.3)?0:r.u(-20,20),len=r.lg(-2,0.7),te=t0+len,h=len*r.lg(-4,0.3);double rho=P.lip*r.pick({1.,1.3,3.});
    std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?100:1);
    describe(P.name+fmt(" t0=%.17g te=%.17g h=%.17g at=%.3g rt=%.3g rho=%.17g y0=",t0,te,h,at,rt,rho)+vec(y));RCtx c;c.P=&P;c.rho_=rho;c.limit=400000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(at,rt);RResult R=goRock(S,F,c,t0,te,h,y);
    if(R.out!=RRET)count("not returned normally");trace(R,P,y,t0,te,h,at,rt,rho,true);if(st().nsamples<3)sample(st().desc+" -> "+R.str());});
  // very fast right-hand sides: many rejections from far too large a step
  cases("rejections",scaled(150,3000),[&](Rng& r){int n=r.i(1,5);Prob P=rockProb(r,n,0,r.lg(1,11),false);double tol=r.lg(-9,-3),len=r.lg(-1,1)*100/P.lip,h=r.lg(-3,6)*len;if(r.p(0.5)){P=rockProb(r,n,0,r.lg(8,13),false);len=r.lg(-9,-7);h=len=r.lg(-2,2);}double rho=P.lip*r.pick({1.,1e-3,1e-6});std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);double t0=r.p(0.5)?0:r.u(-1,1);
    if(!(t0+len>t0)||len<1e-12)return;double te=t0+len;
    describe(P.name+fmt(" fast t0=%.17g te=%.17g h=%.17g tol=%.3g rho=%.17g y0=",t0,te,h,tol,rho)+vec(y));RCtx c;c.P=&P;c.rho_=rho;c.limit=60000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(tol,tol);RResult R=goRock(S,F,c,t0,te,h,y);trace(R,P,y,t0,te,h,tol,tol,rho,false);});
#elif PART==2
  std::vector<double> ratios;std::map<double,std::vector<double>> errs;
  cases("global",scaled(120,1500),[&](Rng& r){int n=r.i(1,5);Prob P=rockProb(r,n,r.u(0,2.5),r.p(0.2)?0:r.lg(-1,0.3),r.p(0.3));double len=r.lg(-0.5,0.4),t0=r.u(-3,3),te=t0+len;std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);describe(P.name+fmt(" t0=%.17g te=%.17g y0=",t0,te)+vec(y));
    std::vector<LD> ref;if(!refSol(P,t0,y,te,1e-13L,ref,n>3?800:1600)){count("no reference solution");return;}LD first=0,last=0;int ne=0;
    for(double rt:{1e-2,1e-4,1e-6,1e-8,1e-10}){RCtx c;c.P=&P;c.rho_=P.lip;c.limit=4000000;FR F{&c,n};odes::Rock4<FR> S(F);double at=rt*(r.p(0.5)?1:r.lg(-1,0));S.setTolerances(at,rt);RResult R=goRock(S,F,c,t0,te,len*0.01,y,false);if(R.out!=RRET){viol("ordinary-problem-fails",fmt("rt=%g: ",rt)+R.str());continue;}
      LD e=0;for(int i=0;i<n;i++)e=std::max(e,fabsl(R.y[i]-ref[i])/(at+rt*fabsl(ref[i])));count("global errors");maxv(fmt("global error / tolerance (rt=%g)",rt),(double)e);VCHECK(e<=60,"global-error-large","rt=%g: global error is %.4Lg times the tolerance: %s, exact %s",rt,e,vec(R.y).c_str(),vec(ref).c_str());
      errs[rt].push_back((double)e);LD E=e*rt;if(!ne)first=E;last=E;++ne;}
    if(ne==5)ratios.push_back((double)(last/(first+1e-18L)));sig(fmt("gl%d %d",n,(int)(2*std::log10(P.lip))));});
  st().k=-2;if(ratios.size()>=40){std::sort(ratios.begin(),ratios.end());double m=ratios[ratios.size()/2];maxv("median of global error(1e-10)/error(1e-2)",m);VCHECK(m<=1e-5,"error-does-not-decrease","median over %zu problems of global error at rt=1e-10 over that at 1e-2: %.3g",ratios.size(),m);
    for(auto&q:errs){auto&v=q.second;std::sort(v.begin(),v.end());double q9=v[v.size()*9/10];maxv(fmt("90%% quantile global error/tolerance rt=%g",q.first),q9);VCHECK(q9<=10,"global-error-quantile","rt=%g: 90%% quantile of global error over tolerance %.3g",q.first,q9);}}
#endif
  return finish();}
