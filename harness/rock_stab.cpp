// K02: stages against the spectral radius reported; amplification of modes.
#include "rock.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static void stages(const RStep& a,long calls,double rho,const char* w){
  int s=(int)calls;double hr=std::fabs(a.h)*rho;
  double need=std::sqrt((3+hr)/0.353);VCHECK(s<=152,"too-many-stages","%s: %d stages",w,s);
  VCHECK(s>=need*(1-1e-12)-1e-9||s<5,"too-few-stages","%s: %d stages at t=%.17g h=%.17g, spectral radius %.17g: %.6g needed",w,s,a.t,a.h,rho,need);
  int most=tabulated(std::max(std::min(152,(int)(need+1+1e-9)),5)-4)+4;VCHECK(s<=std::max(most,5)||(s==152&&hr>=0.79*(152.*152.*0.353-3)),"wasteful-stages","%s: %d stages at h=%.17g, spectral radius %.17g: %d would do",w,s,a.h,rho,most);count("stage numbers checked");maxv("stages",s);}
int main(int ac,char**av){init(ac,av);
#if PART==0
  // linear modes over the whole spectral interval: none may grow in a step
  cases("modes",scaled(1500,40000),[&](Rng& r){int n=r.i(1,60);double rho=r.p(0.05)?0:r.lg(-3,9),len=r.lg(-3,3),h=len*r.pick({1.,1.,r.lg(-4,1)});
    std::vector<double> la(n),y(n);for(int i=0;i<n;i++){la[i]=rho*(i==0?1:i==1?0:r.p(0.5)?r.u():std::pow(r.u(),3));if(r.p(0.1))la[i]=rho*(1-r.lg(-12,-1));y[i]=r.sg()*r.lg(-3,3);}
    Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w=P.p=P.c;for(int i=0;i<n;i++)P.A[i*n+i]=-la[i];P.lip=rho;P.name="modes";
    double tol=r.lg(-3,2);describe(fmt("modes n=%d rho=%.17g len=%.17g h=%.17g tol=%.3g la=",n,rho,len,h,tol)+vec(la));
    RCtx c;c.P=&P;c.rho_=rho;c.limit=20000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(tol,0);RResult R=goRock(S,F,c,0,len,h,y);
    std::vector<double> cur(y);long prev=1;for(auto&a:R.at){long pv=prev;stages(a,a.nf-prev,rho,"modes");prev=a.nf;VCHECK(a.h>0,"step-not-positive","h=%.17g",a.h);
      if(a.acc){double big=0,ra=0;for(double v:cur)big=std::max(big,std::fabs(v));for(int i=0;i<n;i++){double g=std::fabs(a.y[i])/(std::fabs(cur[i]));if(std::fabs(cur[i])>1e-280){ra=std::max(ra,g);
          long sg=a.nf-pv;VCHECK(g<=(la[i]*a.h>0.998*(0.353*sg*sg-3)?1.5:1.02),"mode-amplified","step h=%.17g with %ld stages: mode %.17g (rho %.17g) multiplied by %.17g",a.h,sg,la[i],rho,g);
          double z=la[i]*a.h;if(z<0.3)VCHECK(std::fabs(a.y[i]/cur[i]-std::exp(-z))<=3e-2*z*z*z*z*z+1e-10,"slow-mode-inaccurate","h*lambda=%.6g: multiplied by %.17g",z,a.y[i]/cur[i]);}}
        maxv("largest amplification of a mode",ra);count("accepted steps");count("modes observed",n);cur=a.y;
        sig(fmt("%d %d",(int)a.nf%1000,(int)std::floor(4*std::log10(a.h*rho+1e-6))));}}
    if(R.out==RRUN)count("stopped at 20000 calls");if(st().nsamples<3)sample(st().desc+" -> "+R.str());});
  // the step has to be reduced when the largest degree does not suffice
  cases("reduced",scaled(200,4000),[&](Rng& r){int n=r.i(1,10);double rho=r.lg(5,10),len=r.lg(0,2);std::vector<double> y(n);Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w=P.p=P.c;for(int i=0;i<n;i++){P.A[i*n+i]=-rho*(i?r.u():1);y[i]=r.u(-1,1);}P.lip=rho;
    describe(fmt("reduced n=%d rho=%.17g len=%.17g",n,rho,len));RCtx c;c.P=&P;c.rho_=rho;c.limit=6000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(10,0);RResult R=goRock(S,F,c,0,len,len,y);
    long prev=1;bool red=false;for(auto&a:R.at){stages(a,a.nf-prev,rho,"reduced");prev=a.nf;VCHECK(a.h*rho<=0.353*152*152,"step-beyond-stability","h=%.17g, rho=%.17g",a.h,rho);red=red||a.h<0.999*len;VCHECK(a.h>=1e-16,"step","h=%g",a.h);
      if(a.h*rho>1000&&a.acc)count("steps at the largest degrees");}
    VCHECK(red,"not-reduced","the step was not reduced");sig(fmt("red%d %d",n,(int)std::log10(rho)));});
#elif PART==1
  // a spectral radius that changes with the solution: asked again regularly, used when told
  cases("varying",scaled(800,20000),[&](Rng& r){int n=r.i(2,20);double base=r.lg(0,3),gr=r.u(0,4)*(r.p(0.7)?1:-1),len=r.lg(-1,1);
    // y0 is a clock; the other modes have lambda = base*exp(gr*y0)*f_i
    std::vector<double> fr(n),y(n);for(int i=1;i<n;i++){fr[i]=r.u();y[i]=r.sg()*r.lg(-2,1);}fr[1]=1;y[0]=0;
    double tol=r.lg(-5,-1);double h=len*r.lg(-4,0.5);bool jump=r.p(0.3);double tj=len*r.u(0.1,0.9);
    describe(fmt("varying n=%d base=%.17g growth=%.17g len=%.17g h=%.17g tol=%.3g jump=%d at %.3g",n,base,gr,len,h,tol,(int)jump,tj));
    auto lam=[&](double t){return jump?(t<tj?base:base*std::exp(gr)):base*std::exp(gr*t/len);};
    // a problem the probe evaluates itself
    Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w=P.p=P.c;P.lip=base*std::exp(std::fabs(gr));
    struct FV{RCtx*c;int n;std::function<double(double)> lam;const std::vector<double>*fr;double tcur=0;int size()const{return n;}double rho(){return c->rho();}
      void operator()(double*in,double*out){++c->nf;if(c->nf>c->limit)throw Runaway();out[0]=1;double L=lam(in[0]);for(int i=1;i<n;i++)out[i]=-L*(*fr)[i]*in[i];}};
    RCtx c;c.P=&P;c.limit=60000;FV F{&c,n,lam,&fr};double*yc=0;(void)yc;
    RMon*pm=0;c.onRho=[&]{double t=0;if(pm)for(auto&a:pm->at)if(a.acc)t=a.t+a.h;return lam(t);};
    odes::Rock4<FV> S(F);S.setTolerances(tol,tol);YArr Y(y);RMon m;pm=&m;m.start(&c);int out=RRET;try{S(Y.p,0,len,h);}catch(odes::OdesException&){out=RLIB;}catch(Runaway&){out=RRUN;}m.stop();
    long prev=1,pr=0,since=0,worst=0;bool again=false;for(auto&a:m.at){stages(a,a.nf-prev,a.rho,"varying");prev=a.nf;count("attempts");if(!a.acc)count("rejections");
      if(a.nrho!=pr){count("spectral radius renewed");since=0;pr=a.nrho;}
      VCHECK(since<10,"spectral-radius-stale","at t=%.17g the spectral radius is that of %ld accepted steps ago (%.6g, now %.6g)",a.t,since,a.rho,lam(a.t));
      if(again){VCHECK(since==0,"spectral-radius-not-renewed","at t=%.17g, after a rejected step, the spectral radius is still that of %ld accepted steps ago (%.6g, now %.6g)",a.t,since,a.rho,lam(a.t));count("renewed after a rejection");}
      again=!a.acc&&since>0;if(a.acc)++since;worst=std::max(worst,since);}
    maxv("accepted steps with one spectral radius",worst);
    if(out==RRET)VCHECK(std::fabs(Y.p[0]-len)<=1e-13*len*(1+m.at.size()),"clock","clock at %.17g, end %.17g",Y.p[0],len);
    sig(fmt("var%d %d %d",n,(int)std::min<size_t>(m.at.size(),60),(int)(gr*2)));if(st().nsamples<3)sample(st().desc+fmt(" -> %zu attempts, %ld spectral radii",m.at.size(),c.nrho));});
#endif
  return finish();}
