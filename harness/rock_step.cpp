// K01: every accepted Rock4 step against the ROCK4 formula in long double;
// observed order of the local error.
#include "rock.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
//! compare one step; the internal degree is seen in the number of calls
static void compare(const Prob& P,const RStep& a,const std::vector<double>& y0,long calls,const char* what){
  int n=P.n,m=(int)calls-4;RockRef R(m);if(!R.ok){viol("degree-not-tabulated",fmt("%s: %ld calls in a step: internal degree %d is not tabulated",what,calls,m));return;}
  std::vector<LD> yn,e,de;LD bound,dev=0;R.both(P,y0,a.h,yn,e,bound,de);for(int i=0;i<n;i++)dev=std::max(dev,fabsl(yn[i]-a.y[i]));if(!std::isfinite((double)bound)||!std::isfinite((double)dev)){count("overflow in a step");return;}
  maxv("max distance/allowed",(double)(dev/bound));count("accepted steps compared");count("degrees seen");
  VCHECK(dev<=12*bound,"rock4-step-not-the-formula","%s t=%.17g h=%.17g degree %d: distance %.3Lg to the formula, allowed %.3Lg; y=%s formula %s",what,a.t,a.h,m,dev,12*bound,vec(a.y).c_str(),vec(yn).c_str());
  sig(fmt("%d n%d %d",m,n,(int)std::floor(std::log10(std::fabs(a.h)*P.lip+1e-9))));
}
int main(int ac,char**av){init(ac,av);
#if PART==0
  for(int q=0;q<50;q++){int m=G_MS[q];
    cases(fmt("degree %d",m),scaled(20,800),[&](Rng& r){int n=r.p(0.02)?r.pick({64,130}):r.pick({1,2,3,5,8,17,40});double h=r.lg(-4,1);
      Prob P=rockProb(r,n,r.p(0.5)?r.u(0,2):0,r.p(0.3)?0:r.lg(-1,0.5),r.p(0.3));
      // the degree chosen is the first tabulated one not below int(sqrt((3+h rho)/0.353)+1)-4
      double lo=(q?G_MS[q-1]:0)+5,s=r.u(lo,m+5-0.01);if(m==1)s=r.u(3.95,5.9);double rho=((s-1)*(s-1)*0.353-3)/h;if(rho<0)rho=0;
      if(r.p(0.5)&&rho>1){double f=r.u(0.2,0.99)*rho/P.lip;for(auto&v:P.A)v*=f;for(auto&v:P.B)v*=f;P.lip*=f;}
      std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?1e4:1);describe(P.name+fmt(" h=%.17g rho=%.17g y0=",h,rho)+vec(y));
      RCtx c;c.P=&P;c.rho_=rho;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(1e200,1);double t0=r.p(0.3)?0:0.;
      RResult R=goRock(S,F,c,t0,h,h,y);if(R.out!=RRET||R.at.size()!=1){viol("one-step",R.str());return;}
      compare(P,R.at[0],y,R.nf-1,"single step");VCHECK(R.nf-1-4==m,"degree","degree %ld used, %d expected",R.nf-5,m);
      VCHECK(R.y==R.at[0].y,"delivered","the solution delivered is not the one of the accepted step");
      if(st().nsamples<3)sample(st().group+": "+st().desc);});}
#elif PART==1
  cases("run",scaled(500,20000),[&](Rng& r){int n=r.p(0.02)?r.pick({100,300,1000}):r.pick({1,2,3,5,8,17,40});
    Prob P=rockProb(r,n,r.p(0.6)?r.u(0,4):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.5),r.p(0.5),r.p(0.8));double len=r.lg(-2,1),t0=r.p(0.3)?0:r.u(-10,10),h=len*r.lg(-5,0.5);
    double rt=r.lg(-9,-2),at=rt*r.lg(-2,1);std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);describe(P.name+fmt(" t0=%.17g len=%.17g h=%.17g rt=%.3g at=%.3g y0=",t0,len,h,rt,at)+vec(y));
    RCtx c;c.P=&P;c.rho_=P.lip*r.u(1,1.3);c.limit=60000;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(at,rt);
    RResult R=goRock(S,F,c,t0,t0+len,h,y);std::vector<double> cur(y);long prev=1;size_t k=0;for(auto&a:R.at){count("attempts");if(a.acc){if(k<60||k%9==0)compare(P,a,cur,a.nf-prev,"run");cur=a.y;}prev=a.nf;++k;}
    if(R.out!=RRET)count("not returned normally");else VCHECK(cur==R.y,"delivered","the solution delivered is not the one of the last accepted step");
    if(st().nsamples<3)sample(st().desc+" -> "+R.str());});
#elif PART==2
  for(int q:{0,1,2,4,7,11,17,24,32,40,49}){int m=G_MS[q];std::vector<double> ord;
    cases(fmt("order degree %d",m),scaled(25,300),[&](Rng& r){int n=r.pick({1,2,3,4});Prob P=rockProb(r,n,0,r.lg(-0.3,0.3),false);std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);
      double h0=r.u(0.7,1.2)/P.lip;describe(P.name+fmt(" h0=%.17g y0=",h0)+vec(y));LD prev=0;
      for(int k=0;k<4;k++){double h=h0/(1<<k),s=m+4.5;double rho=std::max(0.,((s-1)*(s-1)*0.353-3)/h);RCtx c;c.P=&P;c.rho_=rho;FR F{&c,n};odes::Rock4<FR> S(F);S.setTolerances(1e200,1);
        RResult R=goRock(S,F,c,0,h,h,y);if(R.out!=RRET||R.nf!=m+5){viol("one-step",R.str());return;}
        std::vector<LD> ex;if(!refSol(P,0,y,h,1e-17L,ex,200))return;LD e=0;for(int i=0;i<n;i++)e=std::max(e,fabsl(ex[i]-R.y[i]));
        if(k>0&&e>2e-15L*(m+4)*(m+4)+1e-12L){ord.push_back((double)log2l(prev/e));count("orders observed");}prev=e;}
      sig(fmt("ord%d %ld",m,st().k));});
    st().k=-2;if(ord.size()>=15){std::sort(ord.begin(),ord.end());double md=ord[ord.size()/2];maxv("median local order (negated)",-md);VCHECK(md>=4.4,"local-order","degree %d: median observed order of the local error %.3g (%zu pairs), expected 5",m,md,ord.size());}}
#endif
  return finish();}
