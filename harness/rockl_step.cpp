// L01, L02: results of Rock4L against the model of ROCK4 in long double; modes; steady states; forcing.
#include "rockl.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
template<bool A> static void compare(Rng&r,const Prob&P,const std::vector<double>&y,double t0,double te,double h,double rho,const char*what){
  int n=P.n;std::vector<double> b(P.c);LCtx c;c.P=&P;c.rho_=rho;FL F(&c,n);odes::Rock4L<FL,A> S(F);LResult R=A?goL<A>(S,F,c,t0,te,h,y,&b):goL<A>(S,F,c,t0,te,h,y,0);if(R.out!=LRET){viol("ordinary-problem-fails",R.str());return;}
  auto hs=stepsOf(t0,te,h);std::vector<LD> yn;LD dy;long calls;runRef(P,y,hs,rho,yn,dy,&calls);LD d=0;for(int i=0;i<n;i++)d=std::max(d,fabsl(yn[i]-R.y[i]));if(!std::isfinite((double)dy)){count("overflow");return;}
  maxv("max distance/allowed",(double)(d/dy));count("results compared");count("steps compared",hs.size());
  VCHECK(d<=12*dy,"step-not-the-formula","%s: distance %.3Lg to the formula, allowed %.3Lg; y=%s formula %s",what,d,12*dy,vec(R.y).c_str(),vec(yn).c_str());
  VCHECK(R.nf==calls,"calls","%ld applications of the operator, %ld expected",R.nf,calls);(void)r;
  sig(fmt("%s %d %d %d",what,n,(int)std::min<size_t>(hs.size(),20),stagesFor(h*rho)));if(st().nsamples<3)sample(st().desc+" -> "+R.str());}
int main(int ac,char**av){init(ac,av);
#if PART==0 || PART==1
  const bool AFF=PART==1;
  for(int q=0;q<50;q++){int m=G_MS[q];cases(fmt("degree %d",m),scaled(20,600),[&](Rng&r){int n=r.p(0.02)?r.pick({64,130}):r.pick({1,2,3,5,8,17,40});double h=r.lg(-4,1);Prob P=linProb(r,n,r.p(0.5)?r.u(0,3):0,AFF,r.p(0.2));
    double lo=(q?G_MS[q-1]:0)+5,s=r.u(lo,m+5-0.01);if(m==1)s=r.u(3.95,5.9);double rho=std::max(0.,((s-1)*(s-1)*0.353-3)/h);
    if(rho>1&&P.lip>0){double f=r.u(0.2,0.99)*rho/P.lip;for(auto&v:P.A)v*=f;P.lip*=f;}else{double f=0.3/(h*(P.lip+1e-9));for(auto&v:P.A)v*=f;P.lip*=f;}
    std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2)*(r.p(0.1)?1e4:1);describe(P.name+fmt(" affine=%d h=%.17g rho=%.17g y0=",AFF,h,rho)+vec(y));compare<AFF>(r,P,y,0,h,h,rho,"one step");});}
  cases("run",scaled(300,8000),[&](Rng&r){int n=r.p(0.02)?r.pick({100,300}):r.pick({1,2,3,5,8,17});Prob P=linProb(r,n,r.u(0,4),AFF,r.p(0.2));double len=r.lg(-2,1),h=len*(r.p(0.03)?r.lg(-3.2,-2.1):r.lg(-2,0.3)),t0=r.p(0.3)?0:r.u(-10,10);double rho=P.lip*r.u(1,1.5);if(h*rho>7000)h=7000/rho;if(len/h>400)len=400*h;
    std::vector<double> y(n);for(auto&v:y)v=r.u(-2,2);double te=t0+len;if(!(te>t0))return;describe(P.name+fmt(" affine=%d t0=%.17g te=%.17g h=%.17g rho=%.17g y0=",AFF,t0,te,h,rho)+vec(y));
    // on the boundary between one and two steps the model may count otherwise
    double fr=len/h-std::floor(len/h);if(std::fabs(fr-0.01)<1e-6||fr<1e-6||fr>1-1e-6)return;compare<AFF>(r,P,y,t0,te,h,rho,"run");});
#elif PART==2
  // modes: no growth over the whole spectral interval, fourth order for the slow ones
  cases("modes",scaled(1500,40000),[&](Rng&r){int n=r.i(1,60);double h=r.lg(-4,2),hr=r.p(0.05)?0:std::min(8000.,r.lg(-3,3.95)),rho=hr/h;std::vector<double> y(n);Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B.assign(n*n,0);P.c.assign(n,0);P.w=P.p=P.c;std::vector<double> la(n);
    for(int i=0;i<n;i++){la[i]=rho*(i==0?1:i==1?0:r.p(0.5)?r.u():std::pow(r.u(),3));P.A[i*n+i]=-la[i];y[i]=r.sg()*r.lg(-3,3);}P.lip=rho;int k=r.i(1,3);describe(fmt("modes n=%d h=%.17g rho=%.17g steps=%d",n,h,rho,k));
    LCtx c;c.P=&P;c.rho_=rho;FL F(&c,n);odes::Rock4L<FL,false> S(F);LResult R=goL(S,F,c,0,k*h,h,y,0);if(R.out!=LRET){viol("ordinary-problem-fails",R.str());return;}
    int sg=S.NbStages();double zm=0.353*sg*sg-3;for(int i=0;i<n;i++){double g=std::fabs(R.y[i]/y[i]),z=la[i]*h;maxv("largest amplification of a mode",g);count("modes observed");
      VCHECK(g<=(z>0.998*zm?std::pow(1.5,k):std::pow(1.02,k)),"mode-amplified","h*lambda=%.17g with %d stages: multiplied by %.17g in %d steps",z,sg,g,k);
      if(z<0.3)VCHECK(std::fabs(R.y[i]/y[i]-std::exp(-z*k))<=k*(3e-2*z*z*z*z*z+1e-11),"slow-mode-inaccurate","h*lambda=%.6g: multiplied by %.17g in %d steps",z,R.y[i]/y[i],k);}
    double need=std::sqrt((3+hr)/0.353);VCHECK(sg>=need*(1-1e-12)-1e-9,"too-few-stages","%d stages, %.6g needed",sg,need);VCHECK(sg<=152,"too-many-stages","%d",sg);int most=tabulated(std::max(std::min(152,(int)(need+1+1e-9)),5)-4)+4;VCHECK(sg<=std::max(most,5)||k>1,"wasteful-stages","%d stages, %d would do",sg,most);
    sig(fmt("mo %d %d",sg,n));});
#elif PART==3
  cases("steady",scaled(600,15000),[&](Rng&r){int n=r.pick({1,2,3,5,8});Prob P=linProb(r,n,r.u(0,3),true,r.p(0.3));std::vector<double> ys(n),b(n);for(auto&v:ys)v=r.u(-2,2);LD mx=0;for(int i=0;i<n;i++){LD s=0;for(int j=0;j<n;j++)s+=(LD)P.A[i*n+j]*ys[j];b[i]=(double)-s;}P.c=b;for(auto&v:P.p)v=1.5707963267948966;
    double h=r.lg(-3,1),rho=P.lip*r.u(1,1.3);if(h*rho>7000)h=7000/rho;int k=r.i(1,6);for(double v:ys)mx=std::max(mx,(LD)std::fabs(v));describe(P.name+fmt(" steady h=%.17g rho=%.17g steps=%d ys=",h,rho,k)+vec(ys));
    LCtx c;c.P=&P;c.rho_=rho;FL F(&c,n);odes::Rock4L<FL,true> S(F);LResult R=goL(S,F,c,0,k*h,h,ys,&b);if(R.out!=LRET){viol("ordinary-problem-fails",R.str());return;}std::vector<LD> yn;LD dy;runRef(P,ys,stepsOf(0,k*h,h),rho,yn,dy);
    LD d=0;for(int i=0;i<n;i++)d=std::max(d,fabsl((LD)ys[i]-R.y[i]));LD al=30*dy+1e-13L*mx*(1+k*h*P.lip*1e-2L);maxv("drift/allowed",(double)(d/al));VCHECK(d<=al,"steady-state-left","distance %.3Lg from the steady state, allowed %.3Lg",d,al);count("steady states");
    // deviations from the steady state: the linear scheme
    std::vector<double> y(n),dv(n);for(int i=0;i<n;i++){dv[i]=r.u(-2,2);y[i]=ys[i]+dv[i];}std::vector<LD> y2;LD dy2;runRef(P,y,stepsOf(0,k*h,h),rho,y2,dy2);LResult Q=goL(S,F,c,0,k*h,h,y,&b);LCtx c1;c1.P=&P;c1.rho_=rho;FL F1(&c1,n);odes::Rock4L<FL,false> L(F1);LResult D=goL(L,F1,c1,0,k*h,h,dv,0);
    if(Q.out!=LRET||D.out!=LRET)viol("ordinary-problem-fails",Q.str());else{d=0;for(int i=0;i<n;i++)d=std::max(d,fabsl((LD)Q.y[i]-ys[i]-D.y[i]));al=60*(dy+dy2)+1e-13L*(1+mx)*(1+k*h*P.lip*1e-2L);maxv("deviation/allowed",(double)(d/al));VCHECK(d<=al,"affine-not-linear-plus-steady","affine result and steady state plus linear result differ by %.3Lg, allowed %.3Lg",d,al);VCHECK(Q.nf==D.nf,"affine-calls","%ld and %ld applications",Q.nf,D.nf);count("affine and linear compared");}
    // no forcing: the linear result
    std::vector<double> z(n,0);for(auto&v:P.c)v=0;LResult Z=goL(S,F,c,0,k*h,h,y,&z),W=goL(L,F1,c1,0,k*h,h,y,0);d=0;for(int i=0;i<n;i++)d=std::max(d,fabsl((LD)Z.y[i]-W.y[i]));VCHECK(d<=60*dy2+1e-15L,"no-forcing-differs","without forcing the affine and linear results differ by %.3Lg, allowed %.3Lg",d,60*dy2);count("without forcing");
    sig(fmt("st%d %d %d",n,k,stagesFor(h*rho)));});
  cases("no matrix",scaled(300,4000),[&](Rng&r){int n=r.i(1,9);Prob P;P.n=n;P.sub=P.sup=0;P.A.assign(n*n,0);P.B=P.A;P.c.assign(n,0);P.w=P.p=P.c;std::vector<double> b(n),y(n);for(auto&v:b)v=r.u(-2,2);for(auto&v:y)v=r.u(-2,2);double len=r.lg(-3,1),h=len*r.lg(-2,0.2),t0=r.u(-5,5),rho=r.p(0.5)?0:r.lg(-2,1)/h;describe(fmt("no matrix n=%d len=%.17g h=%.17g rho=%.17g",n,len,h,rho));
    LCtx c;c.P=&P;c.rho_=rho;FL F(&c,n);odes::Rock4L<FL,true> S(F);double te=t0+len;LResult R=goL(S,F,c,t0,te,h,y,&b);if(R.out!=LRET){viol("ordinary-problem-fails",R.str());return;}for(int i=0;i<n;i++){LD ex=(LD)y[i]+(LD)b[i]*((LD)te-t0);VCHECK(fabsl(ex-R.y[i])<=2e-14L*(1+R.ns)*(1+fabsl(ex)),"forcing-only","component %d: %.17g, exact %.17Lg",i,R.y[i],ex);}count("forcing only");sig(fmt("nm%d %d",n,std::min(R.ns,30)));});
#endif
  return finish();}
