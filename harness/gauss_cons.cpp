// G02, G03, G05: what symplectic steps preserve; failed steps; rounding over long runs.
#include "gauss.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static bool DBL=true;
static const char*pn(){return DBL?"double":"long double";}
static std::vector<QD> q(const std::vector<LD>&u){return std::vector<QD>(u.begin(),u.end());}
static LD amax(const std::vector<LD>&u){LD m=0;for(LD v:u)m=std::max(m,fabsl(v));return m;}
static LD S_eps_(bool d){return d?2.220446049250313e-16L:1.0842021724855044e-19L;}
int main(int ac,char**av){init(ac,av);
#ifdef ONLY_LONG
  DBL=false;
#endif
#if PART==0
  // quadratic invariants, step by step
  for(int s=2;s<=16;s++)cases(fmt("invariants s=%d",s),scaled(DBL?30:10,DBL?1500:400),[&](Rng&r){int n=r.pick({2,4,4});SP P=makeSP(r,n,r.pick({3,6,7}));if(!P.quad())return;auto u=startSP(r,P,DBL);LD h=r.lg(-3,-0.2)*r.sg();if(DBL)h=(double)h;describe(P.name()+fmt(" invariants s=%d %s h=%.21Lg u=",s,pn(),h)+pr(u));
    auto S=makeSym(n,s,DBL);S->c.P=&P;QD I0=P.I<QD>(q(u).data());LD m=amax(u);LD D=0;for(double v:P.A)D=std::max(D,(LD)fabs(v));if(P.kind==3)D=2;if(P.kind==7)D=1;bool first=true;int K=r.i(1,20),k;for(k=0;k<K;k++){if(!S->step(h,u,first)){count("steps not converged");break;}first=r.p(0.3);m=std::max(m,amax(u));
      LD d=(LD)fabsq(P.I<QD>(q(u).data())-I0),tol=S->eps()*0.6L*n*n*(D+0.5L)*m*m*(2+0.3L*(k+1)*(1+fabsl(h)*P.lip));count("invariants observed");maxv("max drift/allowed",(double)(d/tol));VCHECK(d<=tol,"quadratic-invariant-lost","step %d: drift %.3Lg, allowed %.3Lg, I=%.10Lg",k+1,d,tol,(LD)I0);}
    sig(fmt("i%d %d %d %d",s,n,P.kind,(int)(10*log10l(fabsl(h)))));if(st().nsamples<3)sample(st().desc+fmt(" -> %d steps",k));});
  // forth and back
  for(int s=2;s<=16;s++)cases(fmt("reversible s=%d",s),scaled(DBL?30:10,DBL?1500:300),[&](Rng&r){int n=r.pick({1,2,4});SP P=makeSP(r,n,r.i(0,7));auto u=startSP(r,P,DBL),u0=u;LD h=r.lg(-3,-0.3)*r.sg();if(DBL)h=(double)h;describe(P.name()+fmt(" reversible s=%d %s h=%.21Lg u=",s,pn(),h)+pr(u));
    auto S=makeSym(n,s,DBL);S->c.P=&P;int K=r.i(1,4);LD m=amax(u);bool first=true;LD al=0;for(int k=0;k<2*K;k++){std::vector<LD> b=u;if(!S->step(k<K?h:-h,u,first)){count("steps not converged");return;}first=r.p(0.3);m=std::max(m,amax(u));if(m>50)return;std::vector<LD> x,y;if(!refGauss<LD>(P,s,k<K?h:-h,b,x)||!refGauss<LD>(P,s,k<K?h:-h,b,y,1e-9L,k+1))return;LD d=0,g=0;for(int l=0;l<n;l++){d=std::max(d,fabsl(x[l]-y[l]));}(void)g;al=al*expl(P.lip*fabsl(h))+d*S->eps()/1e-9L+2*S->eps()*m;}
    LD d=0;for(int l=0;l<n;l++)d=std::max(d,fabsl(u[l]-u0[l]));count("round trips");maxv("max round trip distance/allowed",(double)(d/al));VCHECK(d<=4*al,"not-reversible","%d steps forth and back: distance %.3Lg, allowed %.3Lg; %s",K,d,4*al,pr(u).c_str());sig(fmt("r%d %d %d",s,n,P.kind));});
  // the step map is symplectic: exactly for linear systems, by differences for others
  for(int s=2;s<=16;s++)cases(fmt("symplectic s=%d",s),scaled(DBL?20:6,DBL?800:200),[&](Rng&r){int n=r.pick({2,4});SP P=makeSP(r,n,r.pick({1,2,6,6,7}));if(!P.ham())return;auto u=startSP(r,P,DBL);LD h=r.lg(-2,-0.3)*r.sg();if(DBL)h=(double)h;describe(P.name()+fmt(" symplectic s=%d %s h=%.21Lg u=",s,pn(),h)+pr(u));
    LD de=P.kind==6?1:DBL?ldexpl(1,-13):ldexpl(1,-16);std::vector<std::vector<LD>> M(n);int st4=P.kind==6?0:1;LD sc=1;
    auto stp=[&](std::vector<LD> x,bool&ok){auto S=makeSym(n,s,DBL);S->c.P=&P;ok=S->step(h,x,true);sc=std::max(sc,amax(x));return x;};bool ok;
    for(int j=0;j<n;j++){if(!st4){std::vector<LD> e(n,0.L);e[j]=1;M[j]=stp(e,ok);if(!ok)return;}
      else{auto at=[&](LD t,bool&o){auto x=u;x[j]+=t;if(DBL)x[j]=(double)x[j];return stp(x,o);};bool o1,o2,o3,o4;LD d1=de*64;auto a=at(d1,o1),b=at(-d1,o2),c=at(2*d1,o3),d=at(-2*d1,o4);if(!(o1&&o2&&o3&&o4)){count("steps not converged");return;}M[j].resize(n);LD x1=u[j]+d1,x2=u[j]-d1;if(DBL){x1=(double)x1;x2=(double)x2;}
        for(int i=0;i<n;i++)M[j][i]=(8*(a[i]-b[i])-(c[i]-d[i]))/(12*d1);}}
    LD w=0,mm=0;int m=n/2;for(int a=0;a<n;a++)for(int b=0;b<n;b++){LD v=0;for(int i=0;i<m;i++)v+=M[a][i]*M[b][m+i]-M[a][m+i]*M[b][i];LD e=(b==a+m)-(a==b+m);w=std::max(w,fabsl(v-e));mm=std::max(mm,fabsl(M[a][b]));}
    LD tol=st4?(DBL?1e-6L:1e-9L)*(1+mm*mm):S_eps_(DBL)*60*(1+mm*mm);count("step maps");maxv(st4?"max defect of nonlinear maps":"max defect of linear maps (eps)",(double)(st4?w:w/S_eps_(DBL)));VCHECK(w<=tol,"not-symplectic","%.3Lg, allowed %.3Lg",w,tol);sig(fmt("s%d %d %d",s,n,P.kind));});
#elif PART==1
  // energy over long runs: no drift
  for(int s=3;s<=16;s++)cases(fmt("energy s=%d",s),scaled(DBL?4:1,DBL?60:10),[&](Rng&r){int n=r.pick({2,4});SP P=makeSP(r,n,r.pick({1,2,6,7}));if(!P.ham())return;auto u=startSP(r,P,DBL);double hs[]={0,0,0,0.002,0.01,0.03,0.05,0.07,0.1,0.1,0.12,0.12,0.12,0.12,0.12,0.12,0.12};LD h=hs[s]*r.u(0.3,1)*(DBL?1:0.3)*r.sg()*(P.kind==7?0.4:1);if(DBL)h=(double)h;int K=st().thorough?20000:DBL?3000:800;if(!DBL&&s<6)h*=0.1L;
    describe(P.name()+fmt(" energy s=%d %s h=%.21Lg steps=%d u=",s,pn(),h,K)+pr(u));auto S=makeSym(n,s,DBL);S->c.P=&P;QD H0=P.H<QD>(q(u).data());LD early=0,late=0,sc=0;bool first=true;long fails=0;for(int k=0;k<K;k++){if(!S->step(h,u,first)){++fails;first=true;if(fails>20){count("steps not converged",fails);return;}
        // a step that does not reach an exact fixed point: other step once
        if(!S->step(h/2,u,true)||!S->step(h/2,u,true)){count("steps not converged",fails);return;}continue;}first=false;if(k%37==0||k==K-1){LD d=(LD)fabsq(P.H<QD>(q(u).data())-H0);sc=std::max(sc,amax(u));if(k<K/5)early=std::max(early,d);if(k>K*4/5)late=std::max(late,d);}}
    LD e=S->eps()*(1+sc*sc)*(1+sc*sc)*(P.kind==7?10:3),tol=e*(1+0.04L*sqrtl((LD)K*fabsl(h)*P.lip)+0.002L*K*fabsl(h)*P.lip)+3*early;count("long runs");maxv("max energy error/allowed",(double)(late/tol));maxv("max late energy error/eps",(double)(late/S->eps()));VCHECK(late<=tol,"energy-drift","energy error %.3Lg at the end, %.3Lg early; allowed %.3Lg",late,early,tol);
    VCHECK(early<=e*200+(DBL?1e-11L:1e-12L),"energy-error","%.3Lg early",early);sig(fmt("e%d %d %d",s,n,P.kind));});
  // oscillators: energy behaves over long times also with large steps (error bounded, not growing)
  for(int s=2;s<=8;s++)cases(fmt("bounded s=%d",s),scaled(DBL?6:2,DBL?100:20),[&](Rng&r){SP P=makeSP(r,2,1);std::vector<LD> u={(double)r.u(-1,1),(double)r.u(-0.8,0.8)};LD h=r.u(0.1,0.35);if(DBL)h=(double)h;int K=DBL?6000:1500;describe(P.name()+fmt(" bounded s=%d %s h=%.21Lg u=",s,pn(),h)+pr(u));auto S=makeSym(2,s,DBL);S->c.P=&P;LD H0=P.H<LD>(u.data()),e1=0,e2=0;bool first=true;for(int k=0;k<K;k++){if(!S->step(h,u,first)){count("steps not converged");return;}first=false;LD d=fabsl(P.H<LD>(u.data())-H0);if(k<K/3)e1=std::max(e1,d);if(k>=2*K/3)e2=std::max(e2,d);}
    count("long runs");maxv("late/early energy error (large steps)",(double)(e2/(e1+S->eps()*20)));VCHECK(e2<=1.5L*e1+S->eps()*(200+K*0.02L),"energy-drift","energy error %.3Lg in the first third, %.3Lg in the last",e1,e2);sig(fmt("b%d",s));});
#elif PART==2
  // failures
  auto fail=[&](Sym&S,LD h,std::vector<LD>&u,bool first,const char*what){auto u0=u;long f0=S.c.nf;int o=0;bool ok=false;try{ok=S.step(h,u,first);}catch(UserEx&){o=1;}catch(Runaway&){o=2;}VCHECK(o!=2,"runaway","%s",what);if(o==1||!ok){bool same=memcmp(u.data(),u0.data(),0)==0;for(size_t i=0;i<u.size();i++)same=same&&u[i]==u0[i];VCHECK(same,"failed-step-changes","%s: %s became %s",what,pr(u0).c_str(),pr(u).c_str());}
    else{bool fin=true;for(LD v:u)fin=fin&&std::isfinite((double)v);VCHECK(fin,"converged-to-nonsense","%s: %s",what,pr(u).c_str());}return std::make_pair(o==0&&ok,S.c.nf-f0);};
  for(int s=2;s<=16;s++)cases(fmt("faults s=%d",s),scaled(DBL?25:6,DBL?800:150),[&](Rng&r){int n=r.pick({1,2,4});SP P=makeSP(r,n,r.i(0,7));auto u0=startSP(r,P,DBL);int lim=r.p(0.3)?r.i(0,6):r.i(20,120);LD h=r.lg(-2,-0.7)*r.sg(),hb=r.lg(0.5,4)*r.sg();if(DBL){h=(double)h;hb=(double)hb;}if(r.p(0.1))hb=r.pick({(double)NAN,(double)INFINITY,-(double)INFINITY,1e300});
    describe(P.name()+fmt(" faults s=%d %s limit=%d h=%.21Lg large h=%.21Lg u=",s,pn(),lim,h,hb)+pr(u0));
    // S: with failed attempts; T: without
    auto S=makeSym(n,s,DBL,lim),T=makeSym(n,s,DBL,lim);S->c.P=T->c.P=&P;auto u=u0,v=u0;int pre=r.i(0,2);for(int i=0;i<pre;i++){bool f=i==0;bool a=S->step(h,u,f),b=T->step(h,v,f);if(!a||!b){count("steps not converged");break;}}
    int kind=r.i(0,5);S->c.nf=0;bool first=r.p(0.5);std::pair<bool,long> o;LD hf=h;auto uk=u;
    switch(kind){case 0:hf=hb;break;case 1:S->c.nanAt=r.i(1,3*s);S->c.badKind=r.i(0,2);S->c.nanForever=true;break;case 2:S->c.throwAt=r.i(1,3*s);break;case 3:hf=r.p(0.5)?hb:h;S->c.nanAt=r.i(1,s);S->c.badKind=r.i(0,2);S->c.nanForever=true;break;case 4:uk[r.i(0,n-1)]=r.pick({(double)NAN,(double)INFINITY});break;case 5:S->c.nanAt=r.i(1,2*s);S->c.badKind=r.i(0,2);break;}
    const char*kn[]={"large step","lasting NaN or Inf","exception","NaN and other step","solution not finite","one NaN or Inf"};
    if(kind==4){auto ub=uk;bool ok=S->step(h,ub,first);bool same=true;for(int i=0;i<n;i++)same=same&&(ub[i]==uk[i]||(ub[i]!=ub[i]&&uk[i]!=uk[i]));VCHECK(!(ok&&P.kind!=5),"nan-accepted","%s",pr(ub).c_str());VCHECK(ok||same,"failed-step-changes","%s",pr(ub).c_str());o={ok,S->c.nf};if(ok)return;}
    else o=fail(*S,hf,u,first,kn[kind]);
    VCHECK(o.second<=(long)lim*s,"iteration-limit","%ld calls of f, at most %d iterations of %d allowed (%s)",o.second,lim,s,kn[kind]);if(!(kind==2))VCHECK(S->iters()<=std::max(lim,0),"iterations-reported","%d reported",S->iters());
    count(std::string("fault: ")+kn[kind]+(o.first?" (converged all the same)":""));if((kind==1||kind==3)&&o.first&&P.kind!=5)VCHECK(o.second<S->c.nanAt,"nan-accepted","converged with NaN");
    if(o.first)return;
    // afterwards: as if it had not been tried
    S->c.nanAt=-1;S->c.throwAt=-1;LD h2=r.p(0.5)?h:DBL?(LD)(double)(h/2):h/2;bool f2=r.p(0.5);u=v;bool a=S->step(h2,u,f2),b=T->step(h2,v,f2);count("steps after a failure");bool bits=f2;
    if(f2)VCHECK(a==b&&u==v,"failure-matters","after a failure (%s): %d %s, without %d %s",kn[kind],a,pr(u).c_str(),b,pr(v).c_str());
    else if(lim>=60&&P.kind!=5){if(a!=b){count("convergence differs");}else{LD d=0;for(int l=0;l<n;l++)d=std::max(d,fabsl(u[l]-v[l]));LD tol=S->eps()*100*(1+amax(v));VCHECK(d<=tol,"failure-matters","after a failure (%s): distance %.3Lg",kn[kind],d);}count("compared to rounding");}(void)bits;
    sig(fmt("f%d %d %d %d %d",s,n,kind,pre,lim));});
  cases("summary",1,[&](Rng&){if(st().onlycase>=0)return;auto&C=st().counts;VCHECK(C["convergence differs"]<=2+0.03*C["compared to rounding"],"failure-matters","%ld of %ld steps converge or not depending on a failure before",C["convergence differs"],C["compared to rounding"]);});
  // true only if converged: problems whose iteration contracts slowly, and small limits
  for(int s=2;s<=16;s++)cases(fmt("limits s=%d",s),scaled(DBL?30:8,DBL?1000:200),[&](Rng&r){int n=r.pick({1,2,4});SP P=makeSP(r,n,r.i(0,6));auto u=startSP(r,P,DBL),u0=u;LD h=r.lg(-3,1)*r.sg();if(DBL)h=(double)h;int lim=r.i(1,40);describe(P.name()+fmt(" limits s=%d %s h=%.21Lg limit=%d u=",s,pn(),h,lim)+pr(u));auto S=makeSym(n,s,DBL,lim);S->c.P=&P;auto o=fail(*S,h,u,true,"limit");VCHECK(o.second<=(long)lim*s&&o.second==(long)S->iters()*s,"iteration-limit","%ld calls, limit %d, reported %d",o.second,lim,S->iters());count(o.first?"limit: converged":"limit: not converged");
    if(o.first){std::vector<QD> un;LD al;if(refStepG(P,s,DBL,h,u0,un,al)){LD d=dist(u,un);VCHECK(d<=8*al,"true-but-not-converged","distance %.3Lg, allowed %.3Lg",d,8*al);count("converged results compared");}else count("reference does not converge");}
    sig(fmt("l%d %d %d %d",s,n,P.kind,(int)(5*log10l(fabsl(h)))));});
#elif PART==3
  // G05: accumulated rounding. Constant right-hand side: the sum of K small increments
  for(int s=2;s<=16;s++)cases(fmt("sum s=%d",s),scaled(DBL?3:2,DBL?40:20),[&](Rng&r){int n=r.pick({1,2,4});SP P=makeSP(r,n,5);for(auto&v:P.c)v=r.sg()*r.u(0.3,1);LD T=r.lg(-1,0.5),K=st().thorough?20000:4000;auto u=startSP(r,P,DBL),u0=u;for(auto&v:u){v+=r.sg()*r.u(1,3);if(DBL)v=(double)v;}u0=u;LD h=T/K;if(DBL)h=(double)h;describe(P.name()+fmt(" sum s=%d %s h=%.21Lg K=%.0Lf u=",s,pn(),h,K)+pr(u));auto S=makeSym(n,s,DBL);S->c.P=&P;bool first=true;LD m=amax(u);for(int k=0;k<K;k++){if(!S->step(h,u,first)){viol("constant-does-not-converge","x");return;}first=r.p(0.05);m=std::max(m,amax(u));}
    LD w=0;QD wq=0;for(int l=0;l<n;l++){QD e=(QD)u0[l]+(QD)K*(QD)h*(QD)P.c[l];QD d=fabsq((QD)u[l]-e);if(d>wq)wq=d;}w=(LD)wq;LD tol=S->eps()*(1.5L*m+2*T);count("long sums");maxv("max error/eps (sums)",(double)(w/S->eps()));VCHECK(w<=tol,"rounding-accumulates","error %.3Lg = %.1Lf eps after %.0Lf steps, allowed %.1Lf",w,w/S->eps(),K,tol/S->eps());sig(fmt("u%d %d",s,n));});
  // the same with step sizes that change from step to step (compositions, adaptive runs, runs forth and back)
  for(int s=2;s<=16;s++)cases(fmt("sum of different steps s=%d",s),scaled(DBL?4:2,DBL?40:20),[&](Rng&r){int n=r.pick({1,2,4});SP P=makeSP(r,n,5);for(auto&v:P.c)v=r.sg()*r.u(0.3,1);LD T=r.lg(-1,0.5);int K=st().thorough?20000:4000;auto u=startSP(r,P,DBL);for(auto&v:u){v+=r.sg()*r.u(1,3);if(DBL)v=(double)v;}auto u0=u;LD h=T/K;if(DBL)h=(double)h;int kind=r.i(0,3),per=r.i(2,5);std::vector<LD> hs(per);for(auto&v:hs){v=h*r.u(0.3,1)*(kind==3?r.sg():1);if(DBL)v=(double)v;}const char*kn[]={"periodic","runs","random","forth and back"};
    describe(P.name()+fmt(" sum of different steps s=%d %s %s (%d sizes) h=%.21Lg K=%d u=",s,pn(),kn[kind],per,h,K)+pr(u));auto S=makeSym(n,s,DBL);S->c.P=&P;bool first=true;LD m=amax(u);QD t=0,ta=0;for(int k=0;k<K;k++){LD hk=kind==1?hs[(k/50)%per]:kind==2?h*r.u(0.1,1):hs[k%per];if(DBL)hk=(double)hk;if(!S->step(hk,u,first)){viol("constant-does-not-converge","x");return;}t+=(QD)hk;ta+=fabsq((QD)hk);first=r.p(0.05);m=std::max(m,amax(u));}
    QD wq=0;for(int l=0;l<n;l++){QD e=(QD)u0[l]+t*(QD)P.c[l];QD d=fabsq((QD)u[l]-e);if(d>wq)wq=d;}LD w=(LD)wq;LD tol=S->eps()*(1.5L*m+2*(LD)ta);count("long sums");count(std::string("sums of different steps: ")+kn[kind]);maxv("max error/eps (sums of different steps)",(double)(w/S->eps()));maxv("max error/allowed (sums of different steps)",(double)(w/tol));VCHECK(w<=tol,"rounding-accumulates","error %.3Lg = %.1Lf eps after %d steps (%s), allowed %.1Lf",w,w/S->eps(),K,kn[kind],tol/S->eps());sig(fmt("v%d %d %d",s,n,kind));});
  // oscillator against the exact rotation
  for(int s=3;s<=16;s++)cases(fmt("rotation s=%d",s),scaled(DBL?2:1,DBL?20:6),[&](Rng&r){SP P=makeSP(r,2,6);P.A={0.5,0,0,0.5};std::vector<LD> u={(double)r.u(0.5,1),(double)r.u(-1,1)},u0=u;int K=st().thorough?30000:DBL?8000:3000;LD T=r.u(0.5,3);LD h=T/K;if(DBL)h=(double)h;if(!DBL&&s<4)return;describe(fmt("rotation s=%d %s h=%.21Lg K=%d u=",s,pn(),h,K)+pr(u));auto S=makeSym(2,s,DBL);S->c.P=&P;bool first=true;long nc=0;for(int k=0;k<K;k++){if(!S->step(h,u,first)){++nc;count("steps not converged");return;}first=false;}
    QD t=(QD)K*(QD)h,c=cosq(t),z=sinq(t);QD e0=c*(QD)u0[0]+z*(QD)u0[1],e1=-z*(QD)u0[0]+c*(QD)u0[1];QD d0=fabsq((QD)u[0]-e0),d1=fabsq((QD)u[1]-e1);LD w=(LD)(d0>d1?d0:d1);LD tol=S->eps()*(2+T);count("long rotations");maxv("max error/eps (rotations)",(double)(w/S->eps()));VCHECK(w<=tol,"rounding-accumulates","error %.3Lg = %.1Lf eps after %d steps, allowed %.1Lf",w,w/S->eps(),K,tol/S->eps());sig(fmt("ro%d",s));});
  // every step carries the compensation: two objects, one of which was given the trajectory halfway, differ by ulps only; and the sum does not depend on interleaved objects
  for(int s=2;s<=16;s++)cases(fmt("interleaved s=%d",s),scaled(DBL?2:1,DBL?20:10),[&](Rng&r){SP P=makeSP(r,2,5),Q=makeSP(r,2,1);for(auto&v:P.c)v=r.u(0.3,1);auto u=startSP(r,P,DBL),v=u,w=startSP(r,Q,DBL);LD h=1e-4L*r.u(0.5,1);if(DBL)h=(double)h;describe(P.name()+fmt(" interleaved s=%d %s",s,pn()));auto S=makeSym(2,s,DBL),T=makeSym(2,s,DBL),X=makeSym(2,r.i(2,16),DBL);S->c.P=T->c.P=&P;X->c.P=&Q;for(int k=0;k<1500;k++){bool f=k==0;S->step(h,u,f);T->step(h,v,f);X->step(0.01L,w,f);}VCHECK(u==v,"objects-share","%s %s",pr(u).c_str(),pr(v).c_str());count("objects compared");sig(fmt("in%d",s));});
#endif
  return finish();}
