// R06: options act as documented and persist.
#include "radau_run.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> struct T{
  typedef Fon<N,SUB,SUP,H,NJ> F; typedef odes::Radau5cc<F> S;
  struct In{Prob P;double rt,at,x0,xe,h;std::vector<double> y;
    In(Rng& r,double nlmax=0.8){P=makeProb(r,N,SUB,SUP,r.p(0.8),r.p(0.6)?r.u(0,3.5):r.u(0,1),r.p(0.15)?0:r.lg(-1,nlmax));rt=r.lg(-7,-2);at=rt*r.lg(-1,1);
      x0=r.p(0.3)?0:r.u(-20,20);double dir=r.p(0.7)?1:-1,len=r.lg(-1,0.8);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));xe=x0+dir*len;h=dir*len*r.lg(-3,0.3);y.resize(N);for(auto&v:y)v=r.u(-2,2);}
    std::string str()const{return P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g at=%.3g y0=",x0,xe,h,rt,at)+vec(y);}
    Result go1(S& s,bool rec=true,long lim=1000000)const{Ctx c;c.P=&P;c.limit=lim;return go(s,c,h,x0,xe,y,rec);}};
  //! stage calls between attempts, in Newton iterations: seen from the user's function
  static std::vector<int> iterations(const std::vector<double>& t,const Result& R,double x0){
    std::vector<int> r;double x=x0;size_t ia=0;double cur=NAN;int n=0;std::vector<double> trip;
    for(size_t k=0;k<=t.size();k++){
      while(ia<R.at.size()&&(size_t)R.at[ia].nf<=k){if(n)r.push_back(n);n=0;if(R.at[ia].acc)x=R.at[ia].t+R.at[ia].h;cur=NAN;trip.clear();++ia;}
      if(k==t.size())break; if(t[k]==x)continue; trip.push_back(t[k]);
      if(trip.size()==3){double e=trip[0];for(double q:trip)if(std::fabs(q-x)>std::fabs(e-x))e=q;if(!(e==cur)){if(n)r.push_back(n);n=0;cur=e;}++n;trip.clear();}
    }
    if(n)r.push_back(n);return r;}
  static void run(long nq,long nt){
    std::string lay=fmt(" n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);
    cases("one-step"+lay,scaled(nq,nt),[&](Rng& r){In Q(r);describe(Q.str());S s(true,&Q.at,&Q.rt);s.performOnlyOneStep(true);
      double x=Q.x0,h=Q.h;std::vector<double> y=Q.y;int k;
      for(k=0;k<12;k++){Ctx c;c.P=&Q.P;c.limit=300000;Result R=go(s,c,h,x,Q.xe,y);count("one-step calls");if(R.out!=RETURNED){count("one-step call failed");break;}
        VCHECK(R.acc().size()==1,"one-step-count","%zu accepted steps in one-step mode",R.acc().size());VCHECK(R.nacc==1,"one-step-counter","getNaccpt()=%d",R.nacc);
        if(R.acc().size()==1){Attempt a=R.acc()[0];VCHECK(R.at.back().acc,"one-step-continues","attempts after the accepted step");VCHECK(R.x==a.t+a.h&&Result::bits(R.y,a.y),"one-step-result","x,y are not those of the accepted step");}
        x=R.x;y=R.y;h=R.hlast;VCHECK(std::isfinite(h)&&h!=0&&h*(Q.xe-Q.x0)>0,"one-step-last-step","getLastTimeStep()=%g",h); if(std::fabs(x-Q.xe)<=1e-14*std::fabs(Q.xe)+1e-300)break;}
      // back to full intervals on the same object
      s.performOnlyOneStep(false);Result R=Q.go1(s);S f(true,&Q.at,&Q.rt);Result R0=Q.go1(f);VCHECK(R.same(R0),"one-step-sticks","after switching one-step mode off: %s, new object: %s",R.str().c_str(),R0.str().c_str());
      sig("one"+lay+fmt("%d",k));});
    cases("nmax"+lay,scaled(nq,nt),[&](Rng& r){In Q(r);S f(true,&Q.at,&Q.rt);Result R0=Q.go1(f);describe(Q.str()+fmt(" unlimited: %d attempts",R0.nstep));if(R0.out!=RETURNED)return;
      for(int m:{1,2,R0.nstep/2,R0.nstep-2,R0.nstep-1,R0.nstep,R0.nstep+1,R0.nstep+50})if(m>0){S s(true,&Q.at,&Q.rt);s.setNmax(m);
        for(int rep=0;rep<2;rep++){Result R=Q.go1(s);count("step limits tried"); // the limit persists over calls
          // a run within the limit is not touched, one clearly above it is stopped, at the limit (give or take one)
          if(m>=R0.nstep)VCHECK(R.same(R0),"nmax-stops-early","nmax=%d, %d attempts needed: %s",m,R0.nstep,R.str().c_str());
          if(m<R0.nstep-1)VCHECK(R.out==LIBEX,"nmax-ignored","nmax=%d, %d attempts needed: %s",m,R0.nstep,R.str().c_str());
          if(R.out==LIBEX)VCHECK(R.nstep>=m&&R.nstep<=m+1,"nmax-inexact","nmax=%d: stopped after %d attempts",m,R.nstep);
          sig("nmax"+lay+fmt("%d %d",R.out,std::min(m,50)));}}});
    cases("newton limit"+lay,scaled(nq,nt),[&](Rng& r){In Q(r,1.2);int nit=r.i(2,9);describe(Q.str()+fmt(" nit=%d",nit));S s(true,&Q.at,&Q.rt);s.setMaxIterationsNewton(nit);
      for(int rep=0;rep<2;rep++){Ctx c;c.P=&Q.P;c.limit=300000;std::vector<double> t;c.onF=[&](double tt,const double*,const double*){t.push_back(tt);};
        Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);auto it=iterations(t,R,Q.x0);int mx=0;for(int v:it){mx=std::max(mx,v);count(fmt("attempts with %d iterations",v));}
        VCHECK(mx<=nit,"newton-iterations","%d Newton iterations in an attempt, limit %d",mx,nit);sig("nit"+lay+fmt("%d %d",nit,mx));if(mx==nit)count("limit reached");}});
    cases("safety"+lay,scaled(nq,nt),[&](Rng& r){In Q(r,0);double safe=r.u(0.3,0.98),facr=r.u(0.05,0.9),facl=r.u(1.2,10);bool sf=r.p(0.7),ff=r.p(0.7);if(!sf)safe=0.9;if(!ff){facr=0.125;facl=5;}
      describe(Q.str()+fmt(" safe=%g facr=%g facl=%g",safe,facr,facl));S s(true,&Q.at,&Q.rt);if(sf)s.setSafe(safe);if(ff)s.setFacrFacl(facr,facl);bool gus=r.p(0.5);s.setGustafssonTest(gus);s.setMaxIterationsNewton(7);
      for(int rep=0;rep<2;rep++){Ctx c;c.P=&Q.P;c.limit=500000;std::vector<double> t;c.onF=[&](double tt,const double*,const double*){t.push_back(tt);};Result R=go(s,c,Q.h,Q.x0,Q.xe,Q.y);bool first=true;
        bool nonewtonfail=R.nstep==(int)R.at.size();auto it=iterations(t,R,Q.x0);
        bool rej=false;
        for(size_t k=0;k+1<R.at.size();k++){Attempt&a=R.at[k],&b=R.at[k+1];double q=b.h/a.h;bool atend=std::fabs(b.t+b.h-Q.xe)<=1e-12*std::fabs(Q.xe)+1e-300;if(a.acc)first=false;
          double e4=std::sqrt(std::sqrt(std::max(1e-10,a.err))),lim=std::min(1/facr,std::max(1/facl,safe/e4));if(first&&!a.acc)lim=std::max(0.1,0.);
          count("step ratios");VCHECK(q<=lim*(1+1e-9)||(q==1&&lim>=1-1e-9),"ratio-above-limit","ratio %.6g after error %.6g, safe=%g facr=%g facl=%g allow %.6g",q,a.err,safe,facr,facl,lim);
          if(nonewtonfail&&!atend&&!first&&it.size()==R.at.size()){
            VCHECK(q>=(1/facl)*(1-1e-9),"ratio-below-limit","ratio %.6g below 1/facl=%.6g",q,1/facl);
            // without the predictive controller: the classical formula, with the number of Newton iterations
            double fac=std::min(safe,safe*(1+2*7)/(it[k]+2*7)),quot=std::max(facr,std::min(facl,e4/fac)),hn=1/quot; if(a.acc&&rej)hn=std::min(hn,1.0);
            if(!gus||!a.acc||R.at[0].acc==false){ if(!gus||!a.acc){bool keep=a.acc&&q==1&&hn>=1-1e-9&&hn<=1.2+1e-9; // step kept
              double cap=std::fabs(Q.xe-Q.x0)/std::fabs(a.h); 
              VCHECK(keep||std::fabs(q-std::min(hn,cap))<=1e-9*hn,"classical-step-size","ratio %.9g after error %.9g (%d iterations, %s), expected %.9g",q,a.err,it[k],a.acc?"accepted":"rejected",hn);count("classical step sizes checked");}}
            else {VCHECK(q<=hn*(1+1e-9),"predictive-step-size","ratio %.9g, classical controller gives %.9g",q,hn);if(q<hn*(1-1e-6)&&q!=1)count("predictive controller active");}
          }
          rej=!a.acc; if(!a.acc)rej=true;
        }
        sig("safe"+lay+fmt("%d %d %d",(int)(safe*10),(int)(facr*10),(int)facl));}});
    if(!NJ)cases("jacobian threshold"+lay,scaled(nq,nt),[&](Rng& r){In Q(r);describe(Q.str());
      S a(true,&Q.at,&Q.rt),b(true,&Q.at,&Q.rt);a.setRecomputeJacobianTreshold(-1);b.setRecomputeJacobianTreshold(1e9);
      for(int rep=0;rep<2;rep++){
        std::vector<std::pair<double,std::vector<double>>> jac;Ctx c;c.P=&Q.P;c.limit=500000;c.onJ=[&](double t,const double*y){jac.push_back({t,std::vector<double>(y,y+N)});};
        Result R=go(a,c,Q.h,Q.x0,Q.xe,Q.y);
        if(R.out==RETURNED){ // one Jacobian at the start of every step
          size_t j=0;double x=Q.x0;std::vector<double> y=Q.y;bool ok=true;for(auto&s:R.acc()){bool f=false;for(;j<jac.size()&&!f;j++)f=jac[j].first==x&&Result::bits(jac[j].second,y);if(!f)ok=false;x=s.t+s.h;y=s.y;}
          VCHECK(ok,"jacobian-not-renewed","threshold -1: no Jacobian at the start of some step; %s",R.str().c_str());VCHECK(R.nj==(long)R.acc().size(),"jacobian-renewed-too-often","threshold -1: %ld Jacobians for %zu steps",R.nj,R.acc().size());count("runs with a Jacobian per step");}
        Ctx d;d.P=&Q.P;d.limit=500000;std::vector<std::pair<double,std::vector<double>>> jd;d.onJ=[&](double t,const double*y){jd.push_back({t,std::vector<double>(y,y+N)});};
        Result D=go(b,d,Q.h,Q.x0,Q.xe,Q.y);
        if(D.out==RETURNED){long fails=D.nstep-(long)D.acc().size();VCHECK(D.nj<=1+fails,"jacobian-renewed-needlessly","threshold 1e9: %ld Jacobians, %ld failed attempts",D.nj,fails);count("runs keeping the Jacobian");
          for(auto&q:jd){bool f=q.first==Q.x0&&Result::bits(q.second,Q.y);for(auto&s:D.acc())f=f||(q.first==s.t+s.h&&Result::bits(q.second,s.y));VCHECK(f,"jacobian-elsewhere","Jacobian at t=%.17g, not at an accepted point",q.first);}}
        sig("thet"+lay+fmt("%ld %ld",std::min(R.nj,30L),std::min(D.nj,30L)));}});
    cases("fnewt"+lay,scaled(nq,nt),[&](Rng& r){In Q(r);Q.rt=r.lg(-5,-2);Q.at=Q.rt;describe(Q.str());S s(true,&Q.at,&Q.rt);RTol tl(N,true,&Q.at,&Q.rt);double lim=1e-16/(double)tl.rt[0];
      Result R0=Q.go1(s);
      for(double v:{lim*0.99,lim*0.5,0.0,-1.0,-INFINITY*1.0}){bool ex=false;try{s.setFnewt(v);}catch(odes::OdesException&){ex=true;}VCHECK(ex,"fnewt-not-refused","setFnewt(%g) accepted, limit %g",v,lim);count("stopping tolerances refused");}
      Result R1=Q.go1(s);VCHECK(R1.same(R0),"fnewt-refused-but-set","a refused stopping tolerance changes results");
      bool ex=false;try{s.setFnewt(lim*1.01);}catch(odes::OdesException&){ex=true;}VCHECK(!ex,"fnewt-refused","setFnewt(%g) refused, limit %g",lim*1.01,lim);
      // per-component: the first component's relative tolerance decides
      if(N>1){double a[N],q[N];for(int i=0;i<N;i++){a[i]=q[i]=1e-3;}q[0]=1e-6;S t(false,a,q);RTol t2(N,false,a,q);double l2=1e-16/(double)t2.rt[0];ex=false;try{t.setFnewt(l2*0.9);}catch(odes::OdesException&){ex=true;}VCHECK(ex,"fnewt-not-refused","per component: setFnewt(%g) accepted, limit %g",l2*0.9,l2);}
      // more iterations with a tighter stopping tolerance, same default when set explicitly
      S t(true,&Q.at,&Q.rt);t.setFnewt(tl.fnewt);Result R2=Q.go1(t);VCHECK(R2.out==R0.out&&std::abs(R2.nstep-R0.nstep)<=2+R0.nstep/10&&std::abs(R2.nfc-R0.nfc)<=20+R0.nfc/10,"fnewt-default","setFnewt(default) changes results: %s instead of %s",R2.str().c_str(),R0.str().c_str());
      t.setFnewt(std::max(1e-8,3e2*lim));Result R3=Q.go1(t),R4=Q.go1(t);VCHECK(R3.same(R4),"fnewt-not-kept","stopping tolerance not kept over calls");
      if(R3.out==RETURNED&&R0.out==RETURNED){double a3=(double)R3.nfc/R3.nstep,a0=(double)R0.nfc/R0.nstep;more.push_back(a3/a0);}
      sig("fnewt"+lay);});
    st().k=-2;if(more.size()>40){std::sort(more.begin(),more.end());double m=more[more.size()/2];maxv("median ratio of work per attempt, tight/default stopping tolerance",m);VCHECK(m>1.05,"fnewt-no-effect","a tighter stopping tolerance does not cost more iterations (ratio %.3g)",m);}
    if(N>1)cases("per component"+lay,scaled(nq,nt),[&](Rng& r){In Q(r);double a[N],q[N];for(int i=0;i<N;i++){a[i]=Q.at;q[i]=Q.rt;}describe(Q.str());
      S s(true,&Q.at,&Q.rt),t(false,a,q);Result R=Q.go1(s),R2=Q.go1(t);VCHECK(R.same(R2),"scalar-vs-component","scalar tolerances: %s, equal per-component ones: %s",R.str().c_str(),R2.str().c_str());count("scalar and component runs compared");
      s.setTestPolicy(false,a,q);Result R3=Q.go1(s);VCHECK(R3.same(R),"policy-switch","switching to equal per-component tolerances changes results");
      // decoupled equations: component i sees only tolerance i. permuting everything permutes the result
      Prob D=Q.P;D.timedep=true;for(int i=0;i<N;i++)for(int j=0;j<N;j++){if(i!=j){D.A[i*N+j]=D.B[i*N+j]=0;}} for(int i=0;i<N;i++){D.A[i*N+i]=-r.lg(-0.5,1.5);D.B[i*N+i]=r.u(-1,1);D.c[i]=r.u(-2,2);D.w[i]=r.u(0.5,3);D.p[i]=r.u(0,6);}
      std::vector<int> pm(N);for(int i=0;i<N;i++)pm[i]=i;for(int i=N-1;i>0;i--)std::swap(pm[i],pm[r.i(0,i)]);
      bool rv=r.p(0.6);for(int i=0;i<N;i++){a[i]=Q.rt*r.lg(-3,2);if(rv)q[i]=r.lg(-6,-2);}
      Prob D2=D;double a2[N],q2[N];std::vector<double> y2(N);for(int i=0;i<N;i++){int k=pm[i];D2.A[i*N+i]=D.A[k*N+k];D2.B[i*N+i]=D.B[k*N+k];D2.c[i]=D.c[k];D2.w[i]=D.w[k];D2.p[i]=D.p[k];a2[i]=a[k];q2[i]=q[k];y2[i]=Q.y[k];}
      double xe=Q.x0+r.lg(-1,0.3),h=(xe-Q.x0)*0.01;
      S u(false,a,q),v(false,a2,q2);if(rv){u.setFnewt(1e-7);v.setFnewt(1e-7);count("permutations of relative tolerances");}Ctx c,d;c.P=&D;d.P=&D2;c.limit=d.limit=1000000;Result U=go(u,c,h,Q.x0,xe,Q.y),V=go(v,d,h,Q.x0,xe,y2);
      VCHECK(U.out==RETURNED&&V.out==RETURNED,"decoupled-failed","%s / %s",U.str().c_str(),V.str().c_str());
      if(U.at.size()&&V.at.size()){double e1=U.at[0].err,e2=V.at[0].err;bool two=e1>0.9; if(!H)VCHECK(std::fabs(e1-e2)<=1e-5*(e1+e2)+(NJ||two?1e-2*(e1+e2):0),"component-tolerance-misplaced","first error estimate %.9g, after permuting components and tolerances %.9g",e1,e2);count("permutations");}
      if(!NJ&&!H)VCHECK(std::abs(U.nacc-V.nacc)<=2+U.nacc/20,"component-tolerance-misplaced","%d steps, %d after permuting components with their tolerances",U.nacc,V.nacc);
      // one loose component must not be controlled by the others' tolerance and vice versa: direct count
      sig("comp"+lay);});
  }
  static std::vector<double> more;
};
template<int N,int SUB,int SUP,bool H,bool NJ> std::vector<double> T<N,SUB,SUP,H,NJ>::more;
int main(int a,char**b){init(a,b);
#if PART==0
  T<1,0,0,false,false>::run(150,2500);T<2,1,1,false,true>::run(150,2500);
#elif PART==1
  T<3,2,2,true,false>::run(150,2500);
#elif PART==2
  T<4,1,1,false,false>::run(150,2500);
#elif PART==3
  T<3,2,2,false,false>::run(150,2500);
#elif PART==4
  T<4,2,1,false,true>::run(100,1500);
#endif
  return finish();}
