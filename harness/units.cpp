// U01: no integrator has preferred units. A problem and the same problem in other
// units of time and of the unknowns (powers of two: exact) are integrated side by side.
#ifndef PART
#define PART 0
#endif
#if PART==0
#include "radau_run.hpp"
#elif PART==1
#include "rock.hpp"
#elif PART==2
#include "rockl.hpp"
#else
#include "gauss.hpp"
#endif
using namespace vf;
static double p2(int e){return std::ldexp(1.,e);}
//! distance of two values in units of the larger
template<class T> static double rel(T a,T b){if(a==b||(std::isnan((double)a)&&std::isnan((double)b)))return 0;return (double)(std::fabs(a-b)/std::max(std::fabs(a),std::fabs(b)));}
template<class V> static double dist(const V&a,const V&b,double s){double m=0,d=0;for(size_t i=0;i<a.size();i++){m=std::max(m,(double)std::fabs(a[i]));d=std::max(d,(double)std::fabs(a[i]-b[i]/s));if(!(std::fabs((double)(a[i]-b[i]/s))<1e300)&&!(std::isnan((double)a[i])&&std::isnan((double)b[i])))return INFINITY;}return d==0?0:d/(m+1e-300);}
static const double TOL=1e-9;
//! exponents: sometimes one of the units only, sometimes extreme
static void draw(Rng&r,int&a,int&b,int amin,int amax){a=r.p(0.25)?0:r.p(0.3)?(r.p(0.5)?amin+r.i(0,4):amax-r.i(0,8)):r.i(amin,amax);b=r.p(0.25)?0:r.i(-60,90);}
#if PART==0
struct UC{const Prob*P=0;double ts=1,ys=1;long nf=0,nj=0,ndt=0,limit=300000;};
template<int N,int SUB,int SUP,bool HESS,bool NUMJ> struct FU{
  static const int n=N,nsub=SUB,nsup=SUP;static const bool Hessenberg=HESS,ComputeJacobianNumerically=NUMJ;static const int method=RMETH;static const bool autonomous=RAUTO,use_DF_t=RUSEDT;UC*c=0;
  void operator()(double t,double*y,double*o){if(++c->nf>c->limit)throw Runaway();double v[N],w[N];for(int i=0;i<N;i++)v[i]=y[i]/c->ys;c->P->f<double>(t/c->ts,v,w);for(int i=0;i<N;i++)o[i]=w[i]*c->ys/c->ts;}
  template<class V1,class V2,class M> void Jacobian(double,V1 Y,V2&,M&Jac){++c->nj;double v[N];for(int i=0;i<N;i++)v[i]=Y(i+1)/c->ys;for(int i=1;i<=N;i++)for(int j=std::max(1,i-SUB);j<=std::min(N,i+SUP);j++)Jac(i,j)=c->P->jac<double>(v,i-1,j-1)/c->ts;}
  template<class V,class W> void DF_t(double t,const V&,W&FX){++c->ndt;for(int i=0;i<N;i++)FX(i+1)=c->P->dft<double>(t/c->ts,i)*c->ys/c->ts/c->ts;}};
template<int N,int SUB,int SUP,bool H,bool NJ> void run(long nq,long nt){typedef FU<N,SUB,SUP,H,NJ> F;
  std::string lay=sname()+fmt("n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);
  cases("units "+lay,scaled(nq,nt),[&](Rng&r){
    Prob P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.7),r.p(0.5)?r.u(0,4):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.6));
    double at[N],rt[N];bool same=r.p(0.5);for(int i=0;i<N;i++){rt[i]=r.lg(-9,-1);at[i]=rt[i]*r.lg(-2,1);}
    double x0=r.p(0.3)?0:r.u(-50,50),len=r.lg(-1,0.7);bool back=r.p(0.3);if(back)len=std::min(len,8/(1e-3+P.lip));double xe=r.p(0.05)?0:x0+(back?-len:len);if(xe==0&&std::fabs(x0)*P.lip>8&&x0>0)xe=x0+len;double h=(xe-x0)*r.lg(-4,0);
    std::vector<double> y(N);for(auto&v:y)v=r.p(0.05)?0:r.u(-2,2)*(r.p(0.1)?1e3:1);bool gus=r.p(0.8),one=r.p(0.15);double safe=r.p(0.2)?r.u(0.5,0.95):0;int nit=r.p(0.3)?r.i(3,15):0;double thet=r.p(0.2)?r.pick({0.,0.1,-1.}):NAN;
    int a,b;draw(r,a,b,-22,50);if(NJ||(isRodas&&!RAUTO&&!RUSEDT))b=0;if(isRodas&&!RAUTO&&!RUSEDT)a=0;
    describe(P.name+fmt(" x0=%.17g xe=%.17g h=%.17g one=%d same=%d rt0=%.3g at0=%.3g nit=%d time*2^%d unknowns*2^%d y0=",x0,xe,h,(int)one,(int)same,rt[0],at[0],nit,a,b)+vec(y));
    struct O{int out=0,ns=0,na=0,nr=0,nj=0,nd=0;double x=0,hl=0,fh=0;std::vector<double> y;std::vector<Attempt> at;long nf=0;} R[2];double ts[2]={1,p2(a)},ys[2]={1,p2(b)};
    for(int k=0;k<2;k++){double A[N],T[N];for(int i=0;i<N;i++){A[i]=at[i]*ys[k];T[i]=rt[i];}UC c;c.P=&P;c.ts=ts[k];c.ys=ys[k];Solver<F> S(same,A,T);S.rhs().c=&c;S.setGustafssonTest(gus);S.performOnlyOneStep(one);if(safe)S.setSafe(safe);if(nit)setNit(S,nit,0);if(thet==thet)setThet(S,thet,0);
      Mon m;m.start(0);O&o=R[k];alignas(64) double yy[N];for(int i=0;i<N;i++)yy[i]=y[i]*ys[k];double x=x0*ts[k];
      try{S(h*ts[k],x,xe*ts[k],yy);}catch(odes::OdesException&){o.out=1;}catch(Runaway&){o.out=2;}m.stop();o.at.swap(m.at);o.x=x;o.y.assign(yy,yy+N);o.ns=S.getNstep();o.na=S.getNaccpt();o.nr=S.getNrejct();o.nj=S.getNJac();o.nd=S.getNdec();o.hl=S.getLastTimeStep();o.fh=S.getfirstAcceptedStep();o.nf=c.nf;
      if(k==0){double hm=std::min(std::fabs(h),std::fabs(o.hl));for(auto&q:o.at)hm=std::min(hm,std::fabs(q.h));if(o.out==2||hm*std::min(1.,ts[1])<1e-13){count("steps near the resolution: not compared");return;}}}
    O&p=R[0],&q=R[1];double t=ts[1],s=ys[1];
    VCHECK(p.out==q.out,"units-outcome","outcome %d, in other units %d",p.out,q.out);if(p.out!=q.out)return;
    if(p.out==0){VCHECK(p.ns==q.ns&&p.na==q.na&&p.nr==q.nr&&p.nj==q.nj&&p.nd==q.nd&&p.nf==q.nf,"units-counts","steps %d %d, accepted %d %d, rejected %d %d, Jacobians %d %d, decompositions %d %d, calls %ld %ld",p.ns,q.ns,p.na,q.na,p.nr,q.nr,p.nj,q.nj,p.nd,q.nd,p.nf,q.nf);
      VCHECK(rel(p.x,q.x/t)<=1e-14,"units-end","end %.17g, in other units %.17g",p.x,q.x/t);VCHECK(rel(p.hl,q.hl/t)<=TOL&&rel(p.fh,q.fh/t)<=TOL,"units-steps-reported","last step %.17g %.17g, first %.17g %.17g",p.hl,q.hl/t,p.fh,q.fh/t);}
    double d=dist(p.y,q.y,s);maxv("largest relative difference",d);VCHECK(d<=TOL,"units-solution","solution %s, in other units %s",vec(p.y).c_str(),vec(q.y).c_str());
    VCHECK(p.at.size()==q.at.size(),"units-attempts","%zu attempts, in other units %zu",p.at.size(),q.at.size());
    for(size_t k=0;k<std::min(p.at.size(),q.at.size());k++){Attempt&u=p.at[k],&v=q.at[k];double e=dist(u.y,v.y,s);count("attempts compared");
      if(u.acc!=v.acc||rel(u.h,v.h/t)>TOL||rel(u.t,v.t/t)>1e-12||rel(u.err,v.err)>1e-6||e>TOL){viol("units-step",fmt("attempt %zu: t=%.17g h=%.17g err=%.17g acc=%d, in other units t=%.17g h=%.17g err=%.17g acc=%d, solutions differ by %.3g",k,u.t,u.h,u.err,(int)u.acc,v.t/t,v.h/t,v.err,(int)v.acc,e));return;}}
    count("pairs of runs");sig(lay+fmt("%d %d",a/4,b/8));if(st().nsamples<3)sample(st().desc+fmt(" -> %zu attempts, largest difference %.3g",p.at.size(),d));});}
int main(int c,char**v){init(c,v);
  run<1,0,0,false,false>(150,4000);run<2,1,1,false,true>(150,4000);run<3,2,2,true,false>(150,4000);run<5,1,2,false,false>(150,4000);run<4,0,0,false,false>(100,2000);run<4,2,0,false,false>(100,2000);run<6,0,3,false,true>(100,2000);run<8,7,7,false,false>(100,2000);run<5,4,4,true,true>(100,2000);run<70,2,1,false,false>(15,300);run<150,3,3,false,true>(4,80);
#elif PART==1
int main(int c,char**v){init(c,v);
  cases("units rock4",scaled(1200,30000),[&](Rng&r){int n=r.p(0.03)?r.pick({100,300,1000}):r.pick({1,2,3,5,8,17,40});
    Prob P=rockProb(r,n,r.p(0.6)?r.u(0,4):r.u(0,1),r.p(0.3)?0:r.lg(-1,0.5),r.p(0.5),r.p(0.8));double len=r.lg(-2,1),t0=r.p(0.3)?0:r.u(-10,10),h=len*r.lg(-5,0.5);
    double rt=r.lg(-9,-1),at=rt*r.lg(-2,1),rho=P.lip*r.u(1,1.3);std::vector<double> y(n);for(auto&w:y)w=r.p(0.05)?0:r.u(-2,2);int a,b;draw(r,a,b,-20,50);double te=r.p(0.05)&&t0<0?0:t0+len;
    describe(P.name+fmt(" t0=%.17g te=%.17g h=%.17g rho=%.17g rt=%.3g at=%.3g time*2^%d unknowns*2^%d y0=",t0,te,h,rho,rt,at,a,b)+vec(y));
    double ts[2]={1,p2(a)},ys[2]={1,p2(b)};RResult R[2];
    struct FS{RCtx*c;int n;const Prob*P;double ts,ys;int size()const{return n;}double rho(){return c->rho();}
      void operator()(double*in,double*out){++c->nf;if(c->nf>c->limit)throw Runaway();std::vector<double> v(n);for(int i=0;i<n;i++)v[i]=in[i]/ys;P->f<double>(0.,v.data(),out);for(int i=0;i<n;i++)out[i]=out[i]*ys/ts;}};
    for(int k=0;k<2;k++){RCtx cx;cx.P=&P;cx.rho_=rho/ts[k];cx.limit=60000;FS F{&cx,n,&P,ts[k],ys[k]};odes::Rock4<FS> S(F);S.setTolerances(at*ys[k],rt);std::vector<double> y0(y);for(auto&w:y0)w*=ys[k];YArr Y(y0);RMon m;m.start(&cx);RResult&o=R[k];
      try{S(Y.p,t0*ts[k],te*ts[k],h*ts[k]);}catch(odes::OdesException&){o.out=RLIB;}catch(Runaway&){o.out=RRUN;}m.stop();o.at.swap(m.at);o.y.assign(Y.p,Y.p+n);o.nf=cx.nf;o.nrho=cx.nrho;o.fc=S.NbRhsComputed();o.ns=S.NbSteps();o.nacc=S.NbAccepted();o.nrej=S.NbRejected();o.stages=S.NbStages();o.hlast=S.LastAcceptedTimeStep();
      if(k==0){double hm=h;int inrow=0,worst=0;for(auto&q:o.at){hm=std::min(hm,q.h);inrow=q.acc?0:inrow+1;worst=std::max(worst,inrow);}if(o.out==RRUN||hm*std::min(1.,ts[1])<1e-13||worst>=8){count("steps near the resolution: not compared");return;}}}
    RResult&p=R[0],&q=R[1];double t=ts[1],s=ys[1];VCHECK(p.out==q.out,"units-outcome","%s, in other units %s",p.str().c_str(),q.str().c_str());if(p.out!=q.out)return;
    if(p.out==RRET){VCHECK(p.nf==q.nf&&p.nrho==q.nrho&&p.fc==q.fc&&p.ns==q.ns&&p.nacc==q.nacc&&p.nrej==q.nrej&&p.stages==q.stages,"units-counts","%s, in other units %s",p.str().c_str(),q.str().c_str());VCHECK(rel(p.hlast,q.hlast/t)<=TOL,"units-steps-reported","last step %.17g %.17g",p.hlast,q.hlast/t);}
    double d=dist(p.y,q.y,s);maxv("largest relative difference",d);VCHECK(d<=TOL,"units-solution","solution %s, in other units %s",vec(p.y).c_str(),vec(q.y).c_str());VCHECK(p.at.size()==q.at.size(),"units-attempts","%zu attempts, in other units %zu",p.at.size(),q.at.size());
    for(size_t k=0;k<std::min(p.at.size(),q.at.size());k++){RStep&u=p.at[k],&w=q.at[k];double e=dist(u.y,w.y,s);count("attempts compared");
      if(u.acc!=w.acc||u.nf!=w.nf||rel(u.h,w.h/t)>TOL||rel(u.t,w.t/t)>1e-12||rel(u.err,w.err)>1e-6||e>TOL){viol("units-step",fmt("attempt %zu: t=%.17g h=%.17g err=%.17g acc=%d calls %ld, in other units t=%.17g h=%.17g err=%.17g acc=%d calls %ld, solutions differ by %.3g",k,u.t,u.h,u.err,(int)u.acc,u.nf,w.t/t,w.h/t,w.err,(int)w.acc,w.nf,e));return;}}
    count("pairs of runs");sig(fmt("n%d %d %d",n,a/4,b/8));if(st().nsamples<3)sample(st().desc+" -> "+p.str());});
#elif PART==2
int main(int c,char**v){init(c,v);
  auto go2=[&](auto aff,Rng&r){const bool A=decltype(aff)::value;int n=r.p(0.03)?r.pick({100,300,1000}):r.pick({1,2,3,5,8,17,40});Prob P=linProb(r,n,r.u(0,3),A,r.p(0.1));
    double len=r.lg(-2,1),t0=r.p(0.3)?0:r.u(-10,10),h=len*(r.p(0.1)?r.lg(-3.5,-2.5):r.lg(-2,0.3)),rho=P.lip*r.u(1,1.3);if(h*rho>5000)h=5000/rho;if(len>3000*h)len=3000*h;std::vector<double> y(n),bb(n);for(auto&w:y)w=r.p(0.05)?0:r.u(-2,2);for(int i=0;i<n;i++)bb[i]=P.c[i];
    int a,b;draw(r,a,b,-20,50);double te=r.p(0.05)&&t0<0&&-t0<3000*h?0:t0+len;describe(P.name+fmt(" affine=%d t0=%.17g te=%.17g h=%.17g rho=%.17g time*2^%d unknowns*2^%d y0=",(int)A,t0,te,h,rho,a,b)+vec(y));
    double ts[2]={1,p2(a)},ys[2]={1,p2(b)};LResult R[2];
    for(int k=0;k<2;k++){Prob Q=P;for(auto&w:Q.A)w/=ts[k];std::vector<double> y0(y),b0(bb);for(auto&w:y0)w*=ys[k];for(auto&w:b0)w*=ys[k]/ts[k];LCtx cx;cx.P=&Q;cx.rho_=rho/ts[k];cx.limit=400000;FL F(&cx,n);odes::Rock4L<FL,A> S(F);R[k]=goL<A>(S,F,cx,t0*ts[k],te*ts[k],h*ts[k],y0,A?&b0:0);}
    LResult&p=R[0],&q=R[1];double t=ts[1],s=ys[1];if(p.out==LRUN){count("too long: not compared");return;}VCHECK(p.out==q.out&&p.nf==q.nf&&p.nrho==q.nrho&&p.fc==q.fc&&p.ns==q.ns&&p.stages==q.stages,"units-counts","%s, in other units %s",p.str().c_str(),q.str().c_str());
    if(p.out!=LRET)return;VCHECK(rel(p.t,q.t/t)<=1e-14,"units-end","end %.17g %.17g",p.t,q.t/t);double d=dist(p.y,q.y,s);maxv("largest relative difference",d);VCHECK(d<=TOL,"units-solution","solution %s, in other units %s",vec(p.y).c_str(),vec(q.y).c_str());
    count("attempts compared",p.ns);count("pairs of runs");maxv("steps",p.ns);sig(fmt("%d n%d %d %d",(int)A,n,a/4,b/8));if(st().nsamples<3)sample(st().desc+" -> "+p.str());};
  cases("units rock4l linear",scaled(1000,20000),[&](Rng&r){go2(std::false_type(),r);});
  cases("units rock4l affine",scaled(1000,20000),[&](Rng&r){go2(std::true_type(),r);});
#else
// the Gauss integrator: the step size scaled against f, the unknowns scaled
template<int N,int S,class D> struct GU{static const int n=N;const SP*P=0;D ts=1,ys=1;long nf=0;void operator()(D*in,D*out){++nf;D v[N];for(int i=0;i<N;i++)v[i]=in[i]/ys;P->f<D>(v,out);for(int i=0;i<N;i++)out[i]=out[i]*ys/ts;}};
template<int N,int S,class D> void run(long nq,long nt){cases(fmt("units gauss n%d s%d %s",N,S,sizeof(D)>8?"long double":"double"),scaled(nq,nt),[&](Rng&r){
    SP P=makeSP(r,N,r.pick({0,3,4,5,6,1,2}));D h=(D)(double)(r.lg(-4,-0.5)*r.sg());int a,b;draw(r,a,b,-40,60);std::vector<LD> u0=startSP(r,P,sizeof(D)==8);int k=r.p(0.05)?1500:r.i(3,40),chg=r.p(0.5)?r.i(2,10):1000000,fst=r.p(0.3)?r.i(1,7):1000000;
    describe(P.name()+fmt(" h=%.17g steps=%d change every %d time*2^%d unknowns*2^%d y0=",(double)h,k,chg,a,b)+vec(std::vector<double>(u0.begin(),u0.end())));
    typedef GU<N,S,D> F;odes::SymplecticRK<F,S,D> o0(200),o1(200);odes::SymplecticRK<F,S,D>*O[2]={&o0,&o1};D ts[2]={1,(D)p2(a)},ys[2]={1,(D)p2(b)};D u[2][N];for(int q=0;q<2;q++){O[q]->rhs().P=&P;O[q]->rhs().ts=ts[q];O[q]->rhs().ys=ys[q];for(int i=0;i<N;i++)u[q][i]=(D)u0[i]*ys[q];}
    for(int s=0;s<k;s++){D hh=(s/chg)%2?h*(D)0.75:h;bool ok[2];for(int q=0;q<2;q++){bool f=s==0||s%fst==0;ok[q]=O[q]->step(hh*ts[q],u[q],f);}
      double d=0,m=0;for(int i=0;i<N;i++){m=std::max(m,(double)std::fabs(u[0][i]));d=std::max(d,(double)std::fabs(u[0][i]-u[1][i]/ys[1]));}
      if(!ok[0]){VCHECK(!ok[1],"units-outcome","step %d: not converged, in other units converged",s);count("steps not converged");return;}if(m>1e60)return;
      VCHECK(ok[1],"units-outcome","step %d: converged, in other units not",s);maxv("largest relative difference",d/(m+1e-300));count("attempts compared");
      VCHECK(d<=(sizeof(D)>8?1e-15:1e-12)*m*(1+s),"units-solution","step %d: solutions differ by %.3g",s,d/m);VCHECK(O[0]->maxIter()==O[1]->maxIter(),"units-iterations","step %d: %d iterations, in other units %d",s,O[0]->maxIter(),O[1]->maxIter());if(!ok[1]||d>1e-12*m*(1+s))return;}
    count("pairs of runs");sig(fmt("n%d s%d %d %d",N,S,a/4,b/8));});}
int main(int c,char**v){init(c,v);
  run<1,3,double>(40,600);run<2,2,double>(40,600);run<4,5,double>(40,600);run<3,8,double>(40,600);run<4,12,double>(30,400);run<2,16,double>(30,400);run<24,4,double>(10,100);run<80,2,double>(4,40);run<70,10,double>(3,30);
  run<2,3,LD>(30,400);run<3,6,LD>(30,400);run<4,10,LD>(30,400);run<1,16,LD>(30,400);run<40,4,LD>(5,60);
#endif
  return finish();}
