// G01, G04, G06: every converged step against the collocation equations, whatever the history; orders; coefficients.
#include "gauss.hpp"
using namespace vf;
#ifndef PART
#define PART 0
#endif
static bool DBL=true;
static int pickn(Rng&r,int s){return (s==2||s==5||s==12)&&r.p(0.1)?10:r.pick({1,2,2,4});}
static const char*pn(){return DBL?"double":"long double";}
//! one step, compared
static bool oneStep(Sym&S,const SP&P,LD h,std::vector<LD>&u,bool first,bool&ok,const char*what,LD*rel=0){
  std::vector<LD> u0=u;long f0=S.c.nf;ok=S.step(h,u,first);long nf=S.c.nf-f0;
  VCHECK(nf==(long)S.iters()*S.s,"iterations-reported","%ld calls of f for %d stages, %d iterations reported",nf,S.s,S.iters());
  if(!ok){VCHECK(u==u0,"failed-step-changes","%s became %s",pr(u0).c_str(),pr(u).c_str());count("steps not converged");return true;}
  std::vector<QD> un;LD al;if(!refStepG(P,S.s,DBL,h,u0,un,al)){count("reference does not converge");return true;}
  for(LD v:u0)S.umax=std::max(S.umax,fabsl(v));for(LD v:u)S.umax=std::max(S.umax,fabsl(v));al+=S.eps()*S.umax;/* the compensation of earlier steps */
  LD d=dist(u,un);count("steps compared");maxv("max distance/allowed",(double)(d/al));if(rel)*rel=d/al;
  VCHECK(d<=6*al,"not-the-collocation-step","%s: distance %.3Lg, rounding explains %.3Lg; from %s to %s",what,d,al,pr(u0).c_str(),pr(u).c_str());return d<=6*al;}
int main(int ac,char**av){init(ac,av);
#ifdef ONLY_LONG
  DBL=false;
#endif
#if PART==0
  for(int s=2;s<=16;s++)cases(fmt("steps s=%d",s),scaled(DBL?60:16,DBL?3000:600),[&](Rng&r){int n=pickn(r,s);SP P=makeSP(r,n,r.i(0,7));auto u=startSP(r,P,DBL);LD h=r.lg(-3,0.3)*r.sg();if(r.p(0.05))h=1;if(DBL)h=(double)h;else h+=h*1e-17L*r.u(-1,1);
    describe(P.name()+fmt(" s=%d %s h=%.21Lg u=",s,pn(),h)+pr(u));auto S=makeSym(n,s,DBL);S->c.P=&P;int k=r.i(1,DBL?4:2);bool first=true;for(int i=0;i<k;i++){bool ok;if(!oneStep(*S,P,h,u,first,ok,"step"))break;if(!ok){if(fabsl(h)<0.2L)count("small steps not converged");break;}if(fabsl(h)<0.2L)count("small steps converged");first=r.p(0.2);
      LD m=0;for(LD v:u)m=std::max(m,fabsl(v));if(m>1e3)break;}
    sig(fmt("%d %d %d %d",s,n,P.kind,(int)(10*log10l(fabsl(h)))));if(st().nsamples<3)sample(st().desc+" -> "+pr(u));});
  cases("summary",1,[&](Rng&){if(st().onlycase>=0)return;auto&C=st().counts;long a=C["small steps converged"],b=C["small steps not converged"];VCHECK(b<=2+0.05*(a+b)||a+b==0,"small-steps-do-not-converge","%ld of %ld steps with h<0.2 did not converge in 200 iterations",b,a+b);});
#elif PART==1
  // order 2s, seen on nonlinear and linear problems, where the precision leaves room for it
  for(int s=2;s<=(DBL?4:6);s++)cases(fmt("order s=%d",s),scaled(DBL?40:12,DBL?1000:200),[&](Rng&r){int n=r.pick({2,4});SP P;do P=makeSP(r,n,r.pick({1,2,3,4,6}));while(!P.g.empty());auto u=startSP(r,P,DBL);describe(P.name()+fmt(" order s=%d %s u=",s,pn())+pr(u));
    double H[]={0,0,0.2,0.35,0.6,0.9,1.2};LD T=H[s]*(DBL?1:0.6);
    // reference: 16 stages, small steps, in quadruple precision (long double for double)
    auto ref=[&](LD t){std::vector<QD> x(u.begin(),u.end());std::vector<LD> y=u;int k=4;for(int i=0;i<k;i++){if(DBL){std::vector<LD> z;if(!refGauss<LD>(P,14,t/k,y,z))return std::vector<QD>();y=z;}else{std::vector<QD> z;if(!refGauss<QD>(P,14,(QD)t/k,x,z))return std::vector<QD>();x=z;}}if(DBL)x.assign(y.begin(),y.end());return x;};
    std::vector<LD> e;for(int j=0;j<3;j++){LD h=T/(1<<j);if(DBL)h=(double)h;auto S=makeSym(n,s,DBL);S->c.P=&P;std::vector<LD> x=u;if(!S->step(h,x,true)){count("steps not converged");return;}auto y=ref(h);if(y.empty())return;e.push_back(dist(x,y));}
    LD fl=(DBL?2e-16L:1e-19L)*30;double best=-1,want=2*s+1;for(int j=1;j<3;j++)if(e[j]>fl*20){double p=log2l(e[j-1]/e[j]);best=std::max(best,p);count("orders observed");maxv(fmt("max order-%d s=%d",2*s+1,s),p-want);}
    if(best>=0){count("problems with an order");st().counts[fmt("sum100 s=%d",s)]+=(long)(100*best);st().counts[fmt("num s=%d",s)]++;}
    sig(fmt("o%d %d %d",s,n,P.kind));});
  cases("summary",1,[&](Rng&){if(st().onlycase>=0)return;auto&C=st().counts;for(int s=2;s<=(DBL?4:6);s++){long k=C[fmt("num s=%d",s)];if(k<7){count(fmt("few orders s=%d",s));continue;}double m=C[fmt("sum100 s=%d",s)]/100./k;maxv(fmt("mean observed local order s=%d",s),m);VCHECK(m>2*s+1-0.6&&m<2*s+1+2,"order","%d stages: mean observed order of the local error %.2f, %d expected",s,m,2*s+1);}
    for(int s=2;s<=6;s++){C.erase(fmt("num s=%d",s));C.erase(fmt("sum100 s=%d",s));}});
#elif PART==2
  // G04: any history of firstStep, step sizes, restarts; interleaved objects; the extrapolation saves iterations
  for(int s=2;s<=16;s++)cases(fmt("history s=%d",s),scaled(DBL?25:6,DBL?1200:200),[&](Rng&r){int n=r.pick({1,2,4});SP P=makeSP(r,n,r.i(0,7));auto u0=startSP(r,P,DBL);std::vector<LD> hs;int k=r.i(1,3);for(int i=0;i<k;i++){LD h=r.lg(-2.5,-0.3)*r.sg();if(r.p(0.15))h=1;hs.push_back(DBL?(LD)(double)h:h);}
    describe(P.name()+fmt(" history s=%d %s h=",s,pn())+pr(hs)+" u="+pr(u0));auto S=makeSym(n,s,DBL);S->c.P=&P;auto u=u0;bool first=r.p(0.7);std::string log;SP P2=makeSP(r,n,r.i(0,7));
    auto other=makeSym(n,r.i(2,16),DBL);other->c.P=&P2;auto uo=startSP(r,P2,DBL);
    for(int i=0;i<8;i++){LD h=hs[r.i(0,k-1)];if(r.p(0.3)){LD z=h*(1+r.sg()*(LD)r.lg(-18,-3));h=DBL?(LD)(double)z:z;count("steps of nearly the same size");}if(r.p(0.1)){u=startSP(r,P,DBL);log+=" restart";}if(r.p(0.1)){S->c.P=S->c.P==&P?&P2:&P;u=startSP(r,*S->c.P,DBL);log+=" other problem";}if(r.p(0.3)){other->step(0.01L,uo,r.p(0.5));}
      log+=fmt(" %c%.21Lg",first?'F':'c',h);bool ok;if(!oneStep(*S,*S->c.P,h,u,first,ok,log.c_str()))break;first=r.p(0.25);LD m=0;for(LD v:u)m=std::max(m,fabsl(v));if(m>1e2)u=startSP(r,*S->c.P,DBL);}
    sig("h"+log.substr(0,60)+fmt("%d",s));});
  for(int s=2;s<=16;s++)cases(fmt("starts s=%d",s),scaled(DBL?10:3,DBL?300:60),[&](Rng&r){int n=r.pick({2,4});SP P=makeSP(r,n,r.pick({1,2,3,6}));auto u=startSP(r,P,DBL),v=u;LD h=r.lg(-2,-1.3);if(DBL)h=(double)h;describe(P.name()+fmt(" starts s=%d %s h=%.21Lg u=",s,pn(),h)+pr(u));
    // the same trajectory with and without extrapolation: equal to rounding; and bit for bit with itself next to another
    auto S=makeSym(n,s,DBL),T=makeSym(n,s,DBL),S2=makeSym(n,s,DBL);S->c.P=T->c.P=S2->c.P=&P;auto w=u;long is=0,it=0;int K=20;LD acc=0;LD sc=1;for(int i=0;i<K;i++){bool a=S->step(h,u,i==0),b=T->step(h,v,true),c=S2->step(h,w,i==0);if(!a||!b){count("steps not converged");return;}is+=i?S->iters():0;it+=i?T->iters():0;VCHECK(c&&u==w,"not-reproducible","%s %s",pr(u).c_str(),pr(w).c_str());for(LD x:u)sc=std::max(sc,fabsl(x));
      LD d=0;for(int l=0;l<n;l++)d=std::max(d,fabsl(u[l]-v[l]));acc=std::max(acc,d);}
    LD tol=S->eps()*sc*K*20*expl(2*P.lip*K*h*0.5L);count("trajectories compared");maxv("max distance/allowed of starts",(double)(acc/tol));VCHECK(acc<=tol,"start-matters","distance %.3Lg after %d steps, allowed %.3Lg",acc,K,tol);st().counts["iterations with extrapolation"]+=is;st().counts["iterations without"]+=it;
    if(r.p(0.3)){std::vector<std::thread> th;std::vector<std::vector<LD>> R(3);for(int q=0;q<3;q++)th.emplace_back([&,q]{auto Z=makeSym(n,s,DBL);Z->c.P=&P;auto x=w;bool f=true;for(int i=0;i<10;i++){Z->step(h,x,f);f=false;}R[q]=x;});for(auto&t:th)t.join();auto Z=makeSym(n,s,DBL);Z->c.P=&P;auto x=w;bool f=true;for(int i=0;i<10;i++){Z->step(h,x,f);f=false;}for(int q=0;q<3;q++)VCHECK(R[q]==x,"threads-matter","%s alone %s",pr(R[q]).c_str(),pr(x).c_str());count("thread runs");}
    sig(fmt("st %d %d %d",s,n,P.kind));});
#elif PART==3
  // G06: coefficients and admissible numbers of stages
  for(int s=2;s<=16;s++)cases(fmt("coefficients s=%d",s),1,[&](Rng&){describe(fmt("coefficients s=%d %s",s,pn()));auto S=makeSym(1,s,DBL);std::vector<LD> A,b;S->coeffs(A,b);const GTab&g=gtab(s);LD e=S->eps();
    // each row belongs to a node: the sum of the row; the nodes in any order
    std::vector<int> pos(s,-1);std::set<int> used;for(int i=0;i<s;i++){QD c=0;for(int j=0;j<s;j++)c+=(QD)A[i*s+j];int k=-1;QD best=1;for(int q=0;q<s;q++)if(fabsq(c-g.c[q])<best){best=fabsq(c-g.c[q]);k=q;}pos[i]=k;used.insert(k);maxv("row sums: error/eps",(double)((LD)best/e));VCHECK((LD)best<=3*e,"row-sum","row %d: error %.3Lg",i,(LD)best);count("coefficients checked");}
    VCHECK((int)used.size()==s,"nodes","only %zu different nodes",used.size());
    for(int i=0;i<s;i++){LD x=(LD)fabsq((QD)b[i]-g.b[pos[i]]);maxv("weights: error/eps",(double)(x/e));VCHECK(x<=e*0.6L,"weight","b_%d: error %.3Lg",i,x);count("coefficients checked");for(int j=0;j<s;j++){x=(LD)fabsq((QD)A[i*s+j]-g.A[pos[i]*s+pos[j]]);maxv("a_ij: error/eps",(double)(x/e));VCHECK(x<=e*0.6L,"coefficient","a_%d%d: error %.3Lg",i,j,x);
        QD y=(QD)b[i]*A[i*s+j]+(QD)b[j]*A[j*s+i]-(QD)b[i]*b[j];maxv("symplecticity: error/eps",(double)((LD)fabsq(y)/e));VCHECK((LD)fabsq(y)<=e,"symplecticity","%d,%d: %.3Lg",i,j,(LD)fabsq(y));count("coefficients checked");}}
    for(int k=0;k<2*s;k++){QD q=0;for(int i=0;i<s;i++)q+=(QD)b[i]*powq(g.c[pos[i]],k);LD x=(LD)fabsq(q-1/(QD)(k+1));VCHECK(x<=3*e,"quadrature","degree %d: %.3Lg",k,x);count("conditions checked");}
    sig(fmt("co%d",s));});
  cases("refused",1,[&](Rng&){describe("numbers of stages outside 2..16");
    auto t=[&](auto mk,int s){int o=0;try{mk();}catch(odes::OdesException&){o=1;}catch(...){o=2;}VCHECK(o==1,"stages-not-refused","%d stages: outcome %d",s,o);count("stage numbers refused");};
#ifdef ONLY_LONG
    typedef LD D;
#else
    typedef double D;
#endif
    t([]{odes::SymplecticRK<GF<2,D>,1,D> x(10);},1);t([]{odes::SymplecticRK<GF<2,D>,17,D> x(10);},17);t([]{odes::SymplecticRK<GF<2,D>,18,D> x(10);},18);t([]{odes::SymplecticRK<GF<2,D>,20,D> x(10);},20);t([]{odes::SymplecticRK<GF<1,D>,32,D> x(10);},32);t([]{odes::GaussianMethod<1,D> x;},1);t([]{odes::GaussianMethod<17,D> x;},17);t([]{odes::Extrap<2,1,D> x;},1);t([]{odes::Extrap<2,17,D> x;},17);
    for(int s=2;s<=16;s++){int o=0;try{auto S=makeSym(2,s,DBL);(void)S;}catch(...){o=1;}VCHECK(o==0,"stages-refused","%d stages refused",s);count("stage numbers accepted");}});
  // the same coefficients are used whatever the step size was before: h, other h, h again
  for(int s=2;s<=16;s++)cases(fmt("scaling s=%d",s),scaled(3,60),[&](Rng&r){describe(fmt("scaling s=%d %s",s,pn()));SP P=makeSP(r,2,5);auto S=makeSym(2,s,DBL);S->c.P=&P;std::vector<LD> hs={(double)r.lg(-3,3),(double)r.lg(-6,0),1,(double)-r.lg(-3,3)};for(int i=0;i<12;i++){LD h=hs[r.i(0,3)];if(r.p(0.4)){LD z=h*(1+r.sg()*(LD)r.lg(-18,-3));h=DBL?(LD)(double)z:z;}std::vector<LD> u(2,0.L);
      // from zero with a constant right-hand side: h times the sum of the weights times it
      auto Z=makeSym(2,s,DBL);Z->c.P=&P;bool ok=S->step(h,u,r.p(0.5)),o2;std::vector<LD> v(2,0.L);o2=Z->step(h,v,true);if(!ok||!o2){viol("constant-does-not-converge","x");return;}for(int l=0;l<2;l++){LD e=h*P.c[l],tol=S->eps()*40*(fabsl(e)+1e-3L*(i>0?1000:0)*fabsl(P.c[l]));VCHECK(fabsl(v[l]-e)<=S->eps()*8*fabsl(e),"constant-rhs","h=%.21Lg: %.21Lg expected %.21Lg",h,v[l],e);VCHECK(fabsl(u[l]-e)<=tol,"step-size-history","h=%.21Lg: %.21Lg expected %.21Lg",h,u[l],e);}count("scalings checked");}});
#endif
#if PART==2||PART==3
  // thousands of changes of the step size leave no trace: from zero with a constant right-hand side, h times it
  for(int s=2;s<=16;s++)cases(fmt("many changes s=%d",s),scaled(1,8),[&](Rng&r){int N=(int)scaled(2500,10000);describe(fmt("many changes s=%d %s",s,pn()));SP P=makeSP(r,2,5);auto S=makeSym(2,s,DBL);S->c.P=&P;LD ha=(double)r.lg(-2,1),hb=(double)r.lg(-2,1);int kind=r.i(0,2);LD w=0;
    for(int i=0;i<N;i++){LD h=kind==0?(i%2?ha:hb):kind==1?(LD)(double)(ha*(1+r.u(-0.3,0.3))):(LD)(double)r.lg(-2,1);std::vector<LD> u(2,0.L);bool ok=S->step(h,u,r.p(0.5));if(!ok){viol("constant-does-not-converge","x");return;}
      for(int l=0;l<2;l++){LD e=h*P.c[l],x=fabsl(u[l]-e)/(S->eps()*fabsl(e));w=std::max(w,x);VCHECK(x<=12,"step-size-drift","change %d, h=%.21Lg: %.21Lg expected %.21Lg",i,h,u[l],e);if(x>12)return;}}
    count("changes of step size",N);maxv("step after many changes of size: error/eps",(double)w);sig(fmt("mc%d %d",s,kind));});
#endif
#if PART==2
  cases("summary",1,[&](Rng&){if(st().onlycase>=0)return;auto&C=st().counts;long a=C["iterations with extrapolation"],b=C["iterations without"];VCHECK(a<=0.85*b,"extrapolation-useless","%ld iterations with extrapolated starting values, %ld without",a,b);});
#endif
  return finish();}
