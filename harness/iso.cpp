// R07, S06: the result depends on arguments and options only: other calls, other
// objects, failures, nesting and threads do not matter.
#include "radau_run.hpp"
#include <thread>
#include <atomic>
using namespace vf;
#ifndef PART
#define PART 0
#endif
template<int N,int SUB,int SUP,bool H,bool NJ> struct T{
  typedef Fn<N,SUB,SUP,H,NJ> F; typedef Solver<F> S;
  struct In{Prob P;double rt,at,x0,xe,h;std::vector<double> y;bool one,gus;int nmax,nit;double thet;
    In(){}
    In(Rng& r){P=makeProb(r,N,SUB,SUP,!RAUTO&&r.p(0.8),r.p(0.6)?r.u(0,3.5):r.u(0,1),r.p(0.15)?0:r.lg(-1,0.8));rt=r.lg(-7,-2);at=rt*r.lg(-1,1);
      x0=r.p(0.3)?0:r.u(-20,20);double dir=r.p(0.7)?1:-1,len=r.lg(-1.5,0.6);if(dir<0)len=std::min(len,6.0/(1e-3+P.lip));xe=x0+dir*len;h=dir*len*r.lg(-3,0.3);y.resize(N);for(auto&v:y)v=r.u(-2,2);
      one=r.p(0.15);gus=r.p(0.7);nmax=r.p(0.85)?10000:r.i(1,20);nit=r.p(0.7)?7:r.i(3,9);thet=r.pick({0.001,0.001,-1.,0.1});}
    void set(S& s)const{double a=at,q=rt;s.setTestPolicy(true,&a,&q);s.performOnlyOneStep(one);s.setGustafssonTest(gus);s.setNmax(nmax);setNit(s,nit,0);setThet(s,thet,0);}
    Result go1(S& s,long thr=-1,long nan=-1,std::function<void(double,const double*,const double*)> onF={})const{Ctx c;c.P=&P;c.limit=400000;c.throwAt=thr;c.nanAt=nan;c.nanForever=nan>0;c.onF=onF;return go(s,c,h,x0,xe,y,false);}
    Result fresh()const{double a=at,q=rt;S s(true,&a,&q);set(s);return go1(s);}
    std::string str()const{return P.name+fmt(" x0=%.17g xe=%.17g h=%.17g rt=%.3g at=%.3g one=%d gus=%d nmax=%d nit=%d thet=%g y0=",x0,xe,h,rt,at,(int)one,(int)gus,nmax,nit,thet)+vec(y);}
  };
  static bool eq(const Result&a,const Result&b){return a.same(b)&&a.hlast==b.hlast&&(a.nacc==0||a.first==b.first);}
  static void cmp(const Result&a,const Result&b,const char* key,const char* what){VCHECK(eq(a,b),key,"%s: %s, alone on a new object: %s",what,a.str().c_str(),b.str().c_str());count(std::string("compared: ")+what);}
  static void run(long nq,long nt){
    std::string lay=sname()+fmt(" n%d sub%d sup%d hess%d numj%d",N,SUB,SUP,H,NJ);
    cases("sequence"+lay,scaled(nq,nt),[&](Rng& r){int K=r.i(2,6);std::vector<In> in;for(int k=0;k<K;k++)in.emplace_back(r);std::vector<Result> ref;for(auto&q:in)ref.push_back(q.fresh());
      describe(in[0].str());double a=in[0].at,q=in[0].rt;S s(true,&a,&q);std::string hist;
      for(int t=0;t<10;t++){int k=r.i(0,K-1);in[k].set(s);int m=r.i(0,4);
        if(m<=1){Result R=in[k].go1(s);VCHECK(eq(R,ref[k]),"depends-on-history","call %d (%s) after%s: %s, on a new object: %s",t,in[k].str().c_str(),hist.c_str(),R.str().c_str(),ref[k].str().c_str());count("calls compared");hist+=fmt(" %d",k);}
        else if(m==2){in[k].go1(s,r.i(1,(int)std::max(1L,ref[k].nf)));hist+=fmt(" %dthrow",k);count("failed calls between");}
        else if(m==3){s.setNmax(200);in[k].go1(s,-1,r.i(1,(int)std::max(1L,ref[k].nf)));hist+=fmt(" %dnan",k);count("failed calls between");}
        else {double a2=in[k].at,q2=in[k].rt;S o(true,&a2,&q2);in[k].set(o);in[k].go1(o);hist+=fmt(" %dother",k);}}
      sig("seq"+lay+hist);if(vf::st().nsamples<2)sample(lay+" history:"+hist);});
    // one object integrating inside the right-hand side of another
    cases("nested"+lay,scaled(nq,nt),[&](Rng& r){In A(r),B(r);describe(A.str());Result ra=A.fresh(),rb=B.fresh();double a=A.at,q=A.rt,a2=B.at,q2=B.rt;S s(true,&a,&q),o(true,&a2,&q2);A.set(s);B.set(o);
      long k=0,at=r.i(1,(int)std::max(1L,ra.nf)),done=0;int every=r.i(1,7);
      Result R=A.go1(s,-1,-1,[&](double,const double*,const double*){++k;if(done<8&&k>=at&&k%every==0){++done;cmp(B.go1(o),rb,"nested-objects-interfere","inner integration");}});
      cmp(R,ra,"nested-objects-interfere","outer integration");sig("nested"+lay+fmt("%ld %ld",std::min(at,30L),done));});
    cases("threads"+lay,scaled(nq/4+1,nt/10+1),[&](Rng& r){int K=r.i(2,8);std::vector<In> in;for(int k=0;k<K;k++)in.emplace_back(r);std::vector<Result> ref;for(auto&q:in)ref.push_back(q.fresh());describe(in[0].str()+fmt(" threads=%d",K));
      const int REP=4;std::vector<std::vector<Result>> got(K);std::vector<std::thread> th;std::atomic<int> go_{0};
      for(int k=0;k<K;k++)th.emplace_back([&,k]{++go_;while(go_<K)std::this_thread::yield();
        for(int p=0;p<REP;p++){if(p%2){got[k].push_back(in[k].fresh());}else{double a=in[k].at,q=in[k].rt;S s(true,&a,&q);in[k].set(s);for(int u=0;u<2;u++)got[k].push_back(in[k].go1(s));}}});
      for(auto&t:th)t.join();
      for(int k=0;k<K;k++)for(auto&R:got[k])cmp(R,ref[k],"threads-interfere","integration in a thread");
      count("thread runs");sig("thr"+lay+fmt("%d",K));});
  }
};
int main(int a,char**b){init(a,b);
#if PART==0
  T<1,0,0,false,false>::run(120,3000);T<2,1,1,false,true>::run(120,3000);
#elif PART==1
  T<3,2,2,true,false>::run(120,3000);T<2,1,1,true,true>::run(120,3000);
#elif PART==2
  T<4,1,1,false,false>::run(120,3000);
#elif PART==3
  T<4,2,1,false,true>::run(120,3000);
#elif PART==4
  T<3,2,2,false,false>::run(120,3000);
#endif
  return finish();}
