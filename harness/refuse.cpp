// C08: configurations that are not supported are refused, supported ones work; exceptions print all their data.
#include "vf.hpp"
#include <memory>
#include <sstream>
#include <array>
#include <unistd.h>
#include <sys/wait.h>
#include <cstdlib>
#include "Radau5cc.hpp"
#include "Rodascc.hpp"
using namespace vf;
//! y_i'=-(1+i) y_i + y_{i-1}-coupling inside the band; exact by construction: lower triangular part only if the band has one
template<int N,int SUB,int SUP,bool H,bool NJ,int METH,bool AUTO> struct Q{static const int n=N,nsub=SUB,nsup=SUP,method=METH;static const bool Hessenberg=H,ComputeJacobianNumerically=NJ,autonomous=AUTO,use_DF_t=true;
  void operator()(double,double*y,double*o){for(int i=0;i<N;i++){o[i]=-y[i];if(SUB>0&&i>0)o[i]+=y[i-1];else if(SUB==0&&SUP>0&&i+1<N)o[i]+=y[i+1];}}
  template<class A,class B,class M> void Jacobian(double,A,B&,M&J){for(int j=1;j<=N;j++)for(int i=1;i<=N;i++){if(i-j>SUB||j-i>SUP)continue;J(i,j)=i==j?-1:(SUB>0&&i==j+1)||(SUB==0&&SUP>0&&j==i+1)?1:0;}}
  template<class A,class B> void DF_t(double,const A&,B&o){for(int i=1;i<=N;i++)o(i)=0;}};
//! the solution from y=1: component k along the chain is exp(-t) sum t^j/j!
template<int N,int SUB,int SUP> double exact(int i,double t){int k=SUB>0?i:SUP>0?N-1-i:0;double s=0,p=1;for(int j=0;j<=k;j++){s+=p;p*=t/(j+1);}return exp(-t)*s;}
template<class S> int make(){try{double at=1e-6,rt=1e-6;S s(true,&at,&rt);return 0;}catch(odes::OdesException&){return 1;}catch(...){return 2;}}
struct Quiet{std::ostringstream o;std::streambuf*k;Quiet():k(std::cout.rdbuf(o.rdbuf())){}~Quiet(){std::cout.rdbuf(k);}};
template<class S> void refused(const char*what){describe(what);std::string msg;int r;{Quiet q;r=make<S>();msg=q.o.str();}count("configurations refused");sig(std::string("ref ")+what);
  VCHECK(r==1,"not-refused","%s: %s",what,r==0?"constructed":"another exception");if(r==1)VCHECK(msg.find_first_not_of(" \n")!=std::string::npos,"no-message","%s: nothing printed",what);}
template<int N,int SUB,int SUP,class S> void works(const char*what,Rng&r){describe(fmt("%s n=%d sub=%d sup=%d",what,N,SUB,SUP));double te=r.u(0.3,2);double y[N];for(auto&v:y)v=1;double x=0;int o=0;std::string msg;
  {Quiet q;try{double at=1e-7,rt=1e-7;S s(true,&at,&rt);s(0.01,x,te,y);}catch(odes::OdesException&){o=1;}msg=q.o.str();}
  count("configurations accepted");sig(fmt("ok %s %d %d %d",what,N,SUB,SUP));VCHECK(o==0,"refused","%s",msg.c_str());if(o)return;VCHECK(std::fabs(x-te)<=1e-14*te,"not-integrated","ends at %.17g",x);
  for(int i=0;i<N;i++){double e=std::fabs(y[i]-exact<N,SUB,SUP>(i,te));maxv("max error",e);VCHECK(e<1e-3,"not-integrated","component %d: %.17g exact %.17g",i,y[i],exact<N,SUB,SUP>(i,te));}}
template<int N,int SUB,int SUP> void layout(Rng&r){
#if PART==1
  works<N,SUB,SUP,odes::Radau5cc<Q<N,SUB,SUP,false,false,1,true>>>("Radau5",r);works<N,SUB,SUP,odes::Radau5cc<Q<N,SUB,SUP,false,true,1,true>>>("Radau5 numerical",r);
#elif PART==2
  works<N,SUB,SUP,odes::Rodascc<Q<N,SUB,SUP,false,false,(N+SUB+SUP)%3+1,true>>>("Rodas",r);works<N,SUB,SUP,odes::Rodascc<Q<N,SUB,SUP,false,true,(N+SUB)%3+1,false>>>("Rodas numerical",r);
#endif
}
template<int N> void full(Rng&r){
#if PART==1
  works<N,N-1,N-1,odes::Radau5cc<Q<N,N-1,N-1,true,false,1,true>>>("Radau5 Hessenberg",r);
#elif PART==2
  works<N,N-1,N-1,odes::Rodascc<Q<N,N-1,N-1,true,true,2,false>>>("Rodas Hessenberg",r);
#endif
}
template<int N,int SUB,int SUP> void sups(Rng&r){layout<N,SUB,SUP>(r);if constexpr(SUP+1<N)sups<N,SUB,SUP+1>(r);}
template<int N,int SUB> void subs(Rng&r){sups<N,SUB,0>(r);if constexpr(SUB+1<N)subs<N,SUB+1>(r);}
#if PART==0
template<int M> void meth(){if(M>=1&&M<=3)return;refused<odes::Rodascc<Q<2,1,1,false,false,M,true>>>(fmt("Rodas method %d",M).c_str());refused<odes::Rodascc<Q<3,0,1,false,true,M,false>>>(fmt("Rodas method %d band",M).c_str());}
template<int N,int SUB,int SUP> void bandHess(){refused<odes::Rodascc<Q<N,SUB,SUP,true,false,1,true>>>(fmt("Rodas Hessenberg with band n=%d sub=%d sup=%d",N,SUB,SUP).c_str());}
template<int N,int SUB,int SUP> void wide(){refused<odes::Rodascc<Q<N,SUB,SUP,false,false,1,true>>>(fmt("Rodas n=%d sub=%d sup=%d",N,SUB,SUP).c_str());refused<odes::Radau5cc<Q<N,SUB,SUP,false,false,1,true>>>(fmt("Radau5 n=%d sub=%d sup=%d",N,SUB,SUP).c_str());}
//! Radau5 refuses this one when it is compiled
static void compiled(){const char*R=getenv("VERIF_REPO");std::string repo=R?R:"/repo";char d[]="/tmp/refuseXXXXXX";if(!mkdtemp(d))return;std::string dir=d;
  auto build=[&](int n,int sub,int sup,bool hess){FILE*f=fopen((dir+"/t.cpp").c_str(),"w");fprintf(f,"#include \"Radau5cc.hpp\"\nstruct P{static const int n=%d,nsub=%d,nsup=%d;static const bool Hessenberg=%s,ComputeJacobianNumerically=true;void operator()(double,double*y,double*o){for(int i=0;i<n;i++)o[i]=-y[i];}template<class A,class B,class M>void Jacobian(double,A,B&,M&){}};\n"
      "int main(){double t=1e-6;try{odes::Radau5cc<P> S(true,&t,&t);double x=0,y[n_]={};S(.1,x,1.,y);}catch(odes::OdesException&){return 3;}return 0;}\n",n,sub,sup,hess?"true":"false");fclose(f);
    std::string s;{FILE*g=fopen((dir+"/t.cpp").c_str(),"r");char b[4000];size_t k=fread(b,1,sizeof b,g);fclose(g);s.assign(b,k);size_t p=s.find("n_");s.replace(p,2,std::to_string(n));g=fopen((dir+"/t.cpp").c_str(),"w");fwrite(s.data(),1,s.size(),g);fclose(g);}
    std::string c="cd "+dir+" && g++ -std=gnu++17 -DGCC -w -I"+repo+"/common/include -I"+repo+"/Radau5-NG/include t.cpp -o t -llapack -lblas >log 2>&1";int b=system(c.c_str());int r=-1;if(b==0){int q=system((dir+"/t >log 2>&1").c_str());r=WEXITSTATUS(q);}remove((dir+"/t").c_str());remove((dir+"/t.cpp").c_str());remove((dir+"/log").c_str());return r;};
  int ok=build(3,2,2,true);VCHECK(ok==0,"refused","Radau5 with Hessenberg and full Jacobian: %d",ok);
  if(ok==0)for(auto&c:std::vector<std::array<int,3>>{{3,1,1},{4,3,1},{4,0,3},{5,2,2},{3,0,0}}){int b=build(c[0],c[1],c[2],true);VCHECK(b==-1||b==3,"not-refused","Radau5 Hessenberg with band n=%d sub=%d sup=%d: compiles and runs",c[0],c[1],c[2]);count("refused when compiled",b==-1);count("configurations refused");}
  rmdir(d);}
template<class... A> void message(Rng&,A... a){std::vector<std::string> w;auto add=[&](auto&x){std::ostringstream o;o<<x;w.push_back(o.str());};(add(a),...);std::string m;{Quiet q;try{throw odes::OdesException(a...);}catch(odes::OdesException&){}m=q.o.str();}
  size_t p=0;for(size_t i=0;i<w.size();i++){size_t k=m.find(w[i],p);VCHECK(k!=std::string::npos,"message-incomplete","argument %zu of %zu (%s) is not in the message: %s",i+1,w.size(),w[i].c_str(),m.c_str());if(k==std::string::npos)return;p=k+w[i].size();}count("messages");sig(fmt("msg %zu",w.size()));}
#endif
int main(int ac,char**av){init(ac,av);
#if PART==0
  cases("refused",1,[&](Rng&){meth<-1>();meth<0>();meth<4>();meth<5>();meth<6>();meth<100>();bandHess<3,1,1>();bandHess<4,3,1>();bandHess<4,0,3>();bandHess<5,2,2>();bandHess<3,0,0>();wide<1,1,1>();wide<2,2,2>();wide<3,3,5>();wide<4,4,4>();});
  cases("refused when compiled",1,[&](Rng&){describe("Radau5 Hessenberg with band");compiled();});
  cases("messages",scaled(200,2000),[&](Rng&r){describe("exception messages");auto s=[&]{std::string t;int k=r.i(1,12);for(int i=0;i<k;i++)t+=(char)('a'+r.i(0,25));return t;};auto d=[&]{return r.u(-1,1)*r.lg(-8,8);};auto i=[&]{return r.i(-100000,100000);};
    message(r,s());message(r,s(),d());message(r,s(),i(),d());message(r,s(),d(),s(),d());message(r,s(),d(),s(),i(),s());message(r,s(),i(),i(),s(),d(),d());message(r,s(),i(),s(),i(),d(),s(),d());message(r,s(),s(),i(),s(),i(),d(),s(),d());message(r,s(),d(),s(),s(),i(),s(),i(),d(),s());message(r,s(),i(),d(),s(),s(),i(),s(),i(),d(),s());});
#else
  cases("accepted",scaled(4,100),[&](Rng&r){subs<1,0>(r);subs<2,0>(r);subs<3,0>(r);subs<4,0>(r);full<1>(r);full<2>(r);full<3>(r);full<4>(r);full<6>(r);layout<6,5,1>(r);layout<6,0,5>(r);layout<6,4,5>(r);});
#endif
  return finish();}
