// Common support for the harnesses: seeded randomness, verdict reporting,
// case selection, small long double linear algebra for the reference models.
#ifndef VF_HPP
#define VF_HPP
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <climits>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
typedef long double LD;
namespace vf {
// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(seed){}
  uint64_t next(){ uint64_t z=(s+=0x9E3779B97F4A7C15ull);
    z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31);}
  double u(){ return (next()>>11)*(1.0/9007199254740992.0);}          // [0,1)
  double u(double a,double b){return a+(b-a)*u();}
  int i(int a,int b){ return a+(int)(next()%(uint64_t)(b-a+1));}       // a..b
  bool p(double q){return u()<q;}
  double lg(double a,double b){return std::pow(10.0,u(a,b));}          // 10^U
  double sg(){return (next()>>17)&1?1.:-1.;}
  template<class T> T pick(std::initializer_list<T> l){return *(l.begin()+i(0,(int)l.size()-1));}
};
inline uint64_t mix(uint64_t a,uint64_t b){Rng r(a*0x9E3779B97F4A7C15ull^(b+0x632BE59BD9B4E019ull));r.next();return r.next();}
// ---------------------------------------------------------------- state
struct State {
  FILE* out=0; int casefd=-1;
  uint64_t seed=1; bool thorough=false; long onlycase=-1; std::string onlygroup;
  std::string group; long k=-1; std::string desc;
  std::map<std::string,int> nviol; std::map<std::string,long> counts;
  std::map<std::string,double> maxi;
  std::set<uint64_t> sigs; int nsamples=0; long evals=0;
  double scale=1;
  std::set<std::string> keys; // when given, only violations of these kinds count
};
inline State& st(){static State s;return s;}
inline std::string esc(const std::string& s){std::string r;for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}
  else if(c=='\n')r+="\\n";else if(c<32||c>126)r+='?';else r+=c;}return r;}
inline std::string fmt(const char* f,...){char b[4000];va_list a;va_start(a,f);vsnprintf(b,sizeof b,f,a);va_end(a);return b;}
inline void count(const std::string& n,long k=1){st().counts[n]+=k;}
inline void maxv(const std::string& n,double v){auto it=st().maxi.find(n);if(it==st().maxi.end()||!(v<=it->second))st().maxi[n]=v;}
inline void sig(const std::string& s){uint64_t h=1469598103934665603ull;for(unsigned char c:s){h^=c;h*=1099511628211ull;}st().sigs.insert(h);}
inline void viol(const std::string& key,const std::string& msg){
  State& S=st(); if(!S.keys.empty()&&!S.keys.count(key))return; int& c=S.nviol[key]; ++c;
  if(c<=3){fprintf(S.out,"{\"t\":\"viol\",\"key\":\"%s\",\"group\":\"%s\",\"case\":%ld,\"desc\":\"%s\",\"msg\":\"%s\"}\n",
    esc(key).c_str(),esc(S.group).c_str(),S.k,esc(S.desc).c_str(),esc(msg).c_str());fflush(S.out);}
}
inline void sample(const std::string& s){State& S=st();if(S.nsamples++<6){fprintf(S.out,"{\"t\":\"sample\",\"s\":\"%s\"}\n",esc(s).c_str());fflush(S.out);}}
//! check: condition must hold (NaN in comparisons makes it fail, as it should)
inline bool check(bool ok,const std::string& key,const std::string& msg){ if(!ok) viol(key,msg); return ok;}
#define VCHECK(ok,key,...) do{ if(!(ok)) ::vf::viol(key,::vf::fmt(__VA_ARGS__)); }while(0)
inline void note_case(){State& S=st(); if(S.casefd>=0){std::string l=fmt("%s #%ld %s",S.group.c_str(),S.k,S.desc.c_str());
   l.resize(400,' '); ssize_t w=pwrite(S.casefd,l.c_str(),400,0);(void)w;}}
inline void describe(const std::string& d){st().desc=d;note_case();}
inline long scaled(long quick,long thorough){ long n=st().thorough?thorough:quick; return std::max(1L,(long)(n*st().scale)); }
//! run f(rng) for ncase cases of a named group
template<class Fn> void cases(const std::string& group,long ncase,Fn f){
  State& S=st(); if(!S.onlygroup.empty()&&S.onlygroup!=group) return;
  uint64_t g=0;for(char c:group)g=g*131+(unsigned char)c;
  for(long k=0;k<ncase;k++){ if(S.onlycase>=0&&k!=S.onlycase) continue;
    S.group=group;S.k=k;S.desc="";note_case(); Rng r(mix(mix(S.seed,g),(uint64_t)k)); ++S.evals;
    f(r); }
}
struct NullBuf: std::streambuf{int overflow(int c)override{return c;} std::streamsize xsputn(const char*,std::streamsize n)override{return n;}};
inline void init(int argc,char** argv){
  State& S=st(); S.out=stdout; std::string of;
  for(int i=1;i<argc;i++){std::string a=argv[i]; auto val=[&]{return std::string(i+1<argc?argv[++i]:"");};
    if(a=="--seed")S.seed=strtoull(val().c_str(),0,10); else if(a=="--tier")S.thorough=(val()=="thorough");
    else if(a=="--out")of=val(); else if(a=="--case")S.onlycase=atol(val().c_str()); else if(a=="--group")S.onlygroup=val();
    else if(a=="--keys"){std::string v=val();size_t p=0;while(p<=v.size()){size_t q=v.find(',',p);if(q==std::string::npos)q=v.size();if(q>p)S.keys.insert(v.substr(p,q-p));p=q+1;}}
    else if(a=="--scale")S.scale=atof(val().c_str());
    else if(a=="--casefile"){S.casefd=open(val().c_str(),O_CREAT|O_RDWR|O_TRUNC,0644);} }
  if(!of.empty()){S.out=fopen(of.c_str(),"w");if(!S.out){perror("out");exit(9);}}
  NullBuf* nb=new NullBuf; std::cout.rdbuf(nb); std::cerr.rdbuf(nb);
}
inline int finish(){
  State& S=st(); fprintf(S.out,"{\"t\":\"end\",\"evals\":%ld,\"distinct\":%zu,\"counts\":{",S.evals,S.sigs.size());
  bool f=true;for(auto&c:S.counts){fprintf(S.out,"%s\"%s\":%ld",f?"":",",esc(c.first).c_str(),c.second);f=false;}
  fprintf(S.out,"},\"max\":{");f=true;for(auto&c:S.maxi){fprintf(S.out,"%s\"%s\":\"%.3g\"",f?"":",",esc(c.first).c_str(),c.second);f=false;}
  fprintf(S.out,"}}\n");fflush(S.out);if(S.out!=stdout)fclose(S.out);return 0;
}
// ---------------------------------------------------------------- exceptions used by probes
struct UserEx{int k;};
struct Runaway{};
// ---------------------------------------------------------------- dense long double algebra
template<class R> struct Mat{int n=0,m=0;std::vector<R> a;Mat(){} Mat(int n_,int m_):n(n_),m(m_),a((size_t)n_*m_,R(0)){}
  R& operator()(int i,int j){return a[(size_t)i*m+j];} const R& operator()(int i,int j)const{return a[(size_t)i*m+j];}};
//! solve A x=b by Gaussian elimination with partial pivoting; false if singular.
template<class R> bool gsolve(Mat<R> A,std::vector<R>& b){
  int n=A.n;
  for(int k=0;k<n;k++){int p=k;LD best=std::abs(A(k,k));for(int i=k+1;i<n;i++)if((LD)std::abs(A(i,k))>best){best=std::abs(A(i,k));p=i;}
    if(!(best>0))return false;
    if(p!=k){for(int j=0;j<n;j++)std::swap(A(k,j),A(p,j));std::swap(b[k],b[p]);}
    for(int i=k+1;i<n;i++){R l=A(i,k)/A(k,k);if(l==R(0))continue;for(int j=k;j<n;j++)A(i,j)-=l*A(k,j);b[i]-=l*b[k];}}
  for(int i=n-1;i>=0;i--){R s=b[i];for(int j=i+1;j<n;j++)s-=A(i,j)*b[j];b[i]=s/A(i,i);}
  return true;
}
inline bool finite(const double* y,int n){for(int i=0;i<n;i++)if(!std::isfinite(y[i]))return false;return true;}
template<class T> std::string vec(const T* y,int n){std::string s="[";for(int i=0;i<n&&i<8;i++)s+=fmt("%s%.17g",i?",":"",(double)y[i]);if(n>8)s+=",..";return s+"]";}
template<class T> std::string vec(const std::vector<T>& y){return vec(y.data(),(int)y.size());}
}
#endif
