// C03, C04: matrix containers and vectors against plain models. PART 0,1 matrices; 2,3 vectors.
#include "vf.hpp"
#include <memory>
#include "protos_lapack.hpp"
#include "Matrices.hpp"
#include "MatrixType.hpp"
#undef MAX
#undef MIN
#undef ABS
using namespace vf;
template<class Fct> std::string printed(Fct f){std::ostringstream o;auto*b=std::cout.rdbuf(o.rdbuf());try{f();}catch(...){std::cout.rdbuf(b);throw;}std::cout.rdbuf(b);return o.str();}
inline std::vector<double> numbers(const std::string&s,bool&bad){std::vector<double> v;std::istringstream i(s);std::string w;while(i>>w){char*e;double d=strtod(w.c_str(),&e);if(*e)bad=true;else v.push_back(d);}return v;}
inline bool closeTo(double printed,double v){return fabs(printed-v)<=6e-6*fabs(v)||(std::isnan(v)&&std::isnan(printed))||printed==v;}
inline double value(Rng&r){int k=r.i(0,19);return k==0?0.:k==1?-0.:k==2?1e300:k==3?-1e-300:k==4?5e-324:r.u(-1,1)*r.lg(-5,5);}
inline bool biteq(double a,double b){return memcmp(&a,&b,8)==0;}
//! a matrix type, its storage size and the place of element (i,j)
template<class M,int N,int KL,int KU,bool CX,bool BAND> struct Lay{
  static long size(){return (CX?2l:1l)*(BAND?(2*KL+KU+1):N)*N;}
  static long pos(int i,int j){return (CX?2l:1l)*(BAND?(long)(2*KL+KU+1)*(j-1)+KL+KU+i-j:(long)(j-1)*N+i-1);}
  static bool in(int i,int j){return i>=1&&j>=1&&i<=N&&j<=N&&(!BAND||(i-j<=KL&&j-i<=KU));}
  static std::string name(){return fmt("%s%s n=%d kl=%d ku=%d",BAND?"band":"full",CX?" complex":"",N,KL,KU);}
};
template<class M> double getRe(M&m,int i,int j,std::false_type){const M&c=m;return c(i,j);}
template<class M> double getRe(M&m,int i,int j,std::true_type){return m.Re(i,j);}
template<class M> void setRe(M&m,int i,int j,double v,std::false_type){m(i,j)=v;}
template<class M> void setRe(M&m,int i,int j,double v,std::true_type){m.Re(i,j)=v;}
template<class M> double getIm(M&,int,int,std::false_type){return 0;}
template<class M> double getIm(M&m,int i,int j,std::true_type){return m.Im(i,j);}
template<class M> void setIm(M&,int,int,double,std::false_type){}
template<class M> void setIm(M&m,int i,int j,double v,std::true_type){m.Im(i,j)=v;}
template<class M> void setBoth(M&,int,int,double,double,std::false_type){}
template<class M> void setBoth(M&m,int i,int j,double a,double b,std::true_type){if(b==0&&a>0)m.set(i,j,a);else m.set(i,j,a,b);}
template<class M> void eqMinus(M&a,M&b,std::false_type){a.equal_minus(b);} template<class M> void eqMinus(M&,M&,std::true_type){}
template<class M> void diag(M&a,double v,std::false_type){a.addDiag(v);} template<class M> void diag(M&,double,std::true_type){}
template<class M,int N,int KL,int KU,bool CX,bool BAND> void matrix(long nq,long nt){
  typedef Lay<M,N,KL,KU,CX,BAND> L;typedef std::integral_constant<bool,CX> C;
  auto whole=[](M&m,std::vector<double>&v){double*p=&m;v.assign(p,p+L::size());};
  auto init=[](M&m,Rng&r,std::vector<double>&v){double*p=&m;v.resize(L::size());for(long k=0;k<L::size();k++)p[k]=v[k]=value(r);};
  auto same=[&](M&m,const std::vector<double>&v,long except,long except2=-1){double*p=&m;for(long k=0;k<L::size();k++)if(k!=except&&k!=except2&&!biteq(p[k],v[k]))return false;return true;};
  cases("matrix "+L::name(),scaled(nq,nt),[&](Rng&r){
    describe(L::name());std::unique_ptr<M> pm(new M);M&m=*pm;std::vector<double> v;init(m,r,v);long ne=0;
    for(int i=1;i<=N;i++)for(int j=1;j<=N;j++)if(L::in(i,j)&&(N<20||r.p(0.2))){++ne;long k=L::pos(i,j);
      VCHECK(biteq(getRe(m,i,j,C()),v[k])&&(!CX||biteq(getIm(m,i,j,C()),v[k+1])),"element-read","(%d,%d): %g, stored %g",i,j,getRe(m,i,j,C()),v[k]);
      double a=value(r),b=CX?value(r):0;
      if(CX&&r.p(0.5)){setBoth(m,i,j,a,b,C());double e=b==0&&a>0?0:b;VCHECK(biteq((&m)[k],a)&&biteq((&m)[k+1],e)&&same(m,v,k,k+1),"element-write","set(%d,%d)",i,j);v[k]=a;v[k+1]=e;}
      else{setRe(m,i,j,a,C());VCHECK(biteq((&m)[k],a)&&same(m,v,k),"element-write","(%d,%d), other elements changed or not written",i,j);v[k]=a;
        if(CX){setIm(m,i,j,b,C());VCHECK(biteq((&m)[k+1],b)&&same(m,v,k+1),"element-write","imaginary part of (%d,%d)",i,j);v[k+1]=b;}}
      VCHECK(biteq(getRe(m,i,j,C()),v[k])&&(!CX||biteq(getIm(m,i,j,C()),v[k+1])),"element-read-back","(%d,%d)",i,j);}
    count("elements written and read",ne);
    {M c(m);VCHECK(same(c,v,-1)&&(&c)!=(&m),"copy-differs","constructor");std::vector<double> w;init(c,r,w);VCHECK(same(m,v,-1),"copy-shares","writing to a copy changes the original");
     M d;init(d,r,w);d=m;VCHECK(same(d,v,-1)&&(&d)!=(&m),"copy-differs","assignment");init(m,r,w);VCHECK(same(d,v,-1),"copy-shares","writing to the original changes an assigned copy");v=w;M&q=m;q=m;VCHECK(same(m,v,-1),"self-assignment","changes the matrix");
     std::unique_ptr<M> e(new M(m));pm->operator=(*e);M f(*e);e.reset();VCHECK(same(f,v,-1)&&same(m,v,-1),"copy-shares","destroying a copy changes another");count("copies",4);}
    if(!CX){M s;std::vector<double> w;init(s,r,w);eqMinus(s,m,C());bool ok=true;for(int i=1;i<=N;i++)for(int j=1;j<=N;j++)if(L::in(i,j)&&getRe(s,i,j,C())!=-v[L::pos(i,j)])ok=false;VCHECK(ok&&same(m,v,-1),"negation","not the opposite, or the operand changed");
      double a=value(r);diag(m,a,C());ok=true;for(int i=1;i<=N;i++)for(int j=1;j<=N;j++)if(L::in(i,j)){double x=v[L::pos(i,j)];if(i==j?!(getRe(m,i,j,C())==x+a):!biteq(getRe(m,i,j,C()),x))ok=false;}VCHECK(ok,"diagonal-shift","addDiag(%g)",a);
      whole(m,w);long diff=0;for(long k=0;k<L::size();k++)if(!biteq(w[k],v[k]))++diff;VCHECK(diff<=N,"diagonal-shift","%ld stored values changed",diff);v=w;count("negations and shifts",2);}
    {for(auto&x:v)x=r.i(-99999,99999)/ (double)(1<<r.i(0,6));for(long k=0;k<L::size();k++)(&m)[k]=v[k];std::string s=printed([&]{m.print("head");});VCHECK(s.substr(0,4)=="head","print","the title: %s",s.substr(0,20).c_str());s=s.substr(4);size_t dash=s.find("---\n");VCHECK((dash!=std::string::npos)==CX,"print","separator");std::string p[2]={s.substr(0,dash),dash==std::string::npos?"":s.substr(dash+4)};
      for(int q=0;q<=(CX?1:0);q++){std::istringstream is(p[q]);std::string line;bool bad=false;std::vector<std::string> lines;while(std::getline(is,line))if(!line.empty())lines.push_back(line);VCHECK((int)lines.size()==N,"print","%zu lines",lines.size());
        for(int i=1;i<=N&&(int)lines.size()==N;i++){auto x=numbers(lines[i-1],bad);std::vector<double> want;for(int j=1;j<=N;j++)if(L::in(i,j))want.push_back(v[L::pos(i,j)+q]);bool eq=x.size()==want.size()&&!bad;for(size_t k=0;eq&&k<x.size();k++)eq=closeTo(x[k],want[k]);VCHECK(eq,"print","line %d: %s",i,lines[i-1].c_str());}}
      count("prints");}
#ifdef DEBUG
    if(!(CX&&!BAND))for(int q=0;q<20;q++){int i=r.i(-1,N+2),j=r.i(-1,N+2);if(L::in(i,j))continue;for(int w=0;w<(CX?3:2);w++){bool t=false;try{switch(w){case 0:setRe(m,i,j,1,C());break;case 1:if(CX)setBoth(m,i,j,1,-1,C());else{volatile double d=getRe(m,i,j,C());(void)d;}break;case 2:setIm(m,i,j,1,C());}}catch(odes::OdesException&){t=true;}VCHECK(t,"bad-index-accepted","(%d,%d), accessor %d",i,j,w);count("bad indices refused");}}
#endif
    sig("m "+L::name());});
}
template<int N> void fullM(){matrix<odes::fortranArray<N>,N,N-1,N-1,false,false>(3,60);matrix<odes::fortranComplexArray<N>,N,N-1,N-1,true,false>(3,60);}
template<int N,int KL,int KU> void bandM(){matrix<odes::fortranRectangularArray<N,KL,KU>,N,KL,KU,false,true>(3,60);matrix<odes::fortranRectangularComplexArray<N,KL,KU>,N,KL,KU,true,true>(3,60);}
// ---------------------------------------------------------------- vectors
inline bool okv(double got,LD want,LD mag){if(std::isnan((double)want)||std::isinf((double)want)||std::isnan(got)||std::isinf(got)||mag>1e307L)return !std::isfinite((double)want)||mag>1e307L? (!std::isfinite(got)||mag>1e307L) : false;return fabsl(got-want)<=4*2.3e-16L*mag+1e-320L;}
template<int N> void vectors(long nq,long nt){
  typedef odes::fortranVectorF<N> V;typedef odes::fortranVector W;
  cases(fmt("vectors n=%d",N),scaled(nq,nt),[&](Rng&r){
    std::unique_ptr<V> store[8];V* v[8];std::vector<double> a[8];bool hostile=r.p(0.15),wild=r.p(0.3);
    auto val=[&]{if(hostile&&r.p(0.1))return r.pick<double>({(double)NAN,(double)INFINITY,-(double)INFINITY,1e308,-1e308});return wild?value(r):r.u(-1,1);};
    for(int k=0;k<8;k++){store[k].reset(new V);v[k]=store[k].get();a[k].resize(N);for(int i=0;i<N;i++)(*v[k])(i+1)=a[k][i]=val();}
    std::unique_ptr<double[]> ext(new double[N]);std::vector<double> em(N);for(int i=0;i<N;i++)ext[i]=em[i]=val();W wrap(ext.get(),N);
    // model: results in long double; the vectors must hold the rounded result, everything else bit for bit what it was
    std::string hist;int ops=r.i(20,60);
    auto unchanged=[&](int except,bool extToo=true){for(int k=0;k<8;k++)if(k!=except&&memcmp(&*v[k],a[k].data(),8*N))return k;if(extToo&&memcmp(ext.get(),em.data(),8*N))return 9;return -1;};
    for(int o=0;o<ops;o++){int op=r.i(0,21),d=r.i(0,7),x[5];for(int&q:x)q=r.p(0.15)?d:r.i(0,7);double c[5];for(double&q:c)q=r.p(0.1)?0:val();
      std::vector<LD> w(N),m(N);auto A=[&](int k,int i){return (LD)a[x[k]][i];};std::string on;bool exact=false;
      auto lin=[&](int k0,int k,bool addX){for(int i=0;i<N;i++){LD s=0,g=0;if(addX){s=a[k0][i];g=fabsl(s);}for(int q=0;q<k;q++){LD t=(LD)c[q]*A(q,i);s+=t;g+=fabsl(t);}w[i]=s;m[i]=g;}};
      int k0=r.p(0.2)?d:r.i(0,7);bool extT=false;
      switch(op){
        case 0:{double z=val();on="=double";for(int i=0;i<N;i++){w[i]=z;m[i]=0;}exact=true;*v[d]=z;break;}
        case 1:on="=array";for(int i=0;i<N;i++)w[i]=em[i];exact=true;*v[d]=ext.get();break;
        case 2:on="=vector";for(int i=0;i<N;i++)w[i]=A(0,i);exact=true;*v[d]=*v[x[0]];break;
        case 3:on="setsum2";for(int i=0;i<N;i++){w[i]=A(0,i)+em[i];m[i]=fabsl(A(0,i))+fabsl((LD)em[i]);}v[d]->setsum2(*v[x[0]],wrap);break;
        case 4:on="+=vector";for(int i=0;i<N;i++){w[i]=(LD)a[d][i]+A(0,i);m[i]=fabsl((LD)a[d][i])+fabsl(A(0,i));}*v[d]+=*v[x[0]];break;
        case 5:on="sum";for(int i=0;i<N;i++){w[i]=A(0,i)+A(1,i);m[i]=fabsl(A(0,i))+fabsl(A(1,i));}v[d]->sum(*v[x[0]],*v[x[1]]);break;
        case 6:on="sum with an array";for(int i=0;i<N;i++){w[i]=A(0,i)+em[i];m[i]=fabsl(A(0,i))+fabsl((LD)em[i]);}v[d]->sum(*v[x[0]],wrap);break;
        case 7:on="a_Y";for(int i=0;i<N;i++){w[i]=(LD)c[0]*A(0,i);m[i]=fabsl(w[i]);}v[d]->a_Y(c[0],*v[x[0]]);break;
        case 8:on="x_lc2";lin(k0,2,true);v[d]->x_lc2(*v[k0],c[0],*v[x[0]],c[1],*v[x[1]]);break;
        case 9:on="lc2";lin(0,2,false);v[d]->lc2(c[0],*v[x[0]],c[1],*v[x[1]]);break;
        case 10:on="lc3";lin(0,3,false);v[d]->lc3(c[0],*v[x[0]],c[1],*v[x[1]],c[2],*v[x[2]]);break;
        case 11:on="lc4";lin(0,4,false);v[d]->lc4(c[0],*v[x[0]],c[1],*v[x[1]],c[2],*v[x[2]],c[3],*v[x[3]]);break;
        case 12:on="lc5";lin(0,5,false);v[d]->lc5(c[0],*v[x[0]],c[1],*v[x[1]],c[2],*v[x[2]],c[3],*v[x[3]],c[4],*v[x[4]]);break;
        case 13:on="x_lc3";lin(k0,3,true);v[d]->x_lc3(*v[k0],c[0],*v[x[0]],c[1],*v[x[1]],c[2],*v[x[2]]);break;
        case 14:on="x_lc4";lin(k0,4,true);v[d]->x_lc4(*v[k0],c[0],*v[x[0]],c[1],*v[x[1]],c[2],*v[x[2]],c[3],*v[x[3]]);break;
        case 15:on="a_x_plus_y";for(int i=0;i<N;i++){LD t=(LD)c[0]*A(0,i);w[i]=t+A(1,i);m[i]=fabsl(t)+fabsl(A(1,i));}v[d]->a_x_plus_y(c[0],*v[x[0]],*v[x[1]]);break;
        case 16:{on="switchadr";int e=x[0];if(e==d)break;double*p=&*v[d],*q=&*v[e];v[d]->switchadr(*v[e]);VCHECK(&*v[d]==q&&&*v[e]==p,"vector-operation","switchadr: addresses");std::swap(a[d],a[e]);break;}
        case 17:{on="put";std::unique_ptr<double[]> out(new double[N]);for(int i=0;i<N;i++)out[i]=-7e77;v[d]->put(out.get());VCHECK(memcmp(out.get(),a[d].data(),8*N)==0,"vector-operation","put");break;}
        case 18:{on="wrapper = vector";W&b=wrap;b=W(*v[x[0]]);em=a[x[0]];VCHECK(memcmp(ext.get(),em.data(),8*N)==0,"vector-operation","assignment to a wrapper");break;}
        case 19:{on="wrapper += vector";std::vector<double> z(em);W&b=wrap;b+=*v[x[0]];for(int i=0;i<N;i++){LD s=(LD)z[i]+A(0,i);VCHECK(okv(ext[i],s,fabsl((LD)z[i])+fabsl(A(0,i))),"vector-operation","+= to a wrapper at %d: %g",i+1,ext[i]);em[i]=ext[i];}break;}
        case 20:{on="copies";V cp(*v[d]);W cw(wrap),own(N);for(int i=1;i<=N;i++){own(i)=i;}W own2(own);for(int i=1;i<=N;i++)own(i)=-i;bool ok=memcmp(&cp,a[d].data(),8*N)==0&&&cp!=&*v[d];for(int i=1;i<=N;i++){ok=ok&&own2(i)==i;cp(i)=1;}
          VCHECK(ok&&unchanged(-1)<0,"vector-operation","a copy does not own its data");VCHECK(&cw==ext.get()&&cw.get_size()==N&&own2.get_size()==N,"vector-operation","the copy of a wrapper");W e;VCHECK(e.get_size()==0,"vector-operation","empty vector");break;}
        case 21:{on="print";std::vector<double> z(N);bool f=true;for(int i=0;i<N;i++)f=f&&std::isfinite(a[d][i]);if(!f)break;bool base=r.p(0.5);std::string s=printed([&]{if(base)((W&)*v[d]).print("head");else v[d]->print("head");});bool bad=false;VCHECK(s.substr(0,4)=="head","print","title");auto g=numbers(s.substr(4),bad);bool eq=!bad&&(int)g.size()==N;for(int i=0;eq&&i<N;i++)eq=closeTo(g[i],a[d][i]);VCHECK(eq,"print","vector: %s",s.c_str());break;}
      }
      describe(fmt("n=%d, operation %d %s -> %d (%d %d %d %d %d)",N,o,on.c_str(),d,x[0],x[1],x[2],x[3],x[4]));
      if(op<=15){const V&cv=*v[d];for(int i=0;i<N;i++){double g=cv(i+1);bool ok=exact?(g==(double)w[i]||(std::isnan(g)&&std::isnan((double)w[i]))):okv(g,w[i],m[i]);
          if(!ok){VCHECK(false,"vector-operation","%s at %d: %.17g, should be %.17Lg",on.c_str(),i+1,g,w[i]);break;}a[d][i]=g;}}
      int ch=unchanged(-1);VCHECK(ch<0,"operand-changed","%s: %s",on.c_str(),ch==9?"array":"vector");if(ch>=0)return;count(on);
#ifdef DEBUG
      {bool t=false;int i=r.p(0.5)?r.i(-3,0):N+r.i(1,4);try{(*v[d])(i)=1;}catch(odes::OdesException&){t=true;}VCHECK(t,"bad-index-accepted","(%d) of %d",i,N);count("bad indices refused");}
#endif
      for(int k=0;k<8;k++)for(double q:a[k])if(fabs(q)>1e100&&!hostile){for(int i=0;i<N;i++)(*v[k])(i+1)=a[k][i]=r.u(-1,1);break;}
      sig(fmt("v %d %d %d",N,op,(x[0]==d)+2*(x[1]==d)+4*(k0==d)));
    }
    if(st().nsamples<2)sample(st().desc);});
  cases(fmt("sizes n=%d",N),1,[&](Rng&){V a;VCHECK(a.get_size()==N,"size","%d",a.get_size());W b(N);VCHECK(b.get_size()==N,"size","%d",b.get_size());if(N>1){b.setsize(N-1);VCHECK(b.get_size()==N-1,"size","setsize");}count("sizes");});
}
int main(int a,char**b){init(a,b);
#if PART==0
  fullM<1>();fullM<2>();fullM<3>();fullM<5>();fullM<8>();fullM<31>();bandM<1,0,0>();bandM<2,0,0>();bandM<2,1,0>();bandM<2,0,1>();bandM<3,1,1>();bandM<3,2,0>();bandM<3,0,2>();
#elif PART==1
  bandM<4,2,1>();bandM<4,1,2>();bandM<5,0,0>();bandM<5,4,0>();bandM<5,0,4>();bandM<6,3,4>();bandM<7,1,1>();bandM<9,5,2>();bandM<30,1,1>();bandM<25,3,7>();
  cases("type",1,[&](Rng&){bool f1=odes::Matrixtype<4,3,3>::Full,f2=odes::Matrixtype<4,2,3>::Full,f3=odes::Matrixtype<4,3,2>::Full,f4=odes::Matrixtype<1,0,0>::Full;VCHECK(f1&&!f2&&!f3&&f4,"matrix-type","full %d %d %d %d",f1,f2,f3,f4);
    VCHECK((std::is_same<odes::Matrixtype<4,3,3>::Matrix,odes::fortranArray<4>>::value&&std::is_same<odes::Matrixtype<4,1,2>::Matrix,odes::fortranRectangularArray<4,1,2>>::value),"matrix-type","types");count("types");});
#elif PART==2
  vectors<1>(40,1500);vectors<2>(40,1500);vectors<3>(40,1500);vectors<4>(40,1500);vectors<7>(40,1500);
#elif PART==3
  vectors<8>(40,1500);vectors<9>(40,1500);vectors<16>(40,1500);vectors<33>(30,1000);vectors<128>(15,300);vectors<1000>(5,60);
#endif
  return finish();}
