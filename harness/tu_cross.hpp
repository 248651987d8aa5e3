// The problems and objects two source files share.
#ifndef TU_CROSS_HPP
#define TU_CROSS_HPP
#include <string>
struct CF{static const int n=3,nsub=1,nsup=1;static const bool Hessenberg=false,ComputeJacobianNumerically=true,autonomous=false,use_DF_t=false;static const int method=1;
  void operator()(double t,double*y,double*o){o[0]=-2*y[0]+y[1];o[1]=y[0]-3*y[1]+y[2]+std::sin(t);o[2]=y[1]-2*y[2];}
  template<class A,class B,class M>void Jacobian(double,A,const B&,M&){}template<class A,class B>void DF_t(double,const A&,B&){}};
struct CK{int size()const{return 6;}double rho(){return 40;}void operator()(double*y,double*o){for(int i=0;i<6;i++)o[i]=10*((i?y[i-1]:0)-2*y[i]+(i<5?y[i+1]:0));}};
struct CG{static const int n=2;void operator()(double*u,double*o){o[0]=u[1];o[1]=-std::sin(u[0]);}};
struct COP{double c=0;int n=0;void init(int n_,double coef){n=n_;c=coef;}void apply(double in[],double out[]){for(int i=0;i<n;i++)out[i]=in[i]/(1+c*(i+1));}};
struct Cross{virtual ~Cross(){}};
template<class S> struct Holds:Cross{S*s=0;~Holds(){delete s;}};
struct CR5:Holds<odes::Radau5cc<CF>>{};
struct CRO:Holds<odes::Rodascc<CF>>{};
struct CR4:Holds<odes::Rock4<CK>>{CK f;};
struct CGA:Holds<odes::SymplecticRK<CG,4,double>>{};
struct CSD:Holds<odes::Sdirkl<odes::RKRS,COP>>{};
struct CLG:Holds<odes::logger>{int variant=0;};
#endif
