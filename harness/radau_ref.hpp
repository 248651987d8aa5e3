// Reference solutions in long double: fixed steps of Radau IIA, with step doubling.
#ifndef RADAU_REF_HPP
#define RADAU_REF_HPP
#include "implicit.hpp"
namespace vf {
inline const RadauRef& rref(){static RadauRef R;return R;}
//! reference solution with fixed Radau IIA steps in long double (order 5) and one Richardson check
inline bool refFixed(const Prob& P,double x0,const std::vector<double>& y0,double x1,int ns,std::vector<LD>& y){
  int n=P.n;y.assign(y0.begin(),y0.end());LD h=((LD)x1-x0)/ns;std::vector<LD> Z(3*n,0);
  for(int k=0;k<ns;k++){if(!rref().solve(P,(LD)x0+k*h,y.data(),h,Z)){Z.assign(3*n,0);if(!rref().solve(P,(LD)x0+k*h,y.data(),h,Z))return false;}
    for(int i=0;i<n;i++)y[i]+=Z[2*n+i];}
  return true;
}
//! reference with estimated error (max norm); doubles the number of steps until err<=want*scale
inline bool refSol(const Prob& P,double x0,const std::vector<double>& y0,double x1,LD want,std::vector<LD>& y,int maxns=1600){
  std::vector<LD> a,b;int ns=25;if(!refFixed(P,x0,y0,x1,ns,a))return false;
  for(;ns<=maxns;){ns*=2;if(!refFixed(P,x0,y0,x1,ns,b))return false;LD e=0;for(size_t i=0;i<a.size();i++)e=std::max(e,fabsl(a[i]-b[i])/(1+fabsl(b[i])));
    if(e<=want){y=b;return true;}a=b;}
  return false;
}
}
#endif
