// Reference model of the three Rosenbrock methods of Rodas (Hairer & Wanner,
// Solving ODEs II, and Steinebach), in long double.
#ifndef ROD_REF_HPP
#define ROD_REF_HPP
#include "radau_run.hpp"
namespace vf {
struct RodasRef{
  LD c[6],d[6],A[6][6],C[6][6],gam;
  RodasRef(int m){
    for(auto&r:A)for(auto&v:r)v=0;for(auto&r:C)for(auto&v:r)v=0;for(int i=0;i<6;i++)c[i]=d[i]=0;c[4]=c[5]=1;gam=0.25L;
    auto row=[&](LD T[6][6],int i,std::initializer_list<double> l){int j=0;for(double v:l)T[i][j++]=v;};
    if(m==1){c[1]=0.386;c[2]=0.21;c[3]=0.63;d[0]=0.25;d[1]=-0.1043;d[2]=0.1035;d[3]=-0.3620000000000023e-01;
      row(A,1,{1.544});row(A,2,{0.9466785280815826,0.2557011698983284});row(A,3,{3.314825187068521,2.896124015972201,0.9986419139977817});
      row(A,4,{1.221224509226641,6.019134481288629,12.53708332932087,-0.6878860361058950});
      row(C,1,{-5.6688});row(C,2,{-2.430093356833875,-0.2063599157091915});row(C,3,{-0.1073529058151375,-9.594562251023355,-20.47028614809616});
      row(C,4,{7.496443313967647,-10.24680431464352,-33.99990352819905,11.70890893206160});
      row(C,5,{8.083246795921522,-7.981132988064893,-31.52159432874371,16.31930543123136,-6.058818238834054});}
    else if(m==2){c[1]=0.3507221;c[2]=0.2557041;c[3]=0.6817790;d[0]=0.25;d[1]=-0.6902209999999998e-01;d[2]=-0.9671999999999459e-03;d[3]=-0.8797900000000025e-01;
      row(A,1,{1.4028884});row(A,2,{0.6581212688557198,-1.320936088384301});row(A,3,{7.131197445744498,16.02964143958207,-5.561572550509766});
      row(A,4,{22.73885722420363,67.38147284535289,-31.21877493038560,0.7285641833203814});
      row(C,1,{-5.1043536});row(C,2,{-2.899967805418783,4.040399359702244});row(C,3,{-32.64449927841361,-99.35311008728094,49.99119122405989});
      row(C,4,{-76.46023087151691,-278.5942120829058,153.9294840910643,10.97101866258358});
      row(C,5,{-76.29701586804983,-294.2795630511232,162.0029695867566,23.65166903095270,-7.652977706771382});}
    else {c[1]=0.75;c[2]=0.21;c[3]=0.63;d[0]=0.25;d[1]=-0.5;d[2]=-0.023504;d[3]=-0.0362;
      row(A,1,{3.0});row(A,2,{1.831036793486759,0.4955183967433795});row(A,3,{2.304376582692669,-0.05249275245743001,-1.176798761832782});
      row(A,4,{-7.170454962423024,-4.741636671481785,-16.31002631330971,-1.062004044111401});
      row(C,1,{-12.0});row(C,2,{-8.791795173947035,-2.207865586973518});row(C,3,{10.81793056857153,6.780270611428266,19.53485944642410});
      row(C,4,{34.19095006749676,15.49671153725963,54.74760875964130,14.16005392148534});
      row(C,5,{34.62605830930532,15.30084976114473,56.99955578662667,18.40807009793095,-5.714285714285717});}
    for(int j=0;j<4;j++)A[5][j]=A[4][j];A[5][4]=1;
  }
  //! one step; K: the six increments; dJ, dT: relative perturbations of Jacobian and time derivative (sensitivity)
  bool step(const Prob& P,LD x,const LD* y,LD h,std::vector<LD>& yn,std::vector<LD>& err,LD& size,LD dJ=0,LD dT=0,int comp=-1)const{
    int n=P.n;std::vector<std::vector<LD>> K(6,std::vector<LD>(n));std::vector<LD> u(n),f(n);
    Mat<LD> M(n,n);for(int i=0;i<n;i++){for(int j=P.lo(i);j<=P.hi(i);j++)M(i,j)=-P.jac<LD>(y,i,j)+dJ*((i*7+j*3)%2?1:-1);M(i,i)+=1/(h*gam);}
    size=0;
    for(int s=0;s<6;s++){for(int i=0;i<n;i++){u[i]=y[i];for(int j=0;j<s;j++)u[i]+=A[s][j]*K[j][i];}
      P.f<LD>(x+c[s]*h,u.data(),f.data());
      for(int i=0;i<n;i++){LD w=0,q=0;for(int j=0;j<s;j++){w+=C[s][j]/h*K[j][i];q+=fabsl(C[s][j]*K[j][i]);}size=std::max(size,q);
        f[i]+=w;if(P.timedep){LD ft=P.dft<LD>(x,i);f[i]+=h*d[s]*(ft+(comp<0||comp==i?dT*(1+fabsl(ft)):0));}}
      if(!gsolve(M,f))return false;K[s]=f;for(LD v:f){size=std::max(size,fabsl(v));}
      for(int i=0;i<n;i++)for(int j=0;j<s;j++)size=std::max(size,fabsl(A[s][j]*K[j][i]));}
    yn.resize(n);err=K[5];for(int i=0;i<n;i++)yn[i]=u[i]+K[5][i];
    return true;}
};
}
#endif
