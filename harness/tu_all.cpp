// C09: a source file which includes everything (in one order or the other), makes objects, uses and destroys objects made here or elsewhere.
#if TUALL==1
#include "Radau5cc.hpp"
#include "Rodascc.hpp"
#include "Rock4.hpp"
#include "Sdirkl.hpp"
#include "CrN.hpp"
#include "EulerImp.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "SymplecticRK.hpp"
#include "logger.hpp"
#else
#include "logger.hpp"
#include "SymplecticRK.hpp"
#include "RKRS.hpp"
#include "RKMethod2.hpp"
#include "RKMethod1.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "Sdirkl.hpp"
#include "Rock4.hpp"
#include "Rodascc.hpp"
#include "Radau5cc.hpp"
#endif
#undef MAX
#undef MIN
#undef ABS
#undef SIGN
#include <cmath>
#include <sstream>
#include "tu_cross.hpp"
#define C2(a,b) a##b
#define C1(a,b) C2(a,b)
Cross*C1(cross_make_,TUALL)(int k,int variant){switch(k){
  case 0:{double t=variant?1e-7:1e-5;auto*r=new CR5;r->s=new odes::Radau5cc<CF>(true,&t,&t);return r;}
  case 1:{double t=variant?1e-7:1e-5;auto*r=new CRO;r->s=new odes::Rodascc<CF>(true,&t,&t);return r;}
  case 2:{auto*r=new CR4;r->s=new odes::Rock4<CK>(r->f);if(variant)r->s->setTolerances(1e-7,1e-6);return r;}
  case 3:{auto*r=new CGA;r->s=new odes::SymplecticRK<CG,4,double>(variant?50:100);return r;}
  case 4:{auto*r=new CSD;r->s=new odes::Sdirkl<odes::RKRS,COP>(3,variant?0.1:0.01);return r;}
  case 5:{auto*r=new CLG;r->s=new odes::logger;r->variant=variant;return r;}}
  return 0;}
std::string C1(cross_use_,TUALL)(Cross*c){std::ostringstream o;o.precision(17);
  if(auto*r=dynamic_cast<CR5*>(c)){double x=0,y[3]={1,2,3};(*r->s)(.01,x,1.5,y);o<<x<<" "<<y[0]<<" "<<y[1]<<" "<<y[2]<<" "<<r->s->getNstep()<<" "<<r->s->getNJac();}
  else if(auto*r=dynamic_cast<CRO*>(c)){double x=0,y[3]={1,2,3};(*r->s)(.01,x,1.5,y);o<<x<<" "<<y[0]<<" "<<y[1]<<" "<<y[2]<<" "<<r->s->getNstep()<<" "<<r->s->getNdec();}
  else if(auto*r=dynamic_cast<CR4*>(c)){double*y=odes::allocDoubleArray(6);for(int i=0;i<6;i++)y[i]=1+i;(*r->s)(y,0.,2.,.1);for(int i=0;i<6;i++)o<<y[i]<<" ";o<<r->s->NbSteps()<<" "<<r->s->NbRhsComputed();odes::destroyDoubleArray(y);}
  else if(auto*r=dynamic_cast<CGA*>(c)){double u[2]={1,0};bool first=true;for(int i=0;i<20;i++){bool ok=r->s->step(.1,u,first);first=false;o<<ok<<" "<<u[0]<<" "<<u[1]<<" ";}}
  else if(auto*r=dynamic_cast<CSD*>(c)){double u[3]={1,2,3};for(int i=0;i<5;i++){r->s->step(u);o<<u[0]<<" "<<u[1]<<" "<<u[2]<<" ";}}
  else if(auto*r=dynamic_cast<CLG*>(c)){r->s->put(1.5,3,odes::changedH,r->variant+.5);o<<*r->s;}
  return o.str();}
void C1(cross_free_,TUALL)(Cross*c){delete c;}
