// One Radau5 (or Rodas) integration as a record: what was asked, what was seen.
#ifndef RADAU_RUN_HPP
#define RADAU_RUN_HPP
#include "radau_mon.hpp"
namespace vf {
enum Outcome{RETURNED,LIBEX,USEREX,RUNAWAY,OTHEREX};
inline const char* oname(int o){static const char* s[]={"returned","OdesException","user exception","runaway","other exception"};return s[o];}
struct Result{
  int out=RETURNED; double x=0,hlast=0; std::vector<double> y; long nf=0,nj=0;
  int nstep=-1,nacc=-1,nrej=-1,njac=-1,ndec=-1,nfc=-1; double first=0; std::string msg;
  std::vector<Attempt> at;
  std::vector<Attempt> acc()const{std::vector<Attempt> r;for(auto&a:at)if(a.acc)r.push_back(a);return r;}
  bool same(const Result& o)const{return out==o.out&&x==o.x&&bits(y,o.y)&&nstep==o.nstep&&nacc==o.nacc&&nrej==o.nrej&&njac==o.njac&&ndec==o.ndec&&nfc==o.nfc&&nf==o.nf&&nj==o.nj;}
  static bool bits(const std::vector<double>&a,const std::vector<double>&b){return a.size()==b.size()&&(a.empty()||memcmp(a.data(),b.data(),a.size()*8)==0);}
  std::string str()const{return fmt("%s x=%.17g steps=%d acc=%d rej=%d jac=%d dec=%d f=%d (seen f=%ld j=%ld) h=%.17g y=",oname(out),x,nstep,nacc,nrej,njac,ndec,nfc,nf,nj,hlast)+vec(y);}
};
//! integrate with an existing solver object; the recorder is on when mon is not null
template<class S> Result go(S& s,Ctx& c,double h,double x0,double xe,const std::vector<double>& y0,bool record=true,bool seeZ=false){
  Result r; std::vector<double> y(y0); double x=x0; Mon m;
  long nf0=c.nf,nj0=c.nj; s.rhs().c=&c; c.userY=y.data();
  m.seeZ=seeZ; if(record)m.start(&c);
  try{s(h,x,xe,y.data());r.out=RETURNED;}
  catch(odes::OdesException&){r.out=LIBEX;}
  catch(UserEx&){r.out=USEREX;}
  catch(Runaway&){r.out=RUNAWAY;}
  if(record){m.stop();r.at.swap(m.at);}
  r.x=x;r.y=y;r.nf=c.nf-nf0;r.nj=c.nj-nj0;
  r.nstep=s.getNstep();r.nacc=s.getNaccpt();r.nrej=s.getNrejct();r.njac=s.getNJac();r.ndec=s.getNdec();r.nfc=nfcOf(s,0);
  r.hlast=s.getLastTimeStep();r.first=s.getfirstAcceptedStep();
  return r;
}
}
#endif
