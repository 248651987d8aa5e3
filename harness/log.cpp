// C07: the log of events against the steps observed through the hook, and the same history without the log.
#include "log_scen.hpp"
void plainRun(uint64_t seed,std::vector<std::vector<double>>&out);
#if COMP==3
typedef odes::Rock4<FR> Any;
static const odes::logger& logOf(odes::Rock4<FR>&s){return s.Log();}
#else
template<class S> const odes::logger& logOf(S&s){return s.Log();}
#endif
struct Ev{int k=0,step=0;std::string time,name,value;};
static bool parse(const std::string&s,std::vector<Ev>&E,std::string&bad){std::istringstream in(s);std::string l;if(!s.empty()&&s.back()!='\n'){bad="no end of line";return false;}
  while(std::getline(in,l)){Ev e;char t[400]="",n[60]="",v[400]="";int used=0;int g=sscanf(l.c_str(),"%d Time: %399s step: %d Event: %59s%n",&e.k,t,&e.step,n,&used);if(g!=4){bad=l;return false;}
    std::string rest=l.substr(used);if(!rest.empty()){if(sscanf(rest.c_str()," new step: %399s",v)!=1||rest!=std::string(" new step: ")+v){bad=l;return false;}}
    e.time=t;e.name=n;e.value=v;bool val=e.name=="changedH"||e.name=="rejectedStep";if(val!=!e.value.empty()){bad=l;return false;}E.push_back(e);}
  return true;}
int main(int a,char**b){init(a,b);
  cases(fmt("log %d",COMP),scaled(COMP==3?1500:1200,20000),[&](Rng&r0){uint64_t seed=r0.next();std::vector<std::vector<double>> mine,other;Rng r(seed);int call=0;
    scenario(r,[&](auto&s,auto&R,Seen&at,const std::string&d,double x0,std::vector<double> v){
      v.insert(v.end(),R.y.begin(),R.y.end());v.push_back(at.size());mine.push_back(v);++call;describe(fmt("history %llu: ",(unsigned long long)seed)+d);
      const odes::logger&L=logOf(s);std::string all=L.tostring();std::vector<Ev> E;std::string bad;
      {std::ostringstream o;o<<L;VCHECK(o.str()==all,"stream-differs","operator<< and tostring differ");}
      if(!parse(all,E,bad)){viol("line-format",bad);return;}
      count("events",E.size());count("calls");for(size_t k=0;k<E.size();k++)VCHECK(E[k].k==(int)k+1,"numbering","line %zu has number %d",k+1,E[k].k);
      static const char*names[]={"success","rejectedStep","NewtonFailed","NewtonWillNotConverge","changedH"};
      for(int q=0;q<5;q++){std::string want;int k=0;for(auto&e:E)if(e.name==names[q]){want+=std::to_string(++k)+" Time: "+e.time+" step: "+std::to_string(e.step)+" Event: "+e.name+(e.value.empty()?"":" new step: "+e.value)+"\n";}
        VCHECK(L.tostring((odes::eventType)q)==want,"filter","tostring(%s) is not the list of these events",names[q]);count("filtered lists");count(fmt("%s events",names[q]),k);}
      for(auto&e:E){bool k=false;for(auto n:names)k=k||e.name==n;VCHECK(k,"unknown-event","%s",e.name.c_str());}
      bool done=R.out==0;std::string w=R.str();
      std::vector<double> after;for(size_t k=0;k<at.size();k++)after.push_back(at[k].acc?(k+1<at.size()?at[k+1].t:(done?R.x:at[k].t+at[k].h)):at[k].t);
#if COMP==3
      VCHECK(E.size()==at.size(),"events-missing","%zu steps attempted, %zu events logged: %s",at.size(),E.size(),w.c_str());
      for(size_t k=0;k<at.size()&&k<E.size();k++){VCHECK(E[k].name==(at[k].acc?"success":"rejectedStep"),"event-type","attempt %zu was %s, logged as %s",k+1,at[k].acc?"accepted":"rejected",E[k].name.c_str());
        VCHECK(E[k].step==(int)k+1,"step-number","attempt %zu logged as %d",k+1,E[k].step);
        if(!at[k].acc||k+1<at.size()||done)VCHECK(E[k].time==std::to_string(after[k]),"event-time","attempt %zu ends at %.17g, logged time is %s",k+1,after[k],E[k].time.c_str());
        if(!at[k].acc&&k+1<at.size()&&at[k+1].h*(at[k+1].rho)<0.95*152*152*0.353)VCHECK(E[k].value==std::to_string(at[k+1].h),"new-step","after attempt %zu the step is %.17g, logged is %s",k+1,at[k+1].h,E[k].value.c_str());}
#else
      // numbers of the steps that ended by a Newton failure; the others are the attempts, in order
      std::vector<int> nf;std::vector<size_t> rejAt;int lastStep=0;std::vector<const Ev*> newton,rej;for(auto&e:E){VCHECK(e.step>=lastStep,"order","step %d logged after step %d",e.step,lastStep);lastStep=e.step;if(e.name[0]=='N'){nf.push_back(e.step);newton.push_back(&e);}if(e.name=="rejectedStep")rej.push_back(&e);VCHECK(e.name!="success","event-type","success logged");}
      for(size_t k=1;k<nf.size();k++)VCHECK(nf[k]>nf[k-1],"newton-failure-twice","step %d",nf[k]);
      int st=R.nstep;long open=st-(long)at.size()-(long)nf.size();// a step interrupted by an exception ends neither way
      VCHECK(open==0||(open==1&&R.out!=0&&!isRodas),"newton-failures","%d steps, %zu ended by the error test, %zu Newton failures logged: %s",st,at.size(),nf.size(),w.c_str());if(isRodas)VCHECK(nf.empty(),"event-type","Newton failures logged by Rodas");
      std::vector<int> num;{std::set<int> F(nf.begin(),nf.end());for(int k=1;k<=st&&num.size()<at.size();k++)if(!F.count(k))num.push_back(k);}
      if(num.size()!=at.size()){VCHECK(false,"step-number","%zu attempts, numbers left for %zu",at.size(),num.size());return;}
      size_t ri=0;for(size_t k=0;k<at.size();k++)if(!at[k].acc){if(ri>=rej.size()){viol("rejection-not-logged",fmt("attempt %zu (step %d): ",k+1,num[k])+w);break;}const Ev&e=*rej[ri++];
        VCHECK(e.step==num[k],"step-number","rejected attempt %zu is step %d, logged %d",k+1,num[k],e.step);VCHECK(e.time==std::to_string(at[k].t),"event-time","rejected attempt %zu at %.17g, logged %s",k+1,at[k].t,e.time.c_str());
        if(k+1<at.size()&&num[k+1]==num[k]+1)VCHECK(e.value==std::to_string(at[k+1].h),"new-step","after rejected attempt %zu the step is %.17g, logged %s",k+1,at[k+1].h,e.value.c_str());}
      VCHECK(ri==rej.size(),"rejections-logged","%zu rejections logged, %zu seen: %s",rej.size(),ri,w.c_str());
      auto timeBefore=[&](int step){double x=x0;for(size_t k=0;k<at.size()&&num[k]<step;k++)x=after[k];return x;};// time at the start of a step
      for(auto e:newton)VCHECK(e->time==std::to_string(timeBefore(e->step)),"event-time","Newton failure of step %d at %.17g, logged %s",e->step,timeBefore(e->step),e->time.c_str());
      for(size_t k=0;k<at.size();k++){const Ev*l=0;for(auto&e:E){if(e.step>=num[k])break;if(e.name=="changedH")l=&e;}
        VCHECK(l&&l->value==std::to_string(at[k].h),"change-of-step-not-logged","step %d has size %.17g, the last change logged before is %s",num[k],at[k].h,l?l->value.c_str():"none");count("step sizes matched");}
      for(auto&e:E)if(e.name=="changedH"){double p=timeBefore(e.step),q=timeBefore(e.step+1);VCHECK(e.time==std::to_string(p)||e.time==std::to_string(q),"event-time","change at step %d, between %.17g and %.17g, logged %s",e.step,p,q,e.time.c_str());}
      if(!E.empty()||!at.empty()){const Ev*l=0;for(auto&e:E)if(e.name=="changedH")l=&e;if(done)VCHECK(l&&l->value==std::to_string(R.hlast),"change-of-step-not-logged","last step size %.17g, last change logged %s",R.hlast,l?l->value.c_str():"none");}
#endif
      if(call>1)count("calls after another");if(!done){count("failed calls");if(call>1)count("failed calls after another");}
      sig(fmt("%d %d %zu %zu",COMP,R.out,std::min(at.size(),size_t(30)),std::min(E.size(),size_t(60))));if(vf::st().nsamples<3)sample(vf::st().group+fmt(": %zu attempts, %zu events ",at.size(),E.size())+w);});
    describe(fmt("history %llu",(unsigned long long)seed));plainRun(seed,other);
    VCHECK(mine.size()==other.size(),"log-changes-results","%zu calls, %zu without the log",mine.size(),other.size());
    for(size_t k=0;k<mine.size()&&k<other.size();k++){VCHECK(mine[k].size()==other[k].size()&&!memcmp(mine[k].data(),other[k].data(),8*mine[k].size()),"log-changes-results","call %zu: ",k+1);count("calls compared");}
  });
  // the log alone: what is put is what is listed, for any sequence of events
  cases(fmt("logger %d",COMP),scaled(300,5000),[&](Rng&r){odes::logger L;struct P{double t;int s;int e;double v;};std::vector<P> K;describe("events put directly");int n=r.p(0.1)?r.i(200,1500):r.i(0,25);
    static const char*names[]={"success","rejectedStep","NewtonFailed","NewtonWillNotConverge","changedH"};P last={0,0,0,0};
    for(int i=0;i<n;i++){if(r.p(0.01)){L.clear();K.clear();}P p={r.u(-3,3)*r.lg(-6,8),r.i(0,1000000),r.i(0,4),r.u(-3,3)*r.lg(-6,8)};if(r.p(0.4)){p.t=last.t;if(r.p(0.7))p.s=last.s;if(r.p(0.5))p.e=last.e;if(r.p(0.5))p.v=last.v;}last=p;L.put(p.t,p.s,(odes::eventType)p.e,p.v);K.push_back(p);}
    for(int q=0;q<=5;q++){std::string want;int k=0;for(auto&p:K)if(q==5||p.e==q){want+=std::to_string(++k)+" Time: "+std::to_string(p.t)+" step: "+std::to_string(p.s)+" Event: "+names[p.e]+(p.e==1||p.e==4?" new step: "+std::to_string(p.v):"")+"\n";}
      std::string g=L.tostring((odes::eventType)q);VCHECK(g==want,"listing","%d events put: tostring(%d) gives\n%.600s\nexpected\n%.600s",(int)K.size(),q,g.c_str(),want.c_str());if(q==5)VCHECK(L.tostring()==want,"listing","tostring() differs from tostring(all)");}
    count("events put directly",K.size());sig(fmt("lg %d",std::min(n,40)));});
  return finish();}
