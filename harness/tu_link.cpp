// C09: several source files using the library make one program, in which everything works as it does alone.
// The compiler is run here: each component's source file is linked alone, and with all the others, in several orders.
#include "vf.hpp"
#include <thread>
#include <atomic>
#include <map>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace vf;
static std::string here(){std::string f=__FILE__;size_t p=f.rfind('/');return p==std::string::npos?".":f.substr(0,p);}
static std::string slurp(const std::string&p){FILE*f=fopen(p.c_str(),"r");if(!f)return "";std::string s;char b[4096];size_t k;while((k=fread(b,1,sizeof b,f))>0)s.append(b,k);fclose(f);return s;}
static std::string firstLine(const std::string&s){size_t p=s.find("multiple definition");if(p==std::string::npos)p=s.find("error");if(p==std::string::npos)p=0;size_t q=s.rfind('\n',p);p=q==std::string::npos?0:q+1;return s.substr(p,300);}
static int sh(const std::string&c){int r=system(c.c_str());return WIFEXITED(r)?WEXITSTATUS(r):-1;}
static void program(){
  const char*R=getenv("VERIF_REPO");std::string repo=R?R:"/repo",H=here();char d[]="/tmp/tulinkXXXXXX";if(!mkdtemp(d))abort();std::string dir=d;
  std::string inc="-I"+H;for(const char*c:{"common","Radau5-NG","Rodas-NG","SDIRKL","SymplecticRK"})inc+=" -I"+repo+"/"+c+"/include";inc+=" -I"+repo+"/SymplecticRK/sage -I"+repo+"/SDIRKL/test/Lapl";
  struct Obj{std::string name,cmd;int rc=-1;};std::vector<Obj> O;
  std::string cc="g++ -std=gnu++17 -DGCC -w -O2 ";
#ifdef TUCLANG
  cc="clang++ -std=gnu++17 -DCLANG -w -O2 ";
#endif
#ifdef TUALIGN
  cc+="-DALIGN_BLOCKED ";
#endif
  auto add=[&](const std::string&n,const std::string&src,const std::string&fl,bool L){O.push_back({n,"cd "+dir+" && "+cc+fl+" "+inc+" -I"+repo+(L?"/Rock4-L":"/Rock4-NG")+"/include -c "+H+"/"+src+" -o "+n+".o >"+n+".log 2>&1"});};
  for(int k=0;k<7;k++)add(fmt("c%d",k),"tu.cpp",fmt("-DODES_MONITOR -DCOMP=%d",k)+(k==2?" -DRMETH=2 -DRAUTO=false -DRUSEDT=false":""),k==4);
  add("all1","tu_all.cpp","-std=gnu++11 -DTUALL=1",false);add("all2","tu_all.cpp","-std=gnu++20 -DTUALL=2",false);
  add("run","tu_run.cpp","-DWHICH=127 -DCROSS",false);for(int k=0;k<7;k++)add(fmt("run%d",k),"tu_run.cpp",fmt("-DWHICH=%d",1<<k),false);
  std::atomic<size_t> next{0};auto work=[&]{for(;;){size_t i=next++;if(i>=O.size())return;O[i].rc=sh(O[i].cmd);}};
  {std::vector<std::thread> t;for(int i=0;i<3;i++)t.emplace_back(work);for(auto&x:t)x.join();}
  bool all=true;for(auto&o:O){count("source files compiled",o.rc==0);if(!check(o.rc==0,"does-not-compile",o.name+": "+firstLine(slurp(dir+"/"+o.name+".log"))))all=false;}
  std::map<std::string,std::string> seen; // what each scenario showed alone
  std::string n=fmt("%ld",scaled(60,1500)),sd=fmt("%llu",(unsigned long long)st().seed);
  auto prog=[&](const std::string&name,const std::string&objs)->bool{int rc=sh("cd "+dir+" && g++ -o "+name+" "+objs+" -llapack -lblas -lquadmath -lpthread >link.log 2>&1");count("programs linked",rc==0);
    if(!check(rc==0,"does-not-link",objs+": "+firstLine(slurp(dir+"/link.log"))))return false;
    rc=sh("cd "+dir+" && timeout 200 ./"+name+" "+sd+" "+n+" >out.txt 2>err.txt");return check(rc==0,"program-fails",fmt("%s ends with status %d: ",objs.c_str(),rc)+slurp(dir+"/err.txt").substr(0,300));};
  auto lines=[&](auto f){std::string s=slurp(dir+"/out.txt");size_t p=0;while(p<s.size()){size_t q=s.find('\n',p);std::string l=s.substr(p,q-p);size_t c=l.find('|');f(l.substr(0,c),l.substr(c+1));p=q+1;}};
  auto kase=[&](const std::string&s){describe(s);sig(s);};
  if(all){
    for(int c=0;c<7;c++){kase(fmt("component %d alone",c));if(prog("p",fmt("run%d.o c%d.o",c,c)))lines([&](std::string a,std::string b){seen[a]=b;});}
    // all together, each order of the files of the linker that puts another file first
    for(int o=0;o<8;o++){std::string l="run.o";std::vector<std::string> f={"c0.o","c1.o","c2.o","c3.o","c4.o","c5.o","c6.o","all1.o all2.o"};for(int i=0;i<8;i++)l+=" "+f[(i*(o%2?7:1)+o)%8];kase("together: "+l);
      std::map<std::string,std::string> cross;if(prog("p",l))lines([&](std::string a,std::string b){
        if(a[0]=='x'){std::string g=a.substr(0,a.find(' '));if(!cross.count(g))cross[g]=b;else VCHECK(cross[g]==b,"object-shared","%s: an object made, used and destroyed in different source files (%s) gives %s instead of %s",l.c_str(),a.c_str(),b.c_str(),cross[g].c_str());count("objects shared by source files");sig("x"+a);VCHECK(b.size()>3,"object-shared","%s: no result",a.c_str());return;}
        auto i=seen.find(a);if(i!=seen.end()){VCHECK(i->second==b,"differs-from-alone","%s: scenario %s gives %s instead of %s, as in a program of one source file",l.c_str(),a.c_str(),b.c_str(),i->second.c_str());count("scenarios compared with the component alone");}});}
    for(int a=0;a<7;a++)sig(fmt("%d",a));
  }
  for(auto&o:O){remove((dir+"/"+o.name+".o").c_str());remove((dir+"/"+o.name+".log").c_str());}for(const char*f:{"link.log","out.txt","err.txt","p"})remove((dir+"/"+f).c_str());rmdir(dir.c_str());}
int main(int ac,char**av){init(ac,av);cases("program",1,[](Rng&){program();});return finish();}
