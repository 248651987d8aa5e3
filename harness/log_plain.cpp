// the same history in a build without the log
#undef LOGRADAU5
#undef LOGRODAS
#undef LOGROCK4
#define odes odes_plain
#define vf vf_plain
#include "log_scen.hpp"
void plainRun(uint64_t seed,std::vector<std::vector<double>>&out){Rng r(seed);
  scenario(r,[&](auto&,auto&R,Seen&at,const std::string&,double,std::vector<double> v){v.insert(v.end(),R.y.begin(),R.y.end());v.push_back(at.size());out.push_back(v);});}
