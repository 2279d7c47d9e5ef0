#include "symx.h"
#include <random>
#include "datastructures/LP_Set.hxx"
tGenerator startGen(1986);
extern "C" { size_t getPeakRSS(){return 0;} size_t getCurrentRSS(){return 0;} }
std::string getHostname(){return "";} std::string getDatetime(){return "";} std::string print_stacktrace(const std::string&,const int,const uint){return "";}
extern "C" void symx_main(){
  Hasher<uint32_t> h; h.a=2*sx::u("a",0,15)+1;
  LP_Set<uint32_t,true> s(4,h);
  uint32_t k[4]; for(int i=0;i<3;i++){ k[i]=sx::u32("k"); sx::assume(k[i]!=0);
    bool seen=false; for(int j=0;j<i;j++) seen|=k[j]==k[i];
    bool r=s.insert(k[i]); sx::check(r==!seen,"insert-result"); }
  uint32_t q=sx::u32("q"); sx::assume(q!=0); bool in=false; for(int j=0;j<3;j++) in|=k[j]==q;
  sx::check(s.contains(q)==in,"contains"); sx::reach("end");
}
