// C05: hash tables created and used by two threads at once.  params: kind (0 set, 1 map, 2 multimap, 3 growing concurrent set with handle), capacity, keys per thread
#include "common.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
static long kind,cap,nk; static uint32_t keys[2][4]; static bool got[2][4],none[2];
static void work(void*p){ int t=(int)(long)p;
  if(kind==0){ LP_Set<uint32_t,true> s(cap); for(long i=0;i<nk;i++) s.insert(keys[t][i]); for(long i=0;i<nk;i++) got[t][i]=s.contains(keys[t][i])==1; }
  if(kind==1){ LP_Map<uint32_t,uint32_t> s(cap); for(long i=0;i<nk;i++) s.insert(keys[t][i],7); for(long i=0;i<nk;i++) got[t][i]=s.get(keys[t][i])==7; }
  if(kind==2){ GrowingHashTable<Concurrent_LP_Set<uint32_t,true>> s(cap); GrowingHashTableHandle<Concurrent_LP_Set<uint32_t,true>> h(s); for(long i=0;i<nk;i++) h.insert(keys[t][i]); for(long i=0;i<nk;i++) got[t][i]=h.contains(keys[t][i])==1; } }
extern "C" void symx_main(){ kind=(long)symx_param_(0); cap=(long)symx_param_(1); nk=(long)symx_param_(2); for(int t=0;t<2;t++) for(long i=0;i<nk;i++) keys[t][i]=sx::nz32<uint32_t>("k"); int id=symx_spawn_(work,(void*)1); work((void*)0); symx_join_(id); bool ok=true; for(int t=0;t<2;t++) for(long i=0;i<nk;i++) ok&=got[t][i]; sx::check(ok,"each table holds what its thread inserted"); sx::reach("end"); }
