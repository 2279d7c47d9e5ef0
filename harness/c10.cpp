// C10: BlockedArray / Concurrent_BlockedArray as an array of values.
#include "common.h"
#include "tbb/tbb.h"
#include "datastructures/BlockedArray.hxx"
typedef uint32_t V;
template<class A,size_t BS> static void run(size_t cap0,long script){
  A a(cap0); size_t blocks=(cap0+BS-1)/BS; uint64_t wi[6]; V wv[6]; int n=0;
  auto val=[&](uint64_t i,V&v)->bool{ bool has=false; for(int j=0;j<n;j++){ bool m=wi[j]==i; has|=m; v=m?wv[j]:v; } return has; };
  while(script){ int t=script%10; script/=10;
    if(t==1||t==2){ uint64_t i=sx::u64("i"); V v=sx::u32("v"); uint64_t lim=blocks*BS; bool threw=false;
      if(t==1){ try { a.at(i)=v; } catch(const std::out_of_range&){ threw=true; } sx::check(threw==(i>=lim),"at-throws"); if(!threw){ wi[n]=i; wv[n]=v; n++; } }
      else { sx::assume(i<lim); a[i]=v; wi[n]=i; wv[n]=v; n++; } }
    if(t==3){ size_t c=cap0+sx::choose("cap",2*BS+2); c=sx::conc(c); a.reserve(c); if((c+BS-1)/BS>blocks) blocks=(c+BS-1)/BS; }
    if(t==4){ A b(std::move(a)); uint64_t q=sx::u64("q"); V e=0; if(val(q,e)) sx::check(b[q]==e,"moved"); new(&a) A(std::move(b)); }
    if(t==5){ a.reserve(blocks*BS+1); blocks++; }
  }
  const A&c=a; uint64_t q=sx::u64("q"); V e=0; bool h=val(q,e); bool threw=false; V got=0; try { got=c.at(q); } catch(const std::out_of_range&){ threw=true; }
  sx::check(threw==(q>=blocks*BS),"const-at-throws"); if(h){ sx::check(!threw,"const-at-throws"); sx::check(got==e,"value"); sx::check(c[q]==e,"value"); sx::check(a[q]==e,"value"); }
}
extern "C" void symx_main(){
  long k=sx::conc(symx_param_(0)); size_t cap=symx_param_(1); long script=symx_param_(2);
  if(k==0) run<BlockedArray<V,2>,2>(cap,script); if(k==1) run<Concurrent_BlockedArray<V,2>,2>(cap,script); if(k==2) run<BlockedArray<V,3>,3>(cap,script); if(k==3) run<Concurrent_BlockedArray<V,4>,4>(cap,script); if(k==4) run<BlockedArray<V>,512>(cap,script);
  sx::reach("end");
}
