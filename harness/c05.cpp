// C05: concurrent insertion into the linear-probing containers, every interleaving of their atomic steps (bounded preemptions).
#include "common.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
typedef uint32_t K; typedef uint32_t W;
static Hasher<K> hs(){ Hasher<K> h; h.a=sx::u32("a")|1; return h; }
struct Op { K k; W v; bool ok, full; };
struct Ctx { void*tab; int kind; Op ops[4]; int n; K rk; bool r1,r2; W rv; int reads; };
template<class T> struct Ad;
template<class T> static InsertReturn ins(T&t,Op&o,std::true_type){ return t.insert(o.k); }
template<class T> static InsertReturn ins(T&t,Op&o,std::false_type){ return t.insert(o.k,o.v); }
template<class T,class IsSet> static void body(void*p){ Ctx&c=*(Ctx*)p; T&t=*(T*)c.tab; for(int i=0;i<c.n;i++){ InsertReturn r=ins(t,c.ops[i],IsSet()); c.ops[i].ok=r==InsertReturn::State::True; c.ops[i].full=r==InsertReturn::State::Full; } if(c.reads){ c.r1=t.contains(c.rk); if(c.reads>1) c.r2=t.contains(c.rk); if constexpr(std::is_same<T,Concurrent_LP_Map<K,W>>::value) if(c.reads>2) c.rv=t.get(c.rk); } }
template<class T> static W getv(T&t,K k,std::true_type){ return 0; } template<class T> static W getv(T&t,K k,std::false_type){ return t.get(k); }
struct SetTag{}; struct MapTag{}; struct MMTag{};
template<class T,class Tag,class IsSet> static void run(T&t,int pre,int nth,int nops,int reader){
  static Op before[3]; static Ctx cs[4];
  for(int i=0;i<pre;i++){ before[i].k=sx::nz32<K>("pk"); before[i].v=sx::nz32<W>("pv"); InsertReturn r=ins(t,before[i],IsSet()); before[i].ok=r==InsertReturn::State::True; before[i].full=r==InsertReturn::State::Full; }
  for(int j=0;j<nth;j++){ Ctx&c=cs[j]; c.tab=&t; c.n=nops; c.reads=0; for(int i=0;i<nops;i++){ c.ops[i].k=sx::nz32<K>("k"); c.ops[i].v=sx::nz32<W>("v"); } }
  if(reader){ Ctx&c=cs[nth]; c.tab=&t; c.n=0; c.reads=reader+1; c.rk=sx::nz32<K>("r"); }
  int tot=nth+(reader?1:0); int ids[4]; for(int j=1;j<tot;j++) ids[j]=symx_spawn_(&body<T,IsSet>,&cs[j]); body<T,IsSet>(&cs[0]); for(int j=1;j<tot;j++) symx_join_(ids[j]);
  Op all[12]; int n=0; for(int i=0;i<pre;i++) all[n++]=before[i]; for(int j=0;j<nth;j++) for(int i=0;i<nops;i++) all[n++]=cs[j].ops[i];
  bool anyfull=false; for(int i=0;i<n;i++) anyfull|=all[i].full;
  sx::check(!anyfull||t.size()>=t.capacity()/2,"refused-below-capacity");
  K q=sx::nz32<K>("q"); W y=sx::u32("y");
  bool in=false; uint64_t won=0,wonq=0,cy=0; bool valok=false; for(int i=0;i<n;i++){ bool m=(all[i].k==q)&!all[i].full; in|=m; won+=all[i].ok; wonq+=(all[i].k==q)&all[i].ok; cy+=(all[i].k==q)&(all[i].v==y)&all[i].ok; }
  sx::check((bool)t.contains(q)==in,"final-membership"); sx::check(t.size()==won,"size-is-successes");
  uint64_t cells=0; for(size_t i=0;i<t.capacity();i++) cells+=!t.empty(i); sx::check(cells==won,"cells");
  if(std::is_same<Tag,MMTag>::value) sx::check(wonq==(in?wonq:0),"mm"); else sx::check(wonq==(in?1u:0u),"one-winner");
  if constexpr(std::is_same<Tag,MapTag>::value){ W g=t.get(q); for(int i=0;i<n;i++) valok|=(all[i].k==q)&(all[i].v==g)&!all[i].full; sx::check(in?valok:g==0,"map-value"); }
  if constexpr(std::is_same<Tag,MMTag>::value){ for(int i=0;i<n;i++) sx::check(all[i].ok|all[i].full,"mm-insert-succeeds"); uint64_t c=0,g=0; auto r=t.get(q); for(auto it=r.first;it!=r.second;++it){ auto x=*it; sx::check(x.first==q,"mm-range-key"); c+=x.second==y; if(++g>t.capacity()) sx::check(false,"mm-range-ends"); } sx::check(c==cy,"mm-values"); sx::check(g==wonq,"mm-count"); }
  if constexpr(std::is_same<Tag,MapTag>::value) if(reader>1){ Ctx&c=cs[nth]; bool ok=c.rv==0; for(int i=0;i<n;i++) ok|=(all[i].k==c.rk)&(all[i].v==c.rv); sx::check(ok,"reader-value"); }
  if(reader){ Ctx&c=cs[nth]; bool was=false,ever=false; for(int i=0;i<n;i++){ ever|=(all[i].k==c.rk)&!all[i].full; } for(int i=0;i<pre;i++) was|=(before[i].k==c.rk)&!before[i].full; sx::check(!c.r1|ever,"reader-phantom"); sx::check(!c.r2|ever,"reader-phantom"); sx::check(c.r1|!was,"reader-lost"); sx::check(c.r2|!c.r1,"reader-monotone"); }
}
extern "C" void symx_main(){
  long kind=symx_param_(0), cap=symx_param_(1), pre=symx_param_(2), nth=symx_param_(3), nops=symx_param_(4), reader=symx_param_(5);
  if(kind==0){ static Concurrent_LP_Set<K,false> t(cap,0,hs()); run<Concurrent_LP_Set<K,false>,SetTag,std::true_type>(t,pre,nth,nops,reader); }
  if(kind==1){ static Concurrent_LP_Set<K,true> t(cap,0,hs()); run<Concurrent_LP_Set<K,true>,SetTag,std::true_type>(t,pre,nth,nops,reader); }
  if(kind==2){ static Concurrent_LP_Map<K,W> t(cap,0,hs()); run<Concurrent_LP_Map<K,W>,MapTag,std::false_type>(t,pre,nth,nops,reader); }
  if(kind==3){ static Concurrent_LP_MultiMap<K,W> t(cap,0,hs()); run<Concurrent_LP_MultiMap<K,W>,MMTag,std::false_type>(t,pre,nth,nops,reader); }
  sx::reach("end");
}
