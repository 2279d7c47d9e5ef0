// C06: growing shared hash tables: sequential histories through several handles, and shared migration by threads.
#include "common.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
typedef uint32_t K; typedef uint32_t W;
static Hasher<K> hs(){ Hasher<K> h; if(symx_param_(5)){ h.a=1; return h; } h.a=sx::u32("a")|1; return h; }
struct Op { K k; W v; bool ok; };
typedef Concurrent_LP_Set<K,true> S; typedef Concurrent_LP_Map<K,W> M; typedef Concurrent_LP_MultiMap<K,W> MM;
template<class H> static bool ins(H&h,Op&o,S*){ return h.insert(o.k)==InsertReturn::State::True; } template<class H,class T> static bool ins(H&h,Op&o,T*){ return h.insert(o.k,o.v)==InsertReturn::State::True; }
template<class T> static void verdict(GrowingHashTable<T>&g,Op*all,int n,const char*w){
  K q=sx::nz32<K>("q"); W y=sx::u32("y"); bool in=false; uint64_t dist=0,cq=0,cqy=0,wonq=0; W last=0; bool lastOk=false;
  for(int i=0;i<n;i++){ in|=all[i].k==q; bool dup=false; for(int j=0;j<i;j++) dup|=all[j].k==all[i].k; dist+=!dup; cq+=all[i].k==q; cqy+=(all[i].k==q)&(all[i].v==y); wonq+=(all[i].k==q)&all[i].ok; last=all[i].k==q?all[i].v:last; }
  auto h=g.handle(); sx::check((bool)h.contains(q)==in,w); uint64_t cells=0; for(size_t i=0;i<h.capacity();i++) cells+=!h.empty(i); bool mm=std::is_same<T,MM>::value; sx::check(h.size()==(mm?(uint64_t)n:dist),w); sx::check(cells==(mm?(uint64_t)n:dist),w); sx::check(h.empty()==(n==0),w);
  if(!mm) sx::check(wonq==(in?1u:0u),w);
  if constexpr(std::is_same<T,M>::value){ W g2=h.get(q); bool vok=false; for(int i=0;i<n;i++) vok|=(all[i].k==q)&(all[i].v==g2); sx::check(in?vok:g2==0,w); }
  if constexpr(std::is_same<T,MM>::value){ uint64_t c=0,t=0; auto r=h.get(q); for(auto it=r.first;it!=r.second;++it){ auto x=*it; sx::check(x.first==q,w); c+=x.second==y; if(++t>h.capacity()) sx::check(false,w); } sx::check(t==cq&&c==cqy,w); }
  uint64_t it=0; for(auto i=h.begin();i!=h.end();++i) it++; sx::check(it==cells,w);
}
static bool hit(GrowingHashTableHandle<S>&h,K k){ return h.contains(k); }
template<class T> static void sequential(int cap,int n,int nh){
  GrowingHashTable<T> g(cap,0u,hs()); GrowingHashTableHandle<T> h0(g),h1(g),h2(g); GrowingHashTableHandle<T>*hh[3]={&h0,&h1,&h2}; Op all[8];
  for(int i=0;i<n;i++){ all[i].k=sx::nz32<K>("k"); all[i].v=sx::nz32<W>("v"); auto&h=*hh[i%nh]; bool had=false; for(int j=0;j<i;j++) had|=all[j].k==all[i].k; all[i].ok=ins(h,all[i],(T*)0); bool mm=std::is_same<T,MM>::value; sx::check(all[i].ok==(mm?true:!had),"insert-result"); }
  for(int i=0;i<n;i++) for(int j=0;j<nh;j++) sx::check((bool)hh[j]->contains(all[i].k),"found-through-every-handle");
  if constexpr(std::is_same<T,M>::value) for(int i=0;i<n;i++){ W e=0; for(int j=0;j<n;j++) e=all[j].k==all[i].k?all[j].v:e; sx::check(hh[i%nh]->get(all[i].k)==e,"map-last-value"); }
  const GrowingHashTable<T>&cg=g; auto ch=cg.handle(); for(int i=0;i<n;i++) sx::check((bool)ch.contains(all[i].k),"found-through-const-handle"); sx::check(ch.size()==h0.size()&&ch.capacity()==h0.capacity(),"const-handle-size");
  GrowingHashTable<T> g2(std::move(g)); verdict(g2,all,n,"final-content");
}
// one handle has not been used since the table grew behind its back; its first operation afterwards is any of these
template<class T> static void stale(int cap,int n){ GrowingHashTable<T> g(cap,0u,hs()); GrowingHashTableHandle<T> w(g),h(g); Op all[8]; bool mm=std::is_same<T,MM>::value; uint64_t dist=0;
  for(int i=0;i<n;i++){ all[i].k=sx::nz32<K>("k"); all[i].v=sx::nz32<W>("v"); bool had=false; for(int j=0;j<i;j++) had|=all[j].k==all[i].k; dist+=!had||mm; ins(w,all[i],(T*)0); }
  GrowingHashTableHandle<T> fresh(g); const size_t cap2=fresh.capacity(); sx::check(fresh.size()==dist,"size"); auto mine=[&](K k){ bool r=false; for(int i=0;i<n;i++) r|=all[i].k==k; return r; };
  switch(sx::conc(sx::choose("op",10))){ case 0: for(int i=0;i<n;i++) sx::check((bool)h.contains(all[i].k)&&h.count(all[i].k)==1,"stale: contains"); break; case 1: sx::check(h.size()==dist,"stale: size"); break; case 2: sx::check(!h.empty(),"stale: empty"); break; case 3: sx::check(h.capacity()==cap2,"stale: capacity"); break;
   case 4: { uint64_t c=0; for(auto i=h.begin(),e=h.end();i!=e;++i) c++; sx::check(c==dist,"stale: iteration"); break; }
   case 5: { uint64_t c=0; auto e=h.end(); for(auto i=h.begin();i!=e;++i) c++; sx::check(c==dist,"stale: iteration, end first"); break; }
   case 6: { uint64_t c=0; auto r=h.range(); for(auto i=r.begin();i!=r.end();++i) c++; sx::check(c==dist,"stale: range"); break; }
   case 7: { uint64_t c=0; for(size_t i=cap2;i-->0;) c+=!h.empty(i); sx::check(c==dist,"stale: cells"); break; }
   case 8: if constexpr(!std::is_same<T,S>::value){ for(int i=n;i-->0;){ auto r=h.get(all[i].k); if constexpr(std::is_same<T,M>::value){ W e=0; for(int j=0;j<n;j++) e=all[j].k==all[i].k?all[j].v:e; sx::check(r==e,"stale: get"); } else { uint64_t c=0,x=0; for(auto it=r.first;it!=r.second;++it) c++; for(int j=0;j<n;j++) x+=all[j].k==all[i].k; sx::check(c==x,"stale: get"); } } } else { bool ok=true; for(size_t i=cap2;i-->0;){ K k=h.at(i); ok&=(k==0)|mine(k); } sx::check(ok,"stale: at"); } break;
   default: { Op o; o.k=sx::nz32<K>("k2"); o.v=sx::nz32<W>("v2"); bool had=mine(o.k); o.ok=ins(h,o,(T*)0); sx::check(o.ok==(mm?true:!had),"stale: insert"); sx::check((bool)w.contains(o.k)&&w.size()==dist+(mm||!had),"stale: inserted"); } } }
struct Ctx { void*g; Op ops[2]; int n; };
template<class T> static void body(void*p){ Ctx&c=*(Ctx*)p; GrowingHashTableHandle<T> h(*(GrowingHashTable<T>*)c.g); for(int i=0;i<c.n;i++) c.ops[i].ok=ins(h,c.ops[i],(T*)0); }
static K nextKey(){ static K k=100; if(!symx_param_(5)) return sx::nz32<K>("k"); k+=(K)symx_param_(5); return k; }
template<class T> static void threads(int cap,int pre,int nth,int nops,int nops1,const char*w){
  static GrowingHashTable<T> g(cap,0u,hs()); static Op before[4]; static Ctx cs[3]; { GrowingHashTableHandle<T> h(g); for(int i=0;i<pre;i++){ before[i].k=i+1; before[i].v=sx::nz32<W>("pv"); before[i].ok=ins(h,before[i],(T*)0); } }
  for(int j=0;j<nth;j++){ cs[j].g=&g; int no=j?nops1:nops; cs[j].n=no; for(int i=0;i<no;i++){ cs[j].ops[i].k=nextKey(); cs[j].ops[i].v=sx::nz32<W>("v"); } }
  int ids[3]; for(int j=1;j<nth;j++) ids[j]=symx_spawn_(&body<T>,&cs[j]); body<T>(&cs[0]); for(int j=1;j<nth;j++) symx_join_(ids[j]);
  Op all[12]; int n=0; for(int i=0;i<pre;i++) all[n++]=before[i]; for(int j=0;j<nth;j++) for(int i=0;i<cs[j].n;i++) all[n++]=cs[j].ops[i];
  verdict(g,all,n,w);
}
extern "C" void symx_main(){
  long sc=symx_param_(0), kind=symx_param_(1), cap=symx_param_(2), n=symx_param_(3), x=symx_param_(4);
  if(sc==0){ if(kind==0) sequential<S>(cap,n,x); if(kind==1) sequential<M>(cap,n,x); if(kind==2) sequential<MM>(cap,n,x); }
  if(sc==1){ const char*w="shared-migration"; if(kind==0) threads<S>(cap,n,x,1,1,w); if(kind==1) threads<M>(cap,n,x,1,1,w); if(kind==2) threads<MM>(cap,n,x,1,1,w); }
  if(sc==2){ const char*w="insert-during-migration"; if(kind==0) threads<S>(cap,n,x,1,2,w); if(kind==1) threads<M>(cap,n,x,1,2,w); if(kind==2) threads<MM>(cap,n,x,1,2,w); }
  if(sc==3){ if(kind==0) stale<S>(cap,n); if(kind==1) stale<M>(cap,n); if(kind==2) stale<MM>(cap,n); }
  sx::reach("end");
}
