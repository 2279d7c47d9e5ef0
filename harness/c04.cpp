// C04: merging and filtering of the id containers against plain lists.
#include "common.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
typedef uint32_t K; typedef uint32_t W;
static Hasher<K> hs(){ Hasher<K> h; h.a=sx::u32("a")|1; return h; }
static bool fullMap(){ return false; }
// the filter is a real LP_Set holding nf keys
struct Keys { K k[6]; W v[6]; int n=0; bool has(K x)const{ bool r=false; for(int i=0;i<n;i++) r|=k[i]==x; return r; } W get(K x)const{ W r=0; for(int i=0;i<n;i++) r=k[i]==x?v[i]:r; return r; } };
static Keys keys(int n,bool vals=false){ Keys r; r.n=n; for(int i=0;i<n;i++){ r.k[i]=sx::nz32<K>("k"); r.v[i]=vals?sx::nz32<W>("v"):0; } return r; }
template<class F> static uint64_t countIf(const Keys&a,const Keys&b,F f){ uint64_t d=0; for(int i=0;i<a.n+b.n;i++){ auto at=[&](int z){ return z<a.n?a.k[z]:b.k[z-a.n]; }; K x=at(i); bool dup=false; for(int j=0;j<i;j++) dup|=at(j)==x; d+=(!dup)&f(x); } return d; }
template<class S> static LP_Set<K,true> mkset(const Keys&k,size_t cap,Hasher<K> h){ LP_Set<K,true> s(cap,h); for(int i=0;i<k.n;i++) s.insert(k.k[i]); return s; }
template<class S,class F> static void verdict(const S&s,const Keys&a,const Keys&b,F keep,const char*w){ K q=sx::nz32<K>("q"); bool in=(a.has(q)|b.has(q))&keep(q); sx::check((bool)s.contains(q)==in,w); sx::check(s.count(q)==(in?1u:0u),w); sx::check(s.size()==countIf(a,b,keep),w); }
template<class S,class F> static void verdictCells(const S&s,const Keys&a,const Keys&b,F keep,const char*w){ uint64_t c=0; for(size_t i=0;i<s.capacity();i++) c+=!s.empty(i); sx::check(c==countIf(a,b,keep),w); }
template<class S,class F> static void verdictMap(const S&s,const Keys&a,const Keys&b,F keep,const char*w){ verdict(s,a,b,keep,w); K q=sx::nz32<K>("q2"); W e=b.has(q)?b.get(q):a.get(q); bool in=(a.has(q)|b.has(q))&keep(q); bool both=a.has(q)&b.has(q); W g=s.get(q); sx::check(in?(both?(g==a.get(q))|(g==b.get(q)):g==e):g==0,w); }
template<class S,class F> static void verdictMM(const S&s,const Keys&a,const Keys&b,F keep,const char*w){ K q=sx::nz32<K>("q"); W y=sx::u32("y"); uint64_t c=0,cy=0; auto r=s.get(q); size_t g=0; for(auto it=r.first;it!=r.second;++it){ auto x=*it; sx::check(x.first==q,w); c++; cy+=x.second==y; if(++g>s.capacity()) sx::check(false,w); }
  uint64_t ec=0,ey=0,es=0; for(int i=0;i<a.n;i++){ ec+=(a.k[i]==q)&keep(q); ey+=(a.k[i]==q)&(a.v[i]==y)&keep(q); es+=keep(a.k[i]); } for(int i=0;i<b.n;i++){ ec+=(b.k[i]==q)&keep(q); ey+=(b.k[i]==q)&(b.v[i]==y)&keep(q); es+=keep(b.k[i]); } sx::check(c==ec,w); sx::check(cy==ey,w); sx::check(s.size()==es,w); sx::check(s.contains(q)==(ec>0),w); }
extern "C" void symx_main(){
  long sc=symx_param_(0), na=symx_param_(1), nb=symx_param_(2), nf=symx_param_(3), ca=symx_param_(4), cb=symx_param_(5);
  Hasher<K> h1=hs(),h2; h2.a=symx_param_(6)?h1.a*3:h1.a; Hasher<K> hf; hf.a=2654435769u;
  Keys A=keys(na,(sc>=4&&sc!=8&&sc<12)||sc==15||sc==16),B=keys(nb,(sc>=4&&sc!=8&&sc<12)||sc==15||sc==16),F=keys(nf);
  LP_Set<K,true> filter=mkset<int>(F,2,hf);
  auto all=[](K){ return true; }; auto notF=[&](K x){ return !F.has(x); }; auto inF=[&](K x){ return F.has(x); };
  tbb::cfg().mode=1; tbb::cfg().budget=1; tbb::cfg().chooseOrder=true;
  if(sc<4){ LP_Set<K,true> a=mkset<int>(A,ca,h1),b=mkset<int>(B,cb,h2);
    if(sc==0){ a.merge(std::move(b)); verdict(a,A,B,all,"set-merge"); verdictCells(a,A,B,all,"set-merge-cells"); }
    if(sc==1){ a.merge(std::move(b),filter); verdict(a,A,B,notF,"set-merge-filter"); verdictCells(a,A,B,notF,"set-merge-filter"); }
    if(sc==2){ a.merge(std::move(b),filter,true); verdict(a,A,B,inF,"set-merge-filter-cmp"); }
    if(sc==3){ Keys none; a.filter(filter); verdict(a,A,none,notF,"set-filter"); verdictCells(a,A,none,notF,"set-filter"); K k=sx::nz32<K>("k"); bool had=A.has(k)&notF(k); sx::check(a.insert(k)==!had,"insert-after-filter"); } }
  if(sc==4||sc==5){ LP_Map<K,W> a(ca,h1),b(cb,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i],A.v[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i],B.v[i]);
    if(sc==4){ a.merge(std::move(b)); verdictMap(a,A,B,all,"map-merge"); } else { a.merge(std::move(b),filter); verdictMap(a,A,B,notF,"map-merge-filter"); } }
  if(sc==6||sc==7){ LP_MultiMap<K,W> a(ca,h1),b(cb,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i],A.v[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i],B.v[i]);
    if(sc==6){ a.merge(std::move(b)); verdictMM(a,A,B,all,"mm-merge"); } else { a.merge(std::move(b),filter); verdictMM(a,A,B,notF,"mm-merge-filter"); } }
  if(sc==8){ Concurrent_LP_Set<K,true> a(ca,0,h1),b(cb,0,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i]); a.unsafe_merge(std::move(b),filter); verdict(a,A,B,notF,"cset-merge-filter"); verdictCells(a,A,B,notF,"cset-merge-filter"); }
  if(sc==9||sc==10){ Concurrent_LP_Map<K,W> a(ca,0,h1),b(cb,0,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i],A.v[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i],B.v[i]);
    if(sc==9){ a.unsafe_merge(std::move(b)); verdictMap(a,A,B,all,"cmap-merge"); } else { a.unsafe_merge(std::move(b),filter); verdictMap(a,A,B,notF,"cmap-merge-filter"); } }
  if(sc==11){ Concurrent_LP_MultiMap<K,W> a(ca,0,h1),b(cb,0,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i],A.v[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i],B.v[i]); a.unsafe_merge(std::move(b),filter); verdictMM(a,A,B,notF,"cmm-merge-filter"); }
  if(sc==12){ Concurrent_LP_Set<K,true> a(ca,0,h1); for(int i=0;i<A.n;i++) a.insert(A.k[i]); Concurrent_LP_Set<K,true> c(ca,0,h1); c.unsafe_copy(a); Keys none; verdict(c,A,none,all,"cset-copy"); LP_Set<K,true> s(std::move(c)); verdict(s,A,none,all,"cset-to-set"); Concurrent_LP_Set<K,true> d(std::move(s)); verdict(d,A,none,all,"set-to-cset"); }
  // the same on non-growing containers, filled beyond half their capacity
  if(sc==13||sc==14){ LP_Set<K> a(ca,h1),b(cb,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i]); if(sc==13){ a.merge(std::move(b)); verdict(a,A,B,all,"fixed-set-merge"); } else { a.merge(std::move(b),filter); verdict(a,A,B,notF,"fixed-set-merge-filter"); } }
  if(sc==15){ LP_Map<K,W> a(ca,h1),b(cb,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i],A.v[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i],B.v[i]); a.merge(std::move(b)); verdictMap(a,A,B,all,"fixed-map-merge"); }
  if(sc==16){ LP_MultiMap<K,W> a(ca,h1),b(cb,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i],A.v[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i],B.v[i]); a.merge(std::move(b)); verdictMM(a,A,B,all,"fixed-mm-merge"); }
  if(sc==17){ Concurrent_LP_Set<K,false> a(ca,0,h1),b(cb,0,h2); for(int i=0;i<A.n;i++) a.insert(A.k[i]); for(int i=0;i<B.n;i++) b.insert(B.k[i]); a.unsafe_merge(std::move(b),filter); verdict(a,A,B,notF,"fixed-cset-merge-filter"); }
  sx::reach("end");
}
