// C02: LP_Map (sequential) against a plain association list.
#include "common.h"
#include "datastructures/LP_Map.hxx"
typedef uint32_t K; typedef uint32_t W;
static Hasher<K> hs(){ Hasher<K> h; h.a=sx::u32("a")|1; return h; }
struct Model { K k[8]; W v[8]; int n=0; bool has(K x)const{ bool r=false; for(int i=0;i<n;i++) r|=k[i]==x; return r; } W get(K x)const{ W r=0; for(int i=0;i<n;i++) r=k[i]==x?v[i]:r; return r; } uint64_t distinct()const{ uint64_t d=0; for(int i=0;i<n;i++){ bool s=false; for(int j=0;j<i;j++) s|=k[j]==k[i]; d+=!s; } return d; } };
template<class S> static void content(const S&s,const Model&m,const char*w){
  sx::check(s.size()==m.distinct(),w); sx::check(s.empty()==(m.n==0),w);
  K q=sx::nz32<K>("q"); bool in=m.has(q); sx::check(s.get(q)==m.get(q),w); sx::check(s.contains(q)==in,w); sx::check(s.count(q)==(in?1u:0u),w);
  for(int i=0;i<m.n;i++) sx::check(s.get(m.k[i])==m.get(m.k[i]),w);
}
template<class S> static void iteration(const S&s,const Model&m,const char*w){
  uint64_t c=0; for(const auto x:s){ c++; sx::check(m.has(x.first),w); sx::check(m.get(x.first)==x.second,w); } sx::check(c==m.distinct(),w);
  for(int i=0;i<m.n;i++){ int c1=0; for(const auto x:s) c1+=x.first==m.k[i]; sx::check(c1==1,w); }
}
template<class S> static void ins(S&s,Model&m,const char*w){ K k=sx::nz32<K>("k"); W v=sx::nz32<W>("v"); bool had=m.has(k); m.k[m.n]=k; m.v[m.n++]=v; bool r=(m.n&1)?s.insert(k,v):s.insert(std::make_pair(k,v)); sx::check(r==!had,w); }
extern "C" void symx_main(){
  long sc=symx_param_(0), n=symx_param_(1), cap=symx_param_(2);
  Model m; LP_Map<K,W> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"insert-result");
  if(sc==0) content(s,m,"content");
  if(sc==1) iteration(s,m,"iteration");
  if(sc==2){ size_t nc=symx_param_(3); s.rehash(nc); sx::check(s.capacity()>=nc,"rehash-capacity"); content(s,m,"rehash-content"); ins(s,m,"insert-after-rehash"); content(s,m,"content-after-rehash"); }
  if(sc==3){ LP_Map<K,W> d(std::move(s)); content(d,m,"moved-content"); LP_Map<K,W> e(2,hs()); e=std::move(d); ins(e,m,"insert-into-moved"); content(e,m,"moved-content"); }
  sx::reach("end");
}
