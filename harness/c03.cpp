// C03: LP_MultiMap (sequential) against a plain list of pairs.
#include "common.h"
#include "datastructures/LP_MultiMap.hxx"
typedef uint32_t K; typedef uint32_t W;
static Hasher<K> hs(){ Hasher<K> h; h.a=sx::u32("a")|1; return h; }
struct Model { K k[8]; W v[8]; int n=0; bool has(K x)const{ bool r=false; for(int i=0;i<n;i++) r|=k[i]==x; return r; } uint64_t cnt(K x)const{ uint64_t r=0; for(int i=0;i<n;i++) r+=k[i]==x; return r; } uint64_t cnt(K x,W y)const{ uint64_t r=0; for(int i=0;i<n;i++) r+=(k[i]==x)&(v[i]==y); return r; } };
template<class S> static void lookup(const S&s,const Model&m,K q,W y,const char*w){ uint64_t c=0,cy=0; auto r=s.get(q); size_t g=0; for(auto it=r.first;it!=r.second;++it){ auto x=*it; sx::check(x.first==q,w); c++; cy+=x.second==y; if(++g>s.capacity()) sx::check(false,w); } sx::check(c==m.cnt(q),w); sx::check(cy==m.cnt(q,y),w); }
template<class S> static void content(const S&s,const Model&m,const char*w){
  sx::check(s.size()==(uint64_t)m.n,w); sx::check(s.empty()==(m.n==0),w);
  K q=sx::nz32<K>("q"); W y=sx::u32("y"); bool in=m.has(q); sx::check(s.contains(q)==in,w); sx::check(s.count(q)==(in?1u:0u),w); lookup(s,m,q,y,w);
}
template<class S> static void iteration(const S&s,const Model&m,const char*w){
  uint64_t c=0; K q=sx::nz32<K>("q"); W y=sx::u32("y"); uint64_t cq=0; for(const auto x:s){ c++; cq+=(x.first==q)&(x.second==y); } sx::check(c==(uint64_t)m.n,w); sx::check(cq==m.cnt(q,y),w);
}
template<class S> static void ins(S&s,Model&m,const char*w){ K k=sx::nz32<K>("k"); W v=sx::u32("v"); m.k[m.n]=k; m.v[m.n++]=v; bool r=(m.n&1)?s.insert(k,v):s.insert(std::make_pair(k,v)); sx::check(r,w); }
extern "C" void symx_main(){
  long sc=symx_param_(0), n=symx_param_(1), cap=symx_param_(2);
  Model m; LP_MultiMap<K,W> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"insert-result");
  if(sc==0) content(s,m,"content");
  if(sc==1) iteration(s,m,"iteration");
  if(sc==2){ size_t nc=symx_param_(3); s.rehash(nc); sx::check(s.capacity()>=nc,"rehash-capacity"); content(s,m,"rehash-content"); ins(s,m,"insert-after-rehash"); content(s,m,"content-after-rehash"); }
  if(sc==3){ LP_MultiMap<K,W> d(std::move(s)); content(d,m,"moved-content"); LP_MultiMap<K,W> e(2,hs()); e=std::move(d); ins(e,m,"insert-into-moved"); content(e,m,"moved-content"); }
  sx::reach("end");
}
