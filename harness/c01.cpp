// C01: LP_Set (sequential) against a plain list of keys.
#include "common.h"
#include "datastructures/LP_Set.hxx"
typedef uint32_t K;
static Hasher<K> hs(){ Hasher<K> h; h.a=sx::u32("a")|1; return h; }
struct Model { K k[8]; int n=0; bool has(K x)const{ bool r=false; for(int i=0;i<n;i++) r|=k[i]==x; return r; } uint64_t distinct()const{ uint64_t d=0; for(int i=0;i<n;i++){ bool s=false; for(int j=0;j<i;j++) s|=k[j]==k[i]; d+=!s; } return d; } };
template<class S> static void content(const S&s,const Model&m,const char*w){
  sx::check(s.size()==m.distinct(),w); sx::check(s.empty()==(m.n==0),w);
  for(int i=0;i<m.n;i++) sx::check(s.contains(m.k[i]),w);
  K q=sx::nz32<K>("q"); bool in=m.has(q); sx::check(s.contains(q)==in,w); sx::check(s.count(q)==(in?1u:0u),w);
}
template<class S> static void iteration(const S&s,const Model&m,const char*w){
  uint64_t c=0; for(const auto x:s){ c++; sx::check(m.has(x),w); } sx::check(c==m.distinct(),w);
  for(int i=0;i<m.n;i++){ int c1=0; for(const auto x:s) c1+=x==m.k[i]; sx::check(c1==1,w); }
  int cells=0; for(size_t i=0;i<s.capacity();i++){ cells+=!s.empty(i); sx::check(s.empty(i)==(s.at(i)==0),w); } sx::check((uint64_t)cells==m.distinct(),w);
}
template<class S> static void ins(S&s,Model&m,const char*w){ K k=sx::nz32<K>("k"); bool had=m.has(k); m.k[m.n++]=k; sx::check(s.insert(k)==!had,w); }
extern "C" void symx_main(){
  long sc=sx::conc(symx_param_(0)), n=symx_param_(1), cap=symx_param_(2);
  Model m;
  if(sc==0){ LP_Set<K,true> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"growing-insert-result"); content(s,m,"growing-content"); }
  if(sc==1){ LP_Set<K,true> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"growing-insert-result"); iteration(s,m,"growing-iteration"); }
  if(sc==2){ LP_Set<K,false> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"fixed-insert-result"); content(s,m,"fixed-content"); sx::check(s.capacity()>=(size_t)cap,"fixed-capacity"); }
  if(sc==3){ LP_Set<K,false> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"fixed-insert-result"); iteration(s,m,"fixed-iteration"); }
  if(sc==4){ LP_Set<K,true> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"growing-insert-result"); size_t nc=symx_param_(3); s.rehash(nc); sx::check(s.capacity()>=nc,"rehash-capacity"); content(s,m,"rehash-content"); ins(s,m,"insert-after-rehash"); content(s,m,"content-after-rehash"); }
  if(sc==5){ LP_Set<K,true> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"growing-insert-result"); LP_Set<K,true> c(s); sx::check(c==s,"copy-equal"); content(c,m,"copy-content");
    Model mc=m; ins(c,mc,"insert-into-copy"); content(s,m,"original-after-copy-insert"); sx::check((c==s)==(mc.distinct()==m.distinct()),"copy-differs"); }
  if(sc==6){ LP_Set<K,true> s(cap,hs()); for(int i=0;i<n;i++) ins(s,m,"growing-insert-result"); LP_Set<K,true> d(std::move(s)); content(d,m,"moved-content"); LP_Set<K,true> e(1,hs()); e=std::move(d); content(e,m,"move-assigned-content"); ins(e,m,"insert-into-moved"); content(e,m,"moved-content"); }
  if(sc==7){ // inequality of sets with different contents
    Hasher<K> h=hs(); LP_Set<K,true> s(cap,h),t(cap,h); Model mt; for(int i=0;i<n;i++){ ins(s,m,"growing-insert-result"); ins(t,mt,"growing-insert-result"); } bool eq=m.distinct()==mt.distinct(); for(int i=0;i<n;i++) eq&=mt.has(m.k[i]); sx::check((s==t)==eq,"equality"); }
  if(sc==8){ LP_Set<K,true> s; for(int i=0;i<n;i++) ins(s,m,"default-insert-result"); content(s,m,"default-content"); }
  sx::reach("end");
}
