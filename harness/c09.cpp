// C09: the leaves of every splitting of a container range enumerate the stored elements exactly once.
#include "common.h"
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Bit_Set.hxx"
#include "datastructures/BlockedArray2.hxx"
#include "tbb/parallel_for.h"
#ifdef WITH_GEO
#include "geo.h"
#endif
typedef uint32_t K;
static Hasher<K> hs(){ Hasher<K> h; h.a=sx::u32("a")|1; return h; }
static K key(K x){ return x; } static K key(unsigned long x){ return x; } template<class P> static auto key(const P&p)->decltype((K)p.first){ return p.first; }
template<class C,class R> static void leaves(C&c,R&&range,const K*ks,int n,bool multi,const char*w){
  K got[16]; int g=0; int lv=0;
  tbb::parallel_for(range,[&](const auto&r){ lv++; for(auto it=r.begin();it!=r.end();++it){ if(g<16) got[g]=key(*it); g++; if(g>16) sx::check(false,w); } });
  size_t distinct=0; for(int i=0;i<n;i++){ bool d=false; if(!multi) for(int j=0;j<i;j++) d|=ks[j]==ks[i]; distinct+=!d; }
  sx::check((size_t)g==distinct,w);
  for(int i=0;i<n;i++){ int want=0,have=0; for(int j=0;j<n;j++) want+=ks[j]==ks[i]; if(!multi) want=want>0; for(int j=0;j<g&&j<16;j++) have+=got[j]==ks[i]; sx::check(have==want,w); }
  if(lv>1) sx::reach("split"); }
template<class C,class IT> using RT=_detail::range_type<const C,IT>;
extern "C" void symx_main(){
  long kind=sx::conc(symx_param_(0)), n=symx_param_(1), cap=symx_param_(2), grain=symx_param_(3); auto&cf=tbb::cfg(); cf.mode=symx_param_(4); cf.budget=symx_param_(5); cf.chooseOrder=false;
  K ks[8];
  if(kind<=5){ for(int i=0;i<n;i++) ks[i]=sx::nz32<K>("k"); }
  if(kind==0){ LP_Set<K,false> s(cap,hs()); for(int i=0;i<n;i++) s.insert(ks[i]); leaves(s,_detail::range_type<const LP_Set<K,false>,LP_Set<K,false>::const_iterator>(s,grain),ks,n,false,"set"); if(cap<1000) leaves(s,s.range(),ks,n,false,"set-default-range"); }
  if(kind==1){ LP_Map<K,K> s(cap,hs()); for(int i=0;i<n;i++) s.insert(ks[i],1); leaves(s,_detail::range_type<const LP_Map<K,K>,LP_Map<K,K>::const_iterator>(s,grain),ks,n,false,"map"); }
  if(kind==2){ LP_MultiMap<K,K> s(cap,hs()); for(int i=0;i<n;i++) s.insert(ks[i],1); leaves(s,_detail::range_type<const LP_MultiMap<K,K>,LP_MultiMap<K,K>::const_iterator>(s,grain),ks,n,true,"multimap"); }
  if(kind==3){ Concurrent_LP_Set<K,true> s(cap,0,hs()); for(int i=0;i<n;i++) s.insert(ks[i]); typedef Concurrent_LP_Set<K,true> C; leaves(s,_detail::range_type<const C,C::const_iterator>(s,grain),ks,n,false,"cset"); }
  if(kind==4){ Concurrent_LP_Map<K,K> s(cap,0,hs()); for(int i=0;i<n;i++) s.insert(ks[i],1); typedef Concurrent_LP_Map<K,K> C; leaves(s,_detail::range_type<const C,C::const_iterator>(s,grain),ks,n,false,"cmap"); }
  if(kind==5){ Concurrent_LP_MultiMap<K,K> s(cap,0,hs()); for(int i=0;i<n;i++) s.insert(ks[i],1); typedef Concurrent_LP_MultiMap<K,K> C; leaves(s,_detail::range_type<const C,C::const_iterator>(s,grain),ks,n,true,"cmultimap"); }
  if(kind==6||kind==7){ K L=symx_param_(6),U=symx_param_(7); for(int i=0;i<n;i++){ if(symx_param_(8)){ K c[8]={L,L+1,L/32*32+31,L/32*32+32,L/32*32+33,(L+U)/2,U-2,U-1}; K k=c[sx::choose("k",8)]; sx::assume(k>=L&&k<U); ks[i]=sx::conc(k); } else ks[i]=(K)sx::u("k",L,U-1); }
    if(kind==6){ Bit_Set s(L,U); for(int i=0;i<n;i++) s.insert(ks[i]); leaves(s,_detail::range_type<const Bit_Set,Bit_Set::const_iterator>(s,grain),ks,n,false,"bitset"); }
    else { Concurrent_Bit_Set s(L,U); for(int i=0;i<n;i++) s.insert(ks[i]); typedef Concurrent_Bit_Set C; leaves(s,_detail::range_type<const C,C::const_iterator>(s,grain),ks,n,false,"cbitset"); } }
  if(kind==8){ // plain store: blocks at symbolic positions, elements tagged
    typedef BlockedArray2<K,uint64_t> B; uint64_t len[3]={symx_param_(6),symx_param_(7),symx_param_(8)}; uint64_t lo[3]; uint64_t at=0; for(int i=0;i<n;i++){ at+=symx_param_(9)<100?sx::u("gap",0,symx_param_(9)):(uint64_t[]){0,1,1500}[sx::conc(sx::choose("gap",3))]; lo[i]=at; at+=len[i]; }
    B b(lo[0],lo[0]+len[0]); for(int i=1;i<n;i++) b.addBlock(lo[i],lo[i]+len[i]); int m=0; for(int i=0;i<n;i++) for(uint64_t x=0;x<len[i];x++){ ks[m]=m+1; b.unsafe_at(lo[i]+x)=m+1; m++; }
    leaves(b,_detail::range_type<const B,B::const_iterator>(b,grain),ks,m,false,"store"); }
#ifdef WITH_GEO
  if(kind==9){ typedef dSimplices<2,double> S; uint64_t len[3]={symx_param_(6),symx_param_(7),symx_param_(8)}; uint64_t lo[3]; uint64_t at=0; for(int i=0;i<n;i++){ at+=symx_param_(9)<100?sx::u("gap",0,symx_param_(9)):(uint64_t[]){0,1,1500}[sx::conc(sx::choose("gap",3))]; lo[i]=at; at+=len[i]; }
    S b(lo[0],lo[0]+len[0],0); for(int i=1;i<n;i++) b.addBlock(lo[i],lo[i]+len[i]); int m=0; for(int i=0;i<n;i++) for(uint64_t x=0;x<len[i];x++){ auto&s=b.unsafe_at(lo[i]+x); if(sx::b("valid")){ s.id=lo[i]+x; s.vertices[0]=m+1; ks[m]=m+1; m++; } else s.id=dSimplex<2,double>::cINF; }
    int g=0; uint64_t got[8]; bool mut=symx_param_(10); auto f=[&](const auto&r){ for(auto it=r.begin();it!=r.end();++it){ if(g<8) got[g]=(*it).vertices[0]; g++; if(g>8) sx::check(false,"simplices"); } };
    if(mut) tbb::parallel_for(S::range_type(b,grain),f); else tbb::parallel_for(S::const_range_type(b,grain),f);
    sx::check(g==m,"simplices"); for(int i=0;i<m;i++){ int c=0; for(int j=0;j<g&&j<8;j++) c+=got[j]==ks[i]; sx::check(c==1,"simplices"); } 
    int c2=0; uint64_t pv=0; for(const auto&s:b){ sx::check(c2==0||s.id>pv,"iteration-order"); pv=s.id; c2++; } sx::check(c2==m,"iteration"); }
#endif
  sx::reach("end");
}
