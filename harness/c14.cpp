// C14: dSimplex identity: sorting, equality, containment, neighbourhood and face fingerprints over arbitrary vertex ids.
#include "geo.h"
template<uint D> static void run(long sc){
  typedef dSimplex<D,double> S; const tIdType CI=~0ull-((1u<<D)-1);
  auto mk=[&](std::array<tIdType,D+1>&v,const char*n){ for(uint i=0;i<=D;i++){ v[i]=sx::u64(n); for(uint j=0;j<i;j++) sx::assume(v[i]!=v[j]); } };
  auto rotl=[](uint32_t x)->uint32_t{ uint32_t r=x&31; return r?(x<<r)|(x>>(32-r)):x; };
  std::array<tIdType,D+1> va,vb; mk(va,"a");
  S a(va); for(uint i=0;i<=D;i++) a.neighbors[i]=1000+i;
  sx::check(a.id==S::cINF&&!S::isFinite(a.id)&&a.mark==0,"fresh");
  auto in=[&](const std::array<tIdType,D+1>&v,tIdType x){ bool r=false; for(auto y:v) r|=y==x; return r; };
  if(sc==0){ a.sortVertices(); for(uint i=1;i<=D;i++) sx::check(a.vertices[i-1]<a.vertices[i],"sorted"); uint64_t seen=0; for(uint i=0;i<=D;i++){ uint64_t k=sx::conc(a.neighbors[i])-1000; sx::check(k<=D,"neighbor-kept"); sx::check(a.vertices[i]==va[k],"neighbor-paired"); seen|=1u<<k; } sx::check(seen==(1u<<(D+1))-1,"neighbor-kept");
    // fingerprint independent of order
    S b(va); uint32_t fb=b.genFingerprint(), fa=a.genFingerprint(); sx::check(fa==fb,"fingerprint-order"); sx::check(a.fingerprint()==fa,"fingerprint-stored"); uint32_t f=0; for(auto x:va) f^=rotl((uint32_t)x); sx::check(fa==f,"fingerprint");
  }
  if(sc==4){ for(uint i=1;i<=D;i++) sx::assume(va[i-1]<va[i]); a.vertices=va;
    tIdType q=sx::u64("q"); sx::check(a.contains(q)==in(va,q),"contains");
    bool fin=true; for(auto x:va) fin&=x<CI; sx::check(a.isFinite()==fin,"isFinite");
    std::array<tIdType,2> qs{q,sx::u64("q2")}; sx::check(a.containsAll(qs)==(in(va,qs[0])&in(va,qs[1])),"containsAll"); sx::check(a.containsAny(qs)==(in(va,qs[0])|in(va,qs[1])),"containsAny"); }
  if(sc==1||sc==2){ // both in sorted order (sorting itself is scenario 0); every way for b to share vertices with a, the others fresh
    for(uint i=1;i<=D;i++) sx::assume(va[i-1]<va[i]); a.vertices=va; long mask=sx::conc(sx::choose("shared",1u<<(D+1))), place=sx::conc(sx::choose("place",1u<<(D+1))); sx::assume(__builtin_popcount(mask)==__builtin_popcount(place)); if(symx_param_(2)) sx::assume(__builtin_popcount(mask)==(int)symx_param_(2)-1); uint nx=0;
    for(uint i=0;i<=D;i++){ if(place>>i&1){ while(!(mask>>nx&1)) nx++; vb[i]=va[nx++]; } else { vb[i]=sx::u64("b"); for(uint j=0;j<=D;j++) sx::assume(vb[i]!=va[j]); } if(i) sx::assume(vb[i-1]<vb[i]); } S b(vb); for(uint i=0;i<=D;i++) b.neighbors[i]=2000+i; a.sortVertices(); b.sortVertices(); a.genFingerprint(); b.genFingerprint(); uint sh=0; for(auto x:va) sh+=in(vb,x);
    if(sc==1){ sx::check(a.equalVertices(b)==(sh==D+1),"equalVertices"); sx::check(b.equalVertices(a)==(sh==D+1),"equalVertices"); sx::check(a.countSharedVertices(b)==sh,"shared"); sx::check(b.countSharedVertices(a)==sh,"shared");
      b.id=sx::u64("bid"); sx::check((a==b)==(b.id==S::cINF||sh==D+1),"equality-with-unplaced"); if(b.id!=S::cINF) sx::check((b==a)==(sh==D+1),"equality-with-unplaced"); a.id=sx::u64("aid"); if(a.id!=S::cINF&&b.id!=S::cINF){ sx::check((a==b)==(a.id==b.id),"equality-ids"); sx::check((a<b)==(a.id<b.id),"less"); } tIdType i=sx::u64("i"); sx::check((a==i)==(a.id==i),"equality-id"); }
    else { sx::assume(sh<=D); bool nb=a.isNeighbor(b); sx::check(nb==(sh==D),"isNeighbor"); sx::check(b.isNeighbor(a)==nb,"isNeighbor-symmetric");
      if(sh==D){ // the shared face's fingerprint agrees from either side
        int fa=-1,fb=-1; for(uint i=0;i<=D;i++){ if(!in(vb,a.vertices[i])) fa=i; if(!in(va,b.vertices[i])) fb=i; } sx::check(a.faceFingerprint(fa)==b.faceFingerprint(fb),"face-fingerprint"); sx::check(a.faceFingerprint(fa)!=0,"face-fingerprint-nonzero"); } } }
  if(sc==3){ S b(va); for(uint i=0;i<=D;i++){ a.neighbors[i]=sx::u64("na"); b.neighbors[i]=sx::u64("nb"); } bool e=true; for(uint i=0;i<=D;i++) e&=a.neighbors[i]==b.neighbors[i]; sx::check(a.equalNeighbors(b)==e,"equalNeighbors"); 
    S c(sx::u64("id"),va,a.neighbors); sx::check(c.equalNeighbors(a)&&c.vertices==va&&c.mark==0,"constructor"); for(uint i=0;i<=D;i++){ a.genFingerprint(); uint32_t f=0; for(uint j=0;j<=D;j++) if(j!=i) f^=rotl((uint32_t)va[j]); sx::check(a.faceFingerprint(i)==(f|1),"face-fingerprint"); } }
}
extern "C" void symx_main(){ long sc=sx::conc(symx_param_(1)); if(symx_param_(0)==2) run<2>(sc); else run<3>(sc); sx::reach("end"); }
