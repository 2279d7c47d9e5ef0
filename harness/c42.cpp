// C42: filtering, merging and iterating triangulations: exactly the filtered simplices disappear, everything else stays; fingerprints and the id handlers' point list.
#include "geo.h"
#include "utils/MakeIds.h"
template<uint D> static void run(){ typedef dSimplex<D,double> S; typedef dSimplices<D,double> SS; const tIdType INF=S::cINF;
  long kind=sx::conc(symx_param_(1)); int nb=sx::conc(symx_param_(2)); int len[3]; for(int i=0;i<3;i++) len[i]=sx::conc(symx_param_(3+i)); long hulls=symx_param_(6); 
  auto&c=tbb::cfg(); c.mode=symx_param_(7); c.budget=symx_param_(8); c.slots=2; c.chooseSlot=c.mode!=0;
  tIdType lo[3]; { tIdType at=sx::conc(sx::choose("start",2)); for(int i=0;i<nb;i++){ lo[i]=at; at+=len[i]+sx::conc(sx::choose("gap",2)); } }
  // every id of a block is either unused or holds a simplex with arbitrary vertices
  struct R { tIdType id; bool used,hull,out; tIdType v[4]; uint64_t fp; int b; }; std::vector<R> r; bool wide=symx_param_(9);
  for(int i=0;i<nb;i++) for(int x=0;x<len[i];x++){ R e; e.id=lo[i]+x; e.b=i; e.used=sx::b("used"); e.hull=false; e.out=false; e.fp=0; for(uint d=0;d<D+1;d++) e.v[d]=wide?sx::u64("v"):symx_param_(11)?(d?d+4:1+(tIdType)sx::conc(sx::choose("v",4))):sx::u("v",1,200); r.push_back(e); }
  auto put=[&](SS&s,int b){ for(auto&e:r) if(e.b==b){ S&t=s.unsafe_at(e.id); for(uint d=0;d<D+1;d++){ t.vertices[d]=e.v[d]; t.neighbors[d]=e.v[D-d]; } e.fp=t.genFingerprint(); t.id=e.used?e.id:INF; } };
  auto addhull=[&](SS&s,int b){ for(auto&e:r) if(e.b==b&&e.id&&sx::conc(hulls?sx::choose("hull",2):0)){ sx::assume(e.used); s.convexHull.push_back(e.id); e.hull=true; } };
  auto same=[&](const S&t,const R&e,const char*w){ bool k=(t.id==e.id)&(t.vFingerprint==e.fp); for(uint d=0;d<D+1;d++) k&=(t.vertices[d]==e.v[d])&(t.neighbors[d]==e.v[D-d]); sx::check(k,w); };
  bool full=false; auto verify=[&](SS&s,bool mhull,int hb){ // lookups, iteration forwards, hull
    uint h=0; const SS&cs=s; BlockedArray2Handle<SS,tIdType> hd(s); for(auto&e:r){ bool in=e.used&!e.out; sx::check(s.unsafe_contains(e.id)==in,"contains"); sx::check(cs.contains(e.id,h)==in,"contains"); sx::check(hd.contains(e.id)==in,"contains"); sx::check(s.unsafe_inRange(e.id)&cs.inRange(e.id,h)&hd.inRange(e.id),"inRange"); if(in) same(cs.at(e.id,h),e,"content"); }
    if(full){ tIdType q=sx::u64("q"); bool any=false,ins=false; for(auto&e:r){ any|=e.id==q; ins|=(e.id==q)&e.used&!e.out; } sx::check(cs.inRange(q,h)==any,"inRange"); sx::check(cs.contains(q,h)==ins,"contains"); S probe; probe.id=q; sx::check(cs.contains(probe,h)==ins,"contains"); sx::check(cs.unsafe_inRange(probe)==any,"inRange"); }
    size_t want=0; for(auto&e:r) want+=e.used&!e.out; size_t n=0; tIdType prev=0; for(auto it=cs.begin();it!=cs.end();++it){ const S&t=*it; bool f=false; for(auto&e:r) f|=(e.id==t.id)&e.used&!e.out; sx::check(f,"iteration"); sx::check(n==0||prev<it->id,"iteration-order"); prev=t.id; n++; if(n>r.size()) break; } sx::check(n==want,"iteration");
    n=0; for(auto&t:s){ (void)t; n++; if(n>r.size()) break; } sx::check(n==want,"iteration");
    size_t hw=0; for(auto&e:r) hw+=e.hull&&!e.out&&(mhull||e.b==hb); sx::check(s.convexHull.size()==hw,"hull"); for(auto&e:r) if(e.hull){ size_t k=0; for(auto x:s.convexHull) k+=x==e.id; sx::check(k==(size_t)(!e.out&&(mhull||e.b==hb)),"hull"); } };
  if(kind==0||kind==1){ // fill, filter by a set (kind 0: plain set, 1: concurrent growing set), maybe twice
    SS s(lo[0],lo[0]+len[0],4); for(int i=1;i<nb;i++){ auto&b=s.addBlock(lo[i],lo[i]+len[i]); sx::check(b.min()==lo[i]&&b.max()==lo[i]+len[i],"addBlock"); } for(auto&e:r) sx::check(!s.unsafe_contains(e.id),"fresh"); for(int i=0;i<nb;i++){ put(s,i); addhull(s,i); }
    full=false; verify(s,true,0); int rounds=symx_param_(10); for(int k=0;k<rounds;k++){ if(kind==0){ Simplex_Ids f(16); for(auto&e:r) if(e.id&&!e.out&&sx::conc(sx::choose("drop",2))){ f.insert(e.id); e.out=true; } s.filter(f); }
      else { Concurrent_Growing_Simplex_Ids g(16); { auto f=g.handle(); for(auto&e:r) if(e.id&&!e.out&&sx::conc(sx::choose("drop",2))){ f.insert(e.id); e.out=true; } } s.filter(g.handle()); } verify(s,true,0); }
    SS t(std::move(s)); SS u(0,1,0); u=std::move(t); full=true; verify(u,true,0);
    if(!symx_param_(11)) return; auto fp=u.genFingerprint(); for(uint q=0;q<256;q++){ uint w=0; for(auto&e:r) if(((e.fp&0xFF)==q)&e.used&!e.out) w^=(uint)e.fp; sx::check(fp[q]==w,"fingerprint"); } }
  if(kind==2){ // merge with and without the hull, in either order, then filter
    SS a(lo[0],lo[0]+len[0],2),b(lo[1],lo[1]+len[1],2); for(int i=2;i<nb;i++) b.addBlock(lo[i],lo[i]+len[i]); put(a,0); addhull(a,0); for(int i=1;i<nb;i++){ put(b,i); addhull(b,i); }
    if(nb>2) for(auto&e:r) if(e.b==2) e.b=1; a.mark=sx::u8("ma"); b.mark=sx::u8("mb"); auto ma=a.mark,mb=b.mark;
    bool sw=sx::choose("into",2),mh=sx::choose("hulls",2); SS&x=sw?b:a; x.merge(std::move(sw?a:b),mh); sx::check((x.mark>=ma)&(x.mark>=mb),"mark"); full=true; verify(x,mh,sw); full=false;
    if(symx_param_(10)){ Simplex_Ids f(16); for(auto&e:r) if(e.id&&sx::conc(sx::choose("drop",2))){ f.insert(e.id); e.out=true; } x.filter(f); verify(x,mh,sw); } }
  if(kind==3){ // simplex comparison helpers over arbitrary vertices
    S a,b; for(uint d=0;d<D+1;d++){ a.vertices[d]=sx::u64("a"); b.vertices[d]=sx::u64("b"); if(d){ sx::assume(a.vertices[d-1]<a.vertices[d]); sx::assume(b.vertices[d-1]<b.vertices[d]); } } a.genFingerprint(); b.genFingerprint(); a.id=sx::u64("ia"); b.id=sx::u64("ib");
    bool ev=true; for(uint d=0;d<D+1;d++) ev&=a.vertices[d]==b.vertices[d]; sx::check(a.equalVertices(b)==ev,"equalVertices"); bool oneInf=(a.id==INF)!=(b.id==INF); sx::check((a==b)==(oneInf?ev:a.id==b.id),"equality"); sx::check((a<b)==(a.id<b.id),"order"); tIdType q=sx::u64("q"); sx::check((a==q)==(a.id==q),"id-equality");
    bool fin=true; for(uint d=0;d<D+1;d++) fin&=dPoint<D,double>::isFinite(a.vertices[d]); sx::check(a.isFinite()==fin,"isFinite"); sx::check(S::isFinite(q)==(q!=INF),"isFinite-id");
    std::vector<tIdType> v; int n=sx::conc(sx::choose("n",3)); bool all=true,some=false; for(int i=0;i<n;i++){ tIdType y=sx::u64("y"); bool in=false; for(uint d=0;d<D+1;d++) in|=a.vertices[d]==y; all&=in; some|=in; v.push_back(y); } sx::check(a.containsAll(v)==all,"containsAll"); sx::check(a.containsAny(v)==some,"containsAny"); }
  if(kind==4){ // all ids of a point set
    dPoints<D,double> ps; int n=sx::conc(sx::choose("n",5)); tIdType off=symx_param_(10)?sx::u("off",0,1ull<<40):0; ps.resize(n+1); ps.offset(off); auto ids=makePointIds(ps); size_t cnt=0; for(auto i:ids){ sx::check(ps.contains(i),"point-ids"); cnt++; } sx::check(cnt==(size_t)n+dPoint<D,double>::nINF,"point-ids"); sx::check(ids.size()==cnt,"point-ids"); for(int i=1;i<=n;i++) sx::check(ids.contains(off+i),"point-ids"); for(tIdType i=0;i<dPoint<D,double>::nINF;i++) sx::check(ids.contains(dPoint<D,double>::cINF+i),"point-ids"); }
}
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); sx::reach("end"); }
