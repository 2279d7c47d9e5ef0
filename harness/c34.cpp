// C34/C35/C36/C43: border extraction, merge, neighbour repair and the whole divide-and-conquer triangulation, with a brute-force integer base solver in CGAL's place.
// params: D, op (0 border, 1 links after merging, 2 simplices after merging, 3 whole run), configuration, moved point, bits per axis, schedule, border partition / splitter, R, depth
#include "tri.h"
#include <queue>
#include <set>
#include <map>
#include <atomic>
#include <functional>
#include <thread>
#include <csignal>
#include <array>
#include <algorithm>
#include <unordered_map>
#define protected public
#define private public
#include "Triangulator.h"
#include "CGALTriangulator.h"
#include "DCTriangulator.h"
#undef protected
#undef private
#include "utils/Timings.h"
#include "utils/Logger.h"
#include "utils/VTuneAdapter.h"
template<uint D> struct Geo { std::vector<V<D>> fin,inf; const V<D>&at(tIdType i) const { return dPoint<D,double>::isFinite(i)?fin[i]:inf[i-dPoint<D,double>::cINF]; } static Geo&get(){ static Geo g; return g; } };
static int doRot=0,standIns=0;
// ids of the points: 1,2,3.. or (param 12) 1, 1+s, 1+2s..; with s=64 fingerprints of simplices and faces collide wherever the vertex numbers agree in xor
static tIdType pid(long i){ long s=(long)symx_param_(12); return 1+(tIdType)i*(tIdType)(s?s:1); }
template<uint D,class P,class C> static dSimplices<D,P> baseSolve(const C&ids){ std::vector<tIdType> v; for(tIdType i:ids) v.push_back(i); std::sort(v.begin(),v.end()); Tri<D> t; for(tIdType i:v) t.add(i,Geo<D>::get().at(i)); t.delaunay(); size_t m=t.cells.size(); tIdType s=dSimplices<D,P>::simplexID.fetch_add(m+1); dSimplices<D,P> DT(s,s+m+1,m); standIns++;
  for(size_t a=0;a<m;a++){ auto x=t.simplex(a,s,doRot); dSimplex<D,P> y; y.id=x.id; for(uint i=0;i<=D;i++){ y.vertices[i]=x.vertices[i]; y.neighbors[i]=x.neighbors[i]; } y.genFingerprint(); if(!y.isFinite()) DT.convexHull.push_back(y.id); DT.unsafe_at(y.id)=y; } return DT; }
template<uint D,typename P,bool Q> CGALTriangulator<D,P,Q>::CGALTriangulator(const dBox<D,P>&b,dPoints<D,P>&p,const uint g):Triangulator<D,P>(b,p),gridOccupancy(g){}
template<uint D,typename P,bool Q> dSimplices<D,P> CGALTriangulator<D,P,Q>::_triangulate(const Point_Ids&ids,const dBox<D,P>&,const std::string){ return baseSolve<D,P>(ids); }
#include "src/lib/DCTriangulator.cpp"
#ifdef LB
#include <numeric>
#include <variant>
#include "load_balancing/BoxUtils.h"
#include "load_balancing/sample_partitioner/Sampler.h"
#include "load_balancing/monitors/UnpluggedMonitor.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/kWaySplitter.h"
#include "load_balancing/OldPartitionerPartitioner.h"
#define protected public
#define private public
#include "LoadBalancedDCTriangulator.h"
#undef protected
#undef private
template<uint D> using DCT=LoadBalancing::DCTriangulator<D,double>;
template<uint D> static DCT<D> makeDC(const dBox<D,double>&b,dPoints<D,double>&ps){ return DCT<D>(b,ps,1,nullptr,1,false,false,false); }
template<uint D> static void border(DCT<D>&dc,const dSimplices<D,double>&DT,const Partitioning<D,double>&P,uint i,Concurrent_Growing_Point_Ids&ep,Concurrent_Growing_Simplex_Ids&es){ std::vector<std::unique_ptr<LoadBalancing::IntersectionChecker<D,double>>> ic; for(auto&p:P) ic.push_back(std::make_unique<LoadBalancing::BoundsIntersectionChecker<D,double>>(p.bounds)); dc.getEdge(DT,P,ic,i,ep,es); }
// a tree of any shape over any division of the points, its regions made by one of the partition makers
template<uint D> struct Given: LoadBalancing::Partitioner<D,double,LoadBalancing::UnpluggedMonitor> { std::map<tIdType,int> of; int parts=0,maker=0; bool deep=false; double width=4;
  typedef LoadBalancing::PartitionTree<D,double> T; typedef typename T::ChildContainer CC;
  T tree(dPoints<D,double>&ps,const Point_Ids&ids,std::unique_ptr<LoadBalancing::IntersectionChecker<D,double>> ic,std::vector<std::vector<int>> groups){ T t; t.intersectionChecker=std::move(ic); if(groups.size()<2){ t.attachment=ids; return t; }
    auto part=[&](tIdType i){ for(size_t k=0;k<groups.size();k++) for(int p:groups[k]) if(of.at(i)==p) return k; return groups.size(); }; LoadBalancing::Grid<D,double> g(width); std::vector<LoadBalancing::IntersectionPartition<D,double>> r; size_t n=groups.size();
    if(maker==0) r=LoadBalancing::BoundsIntersectionPartitionMaker<D,double>()(ps,ids,n,part); else if(maker==1) r=LoadBalancing::GridIntersectionPartitionMaker<D,double>(g)(ps,ids,n,part); else r=LoadBalancing::AccurateGridIntersectionPartitionMaker<D,double>(g)(ps,ids,n,part);
    CC c; for(size_t k=0;k<n;k++){ std::vector<std::vector<int>> sub; for(int p:groups[k]) sub.push_back({p}); c.push_back(tree(ps,r[k].pointIds,std::move(r[k].intersectionChecker),sub)); } t.attachment=std::move(c); return t; }
  T partition(const dBox<D,double>&b,dPoints<D,double>&ps,const Point_Ids&ids,LoadBalancing::UnpluggedMonitor&) override { std::vector<std::vector<int>> g; if(deep) for(int p=0;p<parts;p+=2){ g.push_back({p}); if(p+1<parts) g.back().push_back(p+1); } else for(int p=0;p<parts;p++) g.push_back({p}); return tree(ps,ids,std::make_unique<LoadBalancing::BoundsIntersectionChecker<D,double>>(b),g); }
  std::string info() const override { return "given"; } };
// no point lies within the convex hull of another part (elsewhere the border walk, which starts at the hull, cannot reach it: known finding C43-enclosed)
template<uint D> static void separated(const std::map<tIdType,int>&ofId,int n){ std::vector<int> of(n+1); for(int i=1;i<=n;i++) of[i]=ofId.at(pid(i-1)); auto&g=Geo<D>::get(); bool ok=true; for(int b=1;b<=n;b++) for(int i=1;i<=n;i++) for(int j=i+1;j<=n;j++) for(int k=j+1;k<=n;k++) for(int l=(D==3?k+1:n);l<=n;l++){ int v[4]={i,j,k,l}; bool rel=true; for(uint x=0;x<=D;x++) rel&=v[x]!=b&&of.at(v[x])==of.at(i)&&of.at(v[x])!=of.at(b); if(!rel) continue; bool pos=true,neg=true; V<D> t[D+1]; for(uint x=0;x<=D;x++) t[x]=g.at(pid(v[x]-1)); for(uint x=0;x<=D;x++){ V<D> o=t[x]; t[x]=g.at(pid(b-1)); I r=orient(t); t[x]=o; pos&=r>=0; neg&=r<=0; } ok&=!(pos|neg); } sx::assume(ok); }
#else
template<uint D> using DCT=DCTriangulator<D,double>;
template<uint D> static DCT<D> makeDC(const dBox<D,double>&b,dPoints<D,double>&ps){ return DCT<D>(b,ps,1,Partitioner<D,double>::make('c'),1,false,false,false); }
template<uint D> static void border(DCT<D>&dc,const dSimplices<D,double>&DT,const Partitioning<D,double>&P,uint i,Concurrent_Growing_Point_Ids&ep,Concurrent_Growing_Simplex_Ids&es){ dc.getEdge(DT,P,i,ep,es); }
#endif
struct Cfg { int n,parts; int pt[12][4]; int box[4][6]; }; // point: coordinates, partition; box: low, high
static const Cfg C2[]={
 {6,2,{{-9,1,0},{-5,-7,0},{-4,6,0},{4,-2,1},{7,5,1},{10,-6,1}},{{-20,-20,-1,20},{1,-20,20,20}}},
 {6,4,{{-9,3,2},{-5,-7,0},{4,-3,1},{7,5,3},{10,-8,1},{-3,8,2}},{{-20,-20,0,0},{0,-20,20,0},{-20,0,0,20},{0,0,20,20}}},
 {8,2,{{-60,1,0},{-55,-6,0},{-53,7,0},{-66,-4,0},{-64,9,0},{60,-2,1},{57,6,1},{66,-5,1}},{{-80,-20,-40,20},{40,-20,80,20}}},
 {7,3,{{-40,1,0},{-36,-6,0},{-33,7,0},{1,-3,1},{3,5,1},{40,-4,2},{44,6,2}},{{-50,-20,-20,20},{-20,-20,20,20},{20,-20,50,20}}},
 {6,2,{{-12,-1,0},{-4,-9,0},{-4,8,0},{-6,1,0},{3,0,1},{9,4,1}},{{-20,-20,-1,20},{1,-20,20,20}}}};
static const Cfg C3[]={
 {4,2,{{-9,1,2,0},{-5,-7,-3,0},{4,-2,5,1},{7,5,-4,1}},{{-20,-20,-20,-1,20,20},{1,-20,-20,20,20,20}}},
 {5,2,{{-50,1,2,0},{-45,-7,-3,0},{-47,3,-6,0},{44,-2,5,1},{47,5,-4,1}},{{-60,-20,-20,-40,20,20},{40,-20,-20,60,20,20}}}};
static void schedule(long s){ auto&c=tbb::cfg(); c.mode=0; c.slots=1; if(s==1){ c.mode=2; c.slots=2; c.budget=3; } if(s==2){ c.chooseDoOrder=true; c.doBudget=(long)symx_param_(1)==0?2:1; } if(s==3){ c.mode=1; c.budget=1; c.slots=2; } if(s==4){ c.mode=2; c.budget=4; c.slots=2; c.chooseOrder=true; c.budget=2; } if(s==5){ c.mode=3; c.budget=1; c.slots=2; } if(s==6){ c.mode=2; c.slots=2; c.chooseSlot=true; } if(s==7){ c.mode=2; c.slots=2; } doRot=s==1?2:(int)s%2; }
template<uint D> static void compare(const dSimplices<D,double>&DT,const Tri<D>&t,bool sets,bool links){ size_t m=t.cells.size(); const tIdType NO=dSimplex<D,double>::cINF; std::vector<tIdType> at(m,NO); size_t n=0; bool extra=false,dup=false;
  for(const auto&s:DT){ n++; bool f=false; for(size_t a=0;a<m&&!f;a++){ bool eq=true; for(uint i=0;i<=D;i++) eq&=s.vertices[i]==t.id[t.cells[a][i]]; if(eq){ f=true; dup|=at[a]!=NO; at[a]=s.id; } } extra|=!f; }
  bool missing=false; for(size_t a=0;a<m;a++) missing|=at[a]==NO;
  if(sets){ sx::check(!missing,"no simplex of the whole triangulation is missing"); sx::check(!extra,"no simplex beyond the whole triangulation"); sx::check(!dup,"no simplex twice"); sx::check(DT.exact_size()>=m,"size");
    std::vector<tIdType> h(DT.convexHull.begin(),DT.convexHull.end()),w; for(size_t a=0;a<m;a++){ bool inf=false; for(uint i=0;i<=D;i++) inf|=!dPoint<D,double>::isFinite(t.id[t.cells[a][i]]); if(inf) w.push_back(at[a]); } std::sort(h.begin(),h.end()); std::sort(w.begin(),w.end()); sx::check(h==w,"the hull list names exactly the infinite simplices, once"); }
  if(links&&!missing){ bool ok=true; for(size_t a=0;a<m;a++){ const auto&s=DT.unsafe_at(at[a]); for(uint i=0;i<=D;i++) ok&=s.neighbors[i]==(t.nb[a][i]<0?NO:at[t.nb[a][i]]); } sx::check(ok,"every simplex is linked across each face to exactly the simplex sharing it"); } }
// triangulations carry marks left by earlier passes, none above the triangulation's own mark
static long stale=0;
template<class T> static void oldMarks(T&DT){ if(!stale) return; DT.mark=6; for(auto&s:DT) s.mark=(tMarkType)sx::u("mark",0,6); }
template<class T> static void marksBounded(const T&DT){ bool ok=true; for(const auto&s:DT) ok&=s.mark<=DT.mark; sx::check(ok,"no simplex carries a mark above the triangulation's"); }
template<uint D> static Tri<D> wholeTri(const std::vector<tIdType>&ids){ Tri<D> t; for(tIdType i:ids) t.add(i,Geo<D>::get().at(i)); t.delaunay(); return t; }
template<uint D> static void run(){ long op=(long)symx_param_(1); const Cfg&c=D==2?C2[symx_param_(2)]:C3[symx_param_(2)]; long mv=(long)symx_param_(3),b=(long)symx_param_(4),part=(long)symx_param_(6),R=(long)symx_param_(7); stale=(long)symx_param_(10); schedule((long)symx_param_(5)); auto&g=Geo<D>::get();
  dPoints<D,double> ps; ps.resize(pid(c.n-1)+1); g.fin.resize(pid(c.n-1)+1); for(int i=0;i<c.n;i++){ double x[D]; for(uint d=0;d<D;d++){ x[d]=c.pt[i][d]; if(i==mv) x[d]+=sx::fx("p",-(1l<<(b-1)),(1l<<(b-1))-1); g.fin[pid(i)].v[d]=(long)x[d]; } if(i==mv){ bool in=true; const int*bx=c.box[c.pt[i][D]]; for(uint d=0;d<D;d++) in&=(x[d]>=bx[d])&(x[d]<=bx[D+d]); sx::assume(in); } setPoint<D>(ps,pid(i),x); }
  std::vector<tIdType> all; for(int i=0;i<c.n;i++) all.push_back(pid(i)); const uint NI=dPoint<D,double>::nINF; g.inf.resize(NI); for(uint i=0;i<NI;i++){ V<D> v=cornerAt<D>(i,R); double x[D]; for(uint d=0;d<D;d++) x[d]=(double)(long)v.v[d]; g.inf[i]=v; setPoint<D>(ps,infId<D>(i),x); all.push_back(infId<D>(i)); }
  dBox<D,double> bounds; for(uint d=0;d<D;d++){ bounds.low[d]=-100; bounds.high[d]=100; }
  auto dc=makeDC<D>(bounds,ps);
  Partitioning<D,double> P; for(int p=0;p<c.parts;p++){ Point_Ids ids(64); for(int i=0;i<c.n;i++) if(c.pt[i][D]==p) ids.insert(pid(i)); for(uint i=0;i<NI;i++) ids.insert(infId<D>(i)); dBox<D,double> bx; for(uint d=0;d<D;d++){ bx.low[d]=c.box[p][d]; bx.high[d]=c.box[p][D+d]; } P.emplace_back(ids,bx,(uint)p); }
  if(op==0){ auto DT=baseSolve<D,double>(P[part].points); oldMarks(DT); Concurrent_Growing_Point_Ids ep(4); Concurrent_Growing_Simplex_Ids es(4); border<D>(dc,DT,P,(uint)part,ep,es); marksBounded(DT);
    size_t n=0; std::vector<const dSimplex<D,double>*> S; for(auto&s:DT){ S.push_back(&s); n++; } std::vector<bool> sel(n,false),must(n,false); bool unsure=false; auto ix=[&](tIdType id){ for(size_t i=0;i<n;i++) if(S[i]->id==id) return i; return n; };
    auto touches=[&](size_t k)->int{ V<D> w[D+1]; for(uint i=0;i<=D;i++) w[i]=g.at(S[k]->vertices[i]); V<D> m; I den=2*orient(w); if constexpr(D==2){ V<2> a=sub<2>(w[1],w[0]),e=sub<2>(w[2],w[0]); I A=dt<2>(a,a),B=dt<2>(e,e); m={{A*e.v[1]-B*a.v[1],B*a.v[0]-A*e.v[0]}}; } else { V<3> a=sub<3>(w[1],w[0]),e=sub<3>(w[2],w[0]),f=sub<3>(w[3],w[0]); I q[3]={dt<3>(a,a),dt<3>(e,e),dt<3>(f,f)}; auto cr=[](const V<3>&x,const V<3>&y){ return V<3>{{x.v[1]*y.v[2]-x.v[2]*y.v[1],x.v[2]*y.v[0]-x.v[0]*y.v[2],x.v[0]*y.v[1]-x.v[1]*y.v[0]}}; }; V<3> u=cr(e,f),v=cr(f,a),z=cr(a,e); for(int d=0;d<3;d++) m.v[d]=q[0]*u.v[d]+q[1]*v.v[d]+q[2]*z.v[d]; }
      if(true){ bool neg=den<0; for(uint d=0;d<D;d++) m.v[d]=neg?-m.v[d]:m.v[d]; den=neg?-den:den; } I r2=dt<D>(m,m); bool t=false,close=false; for(int p=0;p<c.parts;p++) if(p!=part){ I d2=0; for(uint d=0;d<D;d++){ I x=w[0].v[d]*den+m.v[d],lo=(I)c.box[p][d]*den,hi=(I)c.box[p][D+d]*den; I e=x<lo?lo-x:(x>hi?x-hi:(I)0); d2+=e*e; } t|=d2<=r2; I df=d2-r2; df=df<0?-df:df; close|=(df<<30)<r2; } sx::assume(!close); return t; };
    // worklist over selected simplices
    std::vector<size_t> q; std::vector<bool> seen(n,false); for(auto h:DT.convexHull){ size_t i=ix(h); if(i<n&&!seen[i]){ seen[i]=true; q.push_back(i); } } while(!q.empty()){ size_t i=q.back(); q.pop_back(); if(!touches(i)) continue; must[i]=true; for(auto nb:S[i]->neighbors) if(nb!=dSimplex<D,double>::cINF){ size_t j=ix(nb); if(j<n&&!seen[j]){ seen[j]=true; q.push_back(j); } } }
    auto hs=es.handle(); size_t cnt=0; for(size_t i=0;i<n;i++){ bool in=hs.contains(S[i]->id); cnt+=must[i]; sx::check(in==must[i],"exactly the reachable simplices whose sphere reaches another partition are selected"); } sx::check(hs.size()==cnt,"nothing else is selected");
    auto hp=ep.handle(); size_t pc=0; for(auto id:all){ bool want=!dPoint<D,double>::isFinite(id); for(size_t i=0;i<n;i++) if(must[i]) want|=S[i]->contains(id); pc+=want; sx::check((hp.contains(id)==1)==want,"exactly their vertices and the infinite points are border points"); } sx::check(hp.size()==pc,"no other border point"); }
  if(op==1||op==2){ schedule(0); doRot=(int)(long)symx_param_(5)%2; std::vector<dSimplices<D,double>> parts; parts.resize(c.parts); for(int p=0;p<c.parts;p++) { parts[p]=baseSolve<D,double>(P[p].points); oldMarks(parts[p]); } Concurrent_Growing_Point_Ids ep(4); Concurrent_Growing_Simplex_Ids es(4); for(int p=0;p<c.parts;p++) border<D>(dc,parts[p],P,(uint)p,ep,es);
    Point_Ids pe(std::move(ep.data())); auto edge=baseSolve<D,double>(pe); oldMarks(edge); auto want=wholeTri<D>(all); schedule((long)symx_param_(5)); auto DT=dc.mergeTriangulation(std::move(parts),Simplex_Ids(std::move(es.data())),std::move(edge),P,"0"); marksBounded(DT); compare<D>(DT,want,op==2,op==1); }
  sx::reach("end"); }
template<uint D> static void whole(){ const Cfg&c=D==2?C2[symx_param_(2)]:C3[symx_param_(2)]; long mv=(long)symx_param_(3),b=(long)symx_param_(4),off=(long)symx_param_(7); schedule((long)symx_param_(5)); auto&g=Geo<D>::get(); 
  dPoints<D,double> ps; ps.resize(pid(c.n-1)+1); g.fin.resize(pid(c.n-1)+1); std::vector<tIdType> all; Point_Ids ids(64); for(int i=0;i<c.n;i++){ double x[D]; for(uint d=0;d<D;d++){ x[d]=c.pt[i][d]+off; if(i==mv) x[d]+=sx::fx("p",-(1l<<(b-1)),(1l<<(b-1))-1); g.fin[pid(i)].v[d]=(long)x[d]; } setPoint<D>(ps,pid(i),x); all.push_back(pid(i)); ids.insert(pid(i)); } if(symx_param_(12)) for(tIdType q=1;q<pid(c.n-1);q++) if((q-1)%(tIdType)symx_param_(12)) { double x[D]; for(uint d=0;d<D;d++) x[d]=c.pt[mv==0][d]+off; setPoint<D>(ps,q,x); }
  dBox<D,double> bounds; for(uint d=0;d<D;d++){ bounds.low[d]=off-100; bounds.high[d]=off+100; }
#ifdef LB
  // partition tree: 0..2 any tree with regions by that maker, 3 k-way splitter, other: a recursive splitter of the plain triangulator
  long pk=(long)symx_param_(6); std::unique_ptr<LoadBalancing::Partitioner<D,double,LoadBalancing::UnpluggedMonitor>> pt; if(pk<3){ auto q=std::make_unique<Given<D>>(); q->parts=c.parts; q->maker=(int)pk; q->deep=symx_param_(8)>1; for(int i=0;i<c.n;i++) q->of[pid(i)]=symx_param_(11)==2?i==3:symx_param_(11)==1?(int)sx::conc(sx::choose("part",(unsigned)c.parts)):c.pt[i][D]; if(symx_param_(11)==1){ separated<D>(q->of,c.n); if(q->deep){ auto up=q->of; for(auto&e:up) e.second/=2; separated<D>(up,c.n); } } if(symx_param_(11)==1) for(int p=0;p<c.parts;p++){ bool some=false; for(auto&e:q->of) some|=e.second==p; sx::assume(some); } pt=std::move(q); } else if(pk==3) pt=std::make_unique<LoadBalancing::KWaySplitter<D,double,LoadBalancing::UnpluggedMonitor>>((size_t)symx_param_(8)); else pt=std::make_unique<LoadBalancing::OldPartitionerPartitioner<D,double,LoadBalancing::UnpluggedMonitor>>(Partitioner<D,double>::make((char)pk),(size_t)symx_param_(8),(size_t)3);
  DCT<D> dc(bounds,ps,1,std::move(pt),1,(symx_param_(9)&2)!=0,(symx_param_(9)&1)!=0,true);
#else
  DCT<D> dc(bounds,ps,(uint)symx_param_(8),Partitioner<D,double>::make((char)symx_param_(6)),1,false,symx_param_(9),true);
#endif
  const uint NI=dPoint<D,double>::nINF; g.inf.resize(NI); for(uint i=0;i<NI;i++){ for(uint d=0;d<D;d++) g.inf[i].v[d]=(long)ps[infId<D>(i)].coords[d]; { V<D> p=cornerAt<D>(i,0); for(uint d=0;d<D;d++){ g.inf[i].v[d]+=p.v[d]; ps[infId<D>(i)].coords[d]+=(double)(long)p.v[d]; } } all.push_back(infId<D>(i)); ids.insert(infId<D>(i)); }
  auto want=wholeTri<D>(all); auto DT=dc.triangulate(all); compare<D>(DT,want,true,true); sx::check(standIns>1,"the input was divided"); sx::reach("end"); }
extern "C" void symx_main(){ bool w=symx_param_(1)==3; if(symx_param_(0)==2){ if(w) whole<2>(); else run<2>(); } else { if(w) whole<3>(); else run<3>(); } }
