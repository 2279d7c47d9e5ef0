// C25: the sample graph.  params: D, op (0 graph, 1 sample, 2 sampler whole), sample points / finite points, simplices / sample size, bits per axis, symbolic points, schedule, weights (0 uniform, 1 linear, 2 wide range), configuration, budget, first simplex fixed / blocks, sequential builder, first simplex id
#include "geo.h"
#include <numeric>
#include <set>
#include <map>
#include <random>
#include <fstream>
#include <unordered_map>
#include "utils/Timings.h"
#include "utils/VTuneAdapter.h"
#include <kaHIP_interface.h>
#include <tbb/concurrent_vector.h>
#include <tbb/enumerable_thread_specific.h>
#include "CGALTriangulator.h"
#include "load_balancing/VectorOperations.h"
#include "load_balancing/BoxUtils.h"
#include "datastructures/LP_Map.hxx"
#define private public
#include "load_balancing/sample_partitioner/Sampler.h"
#undef private
using namespace LoadBalancing;
static std::vector<int> gPart; static long gNP;
void kaffpa(int*n,int*vw,int*xadj,int*aw,int*adj,int*np,double*,bool,int,int,int,int*cut,int*part){ gPart.clear(); for(int i=0;i<*n;i++){ part[i]=(int)sx::conc(sx::choose("block",(unsigned)*np)); gPart.push_back(part[i]); } gNP=*np; sx::check(vw==nullptr,"no node weights"); *cut=0; }
static std::vector<tIdType> gSample;
template<uint D,typename P,bool Q> CGALTriangulator<D,P,Q>::CGALTriangulator(const dBox<D,P>&b,dPoints<D,P>&p,const uint g):Triangulator<D,P>(b,p),gridOccupancy(g){}
template<uint D,typename P,bool Q> dSimplices<D,P> CGALTriangulator<D,P,Q>::_triangulate(const Point_Ids&ids,const dBox<D,P>&,const std::string){ gSample.clear(); for(tIdType i:ids) gSample.push_back(i); std::sort(gSample.begin(),gSample.end()); return dSimplices<D,P>(0,0,0); }
struct Any { typedef uint32_t result_type; static constexpr result_type min(){ return 0; } static constexpr result_type max(){ return 0xffffffffu; } result_type operator()(){ return (result_type)sx::conc(sx::choose("random",16))*0x10000000u+1234567u; } };
static const int PT[2][6][3]={{{0,0,0},{3,1,-2},{-4,2,1},{5,-3,4},{1,6,-5},{-2,-5,3}},{{-100,30,70},{-100,41,60},{99,50,80},{12,-33,-20},{13,10,-40},{0,-12,5}}};
template<uint D> static void run(){ typedef dPoint<D,double> P; long op=(long)symx_param_(1),n=(long)symx_param_(2),m=(long)symx_param_(3),bits=(long)symx_param_(4),nsym=(long)symx_param_(5),sch=(long)symx_param_(6),ew=(long)symx_param_(7),cf=(long)symx_param_(8);
  dPoints<D,double> ps; ps.resize(n+2); for(long i=1;i<=n;i++) for(uint d=0;d<D;d++){ double x=PT[cf][i-1][d]; if(i<=nsym) x+=sx::fx("x",-(1l<<(bits-1)),(1l<<(bits-1))-1); ps.at(i).coords[d]=x; }
  auto wf=[ew](double d){ return ew==1?1.0-d:ew==2?1000.0*(1.0-d):-4*d; }; auto size=[m](size_t){ return (size_t)m; }; Sampler<D,double> S=ew?Sampler<D,double>(1,size,FAST,0.05,wf):Sampler<D,double>(1,size,FAST,0.05);
  auto&c=tbb::cfg(); c.mode=0; c.slots=1; if(sch==1){ c.mode=2; c.slots=2; c.budget=3; c.chooseSlot=true; } if(sch==2){ c.mode=3; c.slots=2; c.budget=(int)symx_param_(9); }
  const double maxd=80000;
  if(op==0){ // any m simplices over n sample points and two infinite ones
    std::vector<tIdType> v; for(long i=1;i<=n;i++) v.push_back((tIdType)i); v.push_back(P::cINF); v.push_back(P::cINF+1); std::unordered_map<tIdType,size_t> tr; for(long i=0;i<n;i++) tr[v[i]]=(size_t)((i+1)%n);
    long o=(long)symx_param_(12); dSimplices<D,double> DT(o,o+m,m); std::vector<std::vector<bool>> adj(n,std::vector<bool>(n,false)); for(long s=0;s<m;s++){ dSimplex<D,double> x; x.id=o+s; std::vector<size_t> ix; size_t lo=0; for(uint k=0;k<=D;k++){ size_t left=v.size()-(D+1)+k; size_t i=s==0&&symx_param_(10)?(size_t)k:lo+sx::conc(sx::choose("vertex",(unsigned)(left-lo+1))); lo=i+1; ix.push_back(i); x.vertices[k]=v[i]; } x.neighbors.fill(dSimplex<D,double>::cINF); x.genFingerprint(); DT.unsafe_at(o+s)=x; for(size_t a:ix) for(size_t b:ix) if(a!=b&&a<(size_t)n&&b<(size_t)n) adj[tr[v[a]]][tr[v[b]]]=true; }
    std::unordered_map<tIdType,size_t> tr2=tr; Graph g=symx_param_(11)?S.makeGraph_sequential(DT,ps,tr2,maxd):S.makeGraph(DT,ps,tr2,maxd); c.mode=0; c.slots=1; c.chooseSlot=false;
    sx::check(g.size()==(size_t)n&&g.nodeRecords.size()==(size_t)n+1,"one node per sample point"); bool rec=g.nodeRecords[0]==0&&g.nodeRecords.back()==(int)g.adjacency.size()&&g.adjacency.size()==g.edgeWeights.size(); for(long i=0;i<n;i++) rec&=g.nodeRecords[i]<=g.nodeRecords[i+1]; sx::check(rec,"compressed form"); if(!rec) return;
    std::vector<std::vector<int>> cnt(n,std::vector<int>(n,0)),w(n,std::vector<int>(n,0)); bool in=true; for(long i=0;i<n;i++) for(int e=g.nodeRecords[i];e<g.nodeRecords[i+1];e++){ int j=g.adjacency[e]; in&=j>=0&&j<n&&j!=i; if(j>=0&&j<n){ cnt[i][j]++; w[i][j]=g.edgeWeights[e]; } } sx::check(in,"entries name other nodes"); bool once=true; for(long i=0;i<n;i++) for(long j=0;j<n;j++) once&=cnt[i][j]==(adj[i][j]?1:0); sx::check(once,"exactly one entry per direction for points sharing a simplex");
    bool sym=true,pos=true,mono=true; std::vector<tIdType> inv(n); for(auto&t:tr) inv[t.second]=t.first; auto d2=[&](long i,long j){ double q=0; for(uint d=0;d<D;d++){ double x=ps.at(inv[i]).coords[d]-ps.at(inv[j]).coords[d]; q+=x*x; } return q; }; for(long i=0;i<n;i++) for(long j=0;j<n;j++) if(adj[i][j]){ sym=sym&(w[i][j]==w[j][i]); pos=pos&(w[i][j]>=1)&(w[i][j]<=99); double q=d2(i,j)/maxd; double want=ew?1+98*(ew==3?(4-4*q)/4:1-q):1; mono=mono&(w[i][j]<=want+1e-6)&(w[i][j]>=want-1.000001); } sx::check(sym,"equal weights in both directions"); sx::check(pos,"weights from 1 to 99"); if(ew) sx::check(mono,"weights follow the weight function"); else sx::check(mono,"uniform weights are one"); }
  if(op==1){ Point_Ids ids(16); for(long i=1;i<=n;i++) ids.insert((tIdType)i); for(tIdType q=P::cINF;q!=0;++q) ids.insert(q); Any r; auto s=S.generateSample((size_t)m,ids,r); size_t k=0; bool ok=true; for(auto id:s){ k++; ok&=id>=1&&id<=(tIdType)n; } sx::check(ok,"only finite input points are drawn"); sx::check(k==s.size()&&k==(size_t)std::min(n,m),"as many distinct points as asked for, or all"); auto t=S.generateIdTranslation(s); std::vector<int> seen(k,0); bool tr=t.size()==k; for(auto&x:t){ tr&=s.contains(x.first)==1&&x.second<k; if(x.second<k) seen[x.second]++; } for(int x:seen) tr&=x==1; sx::check(tr,"the sample is numbered without gaps"); }
  if(op==2){ Point_Ids ids(16); for(long i=1;i<=n;i++) ids.insert((tIdType)i); for(tIdType q=P::cINF;q!=0;++q) ids.insert(q); dBox<D,double> b; for(uint d=0;d<D;d++){ b.low[d]=-200; b.high[d]=200; } long k=(long)symx_param_(10); auto x=S(b,ps,ids,(size_t)k); size_t want=(size_t)std::min(n,m); sx::check(x.points.size()==want&&x.partition.size()==want&&x.size()==want,"one entry per sample point"); bool found=gSample.size()==want; for(tIdType id:gSample){ bool f=false; for(auto&p:x.points){ bool eq=true; for(uint d=0;d<D;d++) eq&=p[d]==ps.at(id).coords[d]; f|=eq; } found&=f; } sx::check(found,"the sample's points are those triangulated"); bool pr=true; for(size_t i=0;i<want;i++) pr&=x.partition[i]==(k>1?gPart[i]:0); sx::check(pr,"the partition is the one computed"); sx::check(k<=1||gNP==k,"with as many blocks as asked for"); auto y=x.clone(); sx::check(y.partition==x.partition&&y.graph.adjacency==x.graph.adjacency&&y.graph.nodeRecords==x.graph.nodeRecords&&y.graph.edgeWeights==x.graph.edgeWeights&&y.points.size()==want,"a clone is equal"); }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
