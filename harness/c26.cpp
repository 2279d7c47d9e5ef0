// C26: load-balancing partitioners.  params: D, kind, points, parts, bits per axis, symbolic points, schedule, sample size, configuration, seed, edge weights
// KaHIP and the singular value decomposition are replaced by "any result"; the sample triangulation by a fan over the sorted sample.
#include "geo.h"
#include <numeric>
#include <set>
#include <map>
#include <random>
#include <unordered_map>
#include "utils/Timings.h"
#include "utils/VTuneAdapter.h"
#include "load_balancing/sample_partitioner/Sampler.h"
#include "load_balancing/monitors/UnpluggedMonitor.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
#include "load_balancing/kWaySplitter.h"
#include "load_balancing/FlatPartitioner.h"
#include "load_balancing/OldPartitionerPartitioner.h"
#include "load_balancing/sample_partitioner/BinaryBoxEstimatingSamplePartitioner.h"
#include "load_balancing/sample_partitioner/BoundsDistancePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/CenterDistancePointAssigningSamplePartitioner.h"
#include "load_balancing/sample_partitioner/NearestSamplePointAssigningSampleBipartitioner.h"
#include "load_balancing/sample_partitioner/HyperplaneBipartitioner.h"
using namespace LoadBalancing;
static int kCut=0;
void kaffpa(int*n,int*,int*xadj,int*,int*adj,int*np,double*,bool,int,int,int,int*cut,int*part){ for(int i=0;i<*n;i++) part[i]=(int)sx::conc(sx::choose("block",(unsigned)*np)); if(kCut){ bool c=false; for(int i=0;i<*n;i++) for(int e=xadj[i];e<xadj[i+1];e++) c|=part[i]!=part[adj[e]]; sx::assume(c); } *cut=0; }
namespace Eigen { template<class P> std::vector<P> lastSingularVector(const Matrix<P,Dynamic,Dynamic>&m){ static const double N[][3]={{1,0,0},{0,1,0},{3,4,0},{-1,1,0},{2,-7,3},{-0.25,0.125,1}}; size_t D=m.cols()-1; unsigned k=(unsigned)sx::conc(sx::choose("normal",D==2?5:6)); std::vector<P> v(D+1); for(size_t i=0;i<D;i++) v[i]=N[k][i]; if(D==2&&k==5) v[1]=1; v[D]=sx::fx("offset",-4,3); return v; } }
template<uint D,typename P,bool Q> CGALTriangulator<D,P,Q>::CGALTriangulator(const dBox<D,P>&b,dPoints<D,P>&p,const uint g):Triangulator<D,P>(b,p),gridOccupancy(g){}
template<uint D,typename P,bool Q> dSimplices<D,P> CGALTriangulator<D,P,Q>::_triangulate(const Point_Ids&ids,const dBox<D,P>&,const std::string){ std::vector<tIdType> v; for(tIdType i:ids) v.push_back(i); std::sort(v.begin(),v.end()); size_t f=v.size(); v.push_back(dPoint<D,P>::cINF); v.push_back(dPoint<D,P>::cINF+1); size_t m=v.size()>D?v.size()-D:0; if(f==0) m=0; dSimplices<D,P> DT(0,m,m); for(size_t i=0;i<m;i++){ dSimplex<D,P> s; s.id=i; for(uint k=0;k<=D;k++) s.vertices[k]=v[i+k]; s.neighbors.fill(dSimplex<D,P>::cINF); s.genFingerprint(); DT.unsafe_at(i)=s; } return DT; }
static const int PT[3][8][3]={{{0,0,0},{3,1,-2},{-4,2,1},{5,-3,4},{1,6,-5},{-2,-5,3},{7,4,2},{-6,-1,-3}},{{-10,3,7},{-10,4,6},{-10,5,8},{12,3,-2},{13,1,-4},{11,2,-1},{0,-12,5},{1,-14,3}},{{2,2,2},{2,2,2},{2,3,2},{2,3,2},{2,2,2},{6,6,6},{2,2,5},{3,3,3}}};
template<uint D> using Tree=PartitionTree<D,double>;
template<uint D> static void leaves(const Tree<D>&t,std::vector<const Tree<D>*>&l){ if(auto c=std::get_if<typename Tree<D>::ChildContainer>(&t.attachment)) for(auto&x:*c) leaves<D>(x,l); else l.push_back(&t); }
template<uint D> static void regions(const Tree<D>&t,dPoints<D,double>&ps,long n,bool root,bool box){ std::vector<const Tree<D>*> l; leaves<D>(t,l);
  if(true){ sx::check(!!t.intersectionChecker,"every partition has a region"); dSimplex<D,double> any; any.id=1; (void)root; for(uint i=0;i<=D;i++) any.vertices[i]=1; bool in=true,hit=true; for(long i=1;i<=n;i++){ bool mine=false; for(auto x:l) mine|=std::get<Point_Ids>(x->attachment).contains((tIdType)i)==1; if(!mine) continue; const auto&p=ps.at(i).coords; const auto&b=t.intersectionChecker->bounds(); for(uint d=0;d<D;d++) in=in&(b.low[d]<=p[d])&(p[d]<=b.high[d]); dSphere<D,double> s; s.center=p; s.radius=0.001; hit=hit&t.intersectionChecker->intersects(s,any); } sx::check(in,"the box of a partition covers its points"); sx::check(hit|(symx_param_(12)==2),"a sphere around a point of a partition reaches its region"); }
  if(auto c=std::get_if<typename Tree<D>::ChildContainer>(&t.attachment)) for(auto&x:*c) regions<D>(x,ps,n,false,box); }
template<uint D> static void run(){ typedef dPoint<D,double> P; typedef Monitor M; long kind=(long)symx_param_(1),n=(long)symx_param_(2),k=(long)symx_param_(3),bits=(long)symx_param_(4),nsym=(long)symx_param_(5),sch=(long)symx_param_(6),smp=(long)symx_param_(7),cf=(long)symx_param_(8),seed=(long)symx_param_(9),ew=(long)symx_param_(10); bool flat=kind>=10; if(flat) kind-=10;
  dPoints<D,double> ps; ps.resize(n+1); Point_Ids ids(16); for(long i=1;i<=n;i++){ for(uint d=0;d<D;d++){ double x=PT[cf][i-1][d]; if(i<=nsym) x+=sx::fx("x",-(1l<<(bits-1)),(1l<<(bits-1))-1); ps.at(i).coords[d]=x; } ids.insert(i); } for(tIdType q=P::cINF;q!=0;++q){ for(uint d=0;d<D;d++) ps.at(q).coords[d]=((q-P::cINF)>>d&1)?1000:-1000; ids.insert(q); }
  dBox<D,double> bounds; for(uint d=0;d<D;d++){ bounds.low[d]=-100; bounds.high[d]=100; }
  auto&c=tbb::cfg(); c.mode=0; c.slots=1; if(sch==1){ c.mode=2; c.slots=2; c.budget=4; c.chooseSlot=true; } if(sch==2){ c.mode=3; c.slots=2; c.budget=(int)symx_param_(11); }
  kCut=kind==6;
  std::function<double(double)> w; if(ew==1) w=[](double d){ return 1.0-d; }; auto size=[smp](size_t){ return (size_t)smp; }; Sampler<D,double> sampler=ew?Sampler<D,double>(seed,size,FAST,0.05,w):Sampler<D,double>(seed,size,FAST,0.05); IntersectionPartitionMakerFunction<D,double> mk; if(symx_param_(12)==2) mk=AccurateGridIntersectionPartitionMaker<D,double>(Grid<D,double>(1.0)); else if(symx_param_(12)) mk=GridIntersectionPartitionMaker<D,double>(Grid<D,double>(1.0)); else mk=BoundsIntersectionPartitionMaker<D,double>();
  std::unique_ptr<LoadBalancing::Partitioner<D,double,M>> pt; switch(kind){ case 0: pt=std::make_unique<KWaySplitter<D,double,M>>(k); break; case 1: pt=std::make_unique<BinaryBoxEstimatingSamplePartitioner<D,double,M>>((size_t)symx_param_(13),sampler); break; case 2: pt=std::make_unique<BoundsDistancePointAssigningSamplePartitioner<D,double,M>>(k,sampler,mk); break; case 3: pt=std::make_unique<CenterDistancePointAssigningSamplePartitioner<D,double,M>>(k,sampler,mk); break; case 4: pt=std::make_unique<NearestSamplePointAssigningSamplePartitioner<D,double,M>>(k,sampler,mk); break; case 5: pt=std::make_unique<NearestSamplePointAssigningSampleBipartitioner<D,double,M>>(k,sampler,(size_t)symx_param_(13),mk); break; case 6: pt=std::make_unique<HyperplaneSamplingBipartitioner<D,double,M>>(k,sampler); break; default: pt=std::make_unique<OldPartitionerPartitioner<D,double,M>>(::Partitioner<D,double>::make("dceD"[kind-7]=='D'?'d':"dceD"[kind-7]),(size_t)k,(size_t)symx_param_(13)); }
  if(flat) pt=std::make_unique<FlatPartitioner<D,double,M>>(std::move(pt)); M mon; auto t=pt->partition(bounds,ps,ids,mon); c.mode=0; c.slots=1; c.chooseSlot=false;
  std::vector<const Tree<D>*> l; leaves<D>(t,l); bool once=true,inf=true; std::vector<size_t> own(l.size(),0); for(long i=1;i<=n;i++){ int in=0; for(size_t j=0;j<l.size();j++) if(std::get<Point_Ids>(l[j]->attachment).contains((tIdType)i)==1){ in++; own[j]++; } once&=in==1; } sx::check(once,"every point is in exactly one leaf"); for(auto x:l) for(tIdType q=P::cINF;q!=0;++q) inf&=std::get<Point_Ids>(x->attachment).contains(q)==1; sx::check(inf,"every infinite point is in every leaf"); bool sz=true; for(size_t j=0;j<l.size();j++) sz&=std::get<Point_Ids>(l[j]->attachment).size()==own[j]+P::nINF; sx::check(sz,"no other id is in a leaf");
  if(kind==0||(kind>=2&&kind<=4)) sx::check(l.size()==(size_t)k,"as many leaves as asked for"); if(flat) for(auto&x:std::get<typename Tree<D>::ChildContainer>(t.attachment)) sx::check(x.isLeaf(),"flat");
  regions<D>(t,ps,n,true,true); sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
