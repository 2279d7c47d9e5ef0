// C22/C23: partition makers and the region checkers they build.  params: D, maker (0 boxes, 1 grid, 2 accurate grid), op (0 division of the points, 1 spheres, 2 spheres around a point), points, partitions, width code, bits per axis, symbolic points, schedule, configuration
#include "geo.h"
#include <numeric>
#include <set>
#include <map>
#include <unordered_map>
#include "utils/Timings.h"
#include "utils/VTuneAdapter.h"
#include "load_balancing/BoxUtils.h"
#include "load_balancing/IntersectionChecker.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/GridIntersectionChecker.h"
#include "load_balancing/AccurateGridIntersectionChecker.h"
using namespace LoadBalancing;
static const int PT[3][8][3]={{{0,0,0},{3,1,-2},{-4,2,1},{5,-3,4},{1,6,-5},{-2,-5,3},{7,4,2},{-6,-1,-3}},{{-10,3,7},{-11,4,6},{-9,5,8},{12,3,-2},{13,1,-4},{11,2,-1},{0,-12,5},{1,-14,3}},{{2,2,2},{2,3,2},{4,2,3},{2,6,2},{5,2,2},{6,6,6},{2,2,5},{3,3,3}}};
template<uint D> static void run(){ typedef dPoint<D,double> P; typedef dVector<D,double> V; long mk=(long)symx_param_(1),op=(long)symx_param_(2),n=(long)symx_param_(3),k=(long)symx_param_(4),bits=(long)symx_param_(6),nsym=(long)symx_param_(7),sch=(long)symx_param_(8),cf=(long)symx_param_(9); static const double W[]={1,0.5,4,0.1,3,1/3.,0.7}; double w=W[symx_param_(5)];
  dPoints<D,double> ps; ps.resize(n+1); Point_Ids ids(16); for(long i=1;i<=n;i++){ for(uint d=0;d<D;d++){ double x=PT[cf][i-1][d]; if(i<=nsym) x+=sx::fx("x",-(1l<<(bits-1)),(1l<<(bits-1))-1); ps.at(i).coords[d]=x; } ids.insert(i); } for(tIdType q=P::cINF;q!=0;++q){ for(uint d=0;d<D;d++) ps.at(q).coords[d]=((q-P::cINF)>>d&1)?1000:-1000; ids.insert(q); }
  std::vector<size_t> as(n+1); for(long i=1;i<=n;i++) as[i]=op==0?sx::conc(sx::choose("part",(unsigned)k)):(size_t)(i*7+cf)%k;
  auto&c=tbb::cfg(); c.mode=0; c.slots=1; if(sch==1){ c.mode=2; c.slots=2; c.budget=4; c.chooseSlot=true; } if(sch==2){ c.mode=3; c.slots=2; c.budget=(int)symx_param_(10); }
  std::vector<IntersectionPartition<D,double>> res; Grid<D,double> g(w); auto part=[&](tIdType id){ return as[id]; };
  if(mk==0) res=BoundsIntersectionPartitionMaker<D,double>()(ps,ids,k,part); else if(mk==1) res=GridIntersectionPartitionMaker<D,double>(g)(ps,ids,k,part); else res=AccurateGridIntersectionPartitionMaker<D,double>(g)(ps,ids,k,part);
  c.mode=0; c.slots=1; sx::check(res.size()==(size_t)k,"one entry per partition");
  if(op==0) for(long p=0;p<k;p++){ bool ok=true; size_t cnt=P::nINF; for(long i=1;i<=n;i++){ ok&=res[p].pointIds.contains((tIdType)i)==(as[i]==(size_t)p); cnt+=as[i]==(size_t)p; } for(tIdType q=P::cINF;q!=0;++q) ok&=res[p].pointIds.contains(q)==1; sx::check(ok,"a partition has its own and all infinite points"); sx::check(res[p].pointIds.size()==cnt,"and no other"); if(cnt>P::nINF){ const auto&b=res[p].intersectionChecker->bounds(); bool cov=true,tight=true; for(uint d=0;d<D;d++){ bool lo=false,hi=false; for(long i=1;i<=n;i++) if(as[i]==(size_t)p){ double x=ps.at(i).coords[d]; cov&=(b.low[d]<=x)&(x<=b.high[d]); lo|=b.low[d]==x; hi|=b.high[d]==x; } tight&=lo&hi; } sx::check(cov,"the region covers all points of the partition"); sx::check(tight,"the region is the box of the points"); } }
  else { long sb=(long)symx_param_(10),div=(long)symx_param_(11); dSphere<D,double> s; dSimplex<D,double> t; std::vector<std::unique_ptr<IntersectionChecker<D,double>>> cp; for(auto&e:res) cp.push_back(e.intersectionChecker->copy());
    if(mk<2){ for(uint d=0;d<D;d++) s.center[d]=PT[cf][0][d]+sx::fx("c",-(1l<<(sb-1)),(1l<<(sb-1))-1)/div; s.radius=(sx::fx("r",-(1l<<(sb-1)),(1l<<(sb-1))-1)+(1l<<(sb-1)))/div; }
    else { // the circumsphere of a simplex of three (four) further points, one of them anywhere
      ps.resize(n+D+2); static const int T[4][3]={{-8,-7,-6},{9,-6,5},{1,9,-4},{2,1,9}}; for(uint i=0;i<=D;i++){ for(uint d=0;d<D;d++) ps.at(n+1+i).coords[d]=T[i][d]+(i==0?sx::fx("v",-(1l<<(sb-1)),(1l<<(sb-1))-1)*div:0)+PT[cf][0][d]; t.vertices[i]=n+1+i; } t.id=1; const auto&A=ps.at(n+1).coords; double m[3][3]; for(uint i=0;i<D;i++) for(uint d=0;d<D;d++) m[i][d]=ps.at(n+2+i).coords[d]-A[d]; double det=D==2?m[0][0]*m[1][1]-m[0][1]*m[1][0]:m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]); sx::assume((det>0.5)|(det<-0.5)); s=t.circumsphere(ps); }
    for(long p=0;p<k;p++){ auto&ic=*res[p].intersectionChecker; bool any=false,in=false,has=false; for(long i=1;i<=n;i++) if(as[i]==(size_t)p){ has=true; double d2=0; for(uint d=0;d<D;d++){ double x=ps.at(i).coords[d]-s.center[d]; d2+=x*x; } in=in|(d2<s.radius*s.radius*(mk==2?1-1e-9:1)); if(mk==1){ auto x=g.indexAt(ps.at(i).coords); double q2=0; for(uint d=0;d<D;d++){ double lo=(double)x[d]*w,hi=(double)(x[d]+1)*w; double a=s.center[d]<lo?lo-s.center[d]:s.center[d]>hi?s.center[d]-hi:0; q2+=a*a; } any=any|(q2<=s.radius*s.radius); } }
      if(!has) continue; bool got=ic.intersects(s,t); sx::check(got|!in,"a sphere around a point of the partition is reported"); if(mk==0){ const auto&b=ic.bounds(); double q2=0; for(uint d=0;d<D;d++){ double a=s.center[d]<b.low[d]?b.low[d]-s.center[d]:s.center[d]>b.high[d]?s.center[d]-b.high[d]:0; q2+=a*a; } any=q2<=s.radius*s.radius; } if(mk<2) sx::check(got==any,"reported exactly if the sphere reaches the region"); else { bool some=false; for(long i=1;i<=n;i++){ bool cell=false; auto xi=g.indexAt(ps.at(i).coords); for(long j=1;j<=n;j++) if(as[j]==(size_t)p) cell|=g.indexAt(ps.at(j).coords)==xi; if(!cell) continue; double d2=0; for(uint d=0;d<D;d++){ double x=ps.at(i).coords[d]-s.center[d]; d2+=x*x; } some|=d2<=s.radius*s.radius*(1+1e-9); } sx::check(some|!got,"a sphere around no point of its cells is not reported"); }
      sx::check(cp[p]->intersects(s,t)==got,"a copy answers alike"); sx::check(cp[p]->bounds()==ic.bounds(),"a copy has the same box"); } }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
