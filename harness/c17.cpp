// C17: classic partitioners; C18: lookups in partitions.
#include "geo.h"
#include "Partitioner.h"
template<uint D> static void run(){ typedef dPoint<D,double> P; long kind=sx::conc(symx_param_(1)); int n=sx::conc(symx_param_(2)); bool infs=symx_param_(3), skip=symx_param_(4); long R=symx_param_(7); bool viaStats=symx_param_(8);
  auto&c=tbb::cfg(); c.mode=symx_param_(5); c.budget=symx_param_(6);
  dPoints<D,double> ps; ps.resize(n+1); Point_Ids ids(16);
  for(int i=1;i<=n;i++){ for(uint d=0;d<D;d++) ps.at(i).coords[d]=sx::fx("x",-R,R); ids.insert(i); }
  if(infs) for(tIdType k=P::cINF;k!=0;++k){ for(uint d=0;d<D;d++) ps.at(k).coords[d]=4*R; ids.insert(k); }
  dPointStats<D,double> st=getPointStats(ids,ps); c.mode=symx_param_(5);
  static const char T[]="dce0123"; auto part=Partitioner<D,double>::make(T[kind]); std::string prov(1+(kind==1?symx_param_(9):0),'0');
  Partitioning<D,double> res=viaStats?part->partition(st,ids,ps,prov,skip):part->partition(ids,ps,prov,skip);
  size_t want=kind==0?(1u<<D):2; sx::check(res.size()==want,"number-of-parts");
  for(size_t a=0;a<want;a++) sx::check(res[a].id==a,"part-id");
  for(int i=1;i<=n;i++){ int cnt=0; for(size_t a=0;a<want;a++){ bool in=res[a].contains((tIdType)i); cnt+=in; if(in) sx::check(res[a].bounds.contains(ps.at(i).coords),"bounds-contain-points"); } sx::check(cnt==1,"exactly-one-part"); sx::check(res[res.partition(i)].contains((tIdType)i),"lookup"); }
  for(size_t a=0;a<want;a++){ for(tIdType k=P::cINF;k!=0;++k) sx::check(res[a].contains(k)==!skip,"infinite-points"); size_t sz=0; for(auto id:res[a].points){ sx::check(!P::isFinite(id)||(id>=1&&id<=(tIdType)n),"nothing-else"); sz++; } sx::check(sz==res[a].points.size(),"size"); 
    for(uint d=0;d<D;d++) sx::check((st.min[d]<=res[a].bounds.low[d])&(res[a].bounds.high[d]<=st.max[d])&(res[a].bounds.low[d]<=res[a].bounds.high[d]),"bounds-inside"); }
  size_t tot=0; for(size_t a=0;a<want;a++) tot+=res[a].points.size(); sx::check(tot==(size_t)n+(skip?0:want*P::nINF),"sizes-add-up");
  if(!symx_param_(10)) return;
  // the parts' boxes tile the bounding box and overlap only at the cut
  dVector<D,double> q; for(uint d=0;d<D;d++){ q[d]=sx::fx("q",-R,R); sx::assume(st.min[d]<=q[d]); sx::assume(q[d]<=st.max[d]); } int cov=0; bool cut=false; for(size_t a=0;a<want;a++) { bool in=true; for(uint d=0;d<D;d++) in&=(res[a].bounds.low[d]<=q[d])&(q[d]<=res[a].bounds.high[d]); cov+=in; } for(uint d=0;d<D;d++) cut|=q[d]==st.mid[d]; sx::check(cov>=1,"bounds-cover"); if(!cut) sx::check(cov==1,"bounds-disjoint");
}
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); sx::reach("end"); }
