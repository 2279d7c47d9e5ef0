// C18: looking up which partition holds a point, and whether a simplex lies (partly) in a partition.
#include "geo.h"
#include "Partitioner.h"
extern "C" void symx_main(){ const uint D=2; typedef dSimplex<D,double> S; int np=sx::conc(symx_param_(0)),n=sx::conc(symx_param_(1)); 
  Partitioning<D,double> res; tIdType ids[6]; long at[6]; for(int a=0;a<np;a++){ res.emplace_back(std::size_t(symx_param_(3))); res[a].id=10+a; }
  for(int i=0;i<n;i++){ ids[i]=sx::u64("id"); sx::assume(ids[i]!=0); for(int j=0;j<i;j++) sx::assume(ids[i]!=ids[j]); at[i]=sx::conc(sx::choose("part",np)); res[at[i]].points.insert(ids[i]); }
  tIdType q=sx::u64("q"); sx::assume(q!=0); int w=-1; for(int i=0;i<n;i++) w=ids[i]==q?(int)at[i]:w;
  if(symx_param_(2)==0){ bool threw=false; uint got=0; try { got=res.partition(q); } catch(const std::out_of_range&){ threw=true; } sx::check(threw==(w<0),"unknown-point"); if(!threw) sx::check(got==10+(uint)w,"partition-of-point");
  for(int a=0;a<np;a++){ sx::check(res[a].contains(q)==(w==a),"contains-point"); } sx::reach("end"); return; }
  std::array<tIdType,3> v; for(uint i=0;i<3;i++){ v[i]=sx::u64("v"); sx::assume(v[i]!=0); } S s(v); int a=sx::conc(sx::choose("which",np)); int cnt=0; for(uint j=0;j<3;j++){ bool in=false; for(int i=0;i<n;i++) in|=(at[i]==a)&(ids[i]==v[j]); cnt+=in; }
  sx::check(res[a].contains(s)==(cnt==3),"contains-simplex"); sx::check(res[a].contains(s,true)==(cnt>0),"contains-simplex-partially");
  Partition<D,double> m(std::move(res[a])); sx::check(m.id==10+(uint)a&&m.contains(s)==(cnt==3),"moved");
  sx::reach("end"); }
