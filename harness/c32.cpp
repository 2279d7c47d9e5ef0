// C32: the point location walk of a valid triangulation ends at the simplex containing the point.
// params: D, configuration, with corner points?, bits of the query point, id order, R, number of hints (0: all)
#include "tri.h"
static const int C2[][12]={{1,2,-3,4,0,0},{0,0,5,1,-4,3,2,-5,7,7,-6,-6},{0,0,1,0,-7,1,6,-2},{-6,-5,-5,7,4,6,7,-4,0,1}};
static const int N2[]={3,6,4,5};
static const int C3[][15]={{1,2,3,-3,4,0,0,-5,1,2,2,-4},{0,0,0,5,1,2,-4,3,1,2,-5,3,-1,-1,6},{0,0,1,1,0,5,-6,2,1,0,7,-5,4,-3,-6}}; static const int N3[]={4,5,5};
template<uint D> static void run(){ int cfg=symx_param_(1),inf=symx_param_(2),pb=symx_param_(3),rot=symx_param_(4); long R=(long)symx_param_(5); typedef dPoint<D,double> P; Tri<D> t; int n=D==2?N2[cfg]:N3[cfg];
  dPoints<D,double> ps; ps.resize(n+1); 
  for(int i=0;i<n;i++){ V<D> v; double x[D]; for(uint d=0;d<D;d++){ x[d]=D==2?C2[cfg][2*i+d]:C3[cfg][3*i+d]; v.v[d]=(long)x[d]; } t.add(1+i,v); setPoint<D>(ps,1+i,x); }
  if(inf) for(uint i=0;i<(1u<<D);i++){ V<D> v=cornerAt<D>(i,R); double x[D]; for(uint d=0;d<D;d++) x[d]=(double)(long)v.v[d]; t.add(infId<D>(i),v); setPoint<D>(ps,infId<D>(i),x); }
  t.delaunay(); tIdType start=5; auto DT=t.build(start,rot); size_t m=t.cells.size();
  P p; V<D> q; for(uint d=0;d<D;d++){ double x=sx::fx("p",-(1l<<(pb-1)),(1l<<(pb-1))-1); p.coords[d]=x; q.v[d]=(long)x; }
  long hm=(long)symx_param_(6); long h=hm&&hm<(long)m+1?(long)m-sx::conc(sx::choose("hint",hm)):sx::conc(sx::choose("hint",m+1)); tIdType r=h==(long)m?DT.findNearestSimplex(p,ps):DT.findNearestSimplex(p,ps,start+h);
  bool any=false,ok=false; for(size_t a=0;a<m;a++){ V<D> w[D+1]; for(uint i=0;i<=D;i++) w[i]=t.c[t.cells[a][i]]; I o=orient(w); bool in=true; for(uint i=0;i<=D;i++){ V<D> k=w[i]; w[i]=q; I s=orient(w); w[i]=k; in&=(s==0)|((s>0)==(o>0)); } any|=in; ok|=in&(r==start+(a+rot)%m); }
  sx::check((!any)|ok,"the returned simplex contains the point");
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
