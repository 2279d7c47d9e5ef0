// Brute-force integer Delaunay triangulations as inputs and oracles for the triangulation-level harnesses.
#pragma once
#include "geo.h"
typedef __int128 I;
template<uint D> struct V { I v[D]; };
template<uint D> static V<D> sub(const V<D>&a,const V<D>&b){ V<D> r; for(uint d=0;d<D;d++) r.v[d]=a.v[d]-b.v[d]; return r; }
template<uint D> static I dt(const V<D>&a,const V<D>&b){ I r=0; for(uint d=0;d<D;d++) r+=a.v[d]*b.v[d]; return r; }
static I det2(I a,I b,I c,I d){ return a*d-b*c; }
static I det3(const I*a,const I*b,const I*c){ return a[0]*det2(b[1],b[2],c[1],c[2])-a[1]*det2(b[0],b[2],c[0],c[2])+a[2]*det2(b[0],b[1],c[0],c[1]); }
static I orient(const V<2>*p){ V<2> a=sub<2>(p[1],p[0]),b=sub<2>(p[2],p[0]); return det2(a.v[0],a.v[1],b.v[0],b.v[1]); }
static I orient(const V<3>*p){ V<3> a=sub<3>(p[1],p[0]),b=sub<3>(p[2],p[0]),c=sub<3>(p[3],p[0]); return det3(a.v,b.v,c.v); }
// sign of "q inside the sphere through p" times the orientation of p
static I sphereDet(const V<2>*p,const V<2>&q){ V<2> d[3]; I w[3]; for(int i=0;i<3;i++){ d[i]=sub<2>(p[i],q); w[i]=dt<2>(d[i],d[i]); }
  return w[0]*det2(d[1].v[0],d[1].v[1],d[2].v[0],d[2].v[1])-w[1]*det2(d[0].v[0],d[0].v[1],d[2].v[0],d[2].v[1])+w[2]*det2(d[0].v[0],d[0].v[1],d[1].v[0],d[1].v[1]); }
static I sphereDet(const V<3>*p,const V<3>&q){ V<3> d[4]; I w[4]; for(int i=0;i<4;i++){ d[i]=sub<3>(p[i],q); w[i]=dt<3>(d[i],d[i]); }
  return w[0]*det3(d[1].v,d[2].v,d[3].v)-w[1]*det3(d[0].v,d[2].v,d[3].v)+w[2]*det3(d[0].v,d[1].v,d[3].v)-w[3]*det3(d[0].v,d[1].v,d[2].v); }
// >0: q strictly inside the sphere through p, 0: on it, <0: outside (p not degenerate)
template<uint D> static I inBall(const V<D>*p,I o,const V<D>&q){ I s=sphereDet(p,q); return o>0?s:-s; }
template<uint D> struct Tri {
  std::vector<V<D>> c; std::vector<tIdType> id; // ascending ids; local indices elsewhere
  std::vector<std::array<int,D+1>> cells,nb;
  int add(tIdType i,const V<D>&p){ id.push_back(i); c.push_back(p); return (int)id.size()-1; }
  // all (D+1)-subsets whose sphere holds no other point; assumes no tie among the points used
  void delaunay(){ int n=(int)c.size(); cells.clear(); std::array<int,D+1> k; for(uint i=0;i<=D;i++) k[i]=i;
    while((int)k[D]<n){ V<D> p[D+1]; for(uint i=0;i<=D;i++) p[i]=c[k[i]]; I o=orient(p); bool in=false,tie=false;
      for(int q=0;q<n;q++){ bool own=false; for(uint i=0;i<=D;i++) own|=k[i]==q; if(own) continue; I s=sphereDet(p,c[q]); s=o>0?s:-s; in|=s>0; tie|=s==0; }
      bool cand=(o!=0)&!in; if(cand){ sx::assume(!tie); cells.push_back(k); }
      int j=D; while(j>=0&&k[j]==n-1-((int)D-j)) j--; if(j<0) break; k[j]++; for(uint i=j+1;i<=D;i++) k[i]=k[i-1]+1; }
    link(); }
  void link(){ nb.assign(cells.size(),{}); for(auto&x:nb) x.fill(-1); for(size_t a=0;a<cells.size();a++) for(size_t b=0;b<a;b++){ int fa=-1,fb=-1; uint miss=0; uint x=0,y=0; while(x<=D||y<=D){ if(x<=D&&y<=D&&cells[a][x]==cells[b][y]){ x++; y++; } else if(y>D||(x<=D&&cells[a][x]<cells[b][y])){ fa=x++; miss++; } else { fb=y++; miss++; } if(miss>2) break; } if(miss==2&&fa>=0&&fb>=0){ nb[a][fa]=(int)b; nb[b][fb]=(int)a; } } }
  // as a dSimplices with ids start+perm(0..n-1)
  dSimplex<D,double> simplex(size_t a,tIdType start,size_t rot=0) const { size_t n=cells.size(); dSimplex<D,double> s; s.id=start+(a+rot)%n; s.mark=0; for(uint i=0;i<=D;i++){ s.vertices[i]=id[cells[a][i]]; s.neighbors[i]=nb[a][i]<0?dSimplex<D,double>::cINF:start+(nb[a][i]+rot)%n; } s.genFingerprint(); return s; }
  dSimplices<D,double> build(tIdType start,size_t rot=0,size_t slack=0) const { size_t n=cells.size(); dSimplices<D,double> DT(start,start+n+slack,n); for(size_t a=0;a<n;a++){ auto s=simplex(a,start,rot); if(!s.isFinite()) DT.convexHull.push_back(s.id); DT.unsafe_at(s.id)=s; } for(size_t a=n;a<n+slack;a++) DT.unsafe_at(start+a).id=dSimplex<D,double>::cINF; return DT; }
};
template<uint D> static tIdType infId(uint i){ return dPoint<D,double>::cINF|i; }
// corner points around the data as the divide-and-conquer triangulator adds them; slightly perturbed in 3D, where a cube's faces are degenerate, such that the sphere through any four of them surrounds the data (as for the cube itself)
template<uint D> static V<D> cornerAt(uint i,long R){ static const int P[8][3]={{-8,-12,12},{-2,-8,-9},{-9,-10,0},{14,2,12},{15,-2,4},{-5,-4,-15},{15,13,-10},{3,7,0}}; V<D> r; for(uint d=0;d<D;d++) r.v[d]=((i>>d)&1?R:-R)+(D==3?P[i][d]:(d==0?(long)i*3:-(long)(i*i))); return r; }
template<uint D> static void setPoint(dPoints<D,double>&ps,tIdType id,const double*x){ for(uint d=0;d<D;d++) ps[id].coords[d]=x[d]; }
