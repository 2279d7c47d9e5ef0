// C21: the cell tree.  params: D, op (0 all cells, 1 sphere), width exponent, cells fixed, cells free, cells per axis, offset, sphere bits, sphere scale, seed, position of the points in their cells (eighths of the width; 8: varying)
#include "geo.h"
#include <numeric>
#include <optional>
#include <set>
#include "datastructures/AABBTree.h"
using namespace LoadBalancing;
template<uint D> static void run(){ typedef dIndex<D,int64_t> I; typedef AABBTree<D,double> T; long op=(long)symx_param_(1),nf=(long)symx_param_(3),ns=(long)symx_param_(4),G=(long)symx_param_(5),off=(long)symx_param_(6),sb=(long)symx_param_(7),ss=(long)symx_param_(8),seed=(long)symx_param_(9); static const double W[]={1,0.5,4,0.1,3,1/3.,0.7}; double w=W[symx_param_(2)]; Grid<D,double> g(w);
  std::vector<I> cells; uint32_t x=(uint32_t)seed*2654435761u+12345; for(long i=0;i<nf;i++){ I c; for(uint d=0;d<D;d++){ x=x*1664525u+1013904223u; c[d]=off+(long)((x>>16)%G); } cells.push_back(c); } for(long i=0;i<ns;i++){ I c; for(uint d=0;d<D;d++) c[d]=off+(long)sx::conc(sx::choose("cell",(unsigned)G)); cells.insert(cells.begin()+(i%2?0:cells.size()),c); }
  // the region is the bounding box of one point of each cell, as the grid checker builds it
  long fr=(long)symx_param_(10); dBox<D,double> r; size_t q0=0; for(auto&c:cells){ dVector<D,double> p; for(uint d=0;d<D;d++) p[d]=c[d]*w+w*(fr<8?fr:(q0+d)%3)/8; c=g.indexAt(p); for(uint d=0;d<D;d++){ r.low[d]=q0&&r.low[d]<p[d]?r.low[d]:p[d]; r.high[d]=q0&&r.high[d]>p[d]?r.high[d]:p[d]; } q0++; }
  T t(r,w); size_t k=0; std::optional<T> early; for(auto&c:cells){ sx::check(t.insert(g.boundsOf(c)),"every cell of the region is taken in"); if(++k==(cells.size()+1)/2) early.emplace(t); }
  T cp(t); T tmp(t); T mv(std::move(tmp)); T as(r,w); as=T(t);
  std::set<I> want(cells.begin(),cells.end()),half; for(size_t i=0;i<(cells.size()+1)/2;i++) half.insert(cells[i]);
  dSphere<D,double> s; if(op==0){ for(uint d=0;d<D;d++) s.center[d]=(off+G/2.)*w; s.radius=1e6*w; } else { for(uint d=0;d<D;d++) s.center[d]=(off+G/2.)*w+(sb?sx::fx("c",-(1l<<(sb-1)),(1l<<(sb-1))-1)*w/ss:0); s.radius=(sx::fx("r",-(1l<<(sb-1)),(1l<<(sb-1))-1)+(1l<<(sb-1)))*w/ss; }
  auto hits=[&](const I&c){ return op==0||intersectsWith<D,double,int64_t>(g,s,c); };
  auto test=[&](const T&q,const std::set<I>&set){ bool any=false; for(auto&c:set) any=any|hits(c); sx::check(q.intersects(s)==any,"a sphere is reported exactly if it reaches one of the cells"); auto v=q.intersectingCells(s); bool ok=true; for(auto&c:set){ size_t n=0; for(auto&y:v) n+=y==c; ok=ok&((n==1)==hits(c))&(n<=1); } for(auto&y:v) ok&=set.count(y)==1; sx::check(ok,"exactly the reached cells are visited, once"); };
  test(t,want); test(mv,want); if(op==0){ test(cp,want); test(as,want); test(*early,half); }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
