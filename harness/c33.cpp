// C33: dSimplices::verify and crossCheck against an integer Delaunay oracle and against corrupted triangulations.
// params: D, op, configuration, with corner points?, use point ids?, id order, extra
#include "tri.h"
// the reports are only printed: text streams swallow their input
#include <queue>
#include <set>
#include <map>
#include <atomic>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
namespace std { struct nullstream { template<class T> nullstream&operator<<(const T&){ return *this; } std::string str() const { return std::string(); } }; }
#define stringstream nullstream
#include "src/lib/Geometry.cpp"
#undef stringstream
static const int C2[][12]={{1,2,-3,4,0,0},{0,0,5,1,-4,3,2,-5},{0,0,5,1,-4,3,2,-5,7,7,-6,-6},{-5,0,6,1,0,-2,1,3,-7,-8,9,-6}}; static const int N2[]={3,4,6,6};
static const int C3[][15]={{1,2,3,-3,4,0,0,-5,1,2,2,-4},{0,0,0,5,1,2,-4,3,1,2,-5,3,-1,-1,6},{1,2,3}}; static const int N3[]={4,5,1};
// ids of the points: 1,2,3.. or (param 7) 1, 1+s, ..; with s=64 fingerprints collide wherever the vertex numbers agree in xor
static tIdType pid(long i){ long s=(long)symx_param_(7); return 1+(tIdType)i*(tIdType)(s?s:1); }
template<uint D> struct World { Tri<D> t; dPoints<D,double> ps; int n; bool inf; Point_Ids ids{64};
  World(int cfg,bool inf_,long R):inf(inf_){ n=D==2?N2[cfg]:N3[cfg]; ps.resize(pid(n-1)+1); for(int i=0;i<n;i++){ V<D> v; double x[D]; for(uint d=0;d<D;d++){ x[d]=D==2?C2[cfg][2*i+d]:C3[cfg][3*i+d]; v.v[d]=(long)x[d]; } t.add(pid(i),v); setPoint<D>(ps,pid(i),x); ids.insert(pid(i)); }
    if(inf) for(uint i=0;i<(1u<<D);i++){ V<D> v=cornerAt<D>(i,R); double x[D]; for(uint d=0;d<D;d++) x[d]=(double)(long)v.v[d]; t.add(infId<D>(i),v); setPoint<D>(ps,infId<D>(i),x); }
    t.delaunay(); }
  bool ver(const dSimplices<D,double>&DT,bool wi){ return DT.verify(ps,wi?&ids:nullptr).valid; } };
template<uint D> static tIdType anyPoint(int n,bool inf){ tIdType r=sx::u64("to"); bool ok=false; for(int i=0;i<n;i++) ok|=r==pid(i); if(inf) ok|=r>=dPoint<D,double>::cINF; sx::assume(ok); return r; }
template<uint D> static void run(){ int op=symx_param_(1),cfg=symx_param_(2),inf=symx_param_(3),wi=symx_param_(4),rot=symx_param_(5); long ex=(long)symx_param_(6); World<D> w(cfg,inf,300); auto&t=w.t; size_t m=t.cells.size(); const tIdType start=7,NO=dSimplex<D,double>::cINF;
  if(op==0){ // one point moves: still a triangulation, Delaunay or not
    long b=ex%10; int k=(int)((ex/10)%10); double x[D]; V<D> q; std::vector<I> o0; for(auto&c:t.cells){ V<D> v[D+1]; for(uint i=0;i<=D;i++) v[i]=t.c[c[i]]; o0.push_back(orient(v)); }
    for(uint d=0;d<D;d++){ x[d]=sx::fx("p",-(1l<<(b-1)),(1l<<(b-1))-1)+(double)(long)t.c[k].v[d]; q.v[d]=(long)x[d]; } t.c[k]=q; setPoint<D>(w.ps,t.id[k],x);
    bool good=true,tie=false,geo=true; for(size_t a=0;a<m;a++){ V<D> v[D+1]; for(uint i=0;i<=D;i++) v[i]=t.c[t.cells[a][i]]; I o=orient(v); geo&=(o!=0)&((o>0)==(o0[a]>0)); for(int j=0;j<w.n;j++){ bool own=false; for(uint i=0;i<=D;i++) own|=t.cells[a][i]==j; if(own) continue; I s=inBall(v,o,t.c[j]); good&=s<0; tie|=s==0; } }
    sx::assume(geo); sx::assume(!tie); auto DT=t.build(start,rot); sx::check(w.ver(DT,wi)==good,"a triangulation is accepted exactly when no point lies inside a circumscribed sphere"); }
  if(op==1){ // one link changed
    auto DT=t.build(start,rot,1); long a=sx::conc(sx::choose("simplex",m)); long i=sx::conc(sx::choose("face",D+1)); tIdType to=sx::u64("to"); if((to>=start)&(to<=start+m)) to=sx::conc(to); auto&s=DT.unsafe_at(start+a); 
    auto old=s.neighbors; tIdType was=s.neighbors[i]; s.neighbors[i]=to; bool same=true; for(uint k=0;k<=D;k++){ bool f=false,g=false; for(uint l=0;l<=D;l++){ f|=old[k]==s.neighbors[l]; g|=s.neighbors[k]==old[l]; } same&=(f|(old[k]==NO))&(g|(s.neighbors[k]==NO)); } 
    bool v=w.ver(DT,wi); sx::check(!v||same,"a wrong, missing or one-sided link is rejected"); sx::check(v||to!=was,"the intact triangulation is accepted"); }
  if(op==2){ // other corruptions
    long kind=ex; auto DT=t.build(start,rot,1); auto&h=DT.convexHull; tIdType spare=start+m; bool wantValid=false;
    if(kind==0) wantValid=true;
    if(kind==1){ long a=sx::conc(sx::choose("simplex",m)); DT.unsafe_at(start+a).id=NO; h.erase(std::remove(h.begin(),h.end(),start+a),h.end()); } // a simplex is gone, its neighbours still name it
    if(kind==2){ long a=sx::conc(sx::choose("simplex",m)); DT.unsafe_at(spare)=DT.unsafe_at(start+a); DT.unsafe_at(spare).id=spare; if(!DT.unsafe_at(spare).isFinite()) h.push_back(spare); } // the same simplex twice
    if(kind==3){ if(h.empty()) wantValid=true; else h.erase(h.begin()+sx::conc(sx::choose("hull",h.size()))); }
    if(kind==4){ long a=sx::conc(sx::choose("simplex",m)); if(!DT.unsafe_at(start+a).isFinite()) wantValid=true; else h.push_back(start+a); }
    if(kind==5){ double x[D]; for(uint d=0;d<D;d++) x[d]=(double)d+100; dPoint<D,double> p; for(uint d=0;d<D;d++) p.coords[d]=x[d]; w.ps.emplace_back(p); w.ids.insert(pid(w.n-1)+1); } // a point in no simplex
    if(kind==6){ long a=sx::conc(sx::choose("point",w.n)); Point_Ids f(64); for(int i=0;i<w.n;i++) if(i!=a) f.insert(pid(i)); sx::check(!DT.verify(w.ps,&f).valid,"a used point that was not given is rejected"); sx::reach("end"); return; }
    if(kind==7){ long a=sx::conc(sx::choose("simplex",m)),i=sx::conc(sx::choose("vertex",D+1)); tIdType to=sx::conc(anyPoint<D>(w.n,inf)); auto&s=DT.unsafe_at(start+a); auto c=t.cells[a]; size_t at=(a+m-rot%m)%m; c=t.cells[at]; bool has=false; for(uint k=0;k<=D;k++) has|=t.id[c[k]]==to; if(has) wantValid=true; else { s.vertices[i]=to; s.sortVertices(); s.genFingerprint(); bool was=false; for(auto e:h) was|=e==s.id; if(was) h.erase(std::remove(h.begin(),h.end(),s.id),h.end()); if(!s.isFinite()) h.push_back(s.id); } }
    if(kind==8){ long a=sx::conc(sx::choose("simplex",m)); auto&s=DT.unsafe_at(start+a); for(auto nb:s.neighbors) if(nb!=NO) for(auto&r:DT.unsafe_at(nb).neighbors) if(r==s.id) r=NO; h.erase(std::remove(h.begin(),h.end(),s.id),h.end()); s.id=NO; wantValid=false; if(!wi){ } // cleanly removed: accepted by the local checks, unless a point is lost
      bool lost=false; for(int p=0;p<w.n;p++){ bool u=false; for(size_t b=0;b<m;b++) if(start+b!=start+a) for(uint i=0;i<=D;i++) u|=DT.unsafe_at(start+b).vertices[i]==pid(p); lost|=!u; } sx::check(w.ver(DT,wi)==!lost,"accepted exactly when every point is still used"); sx::reach("end"); return; }
    if(kind==9){ long a=sx::conc(sx::choose("simplex",m)),i=sx::conc(sx::choose("face",D+1)); auto&s=DT.unsafe_at(start+a); tIdType nb=s.neighbors[i]; if(nb==NO) wantValid=true; else { s.neighbors[i]=NO; for(auto&r:DT.unsafe_at(nb).neighbors) if(r==s.id) r=NO; } } // a link cut on both sides
    sx::check(w.ver(DT,wi)==wantValid,"accepted exactly when intact"); }
  if(op==3){ // comparison with a reference: other ids, other order, possibly one simplex changed or missing or added
    long kind=ex; auto A=t.build(start,rot,1), B=t.build(1000,(rot+1)%(m?m:1),1); bool same=kind==0; auto&X=kind%2?A:B; tIdType xs=kind%2?start:1000; if(kind>=1){ 
      if(kind<=2){ long a=sx::conc(sx::choose("simplex",m)); X.unsafe_at(xs+a).id=NO; }
      else if(kind<=4){ long a=sx::conc(sx::choose("simplex",m)),i=sx::conc(sx::choose("vertex",D+1)); tIdType to=sx::u64("to"); auto&s=X.unsafe_at(xs+a); bool has=false; for(auto v:s.vertices) has|=v==to; if(has) same=true; else { s.vertices[i]=to; s.sortVertices(); s.genFingerprint(); } }
      else { long a=sx::conc(sx::choose("simplex",m)); tIdType to=sx::u64("to"); auto&s=X.unsafe_at(xs+m); s=X.unsafe_at(xs+a); s.id=xs+m; bool has=false; for(auto v:s.vertices) has|=v==to; if(has) { s.id=NO; same=true; } else { s.vertices[0]=to; s.sortVertices(); s.genFingerprint(); } } }
    auto r=A.crossCheck(B); sx::check(r.valid==same,"comparison reports equality exactly for the same simplices"); sx::check(same||kind==0||kind>4||!(r.missing.empty()&&r.invalid.empty()),"the difference is reported"); }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
