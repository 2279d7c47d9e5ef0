// C30/C31: point tests and constructions of a single simplex (dSimplex::orientation/inSphere/inSimplex/findNearestVertex/circumsphere/sqDistanceToFace).
// params: D, op, base simplex, vertex order, bits of the query point's coordinates, number of symbolic vertex coordinates, their bits, scale
#include "geo.h"
#ifdef ORACLE_DOUBLE
typedef double I; // exact: integers below 2^53
#define TOI(x) (x)
#else
typedef __int128 I;
#define TOI(x) ((long)(x))
#endif
template<uint D> struct V { I v[3]; };
template<uint D> static V<D> sub(const V<D>&a,const V<D>&b){ V<D> r; for(uint d=0;d<D;d++) r.v[d]=a.v[d]-b.v[d]; return r; }
template<uint D> static I dt(const V<D>&a,const V<D>&b){ I r=0; for(uint d=0;d<D;d++) r+=a.v[d]*b.v[d]; return r; }
static V<3> cross(const V<3>&a,const V<3>&b){ return {{a.v[1]*b.v[2]-a.v[2]*b.v[1],a.v[2]*b.v[0]-a.v[0]*b.v[2],a.v[0]*b.v[1]-a.v[1]*b.v[0]}}; }
static I vol(const V<2>*p){ V<2> a=sub<2>(p[1],p[0]),b=sub<2>(p[2],p[0]); return a.v[0]*b.v[1]-a.v[1]*b.v[0]; }
static I vol(const V<3>*p){ V<3> a=sub<3>(p[1],p[0]),b=sub<3>(p[2],p[0]),c=sub<3>(p[3],p[0]); return dt<3>(a,cross(b,c)); }
// centre of the circumsphere relative to p[0], times den = 2*vol
static V<2> cc(const V<2>*p){ V<2> a=sub<2>(p[1],p[0]),b=sub<2>(p[2],p[0]); I A=dt<2>(a,a),B=dt<2>(b,b); return {{A*b.v[1]-B*a.v[1],B*a.v[0]-A*b.v[0],0}}; }
static V<3> cc(const V<3>*p){ V<3> a=sub<3>(p[1],p[0]),b=sub<3>(p[2],p[0]),c=sub<3>(p[3],p[0]); I A=dt<3>(a,a),B=dt<3>(b,b),C=dt<3>(c,c); V<3> x=cross(b,c),y=cross(c,a),z=cross(a,b),r; for(int d=0;d<3;d++) r.v[d]=A*x.v[d]+B*y.v[d]+C*z.v[d]; return r; }
static const int B2[][6]={{0,0,7,0,0,7},{-3,-2,6,1,1,6},{1,1,3,2,2,5},{-7,-7,7,-6,-6,7},{0,0,5,5,1,7}};
static const int B3[][12]={{0,0,0,5,0,0,0,5,0,0,0,5},{-3,-2,-1,4,1,-2,1,5,2,0,1,6},{1,1,1,3,2,1,2,5,3,1,2,6},{-7,-7,-6,7,-5,-7,-6,7,7,6,6,5}};
static I iabs(I x){ return x<0?-x:x; } static int sg(I x){ return (x>0)-(x<0); }
template<uint D> static void run(){ typedef dPoint<D,double> P; int op=symx_param_(1),base=symx_param_(2),ord=symx_param_(3),pb=symx_param_(4),nv=symx_param_(5),vb=symx_param_(6); double sc=std::ldexp(1.0,(int)(long)symx_param_(7));
  V<D> c[D+1],q; P pq; dPoints<D,double> ps; ps.resize(D+2);
  static const int O2[6][3]={{0,1,2},{1,0,2},{2,0,1},{0,2,1},{1,2,0},{2,1,0}}; static const int O3[4][4]={{0,1,2,3},{1,0,2,3},{3,2,0,1},{2,3,1,0}};
  dSimplex<D,double> s; for(uint i=0;i<=D;i++) s.vertices[i]=1+(D==2?O2[ord][i%3]:O3[ord%4][i]); s.id=1;
  for(uint i=0,k=0;i<=D;i++) for(uint d=0;d<D;d++,k++){ long b=D==2?B2[base][k]:B3[base][k]; double x=(double)b; if((int)(D*(D+1)-1-k)<nv) x=sx::fx("v",-(1l<<(vb-1)),(1l<<(vb-1))-1); c[i].v[d]=TOI(x); ps[1+i].coords[d]=x*sc; }
  for(uint d=0;d<D;d++){ double x=sx::fx("p",-(1l<<(pb-1)),(1l<<(pb-1))-1); q.v[d]=TOI(x); pq.coords[d]=x*sc; }
  I v=vol(c); V<D> w[D+1];
  if(op!=4) sx::assume(v!=0);
  if(op==0){ double o=s.orientation(ps); for(uint i=0;i<=D;i++) w[i]=c[s.vertices[i]-1]; I t=vol(w); sx::check(((o>0)==(D==2?t>0:t<0))&(o!=0),"orientation of the vertices in their order"); }
  if(op==1){ I den=2*v; V<D> m=cc(c),e=sub<D>(q,c[0]); for(uint d=0;d<D;d++) e.v[d]=e.v[d]*den-m.v[d]; bool in=dt<D>(e,e)<=dt<D>(m,m); sx::check(s.inSphere(pq,ps)==in,"in-sphere exactly inside or on the circumscribed sphere"); }
  if(op==2){ bool in=true; for(uint i=0;i<=D;i++){ for(uint j=0;j<=D;j++) w[j]=c[j]; w[i]=q; I t=vol(w); in&=(t==0)|((t>0)==(v>0)); } sx::check(s.inSimplex(pq,ps)==in,"in-simplex exactly for the points of the closed simplex"); }
  if(op==3){ tIdType n=s.findNearestVertex(pq,ps); bool ok=false; I dm=-1,dn=0; for(uint i=0;i<=D;i++){ V<D> e=sub<D>(q,c[i]); I t=dt<D>(e,e); dn=(n==1+i)?t:dn; ok|=n==1+i; dm=((dm<0)|(t<dm))?t:dm; } sx::check(ok,"nearest vertex is a vertex of the simplex"); sx::check(dn==dm,"nearest vertex is at minimal distance"); }
  if(op==5){ auto sp=s.circumsphere(ps); double den=2.0*(double)(long)v; V<D> m=cc(c); double r2=0; bool ok=true; for(uint d=0;d<D;d++){ double e=(double)(long)m.v[d]/den; r2+=e*e; double x=((double)(long)c[0].v[d]+e)*sc; ok&=std::fabs(sp.center[d]-x)<=1e-9*sc; } sx::check(ok,"centre of the circumsphere");
    sx::check(std::fabs(sp.radius-std::sqrt(r2)*sc)<=1e-9*sc,"radius of the circumsphere"); }
  if(op==6){ for(uint f=0;f<=D;f++){ V<D> h[3]; uint n=0; for(uint i=0;i<=D;i++) if(i!=f) h[n++]=c[s.vertices[i]-1]; V<D> nn; if(D==2){ V<D> a=sub<D>(h[1],h[0]); nn={{a.v[1],-a.v[0],0}}; } else { V<3> A,Bb; for(int d=0;d<3;d++){ A.v[d]=h[1].v[d]-h[0].v[d]; Bb.v[d]=h[2].v[d]-h[0].v[d]; } V<3> x=cross(A,Bb); for(uint d=0;d<D;d++) nn.v[d]=x.v[d]; }
      I t=dt<D>(sub<D>(q,h[0]),nn),l=dt<D>(nn,nn); double want=(double)(long)t*(double)(long)t/(double)(long)l*sc*sc; double got=s.sqDistanceToFace(f,pq,ps); sx::check(std::fabs(got-want)<=1e-9*(want+sc*sc*1e-3),"squared distance to the plane of the face"); } }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
