// C19: the uniform grid.  params: D, op (0 exact widths, 1 any width, 2 sphere test), width code, range / bits, fractional bits, scale code
#include "geo.h"
#include <numeric>
#include "load_balancing/Grid.h"
using namespace LoadBalancing;
template<uint D> static void run(){ typedef dVector<D,double> V; typedef dIndex<D,int64_t> I; long op=(long)symx_param_(1),wc=(long)symx_param_(2),R=(long)symx_param_(3),e=(long)symx_param_(4);
  if(op==0){ double w=std::ldexp(1.0,(int)wc); Grid<D,double> g(w); sx::check(g.cellWidth()==w,"the width is the given one"); sx::check(std::fabs(g.diagonalCellLength()-w*(D==2?1.4142135623730951:1.7320508075688772))<1e-12*w,"the diagonal of a cell"); V v; for(uint d=0;d<D;d++) v[d]=sx::fx("x",-R,R-1,-e); I i=g.indexAt(v); auto b=g.boundsOf(i); auto c=g.centerOf(i);
    bool in=true,wide=true,mid=true; for(uint d=0;d<D;d++){ in&=(b.low[d]<=v[d])&(v[d]<b.high[d]); wide&=b.high[d]-b.low[d]==w; mid&=c[d]*2==b.low[d]+b.high[d]; } sx::check(in,"the cell of a point contains it"); sx::check(wide,"a cell has the grid width"); sx::check(mid,"the centre of a cell is the middle of its box");
    long m=2*R+4; I j; for(uint d=0;d<D;d++) j[d]=sx::s("j",-m,m); auto bj=g.boundsOf(j); bool inj=true,same=true,tile=true; for(uint d=0;d<D;d++){ inj&=(bj.low[d]<=v[d])&(v[d]<bj.high[d]); same&=i[d]==j[d]; } sx::check(inj==same,"no other cell contains the point"); for(uint d=0;d<D;d++){ I k=j; k[d]++; auto bk=g.boundsOf(k); for(uint q=0;q<D;q++) tile&=q==d?bk.low[q]==bj.high[q]:(bk.low[q]==bj.low[q])&(bk.high[q]==bj.high[q]); } sx::check(tile,"neighbouring cells share exactly their border"); I q=g.indexAt(g.centerOf(j)); bool back=true; for(uint d=0;d<D;d++) back&=q[d]==j[d]; sx::check(back,"the centre of a cell lies in it"); }
  else if(op==1){ static const double W[]={0.1,3,1/3.,0.7,1e-3,123.456,1e6,6.02e-7,0.3}; static const double S[]={1,0.1,1/3.,0.01,1e5,1e-4,7e-8,0.7,0.3}; double w=W[wc],s=S[symx_param_(5)]; Grid<D,double> g(w); V v; for(uint d=0;d<D;d++) v[d]=sx::fx("x",-(1l<<(R-1)),(1l<<(R-1))-1)*s; I i=g.indexAt(v); auto b=g.boundsOf(i); auto c=g.centerOf(i); bool in=true,wide=true,mid=true,tile=true; for(uint d=0;d<D;d++){ double m=(std::fabs(v[d])+w)*1e-15; in&=(b.low[d]<=v[d]+m)&(v[d]<=b.high[d]+m); wide&=std::fabs(b.high[d]-b.low[d]-w)<=m; mid&=std::fabs(c[d]*2-b.low[d]-b.high[d])<=2*m; I k=i; k[d]++; auto bk=g.boundsOf(k); tile&=bk.low[d]==b.high[d]; }
    sx::check(in,"the cell of a point contains it up to rounding"); sx::check(wide,"a cell has the grid width up to rounding"); sx::check(mid,"the centre of a cell is its middle up to rounding"); sx::check(tile,"neighbouring cells share exactly their border"); I q=g.indexAt(c); bool back=true; for(uint d=0;d<D;d++) back&=q[d]==i[d]; sx::check(back,"the centre of a cell lies in it"); }
  else { double w=std::ldexp(1.0,(int)wc); Grid<D,double> g(w); dSphere<D,double> s; s.radius=sx::fx("r",0,R,-e); for(uint d=0;d<D;d++) s.center[d]=sx::fx("c",-R,R,-e); I i; for(uint d=0;d<D;d++) i[d]=sx::conc(sx::s("i",-1,d?0:1)); double d2=0; for(uint d=0;d<D;d++){ double lo=(double)i[d]*w,hi=lo+w; double a=s.center[d]<lo?lo-s.center[d]:s.center[d]>hi?s.center[d]-hi:0; d2+=a*a; } sx::check(intersectsWith<D,double,int64_t>(g,s,i)==(d2<=s.radius*s.radius),"a sphere touches a cell exactly if it reaches into its box"); }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
