// C15: dBox: containment of points and boxes (every double), spheres and subtraction (bounded integers, exact arithmetic).
#include "geo.h"
template<uint D> static void run(long sc){
  typedef dBox<D,double> B; typedef dVector<D,double> V; long R=symx_param_(2);
  auto fin=[](double x){ sx::assume(x>-1e300); sx::assume(x<1e300); return x; };
  if(sc==0){ B b,c; V p; for(uint d=0;d<D;d++){ b.low[d]=fin(sx::f64("l")); b.high[d]=fin(sx::f64("h")); c.low[d]=fin(sx::f64("cl")); c.high[d]=fin(sx::f64("ch")); p[d]=fin(sx::f64("p")); }
    bool in=true,bin=true; for(uint d=0;d<D;d++){ in&=(b.low[d]<=p[d])&(p[d]<=b.high[d]); bin&=(b.low[d]<=c.low[d])&(c.high[d]<=b.high[d]); } sx::check(b.contains(p)==in,"contains-point"); sx::check(b.contains(c)==bin,"contains-box");
    bool eq=true; for(uint d=0;d<D;d++) eq&=(b.low[d]==c.low[d])&(b.high[d]==c.high[d]); sx::check((b==c)==eq,"equality"); if(bin){ bool cin=true; for(uint d=0;d<D;d++) cin&=(c.low[d]<=p[d])&(p[d]<=c.high[d]); if(cin) sx::check(b.contains(p),"contains-monotone"); } B k(b.low,b.high); sx::check(k==b,"constructor"); return; }
  B b; for(uint d=0;d<D;d++){ b.low[d]=sx::fx("l",-R,R); b.high[d]=sx::fx("h",-R,R); sx::assume(b.low[d]<=b.high[d]); }
  if(sc==1||sc==2){ dSphere<D,double> s; s.radius=sx::fx("r",0,R); for(uint d=0;d<D;d++) s.center[d]=sx::fx("c",-R,R);
    if(sc==1){ double dist=0; for(uint d=0;d<D;d++){ double e=s.center[d]<b.low[d]?b.low[d]-s.center[d]:s.center[d]>b.high[d]?s.center[d]-b.high[d]:0; dist+=e*e; } sx::check(b.intersects(s)==(dist<=s.radius*s.radius),"intersects-sphere"); }
    else { bool in=true; for(uint d=0;d<D;d++) in&=(b.low[d]<=s.center[d]-s.radius)&(s.center[d]+s.radius<=b.high[d]); sx::check(b.contains(s)==in,"contains-sphere"); } }
  if(sc==3){ uint k=sx::conc(sx::choose("dim",D)); double at=sx::fx("at",-R,R); sx::assume(b.low[k]<at); sx::assume(at<b.high[k]); B l(b),r(b); l.high[k]=at; r.low[k]=at; B x=b-l, y=b-r; sx::check(x==r,"subtract-left"); sx::check(y==l,"subtract-right"); }
}
extern "C" void symx_main(){ long sc=sx::conc(symx_param_(1)); if(symx_param_(0)==2) run<2>(sc); else run<3>(sc); sx::reach("end"); }
