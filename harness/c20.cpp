// C20: helper geometry of boxes and vectors.  params: D, op (0 vector arithmetic, 1 point to box, 2 bounding box, 3 splitting), range, fractional bits / number of points
#include "geo.h"
#include <numeric>
#include "load_balancing/VectorOperations.h"
#include "load_balancing/BoxUtils.h"
using namespace LoadBalancing;
template<uint D> static void run(){ typedef dVector<D,double> V; long op=(long)symx_param_(1),R=(long)symx_param_(2),e=(long)symx_param_(3);
  auto vec=[&](const char*n,long f=0){ V v; for(uint d=0;d<D;d++) v[d]=sx::fx(n,-R,R,-f); return v; };
  auto real=[&](const char*n){ return R?sx::fx(n,-R,R):sx::f64(n); };
  if(op==0){ V a=vec("a"),b=vec("b"); double f=sx::fx("f",-R,R); bool ok=true; V s=a+b,m=a-b,n=-a,p=a*f,q=f*a; double sp=0,l2=0; for(uint d=0;d<D;d++){ ok&=(s[d]==a[d]+b[d])&(m[d]==a[d]-b[d])&(n[d]==0-a[d])&(p[d]==a[d]*f)&(q[d]==a[d]*f); sp+=a[d]*b[d]; l2+=a[d]*a[d]; } sx::check(ok,"vector arithmetic is component-wise"); sx::check(scalarProduct(a,b)==sp,"scalar product"); sx::check(lenSquared(a)==l2,"squared length"); sx::check(distanceToPlane(a,b,f)==sp-f,"distance to a plane"); }
  else if(op==4){ V a=vec("a"); double l2=0; for(uint d=0;d<D;d++) l2+=a[d]*a[d]; double l=len(a); sx::check((std::fabs(l*l-l2)<=1e-12*l2)&(l>=0),"length"); }
  else if(op==1){ V p=vec("p",e); dBox<D,double> b; for(uint d=0;d<D;d++){ b.low[d]=sx::fx("l",-R,R,-e); b.high[d]=sx::fx("h",-R,R,-e); sx::assume(b.low[d]<=b.high[d]); }
    V v=vecToBox<D,double>(p,b); bool ok=true,in=true,zero=true; for(uint d=0;d<D;d++){ double a=p[d]<b.low[d]?b.low[d]-p[d]:p[d]>b.high[d]?p[d]-b.high[d]:0; ok&=v[d]==a; in&=(b.low[d]<=p[d])&(p[d]<=b.high[d]); zero&=v[d]==0; } sx::check(ok,"per axis, the vector to a box is as long as the way to the nearest point of the box"); sx::check(zero==in,"the vector to a box is zero exactly inside");
    V w=vecToBoxBoundary<D,double>(p,b); double got=0,gap=4*R; bool nz=false,same=true; for(uint d=0;d<D;d++){ got+=w[d]<0?0-w[d]:w[d]; same&=w[d]==v[d]; double x=p[d]-b.low[d],y=b.high[d]-p[d]; double z=x<y?x:y; gap=z<gap?z:gap; } int cnt=0; for(uint d=0;d<D;d++) cnt+=w[d]!=0; sx::check(in?(got==gap)&(cnt<=1):same,"the vector to the boundary is as long as the way to the nearest boundary point"); }
  else if(op==2){ long n=e; std::vector<V> v; for(long i=0;i<n;i++){ V x; for(uint d=0;d<D;d++){ x[d]=real("x"); sx::assume(x[d]>-1e300); sx::assume(x[d]<1e300); } v.push_back(x); } V y; for(uint d=0;d<D;d++){ y[d]=real("y"); sx::assume(y[d]>-1e300); sx::assume(y[d]<1e300); }
    auto b=makeBoundingBox(v.begin(),v.end()); bool cov=true,tight=true; for(uint d=0;d<D;d++){ bool lo=false,hi=false; for(auto&x:v){ cov&=(b.low[d]<=x[d])&(x[d]<=b.high[d]); lo|=b.low[d]==x[d]; hi|=b.high[d]==x[d]; } tight&=lo&hi; } sx::check(cov,"the bounding box covers all points"); sx::check(tight,"the bounding box is the smallest one");
    auto c=b; enlargeBoxAroundVector<D,double>(c,y); bool ok=true; for(uint d=0;d<D;d++) ok&=(c.low[d]==(y[d]<b.low[d]?y[d]:b.low[d]))&(c.high[d]==(y[d]>b.high[d]?y[d]:b.high[d])); sx::check(ok,"enlarging takes in exactly the point"); }
  else { dBox<D,double> b; V p; for(uint d=0;d<D;d++){ b.low[d]=sx::f64("l"); b.high[d]=sx::f64("h"); p[d]=sx::f64("p"); sx::assume((b.low[d]<=b.high[d])&(b.low[d]>-1e300)&(b.high[d]<1e300)&(p[d]>-1e300)&(p[d]<1e300)); } uint k=sx::conc(sx::choose("dim",D)); double at=sx::f64("at"); sx::assume((b.low[k]<=at)&(at<=b.high[k]));
    auto [l,r]=splitBox<D,double>(b,k,at); bool out=true,tile=true; for(uint d=0;d<D;d++) out&=d==k?(l.low[d]==b.low[d])&(l.high[d]==at)&(r.low[d]==at)&(r.high[d]==b.high[d]):(l.low[d]==b.low[d])&(l.high[d]==b.high[d])&(r.low[d]==b.low[d])&(r.high[d]==b.high[d]); sx::check(out,"the parts meet at the split plane and reach the borders"); tile&=b.contains(p)==(l.contains(p)|r.contains(p)); sx::check(tile,"the parts cover exactly the box"); sx::check(!(l.contains(p)&r.contains(p))|(p[k]==at),"the parts share only the plane"); }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); }
