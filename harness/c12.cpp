// C12: dPoints / VectorAdapter2: finite and infinite ids address disjoint slots, growth keeps points.
#include "geo.h"
template<uint D> static void run(){
  typedef dPoints<D,double> PS; typedef dPoint<D,double> P; const uint64_t NI=1u<<D; const uint64_t CI=~0ull-(NI-1);
  long script=symx_param_(1); uint64_t off=symx_param_(2)?sx::u("off",0,1ull<<61):0;
  PS ps; sx::check(ps.finite_size()==1&&ps.offset()==0,"fresh"); for(uint d=0;d<D;d++) sx::check(ps.at(0).coords[d]==0,"zero-entry"); ps.offset(off); uint64_t n=1; 
  uint64_t wi[6]; double wv[6][3]; int k=0;
  auto bits=[](double x){ uint64_t u; __builtin_memcpy(&u,&x,8); return u; };
  auto fin=[&](uint64_t i){ return i<CI; };
  auto ok=[&](uint64_t i){ return fin(i)?(i>=off)&(i-off<n):true; };
  while(script){ int t=script%10; script/=10;
    if(t==1||t==2){ uint64_t i=sx::u64("i"); P p; for(uint d=0;d<D;d++) p.coords[d]=sx::f64("x"); sx::assume(ok(i)); wi[k]=i; for(uint d=0;d<D;d++) wv[k][d]=p.coords[d]; k++; if(t==1) ps[i]=p; else ps.at(i)=p; }
    if(t==3){ uint64_t add=sx::conc(sx::choose("grow",4)); if(n+add>n) ps.reserveUpToIdx(off+n+add); n+=add; if(add==0) ps.reserveUpToIdx(off+n); }
    if(t==4){ P p; for(uint d=0;d<D;d++) p.coords[d]=sx::f64("x"); ps.emplace_back(p); wi[k]=off+n; for(uint d=0;d<D;d++) wv[k][d]=p.coords[d]; k++; n++; }
    if(t==5){ uint64_t c=sx::conc(sx::choose("size",3)); ps.resize(n+c); n+=c; }
    if(t==6){ std::vector<P> v(2); for(auto&p:v) for(uint d=0;d<D;d++) p.coords[d]=sx::f64("x"); ps.insert(ps.end(),v.begin(),v.end()); for(int j=0;j<2;j++){ wi[k]=off+n+j; for(uint d=0;d<D;d++) wv[k][d]=v[j].coords[d]; k++; } n+=2; }
    if(t==7){ uint64_t less=sx::conc(sx::choose("less",n)); ps.reserveUpToIdx(off+n-less); }
    sx::check(ps.finite_size()==n,"finite-size"); sx::check(ps.size()==n+NI,"size");
  }
  uint64_t q=sx::u64("q"); const PS&c=ps;
  sx::check(P::isFinite(q)==fin(q),"isFinite"); if(!fin(q)) sx::check(P::infIndex(q)==q-CI,"infIndex");
  sx::check(ps.contains(q)==(fin(q)?(q>off)&(q-off<n):true),"contains"); const VectorAdapter2<P>&va=ps; sx::check(va.contains(q)==ok(q),"base-contains");
  auto r=c.range(); sx::check(r.begin()==off+1&&r.end()==off+n,"range");
  bool has=false; double e[3]={0,0,0}; for(int j=0;j<k;j++){ bool m=wi[j]==q; has|=m; for(uint d=0;d<D;d++) e[d]=m?wv[j][d]:e[d]; }
  if(has){ for(uint d=0;d<D;d++){ sx::check(bits(c.at(q).coords[d])==bits(e[d]),"value"); sx::check(bits(ps[q].coords[d])==bits(e[d]),"value"); sx::check(bits(c[q].coords[d])==bits(e[d]),"value"); }
    std::vector<uint64_t> ids{q,off}; auto f=c.template filter<std::vector<P>>(ids); sx::check(f.size()==2&&bits(f[0].coords[0])==bits(e[0])&&bits(f[1].coords[0])==bits(c.at(off).coords[0]),"filter"); }
  else if(!ok(q)){ bool threw=false; try { (void)c.at(q); } catch(const std::exception&){ threw=true; } catch(const AssertionException&){ threw=true; } sx::check(threw,"at-rejects"); }
  size_t cnt=0; for(auto it=ps.begin();it!=ps.end();++it) cnt++; sx::check(cnt==n,"iteration");
  PS cp(ps); cp.offset(off); if(has) sx::check(bits(cp.at(q).coords[0])==bits(e[0]),"copied"); 
}
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); sx::reach("end"); }
