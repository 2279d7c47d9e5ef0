// C40: point generators for every outcome of the random source (on a grid): the requested ids are filled, inside the bounds, and the reserved entry stays.
#include "geo.h"
#include <random>
#include <functional>
#include <algorithm>
#include <cassert>
static int draws=0,maxd,ub,nb_; static double ns;
namespace std {
template<class T> struct sx_urd { T a,b; sx_urd(T x=0,T y=1):a(x),b(y){} template<class G> T operator()(G&){ draws++; if(draws>maxd) sx::assume(false); if(ub==0) return a+(b-a)*((T)sx::conc(sx::choose("half",2))/2); return a+(b-a)*((T)sx::fx("u",0,(1<<ub)-1)/(T)(1<<ub)); } };
template<class T> struct sx_nd { T m,s; sx_nd(T x=0,T y=1):m(x),s(y){} template<class G> T operator()(G&){ draws++; if(draws>maxd) sx::assume(false); if(m==1) return m+s*(T)((int)sx::conc(sx::choose("few",3))-1)*3; return m+s*((T)sx::fx("n",-(1<<(nb_-1)),(1<<(nb_-1))-1)*(T)ns); } };
}
#define uniform_real_distribution sx_urd
#define normal_distribution sx_nd
#include "utils/Generator.h"
#include "load_balancing/MaliciousBubbleGenerator.h"
#include "load_balancing/UnboundBubbleGenerator.h"
#include "load_balancing/PatchBubbleGenerator.h"
static int sorted_=0;
template<uint D,typename P> void CGALSpatialSorter<D,P>::sort(dPoints<D,P>&){ sorted_++; } // only reorders; CGAL is not here
template class CGALSpatialSorter<2,double>; template class CGALSpatialSorter<3,double>;
template<uint D> static void run(){ long kind=symx_param_(1); int n=sx::conc(symx_param_(2)); ub=sx::conc(symx_param_(3)); nb_=sx::conc(symx_param_(4)); ns=symx_param_(5)?(double)symx_param_(5)/4:1; maxd=sx::conc(symx_param_(6)); int bub=sx::conc(symx_param_(7)); long box=symx_param_(8);
  dBox<D,double> b; for(uint d=0;d<D;d++){ static const double L[4][3]={{16,8,32},{-64,-7.5,-3},{1e6,-1e6,0.1},{5,5,5}},H[4][3]={{32,24,40},{-32,-6.5,-1},{1e6+3,-1e6+0.3,0.7},{6,7,13}}; b.low[d]=L[box][d]; b.high[d]=H[box][d]; }
  std::unique_ptr<PointGenerator<D,double>> g; static const char C[]={'u','n','b','e','l','x'}; if(kind<6) g=GeneratorFactory<D,double>::make(C[kind]); else if(kind==6) g.reset(new LoadBalancing::MaliciousBubbleGenerator<D,double>(bub)); else if(kind==7) g.reset(new LoadBalancing::UnboundBubbleGenerator<D,double>(bub,0.25)); else g.reset(new LoadBalancing::PatchBubbleGenerator<D,double>(bub));
  tGenerator rg(1); auto ps=g->generate(n,b,rg); sx::check(ps.finite_size()==(size_t)n+1,"count"); sx::check(ps.offset()==0,"count"); sx::check(sorted_==1,"sorted");
  for(uint d=0;d<D;d++) sx::check(ps.at(0).coords[d]==0,"reserved-entry"); double tol=(kind==3||kind==4||kind==7)?1e-9*(1e6):0; if(box!=2) tol=tol?1e-9*64:0;
  for(int i=1;i<=n;i++){ bool in=true; for(uint d=0;d<D;d++){ double x=ps.at(i).coords[d]; in&=(x>=b.low[d]-tol)&(x<=b.high[d]+tol); } sx::check(in,"inside"); } }
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); sx::reach("end"); }
