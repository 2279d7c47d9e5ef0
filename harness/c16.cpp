// C16: point statistics are the exact bounding box, for every coordinate and every splitting of the range; file loading too.
// The C++ library's file stream, string stream and stod are replaced by stand-ins with the documented behaviour (text lines held in memory).
#include "common.h"
#include <sstream>
#include <fstream>
namespace sxf { static std::vector<std::string> lines; static double vals[32]; }
namespace std {
struct sx_ifstream { size_t at=0; bool op=false,good_=true; void open(const std::string&){ op=true; } bool is_open(){ return op; } void close(){ op=false; } explicit operator bool()const{ return good_; } };
inline sx_ifstream&getline(sx_ifstream&f,std::string&l){ if(f.at<sxf::lines.size()) l=sxf::lines[f.at++]; else f.good_=false; return f; }
struct sx_istringstream { std::string s; size_t p=0; bool e=false; sx_istringstream(const std::string&x):s(x){} bool eof()const{ return e; } };
inline sx_istringstream&getline(sx_istringstream&f,std::string&o,char d){ o.clear(); while(f.p<f.s.size()&&f.s[f.p]!=d) o.push_back(f.s[f.p++]); if(f.p<f.s.size()) f.p++; else f.e=true; return f; }
inline double sx_stod(const std::string&s){ return sxf::vals[(unsigned char)s[0]-'A']; }
}
#define ifstream sx_ifstream
#define istringstream sx_istringstream
#define stod sx_stod
#include "geo.h"
#include "Partitioner.h"
template<uint D> static void run(){ typedef dPoint<D,double> P; long kind=sx::conc(symx_param_(1)); int n=sx::conc(symx_param_(2)); bool raw=symx_param_(3); bool infs=symx_param_(4); long R=1000;
  auto&c=tbb::cfg(); c.mode=symx_param_(5); c.budget=symx_param_(6); c.slots=2; c.chooseSlot=c.mode!=0;
  double x[6][3]; auto val=[&]()->double{ if(raw){ double v=sx::f64("x"); sx::assume(v>-1e300); sx::assume(v<1e300); return v; } return sx::fx("x",-R,R); };
  for(int i=0;i<n;i++) for(uint d=0;d<D;d++) x[i][d]=val();
  double mn[3],mx[3]; for(uint d=0;d<D;d++){ mn[d]=mx[d]=x[0][d]; for(int i=1;i<n;i++){ mn[d]=x[i][d]<mn[d]?x[i][d]:mn[d]; mx[d]=x[i][d]>mx[d]?x[i][d]:mx[d]; } }
  dPoints<D,double> ps;
  if(kind==4){ int m=0; for(int i=0;i<n;i++){ std::string l; for(uint d=0;d<D;d++){ sxf::vals[m]=x[i][d]; if(d) l.push_back(' '); l.push_back('A'+m++); } sxf::lines.push_back(l); }
    auto b=ps.loadFromFile("f"); sx::check(ps.finite_size()==(size_t)n+1,"loaded-count"); for(int i=0;i<n;i++) for(uint d=0;d<D;d++) sx::check(ps.at(i+1).coords[d]==x[i][d],"loaded-point"); for(uint d=0;d<D;d++) sx::check((b.low[d]==mn[d])&(b.high[d]==mx[d]),"loaded-bounds"); return; }
  ps.resize(n+1); Point_Ids ids(4*(n+4)); for(int i=0;i<n;i++){ for(uint d=0;d<D;d++) ps.at(i+1).coords[d]=x[i][d]; ids.insert(i+1); }
  if(infs){ for(tIdType k=P::cINF;k!=0;++k){ for(uint d=0;d<D;d++) ps.at(k).coords[d]=raw?1e301:5000; if(kind!=1) ids.insert(k); } }
  dPointStats<D,double> s; if(kind==0) s=getPointStatsSeq(ids.begin(),ids.end(),ps); if(kind==1) s=getPointStatsSeq(std::size_t(1),ps.finite_size(),ps); if(kind==2) s=getPointStats(ids,ps); if(kind==3) s=getPointStats(ps,ps);
  for(uint d=0;d<D;d++){ sx::check(s.min[d]==mn[d],"min"); sx::check(s.max[d]==mx[d],"max"); if(!raw) sx::check(s.mid[d]*2==mn[d]+mx[d],"mid"); else sx::check(s.mid[d]==(s.max[d]+s.min[d])/2,"mid"); }
  if(kind==2){ auto q=getPointStatsSeq(ids.begin(),ids.end(),ps); sx::check(q==s,"seq-equals-par"); }
  if(infs&&kind==2){ auto q=getPointStats(ids,ps,false); for(uint d=0;d<D;d++) sx::check(q.max[d]==(raw?1e301:5000),"infinite-counted"); }
}
extern "C" void symx_main(){ if(symx_param_(0)==2) run<2>(); else run<3>(); sx::reach("end"); }
