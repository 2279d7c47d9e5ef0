// C37/C38: experiment records: printing and parsing, equality, traits, measurements and counters, for every string up to a length.
#include "strs.h"
#include "utils/Timings.h"
const char GIT_COMMIT[]="g1";
namespace std { struct sx_ostream {}; }
#include "src/utils/Timings.cpp"
typedef std::string S; typedef ExperimentRun R;
static S str(const char*n,int lo,int hi,const S&not_,bool any=false){ int k=lo+(int)sx::conc(sx::choose(n,hi-lo+1)); S s; for(int i=0;i<k;i++){ uint8_t c=any?sx::u8(n):(uint8_t)sx::u(n,'a','d'); for(char x:not_) sx::assume(c!=(uint8_t)x); s.push_back((char)c); } return s; }
static bool ign(const S&s){ return (s=="git-rev")||(s=="start-time")||(s=="end-time")||(s=="run-number")||(s=="host"); }
static std::map<S,S> rel(const R&r){ std::map<S,S> m; for(auto&t:r.traits()) if(!ign(t.first)) m[t.first]=t.second; return m; }
extern "C" void symx_main(){ long kind=sx::conc(symx_param_(0)); int n=sx::conc(symx_param_(1)); int ln=sx::conc(symx_param_(2)),lv=sx::conc(symx_param_(3)); bool any=symx_param_(4); static const char*TS[]={"   ",";","--","ab"}; static const char*IS[]={": ","=","->","c"}; int si=sx::conc(symx_param_(5)); S ts=TS[si],is=IS[si];
  static const char*BK[]={"git-rev","start-time","end-time","run-number","host"};
  if(kind==0){ // print, parse, compare
    R a; for(int i=0;i<n;i++) a.addTrait(str("name",1,ln,ts+is,any),str("value",0,lv,ts+is,any)); if(symx_param_(6)){ int b=sx::conc(sx::choose("bk",5)); a.updateTrait(BK[b],str("bv",0,1,ts+is,any)); }
    S p=si?a.str(ts,is):a.str(); R b=si?R(p,ts,is):R(p); sx::check(a==b,"parse-equal"); sx::check(b==a,"parse-equal"); sx::check(rel(a)==rel(b),"parse-same"); R c=si?R(b.str(ts,is),ts,is):R(b.str()); sx::check(c==a,"parse-equal"); }
  if(kind==1){ // equality is exactly trait-wise equality of the rest
    R a,b; R*r[2]={&a,&b}; for(int k=0;k<2;k++){ for(int i=0;i<n;i++) if(sx::choose("add",2)) r[k]->addTrait(str("name",1,ln,"",any),str("value",0,lv,"",any)); int x=sx::conc(sx::choose("bk",symx_param_(6)?6:1)); if(x) r[k]->updateTrait(BK[x-1],S("q")); }
    bool e=rel(a)==rel(b); sx::check((a==b)==e,"equality"); sx::check((b==a)==e,"equality"); sx::check(a==a,"equality"); }
  if(kind==2){ // traits: add keeps, update replaces; numbers convert
    R a; std::map<S,S> w; w["host"]=a.getTrait("host"); w["git-rev"]="g1"; sx::check(a.traits()==w,"fresh"); for(int i=0;i<n;i++){ S k=str("name",0,ln,"",any); long op=sx::conc(sx::choose("op",4)); if(op==0){ S v=str("value",0,lv,"",any); a.addTrait(k,v); w.emplace(k,v); } if(op==1){ S v=str("value",0,lv,"",any); a.updateTrait(k,v); w[k]=v; } if(op>=2){ unsigned long v=sx::u("num",0,150); std::sx_stringstream s; s<<v; if(op==2){ a.addTrait(k,v); bool had=w.count(k); w.emplace(k,s.str()); if(!had) sx::check(a.getTrait<unsigned long>(k)==v,"number"); } else { a.updateTrait(k,v); w[k]=s.str(); sx::check(a.getTrait<unsigned long>(k)==v,"number"); } } }
    sx::check(a.traits()==w,"traits"); S q=str("q",0,ln,"",any); sx::check(a.hasTrait(q)==(w.count(q)>0),"hasTrait"); bool threw=false; S g; try { g=a.getTrait(q); } catch(const std::out_of_range&){ threw=true; } sx::check(threw==!w.count(q),"getTrait"); if(!threw) sx::check(g==w[q],"getTrait"); }
  if(kind==3||kind==4){ // measurements and counters, through the record or through the process-wide accessor
    R a; bool acc=kind==4; auto&ax=ExperimentRunAccessor::getInstance(); sx::check(&ax==&ExperimentRunAccessor::getInstance(),"one-accessor"); if(acc){ ax.incCounter("a",7); ax.addMeasurement("a",7); ax.setRun(&a); } static const char*NM[]={"a","b","ab",""}; uint64_t ms[4][8]; int mc[4]={0}; uint64_t ct[4]={0}; bool ch[4]={false};
    for(int i=0;i<n;i++){ int k=sx::conc(sx::choose("which",sx::conc(symx_param_(2)))); long op=sx::conc(sx::choose("op",3)); uint64_t v=sx::u64("v"); if(op==0){ if(acc) ax.addMeasurement(NM[k],v); else a.addMeasurement(NM[k],v); ms[k][mc[k]++]=v; } if(op==1){ if(acc) ax.incCounter(NM[k],v); else a.incCounter(NM[k],v); ct[k]+=v; ch[k]=true; } if(op==2){ if(acc) ax.incCounter(NM[k]); else a.incCounter(NM[k]); ct[k]+=1; ch[k]=true; } }
    if(acc){ ax.setRun(nullptr); ax.incCounter("a",5); ax.addMeasurement("a",5); }
    int nm=0,nc=0; for(int k=0;k<4;k++){ nm+=mc[k]>0; nc+=ch[k]; if(mc[k]){ auto&m=a.measurements(NM[k]); sx::check(m.size()==(size_t)mc[k],"measurements"); uint64_t s=0; for(int i=0;i<mc[k];i++){ sx::check(m[i]==ms[k][i],"measurements"); s+=ms[k][i]; } sx::check(a.avgMeasurement(NM[k])==s/(uint64_t)mc[k],"average"); } if(ch[k]) sx::check(a.counter(NM[k])==ct[k],"counter"); else { bool t=false; try { (void)a.counter(NM[k]); } catch(const std::out_of_range&){ t=true; } sx::check(t,"counter"); } }
    sx::check(a.measurements().size()==(size_t)nm,"measurements"); sx::check(a.counters().size()==(size_t)nc,"counters"); sx::check(a.traits().size()==2,"traits"); }
  if(kind==5){ // printing with measurements: the traits, then each average
    R a; unsigned long x=sx::u("x",0,30),y=sx::u("y",0,30); a.addTrait("t",S("u")); a.addMeasurement("m",x); a.addMeasurement("m",y); std::sx_stringstream w; w<<a.str(ts,is)<<ts<<"m"<<is<<(x+y)/2; sx::check(a.str(ts,is,true)==w.str(),"printed-measurements"); R b(a.str(ts,is,true),ts,is); sx::check(b.getTrait<unsigned long>("m")==(x+y)/2,"printed-measurements"); }
  sx::reach("end"); }
