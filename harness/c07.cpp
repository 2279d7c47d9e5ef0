// C07: Bit_Set against a symbolic membership predicate.
#include "common.h"
#include "datastructures/Bit_Set.hxx"
typedef uint32_t K;
struct Ops { enum {INS,ERA,BAT}; struct O{int t;K a,b;} o[8]; int n=0;
  void add(int t,K a,K b=0){ o[n++]={t,a,b}; }
  bool has(K q)const{ bool r=false; for(int i=0;i<n;i++){ if(o[i].t==INS) r=r|(o[i].a==q); else if(o[i].t==ERA) r=r&(o[i].a!=q); else r=r|((o[i].a<=q)&(q<o[i].b)); } return r; } };
static K L,U; // bounds of the set under test
static K idx(const char*n,K l,K u){ return (K)sx::u(n,l,u-1); }
static void fill(Bit_Set&s,Ops&m,long what,K l,K u){ // what: decimal digits, 1 insert 2 erase 3 batch
  while(what){ int t=what%10; what/=10;
    if(t==1){ K k=idx("i",l,u); bool h=m.has(k); sx::check(s.insert(k)==!h,"insert-result"); m.add(Ops::INS,k); }
    if(t==2){ K k=idx("e",l,u); bool h=m.has(k); sx::check(s.erase(k)==h,"erase-result"); m.add(Ops::ERA,k); }
    if(t==3){ K f=idx("from",l,u), e=(K)sx::u("to",l,u); sx::assume(f<e); s.batchSet(f,e); m.add(Ops::BAT,f,e); }
    if(t==4){ K f=idx("from",l,u), e=(K)sx::u("to",l,u); sx::assume((f<e)&((f%32==0)|(e%32==0))); s.batchSet(f,e); m.add(Ops::BAT,f,e); }
    if(t==7){ K c[8]={l,l+1,(l/32+1)*32-1,(l/32+1)*32,(l/32+1)*32+1,(l/2+u/2),u-1,u}; K f=c[sx::choose("from",8)], e=c[sx::choose("to",8)]; sx::assume(f<e&&e<=u); f=sx::conc(f); e=sx::conc(e); s.batchSet(f,e); m.add(Ops::BAT,f,e); }
    if(t==8){ K c[4]={l,u-1,l/32*32+31,(l+u)/2/32*32}; K k=c[sx::choose("i",4)]; sx::assume(k>=l&&k<u); k=sx::conc(k); bool h=m.has(k); sx::check(s.insert(k)==!h,"insert-result"); m.add(Ops::INS,k); }
    if(t==5){ K k=idx("i",l,u); bool h=m.has(k); sx::check(s.testAndSet(k)==h,"testAndSet-result"); m.add(Ops::INS,k); }
    if(t==6){ K k=idx("e",l,u); bool h=m.has(k); sx::check(s.testAndUnset(k)==h,"testAndUnset-result"); m.add(Ops::ERA,k); }
  } }
template<class F> static void verdict(const Bit_Set&s,F has,K l,K u,bool count,const char*w){
  sx::check(s.lowerBound()<=l&&s.upperBound()>=u,"bounds");
  K q=sx::u32("q"); bool h=((q>=s.lowerBound())&(q<s.upperBound()))?has(q):false;
  sx::check(s.contains(q)==h,w); sx::check(s.count(q)==(h?1u:0u),w); sx::check(s.isSet(q)==h,w); sx::check(s.zero(q)==!h&&s.one(q)==h&&s.empty(q)==!h,w); sx::check(s.at(q)==(h?q:0),w);
  if(count){ size_t c=0; for(K i=s.lowerBound();i<s.upperBound();i++) c+=has(i); sx::check(s.size()==c,"size"); sx::check(s.ones()==c&&s.zeros()==s.upperBound()-s.lowerBound()-c,"ones-zeros"); sx::check(s.empty()==(c==0)&&s.zero()==(c==0)&&s.one()==(c==s.upperBound()-s.lowerBound()),"empty-one"); }
}
static void iterate(const Bit_Set&s,const Ops&m){ K prev=0; size_t c=0; bool first=true; for(auto it=s.begin();it!=s.end();++it){ K x=*it; sx::check(m.has(x),"iteration"); sx::check(first||x>prev,"iteration-order"); prev=x; first=false; c++; } sx::check(c==s.size(),"iteration-count"); }
extern "C" void symx_main(){
  long sc=sx::conc(symx_param_(0)); L=symx_param_(1); U=symx_param_(2); long w1=symx_param_(3); bool cnt=symx_param_(4); K l2=symx_param_(5),u2=symx_param_(6); long w2=symx_param_(7);
  Ops m,m2,m3; Bit_Set s(L,U);
  fill(s,m,w1,L,U);
  if(sc==0) verdict(s,[&](K q){return m.has(q);},L,U,cnt,"content");
  if(sc==1) iterate(s,m);
  if(sc==2){ s.resize(l2,u2); verdict(s,[&](K q){return m.has(q);},l2<L?l2:L,u2>U?u2:U,cnt,"resize-content"); fill(s,m,w2,l2,u2); verdict(s,[&](K q){return m.has(q);},L,U,cnt,"content-after-resize"); }
  if(sc==3){ Bit_Set o(l2,u2); fill(o,m2,w2,l2,u2); s.merge(o); verdict(s,[&](K q){return m.has(q)|m2.has(q);},l2<L?l2:L,u2>U?u2:U,cnt,"merge-content"); verdict(o,[&](K q){return m2.has(q);},l2,u2,false,"merge-operand"); }
  if(sc==4){ Bit_Set o(l2,u2); fill(o,m2,w2,l2,u2); s.filter(o); verdict(s,[&](K q){return m.has(q)&!m2.has(q);},L,U,cnt,"filter-content"); }
  if(sc==5){ Bit_Set o(l2,u2),f(symx_param_(8),symx_param_(9)); fill(o,m2,w2,l2,u2); fill(f,m3,symx_param_(10),symx_param_(8),symx_param_(9)); s.mergeFilter(o,f); verdict(s,[&](K q){return (m.has(q)|m2.has(q))&!m3.has(q);},l2<L?l2:L,u2>U?u2:U,cnt,"mergefilter-content"); }
  if(sc==6){ Bit_Set c(0,1); c.copy(s); verdict(c,[&](K q){return m.has(q);},L,U,cnt,"copy-content"); Ops mc=m; fill(c,mc,1,L,U); verdict(s,[&](K q){return m.has(q);},L,U,false,"original-after-copy"); Bit_Set d(std::move(c)); Bit_Set e(0,1); e=std::move(d); verdict(e,[&](K q){return mc.has(q);},L,U,cnt,"moved-content"); }
  if(sc==7){ Concurrent_Bit_Set c(std::move(s)); K q=idx("q",L,U); bool h=m.has(q); sx::check(c.contains(q)==h,"to-concurrent"); sx::check(c.insert(q)==!h,"to-concurrent"); m.add(Ops::INS,q); Bit_Set b(std::move(c)); verdict(b,[&](K x){return m.has(x);},L,U,cnt,"from-concurrent"); 
    Concurrent_Bit_Set o(l2,u2); Ops mo; for(int i=0;i<w2;i++){ K k=idx("k",l2,u2); o.insert(k); mo.add(Ops::INS,k); } Bit_Set d(0,1); d.copy(o); verdict(d,[&](K x){return mo.has(x);},l2,u2,cnt,"copy-of-concurrent"); }
  sx::reach("end");
}
