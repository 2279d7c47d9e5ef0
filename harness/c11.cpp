// C11: BlockedArray2, the simplex store: blocks at symbolic places, every lookup history, merge order, iteration, store and load.
#include "common.h"
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/split_member.hpp>
#include <boost/serialization/array_wrapper.hpp>
#include "datastructures/BlockedArray2.hxx"
typedef uint64_t I; typedef uint32_t T; typedef BlockedArray2<T,I> S;
static int nb; static I lo[4],len[4];
static bool covered(I q){ bool r=false; for(int i=0;i<nb;i++) r|=(q>=lo[i])&(q<lo[i]+len[i]); return r; }
static T tag(I q){ return (T)((q^(q>>32))+7); } // content identifies the id
static void fillBlock(S&s,int i){ for(I x=0;x<len[i];x++) s.unsafe_at(lo[i]+x)=tag(lo[i]+x); }
template<class H> static void probe(H&h,S&s,const char*w){ I q=sx::u64("q"); bool in=covered(q); sx::check(h.contains(q)==in,w); if(symx_param_(8)){ bool threw=false; T t=0; try { t=h.at(q); } catch(const std::out_of_range&){ threw=true; } sx::check(threw==!in,"out-of-range"); if(!threw) sx::check(t==tag(q),"value"); } else if(in) sx::check(h.at(q)==tag(q),"value"); }
struct OAr { typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading; std::vector<uint64_t> b; size_t pos=0;
  template<class X> typename std::enable_if<std::is_integral<X>::value,OAr&>::type operator<<(const X&x){ b.push_back(x); return *this; }
  template<class X> OAr& operator<<(const boost::serialization::array_wrapper<X>&x){ for(size_t i=0;i<x.count();i++) *this<<x.address()[i]; return *this; }
  template<class X> typename std::enable_if<!std::is_integral<X>::value,OAr&>::type operator<<(const X&x){ boost::serialization::access::serialize(*this,const_cast<X&>(x),0); return *this; }
  template<class X> OAr& operator&(const X&x){ return *this<<x; } };
struct IAr { typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading; std::vector<uint64_t> b; size_t pos=0;
  template<class X> typename std::enable_if<std::is_integral<X>::value,IAr&>::type operator>>(X&x){ sx::check(pos<b.size(),"load-size"); x=b[pos++]; return *this; }
  template<class X> IAr& operator>>(const boost::serialization::array_wrapper<X>&x){ for(size_t i=0;i<x.count();i++) *this>>x.address()[i]; return *this; }
  template<class X> typename std::enable_if<!std::is_integral<X>::value,IAr&>::type operator>>(X&x){ boost::serialization::access::serialize(*this,x,0); return *this; }
  template<class X> IAr& operator&(X&x){ return *this>>x; } };
static void iterate(S&s){ I prev=0; size_t c=0; for(auto it=s.begin();it!=s.end();++it){ T v=*it; bool known=false; for(int i=0;i<nb;i++) for(I x=0;x<len[i];x++) known|=v==tag(lo[i]+x); sx::check(known,"iteration"); c++; if(c>20) sx::check(false,"iteration-ends"); }
  size_t want=0; for(int i=0;i<nb;i++) want+=len[i]; sx::check(c==want,"iteration-count"); }
static void order(S&s){ // write ascending numbers by iteration, then check they ascend with the id
  T k=0; for(auto it=s.begin();it!=s.end();++it) *it=k++; for(int i=0;i<nb;i++) for(I x=0;x<len[i];x++) for(int j=0;j<nb;j++) for(I y=0;y<len[j];y++) if(i!=j||x!=y) sx::check((lo[i]+x<lo[j]+y)==(s.unsafe_at(lo[i]+x)<s.unsafe_at(lo[j]+y)),"iteration-order");
  const S&c=s; T e=0; for(auto it=c.begin();it!=c.end();++it) sx::check(*it==e++,"const-iteration"); sx::check(e==k,"const-iteration"); 
  if(k>0){ auto it=s.end(); T d=k; while(d>0){ --it; d--; sx::check(*it==d,"backward-iteration"); } sx::check(it==s.begin(),"backward-iteration"); } }
extern "C" void symx_main(){
  long sc=sx::conc(symx_param_(0)); nb=sx::conc(symx_param_(1)); for(int i=0;i<nb;i++) len[i]=sx::conc(symx_param_(2+i)); bool csym=symx_param_(5); I gapmax=symx_param_(6);
  // positions: ascending with gaps, then permuted
  I at=csym?sx::u("start",0,1ull<<60):sx::conc(sx::choose("start",2)); I pos[4]; int perm[4]={0,1,2,3};
  if(nb>1){ int np=nb==2?2:6; static const int P[6][3]={{0,1,2},{1,0,2},{2,1,0},{0,2,1},{1,2,0},{2,0,1}}; long w=sx::conc(sx::choose("perm",np)); for(int i=0;i<nb;i++) perm[i]=P[w][i]; }
  for(int i=0;i<nb;i++){ int b=perm[i]; if(i){ at+=csym?sx::u("gap",0,gapmax):sx::conc(sx::choose("gap",2))*gapmax; } lo[b]=at; at+=len[b]; }
  if(sc==0||sc==1){ // addBlock in any order
    S s(lo[0],lo[0]+len[0]); for(int i=1;i<nb;i++){ auto&blk=s.addBlock(lo[i],lo[i]+len[i]); sx::check(blk.min()==lo[i]&&blk.max()==lo[i]+len[i],"addBlock-returns-it"); }
    for(int i=0;i<nb;i++) for(I x=0;x<len[i];x++) sx::check(s.unsafe_at(lo[i]+x)==0,"fresh-slots-zero");
    for(int i=0;i<nb;i++) fillBlock(s,i);
    I mn=~0ull,mx=0,sz=0; for(int i=0;i<nb;i++){ mn=lo[i]<mn?lo[i]:mn; mx=lo[i]+len[i]>mx?lo[i]+len[i]:mx; sz+=len[i]; } sx::check(s.lowerBound()==mn&&s.upperBound()==mx&&s.exact_size()==sz,"bounds");
    if(sc==0){ BlockedArray2Handle<S,I> h(s); int hist=symx_param_(7); for(int i=0;i<hist;i++) probe(h,s,"handle-contains"); I q=sx::u64("q2"); bool in=covered(q); sx::check(s.unsafe_contains(q)==in,"contains"); if(in) sx::check(s.unsafe_at(q)==tag(q),"value"); probe(h,s,"handle-contains"); }
    else { iterate(s); order(s); } }
  if(sc==2){ // merge two stores (nb>=2): the first block alone, the others together; bounds and hints from before the merge
    S a(lo[0],lo[0]+len[0]); fillBlock(a,0); S b(lo[1],lo[1]+len[1]); for(int i=2;i<nb;i++) b.addBlock(lo[i],lo[i]+len[i]); for(int i=1;i<nb;i++) fillBlock(b,i);
    bool sw=sx::choose("into",2); S&r=sw?b:a; S&o=sw?a:b; r.merge(std::move(o));
    I mn=~0ull,mx=0; for(int i=0;i<nb;i++){ mn=lo[i]<mn?lo[i]:mn; mx=lo[i]+len[i]>mx?lo[i]+len[i]:mx; } sx::check(r.lowerBound()==mn&&r.upperBound()==mx,"merged-bounds");
    BlockedArray2Handle<S,I> h(r); for(int i=0;i<(int)symx_param_(7);i++) probe(h,r,"merged-contains"); I q=sx::u64("q2"); bool in=covered(q); sx::check(r.unsafe_contains(q)==in,"merged-contains"); if(in) sx::check(r.unsafe_at(q)==tag(q),"merged-value"); iterate(r); }
  if(sc==3){ S s(lo[0],lo[0]+len[0]); for(int i=1;i<nb;i++) s.addBlock(lo[i],lo[i]+len[i]); for(int i=0;i<nb;i++) fillBlock(s,i);
    OAr o; o<<s; IAr in; in.b=o.b; S l(0,1); in>>l; sx::check(in.pos==in.b.size(),"load-size"); BlockedArray2Handle<S,I> h(l); probe(h,l,"loaded-contains"); iterate(l);
    S m(std::move(l)); S n(0,1); n=std::move(m); BlockedArray2Handle<S,I> h2(n); probe(h2,n,"moved-contains"); }
  sx::reach("end");
}
