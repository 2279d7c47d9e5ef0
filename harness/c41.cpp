// C41: simplex id handlers: ids in use are distinct, below the maximum, released ids come back before new ones, nothing comes back after disabling; two threads at once for the concurrent one.
#include "common.h"
typedef uint64_t tIdType;
#include "utils/IndexHandler.h"
static tIdType used[16]; static int nu=0;
template<class H> static void seq(){ tIdType base=symx_param_(1)?sx::u64("base"):0; if(symx_param_(1)) sx::assume(base<~0ull-16); H dflt; sx::check(dflt.maxId()==0,"fresh"); H h(base); int steps=symx_param_(2); tIdType fr[16]; int nf=0; bool en=true; tIdType next=base;
  for(int i=0;i<steps;i++){ long op=sx::conc(sx::choose("op",3)); 
    if(op==0){ tIdType id=h.getId(); bool dup=false; for(int j=0;j<nu;j++) dup|=used[j]==id; sx::check(!dup,"in-use"); if(nf){ bool from=false; int at=0; for(int j=0;j<nf;j++) if(fr[j]==id){ from=true; at=j; break; } sx::check(from,"released-first"); if(from){ fr[at]=fr[--nf]; } } else { sx::check(id==next,"new-id"); next++; } used[nu++]=id; sx::check((id>=base)&(id<h.maxId()),"below-max"); }
    if(op==1){ if(!nu) continue; int j=sx::conc(sx::choose("which",nu)); tIdType id=used[j]; used[j]=used[--nu]; h.releaseId(id); if(en) fr[nf++]=id; }
    if(op==2){ if(!en) continue; h.disable(); en=false; }
    sx::check(h.maxId()==next,"maximum"); } }
static _detail::Concurrent_IndexHandler*H; static long script[2]; static tIdType own[2][8]; static int no[2];
static void work(void*p){ int t=(int)(long)p; for(long s=script[t];s;s/=10){ if(s%10==1) own[t][no[t]++]=H->getId(); if(s%10==2&&no[t]){ H->releaseId(own[t][--no[t]]); } } }
static void conc(){ tIdType base=symx_param_(1); int pre=symx_param_(2); _detail::Concurrent_IndexHandler h(base); H=&h; tIdType ids[4]; for(int i=0;i<pre;i++) ids[i]=h.getId(); for(int i=0;i<pre;i++) h.releaseId(ids[i]); script[0]=symx_param_(3); script[1]=symx_param_(4);
  int id=symx_spawn_(work,(void*)1); work((void*)0); symx_join_(id);
  int n=0; tIdType all[16]; for(int t=0;t<2;t++) for(int i=0;i<no[t];i++) all[n++]=own[t][i]; for(int i=0;i<n;i++){ sx::check(all[i]>=base&&all[i]<h.maxId(),"below-max"); for(int j=0;j<i;j++) sx::check(all[i]!=all[j],"in-use"); }
  // afterwards every id ever made is in use or comes back exactly once
  tIdType mx=h.maxId(); sx::check(mx-base<=(tIdType)(pre+8),"maximum"); for(tIdType k=n;k<mx-base;k++){ tIdType x=h.getId(); for(int j=0;j<n;j++) sx::check(all[j]!=x,"in-use"); all[n++]=x; sx::check(x<mx&&h.maxId()==mx,"released-first"); } sx::check(h.getId()==mx,"new-id"); }
extern "C" void symx_main(){ long k=symx_param_(0); if(k==0) seq<_detail::IndexHandler>(); if(k==1) seq<_detail::Concurrent_IndexHandler>(); if(k==2) conc(); sx::reach("end"); }
