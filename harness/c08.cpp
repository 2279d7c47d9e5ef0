// C08: Concurrent_Bit_Set, every interleaving (bounded preemptions) of two or three threads.
#include "common.h"
#include "datastructures/Bit_Set.hxx"
typedef uint32_t K;
struct Ctx { Concurrent_Bit_Set*s; int op[3]; K k[3]; bool r[3]; int n; };
static void body(void*p){ Ctx&c=*(Ctx*)p; for(int i=0;i<c.n;i++){ if(c.op[i]==0) c.r[i]=c.s->insert(c.k[i]); else if(c.op[i]==1) c.r[i]=c.s->erase(c.k[i]); else if(c.op[i]==2) c.r[i]=c.s->contains(c.k[i]); else if(c.op[i]==3) c.r[i]=!c.s->testAndSet(c.k[i]); else c.r[i]=c.s->testAndUnset(c.k[i]); } }
static Ctx cs[3];
extern "C" void symx_main(){
  K L=symx_param_(0),U=symx_param_(1); int pre=symx_param_(2), nth=symx_param_(3), nops=symx_param_(4); long ops=symx_param_(5); // ops: decimal digits per thread op, thread-major
  static Concurrent_Bit_Set s(L,U); K pk[3];
  for(int i=0;i<pre;i++){ pk[i]=(K)sx::u("pk",L,U-1); s.insert(pk[i]); }
  for(int j=0;j<nth;j++){ cs[j].s=&s; cs[j].n=nops; for(int i=0;i<nops;i++){ cs[j].k[i]=(K)sx::u("k",L,U-1); cs[j].op[i]=ops%10; ops/=10; } }
  int ids[3]; for(int j=1;j<nth;j++) ids[j]=symx_spawn_(body,&cs[j]); body(&cs[0]); for(int j=1;j<nth;j++) symx_join_(ids[j]);
  // every index: successful inserts minus successful erases = presence, starting from the prefilled state
  K q=(K)sx::u("q",L,U-1); int before=0,w=0,e=0,anyins=0,anyera=0; for(int i=0;i<pre;i++) before|=pk[i]==q;
  int total=0; { for(int i=0;i<pre;i++){ bool d=false; for(int j=0;j<i;j++) d|=pk[j]==pk[i]; total+=!d; } }
  bool seen=false,readok=true;
  for(int j=0;j<nth;j++) for(int i=0;i<nops;i++){ int o=cs[j].op[i]; bool m=cs[j].k[i]==q; if(o==0||o==3){ w+=m&cs[j].r[i]; anyins|=m; total+=cs[j].r[i]; } else if(o==1||o==4){ e+=m&cs[j].r[i]; anyera|=m; total-=cs[j].r[i]; } }
  for(int j=0;j<nth;j++) for(int i=0;i<nops;i++) if(cs[j].op[i]==2){ bool m=cs[j].k[i]==q; readok&=!m|!cs[j].r[i]|(before|anyins); readok&=!m|cs[j].r[i]|!before|anyera; }
  bool in=s.contains(q);
  sx::check((int)in==before+w-e,"presence-balances"); sx::check(!in|before|anyins,"no-phantom"); sx::check(in|!(before|anyins)|anyera,"no-lost-index"); sx::check(w<=1+e&&e<=w+before,"one-winner"); sx::check(readok,"concurrent-read");
  sx::check(s.size()==(size_t)total,"size"); sx::check(s.ones()+s.zeros()==s.upperBound()-s.lowerBound(),"zeros");
  if(symx_param_(6)){ size_t c=0; for(auto it=s.begin();it!=s.end();++it){ K x=*it; sx::check(s.contains(x),"iteration"); c++; } sx::check(c==s.size(),"iteration-count"); }
  sx::reach("end");
}
