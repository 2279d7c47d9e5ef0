// C13: integer helpers of utils/Misc.h and the fixed-size sorts, over the whole word width.
#include "common.h"
#include "utils/Misc.h"
#include "utils/StaticSort.h"
template<class T> static void ints(){ const int W=sizeof(T)*8; T x=(T)symx_bits_("x",W);
  // power-of-two test, rounding up
  T cnt=0; for(int b=0;b<W;b++) cnt=(T)(cnt+((x>>b)&1)); bool p2=(T)isPow2<T>(x)!=0; sx::check(p2==(cnt==1),"isPow2");
  sx::check(popcount<T>(x)==cnt,"popcount");
  T n=nextPow2<T>(x); T top=(T)((T)1<<(W-1));
  if(x<=top){ sx::check((n&(T)(n-1))==0&&n!=0,"nextPow2-power"); sx::check(n>=x,"nextPow2-not-below"); sx::check(x<=1?n==1:(T)(n>>1)<x,"nextPow2-smallest"); }
  else sx::check(n==0,"nextPow2-overflow");
  T l=0; for(int b=0;b<W;b++) if((x>>b)&1) l=(T)b; T gl=::log2<T>(x); if(x!=0) sx::check(gl==l,"log2"); else sx::check(gl==0,"log2");
}
template<class T> static void logn(){ T x=(T)symx_bits_("x",sizeof(T)*8); for(int e=1;e<=3;e++){ T b=(T)(1<<e); T r=logN<T>(x,b); T l=0; for(int i=0;i<(int)sizeof(T)*8;i++) if((x>>i)&1) l=(T)i; sx::check(r==(T)(l/e),"logN"); if(r>0) sx::check(isPowN<T>((T)((T)1<<(e*r)),b),"isPowN-accepts-powers"); } sx::check(!isPowN<T>(0,4),"isPowN-zero"); }
template<class T,size_t N> static void sorts(bool data){ std::array<T,N> a,o; std::array<uint64_t,N> d,od; for(size_t i=0;i<N;i++){ a[i]=(T)symx_bits_("a",sizeof(T)*8); o[i]=a[i]; od[i]=d[i]=1000+i; }
  if(data) static_insertion_sort_with_data(a,d); else static_insertion_sort(a);
  for(size_t i=1;i<N;i++) sx::check(a[i-1]<=a[i],"sorted");
  if(data){ uint64_t seen=0; for(size_t i=0;i<N;i++){ uint64_t k=sx::conc(d[i])-1000; sx::check(k<N,"data-kept"); sx::check(a[i]==o[k],"paired"); seen|=1u<<k; } sx::check(seen==(1u<<N)-1,"data-permutation"); }
  else { T q=(T)symx_bits_("q",sizeof(T)*8); int x=0,y=0; for(size_t i=0;i<N;i++){ x+=o[i]==q; y+=a[i]==q; } sx::check(x==y,"permutation"); } }
extern "C" void symx_main(){ long k=sx::conc(symx_param_(0));
  if(k==0) ints<uint8_t>(); if(k==1) ints<uint16_t>(); if(k==2) ints<uint32_t>(); if(k==3) ints<uint64_t>();
  if(k==4) logn<uint8_t>(); if(k==5) logn<uint32_t>(); if(k==6) logn<uint64_t>();
  if(k==7) sorts<uint64_t,3>(false); if(k==8) sorts<uint64_t,4>(false); if(k==9) sorts<uint64_t,3>(true); if(k==10) sorts<uint64_t,4>(true); if(k==11) sorts<uint32_t,5>(false); if(k==12) sorts<uint64_t,1>(true); if(k==13) sorts<uint32_t,2>(false); if(k==14) sorts<uint64_t,5>(true);
  sx::reach("end"); }
