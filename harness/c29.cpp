// C29: expansion arithmetic of src/utils/Predicates.cpp, instantiated with a P-bit-significand number type (round to nearest even, no
// exponent limit) and with double. Expansions: every sequence of components that is nonadjacent, increasing in magnitude, zeros allowed.
#include "symx.h"
#include <cmath>
#include "src/utils/Predicates.cpp"
#ifndef PB
#define PB 3
#endif
typedef sx::RP<PB> R;
template<> const int CtorConsts<R>::CWORD=4722;
template class PredicatesBase<R>;
template<class T> static long iv(T x); template<> long iv<R>(R x){ return (long)x.v; } template<> long iv<double>(double x){ return (long)x; }
static long lsb(long x){ return x&-x; } static long ab(long x){ long m=x>>63; return (x^m)-m; }
template<class T,int P> struct X: PredicatesBase<T> { typedef PredicatesBase<T> B;
  static long comp(int bits,T&t){ double d=sx::fx("c",-(1l<<bits)+1,(1l<<bits)-1); t=T(d); long x=(long)d; sx::assume((x==0)|(ab(x)<(lsb(x)<<P))); return x; }
  static long expansion(int n,int bits,T*e,bool strong){ long c[4]; for(int i=0;i<n;i++){ c[i]=comp(bits,e[i]); for(int j=0;j<i;j++) sx::assume((c[j]==0)|(c[i]==0)|(2*ab(c[j])<lsb(c[i]))); for(int j=0;j<i;j++) sx::assume((c[j]==0)|(c[i]!=0)|(!strong)); }
    long s=0; for(int i=0;i<n;i++) s+=c[i]; return s; }
  static void out(int n,T*h,long want,bool elim,int maxlen){ sx::check(n>=1&&n<=maxlen,"the length of the result is within its bound"); long s=0,c[16]; for(int i=0;i<n;i++){ c[i]=iv(h[i]); s+=c[i]; }
    sx::check(s==want,"the result has exactly the value of the operation"); 
    bool ok=true; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) ok&=(c[i]==0)|(c[j]==0)|(ab(c[i])<lsb(c[j])); sx::check(ok,"components are in increasing magnitude and do not overlap");
    if(elim) for(int i=0;i<n;i++) sx::check(n==1||h[i]!=T(0.0),"no zero component is kept");
    T q=B::estimate(n,h); sx::check(((q>T(0.0))==(want>0))&((q<T(0.0))==(want<0)),"the estimate has the sign of the value"); }
  static void run(){ int op=symx_param_(0),m=symx_param_(1),n=symx_param_(2),bits=symx_param_(3); T e[4],f[4],h[16]; long E=expansion(m,bits,e,false);
    if(op==0||op==1){ T bt; long b=comp(bits,bt); int k=op==0?B::grow_expansion(m,e,bt,h):B::grow_expansion_zeroelim(m,e,bt,h); out(k,h,E+b,op==1,m+1); }
    else if(op==2||op==3){ T bt; long b=comp(symx_param_(4),bt); int k=op==2?B::scale_expansion(m,e,bt,h):B::scale_expansion_zeroelim(m,e,bt,h); out(k,h,E*b,op==3,2*m); }
    else if(op==4){ int k=B::compress(m,e,h); out(k,h,E,true,m); sx::check(ab(E-iv(h[k-1]))<=ab(E),"the largest component approximates the value"); }
    else { long F=expansion(n,bits,f,false); int k; bool el=true;
      switch(op){ case 5:k=B::expansion_sum(m,e,n,f,h); el=false; break; case 6:k=B::expansion_sum_zeroelim1(m,e,n,f,h); break; case 7:k=B::expansion_sum_zeroelim2(m,e,n,f,h); break; case 8:k=B::fast_expansion_sum(m,e,n,f,h); el=false; break; case 9:k=B::fast_expansion_sum_zeroelim(m,e,n,f,h); break; case 10:k=B::linear_expansion_sum(m,e,n,f,h); el=false; break; default:k=B::linear_expansion_sum_zeroelim(m,e,n,f,h); }
      out(k,h,E+F,el,m+n); }
    sx::reach("end"); } };
extern "C" void symx_main(){ if(symx_param_(5)) X<double,53>::run(); else X<R,PB>::run(); }
