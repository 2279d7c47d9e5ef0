// Harness API: symbolic inputs, assumptions, assertions, schedule control.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t symx_u_(const char*,uint64_t lo,uint64_t hi); uint64_t symx_bits_(const char*,int w); double symx_fx_(const char*,int64_t lo,int64_t hi,int e); float symx_fxf_(const char*,int64_t lo,int64_t hi,int e);
uint64_t symx_choose_(const char*,uint64_t n); uint64_t symx_conc_(uint64_t); void symx_assume_(bool); void symx_assert_(bool,const char*); void symx_reach_(const char*); uint64_t symx_param_(uint64_t); void symx_steps_(uint64_t);
int symx_native_(); void symx_dump_(const char*,uint64_t); uint64_t symx_heap_live_(); int symx_tid_(); int symx_issym_(uint64_t);
double symx_fop_(int op,double a,double b,int p);
int symx_spawn_(void(*)(void*),void*); void symx_join_(int); void symx_yield_(); void symx_lock_(void*); void symx_unlock_(void*); bool symx_trylock_(void*); void symx_sched_();
}
namespace sx {
inline uint64_t u(const char*n,uint64_t lo,uint64_t hi){ return symx_u_(n,lo,hi); }
inline int64_t s(const char*n,int64_t lo,int64_t hi){ return lo+(int64_t)symx_u_(n,0,(uint64_t)(hi-lo)); }
inline uint64_t u64(const char*n){ return symx_bits_(n,64); } inline uint32_t u32(const char*n){ return (uint32_t)symx_bits_(n,32); } inline uint8_t u8(const char*n){ return (uint8_t)symx_bits_(n,8); } inline uint16_t u16(const char*n){ return (uint16_t)symx_bits_(n,16); } inline bool b(const char*n){ return symx_u_(n,0,1)!=0; }
inline double fx(const char*n,int64_t lo,int64_t hi,int e=0){ return symx_fx_(n,lo,hi,e); } inline float fxf(const char*n,int64_t lo,int64_t hi,int e=0){ return symx_fxf_(n,lo,hi,e); }
inline double f64(const char*n){ uint64_t v=symx_bits_(n,64); double d; __builtin_memcpy(&d,&v,8); return d; }
inline float f32(const char*n){ uint32_t v=(uint32_t)symx_bits_(n,32); float d; __builtin_memcpy(&d,&v,4); return d; }
inline uint64_t choose(const char*n,uint64_t k){ return symx_choose_(n,k); }
inline uint64_t conc(uint64_t v){ return symx_conc_(v); }
inline void assume(bool c){ symx_assume_(c); }
inline void check(bool c,const char*l){ symx_assert_(c,l); }
// number with P significant bits, round to nearest even, unbounded exponent; native replay computes in double (innocuous double rounding for P<=25)
template<int P> struct RP { double v; RP()=default; RP(double x):v(symx_fop_(0,x,0,P)){} RP(int x):RP((double)x){} 
  static RP raw(double x){ RP r; r.v=x; return r; }
  friend RP operator+(RP a,RP b){ return raw(symx_fop_(0,a.v,b.v,P)); } friend RP operator-(RP a,RP b){ return raw(symx_fop_(1,a.v,b.v,P)); } friend RP operator*(RP a,RP b){ return raw(symx_fop_(2,a.v,b.v,P)); }
  RP operator-()const{ return raw(-v); } RP&operator+=(RP b){ return *this=*this+b; } RP&operator-=(RP b){ return *this=*this-b; } RP&operator*=(RP b){ return *this=*this*b; }
  friend bool operator<(RP a,RP b){ return a.v<b.v; } friend bool operator>(RP a,RP b){ return a.v>b.v; } friend bool operator<=(RP a,RP b){ return a.v<=b.v; } friend bool operator>=(RP a,RP b){ return a.v>=b.v; } friend bool operator==(RP a,RP b){ return a.v==b.v; } friend bool operator!=(RP a,RP b){ return a.v!=b.v; } 
  friend RP fabs(RP a){ return raw(__builtin_fabs(a.v)); } };
inline void reach(const char*l){ symx_reach_(l); }
}
extern "C" void symx_main();
