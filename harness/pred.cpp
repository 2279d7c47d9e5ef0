// C27/C28: the adaptive predicates of src/utils/Predicates.cpp against exact integer determinants.
// Each configuration gives base coordinates (integers in units of 2^-scale), which coordinates are symbolic (base + k*step, k in 0..range)
// and the number type: double (the instantiation the program uses) or half precision (the same template with p=11, where every
// adaptive stage is reached by coordinates of a few bits and the solver can range over much larger parts of the input space).
#include "symx.h"
#include <cmath>
#include "src/utils/Predicates.cpp"
#ifndef P1
#define P1 8
#define P2 11
#endif
typedef sx::RP<P1> R1; typedef sx::RP<P2> R2;
template<> const int CtorConsts<R1>::CWORD=4722; template<> const int CtorConsts<R2>::CWORD=4722;
template class PredicatesBase<R1>; template class Predicates<2,R1>; template class Predicates<3,R1>;
template class PredicatesBase<R2>; template class Predicates<2,R2>; template class Predicates<3,R2>;
struct Cfg { int kind, half, scale; int64_t b[15], st[15]; int pe[4]; int np; };
static const Cfg C[]={
#include "pred_cfg.inc"
};
template<int B> struct Big { typedef _BitInt(B) I;
  static I det2(I a,I b,I c,I d){ return a*d-b*c; }
  static I det3(I a,I b,I c,I d,I e,I f,I g,I h,I i){ return a*det2(e,f,h,i)-b*det2(d,f,g,i)+c*det2(d,e,g,h); }
  static int sgn(I x){ return (x>0)-(x<0); }
  static int exact(int kind,const int64_t*c){ I x[5],y[5],z[5]; 
    if(kind==0){ I a=(I)c[0]-c[4],b=(I)c[1]-c[5],d=(I)c[2]-c[4],e=(I)c[3]-c[5]; return sgn(det2(a,b,d,e)); }
    if(kind==1){ for(int i=0;i<3;i++){ x[i]=(I)c[2*i]-c[6]; y[i]=(I)c[2*i+1]-c[7]; z[i]=x[i]*x[i]+y[i]*y[i]; } return sgn(det3(x[0],y[0],z[0],x[1],y[1],z[1],x[2],y[2],z[2])); }
    if(kind==2){ for(int i=0;i<3;i++){ x[i]=(I)c[3*i]-c[9]; y[i]=(I)c[3*i+1]-c[10]; z[i]=(I)c[3*i+2]-c[11]; } return sgn(det3(x[0],y[0],z[0],x[1],y[1],z[1],x[2],y[2],z[2])); }
    I w[4]; for(int i=0;i<4;i++){ x[i]=(I)c[3*i]-c[12]; y[i]=(I)c[3*i+1]-c[13]; z[i]=(I)c[3*i+2]-c[14]; w[i]=x[i]*x[i]+y[i]*y[i]+z[i]*z[i]; }
    I d=0; for(int i=0;i<4;i++){ int j[3],n=0; for(int k=0;k<4;k++) if(k!=i) j[n++]=k; I m=det3(x[j[0]],y[j[0]],z[j[0]],x[j[1]],y[j[1]],z[j[1]],x[j[2]],y[j[2]],z[j[2]]); if(i&1) d+=w[i]*m; else d-=w[i]*m; }
    return sgn(d); } };
template<class T> static int run(int kind,const T*p){ T r;
  if(kind==0) r=Predicates<2,T>::orient(p,p+2,p+4); else if(kind==1) r=Predicates<2,T>::insphere(p,p+2,p+4,p+6); else if(kind==2) r=Predicates<3,T>::orient(p,p+3,p+6,p+9); else r=Predicates<3,T>::insphere(p,p+3,p+6,p+9,p+12);
  return (r>0)-(r<0); }
template<class T> static void go(const Cfg&f){
  static const int N[4]={6,8,12,15}; T p[15]; int64_t c[15]; 
  int64_t half=symx_param_(1); int ns=symx_param_(2); uint64_t only=0; for(int i=0;i<ns&&i<f.np;i++) only|=1ull<<f.pe[i];
  for(int i=0;i<N[f.kind];i++){ c[i]=f.b[i]; T x=(T)std::ldexp((double)f.b[i],-f.scale); if(only>>i&1){ int64_t k=(int64_t)sx::u("k",0,2*half-1),w=2*half*f.st[i],b0=(f.b[i]-(((f.b[i]%w)+w)%w)); c[i]=b0+k*f.st[i]; x=(T)std::ldexp((double)b0,-f.scale)+(T)((double)(int)k)*(T)std::ldexp((double)f.st[i],-f.scale); } p[i]=x; }
  int s=run<T>(f.kind,p);
  int d= f.half?Big<128>::exact(f.kind,c):(f.kind==0?Big<144>::exact(f.kind,c):f.kind==2?Big<208>::exact(f.kind,c):f.kind==1?Big<288>::exact(f.kind,c):Big<360>::exact(f.kind,c));
  sx::check(s==d,"the sign of the predicate is the sign of the exact determinant"); sx::reach("end"); }
// all coordinates symbolic integers in [-2^bits, 2^bits], the last point fixed to 0 when zero!=0
static void small(int kind,int bits,int nsym){ static const int N[4]={6,8,12,15}; double p[15]; int64_t M=1ll<<bits; static const int64_t F[15]={3,-2,5,1,-4,2,-1,-3,4,2,-5,3,-2,4,1};
  for(int i=0;i<N[kind];i++) p[i]=i<nsym?sx::fx("x",-M,M):(double)F[i];
  double e; // exact: all intermediate values are integers below 2^53
  auto d2=[](double a,double b,double c,double d){ return a*d-b*c; };
  auto d3=[&](double a,double b,double c,double d,double e,double f,double g,double h,double i){ return a*d2(e,f,h,i)-b*d2(d,f,g,i)+c*d2(d,e,g,h); };
  if(kind==0) e=d2(p[0]-p[4],p[1]-p[5],p[2]-p[4],p[3]-p[5]);
  else if(kind==1){ double x[3],y[3],z[3]; for(int i=0;i<3;i++){ x[i]=p[2*i]-p[6]; y[i]=p[2*i+1]-p[7]; z[i]=x[i]*x[i]+y[i]*y[i]; } e=d3(x[0],y[0],z[0],x[1],y[1],z[1],x[2],y[2],z[2]); }
  else if(kind==2){ double x[3],y[3],z[3]; for(int i=0;i<3;i++){ x[i]=p[3*i]-p[9]; y[i]=p[3*i+1]-p[10]; z[i]=p[3*i+2]-p[11]; } e=d3(x[0],y[0],z[0],x[1],y[1],z[1],x[2],y[2],z[2]); }
  else { double x[4],y[4],z[4],w[4]; for(int i=0;i<4;i++){ x[i]=p[3*i]-p[12]; y[i]=p[3*i+1]-p[13]; z[i]=p[3*i+2]-p[14]; w[i]=x[i]*x[i]+y[i]*y[i]+z[i]*z[i]; } e=0;
    for(int i=0;i<4;i++){ int j[3],n=0; for(int k=0;k<4;k++) if(k!=i) j[n++]=k; double m=d3(x[j[0]],y[j[0]],z[j[0]],x[j[1]],y[j[1]],z[j[1]],x[j[2]],y[j[2]],z[j[2]]); e=(i&1)?e+w[i]*m:e-w[i]*m; } }
  double r; if(kind==0) r=Predicates<2,double>::orient(p,p+2,p+4); else if(kind==1) r=Predicates<2,double>::insphere(p,p+2,p+4,p+6); else if(kind==2) r=Predicates<3,double>::orient(p,p+3,p+6,p+9); else r=Predicates<3,double>::insphere(p,p+3,p+6,p+9,p+12);
  sx::check(((r>0)==(e>0))&((r<0)==(e<0)),"the sign of the predicate is the sign of the exact determinant"); sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(0)>=1000){ small(symx_param_(0)-1000,symx_param_(1),symx_param_(2)); return; } const Cfg&f=C[symx_param_(0)]; if(f.half==1) go<R1>(f); else if(f.half==2) go<R2>(f); else go<double>(f); }
