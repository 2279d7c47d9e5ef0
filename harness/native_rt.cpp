// Native replay runtime: feeds recorded inputs and schedule to the same harness compiled against the real code.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <pthread.h>
#include <unistd.h>
#include <cmath>
#include <exception>
#include <typeinfo>
static std::vector<uint64_t> vals; static size_t vp=0; static std::vector<int> sched; static size_t sp=0; static std::vector<long> params;
static void diverge(const char*w){ fprintf(stderr,"SYMX-DIVERGED %s\n",w); fflush(stderr); _exit(3); }
static uint64_t next(){ if(vp>=vals.size()) diverge("inputs exhausted"); return vals[vp++]; }
static unsigned bl(uint64_t v){ unsigned b=0; while(v){b++;v>>=1;} return b?b:1; }
static unsigned sb(int64_t v){ unsigned b=1; while(b<64 && !(v>=-(1ll<<(b-1)) && v<=(1ll<<(b-1))-1)) b++; return b; }
static int64_t fxv(int64_t lo,int64_t hi){ uint64_t v=next(); unsigned w=sb(lo)>sb(hi)?sb(lo):sb(hi); int64_t s=w>=64?(int64_t)v:(int64_t)(v<<(64-w))>>(64-w); if(s<lo||s>hi) diverge("fx range"); return s; }
struct T { void(*f)(void*); void*a; pthread_t p; bool done=false; }; static std::vector<T*> th; static pthread_mutex_t mu=PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv=PTHREAD_COND_INITIALIZER; static int baton=0; static thread_local int me=0;
static void handTo(int t){ pthread_mutex_lock(&mu); baton=t; pthread_cond_broadcast(&cv); while(baton!=me) pthread_cond_wait(&cv,&mu); pthread_mutex_unlock(&mu); }
static bool trc=getenv("SYMX_TRACE")!=nullptr; static void tr(const char*k,void*ra){ if(trc&&th.size()>1) fprintf(stderr,"T%d sp=%zu %s %p\n",me,sp,k,ra); }
static void ev(){ if(th.size()<2) return; if(sp>=sched.size()){ return; } int t=sched[sp++]; if(t!=me) handTo(t); }
static int evBlock(){ if(sp>=sched.size()){ fprintf(stderr,"SYMX-VIOLATION deadlock\n"); _exit(42);} int t=sched[sp++]; if(t!=me) handTo(t); return t; }
static void* tmain(void*x){ T*t=(T*)x; for(size_t i=0;i<th.size();i++) if(th[i]==t) me=i; pthread_mutex_lock(&mu); while(baton!=me) pthread_cond_wait(&cv,&mu); pthread_mutex_unlock(&mu); t->f(t->a); t->done=true; int n=-1; if(sp<sched.size()) n=sched[sp++]; pthread_mutex_lock(&mu); if(n<0){ for(size_t i=0;i<th.size();i++) if(!th[i]->done){ n=i; break; } } baton=n; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); return nullptr; }
static std::vector<std::pair<void*,int>> mtx; static int& mref(void*m){ for(auto&p:mtx) if(p.first==m) return p.second; mtx.push_back({m,0}); return mtx.back().second; }
extern "C" {
uint64_t symx_u_(const char*,uint64_t lo,uint64_t hi){ if(lo>hi) diverge("empty range"); uint64_t v=next(); if(v>hi-lo) diverge("u range"); return lo+v; }
uint64_t symx_bits_(const char*,int){ return next(); }
double symx_fx_(const char*,int64_t lo,int64_t hi,int e){ return ldexp((double)fxv(lo,hi),e); }
float symx_fxf_(const char*,int64_t lo,int64_t hi,int e){ return ldexpf((float)fxv(lo,hi),e); }
uint64_t symx_choose_(const char*,uint64_t n){ if(!n) diverge("choose 0"); uint64_t v=next(); if(v>=n) diverge("choose"); return v; }
uint64_t symx_conc_(uint64_t v){ return v; } void symx_assume_(bool c){ if(!c) diverge("assume"); }
void symx_assert_(bool c,const char*l){ if(!c){ fprintf(stderr,"SYMX-VIOLATION %s\n",l); fflush(stderr); _exit(42); } }
void symx_reach_(const char*l){ fprintf(stderr,"SYMX-REACH %s\n",l); } uint64_t symx_param_(uint64_t i){ return i<params.size()?params[i]:0; } void symx_steps_(uint64_t){}
int symx_native_(){ return 1; } void symx_dump_(const char*n,uint64_t v){ fprintf(stderr,"DUMP %s: %lld\n",n,(long long)v); } uint64_t symx_heap_live_(){ return 0; } int symx_tid_(){ return me; } int symx_issym_(uint64_t){ return 0; }
double symx_fop_(int op,double a,double b,int p){ double r=op==0?a+b:op==1?a-b:a*b; if(r==0||!std::isfinite(r)) return r; int e; double m=frexp(r,&e); double s=ldexp(m,p); return ldexp(nearbyint(s),e-p); }
int symx_spawn_(void(*f)(void*),void*a){ T*t=new T; t->f=f; t->a=a; th.push_back(t); pthread_create(&t->p,0,tmain,t); return th.size()-1; }
void symx_join_(int t){ tr("join",0); while(!th[t]->done) evBlock(); pthread_join(th[t]->p,0); }
void symx_yield_(){ if(th.size()<2) return; bool other=false; for(size_t i=0;i<th.size();i++) if((int)i!=me&&!th[i]->done) other=true; if(other&&sp<sched.size()) evBlock(); }
void symx_lock_(void*m){ tr("lock",m); ev(); while(mref(m)) evBlock(); mref(m)=me+1; } void symx_unlock_(void*m){ mref(m)=0; } bool symx_trylock_(void*m){ ev(); if(mref(m)) return false; mref(m)=me+1; return true; }
char symx_libc_single_threaded=0; int symx_pthread_mutex_lock(void*m){ symx_lock_(m); return 0; } int symx_pthread_mutex_unlock(void*m){ symx_unlock_(m); return 0; } int symx_pthread_mutex_trylock(void*m){ return symx_trylock_(m)?0:16; } int symx_sched_yield(){ symx_yield_(); return 0; }
void symx_sched_(){ ev(); } void symx_atomic_point_(){ tr("atomic",__builtin_return_address(0)); ev(); }
}
static void onTerm(){ const char*n="?"; if(auto e=std::current_exception()){ try{ std::rethrow_exception(e); }catch(std::exception&x){ n=x.what(); }catch(...){} } fprintf(stderr,"SYMX-VIOLATION terminate %s\n",n); fflush(stderr); _exit(42); }
int main(int c,char**v){ std::set_terminate(onTerm); T*t0=new T; th.push_back(t0); FILE*f=fopen(v[1],"r"); if(!f){ perror("replay"); return 2; } char k[8]; unsigned long long x; while(fscanf(f,"%7s %llu",k,&x)==2){ if(k[0]=='V') vals.push_back(x); else if(k[0]=='S') sched.push_back(x); else if(k[0]=='P') params.push_back((long)x); } fclose(f); alarm(getenv("SYMX_ALARM")?atoi(getenv("SYMX_ALARM")):20); symx_main(); fprintf(stderr,"SYMX-OK\n"); return 0; }
