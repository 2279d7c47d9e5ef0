// Runtime support linked (as bitcode) into every symbolic run: plain C/C++ definitions of library functions that
// the code under test calls but whose definitions live in shared libraries.
#include <cstddef>
#include <cstdint>
#include <new>
#include <stdexcept>
#include <functional>
#include <cmath>
#include <unordered_map>
#include <list>
#include <bits/stl_tree.h>
extern "C" {
char __libc_single_threaded=0;
__attribute__((noinline)) int memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; for(size_t i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int bcmp(const void*a,const void*b,size_t n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; unsigned char d=0; for(size_t i=0;i<n;i++) d|=x[i]^y[i]; return d!=0; }
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ while(n&&*a&&*a==*b){a++;b++;n--;} return n?(int)(unsigned char)*a-(int)(unsigned char)*b:0; }
void* memchr(const void*s,int c,size_t n){ const unsigned char*p=(const unsigned char*)s; for(size_t i=0;i<n;i++) if(p[i]==(unsigned char)c) return (void*)(p+i); return nullptr; }
char* strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return nullptr; } }
int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isdigit(int c){ return c>='0'&&c<='9'; } int isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); } int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; } int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
}
namespace std {
void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); }
void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); }
void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); }
void __throw_bad_function_call(){ throw bad_function_call(); }
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*c=(const unsigned char*)p; size_t h=seed; for(size_t i=0;i<n;i++) h=(h^c[i])*0x100000001b3ull; return h; }
namespace __detail {
static const size_t primes[]={2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233,67307,72817,78779,85229,92203,99733,107897,116731,126271,136607,147793,159871,172933,187091,202409};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[]={2,2,2,3,5,5,7,7,11,11,11,11,13,13};
  if(n<sizeof fast){ if(n==0) return 1; _M_next_resize=(size_t)__builtin_floor(fast[n]*(double)_M_max_load_factor); return fast[n]; }
  for(size_t p:primes) if(p>=n){ _M_next_resize=(size_t)__builtin_floor(p*(double)_M_max_load_factor); return p; }
  __builtin_trap(); }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const {
  if(ne+ni>_M_next_resize){ size_t q=ne+ni; if(!_M_next_resize&&q<11) q=11; double mb=q/(double)_M_max_load_factor; if(mb>=nb){ size_t a=(size_t)__builtin_floor(mb)+1,b=nb*2; return {true,_M_next_bkt(a>b?a:b)}; } _M_next_resize=(size_t)__builtin_floor(nb*(double)_M_max_load_factor); return {false,0}; }
  return {false,0}; }
}
// ---- list
namespace __detail { void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; } void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev=_M_prev; _M_prev->_M_next=_M_next; }
void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } } }
// ---- red-black tree (unbalanced insertion is observationally equivalent for the containers; erase keeps links)
typedef _Rb_tree_node_base* NB; typedef const _Rb_tree_node_base* CNB;
static NB incr(NB x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { NB y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static NB decr(NB x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ NB y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { NB y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
NB _Rb_tree_increment(NB x) throw(){ return incr(x); } CNB _Rb_tree_increment(CNB x) throw(){ return incr(const_cast<NB>(x)); } NB _Rb_tree_decrement(NB x) throw(){ return decr(x); } CNB _Rb_tree_decrement(CNB x) throw(){ return decr(const_cast<NB>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,NB x,NB p,_Rb_tree_node_base& h) throw() {
  x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black; // black nodes: header is the only red node
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
NB _Rb_tree_rebalance_for_erase(NB const z,_Rb_tree_node_base& h) throw() {
  NB&root=h._M_parent;NB&leftm=h._M_left;NB&rightm=h._M_right; NB y=z,x=0,xp=0;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if(leftm==z){ if(!z->_M_right) leftm=z->_M_parent; else { NB q=x; while(q->_M_left) q=q->_M_left; leftm=q; } }
    if(rightm==z){ if(!z->_M_left) rightm=z->_M_parent; else { NB q=x; while(q->_M_right) q=q->_M_right; rightm=q; } } }
  (void)xp; return y; }
}
// dynamic_cast along single inheritance chains (a pointer to the first base only)
extern "C" void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern "C" void* __dynamic_cast(const void*p,const void*,const void*dst,long){ struct TI { void*vt; const char*name; const TI*base; }; const void*const* vt=*(const void*const*const*)p; long top=(long)vt[-2]; const TI*t=(const TI*)vt[-1]; for(;;){ if(t==dst) return (char*)p+top; if(t->vt!=(void*)&_ZTVN10__cxxabiv120__si_class_type_infoE[2]) return nullptr; t=t->base; } }
