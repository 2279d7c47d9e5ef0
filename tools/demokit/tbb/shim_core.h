// Sequential stand-in for the classic TBB API, for running demonstrations natively.
#pragma once
#define __TBB_parallel_do_H
#include "../demo_rt.h"
#include <cstddef>
#include <memory>
#include <vector>
#include <deque>
#include <list>
#include <algorithm>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <atomic>
#include <stdexcept>
namespace tbb {
struct shim { // configured by harnesses
  int mode=0;      // 0: never split; 1: split chosen symbolically (at most budget times); 2: always split; 3: leaves run as threads
  int budget=2; int slots=1; bool chooseSlot=false; bool chooseOrder=false; int cur=0; int leaf=0; bool chooseDoOrder=false; int doBudget=2; bool stealSlot=false;
};
inline shim& cfg(){ static shim s; return s; }
inline int slotId(){ if(cfg().mode==3) return symx_tid_(); return cfg().cur; }
class split {};
class proportional_split { public: operator split() const { return split(); } };
class task_group_context { public: enum kind_type { isolated, bound }; };
class task_scheduler_init { public: task_scheduler_init(int=0){} static int default_num_threads(){ return 2; } static const int automatic=-1; void initialize(int=0){} void terminate(){} };
struct tbb_thread_dummy {};
template<class T> using cache_aligned_allocator=std::allocator<T>;
template<class T> using scalable_allocator=std::allocator<T>;
template<class T> class blocked_range {
public: typedef T const_iterator; typedef std::size_t size_type;
  blocked_range(T b,T e,size_type g=1):e_(e),b_(b),g_(g){}
  T begin() const{return b_;} T end() const{return e_;} size_type size() const{return size_type(e_-b_);} size_type grainsize() const{return g_;} bool empty() const{return !(b_<e_);} bool is_divisible() const{return g_<size();}
  blocked_range(blocked_range&r,split):e_(r.e_),b_(mid(r)),g_(r.g_){}
private: T e_,b_; size_type g_; static T mid(blocked_range&r){ T m=r.b_+(r.e_-r.b_)/2u; r.e_=m; return m; }
};
namespace shimd {
template<class R,class B> void leaf(const R&r,const B&b){ auto&c=cfg(); int old=c.cur; if(c.slots>1){ if(c.chooseSlot) c.cur=(int)symx_choose_("slot",c.slots); else c.cur=(c.leaf++)%c.slots; } b(const_cast<R&>(r)); c.cur=old; }
template<class R,class B> void run(R&r,const B&b,int&bud){
  auto&c=cfg(); 
  if(r.empty()) return;
  if(c.mode!=0&&r.is_divisible()&&bud>0&&(c.mode==2||symx_choose_("split",2)==1)){ bud--; R right(r,split()); 
    bool sw=c.chooseOrder&&symx_choose_("order",2)==1; if(sw){ run(right,b,bud); run(r,b,bud); } else { run(r,b,bud); run(right,b,bud); } return; }
  leaf(r,b); }
template<class R> void collect(R&r,std::vector<R>&out,int&bud){ if(r.empty()) return; if(r.is_divisible()&&bud>0){ bud--; R right(r,split()); collect(r,out,bud); collect(right,out,bud); } else out.push_back(r); }
template<class R,class B> struct Job { R r; const B*b; static void go(void*p){ Job*j=(Job*)p; (*j->b)(j->r); } };
}
template<class R,class B> void parallel_for(const R&r,const B&b){ auto&c=cfg(); R rr(r); if(rr.empty()) return; int bud=c.mode==2?1000000:c.budget; c.leaf=0;
  if(c.mode==3){ std::vector<R> v; bud=c.budget; shimd::collect(rr,v,bud); std::vector<shimd::Job<R,B>> js; js.reserve(v.size()); for(auto&x:v) js.push_back({x,&b}); std::vector<int> ids; for(size_t i=1;i<js.size();i++) ids.push_back(symx_spawn_(&shimd::Job<R,B>::go,&js[i])); if(!js.empty()) shimd::Job<R,B>::go(&js[0]); for(int i:ids) symx_join_(i); return; }
  shimd::run(rr,b,bud); }
template<class R,class B,class P> void parallel_for(const R&r,const B&b,const P&){ parallel_for(r,b); }
template<class I,class F> typename std::enable_if<std::is_integral<I>::value>::type parallel_for(I a,I b,const F&f){ parallel_for(blocked_range<I>(a,b),[&](const blocked_range<I>&r){ for(I i=r.begin();i!=r.end();++i) f(i); }); }
template<class R,class V,class F,class J> V parallel_reduce(const R&r,const V&id,const F&f,const J&j){ auto&c=cfg(); R rr(r); if(rr.empty()) return id; if(c.mode!=0&&rr.is_divisible()&&(c.mode==2||symx_choose_("split",2))){ R right(rr,split()); V a=f(rr,id),b=f(right,id); return j(a,b); } return f(rr,id); }
struct simple_partitioner{}; struct auto_partitioner{}; struct static_partitioner{};
template<class It,class C> void parallel_sort(It a,It b,C c){ std::sort(a,b,c); } template<class It> void parallel_sort(It a,It b){ std::sort(a,b); }
// ---- parallel_do
template<class Item> class parallel_do_feeder { public: std::deque<Item>*q; void add(const Item&i){ q->push_back(i); } };
namespace shimd {
template<class Body,class Item> void drain(std::deque<Item>&q,const Body&body){ auto&c=cfg(); parallel_do_feeder<Item> f; f.q=&q; int bud=c.doBudget; int k=0; while(!q.empty()){ size_t ix=0; if(c.chooseDoOrder&&q.size()>1&&bud>0){ bud--; ix=symx_choose_("do",q.size()); } Item it=q[ix]; q.erase(q.begin()+ix); int old=c.cur; if(c.slots>1){ if(c.chooseSlot) c.cur=(int)symx_choose_("slot",c.slots); else c.cur=(k++)%c.slots; } body(it,f); c.cur=old; } }
template<class T> struct item_of { typedef typename std::decay<decltype(*std::declval<T&>().begin())>::type type; };
}
template<class Cont,class Body> void parallel_do(Cont&&r,const Body&body){ typedef typename std::decay<decltype(*r.begin())>::type Item; std::deque<Item> q; for(auto it=r.begin();it!=r.end();++it) q.push_back(*it); shimd::drain(q,body); }
template<class It,class Body> void parallel_do(It a,It b,const Body&body){ typedef typename std::decay<decltype(*a)>::type Item; std::deque<Item> q(a,b); shimd::drain(q,body); }
// ---- enumerable_thread_specific
enum class ets_key_usage_type { ets_key_per_instance, ets_no_key };
template<class T,class A=std::allocator<T>,ets_key_usage_type K=ets_key_usage_type::ets_no_key> class enumerable_thread_specific {
  struct Slot { int id; std::unique_ptr<T> v; }; std::vector<Slot> s_; std::function<T*()> mk_;
public: typedef T value_type; typedef T& reference;
  enumerable_thread_specific():mk_([]{ return new T(); }){ s_.reserve(8); }
  template<class F,class=decltype(std::declval<F&>()())> enumerable_thread_specific(F f):mk_([f]()mutable{ return new T(f()); }){ s_.reserve(8); }
  struct ex_ {}; 
  template<class X,class=typename std::enable_if<!std::is_same<X,enumerable_thread_specific>::value>::type,class=typename std::enable_if<std::is_constructible<T,X&>::value>::type,int=0,class=decltype(std::declval<X&>().~X())> enumerable_thread_specific(std::reference_wrapper<X> x):mk_([x]{ return new T(x.get()); }){ s_.reserve(8); }
  template<class X,typename std::enable_if<std::is_constructible<T,X&>::value&&!std::is_same<typename std::decay<X>::type,enumerable_thread_specific>::value,int>::type=0> explicit enumerable_thread_specific(X& x):mk_(){ init(x,0); s_.reserve(8); }
  template<class X,typename std::enable_if<std::is_constructible<T,X&&>::value&&!std::is_lvalue_reference<X>::value&&!std::is_same<typename std::decay<X>::type,enumerable_thread_specific>::value,int>::type=0> explicit enumerable_thread_specific(X&& x):mk_(){ initv(std::move(x),0); s_.reserve(8); }
  enumerable_thread_specific(const enumerable_thread_specific&)=delete;
  T& local(){ int k=slotId(); for(auto&x:s_) if(x.id==k) return *x.v; s_.push_back({k,std::unique_ptr<T>(mk_())}); return *s_.back().v; }
  T& local(bool&e){ int k=slotId(); for(auto&x:s_) if(x.id==k){ e=true; return *x.v; } e=false; return local(); }
  size_t size() const{ return s_.size(); } bool empty() const{ return s_.empty(); } void clear(){ s_.clear(); }
  template<class F> T combine(F f){ if(s_.empty()) return *std::unique_ptr<T>(mk_()); T r=*s_[0].v; for(size_t i=1;i<s_.size();i++) r=f(r,*s_[i].v); return r; }
  template<class F> void combine_each(F f){ for(auto&x:s_) f(*x.v); }
  struct iterator { typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; Slot*p; T&operator*()const{return *p->v;} T*operator->()const{return p->v.get();} iterator&operator++(){++p;return*this;} iterator operator++(int){auto t=*this;++p;return t;} bool operator==(const iterator&o)const{return p==o.p;} bool operator!=(const iterator&o)const{return p!=o.p;} std::ptrdiff_t operator-(const iterator&o)const{return p-o.p;} iterator operator+(std::ptrdiff_t n)const{return {p+n};} };
  iterator begin(){ return {s_.data()}; } iterator end(){ return {s_.data()+s_.size()}; }
private:
  template<class X> auto init(X&x,int)->decltype(T(static_cast<const X&>(x)),void()){ auto p=&x; bool cp=std::is_copy_constructible<X>::value; (void)cp; initc(x,std::integral_constant<bool,std::is_copy_constructible<X>::value>()); (void)p; }
  template<class X> void init(X&x,long){ X*p=&x; mk_=[p]{ return new T(*p); }; }
  template<class X> void initc(X&x,std::true_type){ std::shared_ptr<X> c=std::make_shared<X>(x); mk_=[c]{ return new T(*c); }; }
  template<class X> void initc(X&x,std::false_type){ X*p=&x; mk_=[p]{ return new T(*p); }; }
  template<class X> void initv(X&&x,int){ std::shared_ptr<X> c=std::make_shared<X>(std::move(x)); mk_=[c]{ return new T(*c); }; }
};
// ---- containers
template<class T,class A=std::allocator<T>> class concurrent_vector {
  std::vector<std::unique_ptr<T>> v_;
public: typedef T value_type; typedef std::size_t size_type; typedef T& reference; typedef const T& const_reference; typedef std::ptrdiff_t difference_type;
  template<class V,class P> struct It { typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef V* pointer; typedef V& reference; P p; V&operator*()const{return **p;} V*operator->()const{return p->get();} V&operator[](std::ptrdiff_t n)const{return *p[n];} It&operator++(){++p;return*this;} It operator++(int){It t=*this;++p;return t;} It&operator--(){--p;return*this;} It operator--(int){It t=*this;--p;return t;} It&operator+=(std::ptrdiff_t n){p+=n;return*this;} It&operator-=(std::ptrdiff_t n){p-=n;return*this;} It operator+(std::ptrdiff_t n)const{return{p+n};} It operator-(std::ptrdiff_t n)const{return{p-n};} std::ptrdiff_t operator-(const It&o)const{return p-o.p;} bool operator==(const It&o)const{return p==o.p;} bool operator!=(const It&o)const{return p!=o.p;} bool operator<(const It&o)const{return p<o.p;} bool operator>(const It&o)const{return p>o.p;} bool operator<=(const It&o)const{return p<=o.p;} bool operator>=(const It&o)const{return p>=o.p;} };
  typedef It<T,typename std::vector<std::unique_ptr<T>>::iterator> iterator; typedef It<const T,typename std::vector<std::unique_ptr<T>>::const_iterator> const_iterator;
  typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
  concurrent_vector(){} explicit concurrent_vector(size_type n){ resize(n); } concurrent_vector(size_type n,const T&x){ for(size_type i=0;i<n;i++) push_back(x); } concurrent_vector(const concurrent_vector&o){ for(auto&x:o) push_back(x); } concurrent_vector(concurrent_vector&&)=default; template<class I,class=typename std::iterator_traits<I>::iterator_category> concurrent_vector(I a,I b){ for(;a!=b;++a) push_back(*a); } concurrent_vector(std::initializer_list<T> l){ for(auto&x:l) push_back(x); }
  concurrent_vector& operator=(const concurrent_vector&o){ if(this!=&o){ clear(); for(auto&x:o) push_back(x); } return *this; } concurrent_vector& operator=(concurrent_vector&&)=default;
  iterator begin(){return{v_.begin()};} iterator end(){return{v_.end()};} const_iterator begin()const{return{v_.begin()};} const_iterator end()const{return{v_.end()};} const_iterator cbegin()const{return{v_.begin()};} const_iterator cend()const{return{v_.end()};}
  T& operator[](size_type i){ return *v_[i]; } const T& operator[](size_type i)const{ return *v_[i]; } T& at(size_type i){ if(i>=v_.size()) throw std::out_of_range("concurrent_vector"); return *v_[i]; } const T& at(size_type i)const{ if(i>=v_.size()) throw std::out_of_range("concurrent_vector"); return *v_[i]; }
  T& front(){return *v_.front();} T& back(){return *v_.back();} const T& front()const{return *v_.front();} const T& back()const{return *v_.back();}
  size_type size()const{return v_.size();} bool empty()const{return v_.empty();} size_type capacity()const{return v_.capacity();} void reserve(size_type n){ v_.reserve(n);} void clear(){v_.clear();} void resize(size_type n){ while(v_.size()>n) v_.pop_back(); while(v_.size()<n) v_.emplace_back(new T()); } void resize(size_type n,const T&x){ while(v_.size()>n) v_.pop_back(); while(v_.size()<n) v_.emplace_back(new T(x)); } void shrink_to_fit(){} void swap(concurrent_vector&o){v_.swap(o.v_);}
  iterator push_back(const T&x){ v_.emplace_back(new T(x)); return {v_.end()-1}; } iterator push_back(T&&x){ v_.emplace_back(new T(std::move(x))); return {v_.end()-1}; } template<class...Ar> iterator emplace_back(Ar&&...a){ v_.emplace_back(new T(std::forward<Ar>(a)...)); return {v_.end()-1}; }
  iterator grow_by(size_type n){ size_type s=v_.size(); resize(s+n); return {v_.begin()+s}; } iterator grow_by(size_type n,const T&x){ size_type s=v_.size(); resize(s+n,x); return {v_.begin()+s}; } iterator grow_to_at_least(size_type n){ if(v_.size()<n) resize(n); return {v_.begin()}; }
  template<class I> struct grange { I b_,e_; bool empty()const{return !(b_<e_);} bool is_divisible()const{return e_-b_>1;} grange(I b,I e):b_(b),e_(e){} grange(grange&r,split):b_(r.b_+(r.e_-r.b_)/2),e_(r.e_){ r.e_=b_; } I begin()const{return b_;} I end()const{return e_;} std::size_t size()const{return e_-b_;} };
  typedef grange<iterator> range_type; typedef grange<const_iterator> const_range_type; range_type range(size_t=1){ return range_type(begin(),end()); } const_range_type range(size_t=1)const{ return const_range_type(begin(),end()); }
};
template<class T,class A> bool operator==(const concurrent_vector<T,A>&a,const concurrent_vector<T,A>&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!(a[i]==b[i])) return false; return true; }
template<class B> struct with_range : B { using B::B; typedef typename B::const_iterator CI; struct const_range_type { CI b_,e_; bool empty()const{return b_==e_;} bool is_divisible()const{return false;} const_range_type(CI b,CI e):b_(b),e_(e){} const_range_type(const_range_type&r,split):b_(r.e_),e_(r.e_){} CI begin()const{return b_;} CI end()const{return e_;} }; const_range_type range()const{ return const_range_type(this->begin(),this->end()); } size_t unsafe_bucket_count()const{return this->bucket_count();} template<class K> auto unsafe_erase(const K&k){ return this->erase(k);} };
template<class K,class H=std::hash<K>,class E=std::equal_to<K>,class A=std::allocator<K>> using concurrent_unordered_set=with_range<std::unordered_set<K,H,E>>;
template<class K,class H=std::hash<K>,class E=std::equal_to<K>,class A=std::allocator<K>> using concurrent_unordered_multiset=with_range<std::unordered_multiset<K,H,E>>;
template<class K,class V,class H=std::hash<K>,class E=std::equal_to<K>,class A=std::allocator<K>> using concurrent_unordered_map=with_range<std::unordered_map<K,V,H,E>>;
template<class K,class V,class H=std::hash<K>,class E=std::equal_to<K>,class A=std::allocator<K>> using concurrent_unordered_multimap=with_range<std::unordered_multimap<K,V,H,E>>;
template<class T,class A=std::allocator<T>> class concurrent_queue { std::deque<T> q_; public: concurrent_queue()=default; void push(const T&x){ symx_sched_(); q_.push_back(x);} bool try_pop(T&x){ symx_sched_(); if(q_.empty()) return false; x=q_.front(); q_.pop_front(); return true; } bool empty()const{return q_.empty();} size_t unsafe_size()const{return q_.size();} void clear(){q_.clear();} typedef typename std::deque<T>::iterator iterator; typedef typename std::deque<T>::const_iterator const_iterator; iterator unsafe_begin(){return q_.begin();} iterator unsafe_end(){return q_.end();} };
class spin_mutex { public: void lock(){ symx_lock_(this);} void unlock(){ symx_unlock_(this);} bool try_lock(){ return symx_trylock_(this);} class scoped_lock { spin_mutex*m=nullptr; public: scoped_lock(){} scoped_lock(spin_mutex&x):m(&x){ x.lock(); } ~scoped_lock(){ if(m) m->unlock(); } void acquire(spin_mutex&x){ m=&x; x.lock(); } bool try_acquire(spin_mutex&x){ if(x.try_lock()){ m=&x; return true; } return false; } void release(){ if(m) m->unlock(); m=nullptr; } }; };
typedef spin_mutex mutex; typedef spin_mutex queuing_mutex; 
template<class T> class atomic : public std::atomic<T> { using std::atomic<T>::atomic; };
}
