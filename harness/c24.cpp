// C24: partition trees.  params: shape, op (0 collect, 1 flatten, 2 copy, 3 assign, 4 conversion), symbolic points, D
#include "geo.h"
#include <numeric>
#include <set>
#include "load_balancing/BoxUtils.h"
#include "load_balancing/BoundsIntersectionChecker.h"
#include "load_balancing/PartitionTree.h"
using namespace LoadBalancing;
// shapes: ( children ), digit: leaf with so many points
static const char*SH[]={"(11)","((11)1)","(1(1(11)))","2","((1)(01))","()","(2(02)1)","((11)((1)1)(2))","(1()1)"};
template<uint D> static void run(){ typedef PartitionTree<D,double> T; typedef typename T::ChildContainer CC; long op=(long)symx_param_(1); long nsym=(long)symx_param_(2); const char*sh=SH[symx_param_(0)];
  struct L { std::vector<tIdType> ids; dBox<D,double> box; }; std::vector<L> leaves; long k=0; long box=0;
  auto mkbox=[&]{ dBox<D,double> b; box++; for(uint d=0;d<D;d++){ b.low[d]=box*(d+1); b.high[d]=box*(d+1)+d+box; } return b; };
  std::function<T(const char*&)> build=[&](const char*&p)->T{ T t; auto b=mkbox(); t.intersectionChecker=std::make_unique<BoundsIntersectionChecker<D,double>>(b); if(*p=='('){ p++; CC c; while(*p!=')') c.push_back(build(p)); p++; t.attachment=std::move(c); } else { L l; l.box=b; Point_Ids s; for(int i=*p-'0';i>0;i--){ k++; tIdType id; if(k<=nsym){ id=sx::u64("id"); sx::assume(id!=0); } else id=1000+k*k; l.ids.push_back(id); s.insert(id); } p++; leaves.push_back(l); t.attachment=std::move(s); } return t; };
  const char*p=sh; T t=build(p); tIdType q=sx::u64("probe"); sx::assume(q!=0); bool single=*sh!='(';
  auto has=[&](const std::vector<tIdType>&v){ bool r=false; for(auto i:v) r|=i==q; return r; };
  auto distinct=[&](const std::vector<tIdType>&v){ size_t n=0; for(size_t i=0;i<v.size();i++){ bool f=true; for(size_t j=0;j<i;j++) f&=v[i]!=v[j]; n+=f; } return n; };
  std::vector<tIdType> all; for(auto&l:leaves) for(auto i:l.ids) all.push_back(i);
  auto leafIs=[&](const Point_Ids&s,const std::vector<tIdType>&v){ return (bool(s.contains(q))==has(v))&(s.size()==distinct(v)); };
  // leaves of a tree, depth first
  std::function<void(const T&,std::vector<const T*>&)> walk=[&](const T&x,std::vector<const T*>&o){ if(x.isLeaf()) o.push_back(&x); else for(auto&c:std::get<CC>(x.attachment)) walk(c,o); };
  std::function<std::string(const T&)> form=[&](const T&x)->std::string{ if(x.isLeaf()) return "."; std::string s="("; for(auto&c:std::get<CC>(x.attachment)) s+=form(c); return s+")"; };
  auto same=[&](const T&x,const char*what){ std::vector<const T*> v; walk(x,v); sx::check(v.size()==leaves.size(),what); bool ok=true; for(size_t i=0;i<v.size();i++){ ok&=leafIs(std::get<Point_Ids>(v[i]->attachment),leaves[i].ids); ok&=v[i]->intersectionChecker->bounds()==leaves[i].box; } sx::check(ok,what); };
  auto root=t.intersectionChecker->bounds();
  if(op==0){ t.collect(); sx::check(t.isLeaf(),"a collected tree is a leaf"); sx::check(leafIs(std::get<Point_Ids>(t.attachment),all),"with exactly the points of all its leaves"); sx::check(t.intersectionChecker->bounds()==root,"and its own region"); }
  if(op==1){ t.flatten(); sx::check(t.isLeaf()==single,"flattening keeps a leaf and an inner node what they are"); if(!single) for(auto&c:std::get<CC>(t.attachment)) sx::check(c.isLeaf(),"all children of a flattened tree are leaves"); same(t,"flattening keeps exactly the leaves, their order and regions"); sx::check(t.intersectionChecker->bounds()==root,"and the region of the tree"); auto f=form(t); t.flatten(); sx::check(form(t)==f,"flattening again changes nothing"); }
  if(op==2||op==3){ auto f=form(t); T c; if(op==2){ T d(t); c=std::move(d); } else {
    c=t;
    } sx::check(form(c)==f,"a copy has the same form"); same(c,"a copy has the same leaves"); sx::check(c.intersectionChecker->bounds()==root,"a copy has the same region"); t.collect(); if(t.isLeaf()) std::get<Point_Ids>(t.attachment).insert(q); t.intersectionChecker.reset(); sx::check(form(c)==f,"changing the original does not change the copy"); same(c,"changing the original does not change the copy"); }
  if(op==4&&!single){ auto&ch=std::get<CC>(t.attachment); std::vector<std::vector<tIdType>> want; std::vector<dBox<D,double>> bx; for(auto&c:ch){ std::vector<const T*> v; walk(c,v); std::vector<tIdType> w; for(auto x:v) for(auto i:std::get<Point_Ids>(x->attachment)) w.push_back(i); want.push_back(w); bx.push_back(c.intersectionChecker->bounds()); } size_t n=ch.size(); auto r=toOldPartitioning<D,double>(std::move(ch)); sx::check((r.first.size()==n)&(r.second.size()==n),"one partition and one checker per child"); bool ok=true,bo=true; for(size_t i=0;i<n;i++){ ok&=leafIs(r.first[i].points,want[i])&(r.first[i].contains(q)==has(want[i])); bo&=(r.first[i].bounds==bx[i])&(r.first[i].id==i)&(r.second[i]->bounds()==bx[i]); } sx::check(ok,"a partition has the points of its subtree"); sx::check(bo,"and its region, position and checker"); }
  sx::reach("end"); }
extern "C" void symx_main(){ if(symx_param_(3)==3) run<3>(); else run<2>(); }
