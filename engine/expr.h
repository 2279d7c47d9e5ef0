// Expression DAG (bit-vectors, IEEE floats, exact dyadic "FX" numbers), simplifier,
// concrete evaluator and z3 translation.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/SmallString.h>
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <array>
#include <string>
#include <map>
#include <set>
#include <memory>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <functional>
using llvm::APInt; using llvm::APFloat; using llvm::APSInt;

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE,
  FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FFMA, FROUND, FEQ, FLT, FLE, FUNO, FTOSI, FTOUI, SITOF, UITOF, FCAST, FX, FXSQRT, FXQ, TAB, FROUNDP };

typedef std::vector<uint32_t> SymSet;

struct FXInfo { // value = m * 2^e ; true double v = X + err, |err|<=absErr, and |err| <= relk*2^-(p)*|X|
  APInt lo, hi;   // signed range of m, same width as m
  int e = 0;
  double absErr = 0; int relk = 0;   // relk<0 : no relative bound
};

struct Node {
  uint32_t id; Op op; uint8_t nk = 0; uint16_t w; 
  Node* k[3] = {0,0,0};
  int64_t aux = 0;
  APInt c;
  const SymSet* syms = nullptr;
  FXInfo* fx = nullptr;
  bool hasFP = false, hasMul = false;
  Z3_ast zb = nullptr, zv = nullptr, zf = nullptr; // bool / bv / fp translations
  uint64_t ep = 0; APInt ev; // evaluation memo
  uint32_t depth = 0;
  std::vector<APInt>* tab = nullptr; Node* tabc = nullptr; // decision table over all values of syms (--tab)
  Node() : c(1,0), ev(1,0) {}
  bool isConst() const { return op==CONST; }
};

struct Unsupported { std::string why; };
[[noreturn]] inline void unsupported(const std::string& s){ throw Unsupported{s}; }

struct NodeHash { size_t operator()(const Node* n) const {
  size_t h = n->op*1000003u + n->w*7919u + (size_t)n->aux*0x9E3779B97F4A7C15ull;
  for(int i=0;i<n->nk;i++) h = (h^(size_t)n->k[i]->id)*0x100000001B3ull + (h>>29);
  if(n->op==CONST) h ^= llvm::hash_value(n->c);
  return h; } };
struct NodeEq { bool operator()(const Node*a,const Node*b) const {
  if(a->op!=b->op||a->w!=b->w||a->aux!=b->aux||a->nk!=b->nk) return false;
  for(int i=0;i<a->nk;i++) if(a->k[i]!=b->k[i]) return false;
  if(a->op==CONST) return a->c==b->c;
  return true; } };

static std::unordered_set<Node*,NodeHash,NodeEq> gTable;
static std::vector<Node*> gNodes;
struct SymInfo { std::string name; unsigned w; bool internal; };
static std::vector<SymInfo> gSyms;
static std::vector<Node*> gSymNodes;
static std::set<SymSet> gSymSets;
static std::map<std::pair<const SymSet*,const SymSet*>, const SymSet*> gUnion;
static const SymSet* emptySyms(){ static const SymSet* e=&*gSymSets.insert(SymSet()).first; return e; }
static const SymSet* unionSyms(const SymSet*a,const SymSet*b){
  if(a==b||b->empty()) return a; if(a->empty()) return b;
  if(a>b) std::swap(a,b);
  auto &r=gUnion[{a,b}]; if(r) return r;
  SymSet s; std::set_union(a->begin(),a->end(),b->begin(),b->end(),std::back_inserter(s));
  return r=&*gSymSets.insert(s).first;
}
static unsigned gTabBits=0; static bool gTabOn=false; static Node* tabulate(Node*n);
static Node* intern(Node& t){
  auto it=gTable.find(&t); if(it!=gTable.end()){ if(gTabOn&&(*it)->op!=CONST){ if(!(*it)->tabc) (*it)->tabc=tabulate(*it); return (*it)->tabc; } return *it; }
  Node* n=new Node(t); n->id=gNodes.size(); 
  n->syms=emptySyms(); n->hasFP=(t.op>=FADD && t.op<FX); n->hasMul=(t.op>=MUL&&t.op<=SREM);
  for(int i=0;i<n->nk;i++){ n->syms=unionSyms(n->syms,n->k[i]->syms); n->hasFP|=n->k[i]->hasFP; n->hasMul|=n->k[i]->hasMul; n->depth=std::max(n->depth,n->k[i]->depth+1);}
  gNodes.push_back(n); gTable.insert(n); if(gTabOn&&n->op!=CONST) return n->tabc=tabulate(n); return n;
}
static Node* mkC(const APInt& v){ Node t; t.op=CONST; t.w=v.getBitWidth(); t.c=v; return intern(t); }
static Node* mkC(unsigned w,uint64_t v){ return mkC(APInt(w,v)); }
static Node* mkTrue(){ static Node*n=mkC(1,1); return n; }
static Node* mkFalse(){ static Node*n=mkC(1,0); return n; }
static Node* mkSym(const std::string& name,unsigned w,bool internal){
  Node* n=new Node; n->op=SYM; n->w=w; n->aux=gSyms.size(); n->id=gNodes.size();
  SymSet s; s.push_back(gSyms.size()); n->syms=&*gSymSets.insert(s).first;
  gSyms.push_back({name,w,internal}); gSymNodes.push_back(n); gNodes.push_back(n); return n;
}
static Node* raw(Op op,unsigned w,Node*a,Node*b=nullptr,Node*c=nullptr,int64_t aux=0){
  Node t; t.op=op; t.w=w; t.k[0]=a; t.k[1]=b; t.k[2]=c; t.nk=c?3:b?2:1; t.aux=aux; return intern(t);
}
// ---------- FP helpers
static const llvm::fltSemantics& sem(unsigned w){ switch(w){case 16:return APFloat::IEEEhalf(); case 32:return APFloat::IEEEsingle(); case 64:return APFloat::IEEEdouble(); case 80:return APFloat::x87DoubleExtended();} unsupported("fp width"); }
static int gPrecOv=0; static int precOf(unsigned w){ if(gPrecOv) return gPrecOv; return w==16?11:w==32?24:w==64?53:64; }
static int eminOf(unsigned w){ return w==16?-24:w==32?-149:-1074; }
static int emaxOf(unsigned w){ return w==16?15:w==32?127:1023; }
static APFloat toF(const APInt&v,unsigned w){ return APFloat(sem(w),v); }

// forward
static Node* mkITE(Node*c,Node*a,Node*b); static Node* mkExtract(Node*a,unsigned lo,unsigned w); static Node* mkConcat(Node*hi,Node*lo);
static Node* mkBin(Op op,Node*a,Node*b); static Node* mkZExt(Node*a,unsigned w); static Node* mkSExt(Node*a,unsigned w); static Node* mkCmp(Op op,Node*a,Node*b);
static Node* mkNot(Node*a){ return mkBin(XOR,a,mkC(APInt::getAllOnes(a->w))); }
static inline Node* fxToPlain(Node* n);
static Node* plain(Node*n){ return (n->op==FX||n->op==FXSQRT||n->op==FXQ)?fxToPlain(n):n; }

static APInt evalBin(Op op,const APInt&a,const APInt&b,unsigned w){
  switch(op){
  case ADD:return a+b; case SUB:return a-b; case MUL:return a*b; case AND:return a&b; case OR:return a|b; case XOR:return a^b;
  case UDIV:return b==0?APInt::getAllOnes(w):a.udiv(b); case UREM:return b==0?a:a.urem(b);
  case SDIV:return b==0?(a.isNegative()?APInt(w,1):APInt::getAllOnes(w)):a.sdiv(b); case SREM:return b==0?a:a.srem(b);
  case SHL:return b.uge(w)?APInt(w,0):a.shl(b); case LSHR:return b.uge(w)?APInt(w,0):a.lshr(b);
  case ASHR:return b.uge(w)?(a.isNegative()?APInt::getAllOnes(w):APInt(w,0)):a.ashr(b);
  default: unsupported("evalBin"); }
}
static bool evalCmp(Op op,const APInt&a,const APInt&b){
  switch(op){case EQ:return a==b; case ULT:return a.ult(b); case ULE:return a.ule(b); case SLT:return a.slt(b); case SLE:return a.sle(b); default: unsupported("evalCmp");} }

// trailing zero bits known
static unsigned ktz(Node*n,int d=0){
  if(n->isConst()) return n->c.countr_zero();
  if(d>8) return 0;
  switch(n->op){
  case MUL:{ unsigned r=ktz(n->k[0],d+1)+ktz(n->k[1],d+1); return std::min<unsigned>(r,n->w);} 
  case ADD: case SUB: case OR: case XOR: return std::min(ktz(n->k[0],d+1),ktz(n->k[1],d+1));
  case AND: return std::max(ktz(n->k[0],d+1),ktz(n->k[1],d+1));
  case SHL: if(n->k[1]->isConst()){ uint64_t s=n->k[1]->c.getLimitedValue(n->w); return std::min<uint64_t>(n->w,ktz(n->k[0],d+1)+s);} return ktz(n->k[0],d+1);
  case CONCAT:{ unsigned l=ktz(n->k[1],d+1); if(l<n->k[1]->w) return l; return l+ktz(n->k[0],d+1);} 
  case ZEXT: case SEXT:{ unsigned l=ktz(n->k[0],d+1); return l>=n->k[0]->w?n->w:l;} 
  case ITE: return std::min(ktz(n->k[1],d+1),ktz(n->k[2],d+1));
  case EXTRACT:{ unsigned l=ktz(n->k[0],d+1); unsigned lo=n->aux; return l<=lo?0:std::min<unsigned>(n->w,l-lo);} 
  default:return 0; }
}
// known leading zero bits (upper bound on value)
static unsigned klz(Node*n,int d=0){
  if(n->isConst()) return n->c.countl_zero();
  if(d>8) return 0;
  switch(n->op){
  case ZEXT: return n->w-n->k[0]->w+klz(n->k[0],d+1);
  case AND: return std::max(klz(n->k[0],d+1),klz(n->k[1],d+1));
  case OR: case XOR: return std::min(klz(n->k[0],d+1),klz(n->k[1],d+1));
  case ADD:{ unsigned m=std::min(klz(n->k[0],d+1),klz(n->k[1],d+1)); return m?m-1:0; }
  case MUL:{ unsigned a=n->w-klz(n->k[0],d+1),b=n->w-klz(n->k[1],d+1); return a+b>=n->w?0:n->w-a-b; }
  case LSHR: if(n->k[1]->isConst()) return std::min<uint64_t>(n->w,klz(n->k[0],d+1)+n->k[1]->c.getLimitedValue(n->w)); return klz(n->k[0],d+1);
  case SHL: if(n->k[1]->isConst()){ uint64_t s=n->k[1]->c.getLimitedValue(n->w); unsigned l=klz(n->k[0],d+1); return l>s?l-s:0;} return 0;
  case UDIV: case UREM: { unsigned l=klz(n->k[0],d+1); if(n->op==UREM && n->k[1]->isConst() && n->k[1]->c!=0) l=std::max<unsigned>(l,(n->k[1]->c-1).countl_zero()); return n->k[1]->isConst()&&n->k[1]->c!=0?l:0; }
  case ITE: return std::min(klz(n->k[1],d+1),klz(n->k[2],d+1));
  case CONCAT:{ unsigned l=klz(n->k[0],d+1); return l<n->k[0]->w?l:l+klz(n->k[1],d+1);} 
  case EXTRACT:{ unsigned top=n->k[0]->w-(n->aux+n->w); unsigned l=klz(n->k[0],d+1); return l<=top?0:std::min<unsigned>(n->w,l-top);} 
  default:return 0; }
}
static Node* mkExtract(Node*a,unsigned lo,unsigned w){
  a=plain(a);
  if(lo==0&&w==a->w) return a;
  if(a->isConst()) return mkC(a->c.extractBits(w,lo));
  switch(a->op){
  case EXTRACT: return mkExtract(a->k[0],lo+a->aux,w);
  case CONCAT:{ unsigned lw=a->k[1]->w; if(lo+w<=lw) return mkExtract(a->k[1],lo,w); if(lo>=lw) return mkExtract(a->k[0],lo-lw,w);
     return mkConcat(mkExtract(a->k[0],0,lo+w-lw),mkExtract(a->k[1],lo,lw-lo)); }
  case ZEXT:{ unsigned lw=a->k[0]->w; if(lo>=lw) return mkC(w,0); if(lo+w<=lw) return mkExtract(a->k[0],lo,w); return mkZExt(mkExtract(a->k[0],lo,lw-lo),w); }
  case SEXT:{ unsigned lw=a->k[0]->w; if(lo+w<=lw) return mkExtract(a->k[0],lo,w); if(lo==0) return mkSExt(a->k[0],w); break; }
  case ITE: if(a->k[1]->isConst()||a->k[2]->isConst()) return mkITE(a->k[0],mkExtract(a->k[1],lo,w),mkExtract(a->k[2],lo,w)); break;
  case AND: case OR: case XOR: return mkBin(a->op,mkExtract(a->k[0],lo,w),mkExtract(a->k[1],lo,w));
  case ADD: case SUB: case MUL: if(lo==0) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
  case SHL: if(a->k[1]->isConst()){ uint64_t s=a->k[1]->c.getLimitedValue(a->w); if(lo+w<=s) return mkC(w,0); if(lo>=s) return mkExtract(a->k[0],lo-s,w); 
      return mkConcat(mkExtract(a->k[0],0,lo+w-s),mkC(s-lo,0)); } break;
  case LSHR: if(a->k[1]->isConst()){ uint64_t s=a->k[1]->c.getLimitedValue(a->w); if(s+lo+w<=a->w) return mkExtract(a->k[0],lo+s,w); } break;
  default: break; }
  Node t; t.op=EXTRACT; t.w=w; t.k[0]=a; t.nk=1; t.aux=lo; return intern(t);
}
static Node* mkConcat(Node*hi,Node*lo){
  hi=plain(hi); lo=plain(lo);
  unsigned w=hi->w+lo->w;
  if(hi->isConst()&&lo->isConst()) return mkC(hi->c.zext(w).shl(lo->w)|lo->c.zext(w));
  if(hi->isConst()&&hi->c==0) return mkZExt(lo,w);
  if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->k[0]==lo->k[0]&&hi->aux==lo->aux+lo->w) return mkExtract(hi->k[0],lo->aux,w);
  if(hi->op==EXTRACT&&lo->op==CONCAT&&lo->k[0]->op==EXTRACT&&lo->k[0]->k[0]==hi->k[0]&&hi->aux==lo->k[0]->aux+lo->k[0]->w) return mkConcat(mkExtract(hi->k[0],lo->k[0]->aux,hi->w+lo->k[0]->w),lo->k[1]);
  if(hi->op==EXTRACT&&hi->aux==lo->w&&hi->k[0]==lo) {}
  return raw(CONCAT,w,hi,lo);
}
static Node* mkZExt(Node*a,unsigned w){ a=plain(a); if(w==a->w) return a; if(a->isConst()) return mkC(a->c.zext(w)); if(a->op==ZEXT) return mkZExt(a->k[0],w);
  if(a->op==ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkITE(a->k[0],mkZExt(a->k[1],w),mkZExt(a->k[2],w));
  return raw(ZEXT,w,a); }
static Node* mkSExt(Node*a,unsigned w){ a=plain(a); if(w==a->w) return a; if(a->isConst()) return mkC(a->c.sext(w)); if(a->op==SEXT) return mkSExt(a->k[0],w); if(a->op==ZEXT) return mkZExt(a->k[0],w);
  if(a->op==ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkITE(a->k[0],mkSExt(a->k[1],w),mkSExt(a->k[2],w));
  return raw(SEXT,w,a); }
static bool isTrue(Node*n){return n->isConst()&&n->c.getBoolValue();}
static bool isFalse(Node*n){return n->isConst()&&!n->c.getBoolValue();}
static Node* fxIte(Node*c,Node*a,Node*b);
static Node* mkITE(Node*c,Node*a,Node*b){
  if(c->isConst()) return c->c.getBoolValue()?a:b;
  if(a==b) return a;
  if(a->op==FX||b->op==FX){ Node*r=fxIte(c,a,b); if(r) return r; }
  a=plain(a); b=plain(b);
  if(a->w==1){ if(isTrue(a)&&isFalse(b)) return c; if(isFalse(a)&&isTrue(b)) return mkNot(c);
    if(isTrue(a)) return mkBin(OR,c,b); if(isFalse(a)) return mkBin(AND,mkNot(c),b); if(isTrue(b)) return mkBin(OR,mkNot(c),a); if(isFalse(b)) return mkBin(AND,c,a); }
  if(c->op==XOR&&c->k[1]->isConst()) return mkITE(c->k[0],b,a);
  if(a->op==ITE&&a->k[0]==c) a=a->k[1];
  if(b->op==ITE&&b->k[0]==c) b=b->k[2];
  if(b->op==ITE&&b->k[1]==a) return mkITE(mkBin(OR,c,b->k[0]),a,b->k[2]);
  if(a==b) return a;
  return raw(ITE,a->w,c,a,b);
}
static bool commut(Op o){ return o==ADD||o==MUL||o==AND||o==OR||o==XOR||o==EQ; }
static Node* mkBin(Op op,Node*a,Node*b){
  a=plain(a); b=plain(b);
  unsigned w=a->w;
  if(a->isConst()&&b->isConst()) return mkC(evalBin(op,a->c,b->c,w));
  if(commut(op)&&(a->isConst()||(!b->isConst()&&a->id>b->id))) std::swap(a,b);
  bool bc=b->isConst();
  switch(op){
  case ADD: if(bc&&b->c==0) return a; if(w==1) return mkBin(XOR,a,b);
    if(bc&&a->op==ADD&&a->k[1]->isConst()) return mkBin(ADD,a->k[0],mkC(a->k[1]->c+b->c));
    if(bc&&a->op==SUB&&a->k[0]->isConst()) return mkBin(SUB,mkC(a->k[0]->c+b->c),a->k[1]);
    if(!bc&&a->op==ADD&&a->k[1]->isConst()) return mkBin(ADD,mkBin(ADD,a->k[0],b),a->k[1]);
    if(!bc&&b->op==ADD&&b->k[1]->isConst()) return mkBin(ADD,mkBin(ADD,a,b->k[0]),b->k[1]);
    if(a->op==SUB&&a->k[1]==b) return a->k[0]; if(b->op==SUB&&b->k[1]==a) return b->k[0];
    break;
  case SUB: if(a==b) return mkC(w,0); if(bc) return mkBin(ADD,a,mkC(-b->c)); if(w==1) return mkBin(XOR,a,b);
    if(a->op==ADD){ if(a->k[0]==b) return a->k[1]; if(a->k[1]==b) return a->k[0]; 
      if(a->k[1]->isConst()){ Node*r=mkBin(SUB,a->k[0],b); return mkBin(ADD,r,a->k[1]); } }
    if(b->op==ADD){ if(b->k[0]==a) return mkBin(SUB,mkC(w,0),b->k[1]); if(b->k[1]==a) return mkBin(SUB,mkC(w,0),b->k[0]); 
      if(b->k[1]->isConst()) return mkBin(ADD,mkBin(SUB,a,b->k[0]),mkC(-b->k[1]->c)); }
    break;
  case MUL: if(w==1) return mkBin(AND,a,b); if(bc){ if(b->c==0) return b; if(b->c==1) return a; if(b->c.isPowerOf2()) return mkBin(SHL,a,mkC(w,b->c.logBase2()));
      if(a->op==MUL&&a->k[1]->isConst()) return mkBin(MUL,a->k[0],mkC(a->k[1]->c*b->c)); } break;
  case AND: if(a==b) return a; if(bc){ if(b->c==0) return b; if(b->c.isAllOnes()) return a;
      if(a->op==AND&&a->k[1]->isConst()) return mkBin(AND,a->k[0],mkC(a->k[1]->c&b->c));
      if(b->c.isMask()&&w>1){ unsigned m=b->c.countr_one(); return mkZExt(mkExtract(a,0,m),w);} 
      if(a->op==ZEXT&&a->w>1){ Node* r=mkBin(AND,a->k[0],mkC(b->c.trunc(a->k[0]->w))); return mkZExt(r,w);} 
      if(a->op==ITE&&a->k[1]->isConst()&&a->k[2]->isConst()) return mkITE(a->k[0],mkBin(AND,a->k[1],b),mkBin(AND,a->k[2],b)); }
    if(w==1){ if((a->op==XOR&&isTrue(a->k[1])&&a->k[0]==b)||(b->op==XOR&&isTrue(b->k[1])&&b->k[0]==a)) return mkFalse(); 
       if(b->op==AND&&(b->k[0]==a||b->k[1]==a)) return b; if(a->op==AND&&(a->k[0]==b||a->k[1]==b)) return a; }
    break;
  case OR: if(a==b) return a; if(bc){ if(b->c==0) return a; if(b->c.isAllOnes()) return b; }
    if(w==1){ if((a->op==XOR&&isTrue(a->k[1])&&a->k[0]==b)||(b->op==XOR&&isTrue(b->k[1])&&b->k[0]==a)) return mkTrue(); }
    // disjoint or -> concat
    { auto sh=[&](Node*x,Node*y)->Node*{ unsigned tz=ktz(x); unsigned hz=klz(y); if(tz>0&&tz<w&&hz>=w-tz) return mkConcat(mkExtract(x,tz,w-tz),mkExtract(y,0,tz)); return nullptr; };
      if(w>1&&!bc){ if(Node*r=sh(a,b)) return r; if(Node*r=sh(b,a)) return r; } }
    break;
  case XOR: if(w>1&&(a->op==XOR||b->op==XOR)){ // canonical sum modulo 2: equal terms cancel
      std::vector<Node*> lv; APInt cc(w,0); std::vector<Node*> st{a,b}; while(!st.empty()&&lv.size()<64){ Node*x=st.back(); st.pop_back(); if(x->op==XOR){ st.push_back(x->k[0]); st.push_back(x->k[1]); } else if(x->isConst()) cc^=x->c; else lv.push_back(x); }
      if(st.empty()){ std::sort(lv.begin(),lv.end(),[](Node*x,Node*y){return x->id<y->id;}); std::vector<Node*> o; for(Node*x:lv){ if(!o.empty()&&o.back()==x) o.pop_back(); else o.push_back(x); }
        Node*r=nullptr; for(Node*x:o) r=r?raw(XOR,w,r,x):x; if(!r) return mkC(cc); return cc==0?r:raw(XOR,w,r,mkC(cc)); } }
    if(a==b) return mkC(w,0); if(bc){ if(b->c==0) return a; if(a->op==XOR&&a->k[1]->isConst()) return mkBin(XOR,a->k[0],mkC(a->k[1]->c^b->c)); 
      if(w==1){ if(a->op==ULT) return mkCmp(ULE,a->k[1],a->k[0]); if(a->op==ULE) return mkCmp(ULT,a->k[1],a->k[0]); if(a->op==SLT) return mkCmp(SLE,a->k[1],a->k[0]); if(a->op==SLE) return mkCmp(SLT,a->k[1],a->k[0]); } }
    break;
  case UDIV: if(bc){ if(b->c==1) return a; if(b->c.isPowerOf2()) return mkBin(LSHR,a,mkC(w,b->c.logBase2())); } if(a->isConst()&&a->c==0&&0) return a; break;
  case UREM: if(bc){ if(b->c==1) return mkC(w,0); if(b->c.isPowerOf2()) return mkBin(AND,a,mkC(b->c-1)); } break;
  case SDIV: if(bc&&b->c==1&&w>1) return a; 
     if(bc&&b->c.isPowerOf2()&&!b->c.isNegative()&&w>1){ unsigned s=b->c.logBase2(); if(ktz(a)>=s) return mkBin(ASHR,a,mkC(w,s)); if(klz(a)>0) return mkBin(LSHR,a,mkC(w,s)); }
     break;
  case SREM: if(bc&&b->c==1&&w>1) return mkC(w,0); if(bc&&b->c.isPowerOf2()&&!b->c.isNegative()&&w>1&&klz(a)>0) return mkBin(AND,a,mkC(b->c-1)); break;
  case SHL: case LSHR: case ASHR:
    if(bc){ if(b->c==0) return a; uint64_t s=b->c.getLimitedValue(w); if(s>=w){ if(op!=ASHR) return mkC(w,0); s=w-1; b=mkC(w,s);} 
      if(op==SHL&&a->op==SHL&&a->k[1]->isConst()){ uint64_t t=s+a->k[1]->c.getLimitedValue(w); return t>=w?mkC(w,0):mkBin(SHL,a->k[0],mkC(w,t)); }
      if(op==LSHR){ return mkZExt(mkExtract(a,s,w-s),w); }
      if(op==ASHR){ return mkSExt(mkExtract(a,s,w-s),w); }
      if(op==SHL){ return mkConcat(mkExtract(a,0,w-s),mkC(s,0)); } }
    if(a->isConst()&&a->c==0) return a;
    break;
  default: break; }
  return raw(op,w,a,b);
}
static void constLeaves(Node*n,std::vector<Node*>&out,int&budget,bool&ok){
  if(budget--<0){ok=false;return;} if(n->isConst()){out.push_back(n);return;} if(n->op==ITE){ constLeaves(n->k[1],out,budget,ok); if(ok) constLeaves(n->k[2],out,budget,ok); return;} ok=false; }
static Node* mkCmp(Op op,Node*a,Node*b){
  a=plain(a); b=plain(b);
  if(a->isConst()&&b->isConst()) return evalCmp(op,a->c,b->c)?mkTrue():mkFalse();
  unsigned w=a->w;
  if(a==b) return (op==EQ||op==ULE||op==SLE)?mkTrue():mkFalse();
  if(op==EQ){
    if(a->isConst()||(!b->isConst()&&a->id>b->id)) std::swap(a,b);
    if(w==1){ if(b->isConst()) return b->c.getBoolValue()?a:mkNot(a); }
    if(w>1&&a->op==XOR&&b->op==XOR){ Node*x=mkBin(XOR,a,b); if(x->isConst()) return x->c==0?mkTrue():mkFalse(); if(x->op==XOR&&!x->k[1]->isConst()) return mkCmp(EQ,x->k[0],x->k[1]); }
    if(b->isConst()){
      if(a->op==ZEXT){ unsigned lw=a->k[0]->w; if(b->c.lshr(lw)!=0) return mkFalse(); return mkCmp(EQ,a->k[0],mkC(b->c.trunc(lw))); }
      if(a->op==SEXT){ unsigned lw=a->k[0]->w; APInt t=b->c.trunc(lw); if(t.sext(w)!=b->c) return mkFalse(); return mkCmp(EQ,a->k[0],mkC(t)); }
      if(a->op==CONCAT){ unsigned lw=a->k[1]->w; return mkBin(AND,mkCmp(EQ,a->k[0],mkC(b->c.extractBits(w-lw,lw))),mkCmp(EQ,a->k[1],mkC(b->c.trunc(lw)))); }
      if(a->op==ADD&&a->k[1]->isConst()) return mkCmp(EQ,a->k[0],mkC(b->c-a->k[1]->c));
      if(a->op==SUB&&a->k[0]->isConst()) return mkCmp(EQ,a->k[1],mkC(a->k[0]->c-b->c));
      if(a->op==SUB&&b->c==0) return mkCmp(EQ,a->k[0],a->k[1]);
      if(a->op==XOR&&a->k[1]->isConst()) return mkCmp(EQ,a->k[0],mkC(b->c^a->k[1]->c));
      if(a->op==XOR&&b->c==0) return mkCmp(EQ,a->k[0],a->k[1]);
      if(a->op==MUL&&a->k[1]->isConst()&&a->k[1]->c[0]){ // odd multiplier: invertible
        APInt m=a->k[1]->c, inv=m; for(int i=0;i<8;i++) inv*=APInt(w,2)-m*inv; return mkCmp(EQ,a->k[0],mkC(inv*b->c)); }
      if(a->op==ITE){ if(a->k[1]->isConst()&&a->k[1]->c!=b->c) return mkBin(AND,mkNot(a->k[0]),mkCmp(EQ,a->k[2],b));
        if(a->k[2]->isConst()&&a->k[2]->c!=b->c) return mkBin(AND,a->k[0],mkCmp(EQ,a->k[1],b));
        if(a->k[1]->isConst()) return mkBin(OR,a->k[0],mkCmp(EQ,a->k[2],b));
        if(a->k[2]->isConst()) return mkBin(OR,mkNot(a->k[0]),mkCmp(EQ,a->k[1],b)); }
    } else {
      if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mkCmp(EQ,a->k[0],b->k[0]);
      if(a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return mkCmp(EQ,a->k[0],b->k[0]);
      if(a->op==ADD&&b->op==ADD){ if(a->k[0]==b->k[0]) return mkCmp(EQ,a->k[1],b->k[1]); if(a->k[1]==b->k[1]) return mkCmp(EQ,a->k[0],b->k[0]); }
      if(a->op==ADD){ if(a->k[0]==b) return mkCmp(EQ,a->k[1],mkC(w,0)); if(a->k[1]==b) return mkCmp(EQ,a->k[0],mkC(w,0)); }
      if(b->op==ADD){ if(b->k[0]==a) return mkCmp(EQ,b->k[1],mkC(w,0)); if(b->k[1]==a) return mkCmp(EQ,b->k[0],mkC(w,0)); }
    }
    return raw(EQ,1,a,b);
  }
  if(op==ULT||op==ULE){
    // range by leading zeros
    if(b->isConst()){ unsigned lz=klz(a); APInt mx=APInt::getLowBitsSet(w,w-lz); if(op==ULT?mx.ult(b->c):mx.ule(b->c)) return mkTrue();
      if(op==ULT&&b->c==0) return mkFalse(); if(op==ULT&&b->c==1) return mkCmp(EQ,a,mkC(w,0)); if(op==ULE&&b->c==0) return mkCmp(EQ,a,b);
      if(a->op==ZEXT&&b->c.getActiveBits()<=a->k[0]->w) return mkCmp(op,a->k[0],mkC(b->c.trunc(a->k[0]->w))); }
    if(a->isConst()){ unsigned lz=klz(b); APInt mx=APInt::getLowBitsSet(w,w-lz); if(op==ULT?mx.ule(a->c):mx.ult(a->c)) return mkFalse();
      if(op==ULE&&a->c==0) return mkTrue(); if(op==ULT&&a->c==0) return mkNot(mkCmp(EQ,b,a));
      if(b->op==ZEXT&&a->c.getActiveBits()<=b->k[0]->w) return mkCmp(op,mkC(a->c.trunc(b->k[0]->w)),b->k[0]); }
    if(a->op==ZEXT&&b->op==ZEXT&&a->k[0]->w==b->k[0]->w) return mkCmp(op,a->k[0],b->k[0]);
    if(a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return mkCmp(op,a->k[0],b->k[0]);
  } else {
    if(klz(a)>0&&klz(b)>0&&w>1) return mkCmp(op==SLT?ULT:ULE,a,b);
    if(a->op==SEXT&&b->op==SEXT&&a->k[0]->w==b->k[0]->w) return mkCmp(op,a->k[0],b->k[0]);
    if(a->op==SEXT&&b->isConst()){ unsigned lw=a->k[0]->w; APInt mx=APInt::getSignedMaxValue(lw).sext(w), mn=APInt::getSignedMinValue(lw).sext(w);
      if(op==SLT?mx.slt(b->c):mx.sle(b->c)) return mkTrue(); if(op==SLT?mn.sge(b->c):mn.sgt(b->c)) return mkFalse(); return mkCmp(op,a->k[0],mkC(b->c.trunc(lw))); }
    if(b->op==SEXT&&a->isConst()){ unsigned lw=b->k[0]->w; APInt mx=APInt::getSignedMaxValue(lw).sext(w), mn=APInt::getSignedMinValue(lw).sext(w);
      if(op==SLT?a->c.slt(mn):a->c.sle(mn)) return mkTrue(); if(op==SLT?a->c.sge(mx):a->c.sgt(mx)) return mkFalse(); return mkCmp(op,mkC(a->c.trunc(lw)),b->k[0]); }
  }
  { // both const-leaf ITEs: fold if all leaf combos agree
    std::vector<Node*> la,lb; int bud=12; bool ok=true; constLeaves(a,la,bud,ok); if(ok) constLeaves(b,lb,bud,ok);
    if(ok){ bool any=false,all=true; for(auto x:la) for(auto y:lb){ bool r=evalCmp(op,x->c,y->c); any|=r; all&=r; } if(all) return mkTrue(); if(!any) return mkFalse(); } }
  return raw(op,1,a,b);
}
static Node* mkAnd(Node*a,Node*b){return mkBin(AND,a,b);} static Node* mkOr(Node*a,Node*b){return mkBin(OR,a,b);}

// =================== FX: exact dyadic numbers ===================
static uint64_t gHavocs=0, gFxBands=0; static bool gFxRound=false;
static Node* mkFXraw(unsigned w,Node*m,int e,const APInt&lo,const APInt&hi,double absErr,int relk){
  // canonical width: minimal signed width for [lo,hi]
  unsigned need=std::max(lo.getSignificantBits(),hi.getSignificantBits());
  if(need<1) need=1;
  if(m->w>need) m=mkExtract(m,0,need); else if(m->w<need) m=mkSExt(m,need);
  Node t; t.op=FX; t.w=w; t.k[0]=m; t.nk=1;
  t.aux=((int64_t)e<<8)^(relk&0xff)^((int64_t)std::hash<double>()(absErr)<<24);
  Node*n=intern(t);
  if(!n->fx){ n->fx=new FXInfo{lo.sextOrTrunc(need),hi.sextOrTrunc(need),e,absErr,relk}; }
  else if(n->fx->e!=e||n->fx->absErr!=absErr) unsupported("fx alias");
  return n;
}
static bool fxExact(Node*n){ return n->fx->absErr==0; }
// view as FX (constants are converted); nullptr if impossible
static Node* asFX(Node*n){
  if(n->op==FX) return n;
  if(n->isConst()&&(n->w==32||n->w==64||n->w==16)){
    APFloat f=toF(n->c,n->w); if(!f.isFinite()) return nullptr;
    if(f.isZero()) return mkFXraw(n->w,mkC(1,0),0,APInt(1,0),APInt(1,0),0,0);
    int ex=ilogb(f); int p=precOf(n->w);
    APFloat s=scalbn(f,p-1-ex,APFloat::rmNearestTiesToEven); if(ex<-1000) return nullptr;
    APSInt iv(80,false); bool exact; s.convertToInteger(iv,APFloat::rmTowardZero,&exact); if(!exact) return nullptr;
    APInt m=iv; int e=ex-p+1; unsigned tz=m.countr_zero(); m.ashrInPlace(tz); e+=tz;
    return mkFXraw(n->w,mkC(m),e,m,m,0,0);
  }
  return nullptr;
}
static double ap2d(const APInt&a){ return a.signedRoundToDouble(); }
static double fxMag(const FXInfo*f){ double a=std::fabs(ap2d(f->lo)),b=std::fabs(ap2d(f->hi)); return std::ldexp(std::max(a,b),f->e)*(1+1e-15)+f->absErr; }
static Node* havoc(unsigned w,const char*why){ gHavocs++; return mkSym(std::string("havoc_")+why,w,true); }
// proving facts about a mantissa valid for every value of the symbols (path-independent); set by symx.cpp
static bool (*gFxProve)(Node*)=nullptr; static std::vector<std::vector<APInt>> (*gFxSample)(Node*)=nullptr;
struct FxFact { bool range=false,exact=false; APInt lo,hi; };
static void fxTighten(Node*m,APInt&lo,APInt&hi); static bool fxProvedExact(Node*m,Node*r);

// ---- polynomial normal form of exact dyadic values (only with --fxround): every exactly known value is a polynomial over atoms
// (mantissas of inputs, rounding errors, opaque values).  Values with equal polynomials share one representative, so that the tails of
// error-free transformations collapse to the rounding error they compute, and equal determinants written differently become one term.
static const unsigned PW=768; static const size_t PMAX=80,PKEEP=6;
typedef std::vector<uint32_t> Mono;
struct Poly { bool ok=false; int e=0; std::vector<std::pair<Mono,APInt>> t; };
struct PRep { Node*m; int e; int pe; bool neg; int repr; APInt lo,hi; }; // repr: smallest precision at which the value is known to be representable
static std::unordered_map<Node*,Poly> gPoly; static std::map<uint32_t,Poly> gPDef; static std::unordered_map<std::string,PRep> gPRep; static uint64_t gPolyHits=0;
static void pnorm(Poly&p){ if(!p.ok) return; if(p.t.empty()){ p.e=0; return; } unsigned z=PW; for(auto&x:p.t) z=std::min(z,(unsigned)x.second.countr_zero()); if(z){ for(auto&x:p.t) x.second.ashrInPlace(z); p.e+=z; } for(auto&x:p.t) if(x.second.getSignificantBits()>PW-64){ p.ok=false; return; } }
static Poly pconst(const APInt&c,int e){ Poly p; p.ok=true; p.e=e; if(c!=0) p.t.push_back({Mono(),c.sextOrTrunc(PW)}); pnorm(p); return p; }
static Poly patom(uint32_t id,int e){ Poly p; p.ok=true; p.e=e; p.t.push_back({Mono{id},APInt(PW,1)}); return p; }
static bool pal(const Poly&a,const Poly&b,int&e,int&sa,int&sb){ if(a.t.empty()) e=b.e; else if(b.t.empty()) e=a.e; else e=std::min(a.e,b.e); sa=a.t.empty()?0:a.e-e; sb=b.t.empty()?0:b.e-e; auto fit=[](const Poly&p,int s){ if(s>600) return false; for(auto&x:p.t) if(x.second.getSignificantBits()+s>PW-32) return false; return true; }; return fit(a,sa)&&fit(b,sb); }
static Poly padd(const Poly&a,const Poly&b,bool sub){ Poly r; if(!a.ok||!b.ok) return r; int e,sa,sb; if(!pal(a,b,e,sa,sb)) return r; r.ok=true; r.e=e; size_t i=0,j=0;
  while(i<a.t.size()||j<b.t.size()){ if(j>=b.t.size()||(i<a.t.size()&&a.t[i].first<b.t[j].first)){ r.t.push_back({a.t[i].first,a.t[i].second.shl(sa)}); i++; } else if(i>=a.t.size()||b.t[j].first<a.t[i].first){ APInt c=b.t[j].second.shl(sb); r.t.push_back({b.t[j].first,sub?-c:c}); j++; } else { APInt x=a.t[i].second.shl(sa),y=b.t[j].second.shl(sb); APInt c=sub?x-y:x+y; if(c!=0) r.t.push_back({a.t[i].first,c}); i++; j++; } }
  if(r.t.size()>PMAX*4) r.ok=false; pnorm(r); return r; }
static Poly pmul(const Poly&a,const Poly&b){ Poly r; if(!a.ok||!b.ok) return r; if(a.t.size()*b.t.size()>PMAX*3) return r; for(auto&x:a.t) for(auto&y:b.t) if(x.second.getSignificantBits()+y.second.getSignificantBits()>PW-64) return r;
  std::map<Mono,APInt> m; for(auto&x:a.t) for(auto&y:b.t){ Mono k=x.first; k.insert(k.end(),y.first.begin(),y.first.end()); std::sort(k.begin(),k.end()); auto it=m.emplace(k,APInt(PW,0)).first; it->second+=x.second*y.second; }
  r.ok=true; r.e=a.e+b.e; for(auto&x:m) if(x.second!=0) r.t.push_back(x); if(r.t.size()>PMAX*4) r.ok=false; pnorm(r); return r; }
static Poly pscale(const Poly&a,const APInt&c,int e){ Poly r=a; if(!r.ok) return r; for(auto&x:r.t){ if(x.second.getSignificantBits()+c.getSignificantBits()>PW-64){ r.ok=false; return r; } x.second*=c; } r.e+=e; pnorm(r); return r; }
static Poly pneg(const Poly&a){ Poly r=a; for(auto&x:r.t) x.second=-x.second; return r; }
// replace opaque rounded values by their definition (exact operation minus rounding error) where that makes the polynomial shorter
static void preduce(Poly&p){ if(!p.ok) return; bool ch=true; int guard=0; while(ch&&guard++<20){ ch=false; for(size_t i=0;i<p.t.size();i++) if(p.t[i].first.size()==1){ auto it=gPDef.find(p.t[i].first[0]); if(it==gPDef.end()) continue; Poly d=padd(it->second,patom(it->first,0),true); d=pscale(d,p.t[i].second,p.e); Poly q=padd(p,d,false); if(q.ok&&q.t.size()<p.t.size()){ p=q; ch=true; break; } } } }
static std::string pkey(const Poly&p,int prec,bool&neg){ neg=!p.t.empty()&&p.t[0].second.isNegative(); std::string k; for(auto&x:p.t){ APInt c=neg?-x.second:x.second; k.push_back((char)x.first.size()); k.append((const char*)x.first.data(),x.first.size()*4); unsigned nb=(c.getSignificantBits()+63)/64; k.push_back((char)nb); k.append((const char*)c.getRawData(),nb*8); } return k; }
static PRep* plookup(const Poly&p,int prec,bool&neg){ auto k=pkey(p,prec,neg); auto it=gPRep.find(k); return it==gPRep.end()?nullptr:&it->second; }
static void pregister(const Poly&p,int prec,Node*m,int e,const APInt&lo,const APInt&hi,bool repr){ if(!p.ok) return; bool neg; auto k=pkey(p,prec,neg); auto it=gPRep.find(k); if(it!=gPRep.end()){ if(repr&&prec<it->second.repr&&it->second.m==m) it->second.repr=prec; return; } gPRep.emplace(k,PRep{m,e,p.e,neg,repr?prec:9999,lo,hi}); }
static Poly polyOf(Node*n){ auto it=gPoly.find(n); if(it!=gPoly.end()) return it->second; Poly p; Node*m=n->k[0]; if(m->isConst()) p=pconst(m->c,n->fx->e); else { p=patom(m->id,n->fx->e); pregister(p,precOf(n->w),m,n->fx->e,n->fx->lo,n->fx->hi,true); } gPoly[n]=p; return p; }
// finish: exact real result m*2^e from exact operation on (possibly inexact) operands; inputs carry err
static Node* fxFinish(unsigned w,Node*m,int e,APInt lo,APInt hi,double inAbs,int inRel,Poly*P=nullptr){
  bool haveP=P&&P->ok&&gFxRound&&inAbs==0; int p=precOf(w); bool repr=false;
  auto done=[&](Node*r){ if(haveP&&r->op==FX) gPoly.emplace(r,*P); return r; };
  if(haveP){ if(P->t.empty()) return mkFXraw(w,mkC(1,0),0,APInt(1,0),APInt(1,0),0,0);
    if(P->t.size()==1&&P->t[0].first.empty()){ APInt c=P->t[0].second; m=mkC(c.trunc(c.getSignificantBits())); e=P->e; lo=hi=m->c; haveP=false; }
    else { bool neg; if(PRep*R=plookup(*P,p,neg)){ gPolyHits++; m=R->m; e=R->e+P->e-R->pe; lo=R->lo.sextOrTrunc(m->w); hi=R->hi.sextOrTrunc(m->w); repr=R->repr<=p; if(neg!=R->neg){ unsigned W=m->w+1; m=mkBin(SUB,mkC(W,0),mkSExt(m,W)); APInt l=-hi.sext(W); hi=-lo.sext(W); lo=l; } if(repr&&e>=eminOf(w)+64) return done(mkFXraw(w,m,e,lo,hi,0,0)); } } }
  if(gFxRound&&inAbs==0&&!m->isConst()) fxTighten(m,lo,hi);
  unsigned bits=std::max(lo.abs().getActiveBits(),hi.abs().getActiveBits());
  unsigned tz=0; if(lo==hi&&lo!=0) tz=lo.countr_zero(); else if(!m->isConst()) tz=ktz(m);
  FXInfo tmp{lo,hi,e,inAbs,0};
  double mag=fxMag(&tmp);
  bool exactFit=((int)bits-(int)tz<=p)&&(e+(int)tz>=eminOf(w));
  if(mag>std::ldexp(1.0,emaxOf(w))) return nullptr;
  if(exactFit&&haveP) pregister(*P,p,m,e,lo,hi,true);
  if(gFxRound&&inAbs==0&&!exactFit){ // round to nearest even, exactly, in integer arithmetic
    unsigned need=std::max(lo.getSignificantBits(),hi.getSignificantBits()); unsigned W=std::max<unsigned>(need+1,m->w); Node*m0=m; m=mkSExt(m,W); lo=lo.sextOrTrunc(W); hi=hi.sextOrTrunc(W);
    int minb=lo.isStrictlyPositive()?lo.getActiveBits():hi.isNegative()?(-hi).getActiveBits():0; int sh0=std::max(0,eminOf(w)-e);
    int shLo=std::max(sh0,minb-p),shHi=std::max(sh0,(int)bits-p);
    auto rc=[&](const APInt&x){ int sh=std::max(sh0,(int)x.abs().getActiveBits()-p); if(sh<=0) return x; if(sh>=(int)W) return APInt(W,0); APInt y=x+APInt::getLowBitsSet(W,sh-1)+APInt(W,x[sh]?1:0); return y.ashr(sh).shl(sh); };
    if(shHi+1<(int)W){
      Node*t=mkBin(XOR,m,mkSExt(mkExtract(m,W-1,1),W)); unsigned LW=shHi+2; Node*ml=mkExtract(m,0,std::min(LW,W)); LW=ml->w; Node*inc=nullptr,*mask=nullptr; // mask: low bits to clear
      for(int sh=shHi;sh>=shLo;sh--){ Node*i,*k; if(sh==0){ i=mkC(LW,0); k=mkC(LW,0); } else { i=mkBin(ADD,mkC(APInt::getLowBitsSet(LW,sh-1)),mkZExt(mkExtract(m,sh,1),LW)); k=mkC(APInt::getLowBitsSet(LW,sh)); }
        if(!inc){ inc=i; mask=k; } else { Node*c=mkCmp(EQ,mkExtract(t,p+sh,W-p-sh),mkC(W-p-sh,0)); inc=mkITE(c,i,inc); mask=mkITE(c,k,mask); } }
      Node*err=mkBin(SUB,mkBin(AND,mkBin(ADD,ml,inc),mask),inc); // m - rounded
      Node*r=mkBin(SUB,m,mkSExt(err,W)); APInt eh=APInt::getOneBitSet(LW,std::max(shHi-1,0)); APInt el=-eh;
      if(fxProvedExact(m0,err)) { if(haveP) pregister(*P,p,m0,e,lo,hi,true); return done(mkFXraw(w,m0,e,lo,hi,0,0)); }
      APInt l2=rc(lo),h2=rc(hi); int z=shLo;
      if(z) { r=mkBin(ASHR,r,mkC(W,z)); l2=l2.ashr(z); h2=h2.ashr(z); }
      Node*f=mkFXraw(w,r,e+z,l2,h2,0,0);
      if(haveP&&!gPoly.count(f)&&!f->k[0]->isConst()){ pregister(*P,p,m0,e,lo,hi,false); Node*E=mkFXraw(w,err,e,el,eh,0,0); Poly pe=patom(E->k[0]->id,e); bool er=e>=eminOf(w)+64; if(er) gPoly.emplace(E,pe); pregister(pe,p,E->k[0],e,el,eh,er);
        Poly d=padd(*P,pe,true); if(d.ok&&d.t.size()<=PKEEP) { gPoly[f]=d; pregister(d,p,f->k[0],f->fx->e,f->fx->lo,f->fx->hi,true); } else { polyOf(f); if(d.ok) gPDef[f->k[0]->id]=pscale(d,APInt(PW,1),-f->fx->e); } }
      return f; } }
  double ae=inAbs; int rk=inRel;
  if(!(exactFit&&inAbs==0)){ ae=inAbs+std::ldexp(mag,-p)+ (e<eminOf(w)?std::ldexp(1.0,eminOf(w)):0); ae*=1+1e-12; if(rk>=0){ rk++; if(e<eminOf(w)) rk=-1;} if(rk>60) rk=-1; }
  else rk=0;
  Node*f=mkFXraw(w,m,e,lo,hi,ae,rk); if(exactFit&&inAbs==0) done(f); return f;
}
static const unsigned FXMAXW=900;
static void fxAlign(Node*a,Node*b,Node*&ma,Node*&mb,APInt&alo,APInt&ahi,APInt&blo,APInt&bhi,int&e,unsigned extra){
  e=std::min(a->fx->e,b->fx->e);
  // zero constants carry no exponent constraint
  if(a->k[0]->isConst()&&a->k[0]->c==0) e=b->fx->e; else if(b->k[0]->isConst()&&b->k[0]->c==0) e=a->fx->e;
  unsigned sa=std::max(0,a->fx->e-e), sb=std::max(0,b->fx->e-e);
  unsigned W=std::max(a->k[0]->w+sa,b->k[0]->w+sb)+extra;
  if(W>FXMAXW) unsupported("fx width");
  auto up=[&](Node*n,unsigned s,Node*&m,APInt&lo,APInt&hi){ m=mkSExt(n->k[0],W); if(s) m=mkBin(SHL,m,mkC(W,s)); lo=n->fx->lo.sext(W).shl(s); hi=n->fx->hi.sext(W).shl(s); };
  up(a,sa,ma,alo,ahi); up(b,sb,mb,blo,bhi);
}
static Node* fxAddSub(Node*a,Node*b,bool sub){
  Node*ma,*mb; APInt al,ah,bl,bh; int e; 
  if(std::abs(a->fx->e-b->fx->e)>700) return nullptr;
  fxAlign(a,b,ma,mb,al,ah,bl,bh,e,1);
  Node*m=mkBin(sub?SUB:ADD,ma,mb); APInt lo=sub?al-bh:al+bl, hi=sub?ah-bl:ah+bh;
  int rk; bool ea=fxExact(a),eb=fxExact(b);
  if(ea&&eb) rk=0; else { bool sameSign = (al.isNonNegative()&&(sub?!bh.isStrictlyPositive():bl.isNonNegative()))||(!ah.isStrictlyPositive()&&(sub?bl.isNonNegative():!bh.isStrictlyPositive())); rk=(sameSign&&a->fx->relk>=0&&b->fx->relk>=0)?std::max(a->fx->relk,b->fx->relk):-1; }
  if(gFxRound&&ea&&eb){ Poly P=padd(polyOf(a),polyOf(b),sub); preduce(P); return fxFinish(a->w,m,e,lo,hi,0,rk,&P); }
  return fxFinish(a->w,m,e,lo,hi,a->fx->absErr+b->fx->absErr,rk);
}
static Node* fxMul(Node*a,Node*b){
  unsigned W=a->k[0]->w+b->k[0]->w; if(W>FXMAXW) return nullptr;
  APInt al=a->fx->lo.sext(W),ah=a->fx->hi.sext(W),bl=b->fx->lo.sext(W),bh=b->fx->hi.sext(W);
  APInt c[4]={al*bl,al*bh,ah*bl,ah*bh}; APInt lo=c[0],hi=c[0]; for(auto&x:c){ if(x.slt(lo)) lo=x; if(x.sgt(hi)) hi=x; }
  if(a==b&&lo.isNegative()) lo=APInt(W,0);
  Node*m=mkBin(MUL,mkSExt(a->k[0],W),mkSExt(b->k[0],W));
  double A=fxMag(a->fx),B=fxMag(b->fx); double err=a->fx->absErr*B+b->fx->absErr*A; 
  int rk=(a->fx->relk<0||b->fx->relk<0)?-1:a->fx->relk+b->fx->relk;
  if(gFxRound&&fxExact(a)&&fxExact(b)){ Poly pa=polyOf(a),pb=polyOf(b); Poly P=pmul(pa,pb); if(!P.ok){ auto at=[](Node*n){ return n->k[0]->isConst()?pconst(n->k[0]->c,n->fx->e):patom(n->k[0]->id,n->fx->e); }; P=pmul(at(a),at(b)); } 
    else if(P.t.size()<=8&&P.t.size()>1&&P.e==a->fx->e+b->fx->e&&(pa.t.size()>1||pb.t.size()>1)&&P.t[0].first.empty()){ Node*s=nullptr; for(auto&x:P.t){ Node*q=x.second.isOne()&&!x.first.empty()?nullptr:mkC(x.second.sextOrTrunc(W)); for(uint32_t id:x.first){ Node*y=mkSExt(gNodes[id],std::max<unsigned>(W,gNodes[id]->w)); if(y->w>W){ s=nullptr; goto no_; } q=q?mkBin(MUL,q,y):y; } s=s?mkBin(ADD,s,q):q; } m=s; no_:; if(!s) m=mkBin(MUL,mkSExt(a->k[0],W),mkSExt(b->k[0],W)); }
    return fxFinish(a->w,m,a->fx->e+b->fx->e,lo,hi,0,rk,&P); }
  return fxFinish(a->w,m,a->fx->e+b->fx->e,lo,hi,err*(1+1e-12),rk);
}
static Node* fxNeg(Node*a){ unsigned W=a->k[0]->w+1; Node*r=mkFXraw(a->w,mkBin(SUB,mkC(W,0),mkSExt(a->k[0],W)),a->fx->e,-a->fx->hi.sext(W),-a->fx->lo.sext(W),a->fx->absErr,a->fx->relk); if(gFxRound&&fxExact(a)&&r->op==FX&&!gPoly.count(r)) gPoly[r]=pneg(polyOf(a)); return r; }
static Node* fxSignNeg(Node*a){ return mkCmp(SLT,a->k[0],mkC(a->k[0]->w,0)); }
static Node* fxAbs(Node*a){ if(a->fx->lo.isNonNegative()) return a; if(!a->fx->hi.isStrictlyPositive()) return fxNeg(a);
  unsigned W=a->k[0]->w+1; Node*m=mkSExt(a->k[0],W); APInt lo=a->fx->lo.sext(W),hi=a->fx->hi.sext(W); APInt mx=(-lo).sgt(hi)?-lo:hi;
  return mkFXraw(a->w,mkITE(fxSignNeg(a),mkBin(SUB,mkC(W,0),m),m),a->fx->e,APInt(W,0),mx,a->fx->absErr,a->fx->relk); }
static Node* fxIte(Node*c,Node*a,Node*b){
  Node*fa=asFX(a),*fb=asFX(b); if(!fa||!fb||fa->w!=fb->w) return nullptr;
  if(std::abs(fa->fx->e-fb->fx->e)>700) return nullptr;
  Node*ma,*mb; APInt al,ah,bl,bh; int e; fxAlign(fa,fb,ma,mb,al,ah,bl,bh,e,0);
  int rk=(fa->fx->relk<0||fb->fx->relk<0)?-1:std::max(fa->fx->relk,fb->fx->relk);
  return mkFXraw(fa->w,mkITE(c,ma,mb),e,al.slt(bl)?al:bl,ah.sgt(bh)?ah:bh,std::max(fa->fx->absErr,fb->fx->absErr),rk);
}
// comparison with error band. which: 0 lt, 1 le, 2 eq
static std::map<std::tuple<int,Node*,Node*>,Node*> gBandMemo;
static Node* fxCmp(int which,Node*a,Node*b){
  { auto iv=[](Node*n,double&l,double&h){ double L=std::ldexp(ap2d(n->fx->lo),n->fx->e),H=std::ldexp(ap2d(n->fx->hi),n->fx->e); double sl=(std::fabs(L)>std::fabs(H)?std::fabs(L):std::fabs(H))*1e-14+n->fx->absErr*(1+1e-12); l=L-sl; h=H+sl; return !std::isnan(l)&&!std::isnan(h); };
    double al,ah,bl,bh; if(a->fx->e>-900&&b->fx->e>-900&&a!=b&&iv(a,al,ah)&&iv(b,bl,bh)){ if(ah<bl) return which==2?mkFalse():mkTrue(); if(bh<al) return mkFalse(); } }
  Node*ma,*mb; APInt al,ah,bl,bh; int e; fxAlign(a,b,ma,mb,al,ah,bl,bh,e,2);
  unsigned W=ma->w;
  auto exactCmp=[&](){ if(which==0) return ah.slt(bl)?mkTrue():al.sge(bh)?mkFalse():mkCmp(SLT,ma,mb); if(which==1) return ah.sle(bl)?mkTrue():al.sgt(bh)?mkFalse():mkCmp(SLE,ma,mb); return (ah.slt(bl)||al.sgt(bh))?mkFalse():mkCmp(EQ,ma,mb); };
  if(gFxRound&&fxExact(a)&&fxExact(b)){ Node*q=exactCmp(); if(q->isConst()) return q; Poly D=padd(polyOf(b),polyOf(a),true); preduce(D);
    if(D.ok){ Node*m; APInt lo(1,0),hi(1,0); bool flip=false; 
      if(D.t.empty()) return which==0?mkFalse():mkTrue();
      if(D.t.size()==1&&D.t[0].first.empty()) return which==2?mkFalse():D.t[0].second.isNegative()?mkFalse():mkTrue();
      bool neg; if(PRep*R=plookup(D,0,neg)){ gPolyHits++; m=R->m; lo=R->lo; hi=R->hi; flip=neg!=R->neg; } else { m=mkBin(SUB,mb,ma); lo=bl-ah; hi=bh-al; pregister(D,0,m,e,lo,hi,false); }
      Node*z=mkC(m->w,0); if(which==2) return mkCmp(EQ,m,z); if(which==0) return flip?mkCmp(SLT,m,z):mkCmp(SLT,z,m); return flip?mkCmp(SLE,m,z):mkCmp(SLE,z,m); }
    return q; }
  if(fxExact(a)&&fxExact(b)) return exactCmp();
  if(a==b) return which==0?mkFalse():mkTrue();
  // certain iff |D| > slack. slackAbs = (Ea+Eb)/2^e rounded up (constant)
  Node*D=mkBin(SUB,mb,ma);
  double sl=std::ldexp(a->fx->absErr+b->fx->absErr,-e); 
  Node*certain=mkFalse();
  Node*absD=mkITE(mkCmp(SLT,D,mkC(W,0)),mkBin(SUB,mkC(W,0),D),D);
  if(sl<std::ldexp(1.0,(int)std::min(W-2,1000u))){ APInt s(W,0); int ex; double fr=std::frexp(sl,&ex); if(ex<=60) s=APInt(W,(uint64_t)std::ceil(sl)); else { s=APInt(W,(uint64_t)std::ceil(std::ldexp(fr,60))).shl(ex-60);} 
    certain=mkCmp(ULT,mkC(s),absD); }
  if(a->fx->relk>=0&&b->fx->relk>=0){ int p=precOf(a->w); unsigned K=a->fx->relk+b->fx->relk+1; unsigned W2=W+p+8; if(W2<FXMAXW*2){
    auto ab=[&](Node*x){ Node*y=mkSExt(x,W2); return mkITE(mkCmp(SLT,y,mkC(W2,0)),mkBin(SUB,mkC(W2,0),y),y); };
    Node*S=mkBin(ADD,ab(ma),ab(mb)); Node*l=mkBin(SHL,mkZExt(absD,W2),mkC(W2,p-1)); Node*r=mkBin(MUL,S,mkC(W2,K)); 
    certain=mkOr(certain,mkCmp(ULT,r,l)); } }
  // both exactly zero => equal (products/sums of relative error type)
  Node*bothZero=mkFalse(); if(a->fx->relk>=0&&b->fx->relk>=0) bothZero=mkAnd(mkCmp(EQ,ma,mkC(W,0)),mkCmp(EQ,mb,mkC(W,0)));
  auto key=std::make_tuple(which,a,b); auto&fresh=gBandMemo[key]; if(!fresh){ gFxBands++; fresh=mkSym("band",1,true); }
  return mkITE(mkOr(certain,bothZero),exactCmp(),fresh);
}
static Node* powTwoConst(unsigned w,int e){ APFloat f(sem(w),1); f=scalbn(f,e,APFloat::rmNearestTiesToEven); return mkC(f.bitcastToAPInt()); }
static Node* mkSIToF(Node*a,unsigned w); 
static inline Node* fxToPlain(Node*n){
  if(n->op==FX){
    if(!fxExact(n)) return havoc(n->w,"inexact_bits");
    if(n->k[0]->isConst()){ APFloat f(sem(n->w),0); f.convertFromAPInt(n->k[0]->c,true,APFloat::rmNearestTiesToEven); f=scalbn(f,n->fx->e,APFloat::rmNearestTiesToEven); return mkC(f.bitcastToAPInt()); }
    if(n->w<64&&((int)n->k[0]->w>emaxOf(n->w)-1||n->fx->e<eminOf(n->w))){ // convert through double: the integer mantissa may not fit the narrow format
      Node*r=raw(SITOF,64,n->k[0]); r=raw(FMUL,64,r,powTwoConst(64,n->fx->e)); return raw(FCAST,n->w,r); }
    Node*r=raw(SITOF,n->w,n->k[0]);
    if(n->fx->e!=0){ // exact scaling; may need two steps for extreme exponents
      r=raw(FMUL,n->w,r,powTwoConst(n->w,n->fx->e)); }
    return r;
  }
  return havoc(n->w,"bits");
}
static Node* fpLit(unsigned w,double d){ APFloat f(d); bool li; f.convert(sem(w),APFloat::rmNearestTiesToEven,&li); return mkC(f.bitcastToAPInt()); }

static Node* mkFBin(Op op,Node*a,Node*b){
  unsigned w=a->w;
  if(a->isConst()&&b->isConst()){ APFloat x=toF(a->c,w),y=toF(b->c,w); auto rm=APFloat::rmNearestTiesToEven;
    switch(op){case FADD:x.add(y,rm);break;case FSUB:x.subtract(y,rm);break;case FMUL:x.multiply(y,rm);break;case FDIV:x.divide(y,rm);break;case FREM:x.mod(y);break;default:break;} return mkC(x.bitcastToAPInt()); }
  bool fxy=a->op==FX||b->op==FX;
  if(fxy){ Node*fa=asFX(a),*fb=asFX(b);
    if(fa&&fb){ Node*r=nullptr;
      if(op==FADD) r=fxAddSub(fa,fb,false); else if(op==FSUB) r=fxAddSub(fa,fb,true); else if(op==FMUL) r=fxMul(fa,fb);
      else if(op==FDIV&&fb->k[0]->isConst()&&fb->k[0]->c!=0){ APInt m=fb->k[0]->c; if(m.abs().isPowerOf2()){ unsigned s=m.abs().logBase2(); Node*x=mkFXraw(w,fa->k[0],fa->fx->e-(int)s-fb->fx->e,fa->fx->lo,fa->fx->hi,std::ldexp(fa->fx->absErr,-(int)s-fb->fx->e),fa->fx->relk); r=m.isNegative()?fxNeg(x):x; } }
      if(r) return r;
      if(!fxExact(fa)||!fxExact(fb)) return havoc(w,"fxop");
    } }
  a=plain(a); b=plain(b);
  if((op==FADD||op==FMUL)&&a->id>b->id) std::swap(a,b);
  return raw(op,w,a,b);
}
static Node* mkFNeg(Node*a){ if(a->op==FX) return fxNeg(a); a=plain(a); return mkBin(XOR,a,mkC(APInt::getSignMask(a->w))); }
static Node* mkFAbs(Node*a){ if(a->op==FX) return fxAbs(a); a=plain(a); return mkBin(AND,a,mkC(~APInt::getSignMask(a->w))); }
static Node* mkFSqrt(Node*a){ 
  if(a->isConst()){ if(a->w==64){ double d=std::sqrt(toF(a->c,64).convertToDouble()); return mkC(APFloat(d).bitcastToAPInt()); } if(a->w==32){ float d=std::sqrt(toF(a->c,32).convertToFloat()); return mkC(APFloat(d).bitcastToAPInt()); } }
  if(a->op==FX&&!fxExact(a)) return havoc(a->w,"sqrt");
  a=plain(a); return raw(FSQRT,a->w,a); }
static std::unordered_map<Node*,FxFact> gFxFacts; static std::unordered_map<Node*,bool> gFxEx;
static const std::vector<APInt>& fxSamples(Node*m){ static std::unordered_map<Node*,std::vector<APInt>> memo; auto it=memo.find(m); if(it!=memo.end()) return it->second; auto v=gFxSample(m); return memo.emplace(m,v[0]).first->second; }
static void fxTighten(Node*m,APInt&lo,APInt&hi){
  if(!gFxProve||m->op==SEXT||m->op==SYM) return;
  auto it=gFxFacts.find(m);
  if(it==gFxFacts.end()){ FxFact f; unsigned W=m->w; unsigned b=std::max(lo.getSignificantBits(),hi.getSignificantBits()),ob=1; bool neg=false,pos=false; for(auto&x:fxSamples(m)){ ob=std::max(ob,x.getSignificantBits()); neg|=x.isNegative(); pos|=x.isStrictlyPositive(); }
    for(unsigned t=ob;t<ob+3&&t+1<b&&!f.range;t++){ // -2^(t-1) <= m <= 2^(t-1)
      if(t+1>=W) break; APInt B=APInt::getOneBitSet(W,t-1); Node*c=mkAnd(mkCmp(SLE,mkC(-B),m),mkCmp(SLE,m,mkC(B))); if(gFxProve(c)){ f.range=true; f.lo=-B; f.hi=B; } }
    APInt L=f.range?f.lo:lo.sextOrTrunc(W); APInt H=f.range?f.hi:hi.sextOrTrunc(W);
    if(!neg&&L.isNegative()&&lo.getSignificantBits()<=W&&gFxProve(mkCmp(SLE,mkC(W,0),m))){ if(!f.range) { f.range=hi.getSignificantBits()<=W; f.hi=H; } f.lo=APInt(W,0); }
    else if(!pos&&H.isStrictlyPositive()&&hi.getSignificantBits()<=W&&gFxProve(mkCmp(SLE,m,mkC(W,0)))){ if(!f.range){ f.range=lo.getSignificantBits()<=W; f.lo=L; } f.hi=APInt(W,0); }
    it=gFxFacts.emplace(m,f).first; }
  FxFact&f=it->second; if(f.range){ unsigned W=std::max(lo.getBitWidth(),f.lo.getBitWidth()); APInt l=lo.sext(W),h=hi.sext(W),fl=f.lo.sext(W),fh=f.hi.sext(W); lo=fl.sgt(l)?fl:l; hi=fh.slt(h)?fh:h; lo=lo.trunc(m->w); hi=hi.trunc(m->w); }
}
static bool fxProvedExact(Node*m,Node*err){ if(!gFxProve) return false; auto it=gFxEx.find(m); if(it!=gFxEx.end()) return it->second;
  bool ok=true; for(auto&x:fxSamples(err)) if(x!=0) ok=false;
  if(ok) ok=gFxProve(mkCmp(EQ,err,mkC(err->w,0))); return gFxEx[m]=ok; }
// mode: 0 floor 1 ceil 2 trunc 3 rne(rint) 4 round (away)
static Node* mkFRound(Node*a,int mode){
  static const APFloat::roundingMode M[5]={APFloat::rmTowardNegative,APFloat::rmTowardPositive,APFloat::rmTowardZero,APFloat::rmNearestTiesToEven,APFloat::rmNearestTiesToAway};
  if(a->isConst()){ APFloat f=toF(a->c,a->w); f.roundToIntegral(M[mode]); return mkC(f.bitcastToAPInt()); }
  if(a->op==FX){ if(!fxExact(a)) return havoc(a->w,"round"); if(a->fx->e>=0) return a; int s=-a->fx->e; unsigned W=std::max<unsigned>(a->k[0]->w,s+1)+2; Node*m=mkSExt(a->k[0],W); APInt lo=a->fx->lo.sext(W),hi=a->fx->hi.sext(W);
    Node*fl=mkBin(ASHR,m,mkC(W,s)); APInt l2=lo.ashr(s),h2=hi.ashr(s);
    Node*frac=mkBin(AND,m,mkC(APInt::getLowBitsSet(W,s))); Node*one=mkC(W,1); Node*r;
    APInt half=APInt::getOneBitSet(W,s-1); Node*nz=mkNot(mkCmp(EQ,frac,mkC(W,0)));
    switch(mode){ case 0:r=fl;break; case 1:r=mkBin(ADD,fl,mkZExt(nz,W)); h2=h2+1; break; case 2:r=mkBin(ADD,fl,mkZExt(mkAnd(nz,mkCmp(SLT,m,mkC(W,0))),W)); if(h2.isNegative()) h2=h2+1; break;
      case 3:{ Node*up=mkOr(mkCmp(ULT,mkC(half),frac),mkAnd(mkCmp(EQ,frac,mkC(half)),mkExtract(fl,0,1))); r=mkBin(ADD,fl,mkZExt(up,W)); h2=h2+1; break; }
      default:{ Node*up=mkOr(mkCmp(ULT,mkC(half),frac),mkAnd(mkCmp(EQ,frac,mkC(half)),mkCmp(SLE,mkC(W,0),m))); r=mkBin(ADD,fl,mkZExt(up,W)); h2=h2+1; break; } }
    (void)one; return mkFXraw(a->w,r,0,l2,h2,0,0); }
  return raw(FROUND,a->w,plain(a),nullptr,nullptr,mode);
}
static Node* mkFCmpBase(Op op,Node*a,Node*b){ // FEQ FLT FLE FUNO
  unsigned w=a->w;
  if(a->isConst()&&b->isConst()){ auto r=toF(a->c,w).compare(toF(b->c,w)); bool v=false; switch(op){case FEQ:v=r==APFloat::cmpEqual;break;case FLT:v=r==APFloat::cmpLessThan;break;case FLE:v=r==APFloat::cmpLessThan||r==APFloat::cmpEqual;break;default:v=r==APFloat::cmpUnordered;} return v?mkTrue():mkFalse(); }
  if(a->op==FX||b->op==FX){
    Node*fa=asFX(a),*fb=asFX(b);
    if(fa&&fb){ switch(op){case FEQ:return fxCmp(2,fa,fb);case FLT:return fxCmp(0,fa,fb);case FLE:return fxCmp(1,fa,fb);default:return mkFalse();} }
    // FX against inf/nan constant
    Node*cn=a->isConst()?a:b->isConst()?b:nullptr; if(cn){ APFloat f=toF(cn->c,w); if(f.isNaN()) return op==FUNO?mkTrue():mkFalse(); if(f.isInfinity()){ if(op==FEQ||op==FUNO) return mkFalse(); bool aInf=a==cn; bool neg=f.isNegative(); return (aInf==neg)?mkTrue():mkFalse(); } }
  }
  a=plain(a); b=plain(b);
  if(op==FUNO&&a==b&&(a->op==SITOF||a->op==UITOF)) return mkFalse();
  return raw(op,1,a,b);
}
static Node* mkFToI(Node*a,unsigned w,bool sgn){
  if(a->isConst()){ APSInt r(w,!sgn); bool ex; toF(a->c,a->w).convertToInteger(r,APFloat::rmTowardZero,&ex); return mkC(APInt(r)); }
  if(a->op==FX){ if(!fxExact(a)) return havoc(w,"ftoi"); Node*t=mkFRound(a,2); if(t->op==FX){ unsigned s=t->fx->e>0?t->fx->e:0; if(s>200) unsupported("ftoi"); Node*m=t->k[0]; unsigned W=std::max<unsigned>(w,m->w+s); m=mkSExt(m,W); if(s) m=mkBin(SHL,m,mkC(W,s)); return mkExtract(m,0,w);} }
  return raw(sgn?FTOSI:FTOUI,w,plain(a));
}
static Node* mkIToF(Node*a,unsigned w,bool sgn){
  a=plain(a);
  if(a->isConst()){ APFloat f(sem(w),0); f.convertFromAPInt(a->c,sgn,APFloat::rmNearestTiesToEven); return mkC(f.bitcastToAPInt()); }
  if(gTabOn) return raw(sgn?SITOF:UITOF,w,a);
  // try exact FX: magnitude known small
  unsigned lz=klz(a); 
  if(lz>0||!sgn){ unsigned bits=a->w-lz; if((int)bits<=precOf(w)){ Node*m=mkZExt(mkExtract(a,0,bits),bits+1); return mkFXraw(w,m,0,APInt(bits+1,0),APInt::getLowBitsSet(bits+1,bits),0,0); } 
    return raw(sgn?SITOF:UITOF,w,a); }
  unsigned bits=a->w; Node*x=a; if(a->op==SEXT){ x=a->k[0]; bits=x->w; }
  if((int)bits-1<=precOf(w)) return mkFXraw(w,x,0,APInt::getSignedMinValue(bits),APInt::getSignedMaxValue(bits),0,0);
  return raw(SITOF,w,a);
}
static Node* mkFCast(Node*a,unsigned w){
  if(a->w==w) return a;
  if(a->isConst()){ APFloat f=toF(a->c,a->w); bool li; f.convert(sem(w),APFloat::rmNearestTiesToEven,&li); return mkC(f.bitcastToAPInt()); }
  if(a->op==FX){ if(w>a->w) return mkFXraw(w,a->k[0],a->fx->e,a->fx->lo,a->fx->hi,a->fx->absErr,a->fx->relk<0?-1:(a->fx->relk? -1:0)); 
    if(fxExact(a)){ Node*r=fxFinish(w,a->k[0],a->fx->e,a->fx->lo,a->fx->hi,0,0); if(r) return r; } else { Node*r=fxFinish(w,a->k[0],a->fx->e,a->fx->lo,a->fx->hi,a->fx->absErr,-1); if(r) return r; } }
  return raw(FCAST,w,plain(a));
}

// =================== evaluation ===================
typedef std::vector<APInt> ModelV; // indexed by sym id (missing -> 0)
static uint64_t gEpoch=1;
static const ModelV* gEvModel=nullptr;
static void setEvalModel(const ModelV*m){ gEvModel=m; gEpoch++; }
static APInt evalOp(Node*x,const APInt*const*vv){
    auto V=[&](int i)->const APInt&{ return *vv[i]; };
    APInt r(x->w,0);
    switch(x->op){
    case CONCAT: r=V(0).zext(x->w).shl(x->k[1]->w)|V(1).zext(x->w); break;
    case EXTRACT: r=V(0).extractBits(x->w,x->aux); break;
    case ZEXT: r=V(0).zext(x->w); break; case SEXT: r=V(0).sext(x->w); break;
    case ITE: r=V(0).getBoolValue()?V(1):V(2); break;
    case EQ: case ULT: case ULE: case SLT: case SLE: r=APInt(1,evalCmp(x->op,V(0),V(1))); break;
    case FADD: case FSUB: case FMUL: case FDIV: case FREM:{ APFloat a=toF(V(0),x->w),b=toF(V(1),x->w); auto rm=APFloat::rmNearestTiesToEven; switch(x->op){case FADD:a.add(b,rm);break;case FSUB:a.subtract(b,rm);break;case FMUL:a.multiply(b,rm);break;case FDIV:a.divide(b,rm);break;default:a.mod(b);} r=a.bitcastToAPInt(); break; }
    case FFMA:{ APFloat a=toF(V(0),x->w); a.fusedMultiplyAdd(toF(V(1),x->w),toF(V(2),x->w),APFloat::rmNearestTiesToEven); r=a.bitcastToAPInt(); break; }
    case FSQRT:{ if(x->w==64) r=APFloat(std::sqrt(toF(V(0),64).convertToDouble())).bitcastToAPInt(); else if(x->w==32) r=APFloat(std::sqrt(toF(V(0),32).convertToFloat())).bitcastToAPInt(); else { bool li; APFloat f=toF(V(0),x->w); f.convert(sem(64),APFloat::rmNearestTiesToEven,&li); APFloat g(std::sqrt(f.convertToDouble())); g.convert(sem(x->w),APFloat::rmNearestTiesToEven,&li); r=g.bitcastToAPInt(); } break; }
    case FROUND:{ static const APFloat::roundingMode M[5]={APFloat::rmTowardNegative,APFloat::rmTowardPositive,APFloat::rmTowardZero,APFloat::rmNearestTiesToEven,APFloat::rmNearestTiesToAway}; APFloat a=toF(V(0),x->w); a.roundToIntegral(M[x->aux]); r=a.bitcastToAPInt(); break; }
    case FROUNDP:{ double d=toF(V(0),64).convertToDouble(); if(d!=0&&std::isfinite(d)){ int e; double m=frexp(d,&e); d=ldexp(nearbyint(ldexp(m,x->aux)),e-x->aux); } r=APFloat(d).bitcastToAPInt(); break; }
    case FEQ: case FLT: case FLE: case FUNO:{ auto c=toF(V(0),x->k[0]->w).compare(toF(V(1),x->k[0]->w)); bool v=x->op==FEQ?c==APFloat::cmpEqual:x->op==FLT?c==APFloat::cmpLessThan:x->op==FLE?(c==APFloat::cmpLessThan||c==APFloat::cmpEqual):c==APFloat::cmpUnordered; r=APInt(1,v); break; }
    case FTOSI: case FTOUI:{ APSInt q(x->w,x->op==FTOUI); bool ex; toF(V(0),x->k[0]->w).convertToInteger(q,APFloat::rmTowardZero,&ex); r=q; break; }
    case SITOF: case UITOF:{ APFloat f(sem(x->w),0); f.convertFromAPInt(V(0),x->op==SITOF,APFloat::rmNearestTiesToEven); r=f.bitcastToAPInt(); break; }
    case FCAST:{ APFloat f=toF(V(0),x->k[0]->w); bool li; f.convert(sem(x->w),APFloat::rmNearestTiesToEven,&li); r=f.bitcastToAPInt(); break; }
    case FX:{ APFloat f(sem(x->w),0); f.convertFromAPInt(V(0),true,APFloat::rmNearestTiesToEven); f=scalbn(f,x->fx->e,APFloat::rmNearestTiesToEven); r=f.bitcastToAPInt(); break; }
    default: r=evalBin(x->op,V(0),V(1),x->w); }
    return r;
}
// decision tables: a term over few input bits is represented by its value for every assignment of those bits (canonical, hash-consed)
static unsigned symBits(const SymSet*s){ unsigned b=0; for(uint32_t x:*s){ if(gSyms[x].internal) return 1000; b+=gSyms[x].w; } return b; }
static const std::vector<uint32_t>& tabProj(const SymSet*c,const SymSet*u){ static std::map<std::pair<const SymSet*,const SymSet*>,std::vector<uint32_t>> M; auto&r=M[{c,u}]; if(!r.empty()) return r;
  unsigned B=symBits(u); r.resize(1u<<B); std::vector<std::array<unsigned,3>> mv; unsigned su=0,sc=0; for(uint32_t x:*u){ unsigned w=gSyms[x].w; if(std::binary_search(c->begin(),c->end(),x)){ mv.push_back({su,sc,w}); sc+=w; } su+=w; }
  for(uint32_t i=0;i<r.size();i++){ uint32_t o=0; for(auto&m:mv) o|=((i>>m[0])&((1u<<m[2])-1))<<m[1]; r[i]=o; } return r; }
static uint64_t gTabs=0;
static Node* tabulate(Node*n){ // n interned; returns its table node, a constant, or n itself when out of reach
  if(n->op==FX||n->op==FXSQRT||n->op==FXQ||n->op==TAB||n->op==SYM) return n;
  for(int i=0;i<n->nk;i++){ Op o=n->k[i]->op; if(o!=CONST&&o!=TAB&&o!=SYM) return n; }
  unsigned B=symBits(n->syms); if(B>gTabBits){ if(n->op==FROUNDP) unsupported("term too wide for a decision table"); return n; }
  auto*t=new std::vector<APInt>(); t->reserve(1u<<B); const std::vector<uint32_t>*pj[3]={0,0,0}; for(int i=0;i<n->nk;i++) if(n->k[i]->op!=CONST) pj[i]=&tabProj(n->k[i]->syms,n->syms);
  APInt tmp[3]={APInt(1,0),APInt(1,0),APInt(1,0)}; const APInt*vv[3]; bool same=true;
  for(uint32_t ix=0;ix<(1u<<B);ix++){ for(int i=0;i<n->nk;i++){ Node*k=n->k[i]; if(k->op==CONST) vv[i]=&k->c; else { uint32_t j=(*pj[i])[ix]; if(k->op==TAB) vv[i]=&(*k->tab)[j]; else { tmp[i]=APInt(k->w,j); vv[i]=&tmp[i]; } } }
    t->push_back(evalOp(n,vv)); if(ix&&t->back()!=t->front()) same=false; }
  if(same){ Node*r=mkC(t->front()); delete t; return r; }
  static std::unordered_multimap<size_t,Node*> H; size_t h=(size_t)n->syms*31+n->w; for(auto&v:*t) h=(h^(size_t)llvm::hash_value(v))*0x100000001B3ull;
  auto rg=H.equal_range(h); for(auto it=rg.first;it!=rg.second;++it){ Node*x=it->second; if(x->syms==n->syms&&x->w==n->w&&*x->tab==*t){ delete t; return x; } }
  Node*r=new Node; r->op=TAB; r->w=n->w; r->id=gNodes.size(); r->syms=n->syms; r->tab=t; gNodes.push_back(r); H.emplace(h,r); gTabs++; return r; }
static Node* tabTree(Node*n){ // as an if-then-else tree over the bits of its symbols
  if(n->tabc) return n->tabc; bool on=gTabOn; gTabOn=false; std::vector<Node*> bits; for(uint32_t x:*n->syms) for(unsigned i=0;i<gSyms[x].w;i++) bits.push_back(mkExtract(gSymNodes[x],i,1));
  std::vector<Node*> cur; for(auto&v:*n->tab) cur.push_back(mkC(v)); for(Node*b:bits){ std::vector<Node*> nx; for(size_t i=0;i<cur.size();i+=2) nx.push_back(mkITE(b,cur[i+1],cur[i])); cur.swap(nx); }
  gTabOn=on; return n->tabc=cur[0]; }
static const APInt& evalN(Node*n){
  if(n->op==CONST) return n->c;
  if(n->ep==gEpoch) return n->ev;
  // iterative for deep DAGs
  static std::vector<Node*> st; size_t base=st.size(); st.push_back(n);
  while(st.size()>base){ Node*x=st.back(); if(x->op==CONST||x->ep==gEpoch){ st.pop_back(); continue; }
    bool ready=true; for(int i=0;i<x->nk;i++){ Node*k=x->k[i]; if(k->op!=CONST&&k->ep!=gEpoch){ st.push_back(k); ready=false; } }
    if(!ready) continue; st.pop_back();
    auto V=[&](int i)->const APInt&{ Node*k=x->k[i]; return k->op==CONST?k->c:k->ev; };
    APInt r(x->w,0);
    if(x->op==SYM) r=(size_t)x->aux<gEvModel->size()?(*gEvModel)[x->aux].zextOrTrunc(x->w):APInt(x->w,0);
    else if(x->op==TAB){ size_t ix=0; unsigned sh=0; for(uint32_t sy:*x->syms){ unsigned w=gSyms[sy].w; uint64_t v=sy<gEvModel->size()?(*gEvModel)[sy].zextOrTrunc(w).getZExtValue():0; ix|=v<<sh; sh+=w; } r=(*x->tab)[ix]; }
    else { const APInt*vv[3]; for(int i=0;i<x->nk;i++) vv[i]=&V(i); r=evalOp(x,vv); }
    x->ev=r; x->ep=gEpoch;
  }
  return n->ev;
}

// =================== z3 ===================
static Z3_context Z;
static void zerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); unsupported("z3 error"); }
static void initZ3(){ Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z,zerr); }
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(Z,a); return a; }
static Z3_sort bvs(unsigned w){ static std::map<unsigned,Z3_sort> m; auto&r=m[w]; if(!r){ r=Z3_mk_bv_sort(Z,w); Z3_inc_ref(Z,Z3_sort_to_ast(Z,r)); } return r; }
static Z3_sort fps(unsigned w){ static std::map<unsigned,Z3_sort> m; auto&r=m[w]; if(!r){ if(w==16) r=Z3_mk_fpa_sort(Z,5,11); else if(w==32) r=Z3_mk_fpa_sort(Z,8,24); else if(w==64) r=Z3_mk_fpa_sort(Z,11,53); else unsupported("fp sort"); Z3_inc_ref(Z,Z3_sort_to_ast(Z,r)); } return r; }
static Z3_ast rmode(int m){ static Z3_ast r[5]; if(!r[m]) r[m]=keep(m==0?Z3_mk_fpa_rtn(Z):m==1?Z3_mk_fpa_rtp(Z):m==2?Z3_mk_fpa_rtz(Z):m==3?Z3_mk_fpa_rne(Z):Z3_mk_fpa_rna(Z)); return r[m]; }
static Z3_ast zBV(Node*n); static Z3_ast zBool(Node*n); static Z3_ast zFP(Node*n);
static Z3_ast zconst(const APInt&c){ llvm::SmallString<64> s; c.toString(s,10,false); static std::map<std::pair<unsigned,std::string>,Z3_ast> m; auto&r=m[{c.getBitWidth(),s.c_str()}]; if(!r) r=keep(Z3_mk_numeral(Z,s.c_str(),bvs(c.getBitWidth()))); return r; }
static Z3_ast zBool(Node*n){
  if(n->zb) return n->zb;
  Z3_ast r;
  switch(n->op){
  case CONST: r=n->c.getBoolValue()?Z3_mk_true(Z):Z3_mk_false(Z); break;
  case SYM: r=Z3_mk_const(Z,Z3_mk_int_symbol(Z,n->aux),Z3_mk_bool_sort(Z)); break;
  case TAB: r=zBool(tabTree(n)); break;
  case AND:{ Z3_ast a[2]={zBool(n->k[0]),zBool(n->k[1])}; r=Z3_mk_and(Z,2,a); break; }
  case OR:{ Z3_ast a[2]={zBool(n->k[0]),zBool(n->k[1])}; r=Z3_mk_or(Z,2,a); break; }
  case XOR: if(isTrue(n->k[1])) r=Z3_mk_not(Z,zBool(n->k[0])); else r=Z3_mk_xor(Z,zBool(n->k[0]),zBool(n->k[1])); break;
  case ITE: r=Z3_mk_ite(Z,zBool(n->k[0]),zBool(n->k[1]),zBool(n->k[2])); break;
  case EQ: r=n->k[0]->w==1?Z3_mk_eq(Z,zBool(n->k[0]),zBool(n->k[1])):Z3_mk_eq(Z,zBV(n->k[0]),zBV(n->k[1])); break;
  case ULT: r=Z3_mk_bvult(Z,zBV(n->k[0]),zBV(n->k[1])); break; case ULE: r=Z3_mk_bvule(Z,zBV(n->k[0]),zBV(n->k[1])); break;
  case SLT: r=Z3_mk_bvslt(Z,zBV(n->k[0]),zBV(n->k[1])); break; case SLE: r=Z3_mk_bvsle(Z,zBV(n->k[0]),zBV(n->k[1])); break;
  case FEQ: r=Z3_mk_fpa_eq(Z,zFP(n->k[0]),zFP(n->k[1])); break; case FLT: r=Z3_mk_fpa_lt(Z,zFP(n->k[0]),zFP(n->k[1])); break; case FLE: r=Z3_mk_fpa_leq(Z,zFP(n->k[0]),zFP(n->k[1])); break;
  case FUNO:{ Z3_ast a[2]={keep(Z3_mk_fpa_is_nan(Z,zFP(n->k[0]))),keep(Z3_mk_fpa_is_nan(Z,zFP(n->k[1])))}; r=n->k[0]==n->k[1]?a[0]:Z3_mk_or(Z,2,a); break; }
  default: r=Z3_mk_eq(Z,zBV(n),zconst(APInt(1,1))); }
  return n->zb=keep(r);
}
static Z3_ast zFP(Node*n){
  if(n->zf) return n->zf;
  Z3_ast r;
  switch(n->op){
  case FADD: r=Z3_mk_fpa_add(Z,rmode(3),zFP(n->k[0]),zFP(n->k[1])); break;
  case FSUB: r=Z3_mk_fpa_sub(Z,rmode(3),zFP(n->k[0]),zFP(n->k[1])); break;
  case FMUL: r=Z3_mk_fpa_mul(Z,rmode(3),zFP(n->k[0]),zFP(n->k[1])); break;
  case FDIV: r=Z3_mk_fpa_div(Z,rmode(3),zFP(n->k[0]),zFP(n->k[1])); break;
  case FFMA: r=Z3_mk_fpa_fma(Z,rmode(3),zFP(n->k[0]),zFP(n->k[1]),zFP(n->k[2])); break;
  case FSQRT: r=Z3_mk_fpa_sqrt(Z,rmode(3),zFP(n->k[0])); break;
  case FROUND: r=Z3_mk_fpa_round_to_integral(Z,rmode(n->aux),zFP(n->k[0])); break;
  case SITOF: r=Z3_mk_fpa_to_fp_signed(Z,rmode(3),zBV(n->k[0]),fps(n->w)); break;
  case UITOF: r=Z3_mk_fpa_to_fp_unsigned(Z,rmode(3),zBV(n->k[0]),fps(n->w)); break;
  case FCAST: r=Z3_mk_fpa_to_fp_float(Z,rmode(3),zFP(n->k[0]),fps(n->w)); break;
  case ITE: r=Z3_mk_ite(Z,zBool(n->k[0]),zFP(n->k[1]),zFP(n->k[2])); break;
  case XOR: if(n->k[1]->isConst()&&n->k[1]->c==APInt::getSignMask(n->w)){ r=Z3_mk_fpa_neg(Z,zFP(n->k[0])); break; } goto dflt;
  case AND: if(n->k[1]->isConst()&&n->k[1]->c==~APInt::getSignMask(n->w)){ r=Z3_mk_fpa_abs(Z,zFP(n->k[0])); break; } goto dflt;
  case ZEXT: if(n->k[0]->op==EXTRACT&&n->k[0]->w==n->w-1&&n->k[0]->aux==0&&n->k[0]->k[0]->w==n->w){ r=Z3_mk_fpa_abs(Z,zFP(n->k[0]->k[0])); break; } goto dflt;
  case FREM: unsupported("fp rem");
  default: dflt: r=Z3_mk_fpa_to_fp_bv(Z,zBV(n),fps(n->w)); }
  return n->zf=keep(r);
}
static Z3_ast zBV(Node*n){
  if(n->zv) return n->zv;
  // iterative pre-translation of deep BV kids to limit recursion
  Z3_ast r;
  switch(n->op){
  case CONST: r=zconst(n->c); break;
  case TAB: r=zBV(tabTree(n)); break;
  case SYM: if(n->w==1) r=Z3_mk_ite(Z,zBool(n),zconst(APInt(1,1)),zconst(APInt(1,0))); else r=Z3_mk_const(Z,Z3_mk_int_symbol(Z,n->aux),bvs(n->w)); break;
#define B2(O,F) case O: if(n->w==1&&(O==AND||O==OR||O==XOR)) r=Z3_mk_ite(Z,zBool(n),zconst(APInt(1,1)),zconst(APInt(1,0))); else r=F(Z,zBV(n->k[0]),zBV(n->k[1])); break;
  B2(ADD,Z3_mk_bvadd) B2(SUB,Z3_mk_bvsub) B2(MUL,Z3_mk_bvmul) B2(UDIV,Z3_mk_bvudiv) B2(SDIV,Z3_mk_bvsdiv) B2(UREM,Z3_mk_bvurem) B2(SREM,Z3_mk_bvsrem)
  B2(AND,Z3_mk_bvand) B2(OR,Z3_mk_bvor) B2(XOR,Z3_mk_bvxor) B2(SHL,Z3_mk_bvshl) B2(LSHR,Z3_mk_bvlshr) B2(ASHR,Z3_mk_bvashr)
  case CONCAT: r=Z3_mk_concat(Z,zBV(n->k[0]),zBV(n->k[1])); break;
  case EXTRACT: r=Z3_mk_extract(Z,n->aux+n->w-1,n->aux,zBV(n->k[0])); break;
  case ZEXT: if(n->k[0]->w==1) r=Z3_mk_ite(Z,zBool(n->k[0]),zconst(APInt(n->w,1)),zconst(APInt(n->w,0))); else r=Z3_mk_zero_ext(Z,n->w-n->k[0]->w,zBV(n->k[0])); break;
  case SEXT: if(n->k[0]->w==1) r=Z3_mk_ite(Z,zBool(n->k[0]),zconst(APInt::getAllOnes(n->w)),zconst(APInt(n->w,0))); else r=Z3_mk_sign_ext(Z,n->w-n->k[0]->w,zBV(n->k[0])); break;
  case ITE: r=Z3_mk_ite(Z,zBool(n->k[0]),zBV(n->k[1]),zBV(n->k[2])); break;
  case EQ: case ULT: case ULE: case SLT: case SLE: case FEQ: case FLT: case FLE: case FUNO: r=Z3_mk_ite(Z,zBool(n),zconst(APInt(1,1)),zconst(APInt(1,0))); break;
  case FTOSI: r=Z3_mk_fpa_to_sbv(Z,rmode(2),zFP(n->k[0]),n->w); break;
  case FTOUI: r=Z3_mk_fpa_to_ubv(Z,rmode(2),zFP(n->k[0]),n->w); break;
  case FX: r=zBV(plain(n)); break;
  default: r=Z3_mk_fpa_to_ieee_bv(Z,zFP(n)); }
  return n->zv=keep(r);
}
