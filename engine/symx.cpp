// symx: symbolic execution of LLVM-18 bitcode with z3.  See DESIGN.md.
#include <random>
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <chrono>
#include <regex>
#include <unistd.h>
#include <fstream>
#include <sstream>
using namespace llvm;
typedef std::string str;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static LLVMContext CTX; static std::unique_ptr<Module> M; static const DataLayout* DL;

// ---------------------------------------------------------------- values
struct RV { Node* n=nullptr; uint64_t c=0; std::shared_ptr<std::vector<RV>> a; RV(){} explicit RV(uint64_t v):c(v){} };
static inline uint64_t maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline RV fromN(Node*n){ RV r; if(n->op==CONST&&n->w<=64) r.c=n->c.getZExtValue(); else r.n=n; return r; }
static inline Node* toN(const RV&r,unsigned w){ if(r.n) return r.n; if(w<=64) return mkC(w,r.c&maskw(w)); return mkC(w,r.c); }
static inline RV cRV(uint64_t v,unsigned w){ return RV(v&maskw(w)); }

// ---------------------------------------------------------------- memory
enum OKind{ OK_GLOBAL, OK_CONST, OK_STACK, OK_HEAP, OK_EXTERN };
struct Obj { uint64_t base; uint64_t size; OKind kind; bool arr=false; str name;
  std::vector<uint8_t> d, st; std::vector<std::pair<Node*,uint8_t>> sy; bool plainAll=true; // plainAll: every byte concrete
  void mk(uint64_t n,bool undef){ size=n; d.assign(n,0); if(undef){ st.assign(n,1); plainAll=false; } }
};
typedef std::shared_ptr<Obj> OP;

struct TyI { enum K{INT,FP,PTR,VEC,STR,VOID} k; unsigned w=0; uint64_t sz=0, alloc=0; std::vector<const TyI*> el; std::vector<uint64_t> off; };
static std::map<Type*,TyI*> gTy;
static const TyI* ty(Type*t){
  auto&r=gTy[t]; if(r) return r; TyI*x=new TyI;
  if(t->isVoidTy()||t->isLabelTy()||t->isMetadataTy()||t->isTokenTy()){ x->k=TyI::VOID; }
  else { x->sz=DL->getTypeStoreSize(t).getFixedValue(); x->alloc=DL->getTypeAllocSize(t).getFixedValue();
    if(t->isIntegerTy()){ x->k=TyI::INT; x->w=t->getIntegerBitWidth(); }
    else if(t->isFloatingPointTy()){ x->k=TyI::FP; x->w=t->getPrimitiveSizeInBits(); }
    else if(t->isPointerTy()){ x->k=TyI::PTR; x->w=64; }
    else if(auto*v=dyn_cast<FixedVectorType>(t)){ x->k=TyI::VEC; auto*e=ty(v->getElementType()); if(e->w%8&&e->w!=1) {} for(unsigned i=0;i<v->getNumElements();i++){ x->el.push_back(e); x->off.push_back(i*((e->w+7)/8)); } }
    else if(auto*s=dyn_cast<StructType>(t)){ x->k=TyI::STR; if(s->isOpaque()){ } else { auto*L=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++){ x->el.push_back(ty(s->getElementType(i))); x->off.push_back(L->getElementOffset(i)); } } }
    else if(auto*s=dyn_cast<ArrayType>(t)){ x->k=TyI::STR; auto*e=ty(s->getElementType()); for(uint64_t i=0;i<s->getNumElements();i++){ x->el.push_back(e); x->off.push_back(i*e->alloc); } }
    else unsupported("type"); }
  gTy[t]=x; return x;
}
static RV zeroRV(const TyI*t){ RV r; if(t->k==TyI::VEC||t->k==TyI::STR){ r.a=std::make_shared<std::vector<RV>>(); for(auto*e:t->el) r.a->push_back(zeroRV(e)); } else if(t->w>64) r.n=mkC(t->w,0); return r; }

// ---------------------------------------------------------------- compiled functions
struct Opnd { int reg=-1; RV v; };
// reference-count updates of shared_ptr (ext/atomicity.h): kept atomic, but no schedule point (no control flow of the code under test depends on them)
static bool refcountOp(Instruction&I){ auto*d=I.getDebugLoc().get(); return d&&(d->getFilename().ends_with("ext/atomicity.h")||d->getFilename().ends_with("bits/shared_ptr_base.h")); }
struct PIns { unsigned op; unsigned pred=0; int dst=-1; const TyI* t=nullptr; const TyI* ot=nullptr; std::vector<Opnd> o; Instruction* I=nullptr; 
  int64_t imm=0; std::vector<std::pair<int,int64_t>> gep; /* operand index, scale */ Function* callee=nullptr; int ext=-1; 
  std::vector<uint32_t> tgt; std::vector<APInt> cases; unsigned bb=0; bool atomic=false, nosched=false; };
struct PhiN { int dst; std::vector<std::pair<unsigned,Opnd>> in; };
struct CFunc { Function* F; std::vector<PIns> ins; std::vector<uint32_t> bbStart; std::vector<std::vector<PhiN>> phis; std::vector<int> argReg; unsigned nreg=0; str repoFile; uint64_t calls=0; };
static std::map<Function*,CFunc*> gFn;

struct Frame { CFunc* f; uint32_t pc=0; unsigned bb=0; std::vector<RV> r; std::vector<uint64_t> allocas; std::vector<RV> va; int retDst=-1; };
struct Thread { std::vector<Frame> st; bool done=false; int joinOn=-1; uint64_t mutexOn=0; bool skipSched=false; bool yielded=false; uint64_t excPtr=0; uint64_t excTI=0; uint64_t spin=0; const void*spIns=nullptr; uint64_t spAddr=0,spVal=0; Node*spNode=nullptr; int spN=0; std::vector<uint32_t> vc; };
struct InputRec { Node* sym; bool isFx=false; };
struct Shadow { std::map<uint64_t,std::pair<int,uint32_t>> w; std::map<uint64_t,std::map<int,uint32_t>> r; };
struct State {
  std::vector<Thread> th; int cur=0; std::map<uint64_t,OP> mem; std::vector<Node*> pc; ModelV model; std::vector<Node*> inputs; std::vector<uint8_t> sched; std::vector<str> strace;
  int preempt=0; uint64_t steps=0; uint64_t nextAddr=0x100000; std::vector<uint64_t> caught; std::map<uint64_t,std::pair<uint64_t,int>> exc; // exc ptr -> (ti, handlerCount)
  std::map<uint64_t,int> mutexes; uint64_t stepLimit; uint64_t id; std::map<std::pair<int,GlobalVariable*>,uint64_t> tls; std::vector<str> notes;
  std::map<uint64_t,std::vector<uint32_t>> syncvc; std::shared_ptr<Shadow> shadow; bool multi=false; uint64_t heapLive=0;
};
typedef std::unique_ptr<State> SP;
struct PathEnd {}; // unwinds to main loop, path finished
// ---------------------------------------------------------------- options / results
static double oTime=300, oQTimeout=10; static int oPre=2; static uint64_t oStep=3000000; static str oOut, oEntry="symx_main"; static bool oRace=false,oOpaque=false, oVerbose=false; static int oITE=72; static str oSearch="dfs"; static std::vector<long> oParams; static size_t oMaxViol=4; static uint64_t oMaxMem=6;
struct Viol { str label,msg,loc,kind; std::vector<str> names; std::vector<str> vals; std::vector<uint8_t> sched; std::vector<str> notes; };
static std::vector<Viol> gViol; static std::map<str,int> gViolCount; static std::map<str,uint64_t> gUnsup, gReach; static uint64_t gPaths=0,gPathsDone=0,gKilled=0,gSteps=0,gQueries=0,gSat=0,gUnsat=0,gUnknown=0,gCache=0,gForks=0,gAsserts=0,gAssertProved=0,gAssertTriv=0; static double gSolver=0; static bool gExhausted=false; static std::map<str,uint64_t> gAssertLabels;
static double gStart;
static std::vector<SP> gStack; static uint64_t gNextId=1;

// ---------------------------------------------------------------- solver
static Z3_solver gS1=nullptr; static uint64_t gS1n=0;
enum Res{ SAT,UNSAT,UNK };
struct CacheE { Res r; std::vector<std::pair<uint32_t,APInt>> m; };
static std::map<std::vector<uint32_t>,CacheE> gQC;
static void extractModel(Z3_model m,const SymSet&syms,std::vector<std::pair<uint32_t,APInt>>&out){
  for(uint32_t s:syms){ Node*n=gSymNodes[s]; Z3_ast v; Z3_ast t=n->w==1?zBool(n):zBV(n); 
    if(!Z3_model_eval(Z,m,t,true,&v)) continue; Z3_inc_ref(Z,v);
    if(n->w==1) out.push_back({s,APInt(1,Z3_get_bool_value(Z,v)==Z3_L_TRUE)}); else { const char*q=Z3_get_numeral_string(Z,v); APInt a(n->w+8>64?n->w+8:72,StringRef(q),10); out.push_back({s,a.trunc(n->w)}); }
    Z3_dec_ref(Z,v); }
}
static Res solve(const std::vector<Node*>&cs,std::vector<std::pair<uint32_t,APInt>>&out){
  bool fp=false,mul=false; for(auto*n:cs){ fp|=n->hasFP; mul|=n->hasMul; }
  SymSet syms; { const SymSet*u=emptySyms(); for(auto*n:cs) u=unionSyms(u,n->syms); syms=*u; }
  double t0=now(); gQueries++;
  std::vector<Z3_ast> as; for(auto*n:cs) as.push_back(zBool(n));
  Res r=UNK;
  auto setp=[&](Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),ms); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p); };
  double left=std::max(1.0,oTime*1.3-(now()-gStart)); unsigned ms=std::min(oQTimeout,left)*1000;
  auto attempt=[&](Z3_solver s,unsigned tmo){ Z3_solver_inc_ref(Z,s); setp(s,tmo); for(auto a:as) Z3_solver_assert(Z,s,a);
    Z3_lbool b=Z3_solver_check(Z,s);
    if(b==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(Z,s); Z3_model_inc_ref(Z,m); extractModel(m,syms,out); Z3_model_dec_ref(Z,m); r=SAT; } else if(b==Z3_L_FALSE) r=UNSAT;
    Z3_solver_dec_ref(Z,s); };
  auto mkT=[&](std::vector<const char*> names){ Z3_tactic t=nullptr; for(auto n:names){ Z3_tactic q=Z3_mk_tactic(Z,n); Z3_tactic_inc_ref(Z,q); if(t){ q=Z3_tactic_and_then(Z,t,q); Z3_tactic_inc_ref(Z,q); } t=q; } return t; };
  static Z3_tactic tSmt=mkT({"simplify","propagate-values","simplify","smt"}),tSat=mkT({"simplify","propagate-values","solve-eqs","elim-uncnstr","simplify","bit-blast","sat"});
  if(!fp&&!(gFxRound&&mul)) attempt(Z3_mk_solver_from_tactic(Z,tSmt),std::min(ms,mul?600u:2500u));
  if(r==UNK&&!fp) attempt(Z3_mk_solver_from_tactic(Z,tSat),ms);
  if(r==UNK&&fp) attempt(Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_FPBV")),ms);
  gSolver+=now()-t0; if(oVerbose&&now()-t0>1) fprintf(stderr,"[slow query %.1fs fp=%d mul=%d n=%zu r=%d]\n",now()-t0,fp,mul,cs.size(),r);
  if(now()-t0>2&&getenv("SYMX_DUMP")){ static int dn=0; Z3_solver s=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s); for(auto a:as) Z3_solver_assert(Z,s,a); std::ofstream(str(getenv("SYMX_DUMP"))+"/q"+std::to_string(dn++)+".smt2")<<Z3_solver_to_string(Z,s)<<"(check-sat)\n"; Z3_solver_dec_ref(Z,s); }
  if(r==SAT) gSat++; else if(r==UNSAT) gUnsat++; else gUnknown++;
  return r;
}
static double gProveT=0; static uint64_t gProved=0,gProveQ=0;
static bool fxProve(Node*c){ if(isTrue(c)) return true; if(isFalse(c)||c->hasFP||gProveT>oTime*0.6) return false;
  double t0=now(); std::vector<std::pair<uint32_t,APInt>> out; double sv=oQTimeout; oQTimeout=std::min(oQTimeout,1.5); Res r=solve({mkNot(c)},out); oQTimeout=sv; gProveT+=now()-t0; gProveQ++; if(r==UNSAT) gProved++; return r==UNSAT; }
static std::vector<std::vector<APInt>> fxSample(Node*m){ static std::mt19937_64 rng(12345); static std::vector<ModelV> ms(10); std::vector<std::vector<APInt>> out(1); const ModelV*old=gEvModel;
  for(size_t i=0;i<ms.size();i++){ auto&M=ms[i]; for(size_t k=M.size();k<gSyms.size();k++){ unsigned w=gSymNodes[k]->w; APInt a(w,0); if(i==1) a=APInt::getAllOnes(w); else if(i>1) for(unsigned b=0;b<w;b++) if(rng()&1) a.setBit(b); M.push_back(a); } 
    setEvalModel(&M); out[0].push_back(evalN(m)); }
  setEvalModel(old); return out; }
// is (pc /\ q) satisfiable?  On SAT fills model
static Res query(State&S,Node*q,ModelV&mout){
  if(isTrue(q)){ mout=S.model; return SAT; } if(isFalse(q)) return UNSAT;
  // slice
  std::vector<Node*> cs; std::vector<char> used(S.pc.size(),0); const SymSet*cur=q->syms;
  auto inter=[](const SymSet&a,const SymSet&b){ auto i=a.begin(),j=b.begin(); while(i!=a.end()&&j!=b.end()){ if(*i==*j) return true; if(*i<*j) ++i; else ++j; } return false; };
  bool ch=true; while(ch){ ch=false; for(size_t i=0;i<S.pc.size();i++) if(!used[i]&&inter(*S.pc[i]->syms,*cur)){ used[i]=1; cs.push_back(S.pc[i]); const SymSet*u=unionSyms(cur,S.pc[i]->syms); if(u!=cur){ cur=u; ch=true; } } }
  std::sort(cs.begin(),cs.end(),[](Node*a,Node*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  std::vector<uint32_t> key; for(auto*n:cs) key.push_back(n->id); key.push_back(q->id);
  auto it=gQC.find(key); 
  if(it!=gQC.end()){ gCache++; } else { cs.push_back(q); CacheE e; e.r=solve(cs,e.m); it=gQC.emplace(key,std::move(e)).first; }
  if(it->second.r==SAT){ mout=S.model; for(auto&p:it->second.m){ if(mout.size()<=p.first) mout.resize(p.first+1,APInt(1,0)); mout[p.first]=p.second; }
    // validate
    setEvalModel(&mout); bool ok=evalN(q).getBoolValue(); if(ok) for(auto*n:cs) if(!evalN(n).getBoolValue()){ ok=false; break; }
    setEvalModel(&S.model);
    if(!ok){ static int warned=0; if(warned++<5) fprintf(stderr,"[model validation failed]\n"); gUnsup["model validation failed"]++; return UNK; } }
  return it->second.r;
}
static void useModel(State&S){ setEvalModel(&S.model); }
static void addC(State&S,Node*c){ if(isTrue(c)) return; if(c->op==AND&&c->w==1){ addC(S,c->k[0]); addC(S,c->k[1]); return; } S.pc.push_back(c); }
static bool evalB(State&S,Node*c){ return evalN(c).getBoolValue(); }
static std::unique_ptr<State> cloneS(State&S){ auto n=std::make_unique<State>(S); n->id=gNextId++; if(S.shadow) n->shadow=std::make_shared<Shadow>(*S.shadow); gForks++; return n; }

static str locOf(State&S){ auto&t=S.th[S.cur]; str r; int k=0; for(int i=(int)t.st.size()-1;i>=0&&k<6;i--){ auto&f=t.st[i]; if(f.pc>=f.f->ins.size()) continue; Instruction*I=f.f->ins[f.pc].I; if(!I) continue; DILocation*L=I->getDebugLoc().get(); str s=demangle(f.f->F->getName().str()); if(s.size()>90) s=s.substr(0,90)+"..."; if(L){ str fn=L->getFilename().str(); s+=" @"+fn+":"+std::to_string(L->getLine()); while(L->getInlinedAt()&&k<6){ L=L->getInlinedAt(); s+=" <- "+L->getFilename().str()+":"+std::to_string(L->getLine()); } } if(k) r+=" | "; r+=s; k++; } return r; }
static void fillModel(State&S,const ModelV&m,Viol&v){ for(auto*n:S.inputs){ APInt val(n->w,0); if((size_t)n->aux<m.size()) val=m[n->aux].zextOrTrunc(n->w); SmallString<40> s; val.toString(s,10,false); v.names.push_back(gSyms[n->aux].name); v.vals.push_back(s.c_str()); } }
static void report(State&S,const str&kind,const str&label,const str&msg,const ModelV&m){
  int&c=gViolCount[kind+":"+label]; c++; if(c>2) return;
  Viol v; v.kind=kind; v.label=label; v.msg=msg; v.loc=locOf(S); fillModel(S,m,v); v.sched=S.sched; v.notes=S.notes; gViol.push_back(v);
  if(oVerbose) fprintf(stderr,"VIOL %s %s %s\n   %s\n",kind.c_str(),label.c_str(),msg.c_str(),v.loc.c_str());
}
static std::vector<Viol> gSamples; static size_t oSamples=6;
static void sample(State&S){ if(getenv("SYMX_TRACE")){ fprintf(stderr,"PATH"); for(auto x:S.sched) fprintf(stderr," %d",x); fprintf(stderr,"\n"); for(auto&x:S.strace) fprintf(stderr,"%s\n",x.c_str()); } if(!oSamples) return; Viol v; size_t at; if(gSamples.size()<oSamples) { at=gSamples.size(); gSamples.push_back(v); } else { static uint64_t l=0x9E3779B97F4A7C15ull; l^=l<<13; l^=l>>7; l^=l<<17; at=l%gPathsDone; if(at>=oSamples) return; } fillModel(S,S.model,v); v.sched=S.sched; gSamples[at]=v; }
[[noreturn]] static void errorPath(State&S,const str&kind,const str&label,const str&msg){ report(S,kind,label,msg,S.model); throw PathEnd(); }
// force condition on this state; forks the other side if feasible. Returns the side taken
static bool branch(State&S,Node*c,const std::function<void(State&)>&onOther){
  if(c->isConst()) return c->c.getBoolValue();
  bool v=evalB(S,c); Node*oc=v?mkNot(c):c; ModelV m; Res r=query(S,oc,m);
  if(r==SAT){ auto o=cloneS(S); o->model=std::move(m); addC(*o,oc); onOther(*o); gStack.push_back(std::move(o)); addC(S,v?c:mkNot(c)); }
  else if(r==UNK) addC(S,v?c:mkNot(c));
  return v;
}
// constrain c true in S or end path
static void assume(State&S,Node*c){
  if(isTrue(c)) return; if(isFalse(c)){ gKilled++; throw PathEnd(); }
  if(evalB(S,c)){ addC(S,c); return; }
  ModelV m; Res r=query(S,c,m); if(r!=SAT){ if(r==UNK){} gKilled++; throw PathEnd(); }
  S.model=std::move(m); addC(S,c); useModel(S);
}
// concretize by forking: returns value; other values explored in clone re-executing the same instruction
static uint64_t concretize(State&S,Node*n,unsigned w){
  uint64_t v=evalN(n).getZExtValue(); Node*eq=mkCmp(EQ,n,mkC(w,v));
  if(isTrue(eq)) return v;
  branch(S,eq,[](State&){}); return v;
}
static uint64_t conc(State&S,const RV&r,unsigned w){ return r.n?concretize(S,plain(r.n),w):r.c; }

// ---------------------------------------------------------------- memory ops
static Obj* findObj(State&S,uint64_t a){ auto it=S.mem.upper_bound(a); if(it==S.mem.begin()) return nullptr; --it; Obj*o=it->second.get(); if(a<o->base+o->size||(o->size==0&&a==o->base)) return o; return nullptr; }
static Obj* own(State&S,Obj*o){ auto&p=S.mem[o->base]; if(p.use_count()>1) p=std::make_shared<Obj>(*p); return p.get(); }
static uint64_t gMaxAlloc=64u<<20;
static uint64_t allocObj(State&S,uint64_t size,OKind k,const str&name,bool undef,uint64_t align=16){
  if(size>gMaxAlloc) unsupported("huge allocation");
  if(align<16) align=16; uint64_t b=(S.nextAddr+align-1)/align*align; S.nextAddr=b+size+32; 
  auto o=std::make_shared<Obj>(); o->base=b; o->kind=k; o->name=name; o->mk(size,undef); S.mem[b]=o; return b; }
static void mkSt(Obj*o){ if(o->st.empty()) o->st.assign(o->size,0); if(o->sy.empty()) o->sy.assign(o->size,{nullptr,0}); o->plainAll=false; }
static RV readB(State&S,Obj*o,uint64_t off,unsigned n){
  if(o->kind==OK_EXTERN) unsupported("read of external global "+o->name);
  if(o->plainAll||o->st.empty()){ RV r; if(n<=8){ memcpy(&r.c,&o->d[off],n); return r; } APInt v(n*8,0); for(unsigned i=0;i<n;i++) v|=APInt(n*8,o->d[off+i]).shl(i*8); r.n=mkC(v); return r; }
  bool anyU=false,anyS=false; for(unsigned i=0;i<n;i++){ uint8_t s=o->st[off+i]; anyU|=s==1; anyS|=s==2; }
  if(!anyU&&!anyS){ RV r; if(n<=8){ memcpy(&r.c,&o->d[off],n); return r; } APInt v(n*8,0); for(unsigned i=0;i<n;i++) v|=APInt(n*8,o->d[off+i]).shl(i*8); r.n=mkC(v); return r; }
  if(anyU){ o=own(S,o); mkSt(o); for(unsigned i=0;i<n;){ if(o->st[off+i]!=1){i++;continue;} unsigned j=i; while(j<n&&o->st[off+j]==1) j++; Node*u=mkSym("undef",(j-i)*8,true); for(unsigned q=i;q<j;q++){ o->st[off+q]=2; o->sy[off+q]={u,(uint8_t)(q-i)}; } i=j; } }
  // gather
  Node* acc=nullptr; for(unsigned i=0;i<n;){ Node*piece; unsigned j=i;
    if(o->st[off+i]==0){ while(j<n&&o->st[off+j]==0) j++; APInt v((j-i)*8,0); for(unsigned q=i;q<j;q++) v|=APInt((j-i)*8,o->d[off+q]).shl((q-i)*8); piece=mkC(v); }
    else { Node*s=o->sy[off+i].first; uint8_t b=o->sy[off+i].second; while(j<n&&o->st[off+j]==2&&o->sy[off+j].first==s&&o->sy[off+j].second==b+(j-i)) j++; 
      if(b==0&&(j-i)*8==s->w) piece=s; else piece=mkExtract(s,b*8,(j-i)*8); }
    acc=acc?mkConcat(piece,acc):piece; i=j; }
  return fromN(acc);
}
static void writeB(Obj*o,uint64_t off,unsigned n,const RV&v){
  if(!v.n){ if(!o->st.empty()) memset(&o->st[off],0,n); for(unsigned i=0;i<n;i++) o->d[off+i]=i<8?(v.c>>(8*i))&255:0; return; }
  if(v.n->op==CONST){ if(!o->st.empty()) memset(&o->st[off],0,n); for(unsigned i=0;i<n;i++) o->d[off+i]=v.n->c.extractBitsAsZExtValue(8,i*8); return; }
  mkSt(o); for(unsigned i=0;i<n;i++){ o->st[off+i]=2; o->sy[off+i]={v.n,(uint8_t)i}; }
}
static str descAddr(State&S,uint64_t a){ auto it=S.mem.upper_bound(a); str r; char b[200]; if(it!=S.mem.begin()){ auto p=std::prev(it); auto*o=p->second.get(); snprintf(b,sizeof b,"address is %llu bytes past the start of object '%s' of size %llu",(unsigned long long)(a-o->base),o->name.c_str(),(unsigned long long)o->size); r=b; } if(a<4096) r="null dereference"; return r; }
// congruence value = r mod g for pointer candidate enumeration
static void stride(Node*n,APInt&g,APInt&r,int d=0){ // g==0 : exactly r
  unsigned w=n->w; if(n->isConst()){ g=APInt(w,0); r=n->c; return; }
  if(d<10) switch(n->op){
    case ADD:{ APInt g2(w,0),r2(w,0); stride(n->k[0],g,r,d+1); stride(n->k[1],g2,r2,d+1); g=APIntOps::GreatestCommonDivisor(g,g2); r=r+r2; return; }
    case SUB:{ APInt g2(w,0),r2(w,0); stride(n->k[0],g,r,d+1); stride(n->k[1],g2,r2,d+1); g=APIntOps::GreatestCommonDivisor(g,g2); r=r-r2; return; }
    case MUL: if(n->k[1]->isConst()){ stride(n->k[0],g,r,d+1); g*=n->k[1]->c; r*=n->k[1]->c; return; } break;
    case ITE:{ APInt g2(w,0),r2(w,0); stride(n->k[1],g,r,d+1); stride(n->k[2],g2,r2,d+1); APInt df=r.ugt(r2)?r-r2:r2-r; g=APIntOps::GreatestCommonDivisor(APIntOps::GreatestCommonDivisor(g,g2),df); return; }
    case ZEXT:{ APInt g2(n->k[0]->w,0),r2(n->k[0]->w,0); stride(n->k[0],g2,r2,d+1); if(g2.isPowerOf2()||g2==0||n->k[0]->op==ITE){ g=g2.zext(w); r=r2.zext(w);return;} break; }
    default: break; }
  unsigned z=ktz(n); if(z>=w) z=w-1; g=APInt::getOneBitSet(w,z); r=APInt(w,0);
}
struct Loc { Obj*o; uint64_t off; Node*addr=nullptr; std::vector<uint64_t> cand; };
static Loc resolve(State&S,const RV&p,unsigned n,bool wr){
  if(!p.n){ Obj*o=findObj(S,p.c); if(!o||p.c+n>o->base+o->size) errorPath(S,"memory","memory-safety",str("invalid ")+(wr?"write":"read")+" of "+std::to_string(n)+" bytes: "+descAddr(S,p.c)); Loc l; l.o=o; l.off=p.c-o->base; if(wr&&o->kind==OK_CONST) errorPath(S,"memory","memory-safety","write to constant"); return l; }
  Node*a=plain(p.n); uint64_t v=evalN(a).getZExtValue(); Obj*o=findObj(S,v);
  if(!o||v+n>o->base+o->size) { errorPath(S,"memory","memory-safety",str("invalid ")+(wr?"write":"read")+" of "+std::to_string(n)+" bytes (symbolic address): "+descAddr(S,v)); }
  Node*in=mkCmp(ULE,mkBin(SUB,a,mkC(64,o->base)),mkC(64,o->size-n));
  branch(S,in,[](State&){}); 
  if(wr&&o->kind==OK_CONST) errorPath(S,"memory","memory-safety","write to constant");
  Loc l; l.o=o; l.off=v-o->base; 
  APInt g(64,0),r(64,0); stride(a,g,r); uint64_t G=g.getZExtValue(),R=r.getZExtValue();
  if(G==0){ l.off=R-o->base; return l; }
  uint64_t first=o->base+(( (R%G)+G-(o->base%G))%G);
  bool pow2=(G&(G-1))==0; if(!pow2){ // verify congruence is consistent with the model value
    if(v%G!=R%G){ uint64_t z=1ull<<ktz(a); G=z; first=o->base+((G-(o->base%G))%G); pow2=true; } }
  uint64_t cnt=o->size<n?0:(first+n>o->base+o->size?0:(o->base+o->size-n-first)/G+1);
  if(cnt==1&&pow2){ l.off=first-o->base; return l; }
  if(cnt<=(uint64_t)oITE&&cnt>=1){ 
    for(uint64_t k=0;k<cnt;k++) l.cand.push_back(first+k*G-o->base);
    if(!pow2){ Node*any=mkFalse(); for(auto c:l.cand) any=mkOr(any,mkCmp(EQ,a,mkC(64,o->base+c))); ModelV m; Res q=query(S,mkNot(any),m); if(q!=UNSAT){ l.cand.clear(); } }
    if(!l.cand.empty()){ l.addr=a; return l; } }
  v=concretize(S,a,64); l.off=v-o->base; return l;
}
static RV loadT(State&S,const RV&p,const TyI*t);
static RV loadScalar(State&S,const RV&p,const TyI*t){
  unsigned n=t->sz; Loc l=resolve(S,p,n,false); RV r;
  if(l.cand.empty()) r=readB(S,l.o,l.off,n);
  else { Node*acc=nullptr; 
    std::vector<Node*> vals; for(auto c:l.cand){ RV x=readB(S,findObj(S,l.o->base),c,n); vals.push_back(toN(x,n*8)); }
    for(size_t i=0;i<l.cand.size();i++){ if(!acc) acc=vals[i]; else if(vals[i]!=acc||1) acc=mkITE(mkCmp(EQ,l.addr,mkC(64,l.o->base+l.cand[i])),vals[i],acc); }
    r=fromN(acc); }
  if(t->w<n*8&&t->k!=TyI::PTR){ if(r.n) r=fromN(mkExtract(r.n,0,t->w)); else r.c&=maskw(t->w); }
  return r;
}
static void storeScalar(State&S,const RV&p,const RV&v0,const TyI*t){
  unsigned n=t->sz; RV v=v0; if(t->w<n*8&&v.n) v=fromN(mkZExt(v.n,n*8)); if(t->w>64&&!v.n) v.n=mkC(n*8,v.c);
  Loc l=resolve(S,p,n,true); Obj*o=own(S,l.o);
  if(l.cand.empty()){ writeB(o,l.off,n,v); return; }
  Node*nv=toN(v,n*8); uint64_t base=o->base;
  for(auto c:l.cand){ RV old=readB(S,findObj(S,base),c,n); Node*x=mkITE(mkCmp(EQ,l.addr,mkC(64,base+c)),nv,toN(old,n*8)); o=own(S,findObj(S,base)); writeB(o,c,n,fromN(x)); }
}
static RV addRV(const RV&p,uint64_t off){ if(!p.n) return RV(p.c+off); return fromN(mkBin(ADD,plain(p.n),mkC(64,off))); }
static RV loadT(State&S,const RV&p,const TyI*t){
  if(t->k==TyI::VEC||t->k==TyI::STR){ RV r; r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<t->el.size();i++) r.a->push_back(loadT(S,addRV(p,t->off[i]),t->el[i])); return r; }
  return loadScalar(S,p,t);
}
static void storeT(State&S,const RV&p,const RV&v,const TyI*t){
  if(t->k==TyI::VEC||t->k==TyI::STR){ for(size_t i=0;i<t->el.size();i++) storeT(S,addRV(p,t->off[i]),(*v.a)[i],t->el[i]); return; }
  storeScalar(S,p,v,t);
}
static void copyBytes(State&S,uint64_t d,uint64_t s,uint64_t n){
  if(!n) return; Obj*so=findObj(S,s); if(!so||s+n>so->base+so->size) errorPath(S,"memory","memory-safety","memcpy source out of bounds ("+std::to_string(n)+" bytes): "+descAddr(S,s));
  Obj*dO=findObj(S,d); if(!dO||d+n>dO->base+dO->size) errorPath(S,"memory","memory-safety","memcpy destination out of bounds ("+std::to_string(n)+" bytes): "+descAddr(S,d));
  if(so->kind==OK_EXTERN) unsupported("memcpy from external "+so->name);
  dO=own(S,dO); so=findObj(S,s); uint64_t so_=s-so->base,do_=d-dO->base;
  if(so->plainAll||so->st.empty()){ memmove(&dO->d[do_],&so->d[so_],n); if(!dO->st.empty()) memset(&dO->st[do_],0,n); return; }
  mkSt(dO); memmove(&dO->d[do_],&so->d[so_],n); memmove(&dO->st[do_],&so->st[so_],n);
  if(so->sy.empty()) return;
  if(dO==so){ std::vector<std::pair<Node*,uint8_t>> tmp(so->sy.begin()+so_,so->sy.begin()+so_+n); std::copy(tmp.begin(),tmp.end(),dO->sy.begin()+do_); } else std::copy(so->sy.begin()+so_,so->sy.begin()+so_+n,dO->sy.begin()+do_);
}

// ---------------------------------------------------------------- globals / constants
static State* gInit=nullptr; static std::map<const GlobalValue*,uint64_t> gAddr; static std::map<uint64_t,Function*> gFnAt; static std::map<uint64_t,GlobalVariable*> gGVAt;
static RV constRV(Constant*C);
static void initInto(Obj*o,uint64_t off,Constant*C){
  const TyI*t=ty(C->getType());
  if(isa<ConstantAggregateZero>(C)||C->isNullValue()) return; if(isa<UndefValue>(C)) return;
  if(auto*s=dyn_cast<ConstantDataSequential>(C)){ uint64_t es=s->getElementByteSize(); StringRef raw=s->getRawDataValues(); memcpy(&o->d[off],raw.data(),raw.size()); (void)es; return; }
  if(t->k==TyI::STR||t->k==TyI::VEC){ for(unsigned i=0;i<t->el.size();i++) initInto(o,off+t->off[i],C->getAggregateElement(i)); return; }
  RV v=constRV(C); if(t->w<t->sz*8&&v.n) v=fromN(mkZExt(v.n,t->sz*8)); writeB(o,off,t->sz,v);
}
static uint64_t fnAddr(Function*F){ auto it=gAddr.find(F); if(it!=gAddr.end()) return it->second; static uint64_t next=0x10000; uint64_t a=next; next+=16; if(next>=0x100000) unsupported("too many functions"); gAddr[F]=a; gFnAt[a]=F; return a; }
static State* gRun=nullptr; // state currently executing (lazily created globals are added to all states)
static void addGlobalObj(OP o){ auto add=[&](State&S){ S.mem[o->base]=o; }; add(*gInit); if(gRun&&gRun!=gInit) add(*gRun); for(auto&s:gStack) add(*s); }
static uint64_t gGlobNext=0x7f0000000000ull;
static uint64_t gvAddr(GlobalValue*G){
  if(auto*A=dyn_cast<GlobalAlias>(G)) return constRV(A->getAliasee()).c;
  if(auto*F=dyn_cast<Function>(G)) return fnAddr(F);
  auto it=gAddr.find(G); if(it!=gAddr.end()) return it->second; auto*V=cast<GlobalVariable>(G);
  uint64_t sz=DL->getTypeAllocSize(V->getValueType()); uint64_t al=std::max<uint64_t>(16,V->getAlign().valueOrOne().value());
  auto o=std::make_shared<Obj>(); gGlobNext=(gGlobNext+al-1)/al*al; o->base=gGlobNext; gGlobNext+=std::max<uint64_t>(sz,1)+32; o->name=V->getName().str(); gAddr[V]=o->base; gGVAt[o->base]=V;
  if(V->hasInitializer()){ o->kind=V->isConstant()?OK_CONST:OK_GLOBAL; o->mk(sz,false); addGlobalObj(o); initInto(o.get(),0,V->getInitializer()); }
  else { o->kind=OK_EXTERN; if(sz==0) sz=8; if(sz<64) sz=64; gGlobNext+=64; if(V->getName().starts_with("_ZTV")&&sz<1024){ sz=1024; gGlobNext+=1024; } o->mk(sz,false); addGlobalObj(o); }
  return o->base;
}
static RV constRV(Constant*C){
  const TyI*t=ty(C->getType());
  if(auto*i=dyn_cast<ConstantInt>(C)) return fromN(mkC(i->getValue()));
  if(auto*f=dyn_cast<ConstantFP>(C)) return fromN(mkC(f->getValueAPF().bitcastToAPInt()));
  if(isa<ConstantPointerNull>(C)) return RV(0);
  if(isa<UndefValue>(C)||isa<ConstantAggregateZero>(C)) return zeroRV(t);
  if(auto*g=dyn_cast<GlobalValue>(C)) return RV(gvAddr(g));
  if(t->k==TyI::VEC||t->k==TyI::STR){ if(isa<ConstantExpr>(C)) unsupported("vec constexpr"); RV r; r.a=std::make_shared<std::vector<RV>>(); for(unsigned i=0;i<t->el.size();i++) r.a->push_back(constRV(C->getAggregateElement(i))); return r; }
  if(auto*e=dyn_cast<ConstantExpr>(C)){
    switch(e->getOpcode()){
    case Instruction::GetElementPtr:{ APInt off(64,0); auto*g=cast<GEPOperator>(e); if(!g->accumulateConstantOffset(*DL,off)) unsupported("gep constexpr"); return RV(constRV(cast<Constant>(g->getPointerOperand())).c+off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:{ RV r=constRV(e->getOperand(0)); if(!r.n&&t->w) r.c&=maskw(t->w); return r; }
    case Instruction::Trunc: { RV r=constRV(e->getOperand(0)); return cRV(r.c,t->w); }
    case Instruction::Add: return cRV(constRV(e->getOperand(0)).c+constRV(e->getOperand(1)).c,t->w);
    case Instruction::Sub: return cRV(constRV(e->getOperand(0)).c-constRV(e->getOperand(1)).c,t->w);
    case Instruction::ICmp: { uint64_t a=constRV(e->getOperand(0)).c,b=constRV(e->getOperand(1)).c; auto p=e->getPredicate(); if(p==CmpInst::ICMP_EQ) return RV(a==b); if(p==CmpInst::ICMP_NE) return RV(a!=b); unsupported("constexpr icmp"); }
    default: unsupported("constexpr"); } }
  unsupported("constant");
}
#include "externs.inc"

// ---------------------------------------------------------------- compile
static CFunc* compile(Function*F){
  auto&c=gFn[F]; if(c) return c; if(F->isDeclaration()) return nullptr;
  CFunc*f=new CFunc; f->F=F; std::map<Value*,int> reg; unsigned nr=0; std::map<BasicBlock*,unsigned> bbi; unsigned nb=0;
  if(auto*sp=F->getSubprogram()) f->repoFile=(sp->getDirectory().str().size()&&sp->getFilename().str()[0]!='/'?sp->getDirectory().str()+"/":"")+sp->getFilename().str();
  for(auto&a:F->args()){ reg[&a]=nr; f->argReg.push_back(nr++); }
  for(auto&B:*F){ bbi[&B]=nb++; for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=nr++; }
  f->nreg=nr; f->phis.resize(nb); f->bbStart.resize(nb);
  auto op=[&](Value*v)->Opnd{ Opnd o; auto it=reg.find(v); if(it!=reg.end()){ o.reg=it->second; return o; } if(auto*C=dyn_cast<Constant>(v)) o.v=constRV(C); else if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) {} else unsupported("operand"); return o; };
  for(auto&B:*F){ unsigned b=bbi[&B]; 
    for(auto&P:B.phis()){ PhiN p; p.dst=reg[&P]; for(unsigned i=0;i<P.getNumIncomingValues();i++){ p.in.push_back({bbi[P.getIncomingBlock(i)],op(P.getIncomingValue(i))}); } f->phis[b].push_back(p); }
    f->bbStart[b]=f->ins.size();
    for(auto&I:B){ if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue;
      if(auto*II=dyn_cast<IntrinsicInst>(&I)){ auto id=II->getIntrinsicID(); if(id==Intrinsic::assume||id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end||id==Intrinsic::donothing||id==Intrinsic::prefetch||id==Intrinsic::var_annotation) continue; }
      PIns p; p.op=I.getOpcode(); p.I=&I; p.bb=b; p.t=ty(I.getType()); if(!I.getType()->isVoidTy()) p.dst=reg[&I];
      if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ if(g->getType()->isVectorTy()) unsupported("vector gep"); p.o.push_back(op(g->getPointerOperand())); for(auto it=gep_type_begin(g);it!=gep_type_end(g);++it){ Value*ix=it.getOperand(); if(StructType*st=it.getStructTypeOrNull()){ p.imm+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sc=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) p.imm+=ci->getSExtValue()*sc; else { p.gep.push_back({(int)p.o.size(),sc}); p.o.push_back(op(ix)); p.cases.push_back(APInt(32,ix->getType()->getIntegerBitWidth())); } } } }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) p.o.push_back(op(br->getCondition())); for(unsigned i=0;i<br->getNumSuccessors();i++) p.tgt.push_back(bbi[br->getSuccessor(i)]); }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ p.o.push_back(op(sw->getCondition())); p.ot=ty(sw->getCondition()->getType()); p.tgt.push_back(bbi[sw->getDefaultDest()]); for(auto c:sw->cases()){ p.cases.push_back(c.getCaseValue()->getValue()); p.tgt.push_back(bbi[c.getCaseSuccessor()]); } }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ for(auto&a:cb->args()) p.o.push_back(op(a)); Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliasee()->stripPointerCasts(); if(auto*cf=dyn_cast<Function>(cv)){ p.callee=cf; } else if(isa<InlineAsm>(cv)) p.ext=-2; else p.o.push_back(op(cb->getCalledOperand())); if(auto*iv=dyn_cast<InvokeInst>(&I)){ p.tgt.push_back(bbi[iv->getNormalDest()]); p.tgt.push_back(bbi[iv->getUnwindDest()]); } }
      else if(auto*lp=dyn_cast<LandingPadInst>(&I)){ (void)lp; }
      else { for(auto&o:I.operands()) p.o.push_back(op(o)); if(I.getNumOperands()) p.ot=ty(I.getOperand(0)->getType());
        if(auto*c=dyn_cast<CmpInst>(&I)) p.pred=c->getPredicate();
        if(auto*l=dyn_cast<LoadInst>(&I)) p.atomic=l->isAtomic(); if(auto*s=dyn_cast<StoreInst>(&I)){ p.atomic=s->isAtomic(); }
        p.nosched=refcountOp(I); if(isa<AtomicRMWInst>(I)){ p.atomic=true; p.pred=cast<AtomicRMWInst>(I).getOperation(); p.ot=ty(I.getOperand(1)->getType()); } if(isa<AtomicCmpXchgInst>(I)){ p.atomic=true; p.ot=ty(I.getOperand(1)->getType()); }
        if(auto*a=dyn_cast<AllocaInst>(&I)){ p.imm=DL->getTypeAllocSize(a->getAllocatedType()); p.ot=ty(a->getArraySize()->getType()); p.pred=a->getAlign().value(); } }
      f->ins.push_back(std::move(p)); } }
  return c=f;
}
static Frame mkFrame(CFunc*f){ Frame fr; fr.f=f; fr.r.resize(f->nreg); f->calls++; return fr; }

// ---------------------------------------------------------------- arithmetic
static RV binop(State&S,unsigned op,const RV&a,const RV&b,unsigned w);
static RV fbin(unsigned op,const RV&a,const RV&b,unsigned w){
  if(!a.n&&!b.n){
    if(w==64){ double x,y,z; memcpy(&x,&a.c,8); memcpy(&y,&b.c,8); switch(op){case Instruction::FAdd:z=x+y;break;case Instruction::FSub:z=x-y;break;case Instruction::FMul:z=x*y;break;case Instruction::FDiv:z=x/y;break;default:z=fmod(x,y);} RV r; memcpy(&r.c,&z,8); return r; }
    if(w==32){ float x,y,z; uint32_t p=a.c,q=b.c; memcpy(&x,&p,4); memcpy(&y,&q,4); switch(op){case Instruction::FAdd:z=x+y;break;case Instruction::FSub:z=x-y;break;case Instruction::FMul:z=x*y;break;case Instruction::FDiv:z=x/y;break;default:z=fmodf(x,y);} uint32_t o; memcpy(&o,&z,4); return RV(o); } }
  Op o=op==Instruction::FAdd?FADD:op==Instruction::FSub?FSUB:op==Instruction::FMul?FMUL:op==Instruction::FDiv?FDIV:FREM;
  return fromN(mkFBin(o,toN(a,w),toN(b,w)));
}
static RV binop(State&S,unsigned op,const RV&a,const RV&b,unsigned w){
  if(op==Instruction::FAdd||op==Instruction::FSub||op==Instruction::FMul||op==Instruction::FDiv||op==Instruction::FRem) return fbin(op,a,b,w);
  bool dv=op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem;
  if(dv){ if(!b.n){ if(b.c==0&&w<=64) errorPath(S,"ub","division-by-zero","integer division by zero"); } else { Node*bn=plain(b.n); Node*z=mkCmp(EQ,bn,mkC(w,0)); if(branch(S,z,[](State&){})) errorPath(S,"ub","division-by-zero","integer division by zero"); } }
  if(!a.n&&!b.n&&w<=64){ uint64_t x=a.c,y=b.c; int64_t sx=SignExtend64(x,w),sy=SignExtend64(y,w); uint64_t z;
    switch(op){ case Instruction::Add:z=x+y;break; case Instruction::Sub:z=x-y;break; case Instruction::Mul:z=x*y;break; case Instruction::And:z=x&y;break; case Instruction::Or:z=x|y;break; case Instruction::Xor:z=x^y;break;
      case Instruction::Shl:z=y>=w?0:x<<y;break; case Instruction::LShr:z=y>=w?0:x>>y;break; case Instruction::AShr:z=sx>>(y>=w?63:y);break;
      case Instruction::UDiv:z=x/y;break; case Instruction::URem:z=x%y;break; case Instruction::SDiv:z=(sy==-1)?0-(uint64_t)sx:sx/sy;break; case Instruction::SRem:z=(sy==-1)?0:sx%sy;break; default: unsupported("binop"); }
    return cRV(z,w); }
  Op o; switch(op){case Instruction::Add:o=ADD;break;case Instruction::Sub:o=SUB;break;case Instruction::Mul:o=MUL;break;case Instruction::And:o=AND;break;case Instruction::Or:o=OR;break;case Instruction::Xor:o=XOR;break;case Instruction::Shl:o=SHL;break;case Instruction::LShr:o=LSHR;break;case Instruction::AShr:o=ASHR;break;case Instruction::UDiv:o=UDIV;break;case Instruction::URem:o=UREM;break;case Instruction::SDiv:o=SDIV;break;case Instruction::SRem:o=SREM;break;default:unsupported("binop");}
  return fromN(mkBin(o,toN(a,w),toN(b,w)));
}
static Node* cmpN(unsigned p,Node*a,Node*b){
  switch(p){
  case CmpInst::ICMP_EQ:return mkCmp(EQ,a,b); case CmpInst::ICMP_NE:return mkNot(mkCmp(EQ,a,b));
  case CmpInst::ICMP_ULT:return mkCmp(ULT,a,b); case CmpInst::ICMP_ULE:return mkCmp(ULE,a,b); case CmpInst::ICMP_UGT:return mkCmp(ULT,b,a); case CmpInst::ICMP_UGE:return mkCmp(ULE,b,a);
  case CmpInst::ICMP_SLT:return mkCmp(SLT,a,b); case CmpInst::ICMP_SLE:return mkCmp(SLE,a,b); case CmpInst::ICMP_SGT:return mkCmp(SLT,b,a); case CmpInst::ICMP_SGE:return mkCmp(SLE,b,a);
  case CmpInst::FCMP_FALSE:return mkFalse(); case CmpInst::FCMP_TRUE:return mkTrue();
  case CmpInst::FCMP_OEQ:return mkFCmpBase(FEQ,a,b); case CmpInst::FCMP_UNE:return mkNot(mkFCmpBase(FEQ,a,b));
  case CmpInst::FCMP_OLT:return mkFCmpBase(FLT,a,b); case CmpInst::FCMP_OLE:return mkFCmpBase(FLE,a,b); case CmpInst::FCMP_OGT:return mkFCmpBase(FLT,b,a); case CmpInst::FCMP_OGE:return mkFCmpBase(FLE,b,a);
  case CmpInst::FCMP_ULT:return mkNot(mkFCmpBase(FLE,b,a)); case CmpInst::FCMP_ULE:return mkNot(mkFCmpBase(FLT,b,a)); case CmpInst::FCMP_UGT:return mkNot(mkFCmpBase(FLE,a,b)); case CmpInst::FCMP_UGE:return mkNot(mkFCmpBase(FLT,a,b));
  case CmpInst::FCMP_UNO:return mkFCmpBase(FUNO,a,b); case CmpInst::FCMP_ORD:return mkNot(mkFCmpBase(FUNO,a,b));
  case CmpInst::FCMP_UEQ:return mkOr(mkFCmpBase(FUNO,a,b),mkFCmpBase(FEQ,a,b)); case CmpInst::FCMP_ONE:return mkAnd(mkNot(mkFCmpBase(FUNO,a,b)),mkNot(mkFCmpBase(FEQ,a,b)));
  default: unsupported("cmp pred"); }
}
static RV cmpop(unsigned p,const RV&a,const RV&b,unsigned w){
  if(!a.n&&!b.n){
    if(p>=CmpInst::FIRST_ICMP_PREDICATE){ uint64_t x=a.c,y=b.c; int64_t sx=SignExtend64(x,w),sy=SignExtend64(y,w); bool r; switch(p){case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;case CmpInst::ICMP_SLT:r=sx<sy;break;case CmpInst::ICMP_SLE:r=sx<=sy;break;case CmpInst::ICMP_SGT:r=sx>sy;break;default:r=sx>=sy;} return RV(r); }
    if(w==64||w==32){ double x,y; if(w==64){ memcpy(&x,&a.c,8); memcpy(&y,&b.c,8);} else { float u,v; uint32_t q=a.c,s=b.c; memcpy(&u,&q,4); memcpy(&v,&s,4); x=u;y=v; } bool un=x!=x||y!=y; bool r; switch(p){case CmpInst::FCMP_OEQ:r=x==y;break;case CmpInst::FCMP_OGT:r=x>y;break;case CmpInst::FCMP_OGE:r=x>=y;break;case CmpInst::FCMP_OLT:r=x<y;break;case CmpInst::FCMP_OLE:r=x<=y;break;case CmpInst::FCMP_ONE:r=!un&&x!=y;break;case CmpInst::FCMP_ORD:r=!un;break;case CmpInst::FCMP_UNO:r=un;break;case CmpInst::FCMP_UEQ:r=un||x==y;break;case CmpInst::FCMP_UGT:r=un||x>y;break;case CmpInst::FCMP_UGE:r=un||x>=y;break;case CmpInst::FCMP_ULT:r=un||x<y;break;case CmpInst::FCMP_ULE:r=un||x<=y;break;case CmpInst::FCMP_UNE:r=x!=y;break;case CmpInst::FCMP_TRUE:r=true;break;default:r=false;} return RV(r); }
  }
  return fromN(cmpN(p,toN(a,w),toN(b,w)));
}
static RV castop(unsigned op,const RV&v,const TyI*from,const TyI*to){
  unsigned a=from->w,b=to->w;
  if(!v.n&&a<=64&&b<=64) switch(op){
    case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: return cRV(v.c,b);
    case Instruction::ZExt: return v; case Instruction::SExt: return cRV(SignExtend64(v.c,a),b); default: break; }
  Node*n=toN(v,a);
  switch(op){
  case Instruction::Trunc: return fromN(mkExtract(n,0,b)); case Instruction::ZExt: return fromN(mkZExt(n,b)); case Instruction::SExt: return fromN(mkSExt(n,b));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if(a==b) return fromN(n); return fromN(a>b?mkExtract(n,0,b):mkZExt(n,b));
  case Instruction::FPTrunc: case Instruction::FPExt: return fromN(mkFCast(n,b));
  case Instruction::FPToUI: return fromN(mkFToI(n,b,false)); case Instruction::FPToSI: return fromN(mkFToI(n,b,true));
  case Instruction::UIToFP: return fromN(mkIToF(n,b,false)); case Instruction::SIToFP: return fromN(mkIToF(n,b,true));
  default: unsupported("cast"); }
}
static RV bitcastRV(const RV&v,const TyI*from,const TyI*to){
  if(from->k!=TyI::VEC&&to->k!=TyI::VEC) return v;
  Node*acc=nullptr; if(from->k==TyI::VEC){ for(size_t i=0;i<from->el.size();i++){ Node*e=toN((*v.a)[i],from->el[i]->w); acc=acc?mkConcat(e,acc):e; } } else acc=toN(v,from->w);
  if(to->k!=TyI::VEC) return fromN(acc);
  RV r; r.a=std::make_shared<std::vector<RV>>(); unsigned o=0; for(auto*e:to->el){ r.a->push_back(fromN(mkExtract(acc,o,e->w))); o+=e->w; } return r;
}
// ---------------------------------------------------------------- threads
static bool enabled(State&S,int t){ auto&T=S.th[t]; if(T.done) return false; if(T.joinOn>=0&&!S.th[T.joinOn].done) return false; if(T.mutexOn){ auto it=S.mutexes.find(T.mutexOn); if(it!=S.mutexes.end()&&it->second) return false; } return true; }
static void switchTo(State&S,int t){ S.cur=t; S.th[t].joinOn=-1; S.th[t].mutexOn=0; }
// current thread cannot continue: pick any enabled thread
static void pickNext(State&S){
  std::vector<int> en; for(int i=0;i<(int)S.th.size();i++) if(i!=S.cur||!S.th[i].done) if(enabled(S,i)&&i!=S.cur) en.push_back(i);
  if(en.empty()) errorPath(S,"deadlock","deadlock","no runnable thread");
  for(size_t i=1;i<en.size();i++){ auto o=cloneS(S); o->sched.push_back(en[i]); switchTo(*o,en[i]); gStack.push_back(std::move(o)); }
  S.sched.push_back(en[0]); switchTo(S,en[0]);
}
// schedule point; returns after possibly forking alternatives
static bool gTrc=getenv("SYMX_TRACE")!=nullptr;
static str locOf(State&S);
static void schedPoint(State&S){
  if(S.th.size()<2) return; auto&T=S.th[S.cur];
  if(gTrc){ Frame&f=T.st.back(); auto d=f.f->ins[f.pc].I->getDebugLoc(); S.strace.push_back("T"+std::to_string(S.cur)+" sp="+std::to_string(S.sched.size())+" skip="+std::to_string((int)T.skipSched)+" spN="+std::to_string(T.spN)+" "+locOf(S).substr(0,160)); }
  if(T.skipSched) return;
  if(T.spN>=2){ // busy waiting (same load, same value, nothing in between): other threads run first, at no preemption cost
    T.spN=0; std::vector<int> en; for(int i=0;i<(int)S.th.size();i++) if(i!=S.cur&&enabled(S,i)) en.push_back(i);
    if(!en.empty()){ T.skipSched=true; for(size_t i=1;i<en.size();i++){ auto o=cloneS(S); o->sched.push_back(en[i]); switchTo(*o,en[i]); gStack.push_back(std::move(o)); } S.sched.push_back(en[0]); switchTo(S,en[0]); return; } }
  if(S.preempt<oPre){ for(int i=0;i<(int)S.th.size();i++) if(i!=S.cur&&enabled(S,i)){ auto o=cloneS(S); o->preempt++; o->th[o->cur].skipSched=true; o->sched.push_back(i); switchTo(*o,i); gStack.push_back(std::move(o)); } }
  S.sched.push_back(S.cur); T.skipSched=true;
}
// race detection (vector clocks)
static void vcJoin(std::vector<uint32_t>&a,const std::vector<uint32_t>&b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) a[i]=std::max(a[i],b[i]); }
static uint32_t vcGet(const std::vector<uint32_t>&a,int i){ return i<(int)a.size()?a[i]:0; }
static void vcTick(State&S){ auto&v=S.th[S.cur].vc; if((int)v.size()<=S.cur) v.resize(S.cur+1,0); v[S.cur]++; }
static void syncOn(State&S,uint64_t a){ if(!oRace||!S.multi) return; auto&s=S.syncvc[a]; vcJoin(S.th[S.cur].vc,s); vcJoin(s,S.th[S.cur].vc); vcTick(S); }
static void raceCheck(State&S,const RV&p,unsigned n,bool wr){
  if(!oRace||!S.multi) return; uint64_t a=p.n?evalN(plain(p.n)).getZExtValue():p.c; Obj*o=findObj(S,a); if(!o||o->kind==OK_CONST) return; if(!S.shadow) S.shadow=std::make_shared<Shadow>();
  auto&vc=S.th[S.cur].vc; int me=S.cur;
  for(unsigned i=0;i<n;i++){ auto w=S.shadow->w.find(a+i); if(w!=S.shadow->w.end()&&w->second.first!=me&&vcGet(vc,w->second.first)<w->second.second) errorPath(S,"race","data-race","unsynchronised "+str(wr?"write":"read")+" races with an earlier write in object "+o->name+" offset "+std::to_string(a-o->base));
    if(wr){ auto r=S.shadow->r.find(a+i); if(r!=S.shadow->r.end()) for(auto&q:r->second) if(q.first!=me&&vcGet(vc,q.first)<q.second) errorPath(S,"race","data-race","unsynchronised write races with an earlier read in object "+o->name+" offset "+std::to_string(a-o->base)); S.shadow->w[a+i]={me,vcGet(vc,me)}; } else S.shadow->r[a+i][me]=vcGet(vc,me); }
}
// ---------------------------------------------------------------- exceptions
static str tiName(uint64_t a){ auto it=gGVAt.find(a); return it==gGVAt.end()?"":it->second->getName().str(); }
static const std::map<str,str>& stdBases(){ static std::map<str,str> m={{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt12system_error","_ZTISt13runtime_error"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"}}; return m; }
static bool tiDerives(uint64_t ti,uint64_t base,int d=0){
  if(ti==base) return true; if(d>8) return false; str n=tiName(ti),b=tiName(base); if(n==b&&!n.empty()) return true;
  auto it=stdBases().find(n); if(it!=stdBases().end()){ if(it->second==b) return true; str x=it->second; while(true){ auto j=stdBases().find(x); if(j==stdBases().end()) return false; x=j->second; if(x==b) return true; } }
  auto g=gGVAt.find(ti); if(g==gGVAt.end()||!g->second->hasInitializer()) return false; auto*C=cast<User>(g->second->getInitializer());
  for(unsigned i=2;i<C->getNumOperands();i++) if(C->getOperand(i)->getType()->isPointerTy()){ Value*o=C->getOperand(i); if(auto*gv=dyn_cast<GlobalVariable>(o->stripPointerCasts())) if(tiDerives(gvAddr(gv),base,d+1)) return true; }
  return false;
}
static void freeAllocas(State&S,Frame&f){ for(auto a:f.allocas) S.mem.erase(a); }
static void enterBB(State&S,Frame&f,unsigned nb){
  unsigned prev=f.bb; auto&ph=f.f->phis[nb]; if(!ph.empty()){ static std::vector<RV> tmp; tmp.clear(); for(auto&p:ph){ const Opnd*o=nullptr; for(auto&q:p.in) if(q.first==prev){ o=&q.second; break; } tmp.push_back(o->reg>=0?f.r[o->reg]:o->v); } for(size_t i=0;i<ph.size();i++) f.r[ph[i].dst]=std::move(tmp[i]); }
  f.bb=nb; f.pc=f.f->bbStart[nb];
}
static void unwind(State&S){
  auto&T=S.th[S.cur];
  while(true){ 
    Frame&f=T.st.back(); freeAllocas(S,f); T.st.pop_back(); // leaves the throwing frame
    if(T.st.empty()) { str n=tiName(T.excTI); Viol dummy; report(S,"exception","uncaught-exception","uncaught exception "+demangle(n),S.model); throw PathEnd(); }
    Frame&c=T.st.back(); PIns&p=c.f->ins[c.pc];
    if(p.op==Instruction::Invoke){ 
      // find landing pad
      unsigned ub=p.tgt[1]; PIns&lp=c.f->ins[c.f->bbStart[ub]]; auto*L=cast<LandingPadInst>(lp.I); bool take=L->isCleanup(); 
      for(unsigned i=0;i<L->getNumClauses()&&!take;i++) if(L->isCatch(i)){ Constant*cl=L->getClause(i); if(cl->isNullValue()) take=true; else if(tiDerives(T.excTI,constRV(cl).c)) take=true; } else take=true;
      if(take){ c.retDst=-1; enterBB(S,c,ub); return; } }
  }
}
static uint64_t tiSelector(uint64_t ti){ return (ti>>4)&0x7fffffff; }
static bool gThrew;
static void doThrow(State&S,uint64_t ptr,uint64_t ti){ auto&T=S.th[S.cur]; T.excPtr=ptr; T.excTI=ti;
  // the current instruction is the throwing call inside frame back(); check whether that call itself is an invoke
  Frame&c=T.st.back(); PIns&p=c.f->ins[c.pc]; if(p.op==Instruction::Invoke){ unsigned ub=p.tgt[1]; PIns&lp=c.f->ins[c.f->bbStart[ub]]; auto*L=cast<LandingPadInst>(lp.I); bool take=L->isCleanup(); for(unsigned i=0;i<L->getNumClauses()&&!take;i++) if(L->isCatch(i)){ Constant*cl=L->getClause(i); if(cl->isNullValue()||tiDerives(ti,constRV(cl).c)) take=true; } else take=true; if(take){ enterBB(S,c,ub); gThrew=true; return; } }
  unwind(S); gThrew=true; }
#include "calls.inc"

// ---------------------------------------------------------------- main step loop
static void finishRet(State&S,bool has,RV v){
  auto&T=S.th[S.cur]; freeAllocas(S,T.st.back()); T.st.pop_back();
  if(T.st.empty()){ T.done=true; if(S.cur==0){ bool all=true; for(auto&t:S.th) all&=t.done; (void)all; gPathsDone++; if(!gInCtor) sample(S); throw PathEnd(); }
    if(oRace){ auto&s=S.syncvc[0xF0000000u+S.cur]; vcJoin(s,T.vc); }
    pickNext(S); return; }
  Frame&c=T.st.back(); PIns&p=c.f->ins[c.pc]; if(has&&p.dst>=0) c.r[p.dst]=std::move(v);
  if(p.op==Instruction::Invoke) enterBB(S,c,p.tgt[0]); else c.pc++;
}
static void runState(State&S){
  useModel(S); gRun=&S;
  while(true){
    Thread&T=S.th[S.cur]; Frame&f=T.st.back(); PIns&p=f.f->ins[f.pc];
    S.steps++; gSteps++;
    if(S.steps>S.stepLimit) errorPath(S,"nontermination","non-termination","step limit "+std::to_string(S.stepLimit)+" exceeded on one path");
    if((gSteps&0xfff)==0&&now()-gStart>oTime) { throw PathEnd(); }
    auto V=[&](unsigned i)->const RV&{ const Opnd&o=p.o[i]; return o.reg>=0?f.r[o.reg]:o.v; };
    if(p.atomic&&!p.nosched&&S.th.size()>1){ int c=S.cur; schedPoint(S); if(S.cur!=c) continue; }
    switch(p.op){
    case Instruction::Ret:{ if(p.o.empty()) finishRet(S,false,RV()); else { RV v=V(0); finishRet(S,true,std::move(v)); } continue; }
    case Instruction::Br:{ if(p.o.empty()){ enterBB(S,f,p.tgt[0]); continue; }
      const RV&c=V(0); bool t; if(!c.n) t=c.c&1; else { unsigned tb=p.tgt[0],fb=p.tgt[1]; bool v0=evalB(S,plain(c.n)); (void)v0; Node*cn=plain(c.n);
        t=branch(S,cn,[&](State&o){ Frame&of=o.th[o.cur].st.back(); enterBB(o,of,v0?fb:tb); }); }
      enterBB(S,f,t?p.tgt[0]:p.tgt[1]); continue; }
    case Instruction::Switch:{ const RV&c=V(0); unsigned w=p.ot->w; if(!c.n){ unsigned t=p.tgt[0]; for(size_t i=0;i<p.cases.size();i++) if(p.cases[i].getZExtValue()==c.c){ t=p.tgt[i+1]; break; } enterBB(S,f,t); continue; }
      Node*n=plain(c.n); APInt v=evalN(n); int mi=-1; for(size_t i=0;i<p.cases.size();i++) if(p.cases[i]==v) mi=i;
      // group by target
      std::map<unsigned,Node*> by; Node*none=mkTrue(); for(size_t i=0;i<p.cases.size();i++){ Node*e=mkCmp(EQ,n,mkC(p.cases[i])); auto&b=by[p.tgt[i+1]]; b=b?mkOr(b,e):e; none=mkAnd(none,mkNot(e)); }
      auto&d=by[p.tgt[0]]; d=d?mkOr(d,none):none; unsigned myT=mi<0?p.tgt[0]:p.tgt[mi+1]; 
      for(auto&b:by) if(b.first!=myT){ ModelV m; Res r=query(S,b.second,m); if(r==SAT){ auto o=cloneS(S); o->model=std::move(m); addC(*o,b.second); enterBB(*o,o->th[o->cur].st.back(),b.first); gStack.push_back(std::move(o)); } }
      (void)w; addC(S,by[myT]); enterBB(S,f,myT); continue; }
    case Instruction::Unreachable: errorPath(S,"ub","unreachable","reached code the compiler assumed unreachable");
    case Instruction::Call: case Instruction::Invoke: { if(doCall(S,f,p)) continue; /* done inline */ if(p.op==Instruction::Invoke){ enterBB(S,S.th[S.cur].st.back(),p.tgt[0]); continue; } break; }
    case Instruction::LandingPad:{ auto*L=cast<LandingPadInst>(p.I); uint64_t sel=0; for(unsigned i=0;i<L->getNumClauses();i++) if(L->isCatch(i)){ Constant*cl=L->getClause(i); if(cl->isNullValue()){ sel=1; break; } uint64_t a=constRV(cl).c; if(tiDerives(T.excTI,a)){ sel=tiSelector(a); break; } }
      RV r; r.a=std::make_shared<std::vector<RV>>(); r.a->push_back(RV(T.excPtr)); r.a->push_back(RV(sel)); f.r[p.dst]=r; break; }
    case Instruction::Resume:{ unwind(S); continue; }
    case Instruction::Alloca:{ uint64_t n=conc(S,V(0),p.ot->w)*p.imm; uint64_t a=allocObj(S,n,OK_STACK,p.I->getName().empty()?"stack":p.I->getName().str(),true,p.pred); f.allocas.push_back(a); f.r[p.dst]=RV(a); break; }
    case Instruction::Load:{ if(p.atomic) { RV ptr=V(0); syncOn(S,ptr.n?evalN(plain(ptr.n)).getZExtValue():ptr.c); } else raceCheck(S,V(0),p.t->sz,false); RV r=loadT(S,V(0),p.t); if(p.atomic){ uint64_t ad=V(0).n?0:V(0).c; if(T.spIns==&p&&!V(0).n&&T.spAddr==ad&&T.spVal==(r.n?0:r.c)&&T.spNode==r.n) T.spN++; else { T.spN=0; T.spIns=&p; T.spAddr=ad; T.spVal=r.n?0:r.c; T.spNode=r.n; } } f.r[p.dst]=std::move(r); break; }
    case Instruction::Store:{ if(p.atomic){ T.spIns=nullptr; T.spN=0; RV ptr=V(1); syncOn(S,ptr.n?evalN(plain(ptr.n)).getZExtValue():ptr.c); } else raceCheck(S,V(1),p.ot->sz,true); storeT(S,V(1),V(0),p.ot); break; }
    case Instruction::AtomicRMW:{ T.spIns=nullptr; T.spN=0; RV ptr=V(0); if(ptr.n) ptr=RV(conc(S,ptr,64)); syncOn(S,ptr.c); RV old=loadT(S,ptr,p.ot),v=V(1),nv; unsigned w=p.ot->w;
      switch(p.pred){ case AtomicRMWInst::Xchg: nv=v; break; case AtomicRMWInst::Add: nv=binop(S,Instruction::Add,old,v,w); break; case AtomicRMWInst::Sub: nv=binop(S,Instruction::Sub,old,v,w); break; case AtomicRMWInst::And: nv=binop(S,Instruction::And,old,v,w); break; case AtomicRMWInst::Or: nv=binop(S,Instruction::Or,old,v,w); break; case AtomicRMWInst::Xor: nv=binop(S,Instruction::Xor,old,v,w); break; case AtomicRMWInst::UMax: nv=fromN(mkITE(cmpN(CmpInst::ICMP_UGT,toN(old,w),toN(v,w)),toN(old,w),toN(v,w))); break; case AtomicRMWInst::FAdd: nv=fbin(Instruction::FAdd,old,v,w); break; default: unsupported("atomicrmw"); }
      storeT(S,ptr,nv,p.ot); f.r[p.dst]=old; break; }
    case Instruction::AtomicCmpXchg:{ T.spIns=nullptr; T.spN=0; RV ptr=V(0); if(ptr.n) ptr=RV(conc(S,ptr,64)); syncOn(S,ptr.c); RV old=loadT(S,ptr,p.ot); unsigned w=p.ot->w; RV eq=cmpop(CmpInst::ICMP_EQ,old,V(1),w); RV nv; if(eq.n) nv=fromN(mkITE(eq.n,toN(V(2),w),toN(old,w))); else nv=eq.c?V(2):old; storeT(S,ptr,nv,p.ot); RV r; r.a=std::make_shared<std::vector<RV>>(); r.a->push_back(old); r.a->push_back(eq); f.r[p.dst]=r; break; }
    case Instruction::Fence: break;
    case Instruction::GetElementPtr:{ const RV&b=V(0); uint64_t off=p.imm; Node*sy=nullptr; if(b.n) sy=plain(b.n); else off+=b.c;
      for(size_t i=0;i<p.gep.size();i++){ const RV&x=V(p.gep[i].first); unsigned w=p.cases[i].getZExtValue(); if(!x.n) off+=(uint64_t)SignExtend64(x.c,w)*p.gep[i].second; else { Node*e=mkSExt(plain(x.n),64); e=mkBin(MUL,e,mkC(64,p.gep[i].second)); sy=sy?mkBin(ADD,sy,e):e; } }
      f.r[p.dst]=sy?fromN(mkBin(ADD,sy,mkC(64,off))):RV(off); break; }
    case Instruction::ICmp: case Instruction::FCmp:{ if(p.ot->k==TyI::VEC){ RV r; r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<p.ot->el.size();i++) r.a->push_back(cmpop(p.pred,(*V(0).a)[i],(*V(1).a)[i],p.ot->el[i]->w)); f.r[p.dst]=r; } else { RV r=cmpop(p.pred,V(0),V(1),p.ot->w); f.r[p.dst]=std::move(r);} break; }
    case Instruction::Select:{ const RV&c=V(0); if(p.ot->k==TyI::VEC){ RV r; r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<p.t->el.size();i++){ const RV&q=(*c.a)[i]; unsigned w=p.t->el[i]->w; if(!q.n) r.a->push_back(q.c&1?(*V(1).a)[i]:(*V(2).a)[i]); else r.a->push_back(fromN(mkITE(plain(q.n),toN((*V(1).a)[i],w),toN((*V(2).a)[i],w)))); } f.r[p.dst]=r; break; }
      if(!c.n){ RV r=(c.c&1)?V(1):V(2); f.r[p.dst]=std::move(r); break; }
      if(p.t->k==TyI::STR||p.t->k==TyI::VEC){ bool v0=branch(S,plain(c.n),[](State&){}); RV r=v0?V(1):V(2); f.r[p.dst]=r; break; }
      RV r=fromN(mkITE(plain(c.n),toN(V(1),p.t->w),toN(V(2),p.t->w))); f.r[p.dst]=std::move(r); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr:
      if(p.t->k==TyI::VEC){ RV r; r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<p.t->el.size();i++) r.a->push_back(castop(p.op,(*V(0).a)[i],p.ot->el[i],p.t->el[i])); f.r[p.dst]=r; } else { RV r=castop(p.op,V(0),p.ot,p.t); f.r[p.dst]=std::move(r); } break;
    case Instruction::BitCast:{ RV r=bitcastRV(V(0),p.ot,p.t); f.r[p.dst]=r; break; }
    case Instruction::Freeze:{ RV r=V(0); f.r[p.dst]=r; break; }
    case Instruction::FNeg:{ auto neg=[&](const RV&x,unsigned w)->RV{ if(!x.n&&w<=64) return RV(x.c^(1ull<<(w-1))); return fromN(mkFNeg(toN(x,w))); }; if(p.t->k==TyI::VEC){ RV r; r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<p.t->el.size();i++) r.a->push_back(neg((*V(0).a)[i],p.t->el[i]->w)); f.r[p.dst]=r; } else { RV r=neg(V(0),p.t->w); f.r[p.dst]=r; } break; }
    case Instruction::ExtractValue:{ RV r=V(0); for(unsigned ix:cast<ExtractValueInst>(p.I)->indices()){ RV q=(*r.a)[ix]; r=q; } f.r[p.dst]=r; break; }
    case Instruction::InsertValue:{ RV base=V(0); std::function<RV(const RV&,ArrayRef<unsigned>)> ins=[&](const RV&b,ArrayRef<unsigned> ix)->RV{ if(ix.empty()) return V(1); RV r; r.a=std::make_shared<std::vector<RV>>(*b.a); (*r.a)[ix[0]]=ins((*b.a)[ix[0]],ix.drop_front()); return r; }; RV r=ins(base,cast<InsertValueInst>(p.I)->getIndices()); f.r[p.dst]=r; break; }
    case Instruction::ExtractElement:{ uint64_t ix=conc(S,V(1),64); RV r=(*V(0).a)[ix]; f.r[p.dst]=r; break; }
    case Instruction::InsertElement:{ uint64_t ix=conc(S,V(2),64); RV r; r.a=std::make_shared<std::vector<RV>>(*V(0).a); (*r.a)[ix]=V(1); f.r[p.dst]=r; break; }
    case Instruction::ShuffleVector:{ auto*sv=cast<ShuffleVectorInst>(p.I); RV r; r.a=std::make_shared<std::vector<RV>>(); int n=V(0).a->size(); for(int m:sv->getShuffleMask()) r.a->push_back(m<0?zeroRV(p.t->el[0]):m<n?(*V(0).a)[m]:(*V(1).a)[m-n]); f.r[p.dst]=r; break; }
    default: if(Instruction::isBinaryOp(p.op)){ if(p.t->k==TyI::VEC){ RV r; r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<p.t->el.size();i++) r.a->push_back(binop(S,p.op,(*V(0).a)[i],(*V(1).a)[i],p.t->el[i]->w)); f.r[p.dst]=r; } else { RV r=binop(S,p.op,V(0),V(1),p.t->w); f.r[p.dst]=std::move(r); } break; }
      unsupported(str("instruction ")+p.I->getOpcodeName());
    }
    if(p.atomic) T.skipSched=false;
    f.pc++;
  }
}
static str jesc(const str&s){ str r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static void writeOut(double wall){
  std::ostringstream o; o<<"{\n\"paths\":"<<gPaths<<",\"paths_completed\":"<<gPathsDone<<",\"paths_assumed_away\":"<<gKilled<<",\"steps\":"<<gSteps<<",\"queries\":"<<gQueries<<",\"sat\":"<<gSat<<",\"unsat\":"<<gUnsat<<",\"unknown\":"<<gUnknown<<",\"cache_hits\":"<<gCache<<",\"forks\":"<<gForks<<",\"asserts\":"<<gAsserts<<",\"asserts_proved_by_solver\":"<<gAssertProved<<",\"asserts_folded\":"<<gAssertTriv<<",\"solver_s\":"<<gSolver<<",\"wall_s\":"<<wall<<",\"exhausted\":"<<(gExhausted?"true":"false")<<",\"symbols\":"<<gSyms.size()<<",\"havocs\":"<<gHavocs<<",\"bands\":"<<gFxBands<<",\n\"functions\":[";
  bool first=true; std::set<str> fns; for(auto&p:gFn) if(p.second&&p.second->calls&&p.second->repoFile.find("/repo/")!=str::npos) { str d=demangle(p.first->getName().str()); if(d.size()>160) d=d.substr(0,160)+"..."; str rf=p.second->repoFile; rf=rf.substr(rf.find("/repo/")); fns.insert(rf+": "+d); }
  for(auto&p:gFn) if(p.second&&p.second->calls) for(auto&B:*p.first) for(auto&I:B) for(auto*l=I.getDebugLoc().get();l;l=l->getInlinedAt()) if(auto*sp=l->getScope()->getSubprogram()){ str rf=(sp->getFilename().starts_with("/")?str():sp->getDirectory().str()+"/")+sp->getFilename().str(); auto at=rf.find("/repo/"); if(at==str::npos) continue; str d=sp->getLinkageName().empty()?sp->getName().str():demangle(sp->getLinkageName().str()); if(d.size()>160) d=d.substr(0,160)+"..."; fns.insert(rf.substr(at)+": "+d+(l==I.getDebugLoc().get()&&sp==p.first->getSubprogram()?"":" [inlined]")); }
  for(auto&s:fns){ o<<(first?"":",")<<"\n\""<<jesc(s)<<"\""; first=false; }
  o<<"],\n\"reached\":{"; first=true; for(auto&p:gReach){ o<<(first?"":",")<<"\""<<jesc(p.first)<<"\":"<<p.second; first=false; }
  o<<"},\n\"assert_labels\":{"; first=true; for(auto&p:gAssertLabels){ o<<(first?"":",")<<"\""<<jesc(p.first)<<"\":"<<p.second; first=false; }
  o<<"},\n\"unsupported\":{"; first=true; for(auto&p:gUnsup){ o<<(first?"":",")<<"\""<<jesc(p.first)<<"\":"<<p.second; first=false; }
  o<<"},\n\"violations\":["; first=true; for(auto&v:gViol){ o<<(first?"":",")<<"\n{\"kind\":\""<<v.kind<<"\",\"label\":\""<<jesc(v.label)<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"loc\":\""<<jesc(v.loc)<<"\",\"inputs\":["; for(size_t i=0;i<v.vals.size();i++) o<<(i?",":"")<<"[\""<<jesc(v.names[i])<<"\",\""<<v.vals[i]<<"\"]"; o<<"],\"sched\":["; for(size_t i=0;i<v.sched.size();i++) o<<(i?",":"")<<(int)v.sched[i]; o<<"]}"; first=false; }
  o<<"],\n\"samples\":["; first=true; for(auto&v:gSamples){ o<<(first?"":",")<<"\n{\"inputs\":["; for(size_t i=0;i<v.vals.size();i++) o<<(i?",":"")<<"[\""<<jesc(v.names[i])<<"\",\""<<v.vals[i]<<"\"]"; o<<"],\"sched\":["; for(size_t i=0;i<v.sched.size();i++) o<<(i?",":"")<<(int)v.sched[i]; o<<"]}"; first=false; }
  o<<"]}\n"; if(oOut.empty()) fputs(o.str().c_str(),stdout); else { std::ofstream(oOut)<<o.str(); }
}
#include "instrument.inc"
int main(int argc,char**argv){
  str file,inst; 
  for(int i=1;i<argc;i++){ str a=argv[i]; auto nx=[&]{ return str(argv[++i]); };
    if(a=="--time") oTime=atof(nx().c_str()); else if(a=="--qtimeout") oQTimeout=atof(nx().c_str()); else if(a=="--pre") oPre=atoi(nx().c_str()); else if(a=="--steps") oStep=strtoull(nx().c_str(),0,10); else if(a=="--out") oOut=nx(); else if(a=="--entry") oEntry=nx(); else if(a=="--samples") oSamples=atoi(nx().c_str()); else if(a=="--race") oRace=true; else if(a=="--fxround") gFxRound=true; else if(a=="--tab"){ gTabBits=atoi(nx().c_str()); gTabOn=gTabBits>0; } else if(a=="--opaque-tostring") oOpaque=true; else if(a=="-v") oVerbose=true; else if(a=="--ite") oITE=atoi(nx().c_str()); else if(a=="--search") oSearch=nx(); else if(a=="--param") oParams.push_back(atol(nx().c_str())); else if(a=="--maxviol") oMaxViol=atoi(nx().c_str()); else if(a=="--mem") oMaxMem=atoi(nx().c_str()); else if(a=="--instrument") inst=nx(); else file=a; }
  { struct rlimit rl; rl.rlim_cur=rl.rlim_max=oMaxMem<<30; setrlimit(RLIMIT_AS,&rl); rl.rlim_cur=rl.rlim_max=1ull<<30; setrlimit(RLIMIT_STACK,&rl); }
  SMDiagnostic err; M=parseIRFile(file,err,CTX); if(!M){ err.print("symx",errs()); return 2; } DL=&M->getDataLayout();
  if(!inst.empty()) return instrument(inst);
  gStart=now(); initZ3(); if(gFxRound){ gFxProve=fxProve; gFxSample=fxSample; }
  auto S0=std::make_unique<State>(); gInit=S0.get(); S0->id=0; S0->stepLimit=oStep;
  // entry: a synthetic list of functions: global ctors, then entry
  Function*E=M->getFunction(oEntry); if(!E){ fprintf(stderr,"no entry %s\n",oEntry.c_str()); return 2; }
  try {
    Thread t; t.st.push_back(mkFrame(compile(E))); S0->th.push_back(t); S0->th[0].vc={1};
    // global constructors run before, as frames on top of the entry frame (last pushed runs first)
    if(auto*GC=M->getNamedGlobal("llvm.global_ctors")) if(GC->hasInitializer()) if(auto*A=dyn_cast<ConstantArray>(GC->getInitializer())){ std::vector<std::pair<uint64_t,Function*>> fs; for(auto&o:A->operands()){ auto*c=cast<ConstantStruct>(o); auto*F=dyn_cast<Function>(c->getOperand(1)->stripPointerCasts()); if(F) fs.push_back({cast<ConstantInt>(c->getOperand(0))->getZExtValue(),F}); } std::stable_sort(fs.begin(),fs.end(),[](auto&a,auto&b){return a.first<b.first;}); gCtors.clear(); for(auto&f:fs) gCtors.push_back(f.second); }
  } catch(Unsupported&u){ gUnsup["init: "+u.why]++; writeOut(0); fprintf(stderr,"unsupported at init: %s\n",u.why.c_str()); return 0; }
  // run ctors on a dedicated thread-0 stack one after another
  { auto entry=S0->th[0].st; bool ok=true; 
    for(auto*F:gCtors){ S0->th[0].st.clear(); S0->th[0].st.push_back(mkFrame(compile(F))); gInCtor=true; try{ runState(*S0); } catch(PathEnd&){ if(!S0->th[0].done) ok=false; } catch(Unsupported&u){ gUnsup["global ctor "+F->getName().str()+": "+u.why]++; if(oVerbose) fprintf(stderr,"ctor unsupported %s at %s\n",u.why.c_str(),locOf(*S0).c_str()); } S0->th[0].done=false; }
    (void)ok; gInCtor=false; gPathsDone=0; S0->th[0].st=entry; S0->steps=0; gSteps=0; if(gStack.size()) { fprintf(stderr,"fork in ctor\n"); gStack.clear(); } }
  // gInit must survive as template for lazily added globals
  auto init=std::make_unique<State>(*S0); gInit=init.get(); gStack.push_back(std::move(S0));
  uint64_t lcg=88172645463325252ull;
  bool timeUp=false;
  while(!gStack.empty()){
    if(now()-gStart>oTime){ timeUp=true; break; }
    if(gViol.size()>=oMaxViol*4||gViolCount.size()>=oMaxViol) break;
    size_t ix=gStack.size()-1; if(oSearch=="bfs") ix=0; else if(oSearch=="rand"){ lcg^=lcg<<13; lcg^=lcg>>7; lcg^=lcg<<17; ix=lcg%gStack.size(); } else if(oSearch=="mix"&&(gPaths&1)){ lcg^=lcg<<13; lcg^=lcg>>7; lcg^=lcg<<17; ix=lcg%gStack.size(); }
    SP s=std::move(gStack[ix]); if(ix+1!=gStack.size()) gStack[ix]=std::move(gStack.back()); gStack.pop_back(); gPaths++;
    try { runState(*s); } catch(PathEnd&){ if(now()-gStart>oTime) timeUp=true; } catch(Unsupported&u){ gUnsup[u.why]++; if(oVerbose) fprintf(stderr,"UNSUPPORTED %s at %s\n",u.why.c_str(),locOf(*s).c_str()); } catch(std::bad_alloc&){ gUnsup["out of memory"]++; break; }
    gRun=nullptr; s.reset();
  }
  gExhausted=gStack.empty()&&!timeUp&&gUnsup.empty()&&gUnknown==0;
  writeOut(now()-gStart);
  fflush(stdout); _exit(0);
}
