// calls: intrinsics, harness API, runtime functions
typedef std::function<int(State&,Frame&,PIns&,std::vector<RV>&,RV&)> Handler; // 0: result ready, 1: control already transferred
static std::unordered_map<str,Handler> gH; static std::unordered_map<Function*,Handler*> gHC;
static std::map<std::tuple<size_t,str,unsigned>,Node*> gInputSym;
static Node* inputSym(State&S,const str&name,unsigned w){ auto&n=gInputSym[{S.inputs.size(),name,w}]; if(!n) n=mkSym(name,w,false); S.inputs.push_back(n); return n; }
static void setModel(State&S,Node*n,const APInt&v){ if(S.model.size()<=(size_t)n->aux) S.model.resize(n->aux+1,APInt(1,0)); S.model[n->aux]=v; useModel(S); }
static unsigned bitlen(uint64_t v){ unsigned b=0; while(v){ b++; v>>=1; } return b?b:1; }
static void complete(State&S,Frame&f,PIns&p,RV v){ if(p.dst>=0) f.r[p.dst]=std::move(v); if(p.op==Instruction::Invoke) enterBB(S,f,p.tgt[0]); else f.pc++; }
static void doAssert(State&S,const RV&c,const str&label){
  gAsserts++; gAssertLabels[label]++;
  if(!c.n){ gAssertTriv++; if(!(c.c&1)){ errorPath(S,"assert",label,"assertion violated"); } return; }
  Node*n=plain(c.n); Node*neg=mkNot(n);
  if(evalB(S,neg)){ report(S,"assert",label,"assertion violated",S.model); assume(S,n); return; }
  ModelV m; Res r=query(S,neg,m); if(r==SAT){ ModelV keep=S.model; report(S,"assert",label,"assertion violated",m); addC(S,n); useModel(S); } else if(r==UNSAT) gAssertProved++; else { gUnsup["assert undecided (solver timeout): "+label]++; }
}
static double cd(const RV&r){ double d; memcpy(&d,&r.c,8); return d; } static RV rd(double d){ RV r; memcpy(&r.c,&d,8); return r; }
static float cf(const RV&r){ float d; uint32_t q=r.c; memcpy(&d,&q,4); return d; } static RV rf(float d){ uint32_t q; memcpy(&q,&d,4); return RV(q); }
static RV fround(const RV&a,unsigned w,int mode){ return fromN(mkFRound(toN(a,w),mode)); }
static RV fminmax(const RV&a,const RV&b,unsigned w,bool mn){ Node*x=toN(a,w),*y=toN(b,w); Node*c=mn?mkFCmpBase(FLT,y,x):mkFCmpBase(FLT,x,y); Node*xn=mkFCmpBase(FUNO,x,x); return fromN(mkITE(mkOr(c,xn),y,x)); }
static void math1(const char*name,double(*fn)(double)){ str n=name; gH[n]=[fn,n](State&S,Frame&,PIns&,std::vector<RV>&a,RV&r){ if(a[0].n){ r=fromN(havoc(64,n.c_str())); return 0; } r=rd(fn(cd(a[0]))); return 0; }; gH[n+"f"]=[fn,n](State&S,Frame&,PIns&,std::vector<RV>&a,RV&r){ if(a[0].n){ r=fromN(havoc(32,n.c_str())); return 0; } r=rf((float)fn(cf(a[0]))); return 0; }; }
static void doFree(State&S,const RV&p0){ uint64_t p=conc(S,p0,64); if(!p) return; auto it=S.mem.find(p); if(it==S.mem.end()||it->second->kind!=OK_HEAP) errorPath(S,"memory","memory-safety","invalid or double free: "+descAddr(S,p)); S.mem.erase(it); S.heapLive--; }
static uint64_t doAlloc(State&S,const RV&sz,Frame&f,uint64_t al=16){ uint64_t n=conc(S,sz,64); if(n>gMaxAlloc){ if(n>(1ull<<40)) errorPath(S,"memory","huge-allocation","allocation of "+std::to_string(n)+" bytes"); unsupported("huge allocation"); } str nm="heap@"+f.f->F->getName().str().substr(0,60); S.heapLive++; return allocObj(S,n,OK_HEAP,nm,true,al); }
static void initH(){
  auto H=[&](const char*n,Handler h){ gH[n]=h; };
#define HH(n) gH[n]=[](State&S,Frame&f,PIns&p,std::vector<RV>&a,RV&r)->int
  HH("symx_u_"){ str nm=readStr(S,conc(S,a[0],64)); uint64_t lo=conc(S,a[1],64),hi=conc(S,a[2],64); if(lo>hi){ gKilled++; throw PathEnd(); } unsigned w=bitlen(hi-lo); Node*n=inputSym(S,nm,w); setModel(S,n,APInt(w,0)); Node*c=mkCmp(ULE,n,mkC(w,hi-lo)); addC(S,c); r=fromN(mkBin(ADD,mkZExt(n,64),mkC(64,lo))); return 0; };
  HH("symx_bits_"){ str nm=readStr(S,conc(S,a[0],64)); unsigned w=conc(S,a[1],32); Node*n=inputSym(S,nm,w); setModel(S,n,APInt(w,0)); r=fromN(mkZExt(n,64)); return 0; };
  HH("symx_fx_"){ str nm=readStr(S,conc(S,a[0],64)); int64_t lo=conc(S,a[1],64),hi=conc(S,a[2],64); int e=(int32_t)conc(S,a[3],32); unsigned w=std::max(APInt(64,lo,true).getSignificantBits(),APInt(64,hi,true).getSignificantBits()); Node*n=inputSym(S,nm,w); APInt L(w,lo,true),Hh(w,hi,true); setModel(S,n,(lo<=0&&hi>=0)?APInt(w,0):L); if(L!=APInt::getSignedMinValue(w)) addC(S,mkCmp(SLE,mkC(L),n)); if(Hh!=APInt::getSignedMaxValue(w)) addC(S,mkCmp(SLE,n,mkC(Hh))); if(gTabOn){ unsigned W=p.t->w; r=fromN(mkFBin(FMUL,mkIToF(mkSExt(n,std::max(w,W)),W,true),mkC(scalbn(APFloat(sem(W),1),e,APFloat::rmNearestTiesToEven).bitcastToAPInt()))); return 0; } r=fromN(mkFXraw(p.t->w,n,e,L,Hh,0,0)); return 0; };
  gH["symx_fxf_"]=gH["symx_fxh_"]=gH["symx_fx_"];
  HH("symx_choose_"){ str nm=readStr(S,conc(S,a[0],64)); uint64_t n=conc(S,a[1],64); if(n==0){ gKilled++; throw PathEnd(); } unsigned w=bitlen(n-1); Node*s=inputSym(S,nm,w); 
    for(uint64_t v=n-1;v>=1;v--){ auto o=cloneS(S); setModel(*o,s,APInt(w,v)); addC(*o,mkCmp(EQ,s,mkC(w,v))); complete(*o,o->th[o->cur].st.back(),p,RV(v)); gStack.push_back(std::move(o)); }
    setModel(S,s,APInt(w,0)); addC(S,mkCmp(EQ,s,mkC(w,0))); r=RV(0); return 0; };
  HH("symx_conc_"){ r=RV(conc(S,a[0],64)); return 0; };
  HH("symx_assume_"){ if(!a[0].n){ if(!(a[0].c&1)){ gKilled++; throw PathEnd(); } return 0; } assume(S,plain(a[0].n)); return 0; };
  HH("symx_assert_"){ doAssert(S,a[0],readStr(S,conc(S,a[1],64))); return 0; };
  HH("symx_reach_"){ gReach[readStr(S,conc(S,a[0],64))]++; return 0; };
  HH("symx_param_"){ uint64_t i=conc(S,a[0],64); r=RV(i<oParams.size()?oParams[i]:0); return 0; };
  HH("symx_steps_"){ S.stepLimit=S.steps+conc(S,a[0],64); return 0; };
  HH("symx_native_"){ r=RV(0); return 0; };
  HH("symx_dump_"){ str nm=readStr(S,conc(S,a[0],64)); fprintf(stderr,"DUMP %s: ",nm.c_str()); if(a[1].n){ SmallString<40> s; evalN(plain(a[1].n)).toString(s,10,true); fprintf(stderr,"symbolic node %u op %d, model value %s\n",a[1].n->id,a[1].n->op,s.c_str()); } else fprintf(stderr,"%lld\n",(long long)a[1].c); return 0; };
  HH("symx_heap_live_"){ r=RV(S.heapLive); return 0; };
  HH("symx_tid_"){ r=RV(S.cur); return 0; };
  HH("symx_issym_"){ r=RV(a[0].n?1:0); return 0; };
  HH("symx_spawn_"){ uint64_t fn=conc(S,a[0],64); auto it=gFnAt.find(fn); if(it==gFnAt.end()) unsupported("spawn target"); Thread t; Frame fr=mkFrame(compile(it->second)); fr.r[fr.f->argReg[0]]=a[1]; t.st.push_back(fr); S.multi=true; t.vc=S.th[S.cur].vc; vcTick(S); int id=S.th.size(); t.vc.resize(id+1,0); t.vc[id]=1; S.th.push_back(t); r=RV(id); 
    complete(S,S.th[S.cur].st.back(),p,r); return 1; };
  HH("symx_join_"){ int t=conc(S,a[0],32); if(!S.th[t].done){ S.th[S.cur].joinOn=t; pickNext(S); return 1; } if(oRace) vcJoin(S.th[S.cur].vc,S.th[t].vc); return 0; };
  // one floating-point operation rounded to nearest even with p significant bits and unbounded exponent (reduced-precision instantiations)
  HH("symx_fop_"){ int op=conc(S,a[0],32),pr=conc(S,a[3],32); if(gTabOn){ Node*z=mkFBin(op==0?FADD:op==1?FSUB:FMUL,plain(toN(a[1],64)),plain(toN(a[2],64))); Node t; t.op=FROUNDP; t.w=64; t.k[0]=z; t.nk=1; t.aux=pr; if(z->isConst()){ const APInt*v[1]={&z->c}; z=mkC(evalOp(&t,v)); } else z=intern(t); r=fromN(z); return 0; } Node*x=asFX(toN(a[1],64)),*y=asFX(toN(a[2],64)); if(!x||!y||!gFxRound) unsupported("symx_fop_ operand"); 
    struct G{ G(int p){ gPrecOv=p; } ~G(){ gPrecOv=0; } }; Node*z; { G g(pr); z=op==0?fxAddSub(x,y,false):op==1?fxAddSub(x,y,true):fxMul(x,y); } if(!z||!fxExact(z)) unsupported("symx_fop_ range"); if(z->k[0]->isConst()) z=fxToPlain(z); r=fromN(z); return 0; };
  HH("symx_yield_"){ if(S.th.size()<2) return 0; auto&T=S.th[S.cur]; bool other=false; for(int i=0;i<(int)S.th.size();i++) if(i!=S.cur&&enabled(S,i)) other=true; if(!other){ T.spin++; if(T.spin>2000) errorPath(S,"deadlock","livelock","thread spins forever"); return 0; } 
    if(T.yielded){ T.yielded=false; return 0; } T.yielded=true; pickNext(S); return 1; };
  auto lock=[](State&S,Frame&f,PIns&p,std::vector<RV>&a,RV&r)->int{ uint64_t m=conc(S,a[0],64); { int c0=S.cur; schedPoint(S); if(S.cur!=c0) return 1; } int&x=S.mutexes[m]; if(x){ S.th[S.cur].mutexOn=m; pickNext(S); return 1; } x=S.cur+1; S.th[S.cur].skipSched=false; syncOn(S,m); r=RV(0); return 0; };
  auto unlock=[](State&S,Frame&f,PIns&p,std::vector<RV>&a,RV&r)->int{ uint64_t m=conc(S,a[0],64); syncOn(S,m); S.mutexes[m]=0; r=RV(0); return 0; };
  auto trylock=[](State&S,Frame&f,PIns&p,std::vector<RV>&a,RV&r)->int{ uint64_t m=conc(S,a[0],64); { int c0=S.cur; schedPoint(S); if(S.cur!=c0) return 1; } S.th[S.cur].skipSched=false; int&x=S.mutexes[m]; if(x){ r=RV(0); return 0; } x=S.cur+1; syncOn(S,m); r=RV(1); return 0; };
  gH["symx_lock_"]=lock; gH["symx_unlock_"]=unlock; gH["symx_trylock_"]=trylock; gH["pthread_mutex_lock"]=lock; gH["pthread_mutex_unlock"]=unlock;
  gH["sched_yield"]=gH["symx_yield_"];
  HH("symx_sched_"){ { int c0=S.cur; schedPoint(S); if(S.cur!=c0) return 1; } S.th[S.cur].skipSched=false; return 0; };
  // messages of exceptions: std::to_string of a symbolic number gives an opaque (empty) text (opt-in; only for harnesses that never look at messages)
  if(oOpaque) for(auto n:{"_ZNSt7__cxx119to_stringEm","_ZNSt7__cxx119to_stringEj","_ZNSt7__cxx119to_stringEi","_ZNSt7__cxx119to_stringEl"}) HH(n){ uint64_t d=conc(S,a[0],64); str t=a[1].n?"":std::to_string(a[1].c).substr(0,15); Obj*o=findObj(S,d); if(!o||d+32>o->base+o->size) unsupported("to_string target"); o=own(S,o); uint64_t of=d-o->base; writeB(o,of,8,RV(d+16)); writeB(o,of+8,8,RV(t.size())); for(size_t i=0;i<=t.size();i++) writeB(o,of+16+i,1,RV(i<t.size()?(uint8_t)t[i]:0)); return 0; };
  // allocation
  for(auto n:{"malloc","_Znwm","_Znam","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","__cxa_allocate_exception"}) HH(n){ r=RV(doAlloc(S,a[0],f)); return 0; };
  for(auto n:{"_ZnwmSt11align_val_t","_ZnamSt11align_val_t"}) HH(n){ r=RV(doAlloc(S,a[0],f,conc(S,a[1],64))); return 0; };
  HH("aligned_alloc"){ r=RV(doAlloc(S,a[1],f,conc(S,a[0],64))); return 0; };
  HH("calloc"){ uint64_t n=conc(S,a[0],64)*conc(S,a[1],64); uint64_t q=doAlloc(S,RV(n),f); Obj*o=findObj(S,q); o->st.clear(); o->plainAll=true; r=RV(q); return 0; };
  HH("realloc"){ uint64_t q=conc(S,a[0],64),n=conc(S,a[1],64); uint64_t nw=doAlloc(S,RV(n),f); if(q){ Obj*o=findObj(S,q); if(!o||o->base!=q) errorPath(S,"memory","memory-safety","realloc of invalid pointer"); copyBytes(S,nw,q,std::min<uint64_t>(n,o->size)); doFree(S,RV(q)); } r=RV(nw); return 0; };
  for(auto n:{"free","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","_ZdaPvSt11align_val_t","_ZdaPvmSt11align_val_t","__cxa_free_exception"}) HH(n){ doFree(S,a[0]); return 0; };
  // exceptions
  HH("__cxa_throw"){ uint64_t q=conc(S,a[0],64); doThrow(S,q,conc(S,a[1],64)); S.exc[q]={a[1].c,1}; return 1; };
  HH("__cxa_begin_catch"){ uint64_t q=conc(S,a[0],64); S.caught.push_back(q); r=RV(q); return 0; };
  HH("__cxa_get_exception_ptr"){ r=a[0]; return 0; };
  HH("__cxa_end_catch"){ if(!S.caught.empty()) S.caught.pop_back(); return 0; };
  HH("__cxa_rethrow"){ if(S.caught.empty()) errorPath(S,"abort","terminate","rethrow without exception"); uint64_t q=S.caught.back(); doThrow(S,q,S.exc[q].first); return 1; };
  HH("__cxa_guard_acquire"){ uint64_t q=conc(S,a[0],64); RV b=readB(S,findObj(S,q),q-findObj(S,q)->base,1); r=RV((b.n||b.c)?0:1); return 0; };
  HH("__cxa_guard_release"){ uint64_t q=conc(S,a[0],64); Obj*o=own(S,findObj(S,q)); writeB(o,q-o->base,1,RV(1)); return 0; };
  for(auto n:{"__cxa_atexit","__cxa_thread_atexit","atexit"}) HH(n){ r=RV(0); return 0; };
  for(auto n:{"abort","exit","_exit","_ZSt9terminatev","__cxa_pure_virtual","__cxa_call_unexpected","quick_exit"}) HH(n){ errorPath(S,"abort","abort",str("reached ")+p.callee->getName().str()); return 0; };
  HH("__assert_fail"){ errorPath(S,"abort","assert_fail","assert() failed: "+readStr(S,conc(S,a[0],64))); return 0; };
  HH("_ZSt21__glibcxx_assert_failPKciS0_S0_"){ errorPath(S,"abort","glibcxx_assert","libstdc++ assertion failed"); return 0; };
  for(auto n:{"printf","puts","putchar","fprintf","fputs","fwrite","fflush","fputc","vprintf"}) HH(n){ r=RV(0); return 0; };
  HH("getenv"){ r=RV(0); return 0; };
  for(auto n:{"_ZNSt6chrono3_V212steady_clock3nowEv","_ZNSt6chrono3_V212system_clock3nowEv"}) HH(n){ r=RV(S.steps); return 0; };
  HH("__errno_location"){ static uint64_t e=0; if(!findObj(S,e)||!e) e=allocObj(S,8,OK_HEAP,"errno",false); r=RV(e); return 0; };
  // math
  HH("sqrt"){ r=fromN(mkFSqrt(toN(a[0],p.t->w))); return 0; }; gH["sqrtf"]=gH["sqrt"];
  int i=0; for(auto n:{"floor","ceil","trunc","rint","round"}){ int m=i++; gH[n]=[m](State&S,Frame&f,PIns&p,std::vector<RV>&a,RV&r){ r=fround(a[0],p.t->w,m); return 0; }; gH[str(n)+"f"]=gH[n]; } gH["nearbyint"]=gH["rint"];
  HH("fabs"){ r=fromN(mkFAbs(toN(a[0],p.t->w))); return 0; }; gH["fabsf"]=gH["fabs"];
  HH("fmin"){ r=fminmax(a[0],a[1],p.t->w,true); return 0; }; gH["fminf"]=gH["fmin"]; HH("fmax"){ r=fminmax(a[0],a[1],p.t->w,false); return 0; }; gH["fmaxf"]=gH["fmax"];
  math1("sin",::sin); math1("cos",::cos); math1("tan",::tan); math1("exp",::exp); math1("log",::log); math1("log2",::log2); math1("log10",::log10); math1("acos",::acos); math1("asin",::asin); math1("atan",::atan); math1("cbrt",::cbrt); math1("exp2",::exp2);
  HH("pow"){ if(a[0].n&&!a[1].n&&cd(a[1])==2){ r=fromN(mkFBin(FMUL,a[0].n,a[0].n)); return 0; } if(a[0].n||a[1].n) { r=fromN(havoc(64,"pow")); return 0; } r=rd(::pow(cd(a[0]),cd(a[1]))); return 0; };
  HH("atan2"){ if(a[0].n||a[1].n) r=fromN(havoc(64,"atan2")); else r=rd(::atan2(cd(a[0]),cd(a[1]))); return 0; };
  HH("fmod"){ r=fbin(Instruction::FRem,a[0],a[1],64); return 0; };
  HH("ldexp"){ if(a[0].n||a[1].n) unsupported("ldexp"); r=rd(::ldexp(cd(a[0]),(int)a[1].c)); return 0; };
  HH("__symx_nop"){ return 0; };
}
static Handler* extHandler(Function*F){
  auto it=gHC.find(F); if(it!=gHC.end()) return it->second; if(gH.empty()) initH();
  str n=F->getName().str(); auto h=gH.find(n); if(h!=gH.end()) return gHC[F]=&h->second;
  if(F->isDeclaration()){
    static std::regex exc("^_ZNK?St(\\d+(runtime_error|logic_error|out_of_range|length_error|invalid_argument|domain_error|range_error|overflow_error|exception|bad_alloc|ios_base)|8ios_base4Init|6locale)[CD][0-9]E.*|^_ZNSt8ios_base4Init[CD][12]Ev|^_ZNSt9exceptionD[012]Ev|^_ZNSt6localeC[12]Ev|^_ZNSt6localeD[12]Ev");
    if(std::regex_match(n,exc)) return gHC[F]=&gH["__symx_nop"];
    if(n.rfind("__ubsan_handle",0)==0){ gH[n]=[n](State&S,Frame&,PIns&,std::vector<RV>&,RV&)->int{ errorPath(S,"ub",n.substr(15),"undefined behaviour: "+n.substr(15)); return 0; }; return gHC[F]=&gH[n]; }
  }
  return gHC[F]=nullptr;
}
static bool intrinsic(State&S,Frame&f,PIns&p,IntrinsicInst*II,std::vector<RV>&a,RV&r,bool&ctl){
  auto id=II->getIntrinsicID(); unsigned w=p.t->w; ctl=false;
  auto vec=[&](std::function<RV(std::vector<RV>&,unsigned)> fn){ if(p.t->k==TyI::VEC){ r.a=std::make_shared<std::vector<RV>>(); for(size_t i=0;i<p.t->el.size();i++){ std::vector<RV> b; for(auto&x:a) b.push_back(x.a?(*x.a)[i]:x); r.a->push_back(fn(b,p.t->el[i]->w)); } } else r=fn(a,w); };
  switch(id){
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ uint64_t n=conc(S,a[2],64); uint64_t d=conc(S,a[0],64),s=conc(S,a[1],64); if(n&&n<=64){ raceCheck(S,RV(s),n,false); raceCheck(S,RV(d),n,true); } copyBytes(S,d,s,n); return true; }
  case Intrinsic::memset:{ uint64_t n=conc(S,a[2],64); uint64_t d=conc(S,a[0],64); if(!n) return true; Obj*o=findObj(S,d); if(!o||d+n>o->base+o->size) errorPath(S,"memory","memory-safety","memset out of bounds: "+descAddr(S,d)); raceCheck(S,RV(d),std::min<uint64_t>(n,64),true); o=own(S,o); uint64_t off=d-o->base; if(!a[1].n){ memset(&o->d[off],(int)a[1].c,n); if(!o->st.empty()){ memset(&o->st[off],0,n); if(off==0&&n==o->size){ o->st.clear(); o->sy.clear(); o->plainAll=true; } } } else for(uint64_t i=0;i<n;i++) writeB(o,off+i,1,a[1]); return true; }
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r=a[0]; return true;
  case Intrinsic::threadlocal_address:{ auto*G=dyn_cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts()); if(!G||S.cur==0){ r=a[0]; return true; } auto&x=S.tls[{S.cur,G}]; if(!x){ uint64_t sz=DL->getTypeAllocSize(G->getValueType()); x=allocObj(S,sz,OK_GLOBAL,G->getName().str(),false); if(G->hasInitializer()) initInto(findObj(S,x),0,G->getInitializer()); } r=RV(x); return true; }
  case Intrinsic::ctpop: vec([&](std::vector<RV>&a,unsigned w){ if(!a[0].n) return RV(__builtin_popcountll(a[0].c)); Node*n=plain(a[0].n); unsigned rw=bitlen(w); Node*s=mkC(rw,0); for(unsigned i=0;i<w;i++) s=mkBin(ADD,s,mkZExt(mkExtract(n,i,1),rw)); return fromN(mkZExt(s,w)); }); return true;
  case Intrinsic::ctlz: case Intrinsic::cttz: vec([&](std::vector<RV>&a,unsigned w){ if(!a[0].n){ uint64_t c=a[0].c; if(!c) return RV(w); return RV(id==Intrinsic::cttz?__builtin_ctzll(c):__builtin_clzll(c)-(64-w)); } Node*n=plain(a[0].n); Node*acc=mkC(w,w); if(id==Intrinsic::ctlz) for(unsigned i=0;i<w;i++) acc=mkITE(mkExtract(n,i,1),mkC(w,w-1-i),acc); else for(int i=w-1;i>=0;i--) acc=mkITE(mkExtract(n,i,1),mkC(w,i),acc); return fromN(acc); }); return true;
  case Intrinsic::bswap: { Node*n=toN(a[0],w); Node*acc=nullptr; for(unsigned i=0;i<w/8;i++){ Node*b=mkExtract(n,i*8,8); acc=acc?mkConcat(acc,b):b; } r=fromN(acc); return true; }
  case Intrinsic::bitreverse: { Node*n=toN(a[0],w); Node*acc=nullptr; for(unsigned i=0;i<w;i++){ Node*b=mkExtract(n,i,1); acc=acc?mkConcat(acc,b):b; } r=fromN(acc); return true; }
  case Intrinsic::umin: vec([&](std::vector<RV>&a,unsigned w){ if(!a[0].n&&!a[1].n) return RV(std::min(a[0].c,a[1].c)); Node*x=toN(a[0],w),*y=toN(a[1],w); return fromN(mkITE(mkCmp(ULT,x,y),x,y)); }); return true;
  case Intrinsic::umax: vec([&](std::vector<RV>&a,unsigned w){ if(!a[0].n&&!a[1].n) return RV(std::max(a[0].c,a[1].c)); Node*x=toN(a[0],w),*y=toN(a[1],w); return fromN(mkITE(mkCmp(ULT,x,y),y,x)); }); return true;
  case Intrinsic::smin: vec([&](std::vector<RV>&a,unsigned w){ Node*x=toN(a[0],w),*y=toN(a[1],w); return fromN(mkITE(mkCmp(SLT,x,y),x,y)); }); return true;
  case Intrinsic::smax: vec([&](std::vector<RV>&a,unsigned w){ Node*x=toN(a[0],w),*y=toN(a[1],w); return fromN(mkITE(mkCmp(SLT,x,y),y,x)); }); return true;
  case Intrinsic::abs: vec([&](std::vector<RV>&a,unsigned w){ Node*x=toN(a[0],w); return fromN(mkITE(mkCmp(SLT,x,mkC(w,0)),mkBin(SUB,mkC(w,0),x),x)); }); return true;
  case Intrinsic::fshl: case Intrinsic::fshr:{ Node*hi=toN(a[0],w),*lo=toN(a[1],w),*s=mkBin(UREM,toN(a[2],w),mkC(w,w)); Node*cc=mkConcat(hi,lo); Node*sz=mkZExt(s,2*w); if(id==Intrinsic::fshl) r=fromN(mkExtract(mkBin(SHL,cc,sz),w,w)); else r=fromN(mkExtract(mkBin(LSHR,cc,sz),0,w)); return true; }
  case Intrinsic::uadd_sat:{ Node*x=toN(a[0],w),*y=toN(a[1],w); Node*s=mkBin(ADD,x,y); r=fromN(mkITE(mkCmp(ULT,s,x),mkC(APInt::getAllOnes(w)),s)); return true; }
  case Intrinsic::usub_sat:{ Node*x=toN(a[0],w),*y=toN(a[1],w); r=fromN(mkITE(mkCmp(ULT,x,y),mkC(w,0),mkBin(SUB,x,y))); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow:{
    unsigned ww=p.t->el[0]->w; Node*x=toN(a[0],ww),*y=toN(a[1],ww); bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; bool mul=id==Intrinsic::umul_with_overflow||id==Intrinsic::smul_with_overflow; unsigned W=mul?2*ww:ww+1; Node*X=sg?mkSExt(x,W):mkZExt(x,W),*Y=sg?mkSExt(y,W):mkZExt(y,W); Op o=mul?MUL:(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?ADD:SUB; Node*R=mkBin(o,X,Y); Node*lo=mkExtract(R,0,ww); Node*ov=mkNot(mkCmp(EQ,sg?mkSExt(lo,W):mkZExt(lo,W),R));
    if(mul&&!X->isConst()&&!Y->isConst()&&klz(X)+klz(Y)>=W+ww) ov=mkFalse();
    r.a=std::make_shared<std::vector<RV>>(); r.a->push_back(fromN(lo)); r.a->push_back(fromN(ov)); return true; }
  case Intrinsic::sqrt: vec([&](std::vector<RV>&a,unsigned w){ return fromN(mkFSqrt(toN(a[0],w))); }); return true;
  case Intrinsic::fabs: vec([&](std::vector<RV>&a,unsigned w){ return fromN(mkFAbs(toN(a[0],w))); }); return true;
  case Intrinsic::floor: vec([&](std::vector<RV>&a,unsigned w){ return fround(a[0],w,0); }); return true;
  case Intrinsic::ceil: vec([&](std::vector<RV>&a,unsigned w){ return fround(a[0],w,1); }); return true;
  case Intrinsic::trunc: vec([&](std::vector<RV>&a,unsigned w){ return fround(a[0],w,2); }); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: vec([&](std::vector<RV>&a,unsigned w){ return fround(a[0],w,3); }); return true;
  case Intrinsic::round: vec([&](std::vector<RV>&a,unsigned w){ return fround(a[0],w,4); }); return true;
  case Intrinsic::minnum: vec([&](std::vector<RV>&a,unsigned w){ return fminmax(a[0],a[1],w,true); }); return true;
  case Intrinsic::maxnum: vec([&](std::vector<RV>&a,unsigned w){ return fminmax(a[0],a[1],w,false); }); return true;
  case Intrinsic::fmuladd: vec([&](std::vector<RV>&a,unsigned w){ return fbin(Instruction::FAdd,fbin(Instruction::FMul,a[0],a[1],w),a[2],w); }); return true;
  case Intrinsic::fma: { Node*x=plain(toN(a[0],w)),*y=plain(toN(a[1],w)),*z=plain(toN(a[2],w)); if(x->isConst()&&y->isConst()&&z->isConst()){ APFloat q=toF(x->c,w); q.fusedMultiplyAdd(toF(y->c,w),toF(z->c,w),APFloat::rmNearestTiesToEven); r=fromN(mkC(q.bitcastToAPInt())); } else r=fromN(raw(FFMA,w,x,y,z)); return true; }
  case Intrinsic::copysign: vec([&](std::vector<RV>&a,unsigned w){ Node*x=toN(a[0],w),*y=toN(a[1],w); return fromN(mkConcat(mkExtract(y,w-1,1),mkExtract(x,0,w-1))); }); return true;
  case Intrinsic::pow:{ r=RV(); return (gH.empty()?initH():void()),gH["pow"](S,f,p,a,r),true; }
  case Intrinsic::powi:{ if(!a[1].n){ int e=(int)a[1].c; if(e>=0&&e<20){ Node*x=toN(a[0],w),*acc=fpLit(w,1.0); for(int i=0;i<e;i++) acc=mkFBin(FMUL,acc,x); r=fromN(acc); return true; } } unsupported("powi"); }
  case Intrinsic::sin: gH.empty()?initH():void(); gH[w==64?"sin":"sinf"](S,f,p,a,r); return true;
  case Intrinsic::cos: gH.empty()?initH():void(); gH[w==64?"cos":"cosf"](S,f,p,a,r); return true;
  case Intrinsic::exp: gH.empty()?initH():void(); gH[w==64?"exp":"expf"](S,f,p,a,r); return true;
  case Intrinsic::log: gH.empty()?initH():void(); gH[w==64?"log":"logf"](S,f,p,a,r); return true;
  case Intrinsic::is_fpclass:{ unsigned m=conc(S,a[1],32); unsigned ww=ty(II->getArgOperand(0)->getType())->w; Node*x0=toN(a[0],ww); if(x0->op==FX&&!(m&(0x3|0x204|0))){} Node*x=plain(x0); Node*acc=mkFalse(); unsigned mb=precOf(ww)-1; Node*ex=mkExtract(x,mb,ww-1-mb),*man=mkExtract(x,0,mb),*sg=mkExtract(x,ww-1,1); unsigned eb=ww-1-mb; Node*exAll=mkCmp(EQ,ex,mkC(APInt::getAllOnes(eb))),*exZ=mkCmp(EQ,ex,mkC(eb,0)),*manZ=mkCmp(EQ,man,mkC(mb,0)); Node*nan=mkAnd(exAll,mkNot(manZ)),*inf=mkAnd(exAll,manZ),*zero=mkAnd(exZ,manZ),*sub=mkAnd(exZ,mkNot(manZ)),*norm=mkAnd(mkNot(exAll),mkNot(exZ)); Node*ns=mkNot(sg);
     Node*q=mkExtract(man,mb-1,1); if(m&1) acc=mkOr(acc,mkAnd(nan,mkNot(q))); if(m&2) acc=mkOr(acc,mkAnd(nan,q)); if(m&4) acc=mkOr(acc,mkAnd(inf,sg)); if(m&8) acc=mkOr(acc,mkAnd(norm,sg)); if(m&16) acc=mkOr(acc,mkAnd(sub,sg)); if(m&32) acc=mkOr(acc,mkAnd(zero,sg)); if(m&64) acc=mkOr(acc,mkAnd(zero,ns)); if(m&128) acc=mkOr(acc,mkAnd(sub,ns)); if(m&256) acc=mkOr(acc,mkAnd(norm,ns)); if(m&512) acc=mkOr(acc,mkAnd(inf,ns)); r=fromN(acc); return true; }
  case Intrinsic::eh_typeid_for: r=RV(tiSelector(conc(S,a[0],64))); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: errorPath(S,"ub","trap","llvm.trap reached");
  case Intrinsic::stacksave: r=RV(0); return true; case Intrinsic::stackrestore: return true;
  case Intrinsic::is_constant: r=RV(0); return true; case Intrinsic::objectsize: r=cRV(~0ull,w); return true;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul:{ unsigned o=id==Intrinsic::vector_reduce_add?Instruction::Add:id==Intrinsic::vector_reduce_or?Instruction::Or:id==Intrinsic::vector_reduce_and?Instruction::And:id==Intrinsic::vector_reduce_xor?Instruction::Xor:Instruction::Mul; RV acc=(*a[0].a)[0]; for(size_t i=1;i<a[0].a->size();i++) acc=binop(S,o,acc,(*a[0].a)[i],w); r=acc; return true; }
  case Intrinsic::vector_reduce_fadd:{ RV acc=a[0]; for(auto&x:*a[1].a) acc=fbin(Instruction::FAdd,acc,x,w); r=acc; return true; }
  case Intrinsic::x86_sse2_pause: { Handler&h=(gH.empty()?initH():void(),gH["symx_yield_"]); int q=h(S,f,p,a,r); ctl=q==1; return true; }
  case Intrinsic::load_relative: default: unsupported("intrinsic "+II->getCalledFunction()->getName().str()); }
}
// returns true if control was transferred (caller must 'continue')
static bool doCall(State&S,Frame&f,PIns&p){
  auto V=[&](unsigned i)->const RV&{ const Opnd&o=p.o[i]; return o.reg>=0?f.r[o.reg]:o.v; };
  auto*cb=cast<CallBase>(p.I);
  if(p.ext==-2){ auto*ia=cast<InlineAsm>(cb->getCalledOperand()); str s=ia->getAsmString(); if(s.empty()||s.find("pause")!=str::npos||s.find("nop")!=str::npos||s.find("fldcw")!=str::npos){ return false; } unsupported("inline asm "+s); }
  std::vector<RV> a; unsigned na=cb->arg_size(); a.reserve(na); for(unsigned i=0;i<na;i++) a.push_back(V(i));
  Function*callee=p.callee;
  if(auto*II=dyn_cast<IntrinsicInst>(p.I)){ RV r; bool ctl; intrinsic(S,f,p,II,a,r,ctl); if(ctl) return true; if(p.dst>=0) f.r[p.dst]=std::move(r); return false; }
  if(!callee){ uint64_t t=conc(S,V(na),64); auto it=gFnAt.find(t); if(it==gFnAt.end()) errorPath(S,"memory","memory-safety","call through invalid function pointer: "+descAddr(S,t)); callee=it->second; }
  if(Handler*h=extHandler(callee)){ RV r; gThrew=false; PIns tmp; int q; if(!p.callee){ p.callee=callee; q=(*h)(S,f,p,a,r); p.callee=nullptr; } else q=(*h)(S,f,p,a,r); if(q==1) return true; if(p.dst>=0) f.r[p.dst]=std::move(r); return false; }
  CFunc*cf=compile(callee); if(!cf) unsupported("external function "+callee->getName().str());
  if(S.th[S.cur].st.size()>3000) errorPath(S,"nontermination","recursion","recursion deeper than 3000 frames");
  Frame nf=mkFrame(cf);
  for(unsigned i=0;i<na&&i<cf->argReg.size();i++){ if(cb->isByValArgument(i)){ uint64_t sz=DL->getTypeAllocSize(cb->getParamByValType(i)); uint64_t b=allocObj(S,sz,OK_STACK,"byval",true); copyBytes(S,b,conc(S,a[i],64),sz); nf.allocas.push_back(b); nf.r[cf->argReg[i]]=RV(b); } else nf.r[cf->argReg[i]]=std::move(a[i]); }
  S.th[S.cur].st.push_back(std::move(nf)); return true;
}
