#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
// adds a call to symx_sched_ before every atomic instruction (used for native replay of schedules)
static int instrument(const str&out){
  FunctionCallee fc=M->getOrInsertFunction("symx_atomic_point_",Type::getVoidTy(CTX));
  std::vector<Instruction*> pts; for(auto&F:*M) for(auto&B:F) for(auto&I:B){ bool at=isa<AtomicRMWInst>(I)||isa<AtomicCmpXchgInst>(I); if(auto*l=dyn_cast<LoadInst>(&I)) at=l->isAtomic(); if(auto*s=dyn_cast<StoreInst>(&I)) at=s->isAtomic(); if(at&&!refcountOp(I)) pts.push_back(&I); }
  for(auto*I:pts){ IRBuilder<> b(I); b.CreateCall(fc); }
  for(auto n:{"pthread_mutex_lock","pthread_mutex_unlock","pthread_mutex_trylock","sched_yield"}) if(auto*F=M->getFunction(n)) F->setName(std::string("symx_")+n);
  if(auto*G=M->getGlobalVariable("__libc_single_threaded")) G->setName("symx_libc_single_threaded");
  std::error_code ec; raw_fd_ostream o(out,ec); WriteBitcodeToFile(*M,o); return 0;
}
