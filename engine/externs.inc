static std::vector<Function*> gCtors; static bool gInCtor=false;
static str readStr(State&S,uint64_t a){ str r; while(r.size()<4000){ Obj*o=findObj(S,a); if(!o||a>=o->base+o->size) break; char c=o->d[a-o->base]; if(!c) break; r+=c; a++; } return r; }
