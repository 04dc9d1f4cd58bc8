// ------------------------------------------------------------------ interpreter
static LLVMContext g_ctx; static std::unique_ptr<Module> g_mod; static const DataLayout* g_dl;
struct FnInfo { Function*F; DenseMap<const Value*,int> idx; int n=0; DominatorTree*dt=nullptr; LoopInfo*li=nullptr; bool listed=false; };
static std::unordered_map<Function*,FnInfo*> g_fi; static std::set<std::string> g_touched;
static std::string demang(StringRef n){ static std::unordered_map<std::string,std::string> c; auto it=c.find(n.str()); if(it!=c.end()) return it->second; std::string d=llvm::demangle(n.str()); c[n.str()]=d; return d; }
static FnInfo* fnInfo(Function*F){ auto&x=g_fi[F]; if(!x){ x=new FnInfo; x->F=F; for(auto&a:F->args()) x->idx[&a]=x->n++; for(auto&b:*F) for(auto&i:b) if(!i.getType()->isVoidTy()) x->idx[&i]=x->n++; if(DISubprogram*sp=F->getSubprogram()){ if(sp->getFilename().contains("natrium")||sp->getFilename().contains("/repo/")) { std::string d=demang(F->getName()); g_touched.insert(d); } } } return x; }
struct Cut { BasicBlock*H; BasicBlock*T=nullptr; Loop*L; int state; int kAtom; std::set<std::pair<u64,u64>> W; std::map<std::pair<u64,u64>,u64> inv; BasicBlock*preH; std::map<const PHINode*,Val> phiInit; size_t lwMark; std::set<const PHINode*> phiInv; std::map<std::pair<u64,u64>,int> M; std::map<std::pair<u64,u64>,mpq_class> lb; std::set<std::pair<u64,u64>> noLb, R; };
struct Frame { FnInfo*fi; std::vector<Val> r; BasicBlock*bb=nullptr,*prev=nullptr; BasicBlock::iterator pc; std::vector<u64> allocas; CallBase*cs=nullptr; std::vector<Cut> cuts; std::vector<Val> va; };
static std::deque<Frame> g_st;
static std::unordered_map<const GlobalValue*,u64> g_gaddr; static std::unordered_map<u64,Function*> g_faddr; static std::unordered_map<u64,const GlobalValue*> g_aglob;
static Val constVal(const Constant*c);
static void initObj(u64 addr,const Constant*c);
static u64 tsz(Type*t){ return g_dl->getTypeAllocSize(t); }
static u64 globalAddr(const GlobalValue*g){ auto it=g_gaddr.find(g); if(it!=g_gaddr.end()) return it->second; 
  if(auto*a=dyn_cast<GlobalAlias>(g)){ u64 r=globalAddr(cast<GlobalValue>(a->getAliasee()->stripPointerCasts())); g_gaddr[g]=r; return r; }
  if(auto*F=dyn_cast<Function>(g)){ bool old=g_rec; g_rec=false; u64 id=newObj(0,"fn:"+F->getName().str()); g_rec=old; u64 a=addrOf(id); g_gaddr[g]=a; g_faddr[a]=const_cast<Function*>(F); return a; }
  auto*v=cast<GlobalVariable>(g); bool old=g_rec; g_rec=false; u64 sz=v->isDeclaration()?4096:tsz(v->getValueType()); u64 id=newObj(sz,"global:"+v->getName().str(),v->isDeclaration()); u64 a=addrOf(id); g_gaddr[g]=a; g_aglob[a]=g; if(v->isDeclaration()) g_objs[id].ext=true; else { initObj(a,v->getInitializer()); if(v->isConstant()) g_objs[id].ro=true; } g_rec=old; return a; }
static Val constExpr(const ConstantExpr*e){ unsigned op=e->getOpcode(); switch(op){ case Instruction::GetElementPtr: { const GEPOperator*g=cast<GEPOperator>(e); APInt off(64,0); if(!g->accumulateConstantOffset(*g_dl,off)) throw Unsupported("constexpr gep"); return vInt(constVal(cast<Constant>(g->getPointerOperand())).i+off.getZExtValue(),64);} case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v=constVal(e->getOperand(0)); return vInt(v.i,e->getType()->isIntegerTy()?e->getType()->getIntegerBitWidth():64);} case Instruction::Sub: return vInt(constVal(e->getOperand(0)).i-constVal(e->getOperand(1)).i,64); case Instruction::Add: return vInt(constVal(e->getOperand(0)).i+constVal(e->getOperand(1)).i,64); case Instruction::Trunc: return vInt(constVal(e->getOperand(0)).i,e->getType()->getIntegerBitWidth()); default: throw Unsupported(std::string("constexpr ")+e->getOpcodeName()); } }
static const Poly* fpConst(const APFloat&f){ APFloat g=f; bool li; g.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return polyOfDouble(g.convertToDouble()); }
static std::unordered_map<const Constant*,Val> g_cc;
static Val constVal(const Constant*c){ auto it=g_cc.find(c); if(it!=g_cc.end()) return it->second; Val r;
  if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64) throw Unsupported("wide int"); r=vInt(i->getZExtValue(),i->getBitWidth()); }
  else if(auto*f=dyn_cast<ConstantFP>(c)) r=vReal(fpConst(f->getValueAPF()));
  else if(isa<ConstantPointerNull>(c)) r=vInt(0,64);
  else if(auto*g=dyn_cast<GlobalValue>(c)) r=vInt(globalAddr(g),64);
  else if(isa<UndefValue>(c)){ Type*t=c->getType(); if(t->isStructTy()){ std::vector<Val> v(t->getStructNumElements()); return vAgg(v);} if(t->isArrayTy()) return vAgg(std::vector<Val>(t->getArrayNumElements())); if(auto*vt=dyn_cast<FixedVectorType>(t)) return vAgg(std::vector<Val>(vt->getNumElements())); return Val(); }
  else if(auto*e=dyn_cast<ConstantExpr>(c)) r=constExpr(e);
  else if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ unsigned n; Type*t=c->getType(); if(t->isStructTy()) n=t->getStructNumElements(); else if(t->isArrayTy()) n=t->getArrayNumElements(); else n=cast<FixedVectorType>(t)->getNumElements(); std::vector<Val> v; for(unsigned i=0;i<n;i++) v.push_back(constVal(c->getAggregateElement(i))); r=vAgg(v); return r; }
  else throw Unsupported("constant kind"); g_cc[c]=r; return r; }
static void initObj(u64 addr,const Constant*c){ Type*t=c->getType(); if(isa<UndefValue>(c)) return; if(isa<ConstantAggregateZero>(c)||c->isNullValue()){ memSet(addr,0,tsz(t)); return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ Type*et=d->getElementType(); u64 es=tsz(et); for(unsigned i=0;i<d->getNumElements();i++){ if(et->isIntegerTy()) storeInt(addr+i*es,d->getElementAsInteger(i),es*8); else if(et->isDoubleTy()) storeInt(addr+i*8,dBits(d->getElementAsDouble(i)),64); else { float f=d->getElementAsFloat(i); uint32_t b; memcpy(&b,&f,4); storeInt(addr+i*4,b,32);} } return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*sl=g_dl->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initObj(addr+sl->getElementOffset(i),s->getOperand(i)); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ u64 es=tsz(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) initObj(addr+i*es,a->getOperand(i)); return; }
  if(auto*f=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()) storeInt(addr,dBits(f->getValueAPF().convertToDouble()),64); else if(t->isFloatTy()){ float x=f->getValueAPF().convertToFloat(); uint32_t b; memcpy(&b,&x,4); storeInt(addr,b,32);} else storeP(addr,V_REAL,fpConst(f->getValueAPF())); return; }
  Val v=constVal(c); storeVal(addr,v,t->isPointerTy()?64:(int)tsz(t)*8); }
static inline Val get(Frame&f,const Value*v){ if(auto*c=dyn_cast<Constant>(v)) return constVal(c); if(isa<MetadataAsValue>(v)) return Val(); return f.r[f.fi->idx[v]]; }
static inline void setR(Frame&f,const Instruction*i,const Val&v){ if(!i->getType()->isVoidTy()) f.r[f.fi->idx[i]]=v; }
static const Poly* asPoly(const Val&v){ switch(v.k){ case V_REAL: case V_SINT: return v.p; case V_INT: return pConst(qOfI64(sx(v.i,v.w))); case V_UNDEF: return undefReal(); default: throw Unsupported("value is not a number"); } }
static const Poly* asU(const Val&v){ if(v.k==V_INT) return pConst(qOfU64(v.i)); return asPoly(v); }
static const Poly* asReal(const Val&v){ if(v.k==V_REAL) return v.p; if(v.k==V_UNDEF) return undefReal(); if(v.k==V_INT&&v.w==64) return polyOfDouble(bitsD(v.i)); throw Unsupported("not a real"); }
static Val loadTy(u64 a,Type*t){ if(t->isDoubleTy()||t->isX86_FP80Ty()) return loadReal(a); if(t->isPointerTy()) return loadInt(a,64); if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w>64) throw Unsupported("wide int load"); Val v=loadInt(a,w==1?8:w); if(w==1&&v.k==V_INT) v=vInt(v.i&1,1); return v; }
  if(t->isFloatTy()){ Val v=loadInt(a,32); if(v.k==V_INT){ uint32_t b=v.i; float f; memcpy(&f,&b,4); return vReal(polyOfDouble(f)); } if(v.k==V_UNDEF) return vReal(undefReal()); Val r=vReal(v.p); return r; }
  std::vector<Val> v; if(auto*s=dyn_cast<StructType>(t)){ auto*sl=g_dl->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) v.push_back(loadTy(a+sl->getElementOffset(i),s->getElementType(i))); } else if(auto*ar=dyn_cast<ArrayType>(t)){ u64 es=tsz(ar->getElementType()); for(unsigned i=0;i<ar->getNumElements();i++) v.push_back(loadTy(a+i*es,ar->getElementType())); } else if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=tsz(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) v.push_back(loadTy(a+i*es,vt->getElementType())); } else throw Unsupported("load type"); return vAgg(v); }
static void storeTy(u64 a,Type*t,const Val&v){ if(t->isDoubleTy()||t->isX86_FP80Ty()){ if(v.k==V_UNDEF){ storeInt(a,0,64,true); return; } if(v.k==V_FORM) throw Unsupported("store form"); if(v.k==V_INT) storeInt(a,v.i,64); else storeP(a,V_REAL,v.p); return; } if(t->isPointerTy()){ storeVal(a,v,64); return; } if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w>64) throw Unsupported("wide int store"); storeVal(a,v,w==1?8:w); return; }
  if(t->isFloatTy()){ if(v.k==V_REAL&&isConst(v.p)){ float f=constOf(v.p).get_d(); uint32_t b; memcpy(&b,&f,4); storeInt(a,b,32);} else if(v.k==V_UNDEF) storeInt(a,0,32,true); else throw Unsupported("symbolic float"); return; }
  if(v.k==V_UNDEF) return; if(v.k!=V_AGG) throw Unsupported("aggregate store"); if(auto*s=dyn_cast<StructType>(t)){ auto*sl=g_dl->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) storeTy(a+sl->getElementOffset(i),s->getElementType(i),(*v.agg)[i]); } else if(auto*ar=dyn_cast<ArrayType>(t)){ u64 es=tsz(ar->getElementType()); for(unsigned i=0;i<ar->getNumElements();i++) storeTy(a+i*es,ar->getElementType(),(*v.agg)[i]); } else if(auto*vt=dyn_cast<FixedVectorType>(t)){ u64 es=tsz(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) storeTy(a+i*es,vt->getElementType(),(*v.agg)[i]); } else throw Unsupported("store type"); }
// ---- forking
struct PathEnd { int code; std::string msg; };
static std::string g_where;
static std::string whereStr(){ std::string r; int n=0; for(int i=(int)g_st.size()-1;i>=0&&n<6;i--,n++){ Frame&f=g_st[i]; std::string d=demang(f.fi->F->getName()); if(d.size()>110) d=d.substr(0,110)+"..."; std::string line; if(f.bb&&f.pc!=f.bb->end()) { Instruction&I=*f.pc; if(auto&dl=I.getDebugLoc()) { line=std::string(dl->getFilename()); size_t s=line.rfind('/'); if(s!=std::string::npos) line=line.substr(s+1); line+=":"+std::to_string(dl.getLine()); } } r+=(n?" < ":"")+d+"@"+line; } return r; }
static void endPath(const char*kind,const std::string&msg){ report("","end-"+std::string(kind),"",msg.empty()?"":msg+" | "+whereStr()); g_sh->paths++; }
static void reap(pid_t p){ int st=0; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)!=0) g_sh->crashed++; }
static void finish(){ fflush(stdout); for(pid_t p:g_children) reap(p); if(g_haveToken) g_sh->tokens++; _exit(0); }
// fork: returns true in the child
static bool forkPath(const std::string&tag){ bool par=false; int t=g_sh->tokens.load(); while(t>0){ if(g_sh->tokens.compare_exchange_weak(t,t-1)){ par=true; break; } }
  pid_t p=fork(); if(p<0) throw Unsupported("fork failed"); if(p==0){ g_children.clear(); g_haveToken=par; g_path+=tag; return true; } if(par) g_children.push_back(p); else reap(p); return false; }
static bool hasUserAtoms(const Form*f){ auto a=formAtoms(f); for(int x:a) if(g_atoms[x].kind==A_BASE) return true; return false; }
// decide a symbolic condition (forks when both sides are feasible)
static long g_forks=0;
static bool decide(const Form*f,const std::string&tag){
  if(f->op==F_TRUE) return true; if(f->op==F_FALSE) return false;
  if(!hasUserAtoms(f)){ Sample s; s.seed=1; int r=evalForm(f,s); if(r>=0) return r; if(f->op==F_EQ||f->op==F_NE){ std::string h; int z=zeroTest(f->p,nullptr,h); if(z>=1) return f->op==F_EQ; } int cf=constForm(f); if(cf>=0) return cf; throw Unsupported("undecided constant comparison "+formStr(f)); }
  if((f->op==F_EQ||f->op==F_NE)){ // polynomial identity?
    bool allz=true; for(size_t i=0;i<g_samples.size()&&i<6;i++){ double m; double v=evalPoly(f->p,g_samples[i],&m); if(std::fabs(v)>1e-9*m) { allz=false; break; } } if(allz&&g_samples.size()>=3){ std::string h; Sample s; if(zeroTest(f->p,&s,h)==1) return f->op==F_EQ; } }
  refillSamples(8); bool t=false,e=false; for(auto&s:g_samples){ int r=evalForm(f,s); if(r==1) t=true; if(r==0) e=true; }
  bool tf=t,ef=e; if(!t) tf=z3sat(f,nullptr,2000)!=0; if(!e) ef=z3sat(fNot(f),nullptr,2000)!=0;
  if(tf&&!ef){ addPC(f); return true; } if(ef&&!tf){ addPC(fNot(f)); return false; } if(!tf&&!ef){ if(g_trace) for(auto x:g_pc) fprintf(stderr,"[pc] %s\n",formStr(x).substr(0,300).c_str()); throw PathEnd{1,"infeasible"}; }
  if(g_trace) fprintf(stderr,"[split %s] %s @ %s\n",tag.c_str(),formStr(f).substr(0,300).c_str(),whereStr().substr(0,200).c_str());
  if(++g_forks>60) throw Unsupported("too many case splits on one path");
  if(forkPath(tag+"0")){ addPC(fNot(f)); return false; } g_path+=tag+"1"; addPC(f); return true; }
static bool asBool(const Val&v,const char*tag){ if(v.k==V_INT) return v.i&1; if(v.k==V_FORM) return decide(v.f,tag); if(v.k==V_UNDEF) throw Unsupported("branch on uninitialised value"); throw Unsupported("bad condition"); }
static const Form* asForm(const Val&v){ if(v.k==V_INT) return v.i&1?fTrue():fFalse(); if(v.k==V_FORM) return v.f; throw Unsupported("bad boolean"); }
#include "ops.inc"
#include "builtins.inc"
#include "run.inc"
