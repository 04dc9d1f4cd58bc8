static u64 g_instr=0; static bool g_dry=false; static size_t g_dryDepth=0; static BasicBlock*g_dryH=nullptr; static std::string g_dryFile; static std::string g_dryEndMsg;
static Function* g_harnessFn=nullptr;
static void popFrame(){ Frame&f=g_st.back(); for(u64 id:f.allocas){ g_objs[id].alive=false; std::vector<Slot>().swap(g_objs[id].s);} g_st.pop_back(); }
static void jump(Frame&f,BasicBlock*to){ BasicBlock*from=f.bb; 
  for(size_t i=0;i<f.cuts.size();) if(!f.cuts[i].L->contains(to)){ if(g_dry&&f.cuts[i].H==g_dryH&&g_st.size()==g_dryDepth) finish(); if(f.cuts[i].state==2) g_rec=false; f.cuts.erase(f.cuts.begin()+i); } else i++; // a loop left by another exit
  // phis, simultaneously
  std::vector<std::pair<const Instruction*,Val>> up; auto it=to->begin(); for(;auto*p=dyn_cast<PHINode>(&*it);++it) up.push_back({p,get(f,p->getIncomingValueForBlock(from))}); for(auto&u:up) setR(f,u.first,u.second); f.prev=from; f.bb=to; f.pc=it; }
static void dryReport(){ // write set of this dry path
  std::ostringstream o; std::string buf; for(auto&w:g_recW){ Obj&ob=g_objs[w.first]; char t='U'; u64 raw=0; if(ob.alive&&w.second<ob.s.size()){ Slot&s=ob.s[w.second]; if(s.kind==1&&s.vk==V_REAL) t='R'; else if(s.kind==0&&!s.undef){ t='I'; raw=s.raw; } else if(s.kind==1) t='S'; else t='U'; } else t='X'; buf+=std::to_string(w.first)+" "+std::to_string(w.second)+" "+t+" "+std::to_string(raw)+" "+std::to_string(g_recM[w])+"\n"; }
  // loop-invariant phis
  int fd=open(g_dryFile.c_str(),O_WRONLY|O_APPEND|O_CREAT,0600); if(write(fd,buf.data(),buf.size())<0){} close(fd); }
[[noreturn]] static void dryFail(const std::string&m){ std::string b="FAIL "+m+"\n"; int fd=open(g_dryFile.c_str(),O_WRONLY|O_APPEND|O_CREAT,0600); if(write(fd,b.data(),b.size())<0){} close(fd); finish(); abort(); }
static std::map<std::pair<u64,u64>,u64> g_intInit; // slot -> lower bound for havoced ints
static bool provedGe(const Poly*p,const mpq_class&lo){ if(isConst(p)) return constOf(p)>=lo; return z3sat(fCmp(F_LT,pSub(p,pConst(lo))),nullptr,2000)==0; }
static const Poly* freshInt(Cut&c,std::pair<u64,u64> w,const Poly*now){ if(c.state!=1) now=nullptr; // arbitrary integer; a lower bound (value on entry, or 0) is assumed here and checked at the back edge
  auto it=c.lb.find(w); if(it==c.lb.end()&&now){ if(isConst(now)) it=c.lb.emplace(w,constOf(now)).first; else if(provedGe(now,0)) it=c.lb.emplace(w,mpq_class(0)).first; }
  Atom A; A.kind=A_BASE; A.isInt=true; A.name="hint"+std::to_string(g_undefN++); if(it!=c.lb.end()&&!c.noLb.count(w)){ A.hasLo=true; A.lo=it->second; } return pAtom(newAtom(A)); }
static const Poly* intOfSlot(const Slot&s,int m){ if(m==4){ if(s.kind==1&&s.vk==V_SINT) return s.p; if(s.kind==0&&!s.undef) return pConst(qOfI64((i64)s.raw)); return nullptr; } if(s.kind==(m==1?2:3)) return s.p; if(s.kind==0||s.kind==(m==1?3:2)){ if(s.undef&(m==1?0x0f:0xf0)) return nullptr; return pConst(qOfI64((i64)(int32_t)(m==1?s.raw:s.raw>>32))); } return nullptr; }
static void havoc(Cut&c){ for(auto&w:c.W){ Obj&ob=g_objs[w.first]; if(!ob.alive||w.second>=ob.s.size()) continue; auto inv=c.inv.find(w); Slot&s=ob.s[w.second]; if(inv!=c.inv.end()) continue; // inferred invariant: slot keeps its value
    int m=4; auto mi=c.M.find(w); if(mi!=c.M.end()) m=mi->second;
    if(m==4&&(c.R.count(w)||(s.kind==1&&s.vk==V_REAL))){ s.kind=1; s.vk=V_REAL; s.undef=0; s.p=freshReal("havoc"+std::to_string(g_undefN++)); continue; }
    const Poly*now=m==1||m==2||m==4?intOfSlot(s,m):nullptr;
    if(!now||(m==4&&s.kind==0&&s.raw>(1ULL<<31)&&s.raw<(~0ULL<<31))){ s=Slot(); s.undef=0xff; continue; } // pointer-like or mixed: unknown, any use is refused
    const Poly*f=freshInt(c,w,now); if(m==4){ s.kind=1; s.vk=V_SINT; s.undef=0; } else if(m==1){ if(s.kind==3){ s=Slot(); s.undef=0xff; continue; } s.kind=2; s.undef&=0xf0; } else { if(s.kind==2){ s=Slot(); s.undef=0xff; continue; } s.kind=3; s.undef&=0x0f; } s.p=f; } }
static void checkLower(Cut&c){ for(auto&w:c.R){ Obj&ob=g_objs[w.first]; if(!ob.alive||w.second>=ob.s.size()||c.inv.count(w)) continue; Slot&s=ob.s[w.second]; if(!((s.kind==1&&s.vk==V_REAL)||(s.kind==0&&!s.undef))) throw Unsupported("loop rule: a real slot does not stay one"); } for(auto&x:c.lb){ if(c.noLb.count(x.first)) continue; Obj&ob=g_objs[x.first.first]; if(!ob.alive||x.first.second>=ob.s.size()) continue; int m=4; auto mi=c.M.find(x.first); if(mi!=c.M.end()) m=mi->second; const Poly*p=intOfSlot(ob.s[x.first.second],m); if(!p||!provedGe(p,x.second)) throw Unsupported("loop rule: integer in "+ob.name+" may fall below its value on entry, slot "+std::to_string(x.first.second)+" mask "+std::to_string(m)+" kind "+std::to_string(ob.s[x.first.second].kind)+" value "+(p?polyStr(p):"?")+" bound "+x.second.get_str()); } }
static void setPhis(Frame&f,Cut&c){ for(auto&phi:c.H->phis()){ if(c.phiInv.count(&phi)){ setR(f,&phi,c.phiInit[&phi]); continue; } Type*t=phi.getType(); if(isRealTy(t)) setR(f,&phi,vReal(freshReal("hphi"+std::to_string(g_undefN++)))); else if(t->isIntegerTy()){ // counter?
      Val init=c.phiInit[&phi]; Atom A; A.kind=A_BASE; A.isInt=true; A.name="k"+std::to_string(g_undefN++); if(init.k==V_INT){ bool inc=false; for(unsigned i=0;i<phi.getNumIncomingValues();i++) if(c.L->contains(phi.getIncomingBlock(i))) if(auto*bo=dyn_cast<BinaryOperator>(phi.getIncomingValue(i))) if(bo->getOpcode()==Instruction::Add&&bo->getOperand(0)==&phi) if(auto*ci=dyn_cast<ConstantInt>(bo->getOperand(1))) if(ci->getSExtValue()>0) inc=true; if(inc){ A.hasLo=true; A.lo=qOfI64(sx(init.i,init.w)); } } int id=newAtom(A); Val v=vSint(pAtom(id),t->getIntegerBitWidth()); setR(f,&phi,v); } else if(t->isPointerTy()) { // pointer induction p += 8
      Val init=c.phiInit[&phi]; if(init.k!=V_INT) throw Unsupported("symbolic pointer phi"); Atom A; A.kind=A_BASE; A.isInt=true; A.hasLo=true; A.lo=0; A.name="kp"+std::to_string(g_undefN++); int id=newAtom(A); setR(f,&phi,vSint(pAdd(pConst(qOfU64(init.i)),pScale(pAtom(id),8)),64)); } else throw Unsupported("phi type in loop"); } }
// loop rule at a conditional branch whose condition mentions a symbolic length. returns true if it handled the branch
static bool loopCut(BranchInst*br,const Form*cond){ Frame&f=g_st.back(); auto at=formAtoms(cond); bool len=false; for(int a:at) if(g_lenAtoms.count(a)) len=true; FnInfo*fi=f.fi; 
  if(!fi->li){ fi->dt=new DominatorTree(*fi->F); fi->li=new LoopInfo(*fi->dt); } Loop*L=fi->li->getLoopFor(br->getParent()); if(!L) return false; BasicBlock*s0=br->getSuccessor(0),*s1=br->getSuccessor(1); bool in0=L->contains(s0),in1=L->contains(s1); if(in0==in1) return false; BasicBlock*body=in0?s0:s1,*ex=in0?s1:s0; const Form*stay=in0?cond:fNot(cond); BasicBlock*H=L->getHeader();
  Cut*c=nullptr; for(auto&x:f.cuts) if(x.H==H) c=&x;
  if(c&&c->T!=br->getParent()) return false; // another exit of a loop under the rule: an ordinary case split
  if(!c){ if(!len) return false; 
    // split off the zero-iteration case
    { int z=z3sat(fNot(stay),nullptr,2000); if(z!=0){ if(forkPath("z")){ addPC(fNot(stay)); jump(f,ex); return true; } } }
    // dry run for the write set
    Cut n; n.H=H; n.T=br->getParent(); n.L=L; n.state=1; n.preH=f.prev; for(auto&phi:H->phis()) n.phiInit[&phi]=f.r[fi->idx[&phi]]; char tmp[]="/tmp/nvcdryXXXXXX"; int fd=mkstemp(tmp); close(fd); size_t depth=g_st.size();
    int oldTok=g_sh->tokens.exchange(0); // run sequentially while dry
    for(int round=0;round<3;round++){ pid_t p=fork(); if(p==0){ g_children.clear(); g_haveToken=false; if(g_fd>=0) close(g_fd); g_fd=open("/dev/null",O_WRONLY); g_dry=true; g_dryDepth=depth; g_dryH=H; g_dryFile=tmp; g_rec=true; g_recMax=g_objs.size(); g_recW.clear(); g_recM.clear(); f.cuts.push_back(n); Cut&cc=f.cuts.back(); cc.state=1; havoc(cc); setPhis(f,cc); f.bb=H; f.pc=H->getFirstNonPHI()->getIterator(); return true; }
      int st; waitpid(p,&st,0); std::ifstream in(tmp); std::string line; bool bad=false; std::string msg; int lines=0; size_t before=n.W.size(); n.inv.clear(); std::map<std::pair<u64,u64>,std::pair<bool,u64>> iv; while(std::getline(in,line)){ if(line.rfind("FAIL",0)==0){ bad=true; msg=line; break; } lines++; std::istringstream is(line); u64 a,b,raw; int hm=4; char t; is>>a>>b>>t>>raw>>hm; n.W.insert({a,b}); n.M[{a,b}]|=hm; if(t=='R') n.R.insert({a,b}); auto k=std::make_pair(a,b); Slot*s=nullptr; if(g_objs[a].alive&&b<g_objs[a].s.size()) s=&g_objs[a].s[b]; bool same=(t=='I'&&s&&s->kind==0&&!s->undef&&s->raw==raw); auto it=iv.find(k); if(it==iv.end()) iv[k]={same,raw}; else if(!same) it->second.first=false; }
      for(auto&x:iv) if(x.second.first) n.inv[x.first]=x.second.second; if(!bad&&(!WIFEXITED(st)||WEXITSTATUS(st)!=0)){ bad=true; msg="FAIL dry run crashed"; } if(bad){ unlink(tmp); g_sh->tokens=oldTok; throw Unsupported("loop rule: "+msg); } (void)lines; bool stable=n.W.size()==before&&round>0; if(truncate(tmp,0)){} if(stable) break; }
    unlink(tmp); g_sh->tokens=oldTok; f.cuts.push_back(n); Cut&cc=f.cuts.back(); cc.state=1; cc.lwMark=g_lw.size(); havoc(cc); setPhis(f,cc); g_rec=true; g_recMax=g_objs.size(); g_recW.clear(); g_recM.clear(); f.bb=H; f.pc=H->getFirstNonPHI()->getIterator(); report("loop:"+demang(fi->F->getName()).substr(0,120),"loopcut","",""); return true; }
  if(c->state==1){ // assume the loop condition, enter an arbitrary iteration
    addPC(stay); if(pcInfeasible) throw PathEnd{1,"infeasible"}; c->state=2; 
    // remember the induction value: a length-free integer atom in cond
    for(int a:at) if(g_atoms[a].isInt&&!g_lenAtoms.count(a)){ g_lastK=pAtom(a); g_kAtom=a; } 
    jump(f,body); return true; }
  if(c->state==2){ // back edge: arrived at the test again
    if(g_dry&&g_st.size()==g_dryDepth&&H==g_dryH){ dryReport(); finish(); }
    bool ok=true; for(auto&w:g_recW) if(!c->W.count(w)) ok=false; if(!ok) throw Unsupported("loop rule: write set not closed"); for(auto&x:g_recM) if(c->M.count(x.first)&&(x.second&~c->M[x.first])) throw Unsupported("loop rule: write set not closed"); checkLower(*c); for(auto&x:c->inv){ Obj&o=g_objs[x.first.first]; if(o.alive&&x.first.second<o.s.size()){ Slot&s=o.s[x.first.second]; if(!(s.kind==0&&!s.undef&&s.raw==x.second)) throw Unsupported("loop rule: inferred invariant not inductive"); } }
    // frame: every lazy write of this iteration at index k (offset 8*k) only
    for(size_t i=c->lwMark;i<g_lw.size();i++){ const Poly*k=g_lastK; if(!k) continue; const Poly*d=pSub(g_lw[i].off,pScale(k,8)); if(!d->t.empty()&&decideEq(d)!=1){ Sample s; refillSamples(1); report("loop-frame","failed","frame","iteration k writes outside index k of "+g_objs[g_lw[i].id].name+" (offset "+polyStr(g_lw[i].off)+")"); break; } }
    c->state=3; g_rec=false; havoc(*c); setPhis(f,*c); f.bb=H; f.pc=H->getFirstNonPHI()->getIterator(); return true; }
  // state 3: leave the loop
  addPC(fNot(stay)); if(pcInfeasible) throw PathEnd{1,"infeasible"}; for(size_t i=0;i<f.cuts.size();i++) if(f.cuts[i].H==H){ f.cuts.erase(f.cuts.begin()+i); break; } jump(f,ex); return true; }
static void unwind(CppExc e){ // find handler
  while(!g_st.empty()){ Frame&f=g_st.back(); if(g_dry&&g_st.size()<=g_dryDepth-0&&g_st.size()<g_dryDepth){ dryReport(); finish(); }
    CallBase*cb=nullptr; if(f.pc!=f.bb->end()) cb=dyn_cast<CallBase>(&*f.pc);
    if(auto*inv=dyn_cast_or_null<InvokeInst>(cb)){ LandingPadInst*lp=inv->getLandingPadInst(); u64 sel=0; bool take=false; for(unsigned i=0;i<lp->getNumClauses()&&!take;i++){ if(lp->isCatch(i)){ Constant*c=lp->getClause(i); if(c->isNullValue()){ sel=1; take=true; } else { u64 ti=constVal(c).i; i64 o=baseOffset(e.ti,ti); if(o>=0||o==-2){ sel=(ti>>32)&0x7fffffff; take=true; } } } } if(!take&&lp->isCleanup()) take=true; if(take){ BasicBlock*to=inv->getUnwindDest(); jump(f,to); /* pc now first non-phi = landingpad */ setR(f,lp,vAgg({vInt(e.obj,64),vInt(sel,32)})); f.pc=std::next(lp->getIterator()); return; } }
    if(g_dry&&g_st.size()==g_dryDepth){ dryReport(); finish(); }
    popFrame(); }
  std::string tn=tiNameOf(e.ti); throw MemError("uncaught exception "+llvm::demangle(tn)); }
static void pushCall(Frame&caller,CallBase*cb,Function*F,std::vector<Val>&args){ if(g_st.size()>400) throw Unsupported("call depth"); FnInfo*fi=fnInfo(F); g_st.emplace_back(); Frame&f=g_st.back(); f.fi=fi; f.r.resize(fi->n); f.cs=cb; for(unsigned i=0;i<F->arg_size()&&i<args.size();i++){ Val v=args[i]; if(F->getArg(i)->hasByValAttr()){ Type*t=F->getArg(i)->getParamByValType(); u64 id=newObj(tsz(t),"byval"); memCopy(addrOf(id),v.i,tsz(t)); f.allocas.push_back(id); v=vInt(addrOf(id),64);} f.r[i]=v; } for(size_t i=F->arg_size();i<args.size();i++) f.va.push_back(args[i]); f.bb=&F->getEntryBlock(); f.pc=f.bb->begin(); }
static void retTo(const Val&v){ // current frame already popped; g_st.back() is caller, its pc at call
  if(g_st.empty()) return; Frame&f=g_st.back(); Instruction*I=&*f.pc; setR(f,I,v); if(auto*inv=dyn_cast<InvokeInst>(I)) jump(f,inv->getNormalDest()); else ++f.pc; }
// overrides whose needle matches a function (innermost first), cached until the next vc_override
static std::unordered_map<Function*,std::vector<int>> g_ovrCache; static int g_ovrCacheEpoch=-1; static std::map<std::pair<Function*,int>,bool> g_ovrCaller;
static bool needleMatch(const std::string&s,const std::string&d){ size_t p=0; bool m=true; while(p<=s.size()){ size_t q=s.find("&&",p); std::string part=s.substr(p,q==std::string::npos?std::string::npos:q-p); if(!part.empty()&&part[0]=='^'){ if(d.rfind(part.substr(1),0)!=0) m=false; } else if(!part.empty()&&part[0]=='!'){ if(d.find(part.substr(1))!=std::string::npos) m=false; } else if(d.find(part)==std::string::npos) m=false; if(q==std::string::npos) break; p=q+2; } return m; }
static Function* overrideFor(Function*F,Function*caller){ if(g_ovr.empty()) return nullptr; if(g_ovrCacheEpoch!=g_ovrEpoch){ g_ovrCache.clear(); g_ovrCaller.clear(); g_ovrCacheEpoch=g_ovrEpoch; }
  auto it=g_ovrCache.find(F); if(it==g_ovrCache.end()){ std::vector<int> v; std::string d=demang(F->getName()); if(d.rfind("vc_",0)!=0) for(int i=(int)g_ovr.size()-1;i>=0;i--) if(needleMatch(g_ovr[i].needle,d)) v.push_back(i); it=g_ovrCache.emplace(F,std::move(v)).first; }
  for(int i:it->second){ auto&o=g_ovr[i]; if(!o.caller.empty()){ auto k=std::make_pair(caller,i); auto c=g_ovrCaller.find(k); if(c==g_ovrCaller.end()) c=g_ovrCaller.emplace(k,demang(caller->getName()).find(o.caller)!=std::string::npos).first; if(!c->second) continue; } auto fa=g_faddr.find(o.fn); Function*r=fa==g_faddr.end()?nullptr:fa->second; if(!r||r==F||r==caller) continue; g_calleeName=demang(F->getName()); return r; } return nullptr; }
static std::map<std::string,int> g_unsupportedCalls;
static void doCall(CallBase*cb){ Frame&f=g_st.back(); if(cb->isInlineAsm()){ Val v; Type*t=cb->getType(); if(t->isVoidTy()){ retTo(v); return; } throw Unsupported("inline asm"); }
  Function*F=cb->getCalledFunction(); if(!F){ Value*cv=cb->getCalledOperand(); Val v=get(f,cv); if(v.k!=V_INT) throw Unsupported("indirect call through symbolic/uninitialised pointer"); auto it=g_faddr.find(v.i); if(it==g_faddr.end()){ u64 id=v.i>>32; throw Unsupported("indirect call to non-function"+std::string(id&&id<g_objs.size()?" in "+g_objs[id].name:"")); } F=it->second; }
  if(F->isIntrinsic()&&(isa<DbgInfoIntrinsic>(cb))){ ++f.pc; return; }
  std::vector<Val> args; for(auto&a:cb->args()) args.push_back(a->getType()->isMetadataTy()?Val():get(f,a.get()));
  if(Function*o=overrideFor(F,f.fi->F)){ pushCall(f,cb,o,args); return; }
  if(F->isDeclaration()||F->getName().starts_with("vc_")||F->getName()=="_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"){ 
    if(F->getName()=="vc_run_ctors"){ // push ctors in reverse so that they run in order
      std::string needle=readStr(args[0].i); auto*gv=g_mod->getGlobalVariable("llvm.global_ctors"); std::vector<Function*> fs; if(gv) if(auto*ca=dyn_cast<ConstantArray>(gv->getInitializer())) for(auto&op:ca->operands()){ auto*fn=dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()); if(!fn) continue; for(auto&b:*fn) for(auto&i:b) if(auto*c2=dyn_cast<CallBase>(&i)) if(Function*g=c2->getCalledFunction()) if(!g->isDeclaration()) { std::string nm; for(auto&b2:*g) for(auto&i2:b2) for(auto&o2:i2.operands()) if(auto*gg=dyn_cast<GlobalVariable>(o2->stripPointerCasts())) nm+=demang(gg->getName())+";"; if(nm.find(needle)!=std::string::npos) fs.push_back(g); } } ++f.pc; for(int i=(int)fs.size()-1;i>=0;i--){ std::vector<Val> no; Frame&cur=g_st.back(); (void)cur; pushCall(f,nullptr,fs[i],no); } return; }
    if(F->getName().starts_with("llvm.va_start")){ // va_list: store pointer to saved area
      throw Unsupported("va_start"); }
    Val ret; if(builtin(f,cb,F,args,ret)){ retTo(ret); return; } throw Unsupported("external function "+demang(F->getName())); }
  pushCall(f,cb,F,args); }
static Val castOp(Instruction*I,const Val&v){ Type*st=I->getOperand(0)->getType(),*dt=I->getType(); if(dt->isVectorTy()){ if(v.k!=V_AGG) throw Unsupported("vector cast"); throw Unsupported("vector cast"); } int dw=dt->isIntegerTy()?dt->getIntegerBitWidth():64; int sw=st->isIntegerTy()?st->getIntegerBitWidth():64; if(dw>64||sw>64) throw Unsupported("wide cast"); switch(I->getOpcode()){ case Instruction::Trunc: if(v.k==V_INT) return vInt(v.i,dw); if(v.k==V_UNDEF){ Val r; r.w=dw; return r;} if(v.k==V_SINT&&dw>=32){ Val r=v; r.w=dw; return r; } throw Unsupported("trunc symbolic"); case Instruction::ZExt: if(v.k==V_FORM) return vInt(decide(v.f,"b"),dw); if(v.k==V_INT) return vInt(v.i,dw); if(v.k==V_SINT){ Val r=v; r.w=dw; return r; } { Val r; r.w=dw; return r; } case Instruction::SExt: if(v.k==V_FORM) return vInt(decide(v.f,"b")?~0ULL:0,dw); if(v.k==V_INT) return vInt((u64)sx(v.i,sw),dw); if(v.k==V_SINT){ Val r=v; r.w=dw; return r; } { Val r; r.w=dw; return r; }
   case Instruction::SIToFP: if(v.k==V_FORM) return vReal(pConst(decide(v.f,"b")?-1:0)); return vReal(asPoly(v)); case Instruction::UIToFP: if(v.k==V_FORM) return vReal(pConst(decide(v.f,"b")?1:0)); return vReal(asU(v)); case Instruction::FPToSI: case Instruction::FPToUI: { const Poly*p=asReal(v); if(!isConst(p)){ bool integ=true; for(auto&x:p->t){ if(x.second.get_den()!=1) integ=false; for(auto&q:g_mons[x.first].f) if(!g_atoms[q.first].isInt||q.second<0) integ=false; } if(integ) return vSint(p,dw); if(!hasUserAtoms(fCmp(F_EQ,p))){ Sample s; s.seed=1; return vInt((u64)(i64)evalPoly(p,s),dw);} throw Unsupported("conversion of symbolic real to integer"); } mpq_class q=constOf(p); mpz_class r; mpz_tdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return vInt((u64)r.get_si(),dw);} case Instruction::FPExt: if(v.k==V_UNDEF) return vReal(undefReal()); return v; case Instruction::FPTrunc: if(v.k==V_REAL&&isConst(v.p)&&dt->isFloatTy()) return vReal(polyOfDouble((double)(float)constOf(v.p).get_d())); return v; case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if(v.k==V_INT) return vInt(v.i,dw); return v; case Instruction::BitCast: { if(st->isDoubleTy()&&dt->isIntegerTy()){ const Poly*p=asReal(v); if(isConst(p)) return vInt(realBits(p),64); return v; } if(st->isIntegerTy()&&dt->isDoubleTy()){ if(v.k==V_INT) return vReal(polyOfDouble(bitsD(v.i))); return v; } return v; } default: throw Unsupported("cast"); } }
static void step(){ Frame&f=g_st.back(); Instruction*I=&*f.pc; if(++g_instr%4096==0){ if(nowS()>g_timeout) throw Unsupported("time limit"); }
  switch(I->getOpcode()){
  case Instruction::Alloca: { auto*A=cast<AllocaInst>(I); u64 n=1; if(A->isArrayAllocation()){ Val c=get(f,A->getArraySize()); if(c.k!=V_INT) throw Unsupported("symbolic alloca"); n=c.i; } u64 id=newObj(n*tsz(A->getAllocatedType()),"stack:"+A->getName().str()); f.allocas.push_back(id); setR(f,I,vInt(addrOf(id),64)); break; }
  case Instruction::Load: { auto*L=cast<LoadInst>(I); Val p=get(f,L->getPointerOperand()); if(p.k==V_INT) setR(f,I,loadTy(p.i,L->getType())); else if(p.k==V_SINT){ const Poly*off; u64 id=splitAddr(p.p,off); if(!g_objs[id].lazy) throw Unsupported("symbolic index into ordinary object "+g_objs[id].name); if(!L->getType()->isDoubleTy()) throw Unsupported("non-double lazy load"); setR(f,I,vReal(lazyLoad(id,off))); } else if(p.k==V_UNDEF) throw MemError("load through uninitialised pointer"); else throw Unsupported("load pointer");
     if(p.k==V_INT&&g_objs.size()>(p.i>>32)){ } break; }
  case Instruction::Store: { auto*S=cast<StoreInst>(I); Val p=get(f,S->getPointerOperand()),v=get(f,S->getValueOperand()); if(v.k==V_FORM){ v=vInt(decide(v.f,"b"),1); } if(p.k==V_INT) storeTy(p.i,S->getValueOperand()->getType(),v); else if(p.k==V_SINT){ const Poly*off; u64 id=splitAddr(p.p,off); if(!g_objs[id].lazy) throw Unsupported("symbolic index into ordinary object "+g_objs[id].name); lazyStore(id,off,asReal(v)); } else throw MemError("store through uninitialised pointer"); break; }
  case Instruction::GetElementPtr: { auto*G=cast<GetElementPtrInst>(I); if(G->getType()->isVectorTy()) throw Unsupported("vector gep"); Val p=get(f,G->getPointerOperand()); u64 off=0; const Poly*soff=nullptr; for(auto gi=gep_type_begin(G),e=gep_type_end(G);gi!=e;++gi){ Value*op=gi.getOperand(); if(StructType*st=gi.getStructTypeOrNull()){ off+=g_dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); } else { Val i=get(f,op); u64 es=tsz(gi.getIndexedType()); if(i.k==V_INT) off+=(u64)(sx(i.i,i.w)*(i64)es); else if(i.k==V_SINT){ const Poly*t=pScale(i.p,qOfU64(es)); soff=soff?pAdd(soff,t):t; } else throw Unsupported("uninitialised index"); } }
     if(p.k==V_INT&&!soff) setR(f,I,vInt(p.i+off,64)); else if(p.k==V_UNDEF) { setR(f,I,Val()); } else { const Poly*b=p.k==V_INT?pConst(qOfU64(p.i)):p.p; b=pAdd(b,pConst(qOfI64((i64)off))); if(soff) b=pAdd(b,soff); setR(f,I,vSint(b,64)); } break; }
  case Instruction::Br: { auto*B=cast<BranchInst>(I); if(B->isUnconditional()){ BasicBlock*to=B->getSuccessor(0); jump(f,to); return; } Val c=get(f,B->getCondition()); if(c.k==V_FORM){ if(!g_lenAtoms.empty()&&loopCut(B,c.f)) return; } if(c.k==V_UNDEF) throw Unsupported("branch on uninitialised value"); bool t=asBool(c,""); jump(f,B->getSuccessor(t?0:1)); return; }
  case Instruction::Switch: { auto*S=cast<SwitchInst>(I); Val c=get(f,S->getCondition()); if(c.k!=V_INT) throw Unsupported("switch on symbolic value"); BasicBlock*to=S->getDefaultDest(); for(auto&k:S->cases()) if(k.getCaseValue()->getZExtValue()==c.i){ to=k.getCaseSuccessor(); break; } jump(f,to); return; }
  case Instruction::Ret: { Val v; if(auto*rv=cast<ReturnInst>(I)->getReturnValue()) v=get(f,rv); if(g_dry&&g_st.size()==g_dryDepth){ dryReport(); finish(); } CallBase*cs=f.cs; popFrame(); if(g_st.empty()) return; if(cs) retTo(v); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(cast<CallBase>(I)); return;
  case Instruction::LandingPad: throw Unsupported("landingpad reached"); 
  case Instruction::Resume: { Val v=get(f,I->getOperand(0)); u64 o=(*v.agg)[0].i; CppExc e{o,g_excTi[o]}; ; f.pc=I->getIterator(); throw e; }
  case Instruction::Unreachable: throw MemError("unreachable executed");
  case Instruction::ICmp: { auto*C=cast<ICmpInst>(I); Type*t=C->getOperand(0)->getType(); if(t->isVectorTy()) throw Unsupported("vector icmp"); int w=t->isIntegerTy()?t->getIntegerBitWidth():64; if(w>64) throw Unsupported("wide icmp"); setR(f,I,icmp(C->getPredicate(),get(f,C->getOperand(0)),get(f,C->getOperand(1)),w)); break; }
  case Instruction::FCmp: { auto*C=cast<FCmpInst>(I); if(C->getType()->isVectorTy()) throw Unsupported("vector fcmp"); Val a=get(f,C->getOperand(0)),b=get(f,C->getOperand(1)); if(C->getPredicate()==CmpInst::FCMP_UNO||C->getPredicate()==CmpInst::FCMP_ORD) setR(f,I,vInt(C->getPredicate()==CmpInst::FCMP_ORD,1)); else setR(f,I,cmpPoly(C->getPredicate(),asReal(a),asReal(b))); break; }
  case Instruction::Select: { Val c=get(f,I->getOperand(0)); if(I->getOperand(0)->getType()->isVectorTy()) throw Unsupported("vector select"); if(c.k==V_FORM&&I->getType()->isIntegerTy(1)){ Val a=get(f,I->getOperand(1)),b=get(f,I->getOperand(2)); if(a.k!=V_UNDEF&&b.k!=V_UNDEF){ setR(f,I,vForm(fBin(F_OR,fBin(F_AND,c.f,asForm(a)),fBin(F_AND,fNot(c.f),asForm(b))))); break; } } bool t=asBool(c,"s"); setR(f,I,get(f,I->getOperand(t?1:2))); break; }
  case Instruction::FNeg: { Val a=get(f,I->getOperand(0)); if(a.k==V_AGG){ std::vector<Val> r; for(auto&x:*a.agg) r.push_back(vReal(pNeg(asReal(x)))); setR(f,I,vAgg(r)); break; } setR(f,I,vReal(pNeg(asReal(a)))); break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val a=get(f,I->getOperand(0)),b=get(f,I->getOperand(1)); if(a.k==V_AGG&&b.k==V_AGG){ std::vector<Val> r; for(size_t i=0;i<a.agg->size();i++) r.push_back(fbin(I->getOpcode(),asReal((*a.agg)[i]),asReal((*b.agg)[i]))); setR(f,I,vAgg(r)); break; } setR(f,I,fbin(I->getOpcode(),asReal(a),asReal(b))); break; }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: { if(I->getType()->isVectorTy()) throw Unsupported("vector int op"); int w=I->getType()->getIntegerBitWidth(); if(w>64) throw Unsupported("wide int op"); setR(f,I,intBin(I->getOpcode(),get(f,I->getOperand(0)),get(f,I->getOperand(1)),w)); break; }
  case Instruction::ExtractValue: { auto*E=cast<ExtractValueInst>(I); Val v=get(f,E->getAggregateOperand()); for(unsigned i:E->indices()){ if(v.k==V_UNDEF) break; if(v.k!=V_AGG) throw Unsupported("extractvalue"); v=(*v.agg)[i]; } setR(f,I,v); break; }
  case Instruction::InsertValue: { auto*E=cast<InsertValueInst>(I); Val v=get(f,E->getAggregateOperand()); std::function<Val(const Val&,Type*,unsigned)> ins=[&](const Val&x,Type*t,unsigned d)->Val{ if(d==E->getNumIndices()) return get(f,E->getInsertedValueOperand()); std::vector<Val> e; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); if(x.k==V_AGG) e=*x.agg; else e.resize(n); unsigned i=E->getIndices()[d]; Type*et=t->isStructTy()?t->getStructElementType(i):t->getArrayElementType(); e[i]=ins(e[i],et,d+1); return vAgg(e); }; setR(f,I,ins(v,E->getType(),0)); break; }
  case Instruction::ExtractElement: { Val v=get(f,I->getOperand(0)),i=get(f,I->getOperand(1)); if(v.k==V_AGG) setR(f,I,(*v.agg)[i.i]); else setR(f,I,Val()); break; }
  case Instruction::InsertElement: { Val v=get(f,I->getOperand(0)),i=get(f,I->getOperand(2)); std::vector<Val> e; if(v.k==V_AGG) e=*v.agg; else e.resize(cast<FixedVectorType>(I->getType())->getNumElements()); e[i.i]=get(f,I->getOperand(1)); setR(f,I,vAgg(e)); break; }
  case Instruction::ShuffleVector: { auto*S=cast<ShuffleVectorInst>(I); Val a=get(f,S->getOperand(0)),b=get(f,S->getOperand(1)); unsigned n=cast<FixedVectorType>(S->getOperand(0)->getType())->getNumElements(); std::vector<Val> e; for(int m:S->getShuffleMask()){ if(m<0) e.push_back(Val()); else if((unsigned)m<n) e.push_back(a.k==V_AGG?(*a.agg)[m]:Val()); else e.push_back(b.k==V_AGG?(*b.agg)[m-n]:Val()); } setR(f,I,vAgg(e)); break; }
  case Instruction::Freeze: setR(f,I,get(f,I->getOperand(0))); break;
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: { auto*A=cast<AtomicRMWInst>(I); Val p=get(f,A->getPointerOperand()),v=get(f,A->getValOperand()); int w=A->getType()->getIntegerBitWidth(); Val o=loadInt(p.i,w); unsigned op; switch(A->getOperation()){ case AtomicRMWInst::Add: op=Instruction::Add; break; case AtomicRMWInst::Sub: op=Instruction::Sub; break; case AtomicRMWInst::Or: op=Instruction::Or; break; case AtomicRMWInst::And: op=Instruction::And; break; case AtomicRMWInst::Xchg: storeVal(p.i,v,w); setR(f,I,o); ++f.pc; return; default: throw Unsupported("atomicrmw"); } storeVal(p.i,intBin(op,o,v,w),w); setR(f,I,o); break; }
  case Instruction::AtomicCmpXchg: { auto*A=cast<AtomicCmpXchgInst>(I); Val p=get(f,A->getPointerOperand()); int w=A->getNewValOperand()->getType()->isPointerTy()?64:A->getNewValOperand()->getType()->getIntegerBitWidth(); Val o=loadInt(p.i,w),e=get(f,A->getCompareOperand()); bool eq=o.i==e.i; if(eq) storeVal(p.i,get(f,A->getNewValOperand()),w); setR(f,I,vAgg({o,vInt(eq,1)})); break; }
  default: if(I->isCast()){ setR(f,I,castOp(I,get(f,I->getOperand(0)))); break; } throw Unsupported(std::string("instruction ")+I->getOpcodeName()); }
  ++f.pc; }
static void runAll(){ try{ while(!g_st.empty()){ try{ step(); } catch(CppExc&e){ CppExc x=e; unwind(x); } } endPath("ok",""); }
  catch(PathEnd&e){ if(g_dry){ finish(); } endPath("cut",e.msg); }
  catch(MemError&e){ if(g_conc){ std::string m=e.what(); report(m.rfind("uncaught",0)==0?"no-uncaught-exception":"safe-execution","failed","concrete",m+" | at "+whereStr()); endPath("fault",m); finish(); } if(g_dry) { dryReport(); finish(); } refillSamples(1); bool feas=!g_samples.empty(); Sample s; if(feas) s=g_samples[0]; else { s.seed=1; int r=z3sat(fTrue(),&s); feas=r==1; if(r==0){ endPath("cut","infeasible"); finish(); } } std::string m=e.what(); if(m.rfind("uncaught",0)==0) failObl("no-uncaught-exception",m,feas?&s:nullptr,"exec"); else failObl("safe-execution",m,feas?&s:nullptr,"exec"); endPath("fault",m); }
  catch(Unsupported&e){ if(g_dry) dryFail(std::string("unsupported: ")+e.what()+" | "+whereStr()); endPath("unsupported",e.what()); }
  catch(std::exception&e){ if(g_dry) dryFail(e.what()); endPath("unsupported",std::string("internal: ")+e.what()); }
  // record coverage of real functions
  { std::string s="{\"touched\":["; bool first=true; for(auto&t:g_touched){ s+=(first?"\"":",\"")+jesc(t)+"\""; first=false; } s+="],\"stubs\":["; first=true; for(auto&t:g_stubUsed){ s+=(first?"\"":",\"")+jesc(t)+"\""; first=false; } s+="],\"instr\":"+std::to_string(g_instr)+"}"; emit(s); }
  finish(); }
static volatile pid_t g_rootPid=0; static void onTerm(int){ if(g_rootPid>0) kill(-g_rootPid,SIGKILL); _exit(5); }
int main(int argc,char**argv){ std::string file; bool list=false; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); }; if(a=="--harness") g_harness=nx(); else if(a=="--out") g_out=nx(); else if(a=="--timeout") g_timeout=atof(nx().c_str()); else if(a=="--seed") g_seed=atoll(nx().c_str()); else if(a=="--jobs") g_jobs=atoi(nx().c_str()); else if(a=="--z3ms") g_z3ms=atoi(nx().c_str()); else if(a=="--trace") g_trace=true; else if(a=="--concrete") g_conc=true; else if(a=="--model"){ g_conc=true; g_haveModel=true; std::ifstream in(nx()); std::string k; double v; while(in>>v&&std::getline(in,k)){ if(!k.empty()&&k[0]==' ') k=k.substr(1); g_model[k]=v; } } else if(a=="--list") list=true; else file=a; }
  struct rlimit rl{1UL<<30,1UL<<30}; setrlimit(RLIMIT_STACK,&rl); struct rlimit ra{3UL<<30,3UL<<30}; setrlimit(RLIMIT_AS,&ra); g_t0=std::chrono::steady_clock::now(); SMDiagnostic err; g_mod=parseIRFile(file,err,g_ctx); if(!g_mod){ err.print("nvc",errs()); return 3; } g_dl=&g_mod->getDataLayout();
  if(list){ for(auto&F:*g_mod) if(F.getName().starts_with("vc_h_")&&!F.isDeclaration()) printf("%s\n",F.getName().substr(5).str().c_str()); return 0; }
  if(!g_out.empty()) g_fd=open(g_out.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); g_sh=(Shared*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(g_sh) Shared(); g_sh->tokens=g_jobs-1; algInit(); g_objs.resize(1);
  Function*H=g_mod->getFunction("vc_h_"+g_harness); if(!H){ fprintf(stderr,"no harness %s\n",g_harness.c_str()); return 3; } g_harnessFn=H; samplesInit(); pid_t root=fork(); if(root==0){ signal(SIGTERM,SIG_DFL); setpgid(0,0); std::vector<Val> no; Frame dummy; pushCall(dummy,nullptr,H,no); runAll(); } setpgid(root,root); g_rootPid=root; signal(SIGTERM,onTerm); int st=0; bool hard=false; for(;;){ pid_t w=waitpid(root,&st,WNOHANG); if(w==root||w<0) break; if(nowS()>g_timeout+20){ kill(-root,SIGKILL); waitpid(root,&st,0); hard=true; break; } usleep(nowS()<1?2000:20000); } if(hard) report("","end-unsupported","","time limit (process group ended)"); else if(!WIFEXITED(st)||WEXITSTATUS(st)!=0||g_sh->crashed) report("","end-unsupported","","engine crashed"); 
  std::ostringstream o; o<<"{\"summary\":1,\"h\":\""<<g_harness<<"\",\"paths\":"<<g_sh->paths<<",\"z3calls\":"<<g_sh->z3calls<<",\"z3_s\":"<<g_sh->z3us/1e6<<",\"wall_s\":"<<nowS()<<"}"; emit(o.str()); return 0; }
