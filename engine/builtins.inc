struct CppExc { u64 obj,ti; };
static std::vector<CppExc> g_caught; static std::unordered_map<u64,u64> g_excTi; // exception object -> typeinfo
static std::unordered_map<std::string,u64> g_synthTi; static std::map<u64,std::string> g_tiName;
static u64 synthTi(const std::string&n){ if(auto*g=g_mod->getNamedGlobal(n)) return globalAddr(g); auto&x=g_synthTi[n]; if(!x){ x=addrOf(newObj(64,"ti:"+n)); g_tiName[x]=n; } return x; }
[[noreturn]] static void throwStd(const std::string&ti,const std::string&msg){ u64 id=newObj(16,"exc:"+ti); u64 a=addrOf(id); g_excTi[a]=synthTi(ti); memSet(a,0,16); throw CppExc{a,g_excTi[a]}; }
struct Ovr { std::string needle,caller; u64 fn; }; static std::vector<Ovr> g_ovr; static std::string g_calleeName; static int g_ovrEpoch=0;
static std::vector<std::pair<int,const Poly*>> g_cutIdx; static std::map<std::string,int> g_nameCount; static std::set<u64> g_onceTok;
static const Poly* g_lastK=nullptr;
static std::string uniq(const std::string&n){ int c=g_nameCount[n]++; return c?n+"#"+std::to_string(c):n; }
static long g_oblN=0; static long g_lastLen=0;
static void failObl(const std::string&name,const std::string&detail,Sample*s,const std::string&how){ report(name,"failed",how,detail+" | at "+whereStr(),s?modelStr(*s):std::string()); }
static void checkForm(const std::string&name,const Form*f){ auto t0=nowS(); auto ms=[&]{return (nowS()-t0)*1000;}; g_oblN++; if(constForm(f)==1){ report(name,"proved","const","","",ms()); return; }
  if(f->op==F_TRUE){ report(name,"proved","exec",""); return; }
  if(f->op==F_AND){ /* conjuncts separately, all must hold */ std::vector<const Form*> v; flattenAnd(f,v); bool allp=true; for(auto g:v){ std::string h; if(g->op==F_TRUE) continue; if(g->op==F_EQ){ Sample s; int r=zeroTest(g->p,&s,h); if(r==0){ failObl(name,"violated: "+formStr(g),&s,h); return; } if(r<0||r==2) { report(name,r==2?"bounded":"unknown",h,formStr(g),"",ms()); return; } continue; } allp=false; break; } if(allp){ report(name,"proved","poly","","",ms()); return; } }
  if(f->op==F_EQ){ Sample s; std::string h; int r=zeroTest(f->p,&s,h); if(r==0){ failObl(name,"violated: "+formStr(f),&s,h); return; } report(name,r==1?"proved":r==2?"bounded":"unknown",h,r==1?"":formStr(f),"",ms()); return; }
  const Form*n=fNot(f); refillSamples(12); for(auto&s:g_samples) if(evalForm(f,s)==0&&sampleOkQ(s)&&evalFormQ(f,s)==0){ failObl(name,"violated: "+formStr(f),&s,"sample"); return; }
  if(!hasUserAtoms(f)){ Sample s; int r=evalForm(f,s); if(r==1){ report(name,"proved","const","","",ms()); return; } if(r==0){ failObl(name,"violated: "+formStr(f),nullptr,"const"); return; } }
  Sample s; s.seed=g_seed; int r=z3sat(n,&s,g_z3ms*3); if(r==0){ report(name,"proved","z3","","",ms()); return; } if(r==1){ s.memo.clear(); bool ok=evalForm(f,s)==0&&sampleOk(s)&&sampleOkQ(s)&&evalFormQ(f,s)==0; if(ok){ failObl(name,"violated: "+formStr(f),&s,"z3"); return; } 
    // boundary model: accept only as unknown unless strictly violated
    report(name,"unknown","z3-sat-unconfirmed",formStr(f),"",ms()); return; } report(name,"unknown","z3-timeout",formStr(f),"",ms()); }
static u64 rbN(u64 a,int off){ return loadInt(a+off,64).i; }
static void rbS(u64 a,int off,u64 v){ storeInt(a+off,v,64); }
static u64 rbColor(u64 a){ return loadInt(a,32).i; } static void rbSetColor(u64 a,u64 c){ storeInt(a,c,32); }
// node: 0 color,8 parent,16 left,24 right ; header likewise
static u64 rbInc(u64 x){ if(rbN(x,24)){ x=rbN(x,24); while(rbN(x,16)) x=rbN(x,16); return x; } u64 y=rbN(x,8); while(x==rbN(y,24)){ x=y; y=rbN(y,8);} if(rbN(x,24)!=y) x=y; return x; }
static u64 rbDec(u64 x){ if(rbColor(x)==0&&rbN(rbN(x,8),8)==x) return rbN(x,24); if(rbN(x,16)){ u64 y=rbN(x,16); while(rbN(y,24)) y=rbN(y,24); return y; } u64 y=rbN(x,8); while(x==rbN(y,16)){ x=y; y=rbN(y,8);} return y; }
static void rbRotL(u64 x,u64 h){ u64 y=rbN(x,24); rbS(x,24,rbN(y,16)); if(rbN(y,16)) rbS(rbN(y,16),8,x); rbS(y,8,rbN(x,8)); if(x==rbN(h,8)) rbS(h,8,y); else if(x==rbN(rbN(x,8),16)) rbS(rbN(x,8),16,y); else rbS(rbN(x,8),24,y); rbS(y,16,x); rbS(x,8,y); }
static void rbRotR(u64 x,u64 h){ u64 y=rbN(x,16); rbS(x,16,rbN(y,24)); if(rbN(y,24)) rbS(rbN(y,24),8,x); rbS(y,8,rbN(x,8)); if(x==rbN(h,8)) rbS(h,8,y); else if(x==rbN(rbN(x,8),24)) rbS(rbN(x,8),24,y); else rbS(rbN(x,8),16,y); rbS(y,24,x); rbS(x,8,y); }
static void rbInsert(bool left,u64 x,u64 p,u64 h){ rbS(x,8,p); rbS(x,16,0); rbS(x,24,0); rbSetColor(x,0); if(left){ rbS(p,16,x); if(p==h){ rbS(h,8,x); rbS(h,24,x);} else if(p==rbN(h,16)) rbS(h,16,x); } else { rbS(p,24,x); if(p==rbN(h,24)) rbS(h,24,x); }
  while(x!=rbN(h,8)&&rbColor(rbN(x,8))==0){ u64 xp=rbN(x,8),xpp=rbN(xp,8); if(xp==rbN(xpp,16)){ u64 y=rbN(xpp,24); if(y&&rbColor(y)==0){ rbSetColor(xp,1); rbSetColor(y,1); rbSetColor(xpp,0); x=xpp; } else { if(x==rbN(xp,24)){ x=xp; rbRotL(x,h); } rbSetColor(rbN(x,8),1); rbSetColor(xpp,0); rbRotR(xpp,h);} } else { u64 y=rbN(xpp,16); if(y&&rbColor(y)==0){ rbSetColor(xp,1); rbSetColor(y,1); rbSetColor(xpp,0); x=xpp; } else { if(x==rbN(xp,16)){ x=xp; rbRotR(x,h);} rbSetColor(rbN(x,8),1); rbSetColor(xpp,0); rbRotL(xpp,h);} } } rbSetColor(rbN(h,8),1); }
static u64 rbErase(u64 z,u64 h){ u64 y=z,x=0,xp=0; if(!rbN(y,16)) x=rbN(y,24); else if(!rbN(y,24)) x=rbN(y,16); else { y=rbN(y,24); while(rbN(y,16)) y=rbN(y,16); x=rbN(y,24);} 
  if(y!=z){ rbS(rbN(z,16),8,y); rbS(y,16,rbN(z,16)); if(y!=rbN(z,24)){ xp=rbN(y,8); if(x) rbS(x,8,rbN(y,8)); rbS(rbN(y,8),16,x); rbS(y,24,rbN(z,24)); rbS(rbN(z,24),8,y);} else xp=y; if(rbN(h,8)==z) rbS(h,8,y); else if(rbN(rbN(z,8),16)==z) rbS(rbN(z,8),16,y); else rbS(rbN(z,8),24,y); rbS(y,8,rbN(z,8)); u64 c=rbColor(y); rbSetColor(y,rbColor(z)); rbSetColor(z,c); y=z; }
  else { xp=rbN(y,8); if(x) rbS(x,8,rbN(y,8)); if(rbN(h,8)==z) rbS(h,8,x); else if(rbN(rbN(z,8),16)==z) rbS(rbN(z,8),16,x); else rbS(rbN(z,8),24,x); if(rbN(h,16)==z){ if(!rbN(z,24)) rbS(h,16,rbN(z,8)); else { u64 m=x; while(rbN(m,16)) m=rbN(m,16); rbS(h,16,m);} } if(rbN(h,24)==z){ if(!rbN(z,16)) rbS(h,24,rbN(z,8)); else { u64 m=x; while(rbN(m,24)) m=rbN(m,24); rbS(h,24,m);} } }
  (void)xp; return y; /* colours need not stay balanced for correctness of the order */ }
static u64 g_nameTi(u64 a);
static std::string tiNameOf(u64 a){ auto it=g_aglob.find(a); if(it!=g_aglob.end()) return it->second->getName().str(); auto j=g_tiName.find(a); return j!=g_tiName.end()?j->second:std::string(); }
// offset of base `to` inside `from` (-1: not a base)
static i64 baseOffset(u64 from,u64 to,int depth=0){ if(from==to) return 0; std::string fn=tiNameOf(from),tn=tiNameOf(to); if(!fn.empty()&&fn==tn) return 0; if(depth>12) return -1; auto it=g_aglob.find(from); if(it==g_aglob.end()||cast<GlobalVariable>(it->second)->isDeclaration()){ if(tn=="_ZTISt9exception"&&fn.rfind("_ZTISt",0)==0) return 0; if(tn=="_ZTISt13runtime_error"&&(fn=="_ZTISt11range_error"||fn=="_ZTISt14overflow_error")) return 0; if(tn=="_ZTISt11logic_error"&&(fn=="_ZTISt12out_of_range"||fn=="_ZTISt12length_error"||fn=="_ZTISt16invalid_argument"||fn=="_ZTISt12domain_error")) return 0; return -1; }
  auto*v=cast<GlobalVariable>(it->second); auto*s=dyn_cast<ConstantStruct>(v->getInitializer()); if(!s) return -1; unsigned n=s->getNumOperands(); if(n==3){ if(auto*g=dyn_cast<GlobalValue>(s->getOperand(2)->stripPointerCasts())) return baseOffset(globalAddr(g),to,depth+1); return -1; }
  for(unsigned i=4;i+1<n;i+=2){ auto*g=dyn_cast<GlobalValue>(s->getOperand(i)->stripPointerCasts()); auto*fl=dyn_cast<ConstantInt>(s->getOperand(i+1)); if(!g||!fl) continue; i64 off=fl->getSExtValue()>>8; bool virt=fl->getSExtValue()&1; i64 r=baseOffset(globalAddr(g),to,depth+1); if(r>=0){ if(virt) return -2; return off+r; } } return -1; }
static u64 vptrTi(u64 obj,u64&complete){ u64 vp=loadInt(obj,64).i; i64 ott=(i64)loadInt(vp-16,64).i; complete=obj+ott; return loadInt(vp-8,64).i; }
static const char* RB1="_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"; 
static std::set<std::string> g_stubUsed;
static bool isRealTy(Type*t){ return t->isDoubleTy()||t->isX86_FP80Ty()||t->isFloatTy(); }
static std::map<std::string,u64> g_strObjs;
static u64 cstrObj(const std::string&s){ auto&x=g_strObjs[s]; if(!x){ bool o=g_rec; g_rec=false; x=addrOf(newObj(s.size()+1,"str")); for(size_t i=0;i<=s.size();i++) storeInt(x+i,i<s.size()?(unsigned char)s[i]:0,8); g_rec=o; } return x; }
static bool builtin(Frame&f,CallBase*cb,Function*F,std::vector<Val>&a,Val&ret){
  StringRef n=F->getName(); auto I=[&](size_t i)->u64{ if(i>=a.size()||a[i].k!=V_INT) throw Unsupported("non-concrete argument of "+n.str()); return a[i].i; }; auto R=[&](size_t i){ return asReal(a[i]); };
  if(n.starts_with("vc_")){
    if(n=="vc_real"&&g_conc){ std::string nm=uniq(readStr(I(0))); ret=vReal(polyOfDouble(concVal(nm,constOf(R(1)).get_d(),constOf(R(2)).get_d(),false))); return true; }
    if(n=="vc_choose"&&g_conc){ std::string nm=uniq(readStr(I(0))); int k=(int)I(1); int pick=(int)concVal(nm,0,k-1,true); pick=std::max(0,std::min(k-1,pick)); g_choices.push_back({nm,pick}); ret=vInt(pick,32); return true; }
    if(n=="vc_len"&&g_conc){ g_lastLen=(long)concVal(uniq(readStr(I(0))),1,4,true); ret=vInt(g_lastLen,64); return true; }
    if(n=="vc_index"&&g_conc){ long L=(long)I(1); if(L<=0) throw PathEnd{1,"empty"}; long v=(long)concVal(uniq(readStr(I(0))),0,L-1,true); ret=vInt(std::max(0L,std::min(L-1,v)),64); return true; }
    if(n=="vc_loop_index"&&g_conc){ if(g_lastLen<=0) throw PathEnd{1,"empty"}; long v=(long)concVal("$loopindex",0,g_lastLen-1,true); ret=vInt(std::max(0L,std::min(g_lastLen-1,v)),64); return true; }
    if(n=="vc_assume"&&g_conc){ if(a[0].k==V_INT&&!(a[0].i&1)) throw PathEnd{1,"assume false"}; return true; }
    if(n=="vc_assume_eq"&&g_conc){ double x=constOf(R(0)).get_d(),y=constOf(R(1)).get_d(); if(std::fabs(x-y)>1e-6*std::max(1.0,std::max(std::fabs(x),std::fabs(y)))) throw PathEnd{1,"assume false"}; return true; }
    if(n=="vc_check_eq"&&g_conc){ std::string nm=readStr(I(0)); g_oblN++; const Poly*px=R(1),*py=R(2); if(hasNan(px)!=hasNan(py)){ report(nm,"failed","concrete",hasNan(px)?"left is not a number":"right is not a number"); return true; } if(!isConst(px)||!isConst(py)){ report(nm,"unknown","nan",""); return true; } mpq_class qx=constOf(px),qy=constOf(py); double x=qx.get_d(),y=qy.get_d(),dxy=mpq_class(qx-qy).get_d(); std::ostringstream o; o.precision(17); o<<"left = "<<x<<", right = "<<y; bool ok=std::fabs(dxy)<=1e-8*std::max(1.0,std::max(std::fabs(x),std::fabs(y))); report(nm,ok?"proved":"failed","concrete",ok?"":o.str()+" | at "+whereStr()); return true; }
    if((n=="vc_check"||n=="vc_fail")&&g_conc){ std::string nm=readStr(I(0)); g_oblN++; if(n=="vc_check"&&a[1].k!=V_INT){ report(nm,"unknown","concrete",""); return true; } bool ok=n=="vc_check"&&(a[1].i&1); report(nm,ok?"proved":"failed","concrete",ok?"":(n=="vc_fail"?"reached | at ":"false | at ")+whereStr()); return true; }
    if(n=="vc_havoc"&&g_conc){ std::string nm=readStr(I(2)); for(u64 i=0;i<I(1);i++) storeP(I(0)+8*i,V_REAL,polyOfDouble(concVal(uniq(nm+"["+std::to_string(i)+"]"),-2,2,false))); return true; }
    if(n=="vc_real"){ std::string nm=uniq(readStr(I(0))); Atom A; A.kind=A_BASE; A.user=true; A.name=nm; mpq_class lo=constOf(R(1)),hi=constOf(R(2)); if(abs(lo)<mpq_class("100000000000000000000")) A.hasLo=true,A.lo=lo; if(abs(hi)<mpq_class("100000000000000000000")) A.hasHi=true,A.hi=hi; int id=newAtom(A); g_inputs.push_back(id); ret=vReal(pAtom(id)); return true; }
    if(n=="vc_choose"){ std::string nm=uniq(readStr(I(0))); int k=(int)I(1); int pick=0; for(;pick<k-1;pick++) if(forkPath("c"+std::to_string(pick))) break; g_choices.push_back({nm,pick}); ret=vInt(pick,32); return true; }
    if(n=="vc_len"){ Atom A; A.kind=A_BASE; A.isInt=true; A.name=uniq(readStr(I(0))); A.hasLo=true; A.lo=0; int id=newAtom(A); g_lenAtoms.insert(id); g_inputs.push_back(id); ret=vSint(pAtom(id),64); return true; }
    if(n=="vc_index"){ Atom A; A.kind=A_BASE; A.isInt=true; A.name=uniq(readStr(I(0))); A.hasLo=true; A.lo=0; int id=newAtom(A); g_inputs.push_back(id); addPC(fCmp(F_LT,pSub(pAtom(id),asPoly(a[1])))); ret=vSint(pAtom(id),64); return true; }
    if(n=="vc_array"||n=="vc_array_in"){ u64 id=newObj(1ULL<<20,uniq(readStr(I(0)))); g_objs[id].s.clear(); g_objs[id].lazy=true; if(n=="vc_array_in"){ g_objs[id].alo=constOf(R(2)).get_d(); g_objs[id].ahi=constOf(R(3)).get_d(); } ret=vInt(addrOf(id),64); return true; }
    if(n=="vc_old"){ u64 id=I(0)>>32; Obj&o=g_objs[id]; if(!o.lazy) throw Unsupported("vc_old on ordinary object"); const Poly*off=pScale(asPoly(a[1]),8); for(auto&c:o.init) if(c.off==off){ ret=vReal(c.val); return true; } std::vector<LazyCell> sv; sv.swap(o.cur); const Poly*v=lazyLoad(id,off); g_objs[id].cur.swap(sv); ret=vReal(v); return true; }
    if(n=="vc_loop_index"){ if(!g_lastK) throw Unsupported("no loop was cut"); ret=vSint(g_lastK,64); return true; }
    if(n=="vc_assume"){ if(a[0].k==V_UNDEF) throw Unsupported("assume undef"); const Form*c=asForm(a[0]); if(c->op==F_FALSE) throw PathEnd{1,"assume false"}; addPC(c); if(pcInfeasible) throw PathEnd{1,"assume false"}; refillSamples(4); return true; }
    if(n=="vc_assume_eq"){ const Poly*d=pSub(R(0),R(1)); if(!d->t.empty()) addPC(fCmp(F_EQ,d)); return true; }
    if(n=="vc_check"){ std::string nm=readStr(I(0)); if(a[1].k==V_UNDEF){ failObl(nm,"value is uninitialised",nullptr,"exec"); return true; } if(a[1].k==V_INT){ g_oblN++; if(a[1].i&1) report(nm,"proved","exec",""); else { refillSamples(1); bool feas=!g_samples.empty(); Sample s; if(feas) s=g_samples[0]; else { s.seed=1; int r=z3sat(fTrue(),&s); if(r==0) throw PathEnd{1,"infeasible"}; if(r!=1||!sampleOk(s)) { report(nm,"unknown","path-feasibility","check is false on a path whose feasibility is undecided"); return true; } } failObl(nm,"check evaluates to false on this path",&s,"exec"); } return true; } checkForm(nm,asForm(a[1])); return true; }
    if(n=="vc_check_eq"){ std::string nm=readStr(I(0)); const Poly*x=R(1),*y=R(2); g_oblN++; if(g_trace) fprintf(stderr,"[eq %s] lhs %zu rhs %zu terms\n",nm.c_str(),x->t.size(),y->t.size()); auto t0=nowS(); const Poly*d=pSub(x,y); Sample s; std::string h; g_scaleP={x,y}; int r=zeroTest(d,&s,h); g_scaleP.clear(); double ms=(nowS()-t0)*1000; if(r==0) { double xv=evalPoly(x,s),yv=evalPoly(y,s); std::ostringstream o; o.precision(15); o<<"left = "<<xv<<", right = "<<yv; failObl(nm,o.str(),&s,h); } else report(nm,r==1?"proved":r==2?"bounded":"unknown",h,r==1?"":polyStr(d),"",ms); return true; }
    if(n=="vc_reach"){ report(readStr(I(0)),"reached","exec",""); return true; }
    if(n=="vc_fail"){ std::string nm=readStr(I(0)); g_oblN++; refillSamples(1); if(!g_samples.empty()){ failObl(nm,"reached",&g_samples[0],"exec"); } else { Sample s; s.seed=1; int r=z3sat(fTrue(),&s); if(r==0){ report(nm,"proved","z3",""); throw PathEnd{1,"infeasible"}; } if(r==1&&sampleOk(s)) failObl(nm,"reached",&s,"z3"); else report(nm,"unknown","z3","reached; feasibility unknown"); } return true; }
    if(n=="vc_name"){ ret=vReal(nameIt(R(0))); return true; }
    if(n=="vc_is_symbolic"){ ret=vInt(g_conc?0:1,1); return true; }
    if(n=="vc_unsupported") throw Unsupported(readStr(I(0)));
    if(n=="vc_override"){ g_ovr.push_back({readStr(I(0)),"",I(1)}); g_ovrEpoch++; return true; }
    if(n=="vc_override_at"){ g_ovr.push_back({readStr(I(0)),readStr(I(1)),I(2)}); g_ovrEpoch++; return true; }
    if(n=="vc_callee"){ ret=vInt(cstrObj(g_calleeName),64); return true; }
    if(n=="vc_callee_has"){ ret=vInt(g_calleeName.find(readStr(I(0)))!=std::string::npos,1); return true; }
    if(n=="vc_pivot_rank"){ const Poly*x=R(0); int r; if(x->t.empty()) r=0; else if(g_conc&&isConst(x)){ double v=std::fabs(constOf(x).get_d()); r=v<1e-13?0:2; } else if(isConst(x)) r=4; else if(x->t.size()==1) r=3; else { Sample s2; std::string h; if(zeroTest(x,&s2,h)==1) r=0; else r=z3sat(fCmp(F_EQ,x),nullptr,300)==0?2:1; } ret=vInt(r,32); return true; }
    if(n=="vc_is_const"){ ret=vInt(isConst(R(0)),1); return true; }
    if(n=="vc_poly_coeff"){ const Poly*p=R(0),*x=R(1); int k=(int)sx(I(2),32); if(x->t.size()!=1||g_mons[x->t[0].first].f.size()!=1) throw Unsupported("vc_poly_coeff: not an input"); int at=g_mons[x->t[0].first].f[0].first; for(;;){ int best=-1,bl=-1; for(auto&y:p->t) for(auto&q:g_mons[y.first].f) if(g_atoms[q.first].def){ int l=atomLevel(q.first); if(l>bl){ bl=l; best=q.first; } } if(best<0) break; p=substAtom(p,best,g_atoms[best].def);} std::vector<std::pair<Mon,mpq_class>> t; for(auto&y:p->t){ int e=0; std::vector<std::pair<int,int>> rest; for(auto&q:g_mons[y.first].f){ if(q.first==at) e=q.second; else rest.push_back(q);} if(e==k) t.push_back({mkMon(rest),y.second}); } ret=vReal(intern(std::move(t))); return true; }
    if(n=="vc_print"){ fprintf(stderr,"[%s] %s = %s\n",g_path.c_str(),readStr(I(0)).c_str(),polyStr(R(1),40).c_str()); return true; }
    if(n=="vc_print_int"){ fprintf(stderr,"[%s] %s = %s\n",g_path.c_str(),readStr(I(0)).c_str(),a[1].k==V_INT?std::to_string((i64)a[1].i).c_str():a[1].k==V_UNDEF?"undef":polyStr(asPoly(a[1])).c_str()); return true; }
    if(n=="vc_once"){ ret=vInt(g_onceTok.insert(I(0)).second,1); return true; }
    if(n=="vc_havoc"){ std::string nm=readStr(I(2)); for(u64 i=0;i<I(1);i++){ Atom A; A.kind=A_BASE; A.name=uniq(nm+"["+std::to_string(i)+"]"); int id=newAtom(A); g_inputs.push_back(id); storeP(I(0)+8*i,V_REAL,pAtom(id)); } return true; }
    if(n=="vc_run_ctors") return false;
  }
  static const std::unordered_map<std::string,std::string> m1={{"sqrt","sqrt"},{"exp","exp"},{"log","log"},{"fabs","fabs"},{"sin","sin"},{"cos","cos"},{"tan","tan"},{"tanh","tanh"},{"atan","atan"},{"acos","acos"},{"asin","asin"},{"sinh","sinh"},{"cosh","cosh"},{"floor","floor"},{"ceil","ceil"},{"round","round"},{"trunc","trunc"},{"cbrt","cbrt"},{"erf","erf"},
   {"llvm.sqrt.f64","sqrt"},{"llvm.exp.f64","exp"},{"llvm.log.f64","log"},{"llvm.fabs.f64","fabs"},{"llvm.sin.f64","sin"},{"llvm.cos.f64","cos"},{"llvm.floor.f64","floor"},{"llvm.ceil.f64","ceil"},{"llvm.round.f64","round"},{"llvm.trunc.f64","trunc"},{"sqrtl","sqrt"},{"llvm.fabs.f80","fabs"},{"llvm.sqrt.f80","sqrt"},{"expl","exp"},{"logl","log"},{"llvm.rint.f64","round"},{"llvm.nearbyint.f64","round"}};
  auto it=m1.find(n.str()); if(it!=m1.end()){ ret=vReal(doFun1(it->second,R(0))); return true; }
  if(n=="log2"||n=="log10"){ const Poly*p=R(0); if(isConst(p)){ ret=vReal(constNum(n=="log2"?std::log2(constOf(p).get_d()):std::log10(constOf(p).get_d()))); return true;} ret=vReal(pScale(doFun1("log",p),1/ratOf(std::log(n=="log2"?2.0:10.0)))); return true; }
  if(n=="pow"||n=="llvm.pow.f64"||n=="powl"){ ret=vReal(doPow(R(0),R(1))); return true; }
  if(n=="llvm.powi.f64.i32"){ ret=vReal(doPow(R(0),asPoly(a[1]))); return true; }
  if(n=="atan2"){ const Poly*x=R(0),*y=R(1); if(isConst(x)&&isConst(y)) ret=vReal(constNum(std::atan2(constOf(x).get_d(),constOf(y).get_d()))); else ret=vReal(pFun("atan2",x,y)); return true; }
  if(n=="fmod"){ ret=fbin(Instruction::FRem,R(0),R(1)); return true; }
  if(n=="hypot"){ ret=vReal(doSqrt(pAdd(pMul(R(0),R(0)),pMul(R(1),R(1))))); return true; }
  if(n=="fmax"||n=="fmin"||n=="llvm.maxnum.f64"||n=="llvm.minnum.f64"){ bool mx=n.contains("max"); const Poly*x=R(0),*y=R(1); const Poly*d=pSub(y,x); bool le; if(isConst(d)) le=constOf(d)>=0; else le=decide(fCmp(F_LE,pSub(x,y)),"m"); ret=vReal(le==mx?y:x); return true; }
  if(n=="llvm.fmuladd.f64"||n=="llvm.fma.f64"||n=="fma"){ ret=vReal(pAdd(pMul(R(0),R(1)),R(2))); return true; }
  if(n=="llvm.copysign.f64"||n=="copysign"){ const Poly*x=doFun1("fabs",R(0)); bool pos=isConst(R(1))?constOf(R(1))>=0:decide(fCmp(F_LE,pNeg(R(1))),"g"); ret=vReal(pos?x:pNeg(x)); return true; }
  if(n.starts_with("llvm.is.fpclass")||n=="_ZSt5isnand"||n=="isnan"||n=="__isnan"||n=="_ZSt5isinfd"||n=="__isinf"){ ret=vInt(0,F->getReturnType()->getIntegerBitWidth()); return true; }
  if(n=="_ZSt8isfinited"||n=="finite"||n=="__finite"){ ret=vInt(1,F->getReturnType()->getIntegerBitWidth()); return true; }
  if(n=="abs"||n=="labs"||n.starts_with("llvm.abs.")){ if(a[0].k!=V_INT){ const Poly*p=asPoly(a[0]); bool pos=decide(fCmp(F_LE,pNeg(p)),"a"); ret=vSint(pos?p:pNeg(p),a[0].w); return true; } i64 v=sx(a[0].i,a[0].w); ret=vInt(v<0?-v:v,a[0].w); return true; }
  if(n.starts_with("llvm.umax.")||n.starts_with("llvm.umin.")){ bool mx=n.contains("umax"); ret=vInt(mx?std::max(I(0),I(1)):std::min(I(0),I(1)),a[0].w); return true; }
  if(n.starts_with("llvm.smax.")||n.starts_with("llvm.smin.")){ bool mx=n.contains("smax"); i64 x=sx(I(0),a[0].w),y=sx(I(1),a[0].w); ret=vInt(mx?std::max(x,y):std::min(x,y),a[0].w); return true; }
  if(n=="lround"||n=="llvm.lround.i64.f64"||n=="lrint"||n=="llvm.lrint.i64.f64"){ const Poly*p=doFun1("round",R(0)); ret=vInt((u64)constOf(p).get_num().get_si(),64); return true; }
  if(n.starts_with("llvm.memcpy")||n.starts_with("llvm.memmove")){ memCopy(I(0),I(1),I(2)); return true; }
  if(n=="memcpy"||n=="memmove"){ memCopy(I(0),I(1),I(2)); ret=a[0]; return true; }
  if(n.starts_with("llvm.memset")){ if(a[1].k==V_UNDEF) return true; memSet(I(0),I(1),I(2)); return true; } if(n=="memset"){ memSet(I(0),I(1),I(2)); ret=a[0]; return true; }
  if(n=="memcmp"||n=="bcmp"||n=="strncmp"||n=="strcmp"){ u64 k=a.size()>2?I(2):1<<20; int r=0; bool str=n.starts_with("str"); for(u64 i=0;i<k;i++){ Val x=loadInt(I(0)+i,8),y=loadInt(I(1)+i,8); if(x.k!=V_INT||y.k!=V_INT) throw Unsupported("memcmp symbolic"); if(x.i!=y.i){ r=x.i<y.i?-1:1; break; } if(str&&!x.i) break; } ret=vInt((u64)(i64)r,32); return true; }
  if(n=="strlen"){ ret=vInt(readStr(I(0),1<<20).size(),64); return true; }
  if(n=="memchr"){ u64 p=I(0); ret=vInt(0,64); for(u64 i=0;i<I(2);i++) if(loadInt(p+i,8).i==(I(1)&0xff)){ ret=vInt(p+i,64); break; } return true; }
  if(n.starts_with("llvm.dbg")||n.starts_with("llvm.lifetime")||n.starts_with("llvm.assume")||n.starts_with("llvm.stackrestore")||n.starts_with("llvm.donothing")||n.starts_with("llvm.experimental.noalias")||n.starts_with("llvm.prefetch")||n.starts_with("llvm.invariant")) { if(!F->getReturnType()->isVoidTy()) ret=vInt(0,64); return true; }
  if(n.starts_with("llvm.stacksave")){ ret=vInt(0,64); return true; } if(n.starts_with("llvm.expect")){ ret=a[0]; return true; } if(n.starts_with("llvm.launder")||n.starts_with("llvm.strip")||n.starts_with("llvm.threadlocal.address")){ ret=a[0]; return true; } if(n.starts_with("llvm.objectsize")){ ret=vInt(~0ULL,64); return true; } if(n.starts_with("llvm.is.constant")){ ret=vInt(0,1); return true; }
  if(n=="llvm.eh.typeid.for"||n.starts_with("llvm.eh.typeid.for")){ ret=vInt((I(0)>>32)&0x7fffffff,32); return true; }
  if(n=="llvm.trap"||n=="abort"||n=="_ZSt9terminatev"||n=="exit"||n=="__assert_fail"||n=="__cxa_pure_virtual") throw MemError("call of "+n.str());
  if(n.starts_with("llvm.uadd.with.overflow")||n.starts_with("llvm.umul.with.overflow")||n.starts_with("llvm.usub.with.overflow")||n.starts_with("llvm.sadd.with.overflow")||n.starts_with("llvm.smul.with.overflow")){ unsigned __int128 x=I(0),y=I(1); int w=a[0].w; unsigned __int128 r=n.contains("mul")?x*y:n.contains("sub")?x-y:x+y; bool ov=n.contains(".u")&&(n.contains("sub")?y>x:(w<128&&(r>>w)!=0)); ret=vAgg({vInt((u64)r,w),vInt(ov,1)}); return true; }
  if(n.starts_with("llvm.ctlz")){ u64 v=I(0); int w=a[0].w,c=0; for(int i=w-1;i>=0&&!((v>>i)&1);i--) c++; ret=vInt(c,w); return true; } if(n.starts_with("llvm.cttz")){ u64 v=I(0); int w=a[0].w,c=0; for(int i=0;i<w&&!((v>>i)&1);i++) c++; ret=vInt(c,w); return true; } if(n.starts_with("llvm.ctpop")){ ret=vInt(__builtin_popcountll(I(0)),a[0].w); return true; }
  if(n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmSt11align_val_t"||n=="_ZnamSt11align_val_t"||n=="_ZnwmRKSt9nothrow_t"){ u64 sz=I(0); u64 id=newObj(sz,"heap"); ret=vInt(addrOf(id),64); return true; }
  if(n=="calloc"){ u64 id=newObj(I(0)*I(1),"heap",false); ret=vInt(addrOf(id),64); return true; }
  if(n=="posix_memalign"){ u64 id=newObj(I(2),"heap"); storeInt(I(0),addrOf(id),64); ret=vInt(0,32); return true; }
  if(n=="realloc"){ u64 id=newObj(I(1),"heap"); if(I(0)){ u64 os=g_objs[I(0)>>32].size; memCopy(addrOf(id),I(0),std::min<u64>(os,I(1))); } ret=vInt(addrOf(id),64); return true; }
  if(n=="free"||n.starts_with("_ZdlPv")||n.starts_with("_ZdaPv")){ u64 p=I(0); if(p){ u64 id=p>>32; if(id>=g_objs.size()||!g_objs[id].alive||(p&0xffffffff)!=BASEOFF) throw MemError("invalid free"); g_objs[id].alive=false; std::vector<Slot>().swap(g_objs[id].s);} return true; }
  if(n=="__cxa_guard_acquire"){ Val g=loadInt(I(0),8); bool done=g.k==V_INT&&(g.i&1); ret=vInt(!done,32); return true; } if(n=="__cxa_guard_release"){ storeInt(I(0),1,8); return true; } if(n=="__cxa_guard_abort") return true;
  if(n=="__cxa_atexit"||n=="__cxa_thread_atexit"){ ret=vInt(0,32); return true; }
  if(n=="__gxx_personality_v0") return true; if(n=="pthread_mutex_lock"||n=="pthread_mutex_unlock"){ ret=vInt(0,32); return true; } if(n=="__libc_single_threaded"||n=="__gthread_active_p"){ ret=vInt(0,32); return true; }
  if(n=="__cxa_allocate_exception"){ u64 id=newObj(I(0),"exception"); ret=vInt(addrOf(id),64); return true; } if(n=="__cxa_free_exception") return true;
  if(n=="__cxa_throw"){ g_excTi[I(0)]=I(1); throw CppExc{I(0),I(1)}; }
  if(n=="__cxa_begin_catch"){ u64 o=I(0); g_caught.push_back({o,g_excTi[o]}); ret=a[0]; return true; } if(n=="__cxa_end_catch"){ if(!g_caught.empty()) g_caught.pop_back(); return true; } if(n=="__cxa_get_exception_ptr"){ ret=a[0]; return true; } if(n=="__cxa_rethrow"){ if(g_caught.empty()) throw MemError("rethrow without exception"); CppExc e=g_caught.back(); throw e; }
  if(n=="__dynamic_cast"){ u64 c; u64 ti=vptrTi(I(0),c); i64 o=baseOffset(ti,I(2)); if(o==-2) throw Unsupported("dynamic_cast virtual base"); ret=vInt(o<0?0:c+o,64); return true; }
  if(n=="__cxa_bad_cast") throwStd("_ZTISt8bad_cast",""); if(n=="__cxa_bad_typeid") throwStd("_ZTISt10bad_typeid","");
  if(n=="__cxa_throw_bad_array_new_length") throwStd("_ZTISt20bad_array_new_length","");
  if(n.starts_with("_ZSt20__throw_out_of_range")||n.starts_with("_ZSt24__throw_out_of_range_fmt")) throwStd("_ZTISt12out_of_range",""); if(n.starts_with("_ZSt20__throw_length_error")) throwStd("_ZTISt12length_error",""); if(n.starts_with("_ZSt19__throw_logic_error")) throwStd("_ZTISt11logic_error",""); if(n.starts_with("_ZSt17__throw_bad_alloc")||n.starts_with("_ZSt28__throw_bad_array_new_length")) throwStd("_ZTISt9bad_alloc",""); if(n.starts_with("_ZSt25__throw_bad_function_call")) throwStd("_ZTISt17bad_function_call",""); if(n.starts_with("_ZSt24__throw_invalid_argument")) throwStd("_ZTISt16invalid_argument",""); if(n.starts_with("_ZSt16__throw_bad_cast")) throwStd("_ZTISt8bad_cast","");
  if(n.starts_with("_ZSt18_Rb_tree_increment")){ ret=vInt(rbInc(I(0)),64); return true; } if(n.starts_with("_ZSt18_Rb_tree_decrement")){ ret=vInt(rbDec(I(0)),64); return true; } if(n.starts_with("_ZSt29_Rb_tree_insert_and_rebalance")){ rbInsert(I(0)&1,I(1),I(2),I(3)); return true; } if(n.starts_with("_ZSt28_Rb_tree_rebalance_for_erase")){ ret=vInt(rbErase(I(0),I(1)),64); return true; }
  if(n=="_ZNSt8__detail15_List_node_base7_M_hookEPS0_"){ u64 x=I(0),p=I(1); u64 pr=rbN(p,8); rbS(x,0,p); rbS(x,8,pr); rbS(pr,0,x); rbS(p,8,x); return true; } if(n=="_ZNSt8__detail15_List_node_base9_M_unhookEv"){ u64 nx=rbN(I(0),0),pv=rbN(I(0),8); rbS(pv,0,nx); rbS(nx,8,pv); return true; }
  if(n=="_ZSt11_Hash_bytesPKvmm"){ u64 h=1469598103934665603ULL; for(u64 i=0;i<I(1);i++) h=(h^loadInt(I(0)+i,8).i)*1099511628211ULL; ret=vInt(h,64); return true; }
  if(n=="_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"){ ret=vAgg({vInt(0,1),vInt(0,64)}); return true; } if(n=="_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"){ ret=vInt(I(1),64); return true; }
  if(n=="clock"||n=="time"||n=="getpid"){ ret=vInt(1000,F->getReturnType()->getIntegerBitWidth()); return true; }
  if(n=="printf"||n=="puts"||n=="fprintf"||n=="putchar"||n=="fflush"){ ret=vInt(0,32); return true; }
  if(n=="atoi"){ ret=vInt((u64)(i64)atoi(readStr(I(0)).c_str()),32); return true; }
  // iostream / string formatting: output is not part of any property; streams are returned unchanged
  std::string d=demang(n); 
  if(d.find("std::ostream")!=std::string::npos||d.find("std::basic_ostream")!=std::string::npos||d.find("std::ios")!=std::string::npos||d.find("std::basic_ios")!=std::string::npos||d.find("stringstream")!=std::string::npos||d.find("std::basic_ofstream")!=std::string::npos||d.find("std::locale")!=std::string::npos||d.find("ConditionalOStream")!=std::string::npos||d.find("std::basic_streambuf")!=std::string::npos||d.find("std::basic_filebuf")!=std::string::npos||d.find("stringbuf")!=std::string::npos){
    g_stubUsed.insert("iostream"); if(n=="_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv"||n=="_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"||d.find("::str() const")!=std::string::npos){ u64 s=I(0); storeInt(s,s+16,64); storeInt(s+8,0,64); storeInt(s+16,0,8); return true; }
    Type*t=F->getReturnType(); if(t->isPointerTy()) ret=a.empty()?vInt(0,64):a[0]; else if(t->isIntegerTy()) ret=vInt(0,t->getIntegerBitWidth()); else if(!t->isVoidTy()) return false; return true; }
  if(n=="MPI_Comm_rank"||n=="MPI_Comm_size"){ storeInt(I(1),n=="MPI_Comm_size",32); ret=vInt(0,32); return true; }
  if(n=="MPI_Barrier"){ ret=vInt(0,32); return true; }
  if(n=="MPI_Initialized"||n=="MPI_Finalized"){ storeInt(I(0),n=="MPI_Initialized",32); ret=vInt(0,32); return true; }
  if(d.rfind("dealii::Utilities::MPI::this_mpi_process",0)==0){ ret=vInt(0,32); return true; } if(d.rfind("dealii::Utilities::MPI::n_mpi_processes",0)==0){ ret=vInt(1,32); return true; }
  return false; }
