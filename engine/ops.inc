static std::set<int> g_lenAtoms;
static Val cmpPoly(CmpInst::Predicate p,const Poly*a,const Poly*b){ const Poly*d=pSub(a,b); FOp op; bool swap=false,neg=false; switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: case CmpInst::ICMP_EQ: op=F_EQ; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: case CmpInst::ICMP_NE: op=F_NE; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: op=F_LT; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: op=F_LE; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: op=F_LT; swap=true; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: op=F_LE; swap=true; break; case CmpInst::FCMP_ORD: return vInt(1,1); case CmpInst::FCMP_UNO: return vInt(0,1); case CmpInst::FCMP_TRUE: return vInt(1,1); case CmpInst::FCMP_FALSE: return vInt(0,1); default: throw Unsupported("cmp predicate"); } (void)neg; if(swap) d=pNeg(d);
  if(isConst(d)){ int s=sgn(constOf(d)); bool r= op==F_EQ?s==0:op==F_NE?s!=0:op==F_LT?s<0:s<=0; return vInt(r,1);} return vForm(fCmp(op,d)); }
static Val icmp(CmpInst::Predicate p,const Val&a,const Val&b,int w){ if(a.k==V_INT&&b.k==V_INT){ i64 x=sx(a.i,w),y=sx(b.i,w); u64 ux=maskw(a.i,w),uy=maskw(b.i,w); bool r; switch(p){ case CmpInst::ICMP_EQ: r=ux==uy; break; case CmpInst::ICMP_NE: r=ux!=uy; break; case CmpInst::ICMP_SLT: r=x<y; break; case CmpInst::ICMP_SLE: r=x<=y; break; case CmpInst::ICMP_SGT: r=x>y; break; case CmpInst::ICMP_SGE: r=x>=y; break; case CmpInst::ICMP_ULT: r=ux<uy; break; case CmpInst::ICMP_ULE: r=ux<=uy; break; case CmpInst::ICMP_UGT: r=ux>uy; break; default: r=ux>=uy; } return vInt(r,1);} if(a.k==V_FORM||b.k==V_FORM){ if(w==1&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){ const Form*x=asForm(a),*y=asForm(b); const Form*eq=fBin(F_OR,fBin(F_AND,x,y),fBin(F_AND,fNot(x),fNot(y))); return vForm(p==CmpInst::ICMP_EQ?eq:fNot(eq)); } throw Unsupported("icmp on formula"); } if(a.k==V_UNDEF||b.k==V_UNDEF){ Val r; r.w=1; return r; } bool us=CmpInst::isUnsigned(p); return cmpPoly(p,us?asU(a):asPoly(a),us?asU(b):asPoly(b)); }
static Val intBin(unsigned op,const Val&a,const Val&b,int w){ 
  if(a.k==V_UNDEF||b.k==V_UNDEF){ Val r; r.w=w; return r; }
  if(a.k==V_INT&&b.k==V_INT){ u64 x=a.i,y=b.i; i64 sxx=sx(x,w),sy=sx(y,w); u64 r; switch(op){ case Instruction::Add: r=x+y; break; case Instruction::Sub: r=x-y; break; case Instruction::Mul: r=x*y; break; case Instruction::UDiv: if(!y) throw MemError("integer division by zero"); r=x/y; break; case Instruction::SDiv: if(!sy) throw MemError("integer division by zero"); r=sy==-1?(u64)-sxx:(u64)(sxx/sy); break; case Instruction::URem: if(!y) throw MemError("integer division by zero"); r=x%y; break; case Instruction::SRem: if(!sy) throw MemError("integer division by zero"); r=sy==-1?0:(u64)(sxx%sy); break; case Instruction::Shl: r=y>=64?0:x<<y; break; case Instruction::LShr: r=y>=64?0:x>>y; break; case Instruction::AShr: r=(u64)(sxx>>(y>63?63:y)); break; case Instruction::And: r=x&y; break; case Instruction::Or: r=x|y; break; case Instruction::Xor: r=x^y; break; default: throw Unsupported("int op"); } return vInt(r,w); }
  if(a.k==V_FORM||b.k==V_FORM){ const Form*x=asForm(a),*y=asForm(b); switch(op){ case Instruction::And: return vForm(fBin(F_AND,x,y)); case Instruction::Or: return vForm(fBin(F_OR,x,y)); case Instruction::Xor: if(y->op==F_TRUE) return vForm(fNot(x)); if(x->op==F_TRUE) return vForm(fNot(y)); if(y->op==F_FALSE) return a; return vForm(fBin(F_OR,fBin(F_AND,x,fNot(y)),fBin(F_AND,fNot(x),y))); default: throw Unsupported("arith on formula"); } }
  const Poly*p=asPoly(a),*q=asPoly(b); switch(op){ case Instruction::Add: return vSint(pAdd(p,q),w); case Instruction::Sub: return vSint(pSub(p,q),w); case Instruction::Mul: return vSint(pMulRaw(p,q),w); case Instruction::Shl: if(b.k==V_INT) { mpz_class t=1; t<<=b.i; return vSint(pScale(p,mpq_class(t)),w);} break; case Instruction::SDiv: case Instruction::AShr: case Instruction::LShr: case Instruction::UDiv: if(b.k==V_INT){ mpz_class t; if(op==Instruction::SDiv||op==Instruction::UDiv) mpz_set_ui(t.get_mpz_t(),b.i); else { t=1; t<<=b.i; } const Poly*r=pScale(p,mpq_class(1)/mpq_class(t)); bool ok=true; for(auto&x:r->t) if(x.second.get_den()!=1) ok=false; if(ok) return vSint(r,w);} break; default: break; } throw Unsupported("symbolic integer operation"); }
static const Poly* polyOfF128(f128 v){ if(!finiteq(v)) return polyOfDouble((double)v); return pConst(qOfF128(v)); }
static Val fbin(unsigned op,const Poly*a,const Poly*b){ if(hasNan(a)||hasNan(b)||(op==Instruction::FMul&&((a->t.empty()&&isInf(b))||(b->t.empty()&&isInf(a))))) return vReal(freshNan()); if(g_conc&&isConst(a)&&isConst(b)){ f128 x=f128OfQ(constOf(a)),y=f128OfQ(constOf(b)),r; switch(op){ case Instruction::FAdd: r=x+y; break; case Instruction::FSub: r=x-y; break; case Instruction::FMul: r=x*y; break; case Instruction::FDiv: r=x/y; break; default: r=fmodq(x,y); } return vReal(polyOfF128(r)); } switch(op){ case Instruction::FAdd: return vReal(pAdd(a,b)); case Instruction::FSub: return vReal(pSub(a,b)); case Instruction::FMul: return vReal(pMul(a,b)); case Instruction::FDiv: if(b->t.empty()){ if(a->t.empty()) return vReal(freshNan()); if(isConst(a)) return vReal(polyOfDouble(sgn(constOf(a))>0?INFINITY:-INFINITY)); throw Unsupported("division by zero"); } return vReal(pDiv(a,b)); case Instruction::FRem: if(isConst(a)&&isConst(b)) return vReal(polyOfDouble(std::fmod(constOf(a).get_d(),constOf(b).get_d()))); throw Unsupported("frem"); default: throw Unsupported("fp op"); } }
static const Poly* constNum(double v){ return polyOfDouble(v); }
static const Poly* doSqrt(const Poly*a){ if(hasNan(a)) return freshNan(); if(g_conc&&isConst(a)) return polyOfF128(sqrtq(f128OfQ(constOf(a)))); if(isConst(a)){ mpq_class q=constOf(a); if(q<0) return freshNan(); mpz_class n=q.get_num(),d=q.get_den(); if(mpz_perfect_square_p(n.get_mpz_t())&&mpz_perfect_square_p(d.get_mpz_t())){ mpz_class rn=sqrt(n),rd=sqrt(d); return pConst(mpq_class(rn,rd)); } if(d>1000000||n>mpz_class(1000000)*1000000) return constNum(std::sqrt(q.get_d()));
    // n/d = (n*d)/d^2 ; pull squares
    mpz_class m=n*d, s=1; for(int f=2;f<2000;f++){ mpz_class f2=f*f; if(f2>m) break; while(m%f2==0){ m/=f2; s*=f; } } return pScale(pFun("sqrt",pConst(mpq_class(m))),mpq_class(s,d)); }
  // monomial squares: sqrt(c m^2)
  if(a->t.size()==1){ auto&f=g_mons[a->t[0].first].f; bool ev=true; for(auto&x:f) if(x.second%2) ev=false; if(ev){ const Poly*c=doSqrt(pConst(a->t[0].second)); std::vector<std::pair<int,int>> h=f; for(auto&x:h) x.second/=2; std::vector<std::pair<Mon,mpq_class>> t; t.push_back({mkMon(h),1}); const Poly*m=intern(std::move(t)); bool pos=decide(fCmp(F_LE,pNeg(m)),"q"); return pMul(c,pos?m:pNeg(m)); } }
  const Poly*n=nameIt(a); mpq_class c=n->t.size()==1?n->t[0].second:mpq_class(1); if(n->t.size()==1&&c>0&&c!=1){ return pMul(doSqrt(pConst(c)),pFun("sqrt",pScale(n,1/c))); } return pFun("sqrt",n); }
static const Poly* doFun1(const std::string&fn,const Poly*a){ if(fn=="fabs"){ if(isConst(a)) return pConst(abs(constOf(a))); bool pos=decide(fCmp(F_LE,pNeg(a)),"a"); return pos?a:pNeg(a); } if(fn=="sqrt") return doSqrt(a); if(isConst(a)){ double x=constOf(a).get_d(); if(x==0&&(fn=="exp"||fn=="cos"||fn=="cosh")) return pOne(); if(x==0&&(fn=="sin"||fn=="tan"||fn=="tanh"||fn=="atan"||fn=="asin"||fn=="sinh"||fn=="cbrt"||fn=="erf")) return pZero(); if(x==1&&fn=="log") return pZero(); if(fn=="floor"){ mpq_class q=constOf(a); mpz_class r; mpz_fdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return pConst(mpq_class(r)); } if(fn=="ceil"){ mpq_class q=constOf(a); mpz_class r; mpz_cdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return pConst(mpq_class(r)); } if(fn=="round"){ mpq_class q=constOf(a); bool ng=q<0; mpq_class h=abs(q)+mpq_class(1,2); mpz_class r; mpz_fdiv_q(r.get_mpz_t(),h.get_num_mpz_t(),h.get_den_mpz_t()); if(ng) r=-r; return pConst(mpq_class(r)); } if(fn=="trunc"){ mpq_class q=constOf(a); mpz_class r; mpz_tdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return pConst(mpq_class(r)); } if(g_conc) return polyOfF128(fun128(fn,f128OfQ(constOf(a)),0)); double v; if(fn=="exp") v=std::exp(x); else if(fn=="log") v=std::log(x); else if(fn=="sin") v=std::sin(x); else if(fn=="cos") v=std::cos(x); else if(fn=="tan") v=std::tan(x); else if(fn=="tanh") v=std::tanh(x); else if(fn=="atan") v=std::atan(x); else if(fn=="acos") v=std::acos(x); else if(fn=="asin") v=std::asin(x); else if(fn=="sinh") v=std::sinh(x); else if(fn=="cosh") v=std::cosh(x); else if(fn=="cbrt") v=std::cbrt(x); else if(fn=="erf") v=std::erf(x); else throw Unsupported("math "+fn); return constNum(v); }
  if(fn=="floor"||fn=="ceil"||fn=="round"||fn=="trunc") throw Unsupported("rounding of symbolic real");
  if(fn=="sin"||fn=="tan"||fn=="tanh"||fn=="atan"){ if(sgn(a->t.back().second)<0) return pNeg(pFun(fn,pNeg(a))); } if(fn=="cos"&&sgn(a->t.back().second)<0) a=pNeg(a);
  return pFun(fn,a); }
static const Poly* doPow(const Poly*a,const Poly*b){ if(g_conc&&isConst(a)&&isConst(b)) return polyOfF128(powq(f128OfQ(constOf(a)),f128OfQ(constOf(b)))); if(isConst(b)){ mpq_class e=constOf(b); if(e.get_den()==1&&abs(e.get_num())<=64){ int n=e.get_num().get_si(); if(n>=0){ const Poly*r=pOne(); for(int i=0;i<n;i++) r=pMul(r,a); return r; } const Poly*r=pOne(); for(int i=0;i<-n;i++) r=pMul(r,a); return pDiv(pOne(),r); } if(e==mpq_class(1,2)) return doSqrt(a); if(e==mpq_class(-1,2)) return pDiv(pOne(),doSqrt(a)); if(isConst(a)) return constNum(std::pow(constOf(a).get_d(),e.get_d())); } if(isConst(a)&&constOf(a)==1) return pOne(); return pFun("pow",nameIt(a),b); }
