// NVC - deductive verifier for contracts on C++ (LLVM IR), double = mathematical real.
// See /verif/DESIGN.md.
#include "alg.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/DenseMap.h"
#include <z3++.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <atomic>
#include <chrono>
#include <deque>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace llvm;

std::vector<Atom> g_atoms; std::vector<MonD> g_mons; long g_termLimit=400000; int g_mulLimit=400; int g_quotName=3; int g_levelEpoch=0;
std::function<void(const Poly*)> g_onDivisor; bool g_conc=false;

// ------------------------------------------------------------------ options / reporting
static std::string g_harness, g_out; static int g_fd=-1; static double g_timeout=300; static u64 g_seed=1; static int g_jobs=4; static bool g_trace=false; static unsigned g_z3ms=4000; static double g_tol=1e-9;
static std::string g_path; static std::chrono::steady_clock::time_point g_t0;
struct Shared { std::atomic<int> tokens; std::atomic<long> paths; std::atomic<long> z3calls; std::atomic<long> z3us; std::atomic<long> crashed; };
static Shared* g_sh; static std::vector<pid_t> g_children; static bool g_haveToken=false;
static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static double nowS(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-g_t0).count(); }
static void emit(const std::string&s){ std::string l=s+"\n"; if(g_fd>=0){ if(write(g_fd,l.data(),l.size())<0){} } else fputs(l.c_str(),stdout); }
static void report(const std::string&obl,const std::string&status,const std::string&how,const std::string&detail,const std::string&model="",double ms=0){
  std::ostringstream o; o<<"{\"h\":\""<<jesc(g_harness)<<"\",\"obl\":\""<<jesc(obl)<<"\",\"status\":\""<<status<<"\",\"how\":\""<<how<<"\",\"path\":\""<<g_path<<"\",\"ms\":"<<(long)ms;
  if(!detail.empty()) o<<",\"detail\":\""<<jesc(detail.substr(0,1500))<<"\""; if(!model.empty()) o<<",\"model\":"<<model; o<<"}"; emit(o.str()); }

// ------------------------------------------------------------------ concrete execution (counterexample replay / bounded stand-in)
static std::map<std::string,double> g_model; static bool g_haveModel=false;
static double concVal(const std::string&nm,double lo,double hi,bool isInt){ auto it=g_model.find(nm); if(it!=g_model.end()) return isInt?std::round(it->second):it->second; u64 h=1469598103934665603ULL; for(unsigned char c:nm) h=(h^c)*1099511628211ULL; u64 r=mix(h^mix(g_seed*0x9E3779B97F4A7C15ULL)); double u=(r>>11)*(1.0/9007199254740992.0); if(isInt) return std::floor(lo+u*(hi-lo+1)); if(hi-lo>1e6){ if(lo<=0&&hi>=0){ lo=std::max(lo,-3.); hi=std::min(hi,3.);} else if(lo>0) hi=lo+3; else lo=hi-3; } if(lo<0&&hi>0&&g_seed%3!=0) lo*=0.1; unsigned sel=r&63; if(sel==0) return lo; if(sel==1) return hi; return lo+u*(hi-lo); }
// ------------------------------------------------------------------ values
enum VK : uint8_t { V_UNDEF,V_INT,V_SINT,V_REAL,V_FORM,V_AGG };
struct Val { VK k=V_UNDEF; uint8_t w=0; u64 i=0; union { const Poly*p; const Form*f; std::vector<Val>*agg; const void*v; }; Val():v(nullptr){} };
static inline u64 maskw(u64 v,int w){ return w>=64?v:(v&((1ULL<<w)-1)); }
static inline i64 sx(u64 v,int w){ if(w>=64) return (i64)v; u64 m=1ULL<<(w-1); v=maskw(v,w); return (i64)((v^m)-m); }
static inline Val vInt(u64 v,int w){ Val r; r.k=V_INT; r.w=w; r.i=maskw(v,w); return r; }
static inline Val vReal(const Poly*p){ Val r; r.k=V_REAL; r.w=64; r.p=p; return r; }
static inline Val vForm(const Form*f){ if(f->op==F_TRUE) return vInt(1,1); if(f->op==F_FALSE) return vInt(0,1); Val r; r.k=V_FORM; r.w=1; r.f=f; return r; }
static inline Val vSint(const Poly*p,int w){ if(isConst(p)){ mpq_class q=constOf(p); if(q.get_den()!=1) throw Unsupported("non-integer SINT"); mpz_class z=q.get_num(); bool neg=z<0; mpz_class az=abs(z); u64 lo=mpz_get_ui(az.get_mpz_t()); return vInt(neg?(u64)(-(i64)lo):lo,w);} Val r; r.k=V_SINT; r.w=w; r.p=p; return r; }
static inline Val vAgg(std::vector<Val> v){ Val r; r.k=V_AGG; r.agg=new std::vector<Val>(std::move(v)); return r; }
static int g_undefN=0;
static const Poly* freshReal(const std::string&n){ Atom A; A.kind=A_BASE; A.name=n; return pAtom(newAtom(A)); }
static const Poly* polyOfDouble(double d);
// not-a-number: a fresh atom that no arithmetic removes (0/0, 0*inf, sqrt of a negative constant)
static std::set<int> g_nanAtoms; static bool hasNan(const Poly*p);
static const Poly* freshNan(){ Atom A; A.kind=A_BASE; A.name="nan"; int id=newAtom(A); g_nanAtoms.insert(id); return pAtom(id); }
static const Poly* undefReal(){ if(g_conc) return polyOfDouble(concVal("undef"+std::to_string(g_undefN++),-2,2,false)); return freshReal("undef"+std::to_string(g_undefN++)); }
static mpq_class qOfU64(u64 v){ mpz_class z; mpz_set_ui(z.get_mpz_t(),v); return mpq_class(z); }
static mpq_class qOfI64(i64 v){ mpz_class z; mpz_set_si(z.get_mpz_t(),v); return mpq_class(z); }

// ------------------------------------------------------------------ memory
static const u64 BASEOFF=0x10000000ULL;
struct Slot { uint8_t kind=0; uint8_t undef=0; uint8_t vk=0; u64 raw=0; const Poly*p=nullptr; };   // kind 0 raw, 1 Val (REAL/SINT64), 2 two 4-byte halves: lo p, hi raw; 3: lo raw, hi p
struct LazyCell { const Poly*off; const Poly*val; };
struct Obj { u64 size=0; std::vector<Slot> s; bool alive=true; bool ro=false; bool lazy=false; std::string name; std::vector<LazyCell> init, cur; u64 len=0; bool ext=false; double alo=-1e300,ahi=1e300; };
static std::vector<Obj> g_objs; // id 0 null
static bool g_rec=false; static u64 g_recMax=0; static std::set<std::pair<u64,u64>> g_recW; static std::map<std::pair<u64,u64>,int> g_recM; // written slots; how: 1 low half, 2 high half, 4 whole
static u64 addrOf(u64 id){ return (id<<32)+BASEOFF; }
static u64 newObj(u64 size,const std::string&name,bool undef=true){ u64 id=g_objs.size(); if(size>(1ULL<<28)) throw Unsupported("allocation too large"); g_objs.emplace_back(); Obj&o=g_objs.back(); o.size=size; o.name=name; o.s.resize((size+7)/8); if(undef) for(auto&x:o.s) x.undef=0xff; return id; }
struct MemError : std::runtime_error { using std::runtime_error::runtime_error; };
static Obj& resolve(u64 addr,u64 n,u64&off,u64&id){ id=addr>>32; if(id==0||id>=g_objs.size()) throw MemError("access through null or invalid pointer"); Obj&o=g_objs[id]; off=(addr&0xffffffffULL)-BASEOFF; if(!o.alive) throw MemError("access to dead object "+o.name); if(off>o.size||off+n>o.size){ throw MemError("out-of-bounds access of "+std::to_string(n)+" bytes at offset "+std::to_string((i64)off)+" of object "+o.name+" (size "+std::to_string(o.size)+")"); } return o; }
static inline void rec(u64 id,u64 slot,int m=4){ if(g_rec&&id<g_recMax){ g_recW.insert({id,slot}); g_recM[{id,slot}]|=m; } }
static double bitsD(u64 b){ double d; memcpy(&d,&b,8); return d; }
static u64 dBits(double d){ u64 b; memcpy(&b,&d,8); return b; }
static const Poly* polyOfDouble(double d){ if(std::isinf(d)){ static std::map<bool,const Poly*> m; auto&x=m[d>0]; if(!x){ Atom A; A.kind=A_BASE; A.name=d>0?"inf":"-inf"; A.hasLo=A.hasHi=true; mpz_class big; mpz_ui_pow_ui(big.get_mpz_t(),10,300); A.lo=A.hi=(d>0?mpq_class(big):mpq_class(-big)); x=pConst(A.lo);} return x; } if(std::isnan(d)) return freshNan(); return pConst(ratOf(d)); }
static bool hasNan(const Poly*p){ if(g_nanAtoms.empty()) return false; for(auto&t:p->t) for(auto&f:g_mons[t.first].f) if(g_nanAtoms.count(f.first)) return true; return false; }
static bool isInf(const Poly*p){ return isConst(p)&&(p==polyOfDouble(INFINITY)||p==polyOfDouble(-INFINITY)); }
static const Poly* lazyLoad(u64 id,const Poly*off); static void lazyStore(u64 id,const Poly*off,const Poly*v);
static Val loadReal(u64 addr){ u64 off,id; Obj&o=resolve(addr,8,off,id); if(o.lazy) return vReal(lazyLoad(id,pConst(qOfU64(off)))); if(off&7) throw Unsupported("misaligned double"); Slot&s=o.s[off>>3]; if(s.kind==1){ Val r; r.k=(VK)s.vk; r.w=64; r.p=s.p; if(r.k==V_SINT) throw Unsupported("double load of symbolic int"); return r; } if(s.kind>=2) throw Unsupported("double load of halves"); if(s.undef){ const Poly*u=undefReal(); s.kind=1; s.vk=V_REAL; s.p=u; return vReal(u);} return vReal(polyOfDouble(bitsD(s.raw))); }
static void storeP(u64 addr,VK k,const Poly*p){ u64 off,id; Obj&o=resolve(addr,8,off,id); if(o.ro) throw MemError("write to constant "+o.name); if(off&7) throw Unsupported("misaligned double store"); if(o.lazy){ lazyStore(id,pConst(qOfU64(off)),p); return; } rec(id,off>>3); Slot&s=o.s[off>>3]; s.kind=1; s.vk=k; s.p=p; s.undef=0; }
static u64 realBits(const Poly*p){ if(!isConst(p)) throw Unsupported("bits of symbolic real"); return dBits(constOf(p).get_d()); }
static void toRaw(Slot&s){ if(s.kind==1){ if(s.vk==V_REAL){ s.raw=realBits(s.p); s.kind=0; s.undef=0; } else throw Unsupported("partial access to symbolic slot"); } else if(s.kind>=2) throw Unsupported("partial access to half slot"); }
static Val loadInt(u64 addr,int bits){ int n=(bits+7)/8; u64 off,id; Obj&o=resolve(addr,n,off,id); if(o.lazy) throw Unsupported("concrete access to lazy array"); Slot&s=o.s[off>>3]; unsigned b=off&7;
  if(b+n<=8){ if(s.kind==1){ if(b==0&&n==8){ Val r; r.k=(VK)s.vk; r.w=64; r.p=s.p; if(r.k==V_REAL&&isConst(s.p)) return vInt(realBits(s.p),64); return r; } if(s.vk==V_SINT) throw Unsupported("partial load of symbolic int"); u64 raw=realBits(s.p); return vInt(raw>>(8*b),bits); }
    if(s.kind==2){ if(b==0&&n==4){ Val r; r.k=V_SINT; r.w=32; r.p=s.p; return r; } if(b==4&&n==4) { if(s.undef>>4) return Val(); return vInt(s.raw>>32,32);} throw Unsupported("load of half slot"); }
    if(s.kind==3){ if(b==4&&n==4){ Val r; r.k=V_SINT; r.w=32; r.p=s.p; return r; } if(b+n<=4){ unsigned m=((1u<<n)-1)<<b; if(s.undef&m){ Val r; r.w=bits; return r; } return vInt(s.raw>>(8*b),bits); } throw Unsupported("load of half slot"); }
    unsigned m=((1u<<n)-1)<<b; if(s.undef&m){ Val r; r.w=bits; return r; } return vInt(s.raw>>(8*b),bits); }
  u64 v=0; for(int i=0;i<n;i++){ Val x=loadInt(addr+i,8); if(x.k==V_UNDEF){ x.w=bits; return x;} v|=x.i<<(8*i);} return vInt(v,bits); }
static void storeInt(u64 addr,u64 v,int bits,bool undef=false){ int n=(bits+7)/8; u64 off,id; Obj&o=resolve(addr,n,off,id); if(o.ro) throw MemError("write to constant "+o.name); unsigned b=off&7; if(bits<8*n) v=maskw(v,bits);
  if(b+n<=8){ rec(id,off>>3,n==8?4:b+n<=4?1:b>=4?2:3); Slot&s=o.s[off>>3]; if(n==8){ s.kind=0; s.raw=v; s.undef=undef?0xff:0; return; } if(s.kind==2&&b==0&&n==4){ s.kind=0; s.p=nullptr; s.undef&=0xf0; } if(s.kind==3&&b==4&&n==4){ s.kind=0; s.p=nullptr; s.undef&=0x0f; } if((s.kind==2&&b>=4)||(s.kind==3&&b+n<=4)){} else if(s.kind) toRaw(s); u64 m=((n==8)?~0ULL:((1ULL<<(8*n))-1))<<(8*b); s.raw=(s.raw&~m)|((v<<(8*b))&m); uint8_t um=((1u<<n)-1)<<b; if(undef) s.undef|=um; else s.undef&=~um; return; }
  for(int i=0;i<n;i++) storeInt(addr+i,(v>>(8*i))&0xff,8,undef); }
static void storeVal(u64 addr,const Val&v,int bits){ switch(v.k){ case V_INT: storeInt(addr,v.i,bits); break; case V_UNDEF: storeInt(addr,0,bits,true); break; case V_REAL: storeP(addr,V_REAL,v.p); break; case V_SINT: if(bits==64) storeP(addr,V_SINT,v.p); else if(bits==32){ u64 off,id; Obj&o=resolve(addr,4,off,id); bool hi=off&7; if((off&7)&&(off&7)!=4) throw Unsupported("misaligned symbolic i32"); rec(id,off>>3,hi?2:1); Slot&s=o.s[off>>3]; if(s.kind==1) toRaw(s); if(s.kind==(hi?2:3)) throw Unsupported("two symbolic halves"); s.kind=hi?3:2; s.p=v.p; s.undef&=hi?0x0f:0xf0; } else throw Unsupported("store narrow symbolic int"); break; default: throw Unsupported("store of formula/aggregate"); } }
static void memCopy(u64 d,u64 s,u64 n){ if(!n||d==s) return; u64 so,si,dO,di; resolve(s,n,so,si); resolve(d,n,dO,di); if(g_objs[di].ro) throw MemError("write to constant"); if(g_objs[si].lazy||g_objs[di].lazy) throw Unsupported("memcpy on lazy array");
  if((so&7)==0&&(dO&7)==0){ u64 k=n/8; std::vector<Slot> t(g_objs[si].s.begin()+so/8,g_objs[si].s.begin()+so/8+k); for(u64 i=0;i<k;i++){ rec(di,dO/8+i); g_objs[di].s[dO/8+i]=t[i]; } u64 r=n&7; if(r){ Slot&x=g_objs[si].s[so/8+k]; Slot&y=g_objs[di].s[dO/8+k]; rec(di,dO/8+k); if(x.kind==2&&r==4){ Val v; v.k=V_SINT; v.w=32; v.p=x.p; storeVal(d+8*k,v,32); return;} if(x.kind==3&&r==4){ storeInt(d+8*k,x.raw&0xffffffffULL,32,x.undef&0xf); return; } if(x.kind) toRaw(x); if(y.kind) toRaw(y); u64 m=(1ULL<<(8*r))-1; y.raw=(y.raw&~m)|(x.raw&m); uint8_t um=(1u<<r)-1; y.undef=(y.undef&~um)|(x.undef&um);} return; }
  std::vector<Val> t(n); for(u64 i=0;i<n;i++) t[i]=loadInt(s+i,8); for(u64 i=0;i<n;i++) storeVal(d+i,t[i],8); }
static void memSet(u64 d,uint8_t v,u64 n){ if(!n) return; u64 o,id; Obj&ob=resolve(d,n,o,id); if((o&7)==0){ u64 k=n/8; for(u64 i=0;i<k;i++){ rec(id,o/8+i); Slot&s=ob.s[o/8+i]; s=Slot(); s.raw=v*0x0101010101010101ULL; } for(u64 i=k*8;i<n;i++) storeInt(d+i,v,8); } else for(u64 i=0;i<n;i++) storeInt(d+i,v,8); }
static std::string readStr(u64 a,size_t max=4096){ std::string r; while(r.size()<max){ Val c=loadInt(a++,8); if(c.k!=V_INT) break; if(!c.i) break; r+=(char)c.i; } return r; }
// symbolic-address access (lazy arrays)
static u64 splitAddr(const Poly*p,const Poly*&off){ mpq_class c=constTerm(p); mpz_class z=c.get_num(); u64 a=mpz_get_ui(z.get_mpz_t()); u64 id=a>>32; if(id==0||id>=g_objs.size()) throw Unsupported("symbolic pointer without base"); off=pSub(p,pConst(qOfU64(addrOf(id)))); return id; }
static int sameOff(const Poly*a,const Poly*b){ const Poly*d=pSub(a,b); if(d->t.empty()) return 1; if(isConst(d)) return 0; return -1; }
static std::set<const Poly*> g_lazyWrites; // offsets written in the current loop iteration
struct LazyW { u64 id; const Poly*off; }; static std::vector<LazyW> g_lw;
static std::map<std::pair<u64,const Poly*>,int> dummy_;
static int decideEq(const Poly*d);
static const Poly* lazyLoad(u64 id,const Poly*off){ Obj&o=g_objs[id]; for(int i=(int)o.cur.size()-1;i>=0;i--){ int r=sameOff(o.cur[i].off,off); if(r<0) r=decideEq(pSub(o.cur[i].off,off)); if(r==1) return o.cur[i].val; if(r<0) throw Unsupported("aliasing of symbolic indices undecided"); }
  for(auto&c:o.init){ if(c.off==off) return c.val; }
  const Poly*k=pScale(off,mpq_class(1,8)); if(g_conc){ const Poly*v=polyOfDouble(concVal(o.name+"["+polyStr(k)+"]",o.alo,o.ahi,false)); o.init.push_back({off,v}); return v; } Atom A; A.kind=A_BASE; A.arr=true; A.arrName=o.name; A.arrIdx=k; A.name=o.name+"["+polyStr(k)+"]"; if(std::fabs(o.alo)<1e20){ A.hasLo=true; A.lo=exactQ(o.alo);} if(std::fabs(o.ahi)<1e20){ A.hasHi=true; A.hi=exactQ(o.ahi);} const Poly*v=pAtom(newAtom(A)); o.init.push_back({off,v}); return v; }
static void lazyStore(u64 id,const Poly*off,const Poly*v){ Obj&o=g_objs[id]; if(o.ro) throw MemError("write to read-only array "+o.name); g_lw.push_back({id,off}); for(auto&c:o.cur) if(sameOff(c.off,off)==1){ c.val=v; return; } 
  // make sure the initial value exists so that vc_old can find it
  o.cur.push_back({off,v}); }

// ------------------------------------------------------------------ path condition, samples, z3
static std::vector<const Form*> g_pc; static std::vector<Sample> g_samples; static std::vector<int> g_inputs; // user inputs in order
static std::vector<std::pair<std::string,long>> g_choices;
static void samplesInit(){ g_samples.clear(); for(int i=0;i<24;i++){ Sample s; s.seed=g_seed*1000+i; g_samples.push_back(s);} }
static bool sampleOk(Sample&s){ for(auto f:g_pc){ if(f->op==F_EQ){ double m; double v=evalPoly(f->p,s,&m); if(!(std::fabs(v)<=1e-9*m)) return false; continue; } if(evalForm(f,s)!=1) return false; } return true; }
static bool sampleOkQ(Sample&s){ s.memoq.clear(); for(auto f:g_pc){ if(f->op==F_EQ){ f128 m; f128 v=evalPolyQ(f->p,s,&m); if(!(fabsq(v)<=m*(f128)1e-12)) return false; continue; } if(evalFormQ(f,s)!=1) return false; } return true; }
static void refillSamples(int want){ // try new random points
  static u64 next=100; int tries=0; while((int)g_samples.size()<want&&tries<600){ Sample s; s.seed=g_seed*1000003+next++; tries++; if(sampleOk(s)) g_samples.push_back(s);} }
struct Z { z3::context c; std::unordered_map<int,z3::expr*> av; std::vector<z3::expr> side; std::set<int> done; z3::expr atom(int a); z3::expr poly(const Poly*p); z3::expr form(const Form*f); };
z3::expr Z::atom(int a){ auto it=av.find(a); if(it!=av.end()) return *it->second; Atom&A=g_atoms[a]; z3::expr*e=new z3::expr(A.isInt?z3::to_real(c.int_const(("i"+std::to_string(a)).c_str())):c.real_const(("a"+std::to_string(a)).c_str())); av[a]=e; auto num=[&](const mpq_class&q){ return c.real_val(q.get_str().c_str()); };
  if(A.hasLo&&abs(A.lo)<mpq_class("100000000000000000000")) side.push_back(*e>=num(A.lo)); if(A.hasHi&&abs(A.hi)<mpq_class("100000000000000000000")) side.push_back(*e<=num(A.hi));
  if(A.def){ z3::expr d=poly(A.def); side.push_back(*e==d);} if(A.kind==A_FUN){ z3::expr x=poly(A.arg); if(A.fn=="sqrt"){ side.push_back(*e>=0); side.push_back((*e)*(*e)==x);} else if(A.fn=="exp"){ side.push_back(*e>0); side.push_back(z3::implies(x<=0,*e<=1)); side.push_back(z3::implies(x>=0,*e>=1)); side.push_back(z3::implies(x<0,*e<1)); side.push_back(z3::implies(x>0,*e>1)); side.push_back(*e>=x+1);} else if(A.fn=="abs"){ side.push_back(z3::ite(x>=0,*e==x,*e==-x)); } else if(A.fn=="tanh"||A.fn=="sin"||A.fn=="cos"){ side.push_back(*e<=1); side.push_back(*e>=-1);} else if(A.fn=="log"){ side.push_back(*e<=x-1); } else if(A.fn=="pow"){ side.push_back(z3::implies(x>0,*e>0)); side.push_back(z3::implies(x==0,*e==0)); z3::expr y=poly(A.arg2); side.push_back(z3::implies(x==1||y==0,*e==1)); } }
  return *e; }
z3::expr Z::poly(const Poly*p){ std::vector<z3::expr> sum; for(auto&x:p->t){ std::vector<z3::expr> numr,den; for(auto&f:g_mons[x.first].f){ z3::expr a=atom(f.first); for(int i=0;i<std::abs(f.second);i++) (f.second>0?numr:den).push_back(a);} z3::expr t=c.real_val(x.second.get_str().c_str()); for(auto&n:numr) t=t*n; if(!den.empty()){ z3::expr d=den[0]; for(size_t i=1;i<den.size();i++) d=d*den[i]; for(auto&q:den) side.push_back(q!=0); t=t/d; } sum.push_back(t);} if(sum.empty()) return c.real_val(0); z3::expr r=sum[0]; for(size_t i=1;i<sum.size();i++) r=r+sum[i]; return r; }
z3::expr Z::form(const Form*f){ switch(f->op){ case F_TRUE: return c.bool_val(true); case F_FALSE: return c.bool_val(false); case F_AND: return form(f->a)&&form(f->b); case F_OR: return form(f->a)||form(f->b); default: {
  // clear denominators that are single common positive-unknown: keep plain
  z3::expr p=poly(f->p); switch(f->op){ case F_EQ: return p==0; case F_NE: return p!=0; case F_LT: return p<0; default: return p<=0; } } } }
static std::set<int> formAtoms(const Form*f){ std::set<int> r; std::function<void(const Poly*)> ap; std::function<void(int)> aa=[&](int a){ if(!r.insert(a).second) return; Atom&A=g_atoms[a]; if(A.def) ap(A.def); if(A.arg) ap(A.arg); if(A.arg2) ap(A.arg2); }; ap=[&](const Poly*p){ for(auto&x:p->t) for(auto&q:g_mons[x.first].f) aa(q.first); }; std::function<void(const Form*)> ff=[&](const Form*g){ if(g->op==F_AND||g->op==F_OR){ ff(g->a); ff(g->b);} else if(g->p) ap(g->p); }; ff(f); return r; }
// is PC /\ f satisfiable?  1 yes, 0 no, -1 unknown ; fills s with model of base atoms
static int z3sat(const Form*f,Sample*out=nullptr,unsigned ms=0,bool usePc=true){ g_sh->z3calls++; auto t0=std::chrono::steady_clock::now(); int res=-1;
  for(int stage=0;stage<(usePc&&!g_pc.empty()?2:1);stage++){ // stage 0: only path conditions sharing atoms (cone); stage 1: all
  try{ Z z; z3::solver s(z.c); z3::params P(z.c); P.set("timeout",ms?ms:g_z3ms); P.set("random_seed",(unsigned)(g_seed%1000)); s.set(P);
    std::set<int> at=formAtoms(f); std::vector<char> used(g_pc.size(),0); if(usePc){ if(stage==1) for(auto&&u:used) u=1; else { bool ch=true; int rounds=0; while(ch&&rounds++<3){ ch=false; for(size_t i=0;i<g_pc.size();i++) if(!used[i]){ auto b=formAtoms(g_pc[i]); bool share=false; for(int x:b) if(at.count(x)){ share=true; break; } if(share){ used[i]=1; ch=true; at.insert(b.begin(),b.end()); } } } } }
    std::vector<z3::expr> as; for(size_t i=0;i<g_pc.size();i++) if(used[i]) as.push_back(z.form(g_pc[i])); as.push_back(z.form(f)); for(auto&e:as) s.add(e); for(size_t i=0;i<z.side.size();i++) s.add(z.side[i]);
    auto r=s.check(); bool all=true; for(size_t i=0;i<used.size();i++) if(!used[i]) all=false;
    if(r==z3::unsat){ res=0; break; } if(r==z3::sat){ res=1; if(out&&(stage==1||all||g_pc.empty()||!usePc)){ z3::model m=s.get_model(); for(auto&kv:z.av){ Atom&A=g_atoms[kv.first]; if(A.kind!=A_BASE||A.def) continue; z3::expr v=m.eval(*kv.second,true); std::string d=v.get_decimal_string(17); if(!d.empty()&&d.back()=='?') d.pop_back(); out->fix[kv.first]=atof(d.c_str()); } } if(all||!usePc||stage==1) break; if(!out) break; } else { res=-1; if(all||!usePc) break; } 
  }catch(z3::exception&e){ res=-1; } }
  g_sh->z3us+=std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now()-t0).count(); return res; }
static void addPC(const Form*f); static bool pcInfeasible=false;
static void flattenAnd(const Form*f,std::vector<const Form*>&o){ if(f->op==F_AND){ flattenAnd(f->a,o); flattenAnd(f->b,o);} else o.push_back(f); }
static bool dependsOn(const Poly*p,int a){ std::set<int> seen; std::function<bool(const Poly*)> g=[&](const Poly*q)->bool{ for(auto&x:q->t) for(auto&f:g_mons[x.first].f){ if(f.first==a) return true; if(!seen.insert(f.first).second) continue; Atom&A=g_atoms[f.first]; if(A.def&&g(A.def)) return true; if(A.arg&&g(A.arg)) return true; if(A.arg2&&g(A.arg2)) return true; } return false; }; return g(p); }
static void solveEq(const Poly*p){ // p==0: orient as definition of a base atom occurring linearly with constant (or monomial) coefficient
  for(int pass=0;pass<2;pass++) for(int i=(int)p->t.size()-1;i>=0;i--){ auto&x=p->t[i]; auto&f=g_mons[x.first].f; for(auto&q:f){ int a=q.first; Atom&A=g_atoms[a]; if(A.kind!=A_BASE||A.def||q.second!=1||A.isInt) continue; if(pass==0&&f.size()>1) continue; int occ=0; for(auto&y:p->t) for(auto&r:g_mons[y.first].f) if(r.first==a) occ++; if(occ!=1) continue; 
      std::vector<std::pair<Mon,mpq_class>> t; t.push_back(x); const Poly*rest=pSub(p,intern(std::move(t))); Mon m=monMul(x.first,mkMon({{a,-1}})); const Poly*sol=pMulMon(rest,monPow(m,-1),-1/x.second); if(dependsOn(sol,a)) continue; g_atoms[a].def=sol; g_levelEpoch++; for(auto&s:g_samples){ s.memo.clear(); s.memoq.clear(); } return; } } }
static void addPC(const Form*f0){ std::vector<const Form*> v; flattenAnd(f0,v); for(auto f:v){ if(f->op==F_TRUE) continue; if(f->op==F_FALSE){ pcInfeasible=true; return; } if(f->op==F_EQ) solveEq(f->p); g_pc.push_back(f);} std::vector<Sample> keep; for(auto&s:g_samples) if(sampleOk(s)) keep.push_back(s); g_samples=keep; }

// ------------------------------------------------------------------ zero test
static double maxCoef(const Poly*p){ double m=0; for(auto&x:p->t) m=std::max(m,std::fabs(x.second.get_d())); return m; }
static double g_oblDeadline=1e18; static void checkTime(){ double t=nowS(); if(t>g_timeout) throw Unsupported("time limit"); if(t>g_oblDeadline) throw Unsupported("time limit of one obligation"); }
static const Poly* substAtom(const Poly*p,int a,const Poly*def){ checkTime(); std::map<int,std::vector<std::pair<Mon,mpq_class>>> by; int mn=0,mx=0; for(auto&x:p->t){ int e=0; std::vector<std::pair<int,int>> rest; for(auto&f:g_mons[x.first].f){ if(f.first==a) e=f.second; else rest.push_back(f);} by[e].push_back({mkMon(rest),x.second}); mn=std::min(mn,e); mx=std::max(mx,e);} 
  const Poly*r=nullptr; int top=by.rbegin()->first; int last=top; for(auto it=by.rbegin();it!=by.rend();++it){ const Poly*c=intern(std::move(it->second)); if(!r) r=c; else { for(int k=it->first;k<last;k++){ checkTime(); r=pMulRaw(r,def); } r=pAdd(r,c);} last=it->first; } 
  // remaining power 'last' (>= mn): if mn<0 we multiplied through by a^-mn
  for(int k=0;k<(mn<0?last-mn:last);k++) r=pMulRaw(r,def); return r; }
// ---- constants: atoms that are functions of constants only, evaluated to 256 bits
static std::unordered_map<int,std::pair<bool,mpq_class>> g_cAtom;
static bool constAtom(int a,mpq_class&v);
static bool constPoly(const Poly*p,mpq_class&v){ v=0; for(auto&x:p->t){ mpq_class c=x.second; for(auto&f:g_mons[x.first].f){ mpq_class w; if(!constAtom(f.first,w)) return false; if(w==0&&f.second<0) return false; for(int k=0;k<std::abs(f.second);k++) { if(f.second>0) c*=w; else c/=w; } mpf_class r(c,256); c=mpq_class(r); } v+=c; } return true; }
static bool constAtom(int a,mpq_class&v){ auto it=g_cAtom.find(a); if(it!=g_cAtom.end()){ v=it->second.second; return it->second.first; } Atom A=g_atoms[a]; bool ok=false; v=0; if(A.kind==A_DEF&&A.def) ok=constPoly(A.def,v); else if(A.kind==A_FUN&&A.fn=="sqrt"&&A.arg){ mpq_class x; ok=constPoly(A.arg,x)&&x>=0; if(ok){ mpf_class y(x,320); mpf_class r(0,320); r=sqrt(y); v=mpq_class(r); } } if(ok||A.kind!=A_BASE) g_cAtom[a]={ok,v}; return ok; }
// comparisons of constants (roots and quotients of numbers), evaluated with 256 bits: 1 / 0 / -1 (too close to call)
static int constForm(const Form*f){ switch(f->op){ case F_TRUE: return 1; case F_FALSE: return 0; case F_AND:{ int a=constForm(f->a), b=constForm(f->b); return a==0||b==0?0:a==1&&b==1?1:-1; } case F_OR:{ int a=constForm(f->a), b=constForm(f->b); return a==1||b==1?1:a==0&&b==0?0:-1; } default: { mpq_class v; if(!constPoly(f->p,v)) return -1; mpq_class lim(1); lim/=mpz_class("10000000000000000000000000"); if(abs(v)<=lim) return -1; switch(f->op){ case F_EQ: return 0; case F_NE: return 1; default: return v<0; } } } }
static const Poly* collapseConst(const Poly*p){ bool any=false; mpq_class w; for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(constAtom(f.first,w)) any=true; if(!any) return p; std::map<Mon,mpq_class> acc; for(auto&x:p->t){ mpq_class c=x.second; std::vector<std::pair<int,int>> rest; for(auto&f:g_mons[x.first].f){ if(constAtom(f.first,w)&&w!=0){ for(int k=0;k<std::abs(f.second);k++) { if(f.second>0) c*=w; else c/=w; } } else rest.push_back(f); } mpf_class r(c,256); acc[mkMon(rest)]+=mpq_class(r); }
  std::vector<std::pair<Mon,mpq_class>> t; for(auto&x:acc) if(abs(x.second)>mpq_class("1/1000000000000000000000000000000")) t.push_back({x.first,x.second}); return intern(std::move(t)); }
static int maxFunSubst(const Poly*p);
// ---- variable inversion: an abbreviation a = c*m*x + rest, linear in the input x, makes a the variable and eliminates x
static int minExp(const Poly*p,int a){ int m=0; for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(f.first==a) m=std::min(m,f.second); return m; }
static bool hasAtom(const Poly*p,int a){ for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(f.first==a) return true; return false; }
struct Inverter { std::vector<std::pair<int,const Poly*>> inv; std::set<int> kept; std::unordered_map<int,const Poly*> def;
  const Poly* apply(const Poly*p){ for(int r=0;r<2;r++) for(auto&i:inv) if(hasAtom(p,i.first)){ if(minExp(p,i.first)<0) throw Unsupported("inverse of an eliminated variable"); p=substAtom(p,i.first,i.second); if(p->t.size()>20000) throw Unsupported("polynomial term limit"); } return p; }
  const Poly* defOf(int a){ auto it=def.find(a); if(it!=def.end()) return it->second; const Poly*d=apply(g_atoms[a].def); def[a]=d; return d; }
  void build(const Poly*q){ std::set<int> all; std::vector<int> st; auto push=[&](const Poly*p){ for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(all.insert(f.first).second) st.push_back(f.first); }; push(q); while(!st.empty()){ int a=st.back(); st.pop_back(); if(g_atoms[a].def) push(g_atoms[a].def); if(g_atoms[a].arg) push(g_atoms[a].arg); if(g_atoms[a].arg2) push(g_atoms[a].arg2); }
    std::set<int> inArg; { std::vector<int> s2; std::set<int> seen; for(int a:all) if(atomIsReducing(a)) for(const Poly*p:{g_atoms[a].arg,g_atoms[a].arg2}) if(p) for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(seen.insert(f.first).second) s2.push_back(f.first); while(!s2.empty()){ int a=s2.back(); s2.pop_back(); inArg.insert(a); if(g_atoms[a].def) for(auto&x:g_atoms[a].def->t) for(auto&f:g_mons[x.first].f) if(seen.insert(f.first).second) s2.push_back(f.first); } }
    std::vector<std::pair<int,int>> order; for(int a:all) if(g_atoms[a].def&&g_atoms[a].kind==A_DEF&&g_atoms[a].def->t.size()>=2) order.push_back({atomLevel(a),a}); std::sort(order.begin(),order.end()); int n=0;
    for(auto&o:order){ int a=o.second; if(n>=12) break; if(g_atoms[a].def->t.size()>200) continue; const Poly*D=apply(g_atoms[a].def); if(D->t.size()>200) continue; bool flat=true; std::map<int,int> occ; for(auto&x:D->t) for(auto&f:g_mons[x.first].f){ if(g_atoms[f.first].def&&!kept.count(f.first)) flat=false; occ[f.first]++; } if(!flat) continue;
      int bx=-1; size_t bi=0; double mcD=maxCoef(D); for(size_t i=0;i<D->t.size()&&bx<0;i++) for(auto&f:g_mons[D->t[i].first].f){ Atom&A=g_atoms[f.first]; if(f.second==1&&std::fabs(D->t[i].second.get_d())>=1e-4*mcD&&A.kind==A_BASE&&!A.def&&!A.isInt&&occ[f.first]==1&&!inArg.count(f.first)){ bx=f.first; bi=i; break; } }
      if(bx<0) continue; bool neg=false; for(int b:all) if(g_atoms[b].def&&minExp(g_atoms[b].def,bx)<0) neg=true; if(minExp(q,bx)<0||neg) continue;
      auto x=D->t[bi]; std::vector<std::pair<Mon,mpq_class>> t; t.push_back(x); const Poly*rest=pSub(D,intern(std::move(t))); Mon m=monMul(x.first,mkMon({{bx,-1}})); const Poly*sol=pMulMon(pSub(pAtom(a),rest),monPow(m,-1),1/x.second); if(hasAtom(sol,bx)) continue;
      if(g_trace) fprintf(stderr,"[inverse] %s by %s: %zu terms\n",g_atoms[bx].name.c_str(),g_atoms[a].name.c_str(),sol->t.size());
      for(auto&i:inv) if(hasAtom(i.second,bx)) i.second=substAtom(i.second,bx,sol); inv.push_back({bx,sol}); kept.insert(a); n++; } } };
// terms whose coefficient is rounding noise of the source constants (weights, speeds of sound given as doubles)
static const Poly* dropTiny(const Poly*p){ double mc=std::min(1.0,maxCoef(p))*1e-13; bool any=false; for(auto&x:p->t) if(std::fabs(x.second.get_d())<mc) any=true; if(!any) return p; std::vector<std::pair<Mon,mpq_class>> t; for(auto&x:p->t) if(std::fabs(x.second.get_d())>=mc) t.push_back(x); return intern(std::move(t)); }
static const Poly* normalForm(const Poly*p,bool useInv,std::function<bool(const Poly*)> small,const std::set<int>*opaque=nullptr,bool topDown=false){ Inverter I; if(useInv){ I.build(p); if(I.kept.empty()) return nullptr; } const Poly*q=useInv?I.apply(p):p; for(int it=0;it<2000;it++){ q=dropTiny(collapseConst(q)); if(q->t.empty()||small(q)) return q; 
    int best=-1,bl=-1; double bc=0; std::map<int,std::map<int,int>> occ; std::map<int,int> mn; for(auto&x:q->t) for(auto&f:g_mons[x.first].f) if(g_atoms[f.first].def&&!I.kept.count(f.first)&&!(opaque&&opaque->count(f.first))){ occ[f.first][f.second]++; mn[f.first]=std::min(mn[f.first],f.second); }
    for(auto&o:occ){ int m=mn[o.first]; double ds=std::max<size_t>(1,g_atoms[o.first].def->t.size()); int with=0; double cost=0; for(auto&e:o.second){ with+=e.second; double k=1; int pw=e.first-m; for(int j=1;j<=pw;j++) k*=(ds+j-1)/j; cost+=e.second*k; } { double k=1; for(int j=1;j<=-m;j++) k*=(ds+j-1)/j; cost+=((double)q->t.size()-with)*k; } int l=atomLevel(o.first); if(best<0||(topDown?l>bl||(l==bl&&cost<bc):cost<bc*0.999||(cost<=bc*1.001&&l>bl))){ best=o.first; bl=l; bc=cost; } }
    if(best<0) break; if(g_trace) fprintf(stderr,"[unfold%s] %zu terms maxc %g, atom %s level %d def %s\n",useInv?" inv":"",q->t.size(),maxCoef(q),g_atoms[best].name.c_str(),bl,polyStr(g_atoms[best].def,4).c_str());
    q=substAtom(q,best,useInv?I.defOf(best):g_atoms[best].def); } return q; }
static std::vector<const Poly*> g_scaleP; // operands of the equality under test: scale of 'equal up to rounding'
static double scaleAt(Sample&s){ double r=0; for(auto*p:g_scaleP){ double m; double v=evalPoly(p,s,&m); if(std::isfinite(m)) r+=m; } return r; }
static bool refutesQ(const Poly*p,Sample&s){ if(!sampleOkQ(s)) return false; f128 m; f128 v=evalPolyQ(p,s,&m); if(!finiteq(v)||!finiteq(m)) return false; for(auto*x:g_scaleP){ f128 k; evalPolyQ(x,s,&k); if(finiteq(k)&&k>m) m=k; } return fabsq(v)>(f128)1e-9*m&&fabsq(v)>(f128)1e-8*(m>1?(f128)1:m); }
// returns 1 proved zero, 0 refuted (sample filled), -1 unknown
static int zeroTest(const Poly*p,Sample*cex,std::string&how){ struct DL { DL(){ g_oblDeadline=nowS()+std::max(10.0,g_timeout*0.2); } ~DL(){ g_oblDeadline=1e18; } } dl;
  auto small=[&](const Poly*q,double scale){ return maxCoef(q)<=g_tol*std::max(1e-3,std::min(1.0,scale)); };
  double scale0=1.0;
  if(p->t.empty()){ how="poly"; return 1; } if(isConst(p)){ if(std::fabs(constOf(p).get_d())<=g_tol){ how="poly"; return 1; } }
  if(!g_scaleP.empty()){ double mc=0; for(auto*x:g_scaleP) mc=std::max(mc,maxCoef(x)); if(mc>0&&maxCoef(collapseConst(p))<=1e-12*std::min(mc,1.0)){ how="poly"; return 1; } }
  // numeric refutation
  refillSamples(8); int nz=0,tested=0; for(auto&s:g_samples){ double m; double v=evalPoly(p,s,&m); if(!std::isfinite(v)) continue; tested++; m=std::max(m,scaleAt(s)); if(std::fabs(v)>1e-7*(m>1?1:std::max(m,1e-6))&&std::fabs(v)>3e-9*m&&refutesQ(p,s)){ if(cex)*cex=s; how="sample"; return 0; } if(m>0&&v!=0) nz++; if(tested>=12) break; }
  const Poly*q=nullptr; auto sm=[&](const Poly*x){ return small(x,scale0); };
  // cheap sufficient condition: the identity already holds with the denominators as opaque variables
  { std::set<int> inv,top; int lev=-1; for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(f.second<0&&g_atoms[f.first].def){ inv.insert(f.first); lev=std::max(lev,atomLevel(f.first)); } for(int a:inv) if(atomLevel(a)==lev) top.insert(a);
    if(g_trace) fprintf(stderr,"[zero] %zu terms, %zu denominators\n",p->t.size(),inv.size());
    for(int round=0;round<2;round++){ auto&O=round?top:inv; if(O.empty()||(round&&top.size()==inv.size())) continue; double dl0=g_oblDeadline; g_oblDeadline=nowS()+5; struct TL { long l; TL():l(g_termLimit){ g_termLimit=std::min(l,20000L); } ~TL(){ g_termLimit=l; } } tl; try{ const Poly*z=nullptr; try{ z=normalForm(p,true,sm,&O); } catch(Unsupported&){} if(!z||!(z->t.empty()||sm(z))) z=normalForm(p,false,sm,&O); if(z&&(z->t.empty()||sm(z))){ g_oblDeadline=dl0; how="poly"; return 1; } } catch(Unsupported&e){ if(g_trace) fprintf(stderr,"[opaque] %s\n",e.what()); } catch(std::bad_alloc&e){ } g_oblDeadline=dl0; } }
  { double dl0=g_oblDeadline; g_oblDeadline=std::min(dl0,nowS()+2); struct TL { long l; TL():l(g_termLimit){ g_termLimit=std::min(l,3000L); } ~TL(){ g_termLimit=l; } } tl; try{ const Poly*z=normalForm(p,false,sm,nullptr,true); if(z&&(z->t.empty()||sm(z))){ g_oblDeadline=dl0; how="poly"; return 1; } } catch(Unsupported&e){ if(g_trace) fprintf(stderr,"[plain] %s\n",e.what()); } g_oblDeadline=dl0; }
  try{ q=normalForm(p,true,sm); if(q&&(q->t.empty()||sm(q))){ how="poly"; return 1; } } catch(Unsupported&e){ q=nullptr; if(g_trace) fprintf(stderr,"[inv] %s\n",e.what()); } 
  if(!q) try{ q=normalForm(p,false,sm); } catch(Unsupported&e){ if(tested>=6&&g_pc.size()<100){ how="random-identity"; return tested>=8?2:-1; } return -1; }
  if(q->t.empty()||sm(q)){ how="poly"; return 1; }
  // nonzero normal form: try z3 with PC
  Sample s; s.seed=g_seed*7+1; int r=z3sat(fCmp(F_NE,p),&s); if(r==0){ how="z3"; return 1; } if(r==1){ double m; double v=evalPoly(p,s,&m); m=std::max(m,scaleAt(s)); if(std::isfinite(v)&&std::fabs(v)>1e-6*std::max(m,1e-6)&&sampleOk(s)&&refutesQ(p,s)){ if(cex)*cex=s; how="z3"; return 0; } }
  how="normal form: "+polyStr(q); return -1; }
static int decideEq(const Poly*d){ // integers: definitely equal(1)/different(0)/unknown
  std::string h; if(z3sat(fCmp(F_NE,d))==0) return 1; if(z3sat(fCmp(F_EQ,d))==0) return 0; return -1; }
static int g_kAtom=-1; // index atom of the last loop cut
static std::string modelStr(Sample&s){ std::ostringstream o; o.precision(17); o<<"{"; bool first=true; for(auto&c:g_choices){ o<<(first?"":",")<<"\""<<jesc(c.first)<<"\":"<<c.second; first=false; } for(int a:g_inputs){ double v=evalAtom(a,s); if(!std::isfinite(v)) v=0; o<<(first?"":",")<<"\""<<jesc(g_atoms[a].name)<<"\":"<<v; first=false; } for(size_t a=0;a<g_atoms.size();a++) if(g_atoms[a].arr){ double v=evalAtom(a,s); if(!std::isfinite(v)) v=0; std::string an=g_atoms[a].name; if(g_atoms[a].arrIdx){ std::ostringstream q; q<<g_atoms[a].arrName<<"["<<(long)std::llround(evalPoly(g_atoms[a].arrIdx,s))<<"]"; an=q.str(); } o<<(first?"":",")<<"\""<<jesc(an)<<"\":"<<v; first=false; } if(g_kAtom>=0){ double v=evalAtom(g_kAtom,s); if(std::isfinite(v)) o<<(first?"":",")<<"\"$loopindex\":"<<v; } o<<"}"; return o.str(); }
#include "interp.inc"
