// Exact algebra of NVC: rationals, interned Laurent polynomials over atoms, formulas.
#ifndef ALG_H_
#define ALG_H_
#include <gmpxx.h>
#include <quadmath.h>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <cstdint>
#include <functional>
#include <stdexcept>
typedef uint64_t u64; typedef int64_t i64;
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Poly;
enum AtomKind { A_BASE, A_DEF, A_FUN };
struct Atom {
  AtomKind kind; bool isInt=false; bool hasLo=false,hasHi=false; mpq_class lo,hi;
  std::string name; const Poly* def=nullptr; std::string fn; const Poly* arg=nullptr; const Poly* arg2=nullptr;
  int level=0; bool user=false;
  bool arr=false; // element of an array input
  std::string arrName; const Poly* arrIdx=nullptr;
};
extern std::vector<Atom> g_atoms;
typedef int Mon; // monomial id, 0 = 1
struct MonD { std::vector<std::pair<int,int>> f; bool hasFun=false; };
extern std::vector<MonD> g_mons;
struct Poly { std::vector<std::pair<Mon,mpq_class>> t; u64 h; int id; };

// ---------------------------------------------------------------- monomials
struct VecHash { size_t operator()(const std::vector<std::pair<int,int>>& v) const { u64 h=1469598103934665603ULL; for(auto&p:v){ h=(h^(u64)(unsigned)p.first)*1099511628211ULL; h=(h^(u64)(unsigned)p.second)*1099511628211ULL;} return h; } };
inline std::unordered_map<std::vector<std::pair<int,int>>,Mon,VecHash>& monTab(){ static std::unordered_map<std::vector<std::pair<int,int>>,Mon,VecHash> t; return t; }
inline bool atomIsReducing(int a){ return g_atoms[a].kind==A_FUN && g_atoms[a].fn=="sqrt"; }
inline Mon mkMon(const std::vector<std::pair<int,int>>& f){
  auto& T=monTab(); auto it=T.find(f); if(it!=T.end()) return it->second;
  MonD d; d.f=f; for(auto&p:f) if(atomIsReducing(p.first)&&(p.second>=2||p.second<0)) d.hasFun=true;
  Mon id=g_mons.size(); g_mons.push_back(d); T[f]=id; return id; }
inline void algInit(){ if(g_mons.empty()) mkMon({}); }
inline Mon monMul(Mon a, Mon b){
  if(a==0) return b; if(b==0) return a; if(a>b) std::swap(a,b);
  static std::unordered_map<u64,Mon> cache; u64 key=((u64)a<<32)|(unsigned)b; auto it=cache.find(key); if(it!=cache.end()) return it->second;
  std::vector<std::pair<int,int>> r; auto&x=g_mons[a].f; auto&y=g_mons[b].f; size_t i=0,j=0;
  while(i<x.size()||j<y.size()){
    if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
    else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]);
    else { int e=x[i].second+y[j].second; if(e) r.push_back({x[i].first,e}); i++; j++; } }
  Mon m=mkMon(r); cache[key]=m; return m; }
inline Mon monPow(Mon a,int e){ std::vector<std::pair<int,int>> r=g_mons[a].f; if(e==0) return 0; for(auto&p:r) p.second*=e; return mkMon(r); }

// ---------------------------------------------------------------- polynomials
struct PolyEq { bool operator()(const Poly*a,const Poly*b) const { return a->h==b->h && a->t==b->t; } };
struct PolyHash { size_t operator()(const Poly*a) const { return a->h; } };
inline std::unordered_set<const Poly*,PolyHash,PolyEq>& polyTab(){ static std::unordered_set<const Poly*,PolyHash,PolyEq> t; return t; }
inline u64 mpqHash(const mpq_class& q){ u64 h=mpz_get_ui(q.get_num_mpz_t()); h=h*0x9E3779B97F4A7C15ULL ^ mpz_get_ui(q.get_den_mpz_t()); if(sgn(q)<0) h=~h; return h*0xff51afd7ed558ccdULL; }
inline const Poly* intern(std::vector<std::pair<Mon,mpq_class>>&& t){
  std::sort(t.begin(),t.end(),[](auto&a,auto&b){return a.first<b.first;});
  Poly p; p.t=std::move(t); u64 h=1469598103934665603ULL; for(auto&x:p.t){ h=(h^(unsigned)x.first)*1099511628211ULL; h=(h^mpqHash(x.second))*1099511628211ULL; } p.h=h;
  auto&T=polyTab(); auto it=T.find(&p); if(it!=T.end()) return *it;
  Poly*q=new Poly(std::move(p)); q->id=T.size(); T.insert(q); return q; }
inline const Poly* pConst(const mpq_class& c){ std::vector<std::pair<Mon,mpq_class>> t; if(c!=0) t.push_back({0,c}); return intern(std::move(t)); }
inline const Poly* pZero(){ static const Poly* z=pConst(0); return z; }
inline const Poly* pOne(){ static const Poly* z=pConst(1); return z; }
inline const Poly* pAtom(int a){ std::vector<std::pair<Mon,mpq_class>> t; t.push_back({mkMon({{a,1}}),1}); return intern(std::move(t)); }
inline bool isConst(const Poly*p){ return p->t.empty()||(p->t.size()==1&&p->t[0].first==0); }
inline mpq_class constOf(const Poly*p){ return p->t.empty()?mpq_class(0):p->t[0].second; }
inline mpq_class constTerm(const Poly*p){ if(p->t.empty()||p->t[0].first!=0) return 0; return p->t[0].second; }
inline int newAtom(const Atom&a){ g_atoms.push_back(a); return (int)g_atoms.size()-1; }
inline const Poly* addScaled(const Poly*a,const Poly*b,const mpq_class&c){
  if(c==0||b->t.empty()) return a; std::vector<std::pair<Mon,mpq_class>> r; r.reserve(a->t.size()+b->t.size());
  size_t i=0,j=0; auto&x=a->t; auto&y=b->t;
  while(i<x.size()||j<y.size()){
    if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
    else if(i>=x.size()||y[j].first<x[i].first){ r.push_back({y[j].first,y[j].second*c}); j++; }
    else { mpq_class s=x[i].second+y[j].second*c; if(s!=0) r.push_back({x[i].first,s}); i++; j++; } }
  return intern(std::move(r)); }
inline const Poly* pAdd(const Poly*a,const Poly*b){ return addScaled(a,b,1); }
inline const Poly* pSub(const Poly*a,const Poly*b){ return addScaled(a,b,-1); }
inline const Poly* pScale(const Poly*a,const mpq_class&c){ if(c==1) return a; if(c==0) return pZero(); auto t=a->t; for(auto&x:t) x.second*=c; return intern(std::move(t)); }
inline const Poly* pNeg(const Poly*a){ return pScale(a,-1); }
const Poly* pMulRaw(const Poly*a,const Poly*b);
const Poly* reduceFun(const Poly*p);
extern long g_termLimit;
inline const Poly* pPowRaw(const Poly*a,int n){ if(n==0) return pOne(); const Poly*r=nullptr; const Poly*b=a; while(n){ if(n&1) r=r?pMulRaw(r,b):b; n>>=1; if(n) b=pMulRaw(b,b);} return r; }
inline const Poly* pMulRaw(const Poly*a,const Poly*b){
  if(a->t.empty()||b->t.empty()) return pZero();
  if(isConst(a)) return pScale(b,a->t[0].second); if(isConst(b)) return pScale(a,b->t[0].second);
  std::unordered_map<Mon,mpq_class> acc; acc.reserve(a->t.size()*2+b->t.size()*2); bool fun=false;
  for(auto&x:a->t) for(auto&y:b->t){ Mon m=monMul(x.first,y.first); if(g_mons[m].hasFun) fun=true; auto it=acc.find(m); if(it==acc.end()) { acc.emplace(m,x.second*y.second); if((long)acc.size()>g_termLimit) throw Unsupported("polynomial term limit"); } else it->second+=x.second*y.second; }
  std::vector<std::pair<Mon,mpq_class>> r; r.reserve(acc.size()); for(auto&x:acc) if(x.second!=0) r.push_back({x.first,x.second});
  const Poly*p=intern(std::move(r)); return fun?reduceFun(p):p; }
// monomial * poly
inline const Poly* pMulMon(const Poly*a,Mon m,const mpq_class&c){ if(c==0) return pZero(); std::vector<std::pair<Mon,mpq_class>> r; r.reserve(a->t.size()); bool fun=false; for(auto&x:a->t){ Mon q=monMul(x.first,m); if(g_mons[q].hasFun) fun=true; r.push_back({q,x.second*c}); } const Poly*p=intern(std::move(r)); return fun?reduceFun(p):p; }

// ---------------------------------------------------------------- naming (let atoms)
inline std::unordered_map<const Poly*,int>& defTab(){ static std::unordered_map<const Poly*,int> t; return t; }
inline int polyLevel(const Poly*p);
inline int atomLevel(int a){ Atom&A=g_atoms[a]; if(A.kind==A_BASE) return A.def? 1+polyLevel(A.def):0; int l=0; if(A.def) l=std::max(l,polyLevel(A.def)); if(A.arg) l=std::max(l,polyLevel(A.arg)); if(A.arg2) l=std::max(l,polyLevel(A.arg2)); return l+1; }
extern int g_levelEpoch;
inline int polyLevel(const Poly*p){ static std::unordered_map<const Poly*,int> memo; static int ep=-1; if(ep!=g_levelEpoch){ memo.clear(); ep=g_levelEpoch; } auto it=memo.find(p); if(it!=memo.end()) return it->second;
  int l=0; std::set<int> seen; for(auto&x:p->t) for(auto&f:g_mons[x.first].f) if(seen.insert(f.first).second) l=std::max(l,atomLevel(f.first)); memo[p]=l; return l; }
// name p: returns c*atom with p = c*p', p' monic in its first monomial that is not a rounding residue
inline const Poly* nameIt(const Poly*p,bool force=false){
  if(!force && p->t.size()<=1) return p; if(isConst(p)) return p;
  mpq_class c=p->t.back().second; { mpq_class m=0; for(auto&t:p->t) if(abs(t.second)>m) m=abs(t.second); if(abs(c)*1000000<m) for(auto it=p->t.rbegin();it!=p->t.rend();++it) if(abs(it->second)*1000>=m){ c=it->second; break; } } const Poly*q=pScale(p,1/c); // not by a rounding residue
  if(q->t.size()==1 && g_mons[q->t[0].first].f.size()==1 && g_mons[q->t[0].first].f[0].second==1) return p;
  auto&T=defTab(); auto it=T.find(q); int a; if(it!=T.end()) a=it->second; else { Atom A; A.kind=A_DEF; A.name="d"; A.def=q; a=newAtom(A); g_atoms[a].name="d"+std::to_string(a); T[q]=a; }
  return pScale(pAtom(a),c); }
extern int g_mulLimit;
inline const Poly* pMul(const Poly*a,const Poly*b){
  if(a->t.size()>1&&b->t.size()>1&&(long)a->t.size()*(long)b->t.size()>g_mulLimit){
    if(a->t.size()>=b->t.size()) { a=nameIt(a); if((long)b->t.size()>g_mulLimit/2) b=nameIt(b);} else { b=nameIt(b); if((long)a->t.size()>g_mulLimit/2) a=nameIt(a);} }
  return pMulRaw(a,b); }
extern std::function<void(const Poly*)> g_onDivisor;
inline const Poly* pInv(const Poly*b){
  if(b->t.empty()) throw Unsupported("division by zero");
  if(b->t.size()==1){ Mon m=monPow(b->t[0].first,-1); std::vector<std::pair<Mon,mpq_class>> r; r.push_back({m,1/b->t[0].second}); const Poly*p=intern(std::move(r)); if(g_mons[m].hasFun) p=reduceFun(p); if(m!=0&&g_onDivisor) g_onDivisor(b); return p; }
  if(g_onDivisor) g_onDivisor(b);
  const Poly*n=nameIt(b); mpq_class c=n->t[0].second; return pMulMon(pConst(1/c),monPow(n->t[0].first,-1),1); }
extern int g_quotName;
inline const Poly* pDiv(const Poly*a,const Poly*b){
  if(a->t.empty()) { if(b->t.empty()) throw Unsupported("0/0"); return a; }
  if(isConst(b)){ if(b->t.empty()) throw Unsupported("division by zero"); return pScale(a,1/constOf(b)); }
  if(a==b) return pOne();
  if(b->t.size()>1){ // exact proportionality
    mpq_class r=a->t.back().second/b->t.back().second; if(a->t.size()==b->t.size()&&pScale(b,r)==a) return pConst(r); }
  const Poly*i=pInv(b); const Poly*q=pMulRaw(a->t.size()>1&&i->t.size()>1?nameIt(a):a,i);
  if((int)q->t.size()>g_quotName) return nameIt(q); return q; }
// reduce sqrt powers: s^2 -> arg
inline const Poly* reduceFun(const Poly*p){
  const Poly* r=pZero(); std::vector<std::pair<Mon,mpq_class>> keep;
  for(auto&x:p->t){ if(!g_mons[x.first].hasFun){ keep.push_back(x); continue; }
    auto f=g_mons[x.first].f; const Poly* fac=pConst(x.second); std::vector<std::pair<int,int>> rest;
    for(auto&q:f){ if(atomIsReducing(q.first)&&(q.second>=2||q.second<0)){ int e=q.second; int r2=((e%2)+2)%2; int h=(e-r2)/2; if(r2) rest.push_back({q.first,1}); const Poly*arg=g_atoms[q.first].arg; if(h>0) fac=pMulRaw(fac,pPowRaw(arg,h)); else if(h<0) fac=pMulRaw(fac,pPowRaw(pInv(arg),-h)); } else rest.push_back(q); }
    Mon m=mkMon(rest); std::vector<std::pair<Mon,mpq_class>> o; o.push_back({m,1}); r=pAdd(r,pMulRaw(fac,intern(std::move(o)))); }
  return pAdd(intern(std::move(keep)),r); }
inline std::map<std::tuple<std::string,const Poly*,const Poly*>,int>& funTab(){ static std::map<std::tuple<std::string,const Poly*,const Poly*>,int> t; return t; }
inline const Poly* pFun(const std::string&fn,const Poly*a,const Poly*b=nullptr){
  auto key=std::make_tuple(fn,a,b); auto&T=funTab(); auto it=T.find(key); if(it!=T.end()) return pAtom(it->second);
  Atom A; A.kind=A_FUN; A.fn=fn; A.arg=a; A.arg2=b; int i=newAtom(A); g_atoms[i].name=fn+std::to_string(i); T[key]=i; return pAtom(i); }

// ---------------------------------------------------------------- double <-> rational
inline mpq_class exactQ0(double d){ mpq_class q; mpq_set_d(q.get_mpq_t(),d); return q; }
inline mpq_class exactQ(double d){ mpq_class q; mpq_set_d(q.get_mpq_t(),d); return q; }
extern bool g_conc;
inline mpq_class ratOf(double d){ if(g_conc&&std::isfinite(d)) return exactQ(d);
  static std::unordered_map<u64,mpq_class> cache; u64 b; memcpy(&b,&d,8); auto it=cache.find(b); if(it!=cache.end()) return it->second;
  if(!std::isfinite(d)) throw Unsupported("non-finite constant"); mpq_class res; bool done=false;
  if(d==0) { res=0; done=true; }
  if(!done){ double x=std::fabs(d); // continued fraction
    mpz_class h0=0,h1=1,k0=1,k1=0; mpq_class y=exactQ(x); for(int i=0;i<40&&!done;i++){ mpz_class a=y.get_num()/y.get_den(); mpz_class h=a*h1+h0,k=a*k1+k0; h0=h1;h1=h;k0=k1;k1=k; mpq_class c(h,k); if(c.get_d()==x||(k<=1000000&&std::fabs(c.get_d()-x)<=1e-16*x)){ if(k<=1000000||false){ res=d<0?mpq_class(-c):c; done=true;} break; } if(k>1000000) break; y-=a; if(y==0) break; y=1/y; } }
  if(!done){ char buf[64]; for(int pr=1;pr<=12;pr++){ snprintf(buf,64,"%.*e",pr-1,d); if(strtod(buf,0)==d){ std::string s(buf); size_t e=s.find('e'); int ex=atoi(s.c_str()+e+1); std::string m=s.substr(0,e); size_t dot=m.find('.'); int fr=0; if(dot!=std::string::npos){ fr=m.size()-dot-1; m.erase(dot,1);} bool neg=m[0]=='-'; mpz_class n(neg?m.substr(1):m,10); if(neg) n=-n; int p=ex-fr; mpz_class ten=1; for(int i=0;i<std::abs(p);i++) ten*=10; if(p>=0) res=mpq_class(n*ten); else res=mpq_class(n,ten); res.canonicalize(); done=true; break; } } }
  if(!done) res=exactQ(d);
  res.canonicalize(); cache[b]=res; return res; }
// ---------------------------------------------------------------- numeric evaluation at sample points
typedef __float128 f128;
inline f128 f128OfQ(const mpq_class&q){ if(q.get_den()==1&&mpz_sizeinbase(q.get_num_mpz_t(),2)<=53) return (f128)q.get_num().get_d(); mpf_class f(q,160); double a=f.get_d(); f-=a; double b=f.get_d(); f-=b; double c=f.get_d(); return (f128)a+((f128)b+(f128)c); }
inline mpq_class qOfF128(f128 x){ double a=(double)x; x-=a; double b=(double)x; x-=b; double c=(double)x; mpq_class r=exactQ0(a); if(b!=0) r+=exactQ0(b); if(c!=0) r+=exactQ0(c); return r; }
inline f128 fun128(const std::string&f,f128 x,f128 y){ if(f=="sqrt") return sqrtq(x); if(f=="exp") return expq(x); if(f=="log") return logq(x); if(f=="sin") return sinq(x); if(f=="cos") return cosq(x); if(f=="tan") return tanq(x); if(f=="pow") return powq(x,y); if(f=="abs") return fabsq(x); if(f=="tanh") return tanhq(x); if(f=="atan") return atanq(x); if(f=="acos") return acosq(x); if(f=="asin") return asinq(x); if(f=="floor") return floorq(x); if(f=="cbrt") return cbrtq(x); if(f=="atan2") return atan2q(x,y); if(f=="erf") return erfq(x); if(f=="sinh") return sinhq(x); if(f=="cosh") return coshq(x); if(f=="ceil") return ceilq(x); if(f=="round") return roundq(x); if(f=="trunc") return truncq(x); return nanq(""); }
struct Sample { u64 seed; std::unordered_map<int,double> fix; std::unordered_map<int,double> memo; std::unordered_map<int,f128> memoq; };
inline u64 mix(u64 x){ x^=x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; x*=0xc4ceb9fe1a85ec53ULL; x^=x>>33; return x; }
double evalPoly(const Poly*p,Sample&s,double*mag=nullptr);
inline double evalAtom(int a,Sample&s){ auto it=s.memo.find(a); if(it!=s.memo.end()) return it->second; Atom&A=g_atoms[a]; double v;
  if(A.def) v=evalPoly(A.def,s);
  else if(A.kind==A_BASE){ auto f=s.fix.find(a); if(f!=s.fix.end()) v=f->second; else { u64 r=mix(s.seed*0x9E3779B97F4A7C15ULL+mix(a+12345)); double u=(r>>11)*(1.0/9007199254740992.0); 
      double lo=A.hasLo?A.lo.get_d():-2, hi=A.hasHi?A.hi.get_d():2; if(A.hasLo&&!A.hasHi) hi=lo+ (A.isInt?7:3); if(!A.hasLo&&A.hasHi) lo=hi-(A.isInt?7:3); if(hi-lo>1e6){ if(lo<=0&&hi>=0){ lo=std::max(lo,-3.); hi=std::min(hi,3.);} else hi=lo+3; }
      if(A.isInt) v=std::floor(lo+u*(hi-lo+1)); else { unsigned sel=(r&63); if(sel==0) v=lo; else if(sel==1) v=hi; else v=lo+u*(hi-lo); if((s.seed&3)==3) { double m=std::fabs(v); if(m>1e-3&&sel>1){ double sc=(r>>6&7)?1:1e-2; double w=v*sc; if(w>=lo&&w<=hi) v=w; } } } } }
  else { double x=evalPoly(A.arg,s); double y=A.arg2?evalPoly(A.arg2,s):0; const std::string&f=A.fn;
    if(f=="sqrt") v=std::sqrt(x); else if(f=="exp") v=std::exp(x); else if(f=="log") v=std::log(x); else if(f=="sin") v=std::sin(x); else if(f=="cos") v=std::cos(x); else if(f=="tan") v=std::tan(x); else if(f=="pow") v=std::pow(x,y); else if(f=="abs") v=std::fabs(x); else if(f=="tanh") v=std::tanh(x); else if(f=="atan") v=std::atan(x); else if(f=="acos") v=std::acos(x); else if(f=="asin") v=std::asin(x); else if(f=="floor") v=std::floor(x); else if(f=="cbrt") v=std::cbrt(x); else if(f=="atan2") v=std::atan2(x,y); else if(f=="erf") v=std::erf(x); else if(f=="sinh") v=std::sinh(x); else if(f=="cosh") v=std::cosh(x); else v=NAN; }
  s.memo[a]=v; return v; }
inline double evalPoly(const Poly*p,Sample&s,double*mag){ double r=0,m=0; for(auto&x:p->t){ double c=x.second.get_d(); for(auto&f:g_mons[x.first].f){ double v=evalAtom(f.first,s); c*= f.second==1?v:std::pow(v,f.second);} r+=c; m+=std::fabs(c);} if(mag)*mag=m; return r; }
// the same in 113-bit arithmetic: confirms a refutation, so that cancellation in double precision is never reported
f128 evalPolyQ(const Poly*p,Sample&s,f128*mag=nullptr);
inline f128 evalAtomQ(int a,Sample&s){ auto it=s.memoq.find(a); if(it!=s.memoq.end()) return it->second; Atom&A=g_atoms[a]; f128 v; if(A.def) v=evalPolyQ(A.def,s); else if(A.kind==A_BASE) v=evalAtom(a,s); else v=fun128(A.fn,evalPolyQ(A.arg,s),A.arg2?evalPolyQ(A.arg2,s):0); s.memoq[a]=v; return v; }
inline f128 evalPolyQ(const Poly*p,Sample&s,f128*mag){ f128 r=0,m=0; for(auto&x:p->t){ f128 c=f128OfQ(x.second); for(auto&f:g_mons[x.first].f){ f128 v=evalAtomQ(f.first,s); int e=std::abs(f.second); f128 w=1; for(int k=0;k<e;k++) w*=v; if(f.second>0) c*=w; else c/=w; } r+=c; m+=fabsq(c);} if(mag)*mag=m; return r; }

// ---------------------------------------------------------------- formulas (p REL 0)
enum FOp { F_TRUE,F_FALSE,F_AND,F_OR,F_EQ,F_NE,F_LT,F_LE };
struct Form { FOp op; const Poly*p=nullptr; const Form*a=nullptr,*b=nullptr; };
inline const Form* fTrue(){ static Form f{F_TRUE}; return &f; }
inline const Form* fFalse(){ static Form f{F_FALSE}; return &f; }
inline const Form* fCmp(FOp op,const Poly*p){ Form*f=new Form; f->op=op; f->p=p; return f; }
inline const Form* fNot(const Form*f){ switch(f->op){ case F_TRUE: return fFalse(); case F_FALSE: return fTrue(); case F_EQ: return fCmp(F_NE,f->p); case F_NE: return fCmp(F_EQ,f->p); case F_LT: return fCmp(F_LE,pNeg(f->p)); case F_LE: return fCmp(F_LT,pNeg(f->p));
  case F_AND: case F_OR: { Form*g=new Form; g->op=f->op==F_AND?F_OR:F_AND; g->a=fNot(f->a); g->b=fNot(f->b); return g; } } return nullptr; }
inline const Form* fBin(FOp op,const Form*a,const Form*b){ if(op==F_AND){ if(a->op==F_FALSE||b->op==F_FALSE) return fFalse(); if(a->op==F_TRUE) return b; if(b->op==F_TRUE) return a; } else { if(a->op==F_TRUE||b->op==F_TRUE) return fTrue(); if(a->op==F_FALSE) return b; if(b->op==F_FALSE) return a; } Form*g=new Form; g->op=op; g->a=a; g->b=b; return g; }
// three-valued numeric evaluation with tolerance: 1 true, 0 false, -1 too close
inline int evalForm(const Form*f,Sample&s){ switch(f->op){ case F_TRUE: return 1; case F_FALSE: return 0; case F_AND:{int a=evalForm(f->a,s); if(a==0) return 0; int b=evalForm(f->b,s); if(b==0) return 0; return (a==1&&b==1)?1:-1;} case F_OR:{int a=evalForm(f->a,s); if(a==1) return 1; int b=evalForm(f->b,s); if(b==1) return 1; return (a==0&&b==0)?0:-1;} default: { double m; double v=evalPoly(f->p,s,&m); if(!std::isfinite(v)) return -1; double tol=1e-9*m+1e-300; if(std::fabs(v)<=tol){ if(m==0) return (f->op==F_EQ||f->op==F_LE)?1:0; bool intp=true; for(auto&x:f->p->t) for(auto&q:g_mons[x.first].f) if(!g_atoms[q.first].isInt) intp=false; if(intp){ v=std::round(v*1e6)/1e6; if(v==0) return (f->op==F_EQ||f->op==F_LE)?1:0; } return -1; } switch(f->op){ case F_EQ: return 0; case F_NE: return 1; case F_LT: case F_LE: return v<0; default: return -1; } } } }
// three-valued numeric evaluation with tolerance: 1 true, 0 false, -1 too close
inline int evalFormQ(const Form*f,Sample&s){ switch(f->op){ case F_TRUE: return 1; case F_FALSE: return 0; case F_AND:{int a=evalFormQ(f->a,s); if(a==0) return 0; int b=evalFormQ(f->b,s); if(b==0) return 0; return (a==1&&b==1)?1:-1;} case F_OR:{int a=evalFormQ(f->a,s); if(a==1) return 1; int b=evalFormQ(f->b,s); if(b==1) return 1; return (a==0&&b==0)?0:-1;} default: { f128 m; f128 v=evalPolyQ(f->p,s,&m); if(!finiteq(v)) return -1; f128 tol=m*(f128)1e-12+(f128)1e-300; if(fabsq(v)<=tol){ if(m==0) return (f->op==F_EQ||f->op==F_LE)?1:0; bool intp=true; for(auto&x:f->p->t) for(auto&q:g_mons[x.first].f) if(!g_atoms[q.first].isInt) intp=false; if(intp){ v=roundq(v*1e6)/1e6; if(v==0) return (f->op==F_EQ||f->op==F_LE)?1:0; } return -1; } switch(f->op){ case F_EQ: return 0; case F_NE: return 1; case F_LT: case F_LE: return v<0; default: return -1; } } } }
std::string polyStr(const Poly*p,int maxTerms=12);
inline std::string monStr(Mon m){ std::string s; for(auto&f:g_mons[m].f){ if(!s.empty()) s+="*"; s+=g_atoms[f.first].name; if(f.second!=1) s+="^"+std::to_string(f.second);} return s; }
inline std::string polyStr(const Poly*p,int maxTerms){ if(p->t.empty()) return "0"; std::string s; int n=0; for(auto&x:p->t){ if(n++>=maxTerms){ s+=" + ...("+std::to_string(p->t.size())+" terms)"; break; } if(n>1) s+=" + "; std::string c=x.second.get_str(); if(c.size()>24) c=std::to_string(x.second.get_d()); s+=c; if(x.first) s+="*"+monStr(x.first);} return s; }
inline std::string formStr(const Form*f){ switch(f->op){ case F_TRUE: return "true"; case F_FALSE: return "false"; case F_AND: return "("+formStr(f->a)+" && "+formStr(f->b)+")"; case F_OR: return "("+formStr(f->a)+" || "+formStr(f->b)+")"; case F_EQ: return polyStr(f->p)+" == 0"; case F_NE: return polyStr(f->p)+" != 0"; case F_LT: return polyStr(f->p)+" < 0"; default: return polyStr(f->p)+" <= 0"; } }
#endif
