// Contracts shared by the drivers of the solver: configuration, distributed vectors, objects with virtual functions, a small mesh.
#ifndef VC_SOLVERBASE_H_
#define VC_SOLVERBASE_H_
#include "common.h"
#include "natrium/collision/BGKPseudopotential.h"
#include "natrium/dataprocessors/GlobalTurbulenceStats.h"
#include "natrium/dataprocessors/PseudoEntropicStabilizer.h"
#include "natrium/solver/CFDSolver.cpp"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/solver/DistributionFunctions.cpp"
#include "natrium/timeintegration/TimeIntegrator.cpp"
#include "natrium/collision/CollisionModel.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "nodes.h"
using namespace vcf;
// ---- configuration
static struct { unsigned long N, filtint, iters, order; double end, thr, res, cfl; bool filtering, lim, cts; int adv, init; } sc;
static unsigned long c_N(void*){ return sc.N; } static unsigned long c_filtint(void*){ return sc.filtint; } static unsigned long c_iters(void*){ return sc.iters; } static unsigned long c_order(void*){ return sc.order; } static double c_end(void*){ return sc.end; } static double c_thr(void*){ return sc.thr; } static double c_res(void*){ return sc.res; } static double c_cfl(void*){ return sc.cfl; } static bool c_filt(void*){ return sc.filtering; } static bool c_lim(void*){ return sc.lim; } static bool c_cts(void*){ return sc.cts; } static int c_adv(void*){ return sc.adv; } static int c_init(void*){ return sc.init; } static bool c_no(void*){ return false; }
// ---- contracts of the distributed vectors: two local entries
enum { NN=2 }; static int NL=NN; // length of the local vectors
static double* arr2(const double* o){ double* a=(double*)malloc(NL*8); for(int k=0;k<NL;k++) a[k]=o?o[k]:0; return a; }
static void w_ctor(FakeVec* v){ v->vptr=vcm::fake_vtab; v->data=nullptr; v->len=0; }
static void w_copy(FakeVec* v, const FakeVec* o){ v->vptr=vcm::fake_vtab; v->len=o->len; v->data=o->data?arr2(o->data):nullptr; }
static FakeVec* w_assign(FakeVec* v, const FakeVec* o){ if(v!=o) w_copy(v,o); return v; }
static FakeVec* w_set(FakeVec* v, double x){ if(!v->data) vc_fail("vector-initialized"); for(int k=0;k<NL;k++) v->data[k]=x; return v; }
static void w_reinit(FakeVec* v){ v->vptr=vcm::fake_vtab; v->data=arr2(nullptr); v->len=NL; }
static void w_need(const FakeVec* a, const FakeVec* b){ if(!a->data||!b->data) vc_fail("vector-initialized"); }
static void w_add(FakeVec* v, const FakeVec* o, bool){ w_need(v,o); for(int k=0;k<NL;k++) v->data[k]+=o->data[k]; }
static void w_addsv(FakeVec* v, double s, const FakeVec* o){ w_need(v,o); for(int k=0;k<NL;k++) v->data[k]+=s*o->data[k]; }
static FakeVec* w_plus(FakeVec* v, const FakeVec* o){ w_add(v,o,false); return v; } static FakeVec* w_minus(FakeVec* v, const FakeVec* o){ w_addsv(v,-1,o); return v; } static FakeVec* w_mul(FakeVec* v, double s){ w_need(v,v); for(int k=0;k<NL;k++) v->data[k]*=s; return v; }
static void w_scale(FakeVec* v, const FakeVec* o){ w_need(v,o); double t[8]; for(int k=0;k<NL;k++) t[k]=o->data[k]; for(int k=0;k<NL;k++) v->data[k]*=t[k]; }
static double w_linf(const FakeVec* v){ double m=0; for(int k=0;k<NL;k++){ double x=v->data[k]; if(x<0) x=-x; if(x>m) m=x; } return m; }
static double w_normsqr(const FakeVec* v){ double m=0; for(int k=0;k<NL;k++) m+=v->data[k]*v->data[k]; return m; }
static FakeVec* vecn(FakeVec* v, const char* name, double lo=-100, double hi=100){ w_reinit(v); for(int k=0;k<NL;k++) v->data[k]=vc_real(nm(name,k),lo,hi); return v; }
static void bl_ctor(FakeBlock* b){ b->vptr=vcm::fake_vtab; b->n=0; b->b=nullptr; }
static void bl_copy(FakeBlock* b, const FakeBlock* o){ mkblock(b,o->n); for(unsigned i=0;i<o->n;i++) w_copy(fv(b->b+i),fv(o->b+i)); }
static FakeBlock* bl_assign(FakeBlock* b, const FakeBlock* o){ if(b!=o) bl_copy(b,o); return b; } static void bl_reinit(FakeBlock* b, const FakeBlock* o){ bl_copy(b,o); }
static int g_dirty; static void df_ghost(DistributionFunctions* f){ g_dirty&=~(1<<(f->m_Q/1000)); } // refreshed ghosts
static void exit_hook(const char*){ vc_fail("no-error-exit"); }
static void install_solver(){ install_nodes(); g_len=NN;
	vc_override("natrium_errorexit(",(void*)exit_hook); vc_override("^natrium::LOG(",(void*)vcm::vm_null); vc_override("TimerOutput",(void*)vcm::vm_nop); vc_override("Timing::",(void*)vcm::vm_null); vc_override("is_MPI_rank_0",(void*)c_no); vc_override("MPI_sync",(void*)vcm::vm_nop);
	vc_override("SolverConfiguration::getNumberOfTimeSteps()",(void*)c_N); vc_override("SolverConfiguration::getSimulationEndTime()",(void*)c_end); vc_override("SolverConfiguration::getConvergenceThreshold()",(void*)c_thr); vc_override("SolverConfiguration::isFiltering()",(void*)c_filt); vc_override("SolverConfiguration::getFilterInterval()",(void*)c_filtint); vc_override("SolverConfiguration::getAdvectionScheme()",(void*)c_adv); vc_override("SolverConfiguration::isVmultLimiter()",(void*)c_lim); vc_override("SolverConfiguration::getCFL()",(void*)c_cfl); vc_override("SolverConfiguration::getSedgOrderOfFiniteElement()",(void*)c_order); vc_override("SolverConfiguration::getInitializationScheme()",(void*)c_init); vc_override("SolverConfiguration::getIterativeInitializationResidual()",(void*)c_res); vc_override("SolverConfiguration::getIterativeInitializationNumberOfIterations()",(void*)c_iters); vc_override("SolverConfiguration::isOutputCompressibleTurbulenceStatistics()",(void*)c_cts);
	static const char* V="^dealii::TrilinosWrappers::MPI::Vector"; static char b[16][120]; int c=0; auto N=[&](const char* s)->const char*{ char* p=b[c++]; int l=0; for(const char* q=V;*q;q++) p[l++]=*q; for(const char* q=s;*q;q++) p[l++]=*q; p[l]=0; return p; };
	vc_override(N("::Vector()"),(void*)w_ctor); vc_override(N("::Vector(dealii::TrilinosWrappers::MPI::Vector const&)"),(void*)w_copy); vc_override(N("::Vector(dealii::TrilinosWrappers::MPI::Vector&&)"),(void*)w_copy); vc_override(N("::~Vector()"),(void*)vcm::vm_nop); vc_override(N("::operator=(dealii::TrilinosWrappers::MPI::Vector"),(void*)w_assign); vc_override(N("::operator=(double)"),(void*)w_set); vc_override(N("::reinit("),(void*)w_reinit); vc_override(N("::add(dealii"),(void*)w_add); vc_override(N("::add(double, dealii::TrilinosWrappers::MPI::Vector const&)"),(void*)w_addsv); vc_override(N("::operator+=(dealii"),(void*)w_plus); vc_override(N("::operator-=(dealii"),(void*)w_minus); vc_override(N("::operator*=(double)"),(void*)w_mul); vc_override(N("::scale("),(void*)w_scale); vc_override(N("::linfty_norm() const"),(void*)w_linf); vc_override(N("::norm_sqr() const"),(void*)w_normsqr); vc_override(N("::get_mpi_communicator() const"),(void*)vcm::vm_null);
	vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::BlockVector()",(void*)bl_ctor); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::BlockVector(dealii::TrilinosWrappers::MPI::BlockVector",(void*)bl_copy); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::operator=(dealii",(void*)bl_assign); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::~BlockVector()",(void*)vcm::vm_nop); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::reinit(",(void*)bl_reinit); }
// ---- objects with virtual functions: tables whose unused slots end the path as undecided
static void trap(){ vc_unsupported("a virtual function without contract is called"); }
static void** vtab(){ void** t=(void**)malloc(128*8); for(int i=0;i<128;i++) t[i]=(void*)trap; return t; }
template<class F> static int slot(F f){ union { F f; long w[2]; } u; u.f=f; return (int)((u.w[0]-1)/8); }
template<class T> static void sp(boost::shared_ptr<T>& p, const void* q){ ((const void**)&p)[0]=q; }
static void initDF(DistributionFunctions& f, const char* name, int Q, int tag, double** a){ f.m_Q=Q; f.m_dg=true; w_ctor(fv(&f.m_f0Ghosted)); bl_ctor((FakeBlock*)&f.m_fStreamGhosted); mkblock(&f.m_fStream,Q-1); for(int i=0;i<Q;i++){ a[i]=(double*)malloc(NN*8); for(int k=0;k<NN;k++) a[i][k]=vc_real(nm(name,i*NN+k),-10,10); mkvec(i?(void*)(((FakeBlock*)&f.m_fStream)->b+(i-1)):(void*)&f.m_f0,a[i],NN); } }
static double val(DistributionFunctions& f, int i, int k){ return fv(i?(void*)(((FakeBlock*)&f.m_fStream)->b+(i-1)):(void*)&f.m_f0)->data[k]; }
static double& valr(DistributionFunctions& f, int i, int k){ return fv(i?(void*)(((FakeBlock*)&f.m_fStream)->b+(i-1)):(void*)&f.m_f0)->data[k]; }
// ---- solvers
template<int D> struct Adv { static AdvectionOperator<D>* make(){ AdvectionOperator<D>* a=(AdvectionOperator<D>*)calloc(1,sizeof(AdvectionOperator<D>)); void** t=vtab(); *(void***)a=t; sp(a->m_doFHandler,calloc(1,64)); void* fe=calloc(1,4096); *(unsigned*)&((dealii::FiniteElement<D>*)fe)->dofs_per_cell=2; sp(a->m_fe,fe); return a; } };
template<class S, int D> static S* rawSolver(){ S* s=(S*)calloc(1,sizeof(S)); void** t=vtab(); *(void***)s=t; sp(s->m_advectionOperator,Adv<D>::make()); sp(s->m_configuration,configuration()); ProblemDescription<D>* p=(ProblemDescription<D>*)calloc(1,sizeof(ProblemDescription<D>)); *(void***)p=vtab(); sp(p->m_triangulation,calloc(1,64)); sp(s->m_problemDescription,p); new(&s->m_supportPoints) std::map<dealii::types::global_dof_index,dealii::Point<D>>(); bl_ctor((FakeBlock*)&s->m_boundaryVector); return s; }
// ---- a mesh: three cells with shared nodes
struct CellRaw { int level, index; const void* tria; void* dofs; }; enum { NF=5 }; static const int DOFS[3][2]={{0,1},{1,2},{3,4}}; static bool g_allowned; static bool OWNED(int d){ return g_allowned||d!=2; } static int g_proc; static bool CELLOWNED(int c){ return g_proc?c>=2:c<2; }
static CellRaw dh_begin(void*, unsigned){ CellRaw r; r.level=0; r.index=0; r.tria=(void*)0x100; r.dofs=(void*)0x200; return r; } static CellRaw dh_end(void*){ CellRaw r=dh_begin(0,0); r.index=3; return r; } static CellRaw* it_next(CellRaw* c){ c->index++; return c; } static bool it_neq(const CellRaw* a, const CellRaw* b){ return a->index!=b->index; } static bool it_eq(const CellRaw* a, const CellRaw* b){ return a->index==b->index; } static void* it_ptr(void* a){ return a; }
static bool c_owned(CellRaw* c){ return CELLOWNED(c->index); } static void c_dofs(CellRaw* c, std::vector<unsigned>* v){ for(int j=0;j<2;j++) (*v)[j]=DOFS[c->index][j]; } static bool is_owned(void*, unsigned i){ if(i>=NF){ vc_fail("node-of-the-mesh"); return false; } return OWNED(i); } static bool v_local(void*, unsigned, unsigned i){ return is_owned(0,i); }
static double fa[3], fb[3][3]; static const void* g_fun; static void* g_funsp[2];
template<int D> struct Fun { static double value(void* f, const dealii::Point<D>& p, unsigned c){ vc_check("prescribed-function",f==g_fun); if(c>=D){ vc_fail("component-of-the-function"); return 0; } return at(p,c); } static double at(const dealii::Point<D>& p, int c){ double r=fa[c]; for(int k=0;k<D;k++) r+=fb[c][k]*p[k]; return r; } };
static void* g_getfun(void*){ return g_funsp; } static int g_inits; static void init_hook(void*){ g_inits++; }
template<class S, int D> S* meshSolver(){ install_solver(); NL=NF; S* s=rawSolver<S,D>(); static const char* T[2]={"<2, 2, false>","<3, 3, false>"};
	vc_override("::is_locally_owned() const",(void*)c_owned); vc_override("::get_dof_indices(",(void*)c_dofs); vc_override("::begin_active(unsigned int) const",(void*)dh_begin); vc_override("dealii::DoFHandler<2, 2>::end() const",(void*)dh_end); vc_override("dealii::DoFHandler<3, 3>::end() const",(void*)dh_end); vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<2, 2, false>>::operator++()",(void*)it_next); vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<3, 3, false>>::operator++()",(void*)it_next); vc_override("false>>::operator!=(",(void*)it_neq); vc_override("false>>::operator==(",(void*)it_eq); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<2, 2, false>>::operator->()",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<3, 3, false>>::operator->()",(void*)it_ptr);
	vc_override("^dealii::IndexSet::is_element(",(void*)is_owned); vc_override("::in_local_range(",(void*)is_owned); void* f=calloc(1,1024); typedef dealii::Function<D> F; typedef double (F::*V)(const dealii::Point<D>&,unsigned) const; void** t=vtab(); t[slot<V>(&F::value)]=(void*)Fun<D>::value; *(void***)f=t; g_fun=f; g_funsp[0]=f; for(int c=0;c<D;c++){ fa[c]=vc_real(nm("value",c),-10,10); for(int k=0;k<D;k++) fb[c][k]=vc_real(nm("slope",c*3+k),-10,10); } return s; }
template<int D> void points(std::map<dealii::types::global_dof_index,dealii::Point<D>>& m){ for(int d=0;d<NF;d++){ dealii::Point<D> p; for(int k=0;k<D;k++) p[k]=vc_real(nm(k==0?"x":k==1?"y":"z",d),-10,10); m[d]=p; } }
#endif
