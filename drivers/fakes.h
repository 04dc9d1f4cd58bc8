// Contracts of the distributed (Trilinos) vectors, index sets, solver configuration.
#ifndef VC_FAKES_H_
#define VC_FAKES_H_
#include "vc.h"
namespace vcf {
using namespace natrium;
// ---- distributed_vector: a (symbolic, unbounded) array of reals with a local length
struct FakeVec { void** vptr; double* data; long len; };
inline FakeVec* fv(const void* v){ return (FakeVec*)v; }
static void* fv_self(void* v){ return v; }
static int fv_extract(FakeVec* v, double** a, int* n){ *a = v->data; *n = (int)v->len; return 0; }
inline void mkvec(void* where, double* data, long len){ FakeVec* f=(FakeVec*)where; f->vptr=vcm::fake_vtab; f->data=data; f->len=len; }
inline distributed_vector* newvec(double* data, long len){ distributed_vector* v=(distributed_vector*)malloc(sizeof(distributed_vector)); mkvec(v,data,len); return v; }
static char namebuf[64];
inline const char* nm(const char* base, int i){ int p=0; while(base[p]){ namebuf[p]=base[p]; p++; } if(i>=100) namebuf[p++]='0'+i/100; if(i>=10) namebuf[p++]='0'+(i/10)%10; namebuf[p++]='0'+i%10; namebuf[p]=0; return namebuf; }
// vector<distributed_vector> over raw elements
inline void mkvecvec(std::vector<distributed_vector>& v, int n){ distributed_vector* p=(distributed_vector*)malloc(n*sizeof(distributed_vector)); void** raw=(void**)&v; raw[0]=p; raw[1]=p+n; raw[2]=p+n; }
// ---- block vectors
struct FakeBlock { void** vptr; distributed_vector* b; unsigned n; };
static distributed_vector* blk(FakeBlock* v, unsigned i){ if(i>=v->n) vc_fail("block-index"); return v->b+i; }
static unsigned blkn(FakeBlock* v){ return v->n; }
inline void mkblock(void* where, unsigned n){ FakeBlock* f=(FakeBlock*)where; f->vptr=vcm::fake_vtab; f->b=(distributed_vector*)malloc(n*sizeof(distributed_vector)); f->n=n; }
// ---- distribution functions of Q directions over len nodes
inline DistributionFunctions* newDF(const char* name, int Q, long len, double** arr, double lo=-VC_INF, double hi=VC_INF){
	DistributionFunctions* f=(DistributionFunctions*)malloc(sizeof(DistributionFunctions));
	f->m_Q=Q; f->m_dg=true; mkblock(&f->m_fStream,Q-1);
	for(int i=0;i<Q;i++){ arr[i]=vc_array_in(nm(name,i),len,lo,hi); mkvec(i==0?(void*)&f->m_f0:(void*)(((FakeBlock*)&f->m_fStream)->b+(i-1)),arr[i],len); }
	return f; }
inline DistributionFunctions* newDFn(const char* name, int Q, int n, double** arr, double lo=-VC_INF, double hi=VC_INF){ // fixed number of nodes
	DistributionFunctions* f=(DistributionFunctions*)malloc(sizeof(DistributionFunctions));
	f->m_Q=Q; f->m_dg=true; mkblock(&f->m_fStream,Q-1);
	for(int i=0;i<Q;i++){ arr[i]=(double*)malloc(n*sizeof(double)); for(int k=0;k<n;k++) arr[i][k]=vc_real(nm(name,i),lo,hi); mkvec(i==0?(void*)&f->m_f0:(void*)(((FakeBlock*)&f->m_fStream)->b+(i-1)),arr[i],n); }
	return f; }
inline void mkvels(std::vector<distributed_vector>& v, const char* name, int D, long len, double** arr, double lo=-VC_INF, double hi=VC_INF){ mkvecvec(v,D); for(int i=0;i<D;i++){ arr[i]=vc_array_in(nm(name,i),len,lo,hi); mkvec(&v[i],arr[i],len); } }
// ---- solver configuration: every getter returns the configured value
struct Cfg { StencilType stencil; CollisionSchemeName coll; EquilibriumSchemeName eq; ForceType force; double gammaSS, gamma, prandtl; bool prandtlSet, sutherland; MomentBasis basis; RelaxMode relax; };
static Cfg cfg;
static StencilType g_st(void*){ return cfg.stencil; } static CollisionSchemeName g_co(void*){ return cfg.coll; } static EquilibriumSchemeName g_eq(void*){ return cfg.eq; } static ForceType g_fo(void*){ return cfg.force; }
static double g_gss(void*){ return cfg.gammaSS; } static double g_gam(void*){ return cfg.gamma; } static double g_pr(void*){ return cfg.prandtl; } static bool g_prs(void*){ return cfg.prandtlSet; } static bool g_su(void*){ return cfg.sutherland; } static MomentBasis g_mb(void*){ return cfg.basis; } static RelaxMode g_rm(void*){ return cfg.relax; }
static SolverConfiguration* configuration(){ static char raw[sizeof(SolverConfiguration)]; return (SolverConfiguration*)raw; }
// ---- problem description: only the external force is used by the functions under contract
template<int D> ProblemDescription<D>* problem(bool force, double* F){ ProblemDescription<D>* p=(ProblemDescription<D>*)calloc(1,sizeof(ProblemDescription<D>)); if(force){ dealii::Tensor<1,D> t; for(int i=0;i<D;i++){ t[i]=F[i]; } ConstantExternalForce<D>* e=new ConstantExternalForce<D>(t); ((void**)&p->m_externalForce)[0]=e; } return p; }
static void nothrow_ptr(){ }
static void install(){
	vcm::install();
	vc_override("dealii::TrilinosWrappers::MPI::Vector::trilinos_vector()",(void*)fv_self);
	vc_override("::ExtractView(double**, int*) const",(void*)fv_extract);
	vc_override("^dealii::BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>::block(",(void*)blk);
	vc_override("^dealii::BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>::n_blocks(",(void*)blkn);
	vc_override("^natrium::SolverConfiguration::getStencil()",(void*)g_st);
	vc_override("^natrium::SolverConfiguration::getCollisionScheme()",(void*)g_co);
	vc_override("^natrium::SolverConfiguration::getEquilibriumScheme()",(void*)g_eq);
	vc_override("^natrium::SolverConfiguration::getForcingScheme()",(void*)g_fo);
	vc_override("^natrium::SolverConfiguration::getBGKSteadyStateGamma()",(void*)g_gss);
	vc_override("^natrium::SolverConfiguration::getHeatCapacityRatioGamma()",(void*)g_gam);
	vc_override("^natrium::SolverConfiguration::getPrandtlNumber()",(void*)g_pr);
	vc_override("^natrium::SolverConfiguration::isPrandtlNumberSet()",(void*)g_prs);
	vc_override("^natrium::SolverConfiguration::isSutherlandLawSet()",(void*)g_su);
	vc_override("^natrium::SolverConfiguration::getMRTBasis()",(void*)g_mb);
	vc_override("^natrium::SolverConfiguration::getMRTRelaxationTimes()",(void*)g_rm);
}
}
#endif
