// Time integration of df/dt = A f + b: Runge-Kutta, theta method, Pade approximation of the exponential.
#include "common.h"
#include "natrium/timeintegration/TimeIntegrator.cpp"
#include "natrium/timeintegration/RungeKutta5LowStorage.cpp"
#include "natrium/timeintegration/ThetaMethod.cpp"
#include "natrium/utilities/SemiParallelMatrix.cpp"
#include "natrium/timeintegration/ExponentialTimeIntegrator.cpp"
#include "natrium/timeintegration/DealIIWrapper.cpp"
using namespace vcf;
// ---- contracts of the linear algebra: a vector of n reals (block vectors: n blocks of one entry), a dense n x n matrix
struct DMat { void** vptr; double* a; long n; long blk; };
static void v_copyctor(FakeVec* v, const FakeVec* o){ v->vptr=vcm::fake_vtab; v->len=o->len; v->data=(double*)malloc((o->len+1)*8); for(long i=0;i<o->len;i++) v->data[i]=o->data[i]; }
struct BVec: FakeVec { long nblk; }; // only block vectors have room for it
static void v_nctor(BVec* v, unsigned n){ v->vptr=vcm::fake_vtab; v->len=0; v->data=(double*)malloc(8); v->nblk=n; } // blocks without entries
static void v_0ctor(FakeVec* v){ v->vptr=vcm::fake_vtab; v->len=0; v->data=(double*)malloc(8); }
static void* v_block(void*, unsigned){ return calloc(1,sizeof(BVec)); } static void v_collect(BVec* v){ long n=v->nblk; v->data=(double*)malloc((n+1)*8); v->len=n; for(long i=0;i<n;i++) v->data[i]=vc_real(nm("uninitialized",i),-1e3,1e3); }
static void v_reinit(FakeVec* v, const FakeVec* o){ v->len=o->len; v->data=(double*)malloc((o->len+1)*8); for(long i=0;i<o->len;i++) v->data[i]=vc_real(nm("uninitialized",i),-1e3,1e3); }
static FakeVec* v_assign(FakeVec* v, const FakeVec* o){ if(v->len!=o->len) v_copyctor(v,o); else for(long i=0;i<o->len;i++) v->data[i]=o->data[i]; return v; }
static FakeVec* v_add(FakeVec* v, const FakeVec* o){ if(v->len!=o->len) vc_fail("vector-sizes-match"); for(long i=0;i<v->len;i++) v->data[i]+=o->data[i]; return v; }
static FakeVec* v_sub(FakeVec* v, const FakeVec* o){ if(v->len!=o->len) vc_fail("vector-sizes-match"); for(long i=0;i<v->len;i++) v->data[i]-=o->data[i]; return v; }
static FakeVec* v_mul(FakeVec* v, double s){ for(long i=0;i<v->len;i++) v->data[i]*=s; return v; }
static FakeVec* v_div(FakeVec* v, double s){ for(long i=0;i<v->len;i++) v->data[i]/=s; return v; }
static void v_sadd(FakeVec* v, double s, const FakeVec* o){ for(long i=0;i<v->len;i++) v->data[i]=s*v->data[i]+o->data[i]; }
static void v_sadd2(FakeVec* v, double s, double t, const FakeVec* o){ for(long i=0;i<v->len;i++) v->data[i]=s*v->data[i]+t*o->data[i]; }
static void v_addsv(FakeVec* v, double s, const FakeVec* o){ for(long i=0;i<v->len;i++) v->data[i]+=s*o->data[i]; }
static unsigned v_size(const FakeVec* v){ return (unsigned)v->len; } static unsigned long v_size8(const FakeVec* v){ return v->len; }
static double v_norm(const FakeVec*){ return vc_real("norm",0,1e6); }
static int g_vmults;
static void m_vmult(const DMat* m, FakeVec* d, const FakeVec* s){ if(d->len!=m->n||s->len!=m->n) vc_fail("vector-sizes-match"); for(long i=0;i<m->n;i++){ double x=0; for(long j=0;j<m->n;j++) x+=m->a[i*m->n+j]*s->data[j]; d->data[i]=x; } }
static void m_vmultadd(const DMat* m, FakeVec* d, const FakeVec* s){ if(d->len!=m->n||s->len!=m->n) vc_fail("vector-sizes-match"); for(long i=0;i<m->n;i++){ double x=0; for(long j=0;j<m->n;j++) x+=m->a[i*m->n+j]*s->data[j]; d->data[i]+=x; } }
static DMat* m_copy(DMat* m, const DMat* o){ m->n=o->n; m->vptr=o->vptr; m->blk=o->blk; m->a=(double*)malloc(o->n*o->n*8); for(long i=0;i<o->n*o->n;i++) m->a[i]=o->a[i]; return m; }
static DMat* m_scale(DMat* m, double s){ for(long i=0;i<m->n*m->n;i++) m->a[i]*=s; return m; }
static void m_add(DMat* m, unsigned i, unsigned j, double v){ if((long)i>=m->n||(long)j>=m->n) vc_fail("matrix-index"); m->a[i*m->n+j]+=v; }
static unsigned m_n(const DMat* m){ return (unsigned)m->n; } static unsigned long m_n8(const DMat* m){ return m->n; }
static bool m_empty(const DMat* m){ return m->n==0; }
static unsigned long m_mem(const DMat* m){ return m->n==0?0:g_vmults; }
struct BlkView { DMat* m; long i, j; }; static void* m_block(DMat* m, unsigned i, unsigned j){ BlkView* b=(BlkView*)malloc(sizeof(BlkView)); b->m=m; b->i=i; b->j=j; return b; }
static unsigned b_n(void*){ return 1; } static void b_add(BlkView* b, unsigned i, unsigned j, double v){ if(i||j) vc_fail("matrix-index"); b->m->a[b->i*b->m->n+b->j]+=v; }
static void m_reinit(DMat* m, unsigned r, unsigned c){ if(r!=c) vc_fail("matrix-index"); m->n=r; } static DMat* m_bcopy(DMat* m, const DMat* o){ if(m->n!=o->n) vc_fail("block-matrix-initialized-before-copy"); return m_copy(m,o); }
static double* g_sysM; static double* g_sysB; static FakeVec* g_sol; static long g_solved;
static void solve(void*, const DMat* A, FakeVec* x, const FakeVec* b, const void*){ long n=A->n; if(x->len!=n||b->len!=n) vc_fail("vector-sizes-match"); g_sysM=(double*)malloc(n*n*8); g_sysB=(double*)malloc(n*8); for(long i=0;i<n*n;i++) g_sysM[i]=A->a[i]; for(long i=0;i<n;i++){ g_sysB[i]=b->data[i]; x->data[i]=vc_real(nm("solution",i),-1e3,1e3); } g_sol=x; g_solved++; }
static void install_la(bool block){ install();
	vc_override("^natrium::Timing::",(void*)vcm::vm_null); vc_override("^dealii::TimerOutput::",(void*)vcm::vm_nop); vc_override("dealii::TimerOutput::Scope::",(void*)vcm::vm_nop);
	vc_override("^dealii::BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>::block(unsigned int)",(void*)v_block);
	const char* V[]={"dealii::TrilinosWrappers::MPI::Vector","dealii::TrilinosWrappers::MPI::BlockVector","dealii::BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>"}; static char b[3][24][200];
	for(int k=0;k<3;k++){ int c=0; auto N=[&](const char* suffix,const char* cls=nullptr)->const char*{ char* p=b[k][c++]; int l=0; *p='^'; l=1; for(const char* s=V[k];*s;s++) p[l++]=*s; for(const char* s=suffix;*s;s++) p[l++]=*s; p[l]=0; return p; };
		vc_override(N("::operator+=("),(void*)v_add); vc_override(N("::operator-=("),(void*)v_sub); vc_override(N("::operator*=("),(void*)v_mul); vc_override(N("::operator/=("),(void*)v_div); vc_override(N("::operator=("),(void*)v_assign); vc_override(N("::size() const"),(void*)v_size); vc_override(N("::l2_norm() const"),(void*)v_norm); vc_override(N("::reinit("),(void*)v_reinit); vc_override(N("::collect_sizes("),(void*)v_collect);
		vc_override(N("::sadd(double, dealii"),(void*)v_sadd); vc_override(N("::sadd(double, double"),(void*)v_sadd2); vc_override(N("::add(double, dealii"),(void*)v_addsv); }
	vc_override("^dealii::TrilinosWrappers::MPI::Vector::Vector(dealii::TrilinosWrappers::MPI::Vector const&)",(void*)v_copyctor); vc_override("^dealii::TrilinosWrappers::MPI::Vector::Vector()",(void*)v_0ctor); vc_override("^dealii::TrilinosWrappers::MPI::Vector::~Vector()",(void*)vcm::vm_nop);
	vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::BlockVector(unsigned int)",(void*)v_nctor); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::BlockVector(unsigned long)",(void*)v_nctor); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::BlockVector()",(void*)v_0ctor); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::~BlockVector()",(void*)vcm::vm_nop); vc_override("^dealii::BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>::n_blocks() const",(void*)v_size);
	vc_override("SparseMatrix>::vmult_add<",(void*)m_vmultadd); vc_override("SparseMatrix>::vmult<",(void*)m_vmult); vc_override("SparseMatrix::vmult<",(void*)m_vmult); vc_override("SparseMatrix::vmult_add<",(void*)m_vmultadd); vc_override("SparseMatrix::vmult(",(void*)m_vmult); vc_override("SparseMatrix::vmult_add(",(void*)m_vmultadd);
	vc_override("SparseMatrix::SparseMatrix()",(void*)vcm::vm_nop); vc_override("SparseMatrix::~SparseMatrix()",(void*)vcm::vm_nop); vc_override("SparseMatrix::~BlockSparseMatrix()",(void*)vcm::vm_nop); vc_override("SparseMatrix::BlockSparseMatrix()",(void*)vcm::vm_nop);
	vc_override("SparseMatrix::copy_from(",(void*)m_copy); vc_override("::copy_from<",(void*)m_bcopy); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::copy_from",(void*)m_bcopy); vc_override("SparseMatrix::operator*=(",(void*)m_scale); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::operator*=(",(void*)m_scale); vc_override("SparseMatrix::memory_consumption() const",(void*)m_mem); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::memory_consumption() const",(void*)m_mem);
	if(block){ vc_override("^dealii::TrilinosWrappers::SparseMatrix::n() const",(void*)b_n); vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)b_add); vc_override("^dealii::TrilinosWrappers::SparseMatrix::reinit(",(void*)vcm::vm_nop); } else { vc_override("^dealii::TrilinosWrappers::SparseMatrix::n() const",(void*)m_n); vc_override("^dealii::TrilinosWrappers::SparseMatrix::m() const",(void*)m_n); vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)m_add); }
	vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::n() const",(void*)m_n); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::m() const",(void*)m_n); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::n_block_rows() const",(void*)m_n); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::n_block_cols() const",(void*)m_n); vc_override("BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::block(",(void*)m_block); vc_override("BlockSparseMatrix::reinit(unsigned",(void*)m_reinit);
	vc_override("dealii::SolverControl::",(void*)vcm::vm_nop); vc_override("dealii::PreconditionIdentity::",(void*)vcm::vm_nop); vc_override("PreconditionIdentity::~",(void*)vcm::vm_nop); vc_override("dealii::TrilinosWrappers::PreconditionIdentity::",(void*)vcm::vm_nop); vc_override(">::solve<",(void*)solve); vc_override("::SolverBicgstab(",(void*)vcm::vm_nop); vc_override("::~SolverBicgstab(",(void*)vcm::vm_nop);
	vc_override("^void natrium::reinitVector<",(void*)v_reinit); }
static DMat* newMat(long n){ DMat* m=(DMat*)calloc(1,8192); m->vptr=vcm::fake_vtab; m->n=n; m->a=(double*)malloc(n*n*8); return m; }
static FakeVec* newV(const char* name, long n){ FakeVec* v=(FakeVec*)calloc(1,sizeof(distributed_block_vector)+sizeof(distributed_vector)+sizeof(block_vector)); v->vptr=vcm::fake_vtab; v->len=n; v->data=(double*)malloc(n*8); for(long i=0;i<n;i++) v->data[i]=vc_real(nm(name,i),-100,100); return v; }
// ---- the serial linear algebra (Vector<double>, SparseMatrix<double>): a matrix takes entries only after it got the sparsity pattern of the operator
static void sm_reinit(DMat* m, const DMat* pattern){ m->vptr=pattern->vptr; m->n=pattern->n; m->a=(double*)malloc(m->n*m->n*8); for(long i=0;i<m->n*m->n;i++) m->a[i]=0; } static const DMat* sm_pattern(const DMat* m){ return m; } static unsigned long sm_nnz(const DMat* m){ return m->n*m->n; }
static void sv_reinit(FakeVec* v, unsigned n, bool keep){ if(keep) vc_unsupported("uninitialized vector"); v->data=(double*)malloc((n+1)*8); v->len=n; for(unsigned i=0;i<n;i++) v->data[i]=0; }
static void install_serial(){ install_la(false); static const char* V[]={"^dealii::Vector<double>::operator+=(","^dealii::Vector<double>::operator-=("};
	vc_override(V[0],(void*)v_add); vc_override(V[1],(void*)v_sub); vc_override("^dealii::Vector<double>::operator*=(double)",(void*)v_mul); vc_override("^dealii::Vector<double>::operator/=(double)",(void*)v_div); vc_override("^dealii::Vector<double>::operator=(dealii::Vector<double> const&)",(void*)v_assign); vc_override("^dealii::Vector<double>::size() const",(void*)v_size); vc_override("^dealii::Vector<double>::l2_norm() const",(void*)v_norm); vc_override("^dealii::Vector<double>::reinit(unsigned int, bool)",(void*)sv_reinit); vc_override("^dealii::Vector<double>::add(double, dealii::Vector<double> const&)",(void*)v_addsv); vc_override("^dealii::Vector<double>::sadd(double, dealii",(void*)v_sadd); vc_override("^dealii::Vector<double>::sadd(double, double",(void*)v_sadd2);
	vc_override("^dealii::Vector<double>::Vector()",(void*)v_0ctor); vc_override("^dealii::Vector<double>::Vector(dealii::Vector<double> const&)",(void*)v_copyctor); vc_override("^dealii::Vector<double>::~Vector()",(void*)vcm::vm_nop);
	vc_override("^dealii::SparseMatrix<double>::SparseMatrix()",(void*)vcm::vm_nop); vc_override("^dealii::SparseMatrix<double>::~SparseMatrix()",(void*)vcm::vm_nop); vc_override("^dealii::SparseMatrix<double>::empty() const",(void*)m_empty); vc_override("^dealii::SparseMatrix<double>::n_nonzero_elements() const",(void*)sm_nnz); vc_override("^dealii::SparseMatrix<double>::reinit(dealii::SparsityPattern const&)",(void*)sm_reinit); vc_override("^dealii::SparseMatrix<double>::get_sparsity_pattern() const",(void*)sm_pattern); vc_override("dealii::SparseMatrix<double>::copy_from<",(void*)m_bcopy); vc_override("dealii::SparseMatrix<double>::operator*=(",(void*)m_scale); vc_override("dealii::SparseMatrix<double>::vmult_add<",(void*)m_vmultadd); vc_override("dealii::SparseMatrix<double>::vmult<",(void*)m_vmult); vc_override("^dealii::SparseMatrix<double>::n() const",(void*)m_n); vc_override("^dealii::SparseMatrix<double>::m() const",(void*)m_n); vc_override("^dealii::SparseMatrix<double>::add(unsigned int, unsigned int, double)",(void*)m_add); }
static void sb_ctor(BVec* v, unsigned n, unsigned size){ if(size!=1) vc_unsupported("blocks of another size"); sv_reinit(v,n,false); v->vptr=vcm::fake_vtab; v->nblk=n; } static FakeVec* sb_block(FakeVec*, unsigned){ FakeVec* v=(FakeVec*)calloc(1,512); v->vptr=vcm::fake_vtab; v->len=1; v->data=(double*)malloc(16); return v; } static void sb_reinit(FakeVec*, unsigned, bool){ vc_fail("block-vector-initialized"); } static void sb_mreinit(DMat* m, const DMat* p){ sm_reinit(m,p); }
static void install_serial_block(){ install_serial(); const char* W[]={"dealii::BlockVector<double>","dealii::BlockVectorBase<dealii::Vector<double>>"}; static char b[2][24][200];
	for(int k=0;k<2;k++){ int c=0; auto N=[&](const char* suffix)->const char*{ char* p=b[k][c++]; int l=0; *p='^'; l=1; for(const char* s=W[k];*s;s++) p[l++]=*s; for(const char* s=suffix;*s;s++) p[l++]=*s; p[l]=0; return p; };
		vc_override(N("::operator+=("),(void*)v_add); vc_override(N("::operator-=("),(void*)v_sub); vc_override(N("::operator*=("),(void*)v_mul); vc_override(N("::operator/=("),(void*)v_div); vc_override(N("::operator=(dealii"),(void*)v_assign); vc_override(N("::size() const"),(void*)v_size); vc_override(N("::l2_norm() const"),(void*)v_norm); vc_override(N("::sadd(double, dealii"),(void*)v_sadd); vc_override(N("::sadd(double, double"),(void*)v_sadd2); vc_override(N("::add(double, dealii"),(void*)v_addsv); vc_override(N("::n_blocks() const"),(void*)v_size); vc_override(N("::block(unsigned int)"),(void*)sb_block); vc_override(N("::reinit("),(void*)sb_reinit); vc_override(N("::collect_sizes("),(void*)vcm::vm_nop); }
	vc_override("^dealii::BlockVector<double>::BlockVector(unsigned int, unsigned int)",(void*)sb_ctor); vc_override("^dealii::BlockVector<double>::BlockVector()",(void*)v_0ctor); vc_override("^dealii::BlockVector<double>::BlockVector(dealii::BlockVector<double> const&)",(void*)v_copyctor); vc_override("^dealii::BlockVector<double>::~BlockVector()",(void*)vcm::vm_nop);
	vc_override("^dealii::BlockSparseMatrix<double>::BlockSparseMatrix()",(void*)vcm::vm_nop); vc_override("^dealii::BlockSparseMatrix<double>::~BlockSparseMatrix()",(void*)vcm::vm_nop); vc_override("^dealii::BlockSparseMatrix<double>::empty() const",(void*)m_empty); vc_override("^dealii::BlockSparseMatrix<double>::n_nonzero_elements() const",(void*)sm_nnz); vc_override("^dealii::BlockSparseMatrix<double>::reinit(",(void*)sb_mreinit); vc_override("^dealii::BlockSparseMatrix<double>::get_sparsity_pattern() const",(void*)sm_pattern); vc_override("dealii::BlockSparseMatrix<double>::copy_from<",(void*)m_bcopy); vc_override("dealii::BlockSparseMatrix<double>::vmult_add<",(void*)m_vmultadd); vc_override("dealii::BlockSparseMatrix<double>::vmult<",(void*)m_vmult); vc_override("dealii::BlockSparseMatrix<double>::vmult_add(",(void*)m_vmultadd); vc_override("dealii::BlockSparseMatrix<double>::vmult(",(void*)m_vmult);
	#define BMB "BlockMatrixBase<dealii::SparseMatrix<double>>::"
	vc_override(BMB "vmult_add<",(void*)m_vmultadd); vc_override(BMB "vmult_add(",(void*)m_vmultadd); vc_override(BMB "copy_from",(void*)m_bcopy); vc_override(BMB "operator*=(",(void*)m_scale); vc_override(BMB "n() const",(void*)m_n); vc_override(BMB "m() const",(void*)m_n); vc_override(BMB "n_block_rows() const",(void*)m_n); vc_override(BMB "n_block_cols() const",(void*)m_n); vc_override(BMB "block(",(void*)m_block); vc_override("^dealii::SparseMatrix<double>::n() const",(void*)b_n); vc_override("^dealii::SparseMatrix<double>::add(unsigned int, unsigned int, double)",(void*)b_add); vc_override("dealii::SparseMatrix<double>::l1_norm() const",(void*)v_norm); }
static int is_serial(const block_vector*){ return 2; } static int is_serial(const numeric_vector*){ return 1; } static int is_serial(const void*){ return 0; }
// Runge-Kutta: one step is the Taylor polynomial of exp(hA) f + phi(hA) h b through order four; every vector operation commutes with A, so a scalar A = lambda decides the matrix identity
template<class M, class V> void rk(){
	if(is_serial((V*)nullptr)==2) install_serial_block(); else if(is_serial((V*)nullptr)) install_serial(); else install_la(false); double h0=vc_real("initialstep",0.001,2), dt=vc_real("dt",0.001,2), t=vc_real("t",0,100); int mode=vc_choose("mode",3); FakeVec* f=newV("f",1); FakeVec* b=newV("b",1); DMat* A=newMat(1); double l=vc_real("lambda",-5,5); A->a[0]=l;
	RungeKutta5LowStorage<M,V>* r=new RungeKutta5LowStorage<M,V>(h0,*(V*)f); double h=mode==0?h0:mode==1?dt:h0; double f0=f->data[0], b0=b->data[0];
	if(mode==2) r->step(*(V*)newV("earlier",1),*(M*)A,*(V*)b,0,0); // an earlier step leaves no trace
	double t1=r->step(*(V*)f,*(M*)A,*(V*)b,t,mode==1?dt:0); double z=h*l; vc_reach("step");
	// remainder: a multiple c of z^5, the same for every state; c from a run of the same code with h = lambda = f = 1
	RungeKutta5LowStorage<M,V>* r1=new RungeKutta5LowStorage<M,V>(1,*(V*)f); FakeVec* one=newV("unit",1); one->data[0]=1; FakeVec* nul=newV("zero",1); nul->data[0]=0; DMat* I=newMat(1); I->a[0]=1; r1->step(*(V*)one,*(M*)I,*(V*)nul,0,0); double c=one->data[0]-(1+1+1./2+1./6+1./24);
	vc_check("fifth-order-coefficient-positive",c>0.004&&c<0.006);
	double x=(1+z+z*z/2+z*z*z/6+z*z*z*z/24+c*z*z*z*z*z)*f0+h*b0*(1+z/2+z*z/6+z*z*z/24+c*z*z*z*z);
	vc_check_eq("fourth-order-accurate",f->data[0],x); vc_check_eq("returns-new-time",t1,t+h); vc_check_eq("remembers-step-size",r->getTimeStepSize(),h); vc_check_eq("source-untouched",b->data[0],b0); vc_check_eq("operator-untouched",A->a[0],l);
}
VC_HARNESS(rk_vector){ rk<distributed_sparse_matrix,distributed_vector>(); } VC_HARNESS(rk_block){ rk<distributed_sparse_block_matrix,distributed_block_vector>(); }
template<class M, class V> void theta(bool block){
	if(is_serial((V*)nullptr)==2) install_serial_block(); else if(is_serial((V*)nullptr)) install_serial(); else install_la(block); const long n=2; double h0=vc_real("initialstep",0.001,2), dt=vc_real("dt",0.001,2), t=vc_real("t",0,100), th=vc_real("theta",0,1); int mode=vc_choose("mode",3); FakeVec* f=newV("f",n); FakeVec* b=newV("b",n); DMat* A=newMat(n); double a0[4],f0[2],b0[2]; for(int i=0;i<4;i++) A->a[i]=a0[i]=vc_real(nm("A",i),-5,5); for(int i=0;i<n;i++){ f0[i]=f->data[i]; b0[i]=b->data[i]; }
	ThetaMethod<M,V>* r=(ThetaMethod<M,V>*)calloc(1,sizeof(ThetaMethod<M,V>)); new(r) ThetaMethod<M,V>(h0,*(V*)f,th); double h=mode==1?dt:h0; g_vmults=1+vc_choose("samepattern",2);
	if(mode==2) r->step(*(V*)newV("earlier",n),*(M*)A,*(V*)b,0,0);
	double t1=r->step(*(V*)f,*(M*)A,*(V*)b,t,mode==1?dt:0); vc_reach("step"); vc_check("solves-one-system",g_solved==(mode==2?2:1)&&g_sol==f);
	for(int i=0;i<n;i++){ double rhs=f0[i]+h*b0[i]; for(int j=0;j<n;j++){ vc_check_eq("implicit-operator",g_sysM[i*n+j],(i==j?1:0)-th*h*a0[i*n+j]); rhs+=(1-th)*h*a0[i*n+j]*f0[j]; } vc_check_eq("explicit-part",g_sysB[i],rhs); vc_check_eq("source-untouched",b->data[i],b0[i]); }
	for(int i=0;i<4;i++) vc_check_eq("operator-untouched",A->a[i],a0[i]); vc_check_eq("returns-new-time",t1,t+h); vc_check_eq("remembers-step-size",r->getTimeStepSize(),h); }
VC_HARNESS(rk_serial){ rk<sparse_matrix,numeric_vector>(); } VC_HARNESS(theta_serial){ theta<sparse_matrix,numeric_vector>(false); }
VC_HARNESS(rk_serial_block){ rk<sparse_block_matrix,block_vector>(); } VC_HARNESS(theta_serial_block){ theta<sparse_block_matrix,block_vector>(true); }
VC_HARNESS(theta_vector){ theta<distributed_sparse_matrix,distributed_vector>(false); } VC_HARNESS(theta_block){ theta<distributed_sparse_block_matrix,distributed_block_vector>(true); }

// ---- exponential integrator (serial instantiation of the same template)
typedef ExponentialTimeIntegrator<sparse_matrix,numeric_vector> Expo; typedef vcm::FM FM; typedef vcm::FV FV;
static double g_norm; static double linf(void*){ return g_norm; }
static void fm_addf(FM* a, const FM* b, double f){ for(unsigned long i=0;i<a->m*a->n;i++) a->d[i]+=f*b->d[i]; }
static void fm_cp(FM* a, const FM* b){ vcm::fm_copy(a,b); } static FM* fm_divs(FM* v, double s){ for(unsigned long i=0;i<v->m*v->n;i++) v->d[i]/=s; return v; }
static bool structural0(double x){ return vc_is_const(x)&&x==0; }
static double norm1(const FV* v){ long k=-1; for(unsigned i=0;i<v->n;i++) if(!structural0(v->d[i])){ if(k>=0) return vcm::fv_norm2(v); k=i; } if(k<0) return 0; double x=v->d[k]; return x<0?-x:x; } // of a vector with one entry
static void s_vmult(const DMat* m, FV* d, const FV* s){ for(long i=0;i<m->n;i++){ double x=0; for(long j=0;j<m->n;j++) if(!structural0(s->d[j])) x+=m->a[i*m->n+j]*s->d[j]; d->d[i]=x; } }
static void v_reinit_s(FV* v, const FV* o){ if(v->n!=o->n) vcm::fv_alloc(v,o->n); for(unsigned i=0;i<o->n;i++) v->d[i]=vc_real(nm("uninitialized",i),-1e3,1e3); }
static void* idx(void*){ return nullptr; } static void nop_sret(void* r){ }
static void install_exp(){ install(); vc_override("^natrium::Timing::",(void*)vcm::vm_null); vc_override("dealii::TimerOutput::Scope::",(void*)vcm::vm_nop);
	vc_override("dealii::FullMatrix<double>::linfty_norm() const",(void*)linf); vc_override("dealii::FullMatrix<double>::add<double>(dealii::FullMatrix<double> const&, double",(void*)fm_addf); vc_override("dealii::FullMatrix<double>::copy_from<",(void*)fm_cp); vc_override("dealii::FullMatrix<double>::operator/=(double)",(void*)fm_divs);
	vc_override("^dealii::Vector<double>::l2_norm() const",(void*)norm1); vc_override("dealii::SparseMatrix<double>::vmult<",(void*)s_vmult); vc_override("^void natrium::reinitVector<",(void*)v_reinit_s);
	vc_override("Expo"":",(void*)vcm::vm_nop); vc_override("::getIndexSet(",(void*)nop_sret); vc_override("^dealii::IndexSet::",(void*)vcm::vm_nop); vc_override("^dealii::IndexSet::ElementIterator::",(void*)vcm::vm_nop); }
template<int NORM100> void pade(int sq){ install_exp(); Expo* e=new Expo(vc_real("dt",0.001,2)); g_norm=NORM100/100.; int k=vc_choose("position",2)*5; double x=vc_real("x",-g_norm,g_norm);
	dealii::FullMatrix<double> B(6,6); B(k,k)=x; dealii::FullMatrix<double> R=e->padeApproximation(B); vc_reach("pade"); double y=x; for(int i=0;i<sq;i++) y/=2; double y2=y*y, y3=y2*y; // Pade (6,6) of the exponential
	double even=1+y2*5/44+y2*y2/792+y3*y3/665280, odd=y/2+y3/66+y3*y2/15840, N=even+odd, D=even-odd; double Np=N,Dp=D; for(int i=0;i<sq;i++){ Np*=Np; Dp*=Dp; }
	vc_check("scaled-into-convergence",NORM100/100.<=0.5*(1<<sq)); for(int i=0;i<6;i++) for(int j=0;j<6;j++){ if(i==k&&j==k) vc_check_eq("matrix-exponential",R(i,j)*Dp,Np); else vc_check_eq("matrix-exponential",R(i,j),i==j?1:0); } }
VC_HARNESS(pade_small){ pade<40>(0); } VC_HARNESS(pade_one){ pade<90>(2); } VC_HARNESS(pade_three){ install_exp(); Expo* e=new Expo(vc_real("dt",0.001,2)); double x=vc_real("x",-3,3); dealii::FullMatrix<double> B(6,6), C(6,6); B(2,2)=x; C(2,2)=x/8; g_norm=3; dealii::FullMatrix<double> R=e->padeApproximation(B); g_norm=0.375; dealii::FullMatrix<double> S=e->padeApproximation(C); vc_reach("pade"); double r=S(2,2); r*=r; r*=r; r*=r; vc_check_eq("squared-back",R(2,2),r); }
static double g_E[36]; static void pade_contract(FM* r, void*, FM* base){ vcm::fm_alloc(r,6,6); for(int i=0;i<36;i++) r->d[i]=g_E[i]; }
VC_HARNESS(phi){ install_exp(); vc_override("::padeApproximation(",(void*)pade_contract); double h=vc_real("dt",0.001,2); Expo* e=new Expo(h); dealii::FullMatrix<double> H(6,6), P1(6,6), P2(6,6); for(int i=0;i<6;i++) for(int j=0;j<6;j++){ if(i==j||(i==0&&j==1)) H(i,j)=vc_real(nm("H",i*6+j),0.5,5); g_E[i*6+j]=vc_real(nm("E",i*6+j),-5,5); }
	double h0[36]; for(int i=0;i<36;i++) h0[i]=H(i/6,i%6); e->phiFunction(H,P1,P2); vc_reach("phi"); for(int i=0;i<6;i++) for(int j=0;j<6;j++){ double x1=0,x2=0; for(int k=0;k<6;k++){ x1+=P1(i,k)*h*h0[k*6+j]; x2+=P2(i,k)*h*h0[k*6+j]; } vc_check_eq("phi-one",x1,g_E[i*6+j]-(i==j?1:0)); vc_check_eq("phi-two",x2,P1(i,j)-(i==j?1:0)); vc_check_eq("hessenberg-untouched",H(i,j),h0[i*6+j]); } }
// one step: without breakdown every (A, f, b) is, by an orthogonal change of basis (the code only uses products, sums and norms), an upper Hessenberg A with A f + b = beta e_0
static double g_P1[36], g_P2[36]; static const DMat* g_A; static void phi_contract(void*, const FM* H, FM* p1, FM* p2){ for(int i=0;i<6;i++) for(int j=0;j<6;j++) vc_check_eq("krylov-projection",H->d[i*6+j],g_A->a[i*g_A->n+j]); for(int i=0;i<36;i++){ p1->d[i]=g_P1[i]; p2->d[i]=g_P2[i]; } }
VC_HARNESS(expstep){ install_exp(); vc_override("::phiFunction(",(void*)phi_contract); const int n=8; double h0=vc_real("initialstep",0.001,2), dt=vc_real("dt",0.001,2), t=vc_real("t",0,100); int mode=vc_choose("mode",2); double h=mode?dt:h0; Expo* e=new Expo(h0); DMat* A=newMat(n); g_A=A; for(int i=0;i<n;i++) for(int j=0;j<n;j++) A->a[i*n+j]=i==j+1?vc_real(nm("sub",i),0.1,5):i<=j?vc_real(nm("A",i*n+j),-5,5):0;
	for(int i=0;i<36;i++){ g_P1[i]=vc_real(nm("P",i),-5,5); g_P2[i]=vc_real(nm("R",i),-5,5); } double beta=vc_real("beta",0.1,5); numeric_vector f(n), b(n); int moving=vc_choose("moving",2); if(moving) f(0)=vc_real("f0",-5,5); double f0=f(0); b(0)=beta-A->a[0]*f0; b(1)=-A->a[n]*f0;
	double t1=e->step(f,*(sparse_matrix*)A,b,t,mode?dt:0); vc_reach("step"); for(int i=0;i<n;i++){ double c=i<6?g_P1[i*6]:i==6?h*A->a[6*n+5]*g_P2[30]:0; vc_check_eq("exponential-step",f(i),(i==0?f0:0)+h*beta*c); } vc_check_eq("returns-new-time",t1,t+h); }
static void phi_any(void*, const FM*, FM* p1, FM* p2){ for(int i=0;i<36;i++){ p1->d[i]=vc_real(nm("P",i),-5,5); p2->d[i]=vc_real(nm("R",i),-5,5); } }
VC_HARNESS(stationary){ install_exp(); vc_override("::phiFunction(",(void*)phi_any); double h=vc_real("dt",0.001,2); const int n=8; Expo* e=new Expo(h); DMat* A=newMat(n); for(int i=0;i<n*n;i++) A->a[i]=vc_real(nm("A",i),-5,5); numeric_vector f(n), b(n); int c=vc_choose("constant",2); if(c){ f(0)=vc_real("f0",-5,5); for(int i=0;i<n;i++) A->a[i*n]=0; } double f0=f(0); e->step(f,*(sparse_matrix*)A,b,0,0); vc_reach("stationary"); for(int i=0;i<n;i++) vc_check_eq("stationary-state-kept",f(i),i==0?f0:0); }
// breakdown: the Krylov space is invariant after k+1 vectors; the projected matrix keeps A on it and the step stays inside it
static int g_bk; static void phi_break(void*, const FM* H, FM* p1, FM* p2){ for(int i=0;i<6;i++) for(int j=0;j<6;j++){ if(i<=g_bk&&j<=g_bk) vc_check_eq("krylov-projection",H->d[i*6+j],g_A->a[i*g_A->n+j]); else if(i<=g_bk||j<=g_bk) vc_check_eq("invariant-space-decoupled",H->d[i*6+j],0); else vc_check("projected-matrix-invertible",i==j?H->d[i*6+j]!=0:i<j||H->d[i*6+j]==0); } for(int i=0;i<36;i++){ bool in=i/6<=g_bk&&i%6<=g_bk, out=i/6>g_bk&&i%6>g_bk; p1->d[i]=in||out?g_P1[i]:0; p2->d[i]=in||out?g_P2[i]:0; } }
VC_HARNESS(expbreak){ install_exp(); vc_override("::phiFunction(",(void*)phi_break); const int n=8; double h=vc_real("dt",0.001,2); g_bk=vc_choose("dimension",6); Expo* e=new Expo(h); DMat* A=newMat(n); g_A=A; for(int i=0;i<n;i++) for(int j=0;j<n;j++) A->a[i*n+j]=i==j+1?(j==g_bk?0:vc_real(nm("sub",i),0.1,5)):i<=j?vc_real(nm("A",i*n+j),-5,5):0;
	for(int i=0;i<36;i++){ g_P1[i]=vc_real(nm("P",i),-5,5); g_P2[i]=vc_real(nm("R",i),-5,5); } double beta=vc_real("beta",0.1,5); numeric_vector f(n), b(n); b(0)=beta; double t1=e->step(f,*(sparse_matrix*)A,b,0,0); vc_reach("step"); for(int i=0;i<n;i++) vc_check_eq("exponential-step",f(i),i<=g_bk&&i<6?h*beta*g_P1[i*6]:0); vc_check_eq("returns-new-time",t1,h); }
// the deal.II integrators take the same step contract
VC_HARNESS(dealii_step){ install_la(false); double dt=vc_real("dt",0.001,2), t=vc_real("t",0,100); FakeVec* f=newV("f",1); FakeVec* b=newV("b",1); DMat* A=newMat(1); A->a[0]=vc_real("lambda",-5,5); typedef DealIIWrapper<distributed_sparse_matrix,distributed_vector> W; W* w=(W*)calloc(1,sizeof(W)); double t1=w->W::step(*(distributed_vector*)f,*(distributed_sparse_matrix*)A,*(distributed_vector*)b,t,dt); vc_reach("step"); vc_check_eq("returns-new-time",t1,t+dt); }
