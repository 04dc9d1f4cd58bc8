// Contracts (executable models) of the dependencies of NATriuM: deal.II vectors/matrices,
// Trilinos views, logging, MPI.  These are ASSUMED, not proved (listed in the evidence).
#ifndef VC_MODELS_H_
#define VC_MODELS_H_
#include "vc.h"
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
#include <new>
template class std::basic_string<char>;
namespace vcm {
// ---- small dense vectors: dealii::Vector<double>
struct FV { void** vptr; double* d; unsigned n; };
static void* vdtor(void* v){ return v; }
static void* fake_vtab[16] = {(void*)vdtor,(void*)vdtor,(void*)vdtor,(void*)vdtor,(void*)vdtor,(void*)vdtor,(void*)vdtor,(void*)vdtor};
static void fv_alloc(FV* v, unsigned n){ v->vptr=fake_vtab; v->d = (double*)malloc((n?n:1)*sizeof(double)); v->n=n; for(unsigned i=0;i<n;i++) v->d[i]=0; }
static void fv_ctor0(FV* v){ fv_alloc(v,0); }
static void fv_ctorn(FV* v, unsigned n){ fv_alloc(v,n); }
static void fv_copy(FV* v, const FV* o){ fv_alloc(v,o->n); for(unsigned i=0;i<o->n;i++) v->d[i]=o->d[i]; }
static void fv_dtor(FV* v){ }
static void fv_reinit(FV* v, unsigned n, bool){ fv_alloc(v,n); }
static double* fv_at(FV* v, unsigned i){ if(i>=v->n) vc_fail("dealii-vector-index"); return v->d+i; }
static double fv_atc(const FV* v, unsigned i){ return v->d[i]; }
static unsigned fv_size(const FV* v){ return v->n; }
static FV* fv_assign(FV* v, const FV* o){ if(v!=o) fv_copy(v,o); return v; }
static FV* fv_assignd(FV* v, double s){ for(unsigned i=0;i<v->n;i++) v->d[i]=s; return v; }
static FV* fv_scale(FV* v, double s){ for(unsigned i=0;i<v->n;i++) v->d[i]*=s; return v; }
static FV* fv_div(FV* v, double s){ for(unsigned i=0;i<v->n;i++) v->d[i]/=s; return v; }
static FV* fv_add(FV* v, const FV* o){ for(unsigned i=0;i<v->n;i++) v->d[i]+=o->d[i]; return v; }
static FV* fv_sub(FV* v, const FV* o){ for(unsigned i=0;i<v->n;i++) v->d[i]-=o->d[i]; return v; }
static double fv_dot(const FV* v, const FV* o){ double s=0; for(unsigned i=0;i<v->n;i++) s+=v->d[i]*o->d[i]; return s; }
static double fv_norm2(const FV* v){ return std::sqrt(fv_dot(v,v)); }
static void fv_addsv(FV* v, double a, const FV* o){ for(unsigned i=0;i<v->n;i++) v->d[i]+=a*o->d[i]; }
static double* fv_begin(FV* v){ return v->d; }
static double* fv_end(FV* v){ return v->d+v->n; }
// ---- dense matrices: dealii::FullMatrix<double>
struct FM { void** vptr; double* d; unsigned long m, n; };
static void fm_alloc(FM* a, unsigned long m, unsigned long n){ a->vptr=fake_vtab; a->d=(double*)malloc((m*n?m*n:1)*sizeof(double)); a->m=m; a->n=n; for(unsigned long i=0;i<m*n;i++) a->d[i]=0; }
static void fm_ctor1(FM* a, unsigned long n){ fm_alloc(a,n,n); }
static void fm_ctor2(FM* a, unsigned long m, unsigned long n){ fm_alloc(a,m,n); }
static void fm_copy(FM* a, const FM* o){ fm_alloc(a,o->m,o->n); for(unsigned long i=0;i<a->m*a->n;i++) a->d[i]=o->d[i]; }
static FM* fm_assign(FM* a, const FM* o){ if(a!=o) fm_copy(a,o); return a; }
static FM* fm_assignd(FM* a, double s){ for(unsigned long i=0;i<a->m*a->n;i++) a->d[i]=s; return a; }
static void fm_dtor(FM*){ }
static double* fm_at(FM* a, unsigned long i, unsigned long j){ if(i>=a->m||j>=a->n) vc_fail("dealii-matrix-index"); return a->d+i*a->n+j; }
static unsigned long fm_m(const FM* a){ return a->m; }
static unsigned long fm_n(const FM* a){ return a->n; }
static void fm_reinit(FM* a, unsigned long m, unsigned long n, bool){ fm_alloc(a,m,n); }
static FM* fm_scale(FM* v, double s){ for(unsigned long i=0;i<v->m*v->n;i++) v->d[i]*=s; return v; }
static void fm_invert_in_place(FM* a){ // Gauss-Jordan with pivoting on constants
	unsigned long n=a->m; { bool diag=true; for(unsigned long i=0;i<n&&diag;i++) for(unsigned long j=0;j<n;j++){ double x=a->d[i*n+j]; if(i!=j){ if(!vc_is_const(x)||x!=0.0){ diag=false; break; } } else if(!vc_is_const(x)||x==0.0){ diag=false; break; } } if(diag){ for(unsigned long i=0;i<n;i++) a->d[i*n+i]=1.0/a->d[i*n+i]; return; } }
	double* b=(double*)malloc(n*n*sizeof(double)); double* w=(double*)malloc(n*n*sizeof(double));
	for(unsigned long i=0;i<n;i++) for(unsigned long j=0;j<n;j++){ w[i*n+j]=a->d[i*n+j]; b[i*n+j]=i==j?1.0:0.0; }
	unsigned long* cp=(unsigned long*)malloc(n*sizeof(unsigned long)); for(unsigned long i=0;i<n;i++) cp[i]=i;
	for(unsigned long c=0;c<n;c++){ unsigned long p=n,q=c; int best=0; // complete pivoting; a pivot that provably cannot vanish is preferred
		for(unsigned long k=c;k<n&&best<3;k++) for(unsigned long r=c;r<n&&best<3;r++){ int g=vc_pivot_rank(w[r*n+k]); if(g>best){ best=g; p=r; q=k; } }
		if(best==1){ q=c; p=c; while(p<n && w[p*n+c]==0.0) p++; } if(p==n) { vc_fail("singular-matrix"); return; }
		if(p!=c) for(unsigned long j=0;j<n;j++){ double t=w[p*n+j]; w[p*n+j]=w[c*n+j]; w[c*n+j]=t; t=b[p*n+j]; b[p*n+j]=b[c*n+j]; b[c*n+j]=t; }
		if(q!=c){ for(unsigned long j=0;j<n;j++){ double t=w[j*n+q]; w[j*n+q]=w[j*n+c]; w[j*n+c]=t; } unsigned long t=cp[q]; cp[q]=cp[c]; cp[c]=t; }
		double f=w[c*n+c]; for(unsigned long j=0;j<n;j++){ w[c*n+j]/=f; b[c*n+j]/=f; }
		for(unsigned long i=0;i<n;i++) if(i!=c){ double g=w[i*n+c]; if(!(vc_is_const(g) && g==0.0)) for(unsigned long j=0;j<n;j++){ w[i*n+j]-=g*w[c*n+j]; b[i*n+j]-=g*b[c*n+j]; } } }
	for(unsigned long i=0;i<n;i++) for(unsigned long j=0;j<n;j++) a->d[cp[i]*n+j]=b[i*n+j]; }
static void fm_invert(FM* a, const FM* o){ fm_copy(a,o); fm_invert_in_place(a); }
static void fm_mmult(const FM* a, FM* c, const FM* b, bool adding){ if(!adding&&c->m*c->n==0) fm_alloc(c,a->m,b->n); for(unsigned long i=0;i<a->m;i++) for(unsigned long j=0;j<b->n;j++){ double s=adding?c->d[i*c->n+j]:0; for(unsigned long k=0;k<a->n;k++) s+=a->d[i*a->n+k]*b->d[k*b->n+j]; c->d[i*c->n+j]=s; } }
static void fm_vmult(const FM* a, FV* y, const FV* x, bool adding){ for(unsigned long i=0;i<a->m;i++){ double s=adding?y->d[i]:0; for(unsigned long k=0;k<a->n;k++) s+=a->d[i*a->n+k]*x->d[k]; y->d[i]=s; } }
// ---- logging and MPI guard: no effect
static char logger_dummy[4096];
static void* vm_log(){ return logger_dummy; }
static void* vm_log_shift(void* self){ return self; }
static void vm_nop(){ }
static int vm_zero(){ return 0; }
static int one_(){ return 1; }
static void exc_nop(void*){ }
static void vm_memalign(void** p, unsigned long, unsigned long n){ *p=malloc(n); }
static void* vm_null(){ return nullptr; }

static void install(){
	vc_override("^dealii::Vector<double>::Vector()", (void*)fv_ctor0);
	vc_override("^dealii::Vector<double>::Vector(unsigned int)", (void*)fv_ctorn);
	vc_override("^dealii::Vector<double>::Vector(dealii::Vector<double> const&)", (void*)fv_copy);
	vc_override("^dealii::Vector<double>::Vector(dealii::Vector<double>&&)", (void*)fv_copy);
	vc_override("^dealii::Vector<double>::~Vector()", (void*)fv_dtor);
	vc_override("^dealii::Vector<double>::reinit(unsigned int, bool)", (void*)fv_reinit);
	vc_override("^dealii::Vector<double>::operator()(unsigned int)", (void*)fv_at);
	vc_override("^dealii::Vector<double>::operator[](unsigned int)", (void*)fv_at);
	vc_override("^dealii::Vector<double>::operator()(unsigned int) const", (void*)fv_atc);
	vc_override("^dealii::Vector<double>::operator[](unsigned int) const", (void*)fv_atc);
	vc_override("^dealii::Vector<double>::size() const", (void*)fv_size);
	vc_override("^dealii::Vector<double>::operator=(dealii::Vector<double> const&)", (void*)fv_assign);
	vc_override("^dealii::Vector<double>::operator=(dealii::Vector<double>&&)", (void*)fv_assign);
	vc_override("^dealii::Vector<double>::operator=(double)", (void*)fv_assignd);
	vc_override("^dealii::Vector<double>::operator*=(double)", (void*)fv_scale);
	vc_override("^dealii::Vector<double>::operator/=(double)", (void*)fv_div);
	vc_override("^dealii::Vector<double>::operator+=(dealii::Vector<double> const&)", (void*)fv_add);
	vc_override("^dealii::Vector<double>::operator-=(dealii::Vector<double> const&)", (void*)fv_sub);
	vc_override("dealii::Vector<double>::operator*<double>", (void*)fv_dot);
	vc_override("^dealii::Vector<double>::l2_norm() const", (void*)fv_norm2);
	vc_override("^dealii::Vector<double>::add(double, dealii::Vector<double> const&)", (void*)fv_addsv);
	vc_override("^dealii::Vector<double>::begin()", (void*)fv_begin);
	vc_override("^dealii::Vector<double>::end()", (void*)fv_end);
	vc_override("^dealii::FullMatrix<double>::FullMatrix(unsigned long)", (void*)fm_ctor1);
	vc_override("^dealii::FullMatrix<double>::FullMatrix(unsigned long, unsigned long)", (void*)fm_ctor2);
	vc_override("^dealii::FullMatrix<double>::FullMatrix(dealii::FullMatrix<double> const&)", (void*)fm_copy);
	vc_override("^dealii::FullMatrix<double>::FullMatrix(dealii::FullMatrix<double>&&)", (void*)fm_copy);
	vc_override("^dealii::FullMatrix<double>::~FullMatrix()", (void*)fm_dtor);
	vc_override("^dealii::FullMatrix<double>::operator=(dealii::FullMatrix<double> const&)", (void*)fm_assign);
	vc_override("^dealii::FullMatrix<double>::operator=(dealii::FullMatrix<double>&&)", (void*)fm_assign);
	vc_override("^dealii::FullMatrix<double>::operator=(double)", (void*)fm_assignd);
	vc_override("dealii::FullMatrix<double>::operator*=(double)", (void*)fm_scale);
	vc_override("^dealii::Table<2, double>::operator()(unsigned long, unsigned long)", (void*)fm_at);
	vc_override("^dealii::TableBase<2, double>::operator()(unsigned long, unsigned long)", (void*)fm_at);
	vc_override("^dealii::FullMatrix<double>::m() const", (void*)fm_m);
	vc_override("^dealii::FullMatrix<double>::n() const", (void*)fm_n);
	vc_override("^dealii::Table<2, double>::n_rows() const", (void*)fm_m);
	vc_override("^dealii::Table<2, double>::n_cols() const", (void*)fm_n);
	vc_override("^dealii::Table<2, double>::reinit(unsigned long, unsigned long, bool)", (void*)fm_reinit);
	vc_override("^dealii::FullMatrix<double>::gauss_jordan()", (void*)fm_invert_in_place);
	vc_override("dealii::FullMatrix<double>::invert<double>", (void*)fm_invert);
	vc_override("dealii::FullMatrix<double>::mmult<double>", (void*)fm_mmult);
	vc_override("dealii::FullMatrix<double>::vmult<double>", (void*)fm_vmult);
	vc_override("natrium::LOG(natrium::LogLevel)", (void*)vm_log);
	vc_override("natrium::LOGGER()", (void*)vm_log);
	vc_override("^dealii::LogStream& dealii::operator<<", (void*)vm_log_shift);
	vc_override("dealii::LogStream::operator<<", (void*)vm_log_shift);
	vc_override("dealii::ConditionalOStream const& dealii::ConditionalOStream::operator<<", (void*)vm_log_shift);
	vc_override("dealii::Utilities::System::posix_memalign", (void*)vm_memalign);
	vc_override("natrium::MPIGuard::getInstance", (void*)vm_null);
	vc_override("natrium::is_MPI_rank_0", (void*)one_);
}

}
#endif
