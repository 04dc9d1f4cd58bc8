// Modal filters: every Legendre mode of every owned cell is scaled by its own factor, nothing else changes.
#include "common.h"
#include "natrium/smoothing/ExponentialFilter.cpp"
#include "natrium/smoothing/NewFilter.cpp"
#include "nodes.h"
using namespace vcf;
namespace {
// ---- contract of the finite element and quadrature: nodal basis of degree p on the unit cell (any numbering of the tensor product works; x fastest), quadrature exact for degree 2p
int g_p, g_dimn; double g_w[64][3];
// Newton-Cotes rules on [0,1], exact for degree 2p: 3 points (degree 3) for p=1, 5 points (degree 5) for p=2
int nq1(){ return g_p==1?3:5; }
double nc(int i){ static const int a[3]={1,4,1}, b[5]={7,32,12,32,7}; return g_p==1?a[i]/6.0:b[i]/90.0; }
double nx(int i){ return g_p==1?i/2.0:i/4.0; }
double lag(int j, double x){ if(g_p==1) return j?x:1-x; return j==0?(1-x)*(1-2*x):j==1?4*x*(1-x):x*(2*x-1); }
double leg(int k, double x){ return k==0?1:k==1?2*x-1:6*x*x-6*x+1; }
const double AMP[3]={1,2,0.5}; // deal.II normalizes; the filter may not depend on it
template<int D> struct FE {
	static std::vector<dealii::Point<D>>* pts; static std::vector<double>* wts; static void* points(void*){ return pts; } static void* weights(void*){ return wts; }
	static const double* shape(const void*, unsigned j, const dealii::Point<D>& x){ return nullptr; }
	static double value(const void*, unsigned j, const dealii::Point<D>& x){ double r=1; for(int c=0;c<D;c++){ r*=lag(j%(g_p+1),x[c]); j/=g_p+1; } return r; } };
template<int D> std::vector<dealii::Point<D>>* FE<D>::pts; template<int D> std::vector<double>* FE<D>::wts;
typedef dealii::Polynomials::Polynomial<double> Poly;
struct PolyRaw { void** vptr; long degree; };
std::vector<Poly> legendre_basis(unsigned p){ std::vector<Poly> v; void** raw=(void**)&v; char* m=(char*)calloc(p+1,sizeof(Poly)); for(unsigned i=0;i<=p;i++){ ((PolyRaw*)(m+i*sizeof(Poly)))->vptr=vcm::fake_vtab; ((PolyRaw*)(m+i*sizeof(Poly)))->degree=i; } raw[0]=m; raw[1]=raw[2]=m+(p+1)*sizeof(Poly); return v; }
double poly_value(const PolyRaw* q, double x){ if(q->degree<0||q->degree>g_p) vc_unsupported("polynomial that is not of the Legendre basis"); return AMP[q->degree]*leg((int)q->degree,x); }
void poly_copy(PolyRaw* a, const PolyRaw* b){ a->vptr=vcm::fake_vtab; a->degree=b->degree; }
// ---- contract of the mesh: numbered cells; cell 1 belongs to another process
struct CellRaw { int level, index; const void* tria; void* dofs; };
int g_n; int base_of(int cell){ return cell*g_n; } int perm(int cell, int j){ return cell==2?(j+1)%g_n:j; }
bool c_owned(CellRaw* c){ return c->index!=1; } void c_dofs(CellRaw* c, std::vector<unsigned>* v){ if((int)v->size()!=g_n) vc_fail("one-index-per-node"); if(c->index==1) vc_fail("cell-of-this-process"); for(int j=0;j<g_n;j++) (*v)[j]=base_of(c->index)+perm(c->index,j); }
CellRaw dh_begin(void*, unsigned){ CellRaw r; r.level=0; r.index=0; r.tria=(void*)0x100; r.dofs=(void*)0x200; return r; } CellRaw dh_end(void*){ CellRaw r=dh_begin(0,0); r.index=3; return r; } CellRaw* it_next(CellRaw* c){ c->index++; return c; } bool it_neq(const CellRaw* a, const CellRaw* b){ return a->index!=b->index; } bool it_eq(const CellRaw* a, const CellRaw* b){ return a->index==b->index; } void* it_ptr(void* a){ return a; }
template<int D> void install_filter(){ install_nodes(); const char* d=D==1?"1, 1":D==2?"2, 2":"3, 3"; (void)d;
	vc_override("::is_locally_owned() const",(void*)c_owned); vc_override("::get_dof_indices(",(void*)c_dofs); vc_override("::begin_active(unsigned int) const",(void*)dh_begin); vc_override("^dealii::DoFHandler<1, 1>::end() const",(void*)dh_end); vc_override("^dealii::DoFHandler<2, 2>::end() const",(void*)dh_end); vc_override("^dealii::DoFHandler<3, 3>::end() const",(void*)dh_end);
	vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<1, 1, false>>::operator++()",(void*)it_next); vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<2, 2, false>>::operator++()",(void*)it_next); vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<3, 3, false>>::operator++()",(void*)it_next); vc_override("false>>::operator!=(",(void*)it_neq); vc_override("false>>::operator==(",(void*)it_eq); vc_override("false>>::operator->()",(void*)it_ptr);
	vc_override("::get_points() const",(void*)FE<D>::points); vc_override("::get_weights() const",(void*)FE<D>::weights); vc_override("Legendre::generate_complete_basis(",(void*)legendre_basis); vc_override("^dealii::Polynomials::Polynomial<double>::value(double) const",(void*)poly_value);
	vc_override("^dealii::Polynomials::Polynomial<double>::Polynomial(dealii::Polynomials::Polynomial<double>",(void*)poly_copy); vc_override("^dealii::Polynomials::Polynomial<double>::operator=(",(void*)poly_copy); vc_override("^dealii::Polynomials::Polynomial<double>::~Polynomial",(void*)vcm::vm_nop); }
// ---- specification: coefficient of the Legendre mode (k per axis) of the nodal values
double a1(int k, int j){ if(g_p==1) return k==0?0.5:j?0.5:-0.5; static const double t[3][3]={{1,4,1},{-3,0,3},{2,-4,2}}; return t[k][j]/6; }
double coeff(int D, const int* k, const double* f){ double s=0; for(int j=0;j<g_n;j++){ double w=1; int r=j; for(int c=0;c<D;c++){ w*=a1(k[c],r%(g_p+1)); r/=g_p+1; } s+=w*f[j]; } return s; }
template<int D, class F> void run(F make, int kind){ install_filter<D>(); g_dimn=D; g_n=1; for(int c=0;c<D;c++) g_n*=g_p+1;
	int q=nq1(), Q=1; for(int c=0;c<D;c++) Q*=q; FE<D>::pts=new std::vector<dealii::Point<D>>(Q); FE<D>::wts=new std::vector<double>(Q); for(int i=0;i<Q;i++){ int r=i; double w=1; for(int c=0;c<D;c++){ (*FE<D>::pts)[i][c]=nx(r%q); w*=nc(r%q); r/=q; } (*FE<D>::wts)[i]=w; }
	void** vt=(void**)calloc(256,8); for(int i=0;i<256;i++) vt[i]=(void*)FE<D>::value; void* fe=calloc(1,sizeof(dealii::FiniteElement<D>)); *(void***)fe=vt; *(unsigned*)&((dealii::FiniteElement<D>*)fe)->degree=g_p; *(unsigned*)&((dealii::FiniteElement<D>*)fe)->dofs_per_cell=g_n;
	double alpha=vc_real("alpha",0,100), s=vc_real("s",0.1,64); int bysum=kind==0?vc_choose("bysum",2):1; int top=bysum?D*g_p:g_p; int N=kind==0?vc_choose("cutoff",top+2):0; void* qd=calloc(1,256); int set=vc_choose("set",2);
	natrium::Filter<D>* f=make(set?alpha+1:alpha,set?s+1:s,N,bysum,*(dealii::Quadrature<D>*)qd,*(dealii::FiniteElement<D>*)fe,set,alpha,s);
	distributed_vector* v; double* d=(double*)malloc(3*g_n*8); double old[128], res[64], in[64]; for(int i=0;i<3*g_n;i++) old[i]=d[i]=vc_real(nm("f",i),-VC_INF,VC_INF); v=newvec(d,3*g_n); void* dh=calloc(1,4096);
	f->applyFilter(*(dealii::DoFHandler<D>*)dh,*v); vc_reach("filtered");
	for(int j=0;j<g_n;j++) vc_check_eq("cell-of-other-process-untouched",d[g_n+j],old[g_n+j]);
	for(int cell=0;cell<3;cell+=2){ for(int j=0;j<g_n;j++){ in[j]=old[base_of(cell)+perm(cell,j)]; res[j]=d[base_of(cell)+perm(cell,j)]; }
		for(int m=0;m<g_n;m++){ int k[3], r=m, deg=0; for(int c=0;c<D;c++){ k[c]=r%(g_p+1); r/=g_p+1; if(bysum) deg+=k[c]; else if(k[c]>deg) deg=k[c]; }
			double sigma=1; if(kind==0){ if(deg>=N) sigma=std::exp(-alpha*pow((double)(deg+1-N)/(double)(top+1-N),s)); } else sigma=std::exp(-alpha*pow((double)deg/(double)top,s));
			double c0=coeff(D,k,in), c1=coeff(D,k,res); if(m==0&&(kind==0?N>0:true)) vc_check_eq("cell-mean-kept",c1,c0); else vc_check_eq("mode-scaled-by-its-factor",c1,sigma*c0); } } }
template<int D> void expf(int p){ g_p=p; run<D>([](double a, double s, int N, bool b, const dealii::Quadrature<D>& q, const dealii::FiniteElement<D>& fe, bool set, double a2, double s2)->natrium::Filter<D>*{ ExponentialFilter<D>* f=new ExponentialFilter<D>(a,s,N,b,q,fe); if(set){ f->setAlpha(a2); f->setS(s2); } vc_check_eq("alpha-getter",f->getAlpha(),a2); vc_check_eq("s-getter",f->getS(),s2); return f; },0); }
template<int D> void newf(int p){ g_p=p; run<D>([](double a, double s, int N, bool b, const dealii::Quadrature<D>& q, const dealii::FiniteElement<D>& fe, bool set, double a2, double s2)->natrium::Filter<D>*{ NewFilter<D>* f=new NewFilter<D>(a,s,q,fe); if(set){ f->setAlpha(a2); f->setS(s2); } return f; },1); }
}
VC_HARNESS(filter_exp_1_1){ expf<1>(1); } VC_HARNESS(filter_exp_1_2){ expf<1>(2); } VC_HARNESS(filter_exp_2_1){ expf<2>(1); } VC_HARNESS(filter_exp_2_2){ expf<2>(2); } VC_HARNESS(filter_exp_3_1){ expf<3>(1); } VC_HARNESS(filter_exp_3_2){ expf<3>(2); }
VC_HARNESS(filter_new_1_1){ newf<1>(1); } VC_HARNESS(filter_new_1_2){ newf<1>(2); } VC_HARNESS(filter_new_2_1){ newf<2>(1); } VC_HARNESS(filter_new_2_2){ newf<2>(2); } VC_HARNESS(filter_new_3_1){ newf<3>(1); } VC_HARNESS(filter_new_3_2){ newf<3>(2); }
