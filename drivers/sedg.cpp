// Spectral element discontinuous Galerkin assembly: mass, derivative, face fluxes, wall flux.
#include "common.h"
#include "natrium/advection/SEDGMinLee.cpp"
#include "natrium/boundaries/VelocityNeqBounceBack.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "nodes.h"
using namespace vcf;
// ---- contracts of deal.II: arbitrary quadrature weights and normals; degrees of freedom numbered by distinct numbers
// face point q of face k <-> cell degree of freedom q + OFF[k]; cell degree of freedom d <-> global number d + SHIFT[cell]
enum { FACE_A=1, FACE_B=3, OFF_A=5, OFF_B=11, SHIFT_A=100, SHIFT_B=1000 };
struct Blk { int row, col; double* diag; double* off; };
static Blk g_own, g_opp; static int g_alpha, g_opposite, g_bad; static double *g_nx[3]; static double* g_jxw; static double* g_jxwB;
static void* g_cell[2]; static unsigned long g_offs[2]={OFF_A,OFF_B};
static Blk* blk2(void*, unsigned i, unsigned j){ if((int)i!=g_alpha-1||((int)j!=g_alpha-1&&(int)j!=g_opposite-1)) vc_fail("assembles-own-block"); return (int)j==g_alpha-1?&g_own:&g_opp; }
static void m_add(Blk* m, unsigned i, unsigned j, double v){ long k=(long)i-SHIFT_A-OFF_A; if(i==j){ m->diag[k]+=v; return; } if((long)j-SHIFT_B-OFF_B!=k) vc_fail("couples-matching-points"); m->off[k]+=v; }
static void* faces_at(void*, unsigned long f){ if(f==FACE_A) return &g_offs[0]; if(f==FACE_B) return &g_offs[1]; vc_fail("face-number"); return 0; }
static unsigned long* q_at(unsigned long* off, const unsigned long* q){ unsigned long* r=(unsigned long*)malloc(8); *r=*q+*off; return r; }
struct Dofs { long shift; };
static void dofs_ctor(Dofs* d, unsigned long, const void*){ d->shift=-1; }
static unsigned* dofs_at(Dofs* d, unsigned long i){ unsigned* r=(unsigned*)malloc(4); *r=(unsigned)((long)i+d->shift); return r; }
static void get_dofs(void* acc, Dofs* d){ d->shift=acc==g_cell[0]?SHIFT_A:SHIFT_B; }
static void* it_arrow(void** it){ return *it; }
static void reinit_face(void* fe, void** cell, unsigned f){ if(*cell==g_cell[0]?f!=FACE_A:f!=FACE_B) vc_fail("face-values-of-the-face"); }
static void* g_fe; static void* get_fe(void*){ return g_fe; }
struct RawV { double* d; }; static RawV* g_jv; static void* get_jxw(void*){ return g_jv; } static void* get_normals(void*){ return g_jv; }
static double* d_at(RawV* v, unsigned long i){ return v->d+i; }
template<int D> static void* n_at(void*, unsigned long q){ dealii::Tensor<1,D>* t=(dealii::Tensor<1,D>*)calloc(1,sizeof(dealii::Tensor<1,D>)); for(int c=0;c<D;c++) (*t)[c]=g_nx[c][q]; return t; }
static double shape_one(){ return 1; }
template<int D> static void install_fe(bool cell=false){
	install_nodes();
	vc_override("::reinit<",(void*)reinit_face); vc_override("::get_JxW_values() const",(void*)get_jxw); vc_override("::get_normal_vectors() const",(void*)get_normals); vc_override("::get_fe() const",(void*)get_fe);
	vc_override("^dealii::BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::block(",(void*)blk2); if(!cell) vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)m_add);
	vc_override("^std::vector<std::map<unsigned long, unsigned long",(void*)faces_at); if(!cell) vc_override("^std::map<unsigned long, unsigned long, std::less<unsigned long>, std::allocator<std::pair<unsigned long const, unsigned long>>>::at(",(void*)q_at);
	vc_override("^std::vector<unsigned int, std::allocator<unsigned int>>::vector(unsigned long, std::allocator<unsigned int> const&)",(void*)dofs_ctor); vc_override("^std::vector<unsigned int, std::allocator<unsigned int>>::~vector()",(void*)vcm::vm_nop); vc_override("^std::vector<unsigned int, std::allocator<unsigned int>>::operator[](",(void*)dofs_at);
	vc_override("::get_dof_indices(",(void*)get_dofs); vc_override("::operator->()",(void*)it_arrow); vc_override("^std::vector<double, std::allocator<double>>::at(unsigned long) const",(void*)d_at);
	vc_override(D==2?"^std::vector<dealii::Tensor<1, 2, double>, std::allocator<dealii::Tensor<1, 2, double>>>::at(unsigned long) const":"^std::vector<dealii::Tensor<1, 3, double>, std::allocator<dealii::Tensor<1, 3, double>>>::at(unsigned long) const",(void*)n_at<D>);
	if(!cell) vc_override("::shape_value(",(void*)shape_one);
	g_cell[0]=calloc(1,64); g_cell[1]=calloc(1,64); g_fe=calloc(1,4096); }
template<int D, int Q, class S> void intface(){
	install_fe<D>(); S* st=new S(vc_real("scaling",0.1,100)); long n=vc_len("facepoints"); SEDGMinLee<D>* a=(SEDGMinLee<D>*)calloc(1,sizeof(SEDGMinLee<D>)); *(void**)&a->m_stencil=st; int central=vc_choose("central",2); *(bool*)&a->m_useCentralFlux=central;
	g_alpha=1+vc_choose("direction",Q-1); g_opposite=-5; g_jv=(RawV*)malloc(sizeof(RawV)); g_jv->d=vc_array_in("JxW",n,0,100); for(int c=0;c<D;c++) g_nx[c]=vc_array_in(nm("normal",c),n,-1,1); g_own.diag=vc_array("diagonal",n); g_own.off=vc_array("coupling",n);
	RawV inv; inv.d=vc_array_in("inversemass",n+2000,0,1000); dealii::FEFaceValues<D>*fe=(dealii::FEFaceValues<D>*)calloc(1,sizeof(dealii::FEFaceValues<D>)), *fn=(dealii::FEFaceValues<D>*)calloc(1,sizeof(dealii::FEFaceValues<D>)); *(unsigned*)&fe->n_quadrature_points=(unsigned)n; *(unsigned*)&fn->n_quadrature_points=(unsigned)n;
	typedef typename dealii::DoFHandler<D>::active_cell_iterator AI; typedef typename dealii::DoFHandler<D>::cell_iterator CI; AI* c=(AI*)calloc(1,sizeof(AI)); CI* nb=(CI*)calloc(1,sizeof(CI)); *(void**)c=g_cell[0]; *(void**)nb=g_cell[1]; dealii::FESubfaceValues<D>* sub=(dealii::FESubfaceValues<D>*)calloc(1,64);
	a->assembleAndDistributeInternalFace(g_alpha,*c,FACE_A,*nb,FACE_B,*fe,*sub,*fn,*(std::vector<double>*)&inv); if(n==0) return;
	long q=vc_loop_index(), i=q+OFF_A, g=q; vc_reach("face"); double en=0; for(int k=0;k<D;k++) en+=g_nx[k][q]*st->getDirection(g_alpha)(k); double w=g_jv->d[q]*inv.d[i], dd=g_own.diag[g]-vc_old(g_own.diag,g), oo=g_own.off[g]-vc_old(g_own.off,g); double z=vc_real("z",-1,1);
	vc_check_eq("flux-consistent",dd+oo+z,z); if(central) vc_check_eq("flux-central",dd+z,0.5*en*w+z); else vc_check_eq("flux-upwind",dd+z,(en<0?en*w:0)+z); }
VC_HARNESS(internal_D2Q9){ intface<2,9,D2Q9>(); } VC_HARNESS(internal_D3Q19){ intface<3,19,D3Q19>(); }
// ---- cell matrices and wall flux, for elements with N points per direction (bounded by the polynomial order; all values symbolic)
static double* g_sh; static double* g_gr; static int g_np; static double* g_w; // shape value of point i at q, gradients, JxW
static double* sh(void*, unsigned i, unsigned q){ return &g_sh[i*g_np+q]; }
template<int D> static const void* gr(void*, unsigned i, unsigned q){ return g_gr+(i*g_np+q)*D; }
static double jw(void*, unsigned q){ return g_w[q]; }
static unsigned g_perm[64]; static unsigned long* perm_at(void*, const unsigned long* i){ unsigned long* r=(unsigned long*)malloc(8); *r=g_perm[*i]; return r; }
static double* dn_at(RawV* v, unsigned long i){ return v->d+i; }
static double g_sum[64][64][2]; static void m_rec(Blk* m, unsigned i, unsigned j, double v){ if(i<SHIFT_A||i>=SHIFT_A+64||j<SHIFT_A||j>=SHIFT_A+64){ vc_fail("assembles-own-cell"); return; } g_sum[i-SHIFT_A][j-SHIFT_A][m==&g_own?0:1]+=v; }
static void m_dia(Blk* m, unsigned i, unsigned j, double v){ if(i!=j){ vc_fail("couples-matching-points"); return; } m_rec(m,i,j,v); }
static void m_addm(vcm::FM* a, double s, const vcm::FM* b){ for(unsigned long i=0;i<a->m*a->n;i++) a->d[i]+=s*b->d[i]; }
static void m_addm2(vcm::FM* a, double s, const vcm::FM* b, double t, const vcm::FM* c){ for(unsigned long i=0;i<a->m*a->n;i++) a->d[i]+=s*b->d[i]+t*c->d[i]; }
template<int D, int Q, class S> void cellmat(int N){
	install_fe<D>(true); vc_override("::shape_value(",(void*)sh); vc_override("::shape_grad(",(void*)gr<D>); vc_override("::JxW(",(void*)jw); vc_override("^std::map<unsigned long, unsigned long, std::less<unsigned long>, std::allocator<std::pair<unsigned long const, unsigned long>>>::at(",(void*)perm_at); vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)m_rec);
	vc_override("void dealii::FullMatrix<double>::add<double>(double, dealii::FullMatrix<double> const&)",(void*)m_addm); vc_override("void dealii::FullMatrix<double>::add<double>(double, dealii::FullMatrix<double> const&, double, dealii::FullMatrix<double> const&)",(void*)m_addm2);
	int n=1; for(int c=0;c<D;c++) n*=N; g_np=n; S* st=new S(vc_real("scaling",0.1,100)); SEDGMinLee<D>* a=(SEDGMinLee<D>*)calloc(1,sizeof(SEDGMinLee<D>)); *(void**)&a->m_stencil=st;
	for(int i=0;i<n;i++) g_perm[i]=(i*(N+1)+1)%n; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(g_perm[i]==g_perm[j]) g_perm[i]=i; bool ok=true; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(g_perm[i]==g_perm[j]) ok=false; if(!ok) for(int i=0;i<n;i++) g_perm[i]=n-1-i; // some bijection degrees of freedom -> points
	g_sh=(double*)calloc(n*n,8); g_gr=(double*)calloc(n*n*D,8); g_w=(double*)calloc(n,8); for(int i=0;i<n;i++) g_w[i]=vc_real(nm("JxW",i),0.01,100); for(int i=0;i<n;i++) g_sh[i*n+g_perm[i]]=1; for(int i=0;i<n*n*D;i++) g_gr[i]=vc_real("grad",-10,10);
	dealii::FEValues<D>* fe=(dealii::FEValues<D>*)calloc(1,sizeof(dealii::FEValues<D>)); std::vector<double> M(n,7.0), I(n); std::vector<dealii::FullMatrix<double>> K; for(int c=0;c<D;c++) K.push_back(dealii::FullMatrix<double>(n,n)); for(int c=0;c<D;c++) K[c](0,0)=3; dealii::FullMatrix<double> W(n,n); 
	RawV* m=(RawV*)&M; a->assembleLocalMassMatrix(*fe,n,M); for(int i=0;i<n;i++) vc_check_eq("mass-matrix",m->d[i],g_w[g_perm[i]]); for(int i=0;i<n;i++) ((RawV*)&I)->d[i]=1/m->d[i];
	a->assembleLocalDerivativeMatrices(*fe,n,K); for(int c=0;c<D;c++) for(int i=0;i<n;i++) for(int j=0;j<n;j++) vc_check_eq("derivative-matrix",K[c](i,j),g_w[g_perm[i]]*g_gr[(j*n+g_perm[i])*D+c]);
	g_alpha=1+vc_choose("direction",Q-1); g_opposite=-5; Dofs dofs; dofs.shift=SHIFT_A; a->calculateAndDistributeLocalStiffnessMatrix(g_alpha,K,W,I,*(std::vector<unsigned>*)&dofs,n); vc_reach("cell");
	for(int i=0;i<n;i++) for(int j=0;j<n;j++){ double x=0; for(int c=0;c<D;c++) x-=st->getDirection(g_alpha)(c)*g_gr[(j*n+g_perm[i])*D+c]; vc_check_eq("advects-along-direction",g_sum[i][j][0],x); } }
// wall flux: NQ face points, each belonging to one of the n degrees of freedom of the cell; the outside state is the bounced-back population plus twice the momentum input of the moving wall
static double* g_pu; static int g_fq; static void* pts(void*, unsigned q){ return (char*)0+0x1000+q; } static bool g_onface[64];
template<int D> struct WallVelocity: dealii::Function<D> { WallVelocity():dealii::Function<D>(D){} double value(const dealii::Point<D>&, unsigned) const { return 0; } void vector_value(const dealii::Point<D>& p, dealii::Vector<double>& v) const { long q=(long)((char*)&p-(char*)0x1000); if(q<0||q>=g_fq) vc_fail("wall-velocity-at-face-point"); for(int c=0;c<D;c++) v(c)=g_pu[q*D+c]; } };
static bool on_face(void*, unsigned i, unsigned f){ if(f!=FACE_A) vc_fail("face-number"); return g_onface[i]; }
static unsigned long g_fdof[64]; static unsigned long* fq_at(void*, const unsigned long* q){ if(*q>=(unsigned long)g_fq) vc_fail("face-point"); return &g_fdof[*q]; }
static vcf::FakeVec* g_rhs; static void* vblk(void*, unsigned i){ if((int)i!=g_alpha-1) vc_fail("assembles-own-block"); return g_rhs; }
template<int D> static void fn_ctor(dealii::Function<D>* f, unsigned n, double){ *(unsigned*)&f->n_components=n; }
template<int D, int Q, class S> void wallflux(int nq, int n){
	install_fe<D>(true); vc_override("^dealii::BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::block(",(void*)blk2); vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)m_dia); vc_override("::quadrature_point(",(void*)pts); vc_override("::has_support_on_face(",(void*)on_face); vc_override("^std::map<unsigned long, unsigned long, std::less<unsigned long>, std::allocator<std::pair<unsigned long const, unsigned long>>>::at(",(void*)fq_at); vc_override("^dealii::BlockVectorBase<dealii::TrilinosWrappers::MPI::Vector>::block(unsigned int)",(void*)vblk);
	{ static void* vt[256]; for(int i=0;i<256;i++) vt[i]=(void*)on_face; *(void***)g_fe=vt; } // has_support_on_face is virtual
	vc_override("^dealii::Subscriptor::~Subscriptor()",(void*)vcm::vm_nop); vc_override("dealii::Function<2, double>::Function(unsigned int, double)",(void*)fn_ctor<2>); vc_override("dealii::Function<3, double>::Function(unsigned int, double)",(void*)fn_ctor<3>);
	S* st=new S(vc_real("scaling",0.1,100)); int central=vc_choose("central",2); g_fq=nq; g_pu=(double*)calloc(nq*D,8); for(int i=0;i<nq*D;i++) g_pu[i]=vc_real(nm("u",i),-10,10);
	g_jv=(RawV*)malloc(sizeof(RawV)); g_jv->d=(double*)calloc(nq,8); for(int q=0;q<nq;q++) g_jv->d[q]=vc_real(nm("JxW",q),0,100); for(int c=0;c<D;c++){ g_nx[c]=(double*)calloc(nq,8); for(int q=0;q<nq;q++) g_nx[c][q]=vc_real(nm(c==0?"nx":c==1?"ny":"nz",q),-1,1); }
	for(int q=0;q<nq;q++){ g_fdof[q]=(2*q+1)%n; g_onface[g_fdof[q]]=true; } g_own.row=0; g_opp.row=0; RawV inv; inv.d=(double*)calloc(n,8); for(int i=0;i<n;i++) inv.d[i]=vc_real(nm("inverse",i),0.01,100); g_rhs=(vcf::FakeVec*)newvec((double*)calloc(SHIFT_A+n,8),SHIFT_A+n); double r0[64]; for(int i=0;i<n;i++) g_rhs->data[SHIFT_A+i]=r0[i]=vc_real(nm("rhs",i),-100,100);
	dealii::FEFaceValues<D>* fe=(dealii::FEFaceValues<D>*)calloc(1,sizeof(dealii::FEFaceValues<D>)); *(unsigned*)&fe->n_quadrature_points=nq; *(unsigned*)&fe->dofs_per_cell=n; typedef typename dealii::DoFHandler<D>::active_cell_iterator AI; AI* c=(AI*)calloc(1,sizeof(AI)); *(void**)c=g_cell[0];
	g_alpha=1+vc_choose("direction",Q-1); g_opposite=0; for(int i=1;i<Q;i++){ bool o=true; for(int k=0;k<D;k++){ double x=st->getDirection(i)(k)+st->getDirection(g_alpha)(k); o=o&&x*x<1e-8; } if(o) g_opposite=i; }
	boost::shared_ptr<dealii::Function<D>> u(new WallVelocity<D>()); VelocityNeqBounceBack<D> b(1,u); std::map<size_t,size_t>* mp=(std::map<size_t,size_t>*)calloc(1,64); static char sm[4096], sv[4096];
	b.assembleBoundary(g_alpha,*c,FACE_A,*fe,*st,*mp,*(std::vector<double>*)&inv,*(distributed_sparse_block_matrix*)sm,*(distributed_block_vector*)sv,central); vc_reach("wall");
	double cs2=st->getSpeedOfSoundSquare();
	for(int i=0;i<n;i++){ double own=0, rhs=0; for(int q=0;q<nq;q++) if(g_fdof[q]==(unsigned long)i){ double en=0, eu=0; for(int k=0;k<D;k++){ en+=g_nx[k][q]*st->getDirection(g_alpha)(k); eu+=g_pu[q*D+k]*st->getDirection(g_alpha)(k); } own=(central?0.5*en:en<0?en:0)*g_jv->d[q]*inv.d[i]; rhs=-2*st->getWeight(g_alpha)*eu/cs2*own; }
		vc_check_eq("wall-own",g_sum[i][i][0],own); vc_check_eq("wall-bounced-back",g_sum[i][i][1],-own); vc_check_eq("wall-moving",g_rhs->data[SHIFT_A+i]-r0[i],rhs); } }
VC_HARNESS(wall3_D2Q9){ wallflux<2,9,D2Q9>(3,9); } VC_HARNESS(wall2_D2Q9){ wallflux<2,9,D2Q9>(2,5); } VC_HARNESS(wall2_D3Q19){ wallflux<3,19,D3Q19>(3,7); } VC_HARNESS(wall2_D3Q15){ wallflux<3,15,D3Q15>(2,5); }
VC_HARNESS(cell2_D2Q9){ cellmat<2,9,D2Q9>(2); } VC_HARNESS(cell3_D2Q9){ cellmat<2,9,D2Q9>(3); } VC_HARNESS(cell2_D3Q19){ cellmat<3,19,D3Q19>(2); }
