// Moment transformations: MRT bases, stencil moment bases, transfer of distributions between scalings.
#include "common.h"
#include "natrium/collision_advanced/AuxiliaryMRTFunctions.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D2Q19H.cpp"
#include "natrium/stencils/D2Q19V.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D3Q13.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "natrium/stencils/D3Q21.cpp"
#include "natrium/stencils/D3Q27.cpp"
#include "natrium/stencils/RD3Q27.cpp"
#include "natrium/stencils/D3V27.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "natrium/stencils/D3Q77.cpp"
#include "natrium/solver/DistributionFunctions.cpp"
#include "nodes.h"
using namespace vcf;
static bool tiny(double x, double t){ return x*x<t*t; }
// ---- MRT: transform and inverse transform
template<int D, int Q, class S> void mrt(MomentBasis b){
	install(); vc_run_ctors("AuxiliaryMRTFunctions"); auto M=AuxiliaryMRTFunctions::make_M<Q>(b); auto T=AuxiliaryMRTFunctions::make_T<Q>(b);
	std::array<double,Q> f,m,g; for(int i=0;i<Q;i++) f[i]=vc_real(nm("f",i),-1,1);
	AuxiliaryMRTFunctions::matrix_vector_product<Q,Q>(M,f,m); AuxiliaryMRTFunctions::matrix_vector_product<Q,Q>(T,m,g); vc_reach("mrt");
	for(int i=0;i<Q;i++) vc_check_eq("moments-and-back",g[i],f[i]);
	std::array<double,Q> h; AuxiliaryMRTFunctions::matrix_vector_product<Q,Q>(T,f,h); AuxiliaryMRTFunctions::matrix_vector_product<Q,Q>(M,h,g); for(int i=0;i<Q;i++) vc_check_eq("moments-and-back",g[i],f[i]);
	std::array<std::array<double,Q>,Q> P; AuxiliaryMRTFunctions::matrix_matrix_product<Q,Q,Q>(M,T,P); for(int i=0;i<Q;i++) for(int j=0;j<Q;j++) vc_check("moment-matrices-inverse",tiny(P[i][j]-(i==j),1e-12));
}
template<int Q> void diag(MomentBasis b, int modes){
	install(); double tau=vc_real("tau",0.51,100); static const RelaxMode R[]={RELAX_FULL,DELLAR_RELAX_ONLY_N,RELAX_DHUMIERES_PAPER}; int c=vc_choose("mode",3); if(!(modes>>c&1)) return;
	std::array<double,Q> d=AuxiliaryMRTFunctions::make_diag<Q>(tau,b,R[c]); vc_reach("diag"); for(int i=0;i<Q;i++) vc_check("mrt-rates-stable",d[i]>0&&d[i]<2);
}
VC_HARNESS(mrt_DELLAR_D2Q9){ mrt<2,9,D2Q9>(DELLAR_D2Q9); } VC_HARNESS(mrt_LALLEMAND_D2Q9){ mrt<2,9,D2Q9>(LALLEMAND_D2Q9); } VC_HARNESS(mrt_DHUMIERES_D3Q19){ mrt<3,19,D3Q19>(DHUMIERES_D3Q19); }
VC_HARNESS(mrtrates_DELLAR_D2Q9){ diag<9>(DELLAR_D2Q9,3); } VC_HARNESS(mrtrates_LALLEMAND_D2Q9){ diag<9>(LALLEMAND_D2Q9,1); } VC_HARNESS(mrtrates_DHUMIERES_D3Q19){ diag<19>(DHUMIERES_D3Q19,5); }
// ---- stencil moment basis: regular, density and momentum are moments, inverse is the inverse
template<int D, int Q, class S> void basis(){
	install(); double s=vc_real("scaling",0.1,100); S x(s); numeric_matrix M(Q), T(Q); x.getMomentBasis(M); x.getInverseMomentBasis(T); vc_reach("basis");
	std::vector<double> f(Q), m(Q); 
	for(int i=0;i<Q;i++){ f[i]=vc_real(nm("f",i),-1,1); }
	for(int i=0;i<Q;i++){ m[i]=0; for(int j=0;j<Q;j++) m[i]+=M(i,j)*f[j]; }
	for(int i=0;i<Q;i++){ double g=0; for(int j=0;j<Q;j++) g+=T(i,j)*m[j]; vc_check_eq("moments-and-back",g,f[i]); }
}
// ---- transfer of all nodes from one scaling to another
template<int D, int Q, class S> void transfer(){
	install_nodes(); double s0=vc_real("old_scaling",0.1,100), s1=vc_real("new_scaling",0.1,100); long len=vc_len("nodes"); g_len=len; S a(s0), b(s1); double* f[Q];
	DistributionFunctions* df=newDF("f",Q,len,f); dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); double d=a.getSpeedOfSound()-b.getSpeedOfSound();
	df->transferFromOtherScaling(a,b,*is); if(len==0) return; if(d*d<1e-10){ vc_reach("nothing-to-do"); return; }
	long k=vc_loop_index(); double q=vc_real("q",-1,1); vc_reach("node"); double m0=0,m1=0; for(int i=0;i<Q;i++){ m0+=vc_old(f[i],k); m1+=f[i][k]; } vc_check_eq("transfer-mass",m1+q,m0+q);
	for(int c=0;c<D;c++){ double p0=0,p1=0; for(int i=0;i<Q;i++){ p0+=a.getDirection(i)(c)*vc_old(f[i],k); p1+=b.getDirection(i)(c)*f[i][k]; } vc_check_eq("transfer-momentum",p1+q,p0+q);
	 for(int e=0;e<=c;e++){ double P0=0,P1=0; for(int i=0;i<Q;i++){ P0+=a.getDirection(i)(c)*a.getDirection(i)(e)*vc_old(f[i],k); P1+=b.getDirection(i)(c)*b.getDirection(i)(e)*f[i][k]; } vc_check_eq("transfer-stress",P1+q,P0+q); } }
}
VC_HARNESS(scalef_D2Q9){ install_nodes(); double s=vc_real("factor",-10,10); long len=vc_len("nodes"); g_len=len; double* f[9]; DistributionFunctions* df=newDF("f",9,len,f); dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); df->scaleF(s,*is); if(len==0) return; long k=vc_loop_index(); vc_reach("node"); for(int i=0;i<9;i++) vc_check_eq("scaled",f[i][k],s*vc_old(f[i],k)); }
#define B(D,Q,S) VC_HARNESS(basis_##S){ basis<D,Q,S>(); }
#define BT(D,Q,S) B(D,Q,S) VC_HARNESS(transfer_##S){ transfer<D,Q,S>(); }
BT(2,9,D2Q9) BT(2,19,D2Q19H) BT(2,19,D2Q19V) BT(2,25,D2Q25H) BT(3,13,D3Q13) BT(3,15,D3Q15) BT(3,19,D3Q19) BT(3,21,D3Q21) BT(3,27,D3Q27) BT(3,27,RD3Q27) BT(3,27,D3V27) BT(3,45,D3Q45) BT(3,77,D3Q77)
