// The CollisionModel family: the equilibrium every model initializes with, and the collision
// that the iterative initialization runs.
#include "common.h"
#include "natrium/collision/BGK.h"
#include "natrium/collision/MRT.h"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D3Q13.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "natrium/stencils/D3Q21.cpp"
#include "natrium/stencils/D3Q27.cpp"
#include "natrium/solver/DistributionFunctions.cpp"
#include "natrium/collision/CollisionModel.cpp"
#include "natrium/collision/BGK.cpp"
#include "natrium/collision/BGKStandard.cpp"
#include "natrium/collision/BGKStandardTransformed.cpp"
#include "natrium/collision/BGKSteadyState.cpp"
#include "natrium/collision/BGKRegularized.cpp"
#include "natrium/collision/BGKIncompressible.cpp"
#include "natrium/collision/MRT.cpp"
#include "natrium/collision/MRTStandard.cpp"
#include "natrium/collision/MRTEntropic.cpp"
#include "natrium/collision/KBCCentral.cpp"
#include "nodes.h"
using namespace vcf;
namespace {
template<class M> M* make(double tau, double dt, boost::shared_ptr<Stencil> s){ return new M(tau,dt,s); }
template<> BGKSteadyState* make<BGKSteadyState>(double tau, double dt, boost::shared_ptr<Stencil> s){ return new BGKSteadyState(tau,dt,s,vc_real("gamma",0.01,1)); }
template<class M> double gam(M*){ return 1; } double gam(BGKSteadyState* m){ return m->m_gamma; }
template<class M> double rho0(M*){ return 0; } double rho0(BGKStandardTransformed* m){ return m->m_rho0; }
}
// ---- equilibrium used to initialize: prescribed density, momentum and Navier-Stokes stress
template<class M, int D, int Q, class S> void equilibrium(){
	install_nodes(); double s=vc_real("scaling",0.1,100), tau=vc_real("tau",1e-6,10), dt=vc_real("dt",1e-6,10), rho=vc_real("rho",0.01,100);
	boost::shared_ptr<Stencil> st(new S(s)); M* m=make<M>(tau,dt,st); numeric_vector u(D); double uu[D]; for(int j=0;j<D;j++){ uu[j]=vc_real(nm("u",j),-1,1); u(j)=uu[j]; }
	std::vector<double> feq(Q); m->getEquilibriumDistributions(feq,u,rho); vc_reach("equilibrium");
	double cs2=st->getSpeedOfSoundSquare(), sum=0, p[D], P[D][D], r0=rho0(m); for(int a=0;a<D;a++){ p[a]=0; for(int b=0;b<D;b++) P[a][b]=0; }
	for(int i=0;i<Q;i++){ sum+=feq[i]; for(int a=0;a<D;a++){ double ea=st->getDirection(i)(a); p[a]+=ea*feq[i]; for(int b=0;b<D;b++) P[a][b]+=ea*st->getDirection(i)(b)*feq[i]; } }
	vc_check_eq("initial-density",sum+r0,rho); for(int a=0;a<D;a++) vc_check_eq("initial-momentum",p[a],rho*uu[a]);
	if(Q!=13) for(int a=0;a<D;a++) for(int b=0;b<D;b++) vc_check_eq("initial-stress",P[a][b]+(a==b?r0*cs2:0)+cs2,rho*uu[a]*uu[b]/gam(m)+(a==b?rho*cs2:0)+cs2);
}
// ---- collision of the CollisionModel family over an unbounded number of owned nodes
template<class M, int D, int Q, class S> void classic(ForceType ft, bool init, bool relax){
	install_nodes(); double s=vc_real("scaling",0.1,100), tau=vc_real("tau",1e-6,10), dt=vc_real("dt",1e-6,10); long len=vc_len("nodes"); g_len=len;
	boost::shared_ptr<Stencil> st(new S(s)); M* m=make<M>(tau,dt,st); double F[D]; for(int j=0;j<D;j++) F[j]=0;
	if(ft!=NO_FORCING){ dealii::Tensor<1,D> t; for(int j=0;j<D;j++){ F[j]=vc_real(nm("F",j),-1,1); t[j]=F[j]; } ConstantExternalForce<D> e(t); m->setForceType(ft); m->setExternalForce(e); }
	double *f[Q], *u[D]; DistributionFunctions* df=newDF("f",Q,len,f); double* rho=vc_array("rho",len); distributed_vector* rv=newvec(rho,len);
	std::vector<distributed_vector>* uv=(std::vector<distributed_vector>*)malloc(sizeof(std::vector<distributed_vector>)); mkvels(*uv,"u",D,len,u); dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet));
	bool rejected=false; try { m->collideAll(*df,*rv,*uv,*is,init); } catch(CollisionException&){ rejected=true; }
	if(len==0){ vc_check("empty-part-accepted",!rejected); return; }
	long k=vc_loop_index(); double r0=rho0(m), m0=r0, m1=r0, p0[D], p1[D]; for(int j=0;j<D;j++) p0[j]=p1[j]=0;
	for(int i=0;i<Q;i++){ double a=vc_old(f[i],k), b=f[i][k]; m0+=a; m1+=b; for(int j=0;j<D;j++){ double ej=st->getDirection(i)(j); p0[j]+=ej*a; p1[j]+=ej*b; } }
	if(rejected&&!vc_is_symbolic()) return;
	if(rejected){ vc_reach("rejected"); vc_check("rejects-only-vanishing-density",m0<=1e-10*(1+1e-9)); return; }
	vc_reach("node");
	if(relax){ if(m0<0.01) return; numeric_vector uu(D); for(int j=0;j<D;j++) uu(j)=init?vc_old(u[j],k):p0[j]/m0; std::vector<double> feq(Q); m->getEquilibriumDistributions(feq,uu,m0);
		for(int i=0;i<Q;i++) vc_check_eq("relaxes-to-own-equilibrium",(f[i][k]-vc_old(f[i],k))*(tau+0.5),feq[i]-vc_old(f[i],k)); return; }
	vc_check_eq("classic-mass",m1,m0); vc_check_eq("classic-density",rho[k],m0);
	for(int j=0;j<D;j++) if(init) vc_check_eq("classic-velocity-untouched",u[j][k],vc_old(u[j],k));
		else { vc_check_eq("classic-momentum",p1[j]+s*m0,p0[j]+dt*F[j]+s*m0); vc_check_eq("classic-velocity",u[j][k]*m0+s*m0,p0[j]+0.5*dt*F[j]+s*m0); }
}
#define EQ(M,D,Q,S) VC_HARNESS(feq_##M##_##S){ equilibrium<M,D,Q,S>(); }
#define CL(M,D,Q,S) EQ(M,D,Q,S) VC_HARNESS(class_##M##_##S){ classic<M,D,Q,S>(NO_FORCING,false,false); } VC_HARNESS(classinit_##M##_##S){ classic<M,D,Q,S>(NO_FORCING,true,false); }
#define RL(M,D,Q,S) CL(M,D,Q,S) VC_HARNESS(relax_##M##_##S){ classic<M,D,Q,S>(NO_FORCING,false,true); } VC_HARNESS(relaxinit_##M##_##S){ classic<M,D,Q,S>(NO_FORCING,true,true); }
#define FO1(T,M,D,Q,S) VC_HARNESS(cforce_##T##_##M##_##S){ classic<M,D,Q,S>(T,false,false); }
#define FO(M,D,Q,S) FO1(SHIFTING_VELOCITY,M,D,Q,S) FO1(EXACT_DIFFERENCE,M,D,Q,S) FO1(GUO,M,D,Q,S)
RL(BGKStandard,2,9,D2Q9) RL(BGKStandard,3,15,D3Q15) RL(BGKStandard,3,19,D3Q19) RL(BGKStandard,3,21,D3Q21) RL(BGKStandard,3,27,D3Q27)
RL(BGKStandardTransformed,2,9,D2Q9) RL(BGKStandardTransformed,3,19,D3Q19) RL(BGKSteadyState,2,9,D2Q9) RL(BGKSteadyState,3,19,D3Q19)
CL(BGKRegularized,2,9,D2Q9) CL(BGKRegularized,3,19,D3Q19) CL(MRTStandard,2,9,D2Q9) CL(BGKIncompressible,2,9,D2Q9)
CL(MRTEntropic,2,9,D2Q9) CL(MRTEntropic,3,19,D3Q19) EQ(KBCCentral,2,9,D2Q9)
FO(BGKStandard,2,9,D2Q9) FO(BGKStandard,3,19,D3Q19)
