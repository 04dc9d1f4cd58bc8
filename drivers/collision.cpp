#include "common.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/collision_advanced/AuxiliaryMRTFunctions.cpp"
#include "natrium/solver/DistributionFunctions.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D2Q19H.cpp"
#include "natrium/stencils/D2Q19V.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D3Q13.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "natrium/stencils/D3Q21.cpp"
#include "natrium/stencils/D3Q27.cpp"
#include "natrium/stencils/D3V27.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "natrium/stencils/D3Q77.cpp"
#include "modular.h"
using namespace vcf;
// large stencils: density and velocity keep a name, the equilibrium function is replaced by its contract (proved by eqmom_*)
template<int D, int Q> void modular(EquilibriumSchemeName e, bool eq=true){ if(Q<45||!vc_is_symbolic()) return; ModEq<D,Q>::energy=false; vc_override_at("natrium::calculateDensity<","collideAll",(void*)named_density<Q>); vc_override_at("natrium::calculateVelocity<","collideAll",(void*)named_velocity<D,Q>);
	if(eq) vc_override(e==QUARTIC_EQUILIBRIUM?"^natrium::QuarticEquilibrium<&&>::calc(":"^natrium::BGKEquilibrium<&&>::calc(",(void*)ModEq<D,Q>::calc); }


// ---- inputs of one incompressible collision step over an unbounded number of nodes
template<int D, int Q> struct In {
	double s, nu, dt; long len; double* f[Q]; double* rho; double* u[D]; double F[D];
	DistributionFunctions* df; distributed_vector* rv; std::vector<distributed_vector>* uv; ProblemDescription<D>* pd;
	In(double s_, bool force): s(s_) {
		nu=vc_real("nu",1e-6,10); dt=vc_real("dt",1e-6,10); len=vc_len("nodes");
		df=newDF("f",Q,len,f); rho=vc_array("rho",len); rv=newvec(rho,len);
		uv=(std::vector<distributed_vector>*)malloc(sizeof(std::vector<distributed_vector>)); mkvels(*uv,"u",D,len,u);
		if(force) for(int i=0;i<D;i++) F[i]=i==0?vc_real("F",0.001,1):vc_real("F",-1,1);
		pd=problem<D>(force,F);
	}
};
static void configure(int Q, StencilType st, CollisionSchemeName c, EquilibriumSchemeName e, ForceType force){
	vcf::cfg.stencil=st; vcf::cfg.coll=c; vcf::cfg.eq=e; vcf::cfg.force=force; vcf::cfg.gammaSS=1;
	if(c==MRT_STANDARD){
		if(Q==9){ int b=vc_choose("basis",3); vcf::cfg.basis=b==2?LALLEMAND_D2Q9:DELLAR_D2Q9; vcf::cfg.relax=b==1?DELLAR_RELAX_ONLY_N:RELAX_FULL; } // ONLY_N requires the Dellar basis
		else { vcf::cfg.basis=DHUMIERES_D3Q19; vcf::cfg.relax=vc_choose("relax",2)?RELAX_DHUMIERES_PAPER:RELAX_FULL; } }
}
enum Outcome { DONE, REJECTED, DENSITY_ZERO, NOT_IMPLEMENTED };
template<int D, int Q> Outcome step(In<D,Q>& in, Stencil& stencil, bool init){
	dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet));
	try { selectCollision<D>(*vcf::configuration(),*in.pd,*in.df,*in.rv,*in.uv,*is,in.nu,in.dt,stencil,init); }
	catch(DensityZeroException&){ return DENSITY_ZERO; } catch(CollisionException&){ return REJECTED; } catch(NATriuMException&){ return NOT_IMPLEMENTED; }
	return DONE;
}
// 0: no node to look at; 1: node vc_loop_index() was collided
template<int D, int Q> bool collided(Outcome o, In<D,Q>& in, bool refusal_is_fine=false){
	if(in.len==0){ vc_check("empty-part-accepted",o==DONE); return false; }
	if(o==NOT_IMPLEMENTED){ if(!refusal_is_fine) vc_fail("combination-supported"); return false; }
	if(o==DENSITY_ZERO) return false;      // after the loop; state of the last node unknown
	long k=vc_loop_index(); double m=0; for(int i=0;i<Q;i++) m+=vc_old(in.f[i],k);
	if(o==REJECTED&&!vc_is_symbolic()){ bool any=false; for(long q=0;q<in.len;q++){ double x=0; for(int i=0;i<Q;i++) x+=vc_old(in.f[i],q); if(x<=1e-10) any=true; } vc_check("rejects-only-vanishing-density",any); return false; }
	if(o==REJECTED){ vc_reach("rejected"); vc_check("rejects-only-vanishing-density",m<=1e-10); return false; }
	vc_check("vanishing-density-rejected",m>=1e-10*(1-1e-9)); vc_reach("node"); return true;
}
template<int D, int Q, class S> void conserve(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e, bool init){
	install(); modular<D,Q>(e); configure(Q,st,c,e,NO_FORCING); double s=vc_real("scaling",0.1,100); S stencil(s); In<D,Q> in(s,false);
	if(!collided(step(in,stencil,init),in)) return; long k=vc_loop_index();
	double m0=0,m1=0,p0[D],p1[D]; for(int j=0;j<D;j++) p0[j]=p1[j]=0;
	for(int i=0;i<Q;i++){ double a=vc_old(in.f[i],k), b=in.f[i][k]; m0+=a; m1+=b; for(int j=0;j<D;j++){ double ej=stencil.getDirection(i)(j); p0[j]+=ej*a; p1[j]+=ej*b; } }
	vc_check_eq("mass",m0,m1); vc_check_eq("density-output",in.rho[k],m0);
	for(int j=0;j<D;j++) if(init) vc_check_eq("velocity-untouched",in.u[j][k],vc_old(in.u[j],k)); else { vc_check_eq("momentum",p0[j],p1[j]); vc_check_eq("velocity-output",in.u[j][k]*m0,p0[j]); }
}
// ---- external force: the force adds exactly dt*F to the momentum, nothing to the mass
template<int D, int Q, class S> void forced(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e, ForceType ft, bool init){
	install(); modular<D,Q>(e); configure(Q,st,c,e,ft); double s=vc_real("scaling",0.1,100); S stencil(s); In<D,Q> in(s,true);
	if(!collided(step(in,stencil,init),in)) return; long k=vc_loop_index();
	double m0=0,m1=0,p0[D],p1[D]; for(int j=0;j<D;j++) p0[j]=p1[j]=0;
	for(int i=0;i<Q;i++){ double a=vc_old(in.f[i],k), b=in.f[i][k]; m0+=a; m1+=b; for(int j=0;j<D;j++){ double ej=stencil.getDirection(i)(j); p0[j]+=ej*a; p1[j]+=ej*b; } }
	vc_check_eq("force-mass",m0,m1);
	for(int j=0;j<D;j++) if(init) vc_check_eq("force-prescribed-velocity",in.u[j][k],vc_old(in.u[j],k));
		else { vc_check_eq("force-momentum",p1[j],p0[j]+in.dt*in.F[j]); vc_check_eq("force-velocity-output",in.u[j][k]*m0,p0[j]+0.5*in.dt*in.F[j]); }
}
template<int D, int Q, class S> void force_refused(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e){
	install(); configure(Q,st,c,e,vc_choose("forcing",2)?GUO:NO_FORCING); double s=vc_real("scaling",0.1,100); S stencil(s); In<D,Q> in(s,true);
	Outcome o=step(in,stencil,false); if(in.len>0){ vc_reach("refused"); vc_check("unsupported-forcing-refused",o!=DONE); }
}
// ---- deviatoric stress relaxes with 1-1/tau, tau = nu/(dt cs^2)+1/2, around rho u u.
// Stencils that cannot represent the quartic equilibrium alias its normal stresses at fourth order in u;
// there (own) the stress of the equilibrium function itself is the reference.
template<int D, int Q, class S, template<int,int> class EQ> void stress(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e){
	const bool own=Q<=27&&e==QUARTIC_EQUILIBRIUM&&Q!=19&&Q!=25;
	install(); configure(Q,st,c,e,NO_FORCING); double s=vc_real("scaling",0.1,100); S stencil(s); In<D,Q> in(s,false);
	if(!collided(step(in,stencil,false),in)) return; long k=vc_loop_index();
	double m=0,p[D],P0[D][D],P1[D][D],R[D][D]; for(int a=0;a<D;a++){ p[a]=0; for(int b=0;b<D;b++) P0[a][b]=P1[a][b]=R[a][b]=0; }
	for(int i=0;i<Q;i++){ double x=vc_old(in.f[i],k), y=in.f[i][k]; m+=x; for(int a=0;a<D;a++){ double ea=stencil.getDirection(i)(a); p[a]+=ea*x; for(int b=0;b<=a;b++){ double eb=stencil.getDirection(i)(b); P0[a][b]+=ea*eb*x; P1[a][b]+=ea*eb*y; } } }
	if(own){ GeneralCollisionData<D,Q> gd(*vcf::configuration(),*in.pd,s,in.nu,stencil,stencil.getSpeedOfSoundSquare(),in.dt); gd.density=m; gd.temperature=1; for(int j=0;j<D;j++) gd.velocity[j]=p[j]/m/s;
		std::array<double,Q> feq; EQ<D,Q> eq(gd.cs2,gd.e); eq.calc(feq,gd); for(int i=0;i<Q;i++) for(int a=0;a<D;a++) for(int b=0;b<=a;b++) R[a][b]+=stencil.getDirection(i)(a)*stencil.getDirection(i)(b)*feq[i]*m; }
	else for(int a=0;a<D;a++) for(int b=0;b<=a;b++) R[a][b]=p[a]*p[b];
	double cs2=stencil.getSpeedOfSoundSquare(); double tau=in.nu/(in.dt*cs2)+0.5;
	for(int a=0;a<D;a++) for(int b=0;b<a;b++) vc_check_eq("shear-stress",tau*(P1[a][b]*m-R[a][b]),(tau-1)*(P0[a][b]*m-R[a][b]));
	for(int a=1;a<D;a++) vc_check_eq("normal-stress",tau*((P1[a][a]-P1[0][0])*m-R[a][a]+R[0][0]),(tau-1)*((P0[a][a]-P0[0][0])*m-R[a][a]+R[0][0]));
}
// ---- a node in equilibrium is left unchanged
// (modular form for large stencils: the equilibrium function is replaced by its contract "called with the
// node's own moments it returns f"; that these moments are reproduced is the contract of the function itself)
template<int D, int Q> struct EqContract { static double *f, rho, u[D]; static int calls;
	static void calc(void*, std::array<double,Q>& feq, const GeneralCollisionData<D,Q>& p){ calls++; vc_check_eq("contract-equilibrium-called-with-density",p.density,rho); for(int j=0;j<D;j++) vc_check_eq("contract-equilibrium-called-with-velocity",p.velocity[j]*rho,u[j]*rho); for(int i=0;i<Q;i++) feq[i]=f[i]; } };
template<int D, int Q> double* EqContract<D,Q>::f; template<int D, int Q> double EqContract<D,Q>::rho; template<int D, int Q> double EqContract<D,Q>::u[D]; template<int D, int Q> int EqContract<D,Q>::calls;
template<int D, int Q, class S, template<int,int> class EQ> void fixpoint(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e, const char* eqname){
	install(); configure(Q,st,c,e,NO_FORCING); double s=vc_real("scaling",0.1,100); S stencil(s);
	bool modular=c==BGK_STANDARD&&(Q==19||Q==25||Q>=45||st==Stencil_D3V27)&&vc_is_symbolic();
	double nu=vc_real("nu",1e-6,10), dt=vc_real("dt",1e-6,10), rho=modular?0:vc_real("rho",0.01,100), u[D]; for(int j=0;j<D;j++) u[j]=modular?0:vc_real(nm("u",j),-1,1);
	double nof[D]; ProblemDescription<D>* pd=problem<D>(false,nof);
	std::array<double,Q> feq; 
	if(modular){ for(int i=0;i<Q;i++){ feq[i]=vc_real(nm("feq",i),-10,10); rho+=feq[i]; for(int j=0;j<D;j++) u[j]+=feq[i]*stencil.getDirection(i)(j)/s; } vc_assume(rho>=0.01); for(int j=0;j<D;j++) u[j]/=rho;
		EqContract<D,Q>::f=&feq[0]; EqContract<D,Q>::rho=rho; EqContract<D,Q>::calls=0; for(int j=0;j<D;j++) EqContract<D,Q>::u[j]=u[j]; }
	else { GeneralCollisionData<D,Q> gd(*vcf::configuration(),*pd,s,nu,stencil,stencil.getSpeedOfSoundSquare(),dt);
	gd.density=rho; gd.temperature=1; for(int j=0;j<D;j++) gd.velocity[j]=u[j]; EQ<D,Q> eq(gd.cs2,gd.e); eq.calc(feq,gd); }
	double* f[Q]; DistributionFunctions* df=newDFn("f",Q,1,f); for(int i=0;i<Q;i++) f[i][0]=feq[i];
	double dens[1]={0}, vel[D][1]; distributed_vector* rv=newvec(dens,1); std::vector<distributed_vector>* uv=(std::vector<distributed_vector>*)malloc(sizeof(std::vector<distributed_vector>)); mkvecvec(*uv,D); for(int j=0;j<D;j++){ vel[j][0]=0; mkvec(&(*uv)[j],vel[j],1); }
	dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet));
	if(modular) vc_override(eqname,(void*)EqContract<D,Q>::calc);
	selectCollision<D>(*vcf::configuration(),*pd,*df,*rv,*uv,*is,nu,dt,stencil,false);
	if(modular&&EqContract<D,Q>::calls==0) vc_unsupported("the equilibrium function is not called");
	vc_reach("node"); vc_check_eq("equilibrium-density",dens[0],rho); for(int j=0;j<D;j++) vc_check_eq("equilibrium-velocity",vel[j][0]*rho,u[j]*s*rho);
	for(int i=0;i<Q;i++) vc_check_eq("equilibrium-unchanged",f[i][0],feq[i]);
}
// ---- lattice isotropy: colliding a mirrored / rotated node gives the mirrored / rotated result
template<int D, int Q> struct Node { double* f[Q]; double rho[1], vel[D][1]; DistributionFunctions* df; distributed_vector* rv; std::vector<distributed_vector>* uv;
	Node(int n){ df=(DistributionFunctions*)malloc(sizeof(DistributionFunctions)); df->m_Q=Q; df->m_dg=true; mkblock(&df->m_fStream,Q-1);
		for(int i=0;i<Q;i++){ f[i]=(double*)malloc(sizeof(double)); mkvec(i==0?(void*)&df->m_f0:(void*)(((FakeBlock*)&df->m_fStream)->b+(i-1)),f[i],1); }
		rho[0]=0; rv=newvec(rho,1); uv=(std::vector<distributed_vector>*)malloc(sizeof(std::vector<distributed_vector>)); mkvecvec(*uv,D); for(int j=0;j<D;j++){ vel[j][0]=0; mkvec(&(*uv)[j],vel[j],1); } } };
template<int D, int Q, class S> bool symmetry(int op, int* to, int* perm, int* sign){ // op: mirror axis, swap two axes, cycle
	for(int j=0;j<D;j++){ perm[j]=j; sign[j]=1; }
	if(op<D) sign[op]=-1; else if(op==D){ perm[0]=1; perm[1]=0; } else if(D==3&&op==D+1){ perm[1]=2; perm[2]=1; } else if(D==3&&op==D+2){ perm[0]=1; perm[1]=2; perm[2]=0; } else return false;
	S st(1.0); for(int i=0;i<Q;i++){ to[i]=-1; for(int k=0;k<Q&&to[i]<0;k++){ bool eq=true; for(int j=0;j<D;j++){ double d=st.getDirection(k)(j)-sign[j]*st.getDirection(i)(perm[j]); if(d>1e-9||d<-1e-9) eq=false; } if(eq) to[i]=k; } if(to[i]<0) return false; }
	return true; }
template<int D, int Q, class S> void isotropy(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e){
	install(); configure(Q,st,c,e,NO_FORCING); double s=vc_real("scaling",0.1,100); S stencil(s); double nu=vc_real("nu",1e-6,10), dt=vc_real("dt",1e-6,10), nof[D]; ProblemDescription<D>* pd=problem<D>(false,nof);
	int to[Q], perm[D], sign[D]; int op=vc_choose("symmetry",D==3?6:3); if(!symmetry<D,Q,S>(op,to,perm,sign)) return; vc_reach("symmetry");
	Node<D,Q> a(1), b(1); for(int i=0;i<Q;i++){ a.f[i][0]=vc_real(nm("f",i),-10,10); b.f[to[i]][0]=a.f[i][0]; }
	dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); int thrown=0;
	try { selectCollision<D>(*vcf::configuration(),*pd,*a.df,*a.rv,*a.uv,*is,nu,dt,stencil,false); selectCollision<D>(*vcf::configuration(),*pd,*b.df,*b.rv,*b.uv,*is,nu,dt,stencil,false); } catch(NATriuMException&){ thrown=1; }
	if(thrown) return; vc_reach("node");
	for(int i=0;i<Q;i++) vc_check_eq("isotropic",b.f[to[i]][0],a.f[i][0]);
	for(int j=0;j<D;j++) vc_check_eq("isotropic",b.vel[j][0],sign[j]*a.vel[perm[j]][0]);
}
// ---- locality: the result at a node is that of the node alone, whatever its neighbours in the vector hold
template<int D, int Q, class S> void locality(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e){
	install(); configure(Q,st,c,e,vc_choose("force",2)?EXACT_DIFFERENCE:NO_FORCING); bool force=vcf::cfg.force!=NO_FORCING; double s=vc_real("scaling",0.1,100); S stencil(s); In<D,Q> in(s,force);
	Outcome o=step(in,stencil,false); if(in.len==0||o!=DONE) return; long k=vc_loop_index();
	Node<D,Q> a(1); for(int i=0;i<Q;i++) a.f[i][0]=vc_old(in.f[i],k);
	dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); bool thrown=false;
	try { selectCollision<D>(*vcf::configuration(),*in.pd,*a.df,*a.rv,*a.uv,*is,in.nu,in.dt,stencil,false); } catch(NATriuMException&){ thrown=true; }
	if(thrown) return; // a single node may be refused after the loop only
	vc_reach("node"); for(int i=0;i<Q;i++) vc_check_eq("local",in.f[i][k],a.f[i][0]);
	vc_check_eq("local",in.rho[k],a.rho[0]); for(int j=0;j<D;j++) vc_check_eq("local",in.u[j][k],a.vel[j][0]);
}
#define SCHEME_BGK_STANDARD BGKCollision
#define SCHEME_BGK_REGULARIZED Regularized
#define SCHEME_MRT_STANDARD MultipleRelaxationTime
#define ALL(X) \
X(d2q9_bgk,2,9,D2Q9,Stencil_D2Q9,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d2q9_quartic,2,9,D2Q9,Stencil_D2Q9,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d2q9_reg,2,9,D2Q9,Stencil_D2Q9,BGK_REGULARIZED,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d2q9_mrt,2,9,D2Q9,Stencil_D2Q9,MRT_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d2q25h,2,25,D2Q25H,Stencil_D2Q25H,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d2q19h,2,19,D2Q19H,Stencil_D2Q19H,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d2q19v,2,19,D2Q19V,Stencil_D2Q19V,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d3q13,3,13,D3Q13,Stencil_D3Q13,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q15,3,15,D3Q15,Stencil_D3Q15,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q15_reg,3,15,D3Q15,Stencil_D3Q15,BGK_REGULARIZED,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q19,3,19,D3Q19,Stencil_D3Q19,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q19_reg,3,19,D3Q19,Stencil_D3Q19,BGK_REGULARIZED,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q19_mrt,3,19,D3Q19,Stencil_D3Q19,MRT_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q21,3,21,D3Q21,Stencil_D3Q21,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q27,3,27,D3Q27,Stencil_D3Q27,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q27_quartic,3,27,D3Q27,Stencil_D3Q27,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d3v27,3,27,D3V27,Stencil_D3V27,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3v27_quartic,3,27,D3V27,Stencil_D3V27,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d3q27_reg,3,27,D3Q27,Stencil_D3Q27,BGK_REGULARIZED,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q45,3,45,D3Q45,Stencil_D3Q45,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q45_quartic,3,45,D3Q45,Stencil_D3Q45,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d3q77,3,77,D3Q77,Stencil_D3Q77,BGK_STANDARD,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d3q77_quartic,3,77,D3Q77,Stencil_D3Q77,BGK_STANDARD,QUARTIC_EQUILIBRIUM,QuarticEquilibrium)
#define CONS(N,D,Q,S,ST,C,E,EQ) VC_HARNESS(cons_##N){ conserve<D,Q,S>(ST,C,E,false); } \
 VC_HARNESS(init_##N){ conserve<D,Q,S>(ST,C,E,true); } \
 VC_HARNESS(shift_##N){ forced<D,Q,S>(ST,C,E,SHIFTING_VELOCITY,false); } \
 VC_HARNESS(edm_##N){ forced<D,Q,S>(ST,C,E,EXACT_DIFFERENCE,false); } \
 VC_HARNESS(shiftinit_##N){ forced<D,Q,S>(ST,C,E,SHIFTING_VELOCITY,true); } \
 VC_HARNESS(edminit_##N){ forced<D,Q,S>(ST,C,E,EXACT_DIFFERENCE,true); } \
 VC_HARNESS(refuse_##N){ force_refused<D,Q,S>(ST,C,E); } \
 VC_HARNESS(stress_##N){ stress<D,Q,S,EQ>(ST,C,E); } \
 VC_HARNESS(iso_##N){ isotropy<D,Q,S>(ST,C,E); } \
 VC_HARNESS(local_##N){ locality<D,Q,S>(ST,C,E); } \
 VC_HARNESS(once_##N){ once<D,Q,S,EQ,SCHEME_##C>(ST,C,E); } \
 VC_HARNESS(fix_##N){ fixpoint<D,Q,S,EQ>(ST,C,E,"^natrium::" #EQ "<&&>::calc("); }
// ---- dispatch: a configuration runs exactly the configured scheme and equilibrium once, or is refused
static int g_calls; static bool g_scheme[3], g_equi[5];
static void count_collide(){ g_calls++; g_scheme[0]=vc_callee_has("natrium::BGKCollision"); g_scheme[1]=vc_callee_has("natrium::Regularized"); g_scheme[2]=vc_callee_has("natrium::MultipleRelaxationTime");
	g_equi[BGK_EQUILIBRIUM]=vc_callee_has("natrium::BGKEquilibrium"); g_equi[QUARTIC_EQUILIBRIUM]=vc_callee_has("natrium::QuarticEquilibrium"); g_equi[INCOMPRESSIBLE_EQUILIBRIUM]=vc_callee_has("natrium::IncompressibleEquilibrium"); g_equi[STEADYSTATE_EQUILIBRIUM]=vc_callee_has("natrium::SteadyStateEquilibrium"); g_equi[ENTROPIC_EQUILIBRIUM]=vc_callee_has("natrium::EntropicEquilibrium"); }
template<int D, int Q, class S> void dispatch(StencilType st, bool bgk, bool quartic, bool reg, bool mrt){
	install(); vc_override("::collideAll(",(void*)count_collide);
	int c=vc_choose("scheme",13), e=vc_choose("equilibrium",5); configure(Q,st,(CollisionSchemeName)c,(EquilibriumSchemeName)e,NO_FORCING); S stencil(1.0); double nof[D]; ProblemDescription<D>* pd=problem<D>(false,nof);
	Node<D,Q> a(1); dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); g_calls=0; bool refused=false;
	try { selectCollision<D>(*vcf::configuration(),*pd,*a.df,*a.rv,*a.uv,*is,0.1,0.1,stencil,false); } catch(CollisionException&){ refused=true; }
	bool want=(c==BGK_STANDARD&&((e==BGK_EQUILIBRIUM&&bgk)||(e==QUARTIC_EQUILIBRIUM&&quartic)))||(c==BGK_REGULARIZED&&e==BGK_EQUILIBRIUM&&reg)||(c==MRT_STANDARD&&e==BGK_EQUILIBRIUM&&mrt);
	if(want) vc_check("supported-configuration-runs",!refused);
	if(refused) { vc_check("refused-configuration-does-not-collide",g_calls==0); vc_reach("refused"); return; }
	vc_reach("dispatched"); if(want) return; // what a supported configuration does is decided by the once_* contracts
	vc_check("unsupported-configuration-refused",g_calls==1&&g_equi[e]&&((c==BGK_STANDARD&&g_scheme[0])||(c==BGK_REGULARIZED&&g_scheme[1])||(c==MRT_STANDARD&&g_scheme[2])));
}
// a supported configuration applies the configured scheme with the configured equilibrium exactly once
template<int D, int Q, class S, template<int,int> class EQ, template<int,int,template<int,int> class> class CS> void once(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e){
	install(); configure(Q,st,c,e,NO_FORCING); double s=vc_real("scaling",0.1,100); S stencil(s); double nu=vc_real("nu",1e-6,10), dt=vc_real("dt",1e-6,10), nof[D]; ProblemDescription<D>* pd=problem<D>(false,nof);
	Node<D,Q> a(1); std::array<double,Q> fl; double rho=0,u[D]; for(int j=0;j<D;j++) u[j]=0;
	for(int i=0;i<Q;i++){ fl[i]=vc_real(nm("f",i),-10,10); a.f[i][0]=fl[i]; rho+=fl[i]; for(int j=0;j<D;j++) u[j]+=stencil.getDirection(i)(j)/s*fl[i]; }
	dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); bool thrown=false;
	try { selectCollision<D>(*vcf::configuration(),*pd,*a.df,*a.rv,*a.uv,*is,nu,dt,stencil,false); } catch(NATriuMException&){ thrown=true; }
	if(thrown){ vc_check("supported-configuration-runs",rho<=1e-10*(1+1e-9)); return; }
	GeneralCollisionData<D,Q> gd(*vcf::configuration(),*pd,s,nu,stencil,stencil.getSpeedOfSoundSquare(),dt); gd.density=rho; gd.temperature=1; for(int j=0;j<D;j++) gd.velocity[j]=u[j]/rho; gd.fLocal=fl;
	gd.H3=calculateH3<D,Q>(gd.cs2,gd.e); gd.H4=calculateH4<D,Q>(gd.cs2,gd.e);
	typename CS<D,Q,EQ>::SpecificCollisionData sd(gd); CS<D,Q,EQ> scheme; scheme.relax(fl,gd,sd);
	vc_reach("node"); for(int i=0;i<Q;i++) vc_check_eq("configured-collision-once",a.f[i][0],fl[i]);
}
#define DISP(D,Q,S,b,q,r,m) VC_HARNESS(dispatch_##S){ dispatch<D,Q,S>(Stencil_##S,b,q,r,m); }
DISP(2,9,D2Q9,1,1,1,1) DISP(2,19,D2Q19H,0,1,0,0) DISP(2,19,D2Q19V,0,1,0,0) DISP(2,25,D2Q25H,0,1,0,0)
DISP(3,13,D3Q13,1,0,0,0) DISP(3,15,D3Q15,1,0,1,0) DISP(3,19,D3Q19,1,0,1,1) DISP(3,21,D3Q21,1,0,0,0) DISP(3,27,D3Q27,1,1,1,0) DISP(3,27,D3V27,1,1,0,0) DISP(3,45,D3Q45,1,1,0,0) DISP(3,77,D3Q77,1,1,0,0)
ALL(CONS)
