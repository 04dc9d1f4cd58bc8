#include "common.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/collision_advanced/AuxiliaryMRTFunctions.cpp"
#include "natrium/solver/DistributionFunctions.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D2Q19H.cpp"
#include "natrium/stencils/D2Q19V.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "natrium/stencils/D3Q77.cpp"
#include "modular.h"
using namespace vcf;
enum Outcome { DONE, REJECTED, DENSITY_ZERO, NOT_IMPLEMENTED };
// ---- inputs of one compressible collision step over an unbounded number of nodes
template<int D, int Q> struct In {
	double s, nu, dt; long len; double *f[Q], *g[Q], *rho, *u[D], *T, *mask, F[D];
	DistributionFunctions *df, *dg; distributed_vector *rv, *tv, *mv; std::vector<distributed_vector>* uv; ProblemDescription<D>* pd;
	In(double s_, bool force): s(s_) {
		nu=vc_real("nu",1e-6,10); dt=vc_real("dt",1e-6,10); len=vc_len("nodes");
		df=newDF("f",Q,len,f); dg=newDF("g",Q,len,g); rho=vc_array("rho",len); rv=newvec(rho,len); T=vc_array("T",len); tv=newvec(T,len); mask=vc_array("mask",len); mv=newvec(mask,len);
		uv=(std::vector<distributed_vector>*)malloc(sizeof(std::vector<distributed_vector>)); mkvels(*uv,"u",D,len,u);
		if(force) for(int i=0;i<D;i++) F[i]=i==0?vc_real("F",0.001,1):vc_real("F",-1,1);
		pd=problem<D>(force,F);
	}
};
static void configure(StencilType st, CollisionSchemeName c, EquilibriumSchemeName e, ForceType force, bool prandtl, bool sutherland){
	vcf::cfg.stencil=st; vcf::cfg.coll=c; vcf::cfg.eq=e; vcf::cfg.force=force; vcf::cfg.gammaSS=1;
	vcf::cfg.gamma=vc_real("gamma",1.05,3); vcf::cfg.prandtlSet=prandtl; vcf::cfg.prandtl=prandtl?vc_real("Prandtl",0.1,10):1.0; vcf::cfg.sutherland=sutherland;
}
template<int D, int Q> Outcome step(In<D,Q>& in, Stencil& stencil, bool init){
	dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet));
	try { selectCollision<D>(*vcf::configuration(),*in.pd,*in.df,*in.dg,*in.rv,*in.uv,*in.tv,*in.mv,*is,in.nu,in.dt,stencil,init); }
	catch(DensityZeroException&){ return DENSITY_ZERO; } catch(CollisionException&){ return REJECTED; } catch(NATriuMException&){ return NOT_IMPLEMENTED; }
	return DONE;
}
template<int D, int Q> bool collided(Outcome o, In<D,Q>& in){
	if(in.len==0){ vc_check("empty-part-accepted",o==DONE); return false; }
	if(o==NOT_IMPLEMENTED){ vc_fail("combination-supported"); return false; }
	if(o==DENSITY_ZERO) return false;
	long k=vc_loop_index(); double m=0; for(int i=0;i<Q;i++) m+=vc_old(in.f[i],k);
	if(o==REJECTED&&!vc_is_symbolic()){ bool any=false; for(long q=0;q<in.len;q++){ double x=0; for(int i=0;i<Q;i++) x+=vc_old(in.f[i],q); if(x<=1e-10) any=true; } vc_check("rejects-only-vanishing-density",any); return false; }
	if(o==REJECTED){ vc_reach("rejected"); vc_check("rejects-only-vanishing-density",m<=1e-10); return false; }
	vc_check("vanishing-density-rejected",m>=1e-10*(1-1e-9)); vc_reach("node"); return true;
}
// ---- mass, momentum and total energy E = sum(|e|^2/cs^2 f + g) are collision invariants; temperature output
template<int D, int Q, class S> void conserve(StencilType st, EquilibriumSchemeName e, const char* eqname, bool init, bool prandtl, bool sutherland){
	install(); vc_override("calculateKnudsenNumberEstimate<",(void*)any_knudsen); ModEq<D,Q>::energy=e==QUARTIC_EQUILIBRIUM; if(vc_is_symbolic()) { vc_override_at("natrium::calculateDensity<","collideAll",(void*)named_density<Q>); vc_override_at("natrium::calculateTemperature<","collideAll",(void*)named_temperature<D,Q>); vc_override(eqname,(void*)ModEq<D,Q>::calc); vc_override("calculateCenteredHeatFluxTensor<",(void*)ModFlux<D,Q>::tensor); vc_override("calculateCenteredMomentumFlux<",(void*)ModFlux<D,Q>::vector); } configure(st,BGK_STANDARD,e,NO_FORCING,prandtl,sutherland); double s=vc_real("scaling",0.1,100); S stencil(s); In<D,Q> in(s,false); double cs2=stencil.getSpeedOfSoundSquare();
	if(!collided(step(in,stencil,init),in)) return; long k=vc_loop_index();
	double m0=0,m1=0,p0[D],p1[D],E0=0,E1=0; for(int j=0;j<D;j++) p0[j]=p1[j]=0;
	for(int i=0;i<Q;i++){ double a=vc_old(in.f[i],k), b=in.f[i][k], ee=0; m0+=a; m1+=b; for(int j=0;j<D;j++){ double ej=stencil.getDirection(i)(j); ee+=ej*ej; p0[j]+=ej*a; p1[j]+=ej*b; } E0+=ee/cs2*a+vc_old(in.g[i],k); E1+=ee/cs2*b+in.g[i][k]; }
	vc_check_eq("mass",m0,m1); vc_check_eq("density-output",in.rho[k],m0);
	for(int j=0;j<D;j++) if(init) vc_check_eq("velocity-untouched",in.u[j][k],vc_old(in.u[j],k)); else { vc_check_eq("momentum",p0[j],p1[j]); vc_check_eq("velocity-output",in.u[j][k]*m0,p0[j]); }
	if(!init&&e==QUARTIC_EQUILIBRIUM) vc_check_eq("energy",E0,E1);
	double pp=0; for(int j=0;j<D;j++) pp+=p0[j]*p0[j]; // 2 Cv rho T = E - rho u^2/cs^2
	vc_check_eq("temperature-output",2/(vcf::cfg.gamma-1)*m0*m0*in.T[k],E0*m0-pp/cs2);
}
#define ALL(X) \
X(d2q25h,2,25,D2Q25H,Stencil_D2Q25H,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d2q25h_bgk,2,25,D2Q25H,Stencil_D2Q25H,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d2q19h,2,19,D2Q19H,Stencil_D2Q19H,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d2q19h_bgk,2,19,D2Q19H,Stencil_D2Q19H,BGK_EQUILIBRIUM,BGKEquilibrium) \
X(d2q19v,2,19,D2Q19V,Stencil_D2Q19V,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d3q45,3,45,D3Q45,Stencil_D3Q45,QUARTIC_EQUILIBRIUM,QuarticEquilibrium) \
X(d3q77,3,77,D3Q77,Stencil_D3Q77,QUARTIC_EQUILIBRIUM,QuarticEquilibrium)
#define CONS(N,D,Q,S,ST,E,EQ) VC_HARNESS(ccons_##N){ conserve<D,Q,S>(ST,E,"^natrium::" #EQ "<&&>::calc(",false,false,false); } \
 VC_HARNESS(ccons_pr_##N){ conserve<D,Q,S>(ST,E,"^natrium::" #EQ "<&&>::calc(",false,true,true); } \
 VC_HARNESS(cinit_##N){ conserve<D,Q,S>(ST,E,"^natrium::" #EQ "<&&>::calc(",true,false,false); }
ALL(CONS)
// ---- relaxation rates: second moments of f relax with visc_tau, the heat flux sum (e-u)(|e-u|^2/cs^2 f + g) with prandtl_tau
template<int D, int Q, class S> void rates(StencilType st, EquilibriumSchemeName e, bool prandtl, bool sutherland){
	install(); vc_override("calculateKnudsenNumberEstimate<",(void*)any_knudsen);
	if(vc_is_symbolic()) { vc_override_at("natrium::calculateDensity<","collideAll",(void*)named_density<Q>); vc_override_at("natrium::calculateVelocity<","collideAll",(void*)named_velocity<D,Q>); vc_override_at("natrium::calculateTemperature<","collideAll",(void*)named_temperature<D,Q>); }
	configure(st,BGK_STANDARD,e,NO_FORCING,prandtl,sutherland); double s=vc_real("scaling",0.1,100); S stencil(s), r(1.0); In<D,Q> in(s,false); double cs2=r.getSpeedOfSoundSquare();
	if(!collided(step(in,stencil,false),in)) return; long k=vc_loop_index(); bool full=e==QUARTIC_EQUILIBRIUM;
	double rho=in.rho[k], T=in.T[k], u[D]; for(int j=0;j<D;j++) u[j]=in.u[j][k]/s;
	double nu=in.nu/(in.dt*cs2*s*s)*(sutherland?pow(T/0.85,0.7):1.0)/(T*rho), tau=nu+0.5, ptau=nu/vcf::cfg.prandtl+0.5;
	double P0[D][D],P1[D][D],q0[D],q1[D]; for(int a=0;a<D;a++){ q0[a]=q1[a]=0; for(int b=0;b<D;b++) P0[a][b]=P1[a][b]=0; }
	for(int i=0;i<Q;i++){ double f0=vc_old(in.f[i],k), f1=in.f[i][k], g0=vc_old(in.g[i],k), g1=in.g[i][k], c[D], cc=0; for(int a=0;a<D;a++){ double x=r.getDirection(i)(a); c[a]=x-u[a]; cc+=c[a]*c[a]; for(int b=0;b<=a;b++){ double y=r.getDirection(i)(b); P0[a][b]+=x*y*f0; P1[a][b]+=x*y*f1; } }
		for(int a=0;a<D;a++){ q0[a]+=c[a]*(cc/cs2*f0+g0); q1[a]+=c[a]*(cc/cs2*f1+g1); } }
	for(int a=0;a<D;a++) for(int b=0;b<a;b++) vc_check_eq("compressible-shear-stress",tau*(P1[a][b]-rho*u[a]*u[b]),(tau-1)*(P0[a][b]-rho*u[a]*u[b]));
	for(int a=1;a<D;a++){ double eq=rho*(u[a]*u[a]-u[0]*u[0]); vc_check_eq("compressible-normal-stress",tau*(P1[a][a]-P1[0][0]-eq),(tau-1)*(P0[a][a]-P0[0][0]-eq)); }
	if(full){ double eq=rho*(u[0]*u[0]+cs2*T); vc_check_eq("compressible-normal-stress",tau*(P1[0][0]-eq),(tau-1)*(P0[0][0]-eq)); if(!vc_is_symbolic()) for(int a=0;a<D;a++) vc_check_eq("heat-flux",ptau*q1[a],(ptau-1)*q0[a]); }
}
#define RATE(N,D,Q,S,ST,E,EQ) VC_HARNESS(crate_##N){ rates<D,Q,S>(ST,E,false,false); } VC_HARNESS(crate_pr_##N){ rates<D,Q,S>(ST,E,true,false); } VC_HARNESS(crate_su_##N){ rates<D,Q,S>(ST,E,true,true); }
ALL(RATE)
// ---- every distribution value relaxes as f - (f-feq)/visc_tau + (1/visc_tau-1/prandtl_tau) f*, with feq, geq = T(2Cv-D) feq and f*, g* the real functions of the node's moments
template<int D, int Q, template<int,int> class EQ> struct NamedEq { static void calc(EQ<D,Q>* e, std::array<double,Q>& feq, const GeneralCollisionData<D,Q>& p){ e->calc(feq,p); for(int i=0;i<Q;i++) feq[i]=vc_name(feq[i]); } };
template<int D, int Q> struct NamedStar { typedef std::array<std::array<std::array<double,D>,D>,D> T3;
	static void f(std::array<double,Q>& x, const T3& q, const GeneralCollisionData<D,Q>& p){ calculateFStar<D,Q>(x,q,p); for(int i=0;i<Q;i++) x[i]=vc_name(x[i]); }
	static void g(std::array<double,Q>& x, const std::array<double,D>& q, const GeneralCollisionData<D,Q>& p){ calculateGStar<D,Q>(x,q,p); for(int i=0;i<Q;i++) x[i]=vc_name(x[i]); }
	static void t3(const std::array<double,Q>& x, T3& q, const GeneralCollisionData<D,Q>& p){ calculateCenteredHeatFluxTensor<D,Q>(x,q,p); for(int a=0;a<D;a++) for(int b=0;b<D;b++) for(int c=0;c<D;c++) q[a][b][c]=vc_name(q[a][b][c]); }
	static void t1(const std::array<double,Q>& x, std::array<double,D>& q, const GeneralCollisionData<D,Q>& p){ calculateCenteredMomentumFlux<D,Q>(x,q,p); for(int a=0;a<D;a++) q[a]=vc_name(q[a]); } };
template<int D, int Q, class S, template<int,int> class EQ> void relaxes(StencilType st, EquilibriumSchemeName e, const char* eqname, bool prandtl, bool sutherland){
	install(); vc_override("calculateKnudsenNumberEstimate<",(void*)any_knudsen);
	if(vc_is_symbolic()) { vc_override_at("natrium::calculateDensity<","collideAll",(void*)named_density<Q>); vc_override_at("natrium::calculateVelocity<","collideAll",(void*)named_velocity<D,Q>); vc_override_at("natrium::calculateTemperature<","collideAll",(void*)named_temperature<D,Q>);
		vc_override_at(eqname,"relaxWithG",(void*)NamedEq<D,Q,EQ>::calc); vc_override_at("natrium::calculateFStar<","relaxWithG",(void*)NamedStar<D,Q>::f); vc_override_at("natrium::calculateGStar<","relaxWithG",(void*)NamedStar<D,Q>::g); vc_override_at("natrium::calculateCenteredHeatFluxTensor<","relaxWithG",(void*)NamedStar<D,Q>::t3); vc_override_at("natrium::calculateCenteredMomentumFlux<","relaxWithG",(void*)NamedStar<D,Q>::t1); }
	configure(st,BGK_STANDARD,e,NO_FORCING,prandtl,sutherland); double s=vc_real("scaling",0.1,100); S stencil(s), r(1.0); In<D,Q> in(s,false); double cs2=r.getSpeedOfSoundSquare(), Cv=1/(vcf::cfg.gamma-1);
	if(!collided(step(in,stencil,false),in)) return; long k=vc_loop_index();
	GeneralCollisionData<D,Q> gd(*vcf::configuration(),*in.pd,s,in.nu,stencil,stencil.getSpeedOfSoundSquare(),in.dt); gd.H3=calculateH3<D,Q>(gd.cs2,gd.e); gd.H4=calculateH4<D,Q>(gd.cs2,gd.e);
	double rho=in.rho[k], T=in.T[k]; gd.density=rho; gd.temperature=T; for(int j=0;j<D;j++) gd.velocity[j]=in.u[j][k]/s;
	double nu=in.nu/(in.dt*cs2*s*s)*(sutherland?pow(T/0.85,0.7):1.0)/(T*rho), tau=nu+0.5, ptau=nu/vcf::cfg.prandtl+0.5;
	std::array<double,Q> feq, fn, gn, fs={}, gs={}; EQ<D,Q> eq(gd.cs2,gd.e); NamedEq<D,Q,EQ>::calc(&eq,feq,gd); for(int i=0;i<Q;i++){ fn[i]=vc_old(in.f[i],k)-feq[i]; gn[i]=vc_old(in.g[i],k)-feq[i]*T*(2*Cv-D); }
	if(prandtl){ typename NamedStar<D,Q>::T3 q3={}; std::array<double,D> q1={}; NamedStar<D,Q>::t3(fn,q3,gd); NamedStar<D,Q>::t1(gn,q1,gd); NamedStar<D,Q>::f(fs,q3,gd); NamedStar<D,Q>::g(gs,q1,gd); }
	tau=vc_name(tau); ptau=vc_name(ptau);
	for(int i=0;i<Q;i++){ vc_check_eq("compressible-relaxation",in.f[i][k],vc_old(in.f[i],k)-fn[i]/tau+(1/tau-1/ptau)*fs[i]); vc_check_eq("compressible-relaxation",in.g[i][k],vc_old(in.g[i],k)-gn[i]/tau+(1/tau-1/ptau)*gs[i]); }
}
#define RLX(N,D,Q,S,ST,E,EQ) VC_HARNESS(crelax_##N){ relaxes<D,Q,S,EQ>(ST,E,"^natrium::" #EQ "<&&>::calc(",false,true); } VC_HARNESS(crelax_pr_##N){ relaxes<D,Q,S,EQ>(ST,E,"^natrium::" #EQ "<&&>::calc(",true,true); }
ALL(RLX)
// ---- f*, g* carry the heat flux of any non-equilibrium (f,g) at any velocity and nothing else
template<int D, int Q, class S> void stars(StencilType st){
	install(); configure(st,BGK_STANDARD,QUARTIC_EQUILIBRIUM,NO_FORCING,true,true); double s=vc_real("scaling",0.1,100); S stencil(s), r(1.0); double nof[D]; ProblemDescription<D>* pd=problem<D>(false,nof);
	GeneralCollisionData<D,Q> gd(*vcf::configuration(),*pd,s,vc_real("nu",1e-6,10),stencil,stencil.getSpeedOfSoundSquare(),vc_real("dt",1e-6,10)); gd.density=vc_real("rho",0.01,100); gd.temperature=vc_real("T",0.1,10); for(int j=0;j<D;j++) gd.velocity[j]=vc_real("u",-1,1);
	std::array<double,Q> fn, gn, fs={}, gs={}; for(int i=0;i<Q;i++){ fn[i]=vc_real("fneq",-1,1); gn[i]=vc_real("gneq",-1,1); } double cs2=r.getSpeedOfSoundSquare();
	typename NamedStar<D,Q>::T3 q3={}; std::array<double,D> q1={}; calculateCenteredHeatFluxTensor<D,Q>(fn,q3,gd); calculateCenteredMomentumFlux<D,Q>(gn,q1,gd);
	for(int a=0;a<D;a++){ double x1=0; for(int i=0;i<Q;i++) x1+=(r.getDirection(i)(a)-gd.velocity[a])*gn[i]; vc_check_eq("energy-flux",q1[a],x1); for(int b=0;b<D;b++) for(int c=0;c<D;c++){ double x3=0; for(int i=0;i<Q;i++) x3+=(r.getDirection(i)(a)-gd.velocity[a])*(r.getDirection(i)(b)-gd.velocity[b])*(r.getDirection(i)(c)-gd.velocity[c])*fn[i]; vc_check_eq("heat-flux-tensor",q3[a][b][c],x3); if(vc_is_symbolic()) q3[a][b][c]=b<=a&&c<=b?vc_name(q3[a][b][c]):0; } if(vc_is_symbolic()) q1[a]=vc_name(q1[a]); }
	if(vc_is_symbolic()) for(int a=0;a<D;a++) for(int b=0;b<D;b++) for(int c=0;c<D;c++){ int v[3]={a,b,c}; if(v[0]<v[1]) std::swap(v[0],v[1]); if(v[1]<v[2]) std::swap(v[1],v[2]); if(v[0]<v[1]) std::swap(v[0],v[1]); q3[a][b][c]=q3[v[0]][v[1]][v[2]]; }
	calculateFStar<D,Q>(fs,q3,gd); calculateGStar<D,Q>(gs,q1,gd); vc_reach("stars");
	double m=0,mg=0; for(int i=0;i<Q;i++){ m+=fs[i]; mg+=gs[i]; } vc_check_eq("star-mass",m,0.0); vc_check_eq("star-mass",mg,0.0);
	for(int a=0;a<D;a++){ double j=0,h=0,hg=0; for(int i=0;i<Q;i++){ double e=r.getDirection(i)(a), ee=0; for(int b=0;b<D;b++) ee+=r.getDirection(i)(b)*r.getDirection(i)(b); j+=e*fs[i]; h+=e*ee*fs[i]; hg+=e*gs[i]; } double q=0; for(int b=0;b<D;b++) q+=q3[a][b][b];
		vc_check_eq("star-momentum",j+q,q); vc_check_eq("star-heat-flux",h,q); vc_check_eq("star-heat-flux",hg,q1[a]);
		for(int b=0;b<=a;b++){ double P=0; for(int i=0;i<Q;i++) P+=r.getDirection(i)(a)*r.getDirection(i)(b)*fs[i]; vc_check_eq("star-stress",P,0.0); } }
	for(int i=0;i<Q;i++){ std::array<double,Q> ge; calculateGeqFromFeq<D,Q>(fn,ge,gd); vc_check_eq("internal-energy-equilibrium",ge[i],fn[i]*gd.temperature*(2/(vcf::cfg.gamma-1)-D)); calculateGeqFromFeq<D,Q>(fn,ge,gd.temperature,vcf::cfg.gamma); vc_check_eq("internal-energy-equilibrium",ge[i],fn[i]*gd.temperature*(2/(vcf::cfg.gamma-1)-D)); break; }
}
VC_HARNESS(cstar_d2q25h){ stars<2,25,D2Q25H>(Stencil_D2Q25H); } VC_HARNESS(cstar_d2q19h){ stars<2,19,D2Q19H>(Stencil_D2Q19H); } VC_HARNESS(cstar_d2q19v){ stars<2,19,D2Q19V>(Stencil_D2Q19V); } VC_HARNESS(cstar_d3q45){ stars<3,45,D3Q45>(Stencil_D3Q45); } VC_HARNESS(cstar_d3q77){ stars<3,77,D3Q77>(Stencil_D3Q77); }
