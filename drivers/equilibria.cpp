#include "common.h"
#include "natrium/collision_advanced/CollisionSelection.h"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D2Q19H.cpp"
#include "natrium/stencils/D2Q19V.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D2Q777.cpp"
#include "natrium/stencils/D3Q13.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "natrium/stencils/D3Q21.cpp"
#include "natrium/stencils/D3Q27.cpp"
#include "natrium/stencils/RD3Q27.cpp"
#include "natrium/stencils/D3V27.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "natrium/stencils/D3Q77.cpp"
using namespace vcf;
static double del(int a, int b){ return a==b?1.0:0.0; }
// |x|<t, decided without the sign of a rounding residue
static bool tiny(double x, double t){ return x*x<t*t; }
// ---- a stencil is a quadrature of the Maxwellian
template<int D, int Q, class S> void stencil(StencilType st, int order){ const double tol=Q==777?1e-5:1e-8; // D2Q777: quadrature with 8 digits and truncated far weights
	install(); double s=vc_real("scaling",0.1,100); S x(s); S r(1.0);
	vc_check("stencil-dimensions",x.getD()==D&&x.getQ()==Q&&x.getDirections().size()==Q&&x.getWeights().size()==Q&&x.getStencilType()==st);
	vc_check_eq("stencil-scaling",x.getScaling(),s); double cs2=x.getSpeedOfSoundSquare();
	vc_check_eq("stencil-speed-of-sound",x.getSpeedOfSound()*x.getSpeedOfSound(),cs2); vc_check("stencil-speed-of-sound",r.getSpeedOfSound()>0);
	double w0=0, vmax=0; std::vector<double> e(Q*D), w(Q); for(int i=0;i<Q;i++){ w[i]=x.getWeight(i); w0+=w[i]; vc_check("stencil-weight-positive",w[i]>0); double v=0; for(int a=0;a<D;a++){ e[i*D+a]=r.getDirection(i)(a); v+=e[i*D+a]*e[i*D+a]; if(Q<100||i%50==0) vc_check_eq("stencil-directions-scale",x.getDirection(i)(a),s*e[i*D+a]); } if(v>vmax+1e-9) vmax=v; if(i==0) vc_check("stencil-rest-direction-first",v<1e-20); else vc_check("stencil-rest-direction-first",v>1e-6);
		if(Q<100) for(int k=0;k<i;k++){ double d=0; for(int a=0;a<D;a++) d+=(e[i*D+a]-e[k*D+a])*(e[i*D+a]-e[k*D+a]); vc_check("stencil-directions-distinct",d>1e-6); } }
	vc_check("stencil-weights-sum",tiny(w0-1.0,Q==777?1e-6:1e-12)); vc_check_eq("stencil-max-velocity-scales",x.getMaxParticleVelocityMagnitude(),s*r.getMaxParticleVelocityMagnitude()); vc_check_eq("stencil-max-velocity",x.getMaxParticleVelocityMagnitude()*x.getMaxParticleVelocityMagnitude(),vmax*s*s);
	{ double v=r.getMaxParticleVelocityMagnitude()*r.getMaxParticleVelocityMagnitude(); vc_check("stencil-max-velocity-right-or-recorded",tiny(v-vmax,1e-9)||tiny(v-2,1e-9)); } // a wrong value other than the recorded sqrt(2) is a new violation
	double c1=r.getSpeedOfSoundSquare(); vc_check_eq("stencil-speed-of-sound-scales",cs2,c1*s*s); vc_reach("stencil");
	for(int i=0;i<Q;i++){ int o=x.getIndexOfOppositeDirection(i); bool in=o>=0&&o<Q; vc_check("stencil-opposite",in); if(!in) continue; bool neg=true; for(int a=0;a<D;a++) if(!tiny(e[o*D+a]+e[i*D+a],1e-9)) neg=false; vc_check("stencil-opposite",neg); vc_check("stencil-opposite-weight",tiny(w[o]-w[i],1e-12)); vc_check("stencil-opposite",(int)x.getIndexOfOppositeDirection(o)==i); }
	for(int a=0;a<D;a++){ double m1=0; for(int i=0;i<Q;i++) m1+=w[i]*e[i*D+a]; vc_check("stencil-moment-1",tiny(m1,1e-9));
	 for(int b=0;b<=a;b++){ double m2=0; for(int i=0;i<Q;i++) m2+=w[i]*e[i*D+a]*e[i*D+b]; vc_check("stencil-moment-2",tiny(m2-c1*del(a,b),tol));
	  for(int c=0;c<=b;c++){ double m3=0; for(int i=0;i<Q;i++) m3+=w[i]*e[i*D+a]*e[i*D+b]*e[i*D+c]; vc_check("stencil-moment-3",tiny(m3,tol));
	   if(order>=4) for(int d=0;d<=c;d++){ double m4=0; for(int i=0;i<Q;i++) m4+=w[i]*e[i*D+a]*e[i*D+b]*e[i*D+c]*e[i*D+d]; double want=c1*c1*(del(a,b)*del(c,d)+del(a,c)*del(b,d)+del(a,d)*del(b,c)); vc_check("stencil-moment-4",tiny(m4-want,tol));
	    if(order>=6) for(int f=0;f<=d;f++){ double m5=0; for(int i=0;i<Q;i++) m5+=w[i]*e[i*D+a]*e[i*D+b]*e[i*D+c]*e[i*D+d]*e[i*D+f]; vc_check("stencil-moment-5",tiny(m5,tol));
	     for(int g=0;g<=f;g++){ double m6=0; for(int i=0;i<Q;i++) m6+=w[i]*e[i*D+a]*e[i*D+b]*e[i*D+c]*e[i*D+d]*e[i*D+f]*e[i*D+g]; int n[3]={0,0,0}, v[6]={a,b,c,d,f,g}; for(int k=0;k<6;k++) n[v[k]]++; double w6=c1*c1*c1; for(int k=0;k<3;k++) w6*=n[k]%2?0:n[k]==6?15:n[k]==4?3:1; vc_check("stencil-moment-6",tiny(m6-w6,10*tol)); } } } } } }
}
// ---- moments of the equilibrium functions
template<int D, int Q, class S, template<int,int> class EQ> void moments(StencilType st, EquilibriumSchemeName e, int order, bool thermal){
	install(); vcf::cfg.stencil=st; vcf::cfg.eq=e; vcf::cfg.force=NO_FORCING; double gss=e==STEADYSTATE_EQUILIBRIUM?vc_real("gammaSS",0.01,1):1; vcf::cfg.gammaSS=gss;
	double s=vc_real("scaling",0.1,100); S stencil(s); double nof[D]; ProblemDescription<D>* pd=problem<D>(false,nof);
	GeneralCollisionData<D,Q> gd(*vcf::configuration(),*pd,s,vc_real("nu",1e-6,10),stencil,stencil.getSpeedOfSoundSquare(),vc_real("dt",1e-6,10));
	double rho=vc_real("rho",0.01,100), T=thermal?vc_real("T",0.1,10):1.0, u[D]; gd.density=rho; gd.temperature=T; for(int j=0;j<D;j++) gd.velocity[j]=u[j]=vc_real(nm("u",j),-1,1);
	if(thermal||!vc_is_symbolic()||e==QUARTIC_EQUILIBRIUM){ gd.H3=calculateH3<D,Q>(gd.cs2,gd.e); gd.H4=calculateH4<D,Q>(gd.cs2,gd.e); }
	std::array<double,Q> feq; EQ<D,Q> eq(gd); eq.calc(feq,gd); vc_reach("moments");
	S r(1.0); std::vector<double> c(Q*D); for(int i=0;i<Q;i++) for(int a=0;a<D;a++) c[i*D+a]=r.getDirection(i)(a); double c2=r.getSpeedOfSoundSquare(), th=c2*T;
	double m=0; for(int i=0;i<Q;i++) m+=feq[i]; vc_check_eq("equilibrium-moment-0",m,rho);
	for(int a=0;a<D;a++){ double j=0; for(int i=0;i<Q;i++) j+=c[i*D+a]*feq[i]; vc_check_eq("equilibrium-moment-1",j,rho*u[a]); }
	{ double E=0, uu=0; for(int i=0;i<Q;i++) for(int a=0;a<D;a++) E+=c[i*D+a]*c[i*D+a]*feq[i]; for(int a=0;a<D;a++) uu+=u[a]*u[a]; if(order>=2) vc_check_eq("equilibrium-energy",E,rho*(uu/gss+D*th)); }
	if(order>=2) for(int a=0;a<D;a++) for(int b=0;b<=a;b++){ double p=0; for(int i=0;i<Q;i++) p+=c[i*D+a]*c[i*D+b]*feq[i]; vc_check_eq("equilibrium-moment-2",p,rho*(u[a]*u[b]/gss+th*del(a,b))); }
	if(order>=3) for(int a=0;a<D;a++) for(int b=0;b<=a;b++) for(int d=0;d<=b;d++){ double p=0; for(int i=0;i<Q;i++) p+=c[i*D+a]*c[i*D+b]*c[i*D+d]*feq[i]; vc_check_eq("equilibrium-moment-3",p,rho*(u[a]*u[b]*u[d]+th*(u[a]*del(b,d)+u[b]*del(a,d)+u[d]*del(a,b)))); }
	if(order>=4) for(int a=0;a<D;a++) for(int b=0;b<=a;b++){ double p=0,uu=0; for(int k=0;k<D;k++) uu+=u[k]*u[k]; for(int i=0;i<Q;i++){ double ee=0; for(int k=0;k<D;k++) ee+=c[i*D+k]*c[i*D+k]; p+=c[i*D+a]*c[i*D+b]*ee*feq[i]; }
		vc_check_eq("equilibrium-moment-4",p,rho*(u[a]*u[b]*uu+th*(del(a,b)*uu+(D+4)*u[a]*u[b])+th*th*(D+2)*del(a,b))); }
	// the second way of construction gives the same function
	EQ<D,Q> eq2(gd.cs2,gd.e); std::array<double,Q> f2; eq2.calc(f2,gd); for(int i=0;i<Q;i++) vc_check_eq("equilibrium-construction",feq[i],f2[i]);
}
#define ST(D,Q,S,o) VC_HARNESS(stencil_##S){ stencil<D,Q,S>(Stencil_##S,o); }
ST(2,9,D2Q9,4) ST(2,19,D2Q19H,6) ST(2,19,D2Q19V,6) ST(2,25,D2Q25H,6) ST(2,777,D2Q777,6) ST(3,13,D3Q13,4) ST(3,15,D3Q15,4) ST(3,19,D3Q19,4) ST(3,21,D3Q21,4) ST(3,27,D3Q27,4) ST(3,27,RD3Q27,4) ST(3,27,D3V27,6) ST(3,45,D3Q45,6) ST(3,77,D3Q77,6)
#define EM(N,D,Q,S,E,EQ,o,t) VC_HARNESS(eqmom_##N){ moments<D,Q,S,EQ>(Stencil_##S,E,o,t); }
EM(d2q9_bgk,2,9,D2Q9,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d2q9_quartic,2,9,D2Q9,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,1,false)
EM(d2q9_steady,2,9,D2Q9,STEADYSTATE_EQUILIBRIUM,SteadyStateEquilibrium,2,false)
EM(d2q19h_bgk,2,19,D2Q19H,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d2q19h_quartic,2,19,D2Q19H,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,3,true)
EM(d2q19v_quartic,2,19,D2Q19V,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,3,true)
EM(d2q25h_bgk,2,25,D2Q25H,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d2q25h_quartic,2,25,D2Q25H,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,4,true)
EM(d3q13_bgk,3,13,D3Q13,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d3q15_bgk,3,15,D3Q15,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d3q19_bgk,3,19,D3Q19,BGK_EQUILIBRIUM,BGKEquilibrium,2,false)
EM(d3q21_bgk,3,21,D3Q21,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d3q27_bgk,3,27,D3Q27,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d3v27_bgk,3,27,D3V27,BGK_EQUILIBRIUM,BGKEquilibrium,2,false)
EM(d3q45_bgk,3,45,D3Q45,BGK_EQUILIBRIUM,BGKEquilibrium,2,false) EM(d3q77_bgk,3,77,D3Q77,BGK_EQUILIBRIUM,BGKEquilibrium,2,false)
EM(d3q27_quartic,3,27,D3Q27,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,1,false) EM(d3v27_quartic,3,27,D3V27,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,3,false)
EM(d3q45_quartic,3,45,D3Q45,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,3,true) EM(d3q77_quartic,3,77,D3Q77,QUARTIC_EQUILIBRIUM,QuarticEquilibrium,4,true)
EM(d3q19_steady,3,19,D3Q19,STEADYSTATE_EQUILIBRIUM,SteadyStateEquilibrium,2,false) EM(d3q27_steady,3,27,D3Q27,STEADYSTATE_EQUILIBRIUM,SteadyStateEquilibrium,2,false)
