// Boundary conditions: wall, equilibrium and thermal boundary values, Grad's reconstruction.
#include "common.h"
#include "natrium/boundaries/FEBoundaryValues.h"
#include "natrium/boundaries/Boundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.cpp"
#include "natrium/boundaries/ThermalBounceBack.cpp"
#include "natrium/boundaries/SLEquilibriumBoundary.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
#include "natrium/boundaries/DoNothingBoundary.h"
#include "natrium/boundaries/GradsFunction.cpp"
#include "natrium/solver/DistributionFunctions.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D2Q19H.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "natrium/stencils/D3Q27.cpp"
#include "natrium/stencils/D3V27.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "nodes.h"
using namespace vcf;
// ---- contracts: a velocity function of time, evaluated at the hit point; the data of the boundary-values object
static double g_time; static const void* g_point; static int g_evals; static double g_u0[3], g_u1[3];
static void ft_set(void*, double t){ g_time=t; }
template<int D> struct TimeVelocity: dealii::Function<D> { TimeVelocity():dealii::Function<D>(D){} double value(const dealii::Point<D>&, unsigned c) const { return g_u0[c]+g_time*g_u1[c]; } void vector_value(const dealii::Point<D>& p, dealii::Vector<double>& v) const { if((const void*)&p!=g_point) vc_fail("prescribed-velocity-at-hit-point"); for(int c=0;c<D;c++) v(c)=g_u0[c]+g_time*g_u1[c]; } };
static GlobalBoundaryData* g_gd; static GlobalBoundaryData* gd_get(void*){ return g_gd; }
static dealii::Point<3>* g_p; static unsigned long g_q; static void* pt_get(void*, unsigned long q){ if(q!=g_q) vc_fail("prescribed-velocity-at-hit-point"); return g_p; }
template<int D> static void fn_ctor(dealii::Function<D>* f, unsigned n, double){ *(unsigned*)&f->n_components=n; }
template<int D> static FEBoundaryValues<D>* setup(const Stencil& S, DistributionFunctions* f, DistributionFunctions* g, double nu, double dt){
	vc_override("natrium::FEBoundaryValues<2ul>::getData",(void*)gd_get); vc_override("natrium::FEBoundaryValues<3ul>::getData",(void*)gd_get); vc_override("natrium::FEBoundaryValues<2ul>::getPoint",(void*)pt_get); vc_override("natrium::FEBoundaryValues<3ul>::getPoint",(void*)pt_get);
	vc_override("^dealii::Subscriptor::~Subscriptor()",(void*)vcm::vm_nop); vc_override("^dealii::FunctionTime<double>::set_time(",(void*)ft_set); vc_override("dealii::Function<2, double>::Function(unsigned int, double)",(void*)fn_ctor<2>); vc_override("dealii::Function<3, double>::Function(unsigned int, double)",(void*)fn_ctor<3>);
	g_gd=g?new GlobalBoundaryData(*f,*f,*g,S,nu,dt):new GlobalBoundaryData(*f,*f,S,nu,dt); g_p=(dealii::Point<3>*)calloc(1,64); g_point=g_p; g_q=7; return (FEBoundaryValues<D>*)calloc(1,sizeof(FEBoundaryValues<D>)); }
static bool tiny(double x, double t){ return x*x<t*t; } static double any_dist(void*, unsigned long, unsigned long){ return vc_real("wallvalue",-10,10); }
// frame: everything but the entry (dir, k) is unchanged
template<int Q> static void frame(const char* name, double** f, int dir, long k, long m){ for(int i=0;i<Q;i++){ if(i!=dir) vc_check_eq(name,f[i][k],vc_old(f[i],k)); if(m!=k) vc_check_eq(name,f[i][m],vc_old(f[i],m)); } }
template<int D, int Q, class S> void wall(){
	install_nodes(); S st(vc_real("scaling",0.1,100)); long len=vc_len("nodes"); if(len==0) return; double* f[Q]; DistributionFunctions* df=newDF("f",Q,len,f); FEBoundaryValues<D>* fe=setup<D>(st,df,nullptr,0.1,0.01);
	for(int c=0;c<D;c++){ g_u0[c]=vc_real(nm("u",c),-10,10); g_u1[c]=vc_real(nm("a",c),-10,10); } boost::shared_ptr<dealii::Function<D>> u(new TimeVelocity<D>()); VelocityNeqBounceBack<D> b(1,u);
	int dir=1+vc_choose("direction",Q-1); long k=vc_index("dof",len), m=vc_index("other",len); double eps=vc_real("eps",0,1), t=vc_real("t",0,100); LagrangianPathDestination d(k,dir); double before=f[dir][k];
	b.calculateBoundaryValues(*fe,7,d,eps,t); vc_reach("wall"); double eu=0; for(int c=0;c<D;c++) eu+=st.getDirection(dir)(c)*(g_u0[c]+(t-eps)*g_u1[c]);
	vc_check_eq("wall-momentum-transfer",f[dir][k]-before,2*st.getWeight(dir)*eu/st.getSpeedOfSoundSquare()); frame<Q>("wall-frame",f,dir,k,m); }
VC_HARNESS(wall_D2Q9){ wall<2,9,D2Q9>(); } VC_HARNESS(wall_D3Q19){ wall<3,19,D3Q19>(); } VC_HARNESS(wall_D3Q27){ wall<3,27,D3Q27>(); }

template<int D, int Q, class S> void equil(){
	install_nodes(); S st(vc_real("scaling",0.1,100)); double* f[Q]; DistributionFunctions* df=newDFn("f",Q,2,f); FEBoundaryValues<D>* fe=setup<D>(st,df,nullptr,0.1,0.01);
	double T=vc_real("temperature",0.1,10); dealii::Tensor<1,D> u; for(int c=0;c<D;c++) u[c]=vc_real(nm("u",c),-10,10); SLEquilibriumBoundary<D> b(1,u,T); double t=vc_real("t",0,100), other=f[0][1]; for(int i=0;i<Q;i++) for(int k=0;k<2;k++) f[i][k]=k?other:f[i][k];
	for(int i=0;i<Q;i++){ double was=f[0][0]; b.calculateBoundaryValues(*fe,7,LagrangianPathDestination(0,i),vc_real("eps",0,1),t); if(i) vc_check_eq("boundary-frame",f[0][0],was); } vc_reach("equil"); for(int i=0;i<Q;i++) vc_check_eq("boundary-frame",f[i][1],other);
	double r=0, cs2=st.getSpeedOfSoundSquare(), e2=0, uu=0; for(int i=0;i<Q;i++) r+=f[i][0]; vc_check_eq("prescribed-density",r,1);
	for(int c=0;c<D;c++){ double p=0; for(int i=0;i<Q;i++) p+=f[i][0]*st.getDirection(i)(c); vc_check_eq("prescribed-velocity",p,u[c]); uu+=u[c]*u[c]; }
	if(Q>=25&&Q!=27) for(int c=0;c<D;c++) for(int e=0;e<=c;e++){ double p=0; for(int i=0;i<Q;i++) p+=f[i][0]*st.getDirection(i)(c)*st.getDirection(i)(e); vc_check_eq("prescribed-temperature",p,u[c]*u[e]+(c==e?cs2*T:0)); } }
VC_HARNESS(equil_D2Q9){ equil<2,9,D2Q9>(); } VC_HARNESS(equil_D2Q25H){ equil<2,25,D2Q25H>(); } VC_HARNESS(equil_D3Q19){ equil<3,19,D3Q19>(); } VC_HARNESS(equil_D3Q27){ equil<3,27,D3Q27>(); } VC_HARNESS(equil_D3Q45){ equil<3,45,D3Q45>(); }
template<int D, int Q, class S> void bounce(){
	install_nodes(); S st(vc_real("scaling",0.1,100)); long len=vc_len("nodes"); if(len==0) return; double* f[Q]; DistributionFunctions* df=newDF("f",Q,len,f); FEBoundaryValues<D>* fe=setup<D>(st,df,nullptr,0.1,0.01); vc_override("natrium::FEBoundaryValues<2ul>::getDistribution",(void*)any_dist); vc_override("natrium::FEBoundaryValues<3ul>::getDistribution",(void*)any_dist);
	int dir=1+vc_choose("direction",Q-1); long k=vc_index("dof",len), m=vc_index("other",len); int opp=0; for(int i=1;i<Q;i++){ bool o=true; for(int c=0;c<D;c++) if(!tiny(st.getDirection(i)(c)+st.getDirection(dir)(c),1e-9*0.1)) o=false; if(o) opp=i; }
	int which=vc_choose("boundary",2); if(which==0){ SLFirstOrderBounceBack<D> b(1); b.calculateBoundaryValues(*fe,7,LagrangianPathDestination(k,dir),vc_real("eps",0,1),0.0); vc_check_eq("bounce-back",f[dir][k],vc_old(f[opp],k)); frame<Q>("boundary-frame",f,dir,k,m); }
	else { DoNothingBoundary<D> b(1); b.calculateBoundaryValues(*fe,7,LagrangianPathDestination(k,dir),vc_real("eps",0,1),0.0); frame<Q>("boundary-frame",f,-1,k,m); } vc_reach("bounce"); }
VC_HARNESS(bounce_D2Q9){ bounce<2,9,D2Q9>(); } VC_HARNESS(bounce_D3Q19){ bounce<3,19,D3Q19>(); }
// static void poly(void*, std::array<double,45>& feq, double rho, std::array<double,3> u, double T, std::array<std::array<double,3>,45> e, std::array<double,45> w, double cs2){ GeneralCollisionData<3,45>* p=(GeneralCollisionData<3,45>*)calloc(1,sizeof(GeneralCollisionData<3,45>)); p->density=rho; p->velocity=u; p->temperature=T; p->e=e; p->weight=w; p->cs2=cs2; ModEq<3,45>::energy=true; ModEq<3,45>::calc(nullptr,feq,*p); }
#include "modular.h"
static void poly(void*, std::array<double,45>& feq, double rho, std::array<double,3> u, double T, std::array<std::array<double,3>,45> e, std::array<double,45> w, double cs2){ GeneralCollisionData<3,45>* p=(GeneralCollisionData<3,45>*)calloc(1,sizeof(GeneralCollisionData<3,45>)); p->density=rho; p->velocity=u; p->temperature=T; p->e=e; p->weight=w; p->cs2=cs2; ModEq<3,45>::energy=true; ModEq<3,45>::calc(nullptr,feq,*p); }
static double temp(const std::array<double,45>& f, const std::array<double,45>& g, const std::array<double,3>& u, const double rho, const std::array<std::array<double,3>,45> e, const double cs2, const double gamma){ return vc_name(calculateTemperature<3,45>(f,g,u,rho,e,cs2,gamma)); }
VC_HARNESS(thermal_D3Q45){
	install_nodes(); D3Q45 st(vc_real("scaling",0.1,100)); double* f[45]; double* g[45]; DistributionFunctions* df=newDFn("f",45,2,f,-10,10); DistributionFunctions* dg=newDFn("g",45,2,g,-10,10); FEBoundaryValues<3>* fe=setup<3>(st,df,dg,0.1,0.01);
	vc_override("natrium::QuarticEquilibrium<3, 45>::polynomial(",(void*)poly); vc_override("double natrium::calculateTemperature<3, 45>(",(void*)temp);
	double Tw=vc_real("walltemperature",0.1,10); boost::shared_ptr<dealii::Function<3>> u(new TimeVelocity<3>()); ThermalBounceBack<3> b(1,u,Tw);
	double w[45][3], m0=0, p0[3]={0,0,0}; for(int i=0;i<45;i++){ for(int c=0;c<3;c++) w[i][c]=st.getDirection(i)(c)/st.getScaling(); } double fo[45], go[45], fo1[45], go1[45]; for(int i=0;i<45;i++){ fo[i]=f[i][0]; go[i]=g[i][0]; fo1[i]=f[i][1]; go1[i]=g[i][1]; m0+=fo[i]; for(int c=0;c<3;c++) p0[c]+=fo[i]*w[i][c]; } vc_assume(m0>0.1);
	int dir=1+vc_choose("direction",1); b.calculateBoundaryValues(*fe,7,LagrangianPathDestination(0,dir),vc_real("eps",0,1),vc_real("t",0,100)); vc_reach("thermal");
	double m1=0, p1[3]={0,0,0}; for(int i=0;i<45;i++){ m1+=f[i][0]; for(int c=0;c<3;c++) p1[c]+=f[i][0]*w[i][c]; } vc_check_eq("thermal-mass",m1,m0); for(int c=0;c<3;c++) vc_check_eq("thermal-momentum",p1[c],p0[c]); for(int i=0;i<45;i++){ vc_check_eq("thermal-frame",f[i][1],fo1[i]); vc_check_eq("thermal-frame",g[i][1],go1[i]); }
	const double cv=2.5; double uv[3]; for(int c=0;c<3;c++) uv[c]=p0[c]/m0; double E0=0,E1=0, cs2=st.getSpeedOfSoundSquare()/(st.getScaling()*st.getScaling()); for(int i=0;i<45;i++){ double s=0; for(int c=0;c<3;c++) s+=(w[i][c]-uv[c])*(w[i][c]-uv[c]); E0+=s*fo[i]/cs2+go[i]; E1+=s*f[i][0]/cs2+g[i][0]; }
	double T0=E0*0.5/(m0*cv), d=T0-Tw; if(d*d>2e-10) vc_check_eq("thermal-temperature",E1*0.5/cv,m0*Tw); }

template<int D, int Q, class S> void grad(){
	install(); S st(vc_real("scaling",0.1,100)); double rho=vc_real("rho",0.1,10); dealii::Tensor<1,D> j; dealii::Tensor<2,D> P; for(int a=0;a<D;a++){ j[a]=vc_real(nm("j",a),-10,10); for(int b=0;b<=a;b++) P[a][b]=P[b][a]=vc_real(nm("P",a*D+b),-10,10); }
	std::vector<double> f(Q); GradsFunction<D>(f,st,rho,j,P); vc_reach("grad"); double m=0; for(int i=0;i<Q;i++) m+=f[i]; vc_check_eq("grad-density",m,rho);
	for(int a=0;a<D;a++){ double p=0; for(int i=0;i<Q;i++) p+=f[i]*st.getDirection(i)(a); vc_check_eq("grad-momentum",p,j[a]); for(int b=0;b<=a;b++){ double q=0; for(int i=0;i<Q;i++) q+=f[i]*st.getDirection(i)(a)*st.getDirection(i)(b); vc_check_eq("grad-stress",q,P[a][b]); } } }
VC_HARNESS(grad_D2Q9){ grad<2,9,D2Q9>(); } VC_HARNESS(grad_D2Q19H){ grad<2,19,D2Q19H>(); } VC_HARNESS(grad_D2Q25H){ grad<2,25,D2Q25H>(); } VC_HARNESS(grad_D3Q15){ grad<3,15,D3Q15>(); } VC_HARNESS(grad_D3Q19){ grad<3,19,D3Q19>(); } VC_HARNESS(grad_D3Q27){ grad<3,27,D3Q27>(); } VC_HARNESS(grad_D3V27){ grad<3,27,D3V27>(); } VC_HARNESS(grad_D3Q45){ grad<3,45,D3Q45>(); }
static double g_T0, g_rho, g_v[3];
static double dens0(const std::array<double,45>& f){ vc_check_eq("density-of-equilibrium",calculateDensity<45>(f),g_rho); return g_rho; }
static void vel0(const std::array<double,45>& f, std::array<double,3>& u, const double rho, const std::array<std::array<double,3>,45> e){ calculateVelocity<3,45>(f,u,rho,e); for(int c=0;c<3;c++){ vc_check_eq("velocity-of-equilibrium",u[c]*g_rho,g_rho*g_v[c]); u[c]=g_v[c]; } }
 static double temp0(const std::array<double,45>& f, const std::array<double,45>& g, const std::array<double,3>& u, const double rho, const std::array<std::array<double,3>,45> e, const double cs2, const double gamma){ vc_check_eq("temperature-of-equilibrium",rho*calculateTemperature<3,45>(f,g,u,rho,e,cs2,gamma),rho*g_T0); return g_T0; }
// from a local equilibrium the wall temperature is reached exactly
VC_HARNESS(thermaleq_D3Q45){
	install_nodes(); D3Q45 st(vc_real("scaling",0.1,100)); double* f[45]; double* g[45]; DistributionFunctions* df=newDFn("f",45,1,f,-10,10); DistributionFunctions* dg=newDFn("g",45,1,g,-10,10); FEBoundaryValues<3>* fe=setup<3>(st,df,dg,0.1,0.01);
	vc_override("natrium::QuarticEquilibrium<3, 45>::polynomial(",(void*)poly); vc_override("double natrium::calculateTemperature<3, 45>(",(void*)temp0);
	double Tw=vc_real("walltemperature",0.1,10), T0=vc_real("temperature",0.1,10), rho=vc_real("density",0.1,10); g_T0=T0; g_rho=rho; vc_override("double natrium::calculateDensity<45>(",(void*)dens0); vc_override("void natrium::calculateVelocity<3, 45>(",(void*)vel0); boost::shared_ptr<dealii::Function<3>> u(new TimeVelocity<3>()); ThermalBounceBack<3> b(1,u,Tw); std::array<double,3> uv; for(int c=0;c<3;c++) g_v[c]=uv[c]=vc_real(nm("v",c),-10,10);
	std::array<std::array<double,3>,45> e; std::array<double,45> wt, feq, geq; double cs2=st.getSpeedOfSoundSquare()/(st.getScaling()*st.getScaling()); for(int i=0;i<45;i++){ wt[i]=st.getWeight(i); for(int c=0;c<3;c++) e[i][c]=st.getDirection(i)(c)/st.getScaling(); }
	{ double m=rho, j[3], uu=0, E=0; for(int a=0;a<3;a++){ j[a]=rho*uv[a]; uu+=uv[a]*uv[a]; } E=rho*(uu+3*cs2*T0); for(int i=0;i<45;i++){ feq[i]=vc_real(nm("x",i),-10,10); m-=feq[i]; double ee=0; for(int a=0;a<3;a++){ j[a]-=e[i][a]*feq[i]; ee+=e[i][a]*e[i][a]; } E-=ee*feq[i]; }
	 double dE=(E/cs2-3*m)/6; for(int i=0;i<45;i++){ double c=m, ee=0; for(int a=0;a<3;a++){ c+=e[i][a]*j[a]/cs2; ee+=e[i][a]*e[i][a]; } feq[i]+=wt[i]*(c+(ee/cs2-3)*dE); } } calculateGeqFromFeq<3,45>(feq,geq,T0,1.4); for(int i=0;i<45;i++){ f[i][0]=feq[i]; g[i][0]=geq[i]; }
	b.calculateBoundaryValues(*fe,7,LagrangianPathDestination(0,1),0.0,0.0); vc_reach("thermaleq"); const double cv=2.5; double E1=0; for(int i=0;i<45;i++){ double s=0; for(int c=0;c<3;c++) s+=(e[i][c]-uv[c])*(e[i][c]-uv[c]); E1+=s*f[i][0]/cs2+g[i][0]; } double d=T0-Tw; if(d*d>2e-10) vc_check_eq("thermal-temperature",E1*0.5/cv,rho*Tw); }
