// Time step from the mesh, distances, velocity norms, selection of integrators and stencils.
#include "common.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/utilities/CFDSolverUtilities.cpp"
#include "natrium/utilities/Math.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D2Q25H.cpp"
#include "natrium/stencils/D3Q13.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "natrium/stencils/D3Q19.cpp"
#include "natrium/stencils/D3Q21.cpp"
#include "natrium/stencils/D3Q27.cpp"
#include "natrium/stencils/D3Q45.cpp"
#include "nodes.h"
using namespace vcf;
namespace {
// ---- contract of the mesh: four numbered cells of arbitrary size, arbitrary ones of this process
struct CellRaw { int level, index; const void* tria; ~CellRaw(){} };
const int NC=4; bool g_owned[NC]; double g_size[NC], g_local, g_global; int g_calls; bool g_plain;
bool c_owned(CellRaw* c){ return g_owned[c->index]; } double c_size(CellRaw* c){ if(!g_owned[c->index]) vc_fail("cell-of-this-process"); return g_size[c->index]; }
CellRaw t_begin(void*, unsigned){ CellRaw r; r.level=0; r.index=0; r.tria=(void*)0x100; return r; } CellRaw t_end(void*){ CellRaw r=t_begin(0,0); r.index=NC; return r; } CellRaw* it_next(CellRaw* c){ c->index++; return c; } bool it_neq(const CellRaw* a, const CellRaw* b){ return a->index!=b->index; } bool it_eq(const CellRaw* a, const CellRaw* b){ return a->index==b->index; } void* it_ptr(void* a){ return a; }
// ---- contract of MPI: the minimum, maximum and sum over all processes
enum { MIN, MAX, SUM };
int g_kind; dealii::Utilities::MPI::MinMaxAvg mma(double x, void*){ dealii::Utilities::MPI::MinMaxAvg r; g_calls++; g_local=x; double big=vc_real("larger",0,1e9), small=g_plain?0.25:vc_real("smaller",0,1e9); r.max=x+big; r.min=x-small; r.sum=x+big+small; r.avg=vc_real("avg",-1e9,1e9); g_global=g_kind==MIN?r.min:g_kind==MAX?r.max:r.sum; return r; }
void install_mesh(){ install_nodes(); vc_override("::is_locally_owned() const",(void*)c_owned); vc_override("::minimum_vertex_distance() const",(void*)c_size); vc_override("::begin_active(unsigned int) const",(void*)t_begin);
	vc_override("Triangulation<2, 2>::end() const",(void*)t_end); vc_override("Triangulation<3, 3>::end() const",(void*)t_end); vc_override("^dealii::TriaActiveIterator<dealii::CellAccessor<2, 2>>::operator++()",(void*)it_next); vc_override("^dealii::TriaActiveIterator<dealii::CellAccessor<3, 3>>::operator++()",(void*)it_next);
	vc_override("CellAccessor<2, 2>>::operator!=(",(void*)it_neq); vc_override("CellAccessor<3, 3>>::operator!=(",(void*)it_neq); vc_override("CellAccessor<2, 2>>::operator->()",(void*)it_ptr); vc_override("CellAccessor<3, 3>>::operator->()",(void*)it_ptr);  vc_override("MPI::min_max_avg(double",(void*)mma); vc_override("natrium::LOG(",(void*)vcm::vm_null); }
void mesh(){ install_mesh(); g_kind=MIN; for(int i=0;i<NC;i++){ g_owned[i]=vc_choose(nm("owned",i),2); g_size[i]=g_plain?3:vc_real(nm("size",i),1e-6,1e6); } }
void is_minimum(){ vc_check("distance-from-all-processes",g_calls>0); bool any=false, attained=false; for(int i=0;i<NC;i++) if(g_owned[i]){ any=true; vc_check("no-cell-is-smaller",g_local<=g_size[i]); attained=attained||g_local==g_size[i]; } if(any) vc_check("distance-of-a-cell",attained); else vc_check("empty-part-does-not-limit",g_local>=1e6); }
void* tria(){ static char t[8192]; return t; }
template<int D> void mindist(){ mesh(); double d=CFDSolverUtilities::getMinimumVertexDistance<D>(*(Mesh<D>*)tria()); vc_reach("distance"); is_minimum(); vc_check_eq("minimum-over-processes",d,g_global); }
template<int D, class S> void timestep(){ mesh(); S s(vc_real("scaling",0.1,100)); int p=1+vc_choose("order",8); double cfl=vc_real("cfl",1e-3,100); double dt=CFDSolverUtilities::calculateTimestep<D>(*(Mesh<D>*)tria(),p,s,cfl); vc_reach("timestep"); is_minimum(); vc_check_eq("timestep-from-cfl",dt*s.getMaxParticleVelocityMagnitude()*p*p,cfl*g_global); }
// distances of nodes: arbitrary points
template<int D> struct Q1 { static std::vector<dealii::Point<D>>* pts; static int asked; static void* points(void*){ return pts; } static void gl(void*, unsigned n){ asked=(int)n; pts=new std::vector<dealii::Point<D>>(n); for(unsigned i=0;i<n;i++) (*pts)[i][0]=i==0?vc_real("p0",0,1):(*pts)[i-1][0]+vc_real(nm("gap",i),1e-3,1); } };
template<int D> std::vector<dealii::Point<D>>* Q1<D>::pts; template<int D> int Q1<D>::asked;
template<int D> void gll(){ mesh(); for(int i=1;i<NC;i++) vc_assume(!g_owned[i]); vc_assume(g_owned[0]); vc_override("^dealii::QGaussLobatto<1>::QGaussLobatto(",(void*)Q1<1>::gl); vc_override("QGaussLobatto<1>::~QGaussLobatto",(void*)vcm::vm_nop); vc_override("^dealii::Quadrature<1>::~Quadrature",(void*)vcm::vm_nop); vc_override("^dealii::Quadrature<1>::get_points() const",(void*)Q1<1>::points);
	int p=1+vc_choose("order",3); double d=CFDSolverUtilities::getMinimumDoFDistanceGLL<D>(*(Mesh<D>*)tria(),p); vc_reach("gll"); vc_check("points-per-line",Q1<1>::asked==p+1); double m=g_global; bool att=false; for(int i=0;i<p;i++){ double g=(*Q1<1>::pts)[i+1][0]-(*Q1<1>::pts)[i][0]; if(m>=0) vc_check("no-nodes-are-closer",d<=m*g); att=att||d==m*g; } vc_check("distance-of-two-nodes",att); }
template<int D> void dofdist(){ g_plain=true; mesh(); for(int i=1;i<NC;i++) vc_assume(!g_owned[i]); vc_assume(g_owned[0]); vc_override("::get_unit_support_points() const",(void*)Q1<D>::points); vc_override("::has_support_points() const",(void*)vcm::one_); Q1<D>::pts=new std::vector<dealii::Point<D>>(3); std::vector<dealii::Point<D>>& q=*Q1<D>::pts; int eq=vc_choose("coinciding",2); for(int i=0;i<3;i++) for(int c=0;c<D;c++) q[i][c]=i==2&&eq?(double)q[0][c]:c<2?vc_real(nm(c==0?"x":"y",i),0,1):i;
	void* fe=calloc(1,sizeof(dealii::FiniteElement<D>)); double d=CFDSolverUtilities::getMinimumDoFDistance<D>(*(Mesh<D>*)tria(),*(dealii::FiniteElement<D>*)fe); vc_reach("dofdist"); double m=g_global; bool att=false, any=false; for(int i=0;i<3;i++) for(int j=i+1;j<3;j++){ double g=q[i].distance(q[j]); if(g>1e-10){ any=true; if(m>=0) vc_check("no-nodes-are-closer",d<=m*g); att=att||d==m*g; } } if(any) vc_check("distance-of-two-nodes",att); }
// velocity norms over the owned nodes
template<class V> V* vecs(int D, double** u, int n);
template<int D> void norms(){ install_mesh(); const int n=D==2?3:2, len=5; g_len=n; double* u[3]; std::vector<distributed_vector>* v=(std::vector<distributed_vector>*)calloc(1,sizeof(std::vector<distributed_vector>)); mkvecvec(*v,D); for(int c=0;c<D;c++){ u[c]=(double*)malloc(len*8); for(int k=0;k<len;k++) u[c][k]=vc_real(nm(c==0?"u":c==1?"v":"w",k),-1e3,1e3); mkvec(&(*v)[c],u[c],len); }
	void* set=calloc(1,sizeof(dealii::IndexSet)); double sq[3], sum=0; for(int k=0;k<n;k++){ sq[k]=0; for(int c=0;c<D;c++) sq[k]+=u[c][k]*u[c][k]; sum+=sq[k]; }
	g_kind=MAX; double m=Math::maxVelocityNorm(*v,*(dealii::IndexSet*)set); bool att=g_local==0; for(int k=0;k<n;k++){ vc_check("no-node-is-faster",g_local>=sq[k]); att=att||g_local==sq[k]; } vc_check("speed-of-a-node",att); vc_check_eq("maximum-over-processes",m*m,g_global); vc_check("norm-not-negative",m>=0);
	g_kind=SUM; double e=Math::velocity2Norm(*v,*(dealii::IndexSet*)set); vc_reach("norms"); vc_check_eq("sum-over-nodes",g_local,sum); vc_check_eq("sum-over-processes",e*e,g_global); vc_check("norm-not-negative",e>=0); }
// selection by number and name
bool same(const std::string& a, const char* b){ size_t n=0; while(b[n]) n++; if(a.size()!=n) return false; for(size_t i=0;i<n;i++) if(a[i]!=b[i]) return false; return true; }
void integrators(){ install_mesh(); static const char* N[16]={"","RUNGE_KUTTA_5STAGE","THETA_METHOD","EXPONENTIAL","FORWARD_EULER","RK_THIRD_ORDER","RK_CLASSIC_FOURTH_ORDER","BACKWARD_EULER","IMPLICIT_MIDPOINT","CRANK_NICOLSON","SDIRK_TWO_STAGES","HEUN_EULER","BOGACKI_SHAMPINE","DOPRI","FEHLBERG","CASH_KARP"};
	static const DealIntegratorName DI[16]={NONE,NONE,NONE,NONE,FORWARD_EULER,RK_THIRD_ORDER,RK_CLASSIC_FOURTH_ORDER,BACKWARD_EULER,IMPLICIT_MIDPOINT,CRANK_NICOLSON,SDIRK_TWO_STAGES,HEUN_EULER,BOGACKI_SHAMPINE,DOPRI,FEHLBERG,CASH_KARP};
	int id=1+vc_choose("id",15); TimeIntegratorName t; DealIntegratorName d=CASH_KARP; std::string name; CFDSolverUtilities::get_integrator_by_id(id,t,d,name); vc_reach("integrator"); TimeIntegratorName want=id==1?RUNGE_KUTTA_5STAGE:id==2?THETA_METHOD:id==3?EXPONENTIAL:OTHER; vc_check("integrator-of-that-number",t==want&&d==DI[id]); vc_check("integrator-of-that-name",same(name,N[id])); vc_check("name-of-the-integrator",same(CFDSolverUtilities::get_integrator_name(t,d),N[id])); }
template<int D, int Q> void stencil(){ install_mesh(); double s=vc_real("scaling",0.1,100); boost::shared_ptr<Stencil> p=CFDSolverUtilities::make_stencil(D,Q,s); vc_reach("stencil"); vc_check("stencil-of-that-dimension",p->getD()==D); vc_check("stencil-of-that-size",p->getQ()==Q); vc_check_eq("stencil-of-that-scaling",p->getScaling(),s); }
}
VC_HARNESS(mindist_2){ mindist<2>(); } VC_HARNESS(mindist_3){ mindist<3>(); }
VC_HARNESS(timestep_2){ timestep<2,D2Q9>(); } VC_HARNESS(timestep_3){ timestep<3,D3Q19>(); }
VC_HARNESS(gll_2){ gll<2>(); } VC_HARNESS(gll_3){ gll<3>(); } VC_HARNESS(dofdist_2){ dofdist<2>(); } VC_HARNESS(dofdist_3){ dofdist<3>(); }
VC_HARNESS(norms_2){ norms<2>(); } VC_HARNESS(norms_3){ norms<3>(); }
VC_HARNESS(integrators){ integrators(); }
VC_HARNESS(make_D2Q9){ stencil<2,9>(); } VC_HARNESS(make_D2Q25){ stencil<2,25>(); } VC_HARNESS(make_D3Q13){ stencil<3,13>(); } VC_HARNESS(make_D3Q15){ stencil<3,15>(); } VC_HARNESS(make_D3Q19){ stencil<3,19>(); } VC_HARNESS(make_D3Q21){ stencil<3,21>(); } VC_HARNESS(make_D3Q27){ stencil<3,27>(); } VC_HARNESS(make_D3Q45){ stencil<3,45>(); }
