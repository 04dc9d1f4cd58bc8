// FLAGS: -fdelayed-template-parsing
// Global physical quantities (quadrature of the finite-element fields over all processes), statistics and error norms.
#include "solverbase.h"
#include "natrium/solver/PhysicalProperties.cpp"
#include "natrium/solver/BenchmarkCFDSolver.cpp"
#include "natrium/solver/ErrorStats.cpp"
#include "natrium/solver/TurbulenceStats.cpp"
#include "natrium/solver/BenchmarkCompressibleCFDSolver.cpp"
#include "natrium/solver/CompressibleErrorStats.cpp"
#include "natrium/utilities/Math.cpp"
#include "natrium/dataprocessors/GlobalTurbulenceStats.cpp"
#include "deal.II/numerics/vector_tools_integrate_difference.h"
using namespace vcf;
// ---- contract of FEValues: arbitrary shape values that sum to one, arbitrary gradients that sum to zero, positive quadrature weights
enum { NQ=2, NC=3 }; static double Sh[NC][NQ][2], Gr[NC][NQ][2][3], Wq[NC][NQ]; static int g_cell; static unsigned g_flags;
static void fv_ctor(void*, const void*, const void*, const void*, dealii::UpdateFlags f){ g_flags=f; g_cell=-1; }
static void fv_reinit(void*, CellRaw* c){ g_cell=c->index; } static bool fv_ok(unsigned i, unsigned q, unsigned need){ if(i>=2||q>=NQ){ vc_fail("shape-function-index-in-range"); return false; } if(g_cell<0||(g_flags&need)!=need){ vc_fail("requested-finite-element-values"); return false; } return true; }
static const double* fv_value(void*, unsigned i, unsigned q){ static double z=0; return fv_ok(i,q,dealii::update_values)?&Sh[g_cell][q][i]:&z; }
static const double* fv_grad(void*, unsigned i, unsigned q){ static double z[3]; return fv_ok(i,q,dealii::update_gradients)?Gr[g_cell][q][i]:z; }
static double fv_JxW(void*, unsigned q){ return fv_ok(0,q,dealii::update_JxW_values)?Wq[g_cell][q]:1; } static unsigned q_size(void*){ return NQ; }
// ---- contract of the MPI sums: the function runs on two processes that own different cells; the k-th collective call combines the k-th values of both
enum { NCALL=1024 }; static double g_other[NCALL]; static int g_calls, g_ncalls; static double g_allmax; static double other(double x){ if(g_calls>=NCALL){ vc_unsupported("too many collective calls"); return 0; } if(g_proc==1){ g_other[g_calls++]=x; return 0; } if(g_calls>=g_ncalls){ vc_fail("same-collective-calls-on-every-process"); return 0; } return g_other[g_calls++]; }
static dealii::Utilities::MPI::MinMaxAvg mma(double x, MPI_Comm){ double o=other(x); dealii::Utilities::MPI::MinMaxAvg r; r.sum=x+o; r.avg=r.sum*0.5; r.min=x<o?x:o; r.max=x<o?o:x; r.min_index=r.max_index=0; return r; } static double msum(const double& x, MPI_Comm){ return x+other(x); }
static dealii::Utilities::MPI::MinMaxAvg mmasum(double x, MPI_Comm){ double o=other(x); dealii::Utilities::MPI::MinMaxAvg r; r.sum=x+o; r.avg=r.sum*0.5; r.min=vc_real("min-unused",-1,1); r.max=vc_real("max-unused",-1,1); r.min_index=r.max_index=0; return r; }
static unsigned long n_dofs(void*){ return NF; }
template<int D> static AdvectionOperator<D>* setup(){ typedef CFDSolver<D> S; g_allowned=true; S* s=meshSolver<S,D>(); AdvectionOperator<D>* a=s->m_advectionOperator.get(); sp(a->m_quadrature,calloc(1,256)); sp(a->m_mapping,calloc(1,64));
	vc_override("FEValues<2, 2>::FEValues(",(void*)fv_ctor); vc_override("FEValues<3, 3>::FEValues(",(void*)fv_ctor); vc_override("FEValues<2, 2>::~FEValues(",(void*)vcm::vm_nop); vc_override("FEValues<3, 3>::~FEValues(",(void*)vcm::vm_nop); vc_override("FEValues<2, 2>::reinit",(void*)fv_reinit); vc_override("FEValues<3, 3>::reinit",(void*)fv_reinit); vc_override("::shape_value(unsigned int, unsigned int) const",(void*)fv_value); vc_override("::shape_grad(unsigned int, unsigned int) const",(void*)fv_grad); vc_override("::JxW(unsigned int) const",(void*)fv_JxW); vc_override("^dealii::Quadrature<2>::size() const",(void*)q_size); vc_override("^dealii::Quadrature<3>::size() const",(void*)q_size); vc_override("::getNumberOfDoFs() const",(void*)n_dofs); vc_override("MPI::min_max_avg(double",(void*)mmasum); vc_override("MPI::sum<double>(",(void*)msum);
	for(int c=0;c<NC;c++) for(int q=0;q<NQ;q++){ int n=c*NQ+q; Wq[c][q]=vc_real(nm("JxW",n),1e-3,10); Sh[c][q][0]=vc_real(nm("shape",n),-2,2); Sh[c][q][1]=1-Sh[c][q][0]; for(int k=0;k<D;k++){ Gr[c][q][0][k]=vc_real(nm(k==0?"gradx":k==1?"grady":"gradz",n),-10,10); Gr[c][q][1][k]=-Gr[c][q][0][k]; } } return a; }
template<class F> static double both(F f){ g_proc=1; g_calls=0; f(); g_ncalls=g_calls; g_proc=0; g_calls=0; double r=f(); vc_check("same-collective-calls-on-every-process",g_calls==g_ncalls); return r; }
template<class T> static boost::shared_ptr<T> shared(T* p){ boost::shared_ptr<T> r; sp(r,p); return r; }
static double f0(const distributed_vector& v, int c, int i){ return fv((void*)&v)->data[DOFS[c][i]]; }
// ---- integrals
template<int D> struct Phys { typedef PhysicalProperties<D> P; AdvectionOperator<D>* a; boost::shared_ptr<AdvectionOperator<D>> ap; std::vector<distributed_vector> u; distributed_vector rho;
	Phys():a(setup<D>()),u(D){ sp(ap,a); for(int k=0;k<D;k++) vecn(fv(&u[k]),k==0?"ux":k==1?"uy":"uz"); vecn(fv(&rho),"rho",0.1,10); }
	void mass(){ double r=both([&]{ return P::mass(rho,ap); }), e=0; vc_reach("mass"); for(int c=0;c<NC;c++) for(int q=0;q<NQ;q++) for(int i=0;i<2;i++) e+=f0(rho,c,i)*Sh[c][q][i]*Wq[c][q]; vc_check_eq("mass-is-the-integral-of-the-density",r,e); }
	void energy(){ double r=both([&]{ return P::kineticEnergy(u,rho,ap); }), e=0; vc_reach("energy"); for(int c=0;c<NC;c++) for(int q=0;q<NQ;q++) for(int i=0;i<2;i++){ double s=0; for(int k=0;k<D;k++) s+=f0(u[k],c,i)*f0(u[k],c,i); e+=0.5*f0(rho,c,i)*s*Sh[c][q][i]*Wq[c][q]; } vc_check_eq("kinetic-energy-is-its-integral",r,e); }
	void enstrophy(){ double sq[2]; double r=both([&]{ return P::enstrophy(u,ap,&sq[g_proc]); }), e=0, e2=0; vc_reach("enstrophy"); for(int c=0;c<NC;c++) for(int q=0;q<NQ;q++){ double g[3][3]; for(int k=0;k<D;k++) for(int l=0;l<D;l++){ g[k][l]=0; for(int i=0;i<2;i++) g[k][l]+=f0(u[k],c,i)*Gr[c][q][i][l]; } double w=0; if(D==2) w=(g[1][0]-g[0][1])*(g[1][0]-g[0][1]); else for(int k=0;k<D;k++) for(int l=0;l<D;l++) w+=g[k][l]*g[k][l]; e+=w*Wq[c][q]; e2+=w*w*Wq[c][q]; } vc_check_eq("enstrophy-is-its-integral",r,e); vc_check_eq("squared-enstrophy-is-its-integral",sq[0],e2); }
	void mean(){ double r=both([&]{ return P::meanVelocityX(u[0],ap); }), e=0, v=0; vc_reach("mean"); for(int c=0;c<NC;c++) for(int q=0;q<NQ;q++){ v+=Wq[c][q]; for(int i=0;i<2;i++) e+=f0(u[0],c,i)*Sh[c][q][i]*Wq[c][q]; } vc_check_eq("mean-velocity-is-the-integral-over-the-volume",r*v,e); }
	template<class ST> void entropy(){ ST* st=new ST(vc_real("scaling",0.1,10)); sp(a->m_stencil,st); int Q=st->getQ(); DistributionFunctions f; f.m_Q=Q; f.m_dg=vc_choose("dg",2)==0; w_ctor(fv(&f.m_f0)); bl_ctor((FakeBlock*)&f.m_fStream); w_ctor(fv(&f.m_f0Ghosted)); bl_ctor((FakeBlock*)&f.m_fStreamGhosted); FakeBlock* b=(FakeBlock*)(f.m_dg?&f.m_fStream:&f.m_fStreamGhosted); mkblock(b,Q-1); std::vector<double*> x(Q); for(int j=0;j<Q;j++){ x[j]=(double*)malloc(NF*8); for(int k=0;k<NF;k++) x[j][k]=vc_real(nm("f",j*NF+k),1e-6,10); mkvec(j?(void*)(b->b+(j-1)):(void*)(f.m_dg?&f.m_f0:&f.m_f0Ghosted),x[j],NF); }
		double r=both([&]{ return P::entropy(f,ap); }), e=0; vc_reach("entropy"); for(int c=0;c<NC;c++) for(int i=0;i<2;i++) for(int j=0;j<Q;j++){ double y=x[j][DOFS[c][i]], s=y*log(y/st->getWeight(j)); for(int q=0;q<NQ;q++) e-=s*Sh[c][q][i]*Wq[c][q]; } vc_check_eq("entropy-is-its-integral",r,e); }
	static double vmax(FakeVec* v){ double m=v->data[0]; for(int k=1;k<NL;k++) if(v->data[k]>m) m=v->data[k]; return m; } static double vmin(FakeVec* v){ double m=v->data[0]; for(int k=1;k<NL;k++) if(v->data[k]<m) m=v->data[k]; return m; }
	void pressure(){ vc_override("^dealii::TrilinosWrappers::MPI::Vector::max() const",(void*)vmax); vc_override("^dealii::TrilinosWrappers::MPI::Vector::min() const",(void*)vmin); NL=2; distributed_vector p; vecn(fv(&p),"p",0.1,10); double cs=vc_real("cs",0.01,100), lo=vc_real("before",-1,1), a0=fv(&p)->data[0], a1=fv(&p)->data[1], hi=P::maximalPressure(p,cs,lo); vc_reach("pressure"); vc_check_eq("largest-pressure",hi,cs*cs*((a0>a1?a0:a1)-1)); vc_check_eq("smallest-pressure",lo,cs*cs*((a0>a1?a1:a0)-1)); } };
VC_HARNESS(phys_mass_2){ Phys<2>().mass(); } VC_HARNESS(phys_mass_3){ Phys<3>().mass(); } VC_HARNESS(phys_energy_2){ Phys<2>().energy(); } VC_HARNESS(phys_energy_3){ Phys<3>().energy(); } VC_HARNESS(phys_enstrophy_2){ Phys<2>().enstrophy(); } VC_HARNESS(phys_enstrophy_3){ Phys<3>().enstrophy(); } VC_HARNESS(phys_mean_2){ Phys<2>().mean(); } VC_HARNESS(phys_mean_3){ Phys<3>().mean(); } VC_HARNESS(phys_entropy_2){ Phys<2>().entropy<D2Q9>(); } VC_HARNESS(phys_entropy_3){ Phys<3>().entropy<D3Q15>(); } VC_HARNESS(phys_pressure_2){ Phys<2>().pressure(); } VC_HARNESS(phys_pressure_3){ Phys<3>().pressure(); }
// ---- turbulence table: integrals of the fields, their products, third and fourth powers
static void msumv(const std::vector<double>* l, MPI_Comm, std::vector<double>* g){ g->resize(l->size()); for(size_t i=0;i<l->size();i++){ double x=(*l)[i]; (*g)[i]=x+other(x); } }
static void fn_values(void*, const FakeVec* v, std::vector<double>* o){ if(o->size()!=NQ){ vc_fail("one-value-per-quadrature-point"); return; } for(int q=0;q<NQ;q++){ (*o)[q]=0; for(int i=0;i<2;i++) (*o)[q]+=v->data[DOFS[g_cell][i]]*(*fv_value(0,i,q)); } }
template<int D> static void fn_grads(void*, const FakeVec* v, std::vector<dealii::Tensor<1,D>>* o){ if(o->size()!=NQ){ vc_fail("one-value-per-quadrature-point"); return; } for(int q=0;q<NQ;q++) for(int k=0;k<D;k++){ (*o)[q][k]=0; for(int i=0;i<2;i++) (*o)[q][k]+=v->data[DOFS[g_cell][i]]*fv_grad(0,i,q)[k]; } }
static std::vector<double>* fn_weights(void*){ std::vector<double>* w=new std::vector<double>(NQ); for(int q=0;q<NQ;q++) (*w)[q]=fv_JxW(0,q); return w; } static std::string mkstr(void*, std::string){ return std::string(); } static std::string mkdir_(void*){ return std::string(); } static bool c_off(void*){ return true; }
template<int D> void turbulence(){ Phys<D> p; typedef CFDSolver<D> S; S* s=rawSolver<S,D>(); sp(s->m_advectionOperator,p.a); s->m_velocity=p.u; s->m_density=p.rho; vc_override("::get_function_values<",(void*)fn_values); vc_override("::get_function_gradients<",(void*)fn_grads<D>); vc_override("::get_JxW_values() const",(void*)fn_weights); vc_override("MPI::sum<std::vector<double",(void*)msumv); vc_override("::outfile(",(void*)mkstr); vc_override("::legendfile(",(void*)mkstr); vc_override("SolverConfiguration::getOutputDirectory",(void*)mkdir_); vc_override("SolverConfiguration::isSwitchOutputOff()",(void*)c_off);
	GlobalTurbulenceStats<D> t(*s); both([&]{ t.calculate(); return 0.0; }); vc_reach("turbulence"); int n=D==2?9:16; vc_check("observables",(int)t.m_names.size()==n&&(int)t.m_averages.size()==n&&(int)t.m_EX3.size()==n&&(int)t.m_EX4.size()==n&&(int)t.m_correlations.size()==n);
	std::vector<double> A(n),E3(n),E4(n); std::vector<std::vector<double>> C(n,std::vector<double>(n)); double e=0,e2=0,w=0,w2=0;
	for(int c=0;c<NC;c++) for(int q=0;q<NQ;q++){ double val[4], g[4][3]; for(int k=0;k<=D;k++){ const distributed_vector& v=k?p.u[k-1]:p.rho; val[k]=0; for(int l=0;l<D;l++) g[k][l]=0; for(int i=0;i<2;i++){ val[k]+=f0(v,c,i)*Sh[c][q][i]; for(int l=0;l<D;l++) g[k][l]+=f0(v,c,i)*Gr[c][q][i][l]; } }
		std::vector<double> o; o.push_back(val[0]); for(int l=0;l<D;l++) o.push_back(g[0][l]); for(int k=1;k<=D;k++) o.push_back(val[k]); for(int k=1;k<=D;k++) for(int l=0;l<D;l++) o.push_back(g[k][l]); double W=Wq[c][q];
		for(int j=0;j<n;j++){ A[j]+=o[j]*W; E3[j]+=o[j]*o[j]*o[j]*W; E4[j]+=o[j]*o[j]*o[j]*o[j]*W; for(int r=0;r<=j;r++) C[j][r]+=o[j]*o[r]*W; }
		double k=0,z; for(int a=1;a<=D;a++) k+=0.5*val[a]*val[a]; z=(g[2][0]-g[1][1])*(g[2][0]-g[1][1]); if(D==3) z+=(g[3][1]-g[2][2])*(g[3][1]-g[2][2])+(g[1][2]-g[3][0])*(g[1][2]-g[3][0]); e+=k*W; e2+=k*k*W; w+=z*W; w2+=z*z*W; }
	for(int j=0;j<n;j++){ vc_check_eq("integral-of-the-observable",t.m_averages[j],A[j]); vc_check_eq("integral-of-the-third-power",t.m_EX3[j],E3[j]); vc_check_eq("integral-of-the-fourth-power",t.m_EX4[j],E4[j]); vc_check("correlations",(int)t.m_correlations[j].size()==j+1); for(int r=0;r<=j;r++) vc_check_eq("integral-of-the-product",t.m_correlations[j][r],C[j][r]); }
	vc_check_eq("integral-of-the-energy",t.m_energy,e); vc_check_eq("integral-of-the-squared-energy",t.m_energySquared,e2); vc_check_eq("integral-of-the-enstrophy",t.m_enstrophy,w); vc_check_eq("integral-of-the-squared-enstrophy",t.m_enstrophySquared,w2); }
VC_HARNESS(turbulence_2){ turbulence<2>(); } VC_HARNESS(turbulence_3){ turbulence<3>(); }
// ---- statistics of the solver: every entry is the quantity of the current fields, computed once per iteration
static double st_max[3]; static const void* st_vel[3]; static double st_linf(const void* v){ for(int c=0;c<3;c++) if(v==st_vel[c]) return st_max[c]; vc_fail("statistics-of-the-current-fields"); return 0; }
static double st_val[8]; static int st_n[8]; static const void *st_rho, *st_u, *st_f, *st_ux; static double st_cs;
template<int D> struct Stat { typedef boost::shared_ptr<AdvectionOperator<D>> A; static double mass(const void* r, A*){ vc_check("statistics-of-the-current-fields",r==st_rho); st_n[0]++; return st_val[0]; } static double energy(const void* u, const void* r, A*){ vc_check("statistics-of-the-current-fields",r==st_rho&&u==st_u); st_n[1]++; return st_val[1]; } static double enstrophy(const void* u, A*, double* sq){ vc_check("statistics-of-the-current-fields",u==st_u); st_n[2]++; *sq=st_val[3]; return st_val[2]; } static double entropy(const void* f, A*){ vc_check("statistics-of-the-current-fields",f==st_f); st_n[3]++; return st_val[4]; } static double pressure(const void* r, double cs, double* lo){ vc_check("statistics-of-the-current-fields",r==st_rho); vc_check_eq("pressure-with-the-speed-of-sound",cs,st_cs); *lo=st_val[6]; return st_val[5]; } static double mean(const void* ux, A*){ vc_check("statistics-of-the-current-fields",ux==st_ux); return st_val[7]; }
	static void go(){ install_solver(); typedef CFDSolver<D> S; S* s=rawSolver<S,D>(); Stencil* st; double sc=vc_real("scaling",0.1,100); if(D==2) st=new D2Q9(sc); else st=new D3Q15(sc); sp(s->m_stencil,st); st_cs=st->getSpeedOfSound(); s->m_velocity.resize(D); for(int c=0;c<D;c++){ vecn(fv(&s->m_velocity[c]),c==0?"ux":c==1?"uy":"uz"); st_max[c]=vc_real(nm("max",c),0,100); st_vel[c]=&s->m_velocity[c]; } vecn(fv(&s->m_density),"rho",0.1,10); st_rho=&s->m_density; st_u=&s->m_velocity; st_ux=&s->m_velocity[0]; st_f=&s->m_f; for(int k=0;k<8;k++) st_val[k]=vc_real(nm("value",k),-100,100);
		vc_override("^dealii::TrilinosWrappers::MPI::Vector::linfty_norm() const",(void*)st_linf); vc_override("PhysicalProperties<2ul>::mass(",(void*)mass); vc_override("PhysicalProperties<3ul>::mass(",(void*)mass); vc_override("::kineticEnergy(",(void*)energy); vc_override("::enstrophy(",(void*)enstrophy); vc_override("PhysicalProperties<2ul>::entropy(",(void*)entropy); vc_override("PhysicalProperties<3ul>::entropy(",(void*)entropy); vc_override("::maximalPressure(",(void*)pressure); vc_override("::meanVelocityX(",(void*)mean);
		SolverStats<D>* t=(SolverStats<D>*)calloc(1,sizeof(SolverStats<D>)); *(S**)&t->m_solver=s; s->m_i=vc_index("iteration",1L<<30); s->m_time=vc_real("time",0,100); t->m_iterationNumber=vc_choose("known",2)?s->m_i:s->m_i+1; bool fresh=t->m_iterationNumber!=s->m_i; double old=t->m_kinE=vc_real("old",-10,10); t->update(); vc_reach("updated"); vc_check("current-iteration",t->m_iterationNumber==s->m_i);
		if(!fresh){ vc_check_eq("computed-once-per-iteration",t->m_kinE,old); return; } vc_check_eq("time",t->m_time,s->m_time); vc_check_eq("mass",t->getMass(),st_val[0]); vc_check_eq("kinetic-energy",t->getKinE(),st_val[1]); vc_check_eq("enstrophy",t->getEnstrophy(),st_val[2]); vc_check_eq("squared-enstrophy",t->m_enstrophy_sq,st_val[3]); vc_check_eq("entropy",t->getEntropy(),st_val[4]); vc_check_eq("largest-pressure",t->getMaxP(),st_val[5]); vc_check_eq("smallest-pressure",t->getMinP(),st_val[6]); vc_check_eq("mean-velocity",t->getMeanVelocityX(),st_val[7]); double u=t->getMaxU(); bool hit=false; for(int c=0;c<D;c++){ vc_check("largest-velocity-component",u>=st_max[c]); if(u==st_max[c]) hit=true; } vc_check("largest-velocity-component",hit); } };
VC_HARNESS(stats_2){ Stat<2>::go(); } VC_HARNESS(stats_3){ Stat<3>::go(); }
// ---- errors against an analytic solution: pointwise and integrated differences at the current time (the other processes hold R times what this one holds)
static double er_time[2], er_now, er_c[4], er_e[4][NC], er_R; static const void *er_fun[2], *er_field[4], *er_map, *er_dof, *er_quad; static int er_seen[4]; static bool er_max;
static void er_settime(const void* f, double t){ for(int k=0;k<2;k++) if((const char*)f>=(const char*)er_fun[k]&&(const char*)f<(const char*)er_fun[k]+1024){ er_time[k]=t; return; } vc_fail("analytic-function"); }
template<int D> static double er_at(const dealii::Point<D>& p, int k){ return k?er_c[k]+k*p[k-1]:er_c[0]-2*p[0]; }
template<int D> static double er_rho(const void* f, const dealii::Point<D>& p, unsigned c){ vc_check("analytic-function",f==er_fun[0]&&c==0); vc_check_eq("analytic-solution-at-the-current-time",er_time[0],er_now); return er_at<D>(p,0); }
template<int D> static double er_u(const void* f, const dealii::Point<D>& p, unsigned c){ vc_check("analytic-function",f==er_fun[1]&&c<D); vc_check_eq("analytic-solution-at-the-current-time",er_time[1],er_now); return er_at<D>(p,1+c%D); }
template<int D> static void er_diff(const void* map, const void* dof, const void* field, const dealii::Function<D>* f, vcm::FV* o, const void* quad, const int* norm, const void* weight, double){ vc_check("integrated-difference-of-the-discretization",map==er_map&&dof==er_dof&&quad==er_quad); vc_check("integrated-difference-in-the-l2-norm",*norm==(int)dealii::VectorTools::L2_norm&&!weight); int k=0; while(k<=D&&field!=er_field[k]) k++; if(k>D||o->n!=NC){ vc_fail("integrated-difference-of-the-current-fields"); return; } er_seen[k]++;
	dealii::Point<D> p; for(int l=0;l<D;l++) p[l]=vc_real(nm("point",l+D*k),-10,10); vc_check_eq("difference-to-the-analytic-solution",f->value(p,0),er_at<D>(p,k)); for(int c=0;c<NC;c++) o->d[c]=CELLOWNED(c)?er_e[k][c]:0; }
static dealii::Utilities::MPI::MinMaxAvg er_mma(double x, MPI_Comm){ dealii::Utilities::MPI::MinMaxAvg r; r.sum=x*(1+er_R); r.avg=vc_real("avg-unused",-1,1); r.min=vc_real("min-unused",-1,1); r.max=x; er_max=true; r.min_index=r.max_index=0; return r; } static double er_sum(const double& x, MPI_Comm){ return x*(1+er_R); } static unsigned er_ncells(void*){ return NC; }
template<int D> static void er_fctor(dealii::Function<D>* f, unsigned n, double){ *(unsigned*)&f->n_components=n; }
static void er_dofs(CellRaw* c, std::vector<unsigned>* v){ for(int j=0;j<2;j++) (*v)[j]=c->index==0?j:1-j; } // two nodes, shared by both owned cells
template<int D, class S=BenchmarkCFDSolver<D>, class B=Benchmark<D>, class E=ErrorStats<D>> void errors(){ const int N=2; S* s=meshSolver<S,D>(); NL=g_len=N; vc_override("::get_dof_indices(",(void*)er_dofs); AdvectionOperator<D>* a=s->m_advectionOperator.get(); sp(a->m_quadrature,er_quad=calloc(1,256)); sp(a->m_mapping,er_map=calloc(1,64)); er_dof=a->getDoFHandler().get();
	vc_override("integrate_difference<",(void*)er_diff<D>); vc_override("MPI::min_max_avg(double",(void*)er_mma); vc_override("MPI::sum<double>(",(void*)er_sum); vc_override("::n_active_cells() const",(void*)er_ncells); vc_override("^dealii::FunctionTime<double>::set_time(",(void*)er_settime); vc_override("^dealii::Subscriptor::~Subscriptor()",(void*)vcm::vm_nop); vc_override("dealii::Function<2, double>::Function(unsigned int, double)",(void*)er_fctor<2>); vc_override("dealii::Function<3, double>::Function(unsigned int, double)",(void*)er_fctor<3>); vc_override("dealii::Function<2, double>::~Function()",(void*)vcm::vm_nop); vc_override("dealii::Function<3, double>::~Function()",(void*)vcm::vm_nop);
	B* b=(B*)calloc(1,sizeof(B)); *(void***)b=vtab(); sp(s->m_benchmark,b); typedef dealii::Function<D> F; typedef double (F::*V)(const dealii::Point<D>&,unsigned) const; for(int k=0;k<2;k++){ void* f=calloc(1,1024); void** t=vtab(); t[slot<V>(&F::value)]=k?(void*)er_u<D>:(void*)er_rho<D>; t[slot(&F::set_time)]=(void*)er_settime; *(void***)f=t; er_fun[k]=f; er_time[k]=vc_real(nm("functiontime",k),0,100); } sp(b->m_analyticRho,er_fun[0]); sp(b->m_analyticU,er_fun[1]);
	points<D>(s->m_supportPoints); s->m_velocity.resize(D); vecn(fv(&s->m_density),"rho",0.1,10); er_field[0]=&s->m_density; for(int c=0;c<D;c++){ vecn(fv(&s->m_velocity[c]),c==0?"ux":c==1?"uy":"uz"); er_field[1+c]=&s->m_velocity[c]; } s->m_analyticVelocity.resize(D); vecn(fv(&s->m_analyticDensity),"arho"); for(int c=0;c<D;c++) vecn(fv(&s->m_analyticVelocity[c]),c==0?"ax":c==1?"ay":"az");
	er_R=vc_real("otherprocesses",0,10); for(int k=0;k<=D;k++){ er_c[k]=vc_real(nm("value",k),-10,10); for(int c=0;c<NC;c++) er_e[k][c]=vc_real(nm("cellerror",k*NC+c),0,10); }
	s->m_i=vc_index("iteration",1L<<30); s->m_time=er_now=vc_real("time",0,100); E* t=(E*)calloc(1,sizeof(E)); *(S**)&t->m_solver=s; t->m_iterationNumber=s->m_i+1; bool fresh=vc_choose("known",2)==0; if(!fresh) t->m_iterationNumber=s->m_i; double old=t->m_l2VelocityError=vc_real("old",0,10); std::vector<double> n0; for(int c=0;c<=D;c++) for(int i=0;i<N;i++) n0.push_back(fv((void*)er_field[c])->data[i]);
	t->update(); vc_reach("errors"); vc_check("current-iteration",t->m_iterationNumber==s->m_i); if(!fresh){ vc_check_eq("computed-once-per-iteration",t->m_l2VelocityError,old); return; } vc_check_eq("time",t->m_time,er_now); for(int k=0;k<=D;k++) vc_check("integrated-difference-of-every-field",er_seen[k]==1); for(int c=0;c<=D;c++) for(int i=0;i<N;i++) vc_check_eq("fields-untouched",fv((void*)er_field[c])->data[i],n0[c*N+i]);
	double e0=0,e1=0,l2=0; for(int c=0;c<NC;c++) if(CELLOWNED(c)){ e0+=er_e[0][c]*er_e[0][c]; for(int k=1;k<=D;k++) e1+=er_e[k][c]*er_e[k][c]; } vc_check_eq("l2-density-error",t->m_l2DensityError*t->m_l2DensityError,e0*(1+er_R)); vc_check_eq("l2-velocity-error",t->m_l2VelocityError*t->m_l2VelocityError,e1*(1+er_R));
	double mu=t->m_maxUAnalytic, me=t->m_maxVelocityError, mr=t->m_maxDensityError, hu=1, he=1, hr=1; for(int i=0;i<N;i++){ const dealii::Point<D>& p=s->m_supportPoints[i]; double u2=0, d2=0, r=er_at<D>(p,0)-n0[i]; for(int c=0;c<D;c++){ double x=er_at<D>(p,1+c), y=x-n0[N*(1+c)+i]; u2+=x*x; d2+=y*y; } l2+=u2; hu*=mu*mu-u2; he*=me*me-d2; hr*=mr*mr-r*r; }
	vc_check_eq("l2-analytic-velocity",t->m_l2UAnalytic*t->m_l2UAnalytic,l2*(1+er_R)); vc_check_eq("largest-analytic-velocity",hu,0); vc_check_eq("largest-velocity-error",he,0); vc_check_eq("largest-density-error",hr,0); vc_check("largest-of-all-processes",er_max); }
VC_HARNESS(errors_2){ errors<2>(); } VC_HARNESS(errors_3){ errors<3>(); } VC_HARNESS(errors_compressible_2){ errors<2,BenchmarkCompressibleCFDSolver<2>,CompressibleBenchmark<2>,CompressibleErrorStats<2>>(); } VC_HARNESS(errors_compressible_3){ errors<3,BenchmarkCompressibleCFDSolver<3>,CompressibleBenchmark<3>,CompressibleErrorStats<3>>(); }
// ---- plane statistics and running averages (three owned nodes; the other processes hold copies of them)
static int pl_copies; static bool pl_in[NF]; static unsigned long pl_n(void*){ return NN+1; } static void pl_add(void*, unsigned i){ if(i>=NF||pl_in[i]){ vc_fail("node-added-once"); return; } pl_in[i]=true; } static double pl_get(const FakeVec* v, unsigned i){ if((long)i>=v->len){ vc_fail("node-of-the-mesh"); return 0; } return v->data[i]; }
static void pl_sumv(const std::vector<double>* l, MPI_Comm, std::vector<double>* g){ g->resize(l->size()); for(size_t i=0;i<l->size();i++) (*g)[i]=(*l)[i]*(1+pl_copies); } static unsigned long pl_sumn(const unsigned long* n, MPI_Comm){ return *n*(1+pl_copies); } static double pl_sumd(const double* x, MPI_Comm){ return *x*(1+pl_copies); }
template<int D> void plane(){ install_solver(); NL=g_len=NN+1; pl_copies=vc_choose("otherprocesses",3); vc_override("^dealii::IndexSet::n_elements() const",(void*)pl_n); vc_override("^dealii::TrilinosWrappers::MPI::Vector::operator[](unsigned int) const",(void*)pl_get); vc_override("^dealii::TrilinosWrappers::MPI::Vector::operator()(unsigned int) const",(void*)pl_get); vc_override("MPI::sum<std::vector<double",(void*)pl_sumv); vc_override("MPI::sum<unsigned long>(",(void*)pl_sumn); vc_override("MPI::sum<double>(",(void*)pl_sumd); vc_override("^dealii::IndexSet::IndexSet(",(void*)vcm::vm_nop); vc_override("^dealii::IndexSet::~IndexSet()",(void*)vcm::vm_nop);
	std::vector<distributed_vector> u(D); for(int k=0;k<D;k++) vecn(fv(&u[k]),k==0?"ux":k==1?"uy":"uz"); StatsInPlane<D> p(vc_choose("normal",D),0.5,u); std::vector<double> a, r; p.calculate(a,r); vc_reach("plane"); vc_check("one-value-per-component",(int)a.size()==D&&(int)r.size()==D);
	for(int k=0;k<D;k++){ double m=0, s=0; for(int i=0;i<NL;i++) m+=fv(&u[k])->data[i]; m/=NL; for(int i=0;i<NL;i++){ double x=fv(&u[k])->data[i]-m; s+=x*x; } vc_check_eq("plane-average",a[k],m); vc_check_eq("plane-root-mean-square",r[k]*r[k],s/NL); } }
static void pl_clear(void*){ for(int i=0;i<NF;i++) pl_in[i]=false; } static unsigned pl_size(void*){ return NF; }
template<int D> void planenodes(){ install_solver(); NL=g_len=NN+1; vc_override("^dealii::IndexSet::clear()",(void*)pl_clear); vc_override("^dealii::IndexSet::size() const",(void*)pl_size); vc_override("^dealii::IndexSet::set_size(",(void*)vcm::vm_nop); vc_override("^dealii::IndexSet::add_index(",(void*)pl_add); vc_override("^dealii::IndexSet::IndexSet(",(void*)vcm::vm_nop); vc_override("^dealii::IndexSet::~IndexSet()",(void*)vcm::vm_nop);
	std::vector<distributed_vector> u(D); int n=vc_choose("normal",D); double y=vc_real("plane",-5,5), tol=vc_real("tolerance",1e-6,1); pl_in[0]=pl_in[1]=true; StatsInPlane<D> p(n,y,u); std::map<dealii::types::global_dof_index,dealii::Point<D>> m; points<D>(m); dealii::IndexSet* is=(dealii::IndexSet*)calloc(1,sizeof(dealii::IndexSet)); p.updatePlaneIndices(m,*is,tol); vc_reach("nodes");
	for(int i=0;i<NF;i++){ double d=m[i][n]-y; if(i>=NL) vc_check("only-owned-nodes",!pl_in[i]); else if(pl_in[i]) vc_check("nodes-of-the-plane",d<tol&&d>-tol); else vc_check("all-nodes-of-the-plane",d>=tol||d<=-tol); } }
template<int D> void running(){ install_solver(); typedef TurbulenceStats<D> T; T* t=(T*)calloc(1,sizeof(T)); unsigned long n=t->m_statSize=vc_index("samples",1L<<20); t->m_uAverage.resize(D); std::vector<distributed_vector> u(D); double a0[D][NN], u0[D][NN]; for(int k=0;k<D;k++){ vecn(fv(&t->m_uAverage[k]),k==0?"ax":k==1?"ay":"az"); vecn(fv(&u[k]),k==0?"ux":k==1?"uy":"uz"); for(int i=0;i<NN;i++){ a0[k][i]=fv(&t->m_uAverage[k])->data[i]; u0[k][i]=fv(&u[k])->data[i]; } }
	t->addToReynoldsStatistics(u); vc_reach("sample"); vc_check("counts-the-samples",t->m_statSize==n+1); for(int k=0;k<D;k++) for(int i=0;i<NN;i++){ vc_check_eq("average-of-all-samples",fv(&t->m_uAverage[k])->data[i]*((double)n+1),a0[k][i]*(double)n+u0[k][i]); vc_check_eq("sample-untouched",fv(&u[k])->data[i],u0[k][i]); } }
VC_HARNESS(plane_average_2){ plane<2>(); } VC_HARNESS(plane_average_3){ plane<3>(); } VC_HARNESS(plane_nodes_2){ planenodes<2>(); } VC_HARNESS(plane_nodes_3){ planenodes<3>(); } VC_HARNESS(plane_running_2){ running<2>(); } VC_HARNESS(plane_running_3){ running<3>(); }
