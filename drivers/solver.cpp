// FLAGS: -fdelayed-template-parsing
// The simulation loop: order of the steps, stop conditions, streaming, filtering, collision, initial fields.
#include "solverbase.h"
// ---- the loop: invariant "the state of step i is collided" at its head, for an arbitrary iteration i
enum Phase { FRESH, READY, RUNNING, WRITTEN, STREAMED, GSTREAMED, FILTERED, COLLIDED, STOPPED, DONE };
template<class S, int D> struct Loop { static S* s; static int ph, visits, procs, nproc, inits, stats; static bool comp; static unsigned long start, K;
	static void init(S*){ vc_check("initialized-first",ph==FRESH); inits++; }
	static void coll(S* x){ vc_check("solver",x==s); if(ph==FRESH){ vc_check("starts-at-configured-iteration",s->m_i==start); ph=READY; } else { vc_check("order-of-steps",ph==FILTERED); ph=COLLIDED; procs=0; } }
	static bool stop(S*){ visits++; if(visits==1){ vc_check("order-of-steps",ph==READY); vc_check("starts-at-configured-iteration",s->m_i==start); K=start+vc_index("steps",1L<<40); s->m_i=K; if(vc_choose("stop",2)){ ph=STOPPED; return true; } ph=RUNNING; return false; }
		vc_reach("step"); vc_check("order-of-steps",ph==COLLIDED); vc_check("every-data-processor-once-per-step",procs==nproc); vc_check("one-iteration-per-step",s->m_i==K+1); vc_assume(false); return true; }
	static void out(S*, unsigned long it, bool last){ vc_check("output-of-current-iteration",it==K); if(last){ vc_check("final-output-after-the-last-step",ph==STOPPED); ph=DONE; } else { vc_check("order-of-steps",ph==RUNNING); ph=WRITTEN; } }
	static void stream(S*){ vc_check("order-of-steps",ph==WRITTEN); vc_check("one-iteration-per-step",s->m_i==K+1); ph=STREAMED; }
	static void gstream(S*){ vc_check("order-of-steps",ph==STREAMED); ph=GSTREAMED; } static void stat(void*){ stats++; }
	static void filter(S*){ vc_check("order-of-steps",ph==(comp?GSTREAMED:STREAMED)); ph=FILTERED; }
	struct Proc: DataProcessor<D> { int id; Proc(CFDSolver<D>& c, int i):DataProcessor<D>(c),id(i){} void apply(){ vc_check("data-processors-in-order-after-the-collision",ph==COLLIDED&&procs==id); procs++; } };
	static void go(bool c){ install_solver(); comp=c; s=rawSolver<S,D>(); start=c?(vc_choose("restart",2)?2+vc_index("start",1L<<30):0):vc_index("start",1L<<30); s->m_iterationStart=start; sc.cts=false; nproc=vc_choose("processors",3); for(int i=0;i<nproc;i++) s->m_dataProcessors.push_back(boost::shared_ptr<DataProcessor<D>>(new Proc(*s,i))); typedef void (CFDSolver<D>::*O)(size_t,bool); void** t=*(void***)s; t[slot<O>(&CFDSolver<D>::output)]=(void*)out;
		vc_override("CFDSolver<2ul>::collide()",(void*)coll); vc_override("CFDSolver<3ul>::collide()",(void*)coll); vc_override("CFDSolver<2ul>::stopConditionMet()",(void*)stop); vc_override("CFDSolver<3ul>::stopConditionMet()",(void*)stop); vc_override("CFDSolver<2ul>::stream()",(void*)stream); vc_override("CFDSolver<3ul>::stream()",(void*)stream); vc_override("::gStream()",(void*)gstream); vc_override("CFDSolver<2ul>::filter()",(void*)filter); vc_override("CFDSolver<3ul>::filter()",(void*)filter); vc_override("::compressibleFilter()",(void*)filter); vc_override("CFDSolver<2ul>::output(",(void*)out); vc_override("CFDSolver<3ul>::output(",(void*)out); vc_override("::compressibleOutput(",(void*)out); vc_override("::initializeDistributions()",(void*)init); vc_override("CompressibleTurbulenceStats<2ul>::apply(",(void*)stat); vc_override("CompressibleTurbulenceStats<3ul>::apply(",(void*)stat);
		s->run(); vc_reach("finished"); vc_check("final-output-after-the-last-step",ph==DONE); vc_check("stops-when-the-condition-is-met",visits==1); vc_check("distributions-initialized-unless-restarted",inits==(c&&start==0?1:0)); } };
template<class S, int D> S* Loop<S,D>::s; template<class S, int D> int Loop<S,D>::ph; template<class S, int D> int Loop<S,D>::visits; template<class S, int D> int Loop<S,D>::procs; template<class S, int D> int Loop<S,D>::nproc; template<class S, int D> int Loop<S,D>::inits; template<class S, int D> int Loop<S,D>::stats; template<class S, int D> bool Loop<S,D>::comp; template<class S, int D> unsigned long Loop<S,D>::start; template<class S, int D> unsigned long Loop<S,D>::K;
VC_HARNESS(run_2){ Loop<CFDSolver<2>,2>::go(false); } VC_HARNESS(run_3){ Loop<CFDSolver<3>,3>::go(false); } VC_HARNESS(run_compressible_2){ Loop<CompressibleCFDSolver<2>,2>::go(true); } VC_HARNESS(run_compressible_3){ Loop<CompressibleCFDSolver<3>,3>::go(true); }
// ---- stop conditions: representative iterations, arbitrary times, residuals and thresholds (change measured by its contract, proved below)
static unsigned long st_i; static double st_res; static int st_n; static void st_measure(void*, unsigned long it){ vc_check("change-measured-at-this-iteration",it==st_i); st_n++; }
template<int D> struct Measured { static CFDSolver<D>* s; static void go(SolverStats<D>* x, unsigned long it){ st_measure(x,it); s->m_residuumVelocity=st_res; } }; template<int D> CFDSolver<D>* Measured<D>::s;
template<int D> void stop(){ install_solver(); typedef CFDSolver<D> S; S* s=rawSolver<S,D>(); Measured<D>::s=s; static const long IT[]={0,1,37,99,100,101,150,200,100000,100050}; unsigned long i=IT[vc_choose("iteration",10)]; s->m_i=i; st_i=i; st_res=vc_real("change",0,10);
	int rel=vc_choose("limit",4); vc_assume(rel>0||i>0); sc.N=rel==0?i-1:rel==1?i:rel==2?i+1:i+1000; s->m_time=vc_real("time",0,100); sc.end=vc_real("end",0,100); sc.thr=vc_real("threshold",1e-12,10); sp(s->m_solverStats,calloc(1,sizeof(SolverStats<D>))); vc_override("::calculateResiduals(",(void*)Measured<D>::go); s->m_residuumVelocity=20;
	bool r=s->stopConditionMet(); vc_reach("decided"); bool due=i%100==0; bool over=i>=sc.N, late=s->m_time>=sc.end;
	if(over) vc_check("stops-at-the-last-iteration",r); else if(late) vc_check("stops-at-the-end-time",r); else if(!due) vc_check("does-not-stop-early",!r); else { vc_check("change-measured-every-hundred-iterations",st_n==1); vc_check("stops-only-if-the-change-is-small",r==(st_res<sc.thr)); } vc_check("iteration-kept",s->m_i==i); }
VC_HARNESS(stop_2){ stop<2>(); } VC_HARNESS(stop_3){ stop<3>(); }
static double lm[2]; static double lx[2][NN]; static int ln; static double w_norm(const FakeVec* v){ w_need(v,v); double m=vc_real(ln?"normRho":"normU",0,1e6); for(int k=0;k<NN;k++) lx[ln][k]=v->data[k]; lm[ln++]=m; return m; } // largest absolute entry: any value; which vector it is taken of is checked
template<int D> void residuals(){ install_solver(); vc_override("^dealii::TrilinosWrappers::MPI::Vector::linfty_norm() const",(void*)w_norm); typedef CFDSolver<D> S; S* s=rawSolver<S,D>(); static const long IT[]={0,100,100,200,100000,100}, ST[]={0,0,50,100,99950,100}; int c=vc_choose("iteration",6); s->m_i=IT[c]; s->m_iterationStart=ST[c]; bool compared=IT[c]-ST[c]>=100; s->m_residuumVelocity=17; s->m_residuumDensity=19; SolverStats<D>* st=(SolverStats<D>*)calloc(1,sizeof(SolverStats<D>)); { S** p=(S**)&st->m_solver; *p=s; }
	double u[D][NN], v[D][NN], rho[NN], old[NN]; s->m_velocity.resize(D); s->m_tmpVelocity.resize(D); vecn(fv(&s->m_density),"rho"); vecn(fv(&s->m_tmpDensity),"rhoold"); for(int a=0;a<D;a++){ vecn(fv(&s->m_velocity[a]),a==0?"ux":a==1?"uy":"uz"); vecn(fv(&s->m_tmpVelocity[a]),a==0?"vx":a==1?"vy":"vz"); for(int k=0;k<NN;k++){ u[a][k]=fv(&s->m_velocity[a])->data[k]; v[a][k]=fv(&s->m_tmpVelocity[a])->data[k]; } } for(int k=0;k<NN;k++){ rho[k]=fv(&s->m_density)->data[k]; old[k]=fv(&s->m_tmpDensity)->data[k]; }
	st->calculateResiduals(s->m_i); vc_reach("measured"); if(compared){ vc_check("change-is-measured",ln==2); for(int k=0;k<NN;k++){ double e=0; for(int a=0;a<D;a++) e+=(u[a][k]-v[a][k])*(u[a][k]-v[a][k]); vc_check_eq("velocity-change",lx[0][k],e); double d=rho[k]-old[k]; vc_check_eq("density-change",lx[1][k]*lx[1][k],d*d); } vc_check_eq("velocity-change",s->m_residuumVelocity*s->m_residuumVelocity,lm[0]); vc_check("velocity-change",s->m_residuumVelocity>=0); vc_check_eq("density-change",s->m_residuumDensity,lm[1]); } else { vc_check_eq("no-change-measured-before-a-reference-exists",s->m_residuumVelocity,17); vc_check_eq("no-change-measured-before-a-reference-exists",s->m_residuumDensity,19); }
	for(int k=0;k<NN;k++){ vc_check_eq("reference-state-updated",fv(&s->m_tmpDensity)->data[k],rho[k]); vc_check_eq("fields-untouched",fv(&s->m_density)->data[k],rho[k]); for(int a=0;a<D;a++){ vc_check_eq("reference-state-updated",fv(&s->m_tmpVelocity[a])->data[k],u[a][k]); vc_check_eq("fields-untouched",fv(&s->m_velocity[a])->data[k],u[a][k]); } } }
VC_HARNESS(change_2){ residuals<2>(); } VC_HARNESS(change_3){ residuals<3>(); }
// ---- streaming: every population (f, g, the former ones of multistep schemes) is advanced exactly once from its old state
enum { QQ=4 }; // directions of the populations (the streaming step does not look at the stencil)
struct Pop { DistributionFunctions* f; double old[QQ][NN]; int vm, bc, st; }; static Pop g_pop[4]; static int g_np; static const void *g_mat, *g_sysvec; static double g_t0, g_dt, g_dt2; static bool g_timeseen;
static Pop* popOfBlock(const void* b){ for(int i=0;i<g_np;i++) if((const void*)&g_pop[i].f->m_fStream==b) return &g_pop[i]; return nullptr; }
static Pop* popOf(const void* f){ for(int i=0;i<g_np;i++) if((const void*)g_pop[i].f==f) return &g_pop[i]; return nullptr; }
static double mulM(const Pop& p, int i, int k){ return 3*p.old[i][1-k]+i*p.old[1+i%(QQ-1)][k]; }
static double bcval(int which, int i, int k){ return 0.25*(which+1)+i+0.5*k; }
static bool sameold(const DistributionFunctions& f, const Pop& p, const char* what){ for(int i=1;i<QQ;i++) for(int k=0;k<NN;k++) vc_check_eq(what,val((DistributionFunctions&)f,i,k),p.old[i][k]); return true; }
static void s_vmult(const void* m, FakeBlock* dst, FakeBlock* src){ Pop* p=popOfBlock(dst); vc_check("matrix-of-the-advection-operator",m==g_mat); if(!p){ vc_unsupported("vmult into a temporary"); return; } vc_check("streamed-once",p->vm++==0&&p->bc==0); vc_check("source-and-destination-differ",src!=dst&&src->b!=dst->b); for(unsigned i=0;i<src->n;i++) for(int k=0;k<NN;k++) vc_check_eq("streams-the-old-state",fv(src->b+i)->data[k],p->old[i+1][k]); for(int i=1;i<QQ;i++) for(int k=0;k<NN;k++) valr(*p->f,i,k)=mulM(*p,i,k); }
static void s_bc(void*, DistributionFunctions& old, DistributionFunctions& f, double t){ Pop* p=popOf(&f); if(!p){ vc_fail("boundary-conditions-of-the-streamed-state"); return; } vc_check("boundary-conditions-after-streaming",p->vm==1&&p->bc++==0); sameold(old,*p,"boundary-conditions-use-the-old-state"); vc_check_eq("boundary-conditions-at-time",t,g_t0); for(int i=1;i<QQ;i++) for(int k=0;k<NN;k++) valr(f,i,k)+=bcval(p-g_pop,i,k); }
static void s_bcg3(void* a, DistributionFunctions& old, DistributionFunctions& f, DistributionFunctions& g, double t){ vc_check("boundary-conditions-of-the-streamed-state",&g==g_pop[3].f); s_bc(a,old,f,t); }
static double g_gamma; static bool s_tadv; static void s_bcg(void*, DistributionFunctions& f, DistributionFunctions& g, double t, double gamma){ Pop* p=popOf(&g); if(!p||&f!=g_pop[0].f){ vc_fail("boundary-conditions-of-the-streamed-state"); return; } vc_check("boundary-conditions-after-streaming",p->vm==1&&p->bc++==0); vc_check_eq("boundary-conditions-at-time",t,g_t0); vc_check_eq("heat-capacity-ratio",gamma,g_gamma); for(int i=1;i<QQ;i++) for(int k=0;k<NN;k++) valr(g,i,k)+=bcval(p-g_pop,i,k); }
static void* s_getvec(void*){ return (void*)g_sysvec; }
struct TI: TimeIntegrator<distributed_sparse_block_matrix,distributed_block_vector> { typedef TimeIntegrator<distributed_sparse_block_matrix,distributed_block_vector> B; TI(double dt):B(dt){} double step(distributed_block_vector& f, const distributed_sparse_block_matrix& m, distributed_block_vector& b, double t, double dt){ Pop* p=popOfBlock(&f); vc_check("matrix-of-the-advection-operator",(const void*)&m==g_mat); if(!p){ vc_unsupported("step of a temporary"); return 0; } vc_check("streamed-once",p->st++==0); vc_check_eq("step-size",dt,g_dt); vc_check_eq("step-starts-at-zero",t,0); FakeBlock* x=(FakeBlock*)&b; const FakeBlock* y=(const FakeBlock*)g_sysvec; vc_check("source-vector",x->n==y->n&&x!=y); for(unsigned i=0;i<x->n&&i<y->n;i++) for(int k=0;k<NN;k++) vc_check_eq("source-vector",fv(x->b+i)->data[k],fv(y->b+i)->data[k]); for(int i=1;i<QQ;i++) for(int k=0;k<NN;k++) valr(*p->f,i,k)=mulM(*p,i,k)+bcval(p-g_pop,i,k); return g_dt2; } };
struct TC: CollisionModel { int Q, nset, ncoll; double dtset; double A[64], B[64][3]; DistributionFunctions* f; distributed_vector *rho; std::vector<distributed_vector>* u; TC(Stencil* s):CollisionModel(boost::shared_ptr<Stencil>(s)),Q(0),nset(0),ncoll(0),dtset(0){} void setTimeStep(double d){ nset++; dtset=d; } double getEquilibriumDistribution(size_t i, const numeric_vector& u, const double rho) const { double x=A[i]*rho; for(unsigned c=0;c<u.size();c++) x+=B[i][c]*u(c); return x; } void (*hook)(TC*, DistributionFunctions&, distributed_vector&, std::vector<distributed_vector>&, const dealii::IndexSet&, bool); void collideAll(DistributionFunctions& f, distributed_vector& r, std::vector<distributed_vector>& u, const dealii::IndexSet& o, bool init) const { hook((TC*)this,f,r,u,o,init); } };
static void newpop(DistributionFunctions* f, const char* name){ double* a[QQ]; initDF(*f,name,QQ,0,a); Pop& p=g_pop[g_np++]; p.f=f; for(int i=0;i<QQ;i++) for(int k=0;k<NN;k++) p.old[i][k]=a[i][k]; }
static int g_scheme; static int c_coll(void*){ return g_scheme; }
template<class S, int D> void streamstep(bool comp){ install_solver(); vc_override("SolverConfiguration::getCollisionScheme()",(void*)c_coll); S* s=rawSolver<S,D>(); AdvectionOperator<D>* a=s->m_advectionOperator.get(); g_mat=&a->m_systemMatrix; void** t=*(void***)a; typedef AdvectionOperator<D> A; typedef void (A::*B2)(DistributionFunctions&,DistributionFunctions&,double); typedef void (A::*B3)(DistributionFunctions&,DistributionFunctions&,DistributionFunctions&,double); t[slot<B2>(&A::applyBoundaryConditions)]=(void*)s_bc; t[slot<B3>(&A::applyBoundaryConditions)]=(void*)s_bcg3; t[slot(&A::applyBoundaryConditionsToG)]=(void*)s_bcg; t[slot(&A::getSystemVector)]=(void*)s_getvec; vc_override("BlockSparseMatrix::vmult<",(void*)s_vmult); vc_override("VmultLimiter::apply",(void*)vcm::vm_nop);
	g_dt=vc_real("dt",0.001,1); g_dt2=vc_real("newdt",0.001,1); g_t0=s->m_time=vc_real("time",0,100); sc.adv=vc_choose("advection",2)?SEMI_LAGRANGIAN:SEDG; sc.lim=vc_choose("limiter",2); g_gamma=cfg.gamma=1.4; int multi=vc_choose("multistep",3); g_scheme=multi==0?BGK_STANDARD:multi==1?BGK_MULTI_AM4:BGK_MULTI_BDF2; s->m_iterationStart=vc_choose("start",2)*5; s->m_i=s->m_iterationStart+vc_choose("step",4); bool former=multi&&s->m_i-s->m_iterationStart>1;
	newpop(&s->m_f,"f"); MultistepCollisionData* md=(MultistepCollisionData*)calloc(1,sizeof(MultistepCollisionData)); newpop(&md->m_formerF,"h"); newpop(&md->m_formerFEq,"e"); sp(s->m_multistepData,md); if(comp) newpop(&((CompressibleCFDSolver<D>*)s)->m_g,"g"); { FakeBlock* b=(FakeBlock*)calloc(1,sizeof(distributed_block_vector)); mkblock(b,QQ-1); for(int i=0;i<QQ-1;i++) vecn(fv(b->b+i),"source"); g_sysvec=b; }
	TI* ti=new TI(g_dt); sp(s->m_timeIntegrator,ti); TC* tc=new TC(new D2Q9(1)); sp(s->m_collisionModel,tc); s->stream(); vc_reach("streamed"); bool sl=sc.adv==SEMI_LAGRANGIAN;
	for(int q=0;q<g_np;q++){ Pop& p=g_pop[q]; bool moved=q==0||(former&&q<3); for(int k=0;k<NN;k++){ vc_check_eq("rest-particles-stay",val(*p.f,0,k),p.old[0][k]); for(int i=1;i<QQ;i++) vc_check_eq("streamed-state",val(*p.f,i,k),moved?mulM(p,i,k)+bcval(q,i,k):p.old[i][k]); } }
	double dt=sl?g_dt:g_dt2; vc_check_eq("time-advances-by-one-step",s->m_time,g_t0+dt); vc_check_eq("step-size-kept",ti->getTimeStepSize(),dt); if(!sl) vc_check("collision-gets-the-step-size",tc->nset>=1); if(tc->nset) vc_check_eq("collision-gets-the-step-size",tc->dtset,dt); }
VC_HARNESS(stream_2){ streamstep<CFDSolver<2>,2>(false); } VC_HARNESS(stream_3){ streamstep<CFDSolver<3>,3>(false); } VC_HARNESS(stream_compressible_2){ streamstep<CompressibleCFDSolver<2>,2>(true); } VC_HARNESS(stream_compressible_3){ streamstep<CompressibleCFDSolver<3>,3>(true); }
template<int D> void gstream(){ install_solver(); typedef CompressibleCFDSolver<D> S; S* s=rawSolver<S,D>(); AdvectionOperator<D>* a=s->m_advectionOperator.get(); g_mat=&a->m_systemMatrix; void** t=*(void***)a; typedef AdvectionOperator<D> A; t[slot(&A::applyBoundaryConditionsToG)]=(void*)s_bcg; t[slot(&A::getSystemVector)]=(void*)s_getvec; vc_override("BlockSparseMatrix::vmult<",(void*)s_vmult); vc_override("VmultLimiter::apply",(void*)vcm::vm_nop);
	g_dt=vc_real("dt",0.001,1); g_dt2=vc_real("newdt",0.001,1); g_t0=s->m_time=vc_real("time",0,100); sc.adv=vc_choose("advection",2)?SEMI_LAGRANGIAN:SEDG; sc.lim=vc_choose("limiter",2); g_gamma=cfg.gamma=vc_real("gamma",1.01,3); newpop(&s->m_f,"f"); newpop(&s->m_g,"g"); { FakeBlock* b=(FakeBlock*)calloc(1,sizeof(distributed_block_vector)); mkblock(b,QQ-1); for(int i=0;i<QQ-1;i++) vecn(fv(b->b+i),"source"); g_sysvec=b; }
	TI* ti=new TI(g_dt); sp(s->m_timeIntegrator,ti); s->gStream(); vc_reach("streamed"); for(int q=0;q<2;q++){ Pop& p=g_pop[q]; for(int k=0;k<NN;k++){ vc_check_eq("rest-particles-stay",val(*p.f,0,k),p.old[0][k]); for(int i=1;i<QQ;i++) vc_check_eq("streamed-state",val(*p.f,i,k),q==1?mulM(p,i,k)+bcval(q,i,k):p.old[i][k]); } } vc_check_eq("time-advances-by-one-step",s->m_time,g_t0); }
VC_HARNESS(gstream_2){ gstream<2>(); } VC_HARNESS(gstream_3){ gstream<3>(); }
// ---- filtering
template<int D> struct FT: Filter<D> { DistributionFunctions *f, *g; int n[2][16]; const void* dh; void applyFilter(const dealii::DoFHandler<D>& d, distributed_vector& v){ vc_check("filter-of-this-mesh",(const void*)&d==dh); for(int i=0;i<(int)f->m_Q;i++){ if(&v==&f->at(i)){ n[0][i]++; return; } if(g&&&v==&g->at(i)){ n[1][i]++; return; } } vc_fail("filters-the-distributions"); } };
template<class S, int D, class ST, int Q> void filterstep(bool comp){ install_solver(); S* s=rawSolver<S,D>(); static const long I[]={0,1,2,3,5,6,12,100,1000000}, F[]={1,2,3,7,100}; s->m_i=I[vc_choose("iteration",9)]; sc.filtint=F[vc_choose("interval",5)]; sc.filtering=vc_choose("filtering",2); sp(s->m_stencil,new ST(1)); double* x[Q]; initDF(s->m_f,"f",Q,0,x); if(comp) initDF(((CompressibleCFDSolver<D>*)s)->m_g,"g",Q,1,x); FT<D>* f=new FT<D>(); f->f=&s->m_f; f->g=comp?&((CompressibleCFDSolver<D>*)s)->m_g:nullptr; for(int i=0;i<16;i++) f->n[0][i]=f->n[1][i]=0; f->dh=s->m_advectionOperator->m_doFHandler.get(); sp(s->m_filter,f); if(comp) ((CompressibleCFDSolver<D>*)s)->compressibleFilter(); else s->filter(); vc_reach("filtered"); int want=sc.filtering&&s->m_i%sc.filtint==0?1:0; for(int i=0;i<Q;i++){ vc_check("every-direction-filtered-once-per-interval",f->n[0][i]==want); if(comp) vc_check("every-direction-filtered-once-per-interval",f->n[1][i]==want); } }
VC_HARNESS(filter_2){ filterstep<CFDSolver<2>,2,D2Q9,9>(false); } VC_HARNESS(filter_3){ filterstep<CFDSolver<3>,3,D3Q15,15>(false); } VC_HARNESS(filter_compressible_2){ filterstep<CompressibleCFDSolver<2>,2,D2Q9,9>(true); } VC_HARNESS(filter_compressible_3){ filterstep<CompressibleCFDSolver<3>,3,D3Q15,15>(true); }
// ---- collision step: one collision with the configured viscosity and time step; its results become the fields
template<class S, int D> struct Coll { static S* s; static bool comp; static int n, thrown; static double nu, dt, nrho[NN], nT[NN], nm_[NN], nu_[D][NN];
	static double tstep(const void* mesh, unsigned long order, const Stencil& st, double cfl){ vc_check("time-step-of-the-configured-grid",mesh==(const void*)s->m_problemDescription->m_triangulation.get()&&order==sc.order&&&st==s->m_stencil.get()&&cfl==sc.cfl); return dt; }
	static void common_(const void* c, const void* p, DistributionFunctions& f, distributed_vector& rho, std::vector<distributed_vector>& u, const void* owned, double visc, double delta, const Stencil& st, bool init){ n++; vc_check("collision-of-this-problem",c==(const void*)s->m_configuration.get()&&p==(const void*)s->m_problemDescription.get()&&&f==&s->m_f&&&st==s->m_stencil.get()&&owned==(const void*)&s->m_advectionOperator->m_locallyOwnedDoFs); vc_check_eq("configured-viscosity",visc,nu); vc_check_eq("configured-time-step",delta,dt); vc_check("updates-velocities",!init); for(int k=0;k<NN;k++){ fv(&rho)->data[k]=nrho[k]; for(int a=0;a<D;a++) fv(&u.at(a))->data[k]=nu_[a][k]; valr(f,1,k)+=1; } }
	static void sel(SolverConfiguration& c, const ProblemDescription<D>& p, DistributionFunctions& f, distributed_vector& rho, std::vector<distributed_vector>& u, const dealii::IndexSet& o, const double visc, const double delta, const Stencil& st, const bool init){ common_(&c,&p,f,rho,u,&o,visc,delta,st,init); }
	static void selg(SolverConfiguration& c, const ProblemDescription<D>& p, DistributionFunctions& f, DistributionFunctions& g, distributed_vector& rho, std::vector<distributed_vector>& u, distributed_vector& T, distributed_vector& m, const dealii::IndexSet& o, const double visc, const double delta, const Stencil& st, const bool init){ vc_check("collision-of-this-problem",&g==&((CompressibleCFDSolver<D>*)s)->m_g); common_(&c,&p,f,rho,u,&o,visc,delta,st,init); for(int k=0;k<NN;k++){ fv(&T)->data[k]=nT[k]; fv(&m)->data[k]=nm_[k]; valr(g,2,k)+=1; } }
	static void go(bool c){ install_solver(); comp=c; s=rawSolver<S,D>(); sp(s->m_stencil,new D2Q9(1)); nu=s->m_problemDescription->m_viscosity=vc_real("viscosity",1e-6,10); dt=vc_real("dt",1e-6,1); sc.order=1+vc_choose("order",5); sc.cfl=vc_real("cfl",0.01,10); newpop(&s->m_f,"f"); CompressibleCFDSolver<D>* cs=(CompressibleCFDSolver<D>*)s; vecn(fv(&s->m_density),"rho"); s->m_velocity.resize(D); for(int a=0;a<D;a++) vecn(fv(&s->m_velocity[a]),"u"); vecn(fv(&s->m_maskShockSensor),"mask"); if(c){ newpop(&cs->m_g,"g"); vecn(fv(&cs->m_temperature),"T"); } for(int k=0;k<NN;k++){ nrho[k]=vc_real(nm("newrho",k),0.1,10); nT[k]=vc_real(nm("newT",k),0.1,10); nm_[k]=vc_real(nm("newmask",k),-10,10); for(int a=0;a<D;a++) nu_[a][k]=vc_real(nm(a==0?"newux":a==1?"newuy":"newuz",k),-10,10); }
		vc_override("CFDSolverUtilities::calculateTimestep<",(void*)tstep); vc_override("^void natrium::selectCollision<",c?(void*)selg:(void*)sel); s->collide(); vc_reach("collided"); vc_check("collides-exactly-once",n==1); for(int k=0;k<NN;k++){ vc_check_eq("fields-of-the-collision",fv(&s->m_density)->data[k],nrho[k]); for(int a=0;a<D;a++) vc_check_eq("fields-of-the-collision",fv(&s->m_velocity.at(a))->data[k],nu_[a][k]); if(c){ vc_check_eq("fields-of-the-collision",fv(&cs->m_temperature)->data[k],nT[k]); vc_check_eq("fields-of-the-collision",fv(&s->m_maskShockSensor)->data[k],nm_[k]); } for(int i=0;i<QQ;i++) for(int q=0;q<g_np;q++) vc_check_eq("distributions-of-the-collision",val(*g_pop[q].f,i,k),g_pop[q].old[i][k]+(i==q+1?1:0)); } } };
template<class S, int D> S* Coll<S,D>::s; template<class S, int D> bool Coll<S,D>::comp; template<class S, int D> int Coll<S,D>::n; template<class S, int D> int Coll<S,D>::thrown; template<class S, int D> double Coll<S,D>::nu; template<class S, int D> double Coll<S,D>::dt; template<class S, int D> double Coll<S,D>::nrho[NN]; template<class S, int D> double Coll<S,D>::nT[NN]; template<class S, int D> double Coll<S,D>::nm_[NN]; template<class S, int D> double Coll<S,D>::nu_[D][NN];
VC_HARNESS(collide_2){ Coll<CFDSolver<2>,2>::go(false); } VC_HARNESS(collide_3){ Coll<CFDSolver<3>,3>::go(false); } VC_HARNESS(collide_compressible_2){ Coll<CompressibleCFDSolver<2>,2>::go(true); } VC_HARNESS(collide_compressible_3){ Coll<CompressibleCFDSolver<3>,3>::go(true); }

// ---- initial fields: three cells with shared nodes; node 2 is a ghost, cell 2 belongs to another process
static bool prescribed(int d){ return OWNED(d)&&d<3; }
template<int D, int what> void applyinit(){ typedef CompressibleCFDSolver<D> S; S* s=meshSolver<S,D>(); std::map<dealii::types::global_dof_index,dealii::Point<D>> m; points<D>(m); void** t=*(void***)s->m_problemDescription.get(); typedef ProblemDescription<D> P; t[what==0?slot(&P::getInitialRhoFunction):what==1?slot(&P::getInitialUFunction):slot(&P::getInitialTFunction)]=(void*)g_getfun;
	int n=what==1?D:1; std::vector<distributed_vector> v(n); double old[3][NF]; for(int c=0;c<n;c++){ vecn(fv(&v[c]),c==0?"old":c==1?"oldy":"oldz"); for(int d=0;d<NF;d++) old[c][d]=fv(&v[c])->data[d]; }
	if(what==0) s->applyInitialDensities(v[0],m); else if(what==1) s->applyInitialVelocities(v,m); else s->applyInitialTemperatures(v[0],m); vc_reach("prescribed"); for(int c=0;c<n;c++) for(int d=0;d<NF;d++){ double x=fv(&v[c])->data[d]; if(prescribed(d)) vc_check_eq("initial-value-of-the-node",x,Fun<D>::at(m[d],c)); else vc_check_eq("other-nodes-untouched",x,old[c][d]); } }
VC_HARNESS(initrho_2){ applyinit<2,0>(); } VC_HARNESS(initrho_3){ applyinit<3,0>(); } VC_HARNESS(initu_2){ applyinit<2,1>(); } VC_HARNESS(initu_3){ applyinit<3,1>(); } VC_HARNESS(inittemp_2){ applyinit<2,2>(); } VC_HARNESS(inittemp_3){ applyinit<3,2>(); }
template<int D> void addvelocity(bool scale){ g_allowned=true; typedef CFDSolver<D> S; S* s=meshSolver<S,D>(); points<D>(s->m_supportPoints); vc_override("::initializeDistributions()",(void*)init_hook); s->m_velocity.resize(D); double old[3][NF]; for(int c=0;c<D;c++){ vecn(fv(&s->m_velocity[c]),c==0?"ux":c==1?"uy":"uz"); for(int d=0;d<NF;d++) old[c][d]=fv(&s->m_velocity[c])->data[d]; }
	double k=vc_real("factor",-10,10); if(scale) s->scaleVelocity(k); else { boost::shared_ptr<dealii::Function<D>> f; sp(f,g_fun); s->addToVelocity(f); } vc_reach("changed"); vc_check("distributions-follow-the-new-velocity",g_inits==1); for(int c=0;c<D;c++) for(int d=0;d<NF;d++){ double x=fv(&s->m_velocity[c])->data[d]; if(scale) vc_check_eq("velocity-scaled-once",x,k*old[c][d]); else if(d<3) vc_check_eq("function-added-once-per-node",x,old[c][d]+Fun<D>::at(s->m_supportPoints[d],c)); else vc_check_eq("other-nodes-untouched",x,old[c][d]); } }
VC_HARNESS(addvelocity_2){ addvelocity<2>(false); } VC_HARNESS(addvelocity_3){ addvelocity<3>(false); } VC_HARNESS(scalevelocity_2){ addvelocity<2>(true); } VC_HARNESS(scalevelocity_3){ addvelocity<3>(true); }
// ---- fields of loaded distributions: density and velocity are their moments
template<int D, class ST, int Q> void fields(){ install_solver(); typedef CFDSolver<D> S; S* s=rawSolver<S,D>(); ST* st=new ST(vc_real("scaling",0.1,100)); sp(s->m_stencil,st); double* f[Q]; initDF(s->m_f,"f",Q,0,f); vecn(fv(&s->m_density),"rho"); s->m_velocity.resize(D); for(int a=0;a<D;a++) vecn(fv(&s->m_velocity[a]),a==0?"ux":a==1?"uy":"uz"); double old[Q][NN]; for(int k=0;k<NN;k++){ double r=0; for(int i=0;i<Q;i++) r+=(old[i][k]=f[i][k]); vc_assume(r>1e-3); }
	s->calculateDensitiesAndVelocities(); vc_reach("computed"); for(int k=0;k<NN;k++){ double r=0; for(int i=0;i<Q;i++){ r+=old[i][k]; vc_check_eq("distributions-untouched",val(s->m_f,i,k),old[i][k]); } vc_check_eq("density-is-the-sum",fv(&s->m_density)->data[k],r); for(int a=0;a<D;a++){ double j=0; for(int i=0;i<Q;i++) j+=st->getDirection(i)(a)*old[i][k]; vc_check_eq("velocity-is-the-mean",fv(&s->m_velocity[a])->data[k]*r,j); } } }
VC_HARNESS(fields_2){ fields<2,D2Q9,9>(); } VC_HARNESS(fields_3){ fields<3,D3Q15,15>(); }
// ---- initial distributions (incompressible): the equilibrium of the initial fields, improved by the iterative procedure if configured
static int ii_stream, ii_coll; static double ii_rho[4][NN], ii_u[3][NN]; static void* ii_s;
template<int D> struct Ini { static void stream(CFDSolver<D>* s){ vc_check("streams-then-collides",ii_stream==ii_coll); ii_stream++; s->m_time+=1; for(int k=0;k<NN;k++) valr(s->m_f,1,k)+=0.125; }
	static void coll(TC* c, DistributionFunctions& f, distributed_vector& r, std::vector<distributed_vector>& u, const dealii::IndexSet& o, bool init){ CFDSolver<D>* s=(CFDSolver<D>*)ii_s; vc_check("streams-then-collides",ii_stream==ii_coll+1); vc_check("velocity-is-kept-during-initialization",init); vc_check("initializes-the-distributions",&f==&s->m_f&&u.size()==D&&&o==&s->m_advectionOperator->getLocallyOwnedDofs()); if(ii_coll>=3){ vc_fail("ends-after-the-configured-iterations"); return; } for(int k=0;k<NN;k++){ vc_check_eq("iterates-from-the-last-density",fv(&r)->data[k],ii_rho[ii_coll][k]); for(int a=0;a<D;a++) vc_check_eq("prescribed-velocity",fv(&u.at(a))->data[k],ii_u[a][k]); fv(&r)->data[k]=ii_rho[ii_coll+1][k]; valr(f,2,k)+=0.25; } ii_coll++; } };
template<int D, class ST, int Q> void initdist(bool iterative){ install_solver(); typedef CFDSolver<D> S; S* s=rawSolver<S,D>(); ii_s=s; sc.init=iterative?ITERATIVE:EQUILIBRIUM; sc.iters=vc_choose("iterations",2); sc.res=iterative?vc_real("residual",1e-9,1e6):1; ST* st=new ST(1); sp(s->m_stencil,st); double* f[Q]; initDF(s->m_f,"f",Q,0,f); vecn(fv(&s->m_density),"rho"); s->m_velocity.resize(D); for(int a=0;a<D;a++){ vecn(fv(&s->m_velocity[a]),a==0?"ux":a==1?"uy":"uz"); for(int k=0;k<NN;k++) ii_u[a][k]=fv(&s->m_velocity[a])->data[k]; } for(int k=0;k<NN;k++){ ii_rho[0][k]=fv(&s->m_density)->data[k]; for(int n=1;n<4;n++) ii_rho[n][k]=vc_real(nm("newrho",n*2+k),-100,100); }
	double t0=s->m_time=vc_real("time",0,100); TC* tc=new TC(st); tc->Q=Q; tc->hook=Ini<D>::coll; for(int i=0;i<Q;i++){ tc->A[i]=vc_real(nm("A",i),-1,1); for(int a=0;a<D;a++) tc->B[i][a]=vc_real(nm(a==0?"Bx":a==1?"By":"Bz",i),-1,1); } sp(s->m_collisionModel,tc); vc_override(D==2?"CFDSolver<2ul>::stream()":"CFDSolver<3ul>::stream()",(void*)Ini<D>::stream);
	s->initializeDistributions(); vc_reach("initialized"); int n=ii_coll; vc_check("streams-then-collides",ii_stream==n); if(!iterative) vc_check("no-iteration-without-iterative-scheme",n==0); else { vc_check("ends-after-the-configured-iterations",n>=1&&n<=(int)sc.iters+1); double r=0; for(int k=0;k<NN;k++) r+=(ii_rho[n][k]-ii_rho[n-1][k])*(ii_rho[n][k]-ii_rho[n-1][k]); vc_check("ends-when-the-density-settled",n==(int)sc.iters+1||!(r>sc.res)); }
	vc_check_eq("time-is-restored",s->m_time,t0); for(int k=0;k<NN;k++){ vc_check_eq("density-of-the-last-iteration",fv(&s->m_density)->data[k],ii_rho[n][k]); for(int a=0;a<D;a++) vc_check_eq("prescribed-velocity",fv(&s->m_velocity[a])->data[k],ii_u[a][k]); for(int i=0;i<Q;i++){ double e=tc->A[i]*ii_rho[0][k]; for(int a=0;a<D;a++) e+=tc->B[i][a]*ii_u[a][k]; vc_check_eq("equilibrium-of-the-fields",val(s->m_f,i,k),e+(i==1?0.125*n:i==2?0.25*n:0)); } } }
VC_HARNESS(initdist_2){ initdist<2,D2Q9,9>(false); } VC_HARNESS(initdist_3){ initdist<3,D3Q15,15>(false); } VC_HARNESS(iterative_2){ initdist<2,D2Q9,9>(true); } VC_HARNESS(iterative_3){ initdist<3,D3Q15,15>(true); }
// ---- initial distributions (compressible)
template<int D, int Q, class ST> struct CIni { static CompressibleCFDSolver<D>* s;
	static void moments(int k, double gamma){ ST r(1.0); double c2=r.getSpeedOfSoundSquare(), rho=ii_rho[0][k], T=ii_rho[1][k], th=c2*T, z=s->m_stencil->getScaling(), e[Q][D], f[Q], u[D]; for(int a=0;a<D;a++) u[a]=ii_u[a][k]; for(int i=0;i<Q;i++){ f[i]=val(s->m_f,i,k); vc_check_eq("internal-energy-of-the-fields",val(s->m_g,i,k)*(gamma-1),f[i]*T*(2-D*(gamma-1))); for(int a=0;a<D;a++) e[i][a]=r.getDirection(i)(a); }
		double m=0; for(int i=0;i<Q;i++) m+=f[i]; vc_check_eq("initial-density",m,rho); for(int a=0;a<D;a++){ double j=0; for(int i=0;i<Q;i++) j+=e[i][a]*f[i]; vc_check_eq("initial-momentum",j*z,rho*u[a]); for(int b=0;b<=a;b++){ double p=0; for(int i=0;i<Q;i++) p+=e[i][a]*e[i][b]*f[i]; vc_check_eq("initial-stress",p*z*z,rho*(u[a]*u[b]+(a==b?th*z*z:0))); for(int c=0;c<=b;c++){ double q=0; for(int i=0;i<Q;i++) q+=e[i][a]*e[i][b]*e[i][c]*f[i]; vc_check_eq("initial-heat-flux",q*z*z*z,rho*(u[a]*u[b]*u[c]+th*z*z*((b==c?u[a]:0)+(a==c?u[b]:0)+(a==b?u[c]:0)))); } } }
		for(int a=0;a<D;a++){ double p=0, uu=0; for(int k=0;k<D;k++) uu+=u[k]*u[k]; for(int i=0;i<Q;i++){ double ee=0; for(int k=0;k<D;k++) ee+=e[i][k]*e[i][k]; p+=e[i][a]*e[i][a]*ee*f[i]; } vc_check_eq("initial-fourth-moment",p*z*z*z*z,rho*(u[a]*u[a]*uu+th*z*z*(uu+(D+4)*u[a]*u[a])+th*th*z*z*z*z*(D+2))); } }
	static void stream(CFDSolver<D>* x){ vc_check("streams-then-collides",ii_stream==ii_coll); ii_stream++; x->m_time+=1; }
	static double tstep(const void* mesh, unsigned long order, const Stencil& st, double cfl){ return g_dt; }
	static void coll(SolverConfiguration& c, const ProblemDescription<D>& p, DistributionFunctions& f, DistributionFunctions& g, distributed_vector& rho, std::vector<distributed_vector>& u, distributed_vector& T, distributed_vector& m, const dealii::IndexSet& o, const double visc, const double delta, const Stencil& st, const bool init){ vc_check("streams-then-collides",ii_stream==++ii_coll); vc_check("collision-of-this-problem",&f==&s->m_f&&&g==&s->m_g&&&c==s->m_configuration.get()&&&p==s->m_problemDescription.get()&&&st==s->m_stencil.get()); vc_check("velocity-is-kept-during-initialization",init); vc_check_eq("configured-viscosity",visc,s->m_problemDescription->m_viscosity); vc_check_eq("configured-time-step",delta,g_dt); for(int k=0;k<NN;k++){ vc_check_eq("iterates-from-the-initial-fields",fv(&rho)->data[k],ii_rho[0][k]); vc_check_eq("iterates-from-the-initial-fields",fv(&T)->data[k],ii_rho[1][k]); for(int a=0;a<D;a++) vc_check_eq("iterates-from-the-initial-fields",fv(&u.at(a))->data[k],ii_u[a][k]); } }
	static void go(bool iterative){ install_solver(); typedef CompressibleCFDSolver<D> S; s=rawSolver<S,D>(); sc.init=iterative?COMPRESSIBLE_ITERATIVE:EQUILIBRIUM; sc.iters=vc_choose("iterations",3); ST* st=new ST(vc_real("scaling",0.1,100)); sp(s->m_stencil,st); double* f[Q]; initDF(s->m_f,"f",Q,0,f); initDF(s->m_g,"g",Q,1,f); vecn(fv(&s->m_density),"rho"); vecn(fv(&s->m_temperature),"T"); vecn(fv(&s->m_maskShockSensor),"mask"); s->m_velocity.resize(D); for(int a=0;a<D;a++){ vecn(fv(&s->m_velocity[a]),a==0?"ux":a==1?"uy":"uz"); for(int k=0;k<NN;k++) ii_u[a][k]=fv(&s->m_velocity[a])->data[k]; } for(int k=0;k<NN;k++){ ii_rho[0][k]=fv(&s->m_density)->data[k]; ii_rho[1][k]=fv(&s->m_temperature)->data[k];}
		double t0=s->m_time=vc_real("time",0,100), gamma=cfg.gamma=vc_real("gamma",1.01,3); g_dt=vc_real("dt",1e-6,1); s->m_problemDescription->m_viscosity=vc_real("viscosity",1e-6,10); vc_override(D==2?"CFDSolver<2ul>::stream()":"CFDSolver<3ul>::stream()",(void*)stream); vc_override("CFDSolverUtilities::calculateTimestep<",(void*)tstep); vc_override("^void natrium::selectCollision<",(void*)coll);
		s->initializeDistributions(); vc_reach("initialized"); vc_check("ends-after-the-configured-iterations",ii_coll==(iterative?(int)sc.iters:0)&&ii_stream==ii_coll); vc_check_eq("time-is-restored",s->m_time,t0); for(int k=0;k<NN;k++){ double T=ii_rho[1][k]; vc_check_eq("prescribed-density",fv(&s->m_density)->data[k],ii_rho[0][k]); vc_check_eq("prescribed-temperature",fv(&s->m_temperature)->data[k],T); for(int a=0;a<D;a++) vc_check_eq("prescribed-velocity",fv(&s->m_velocity[a])->data[k],ii_u[a][k]); moments(k,gamma); } } };
template<int D, int Q, class ST> CompressibleCFDSolver<D>* CIni<D,Q,ST>::s;
VC_HARNESS(initdist_compressible_2){ CIni<2,25,D2Q25H>::go(false); } VC_HARNESS(initdist_compressible_3){ CIni<3,45,D3Q45>::go(false); } VC_HARNESS(iterative_compressible_2){ CIni<2,25,D2Q25H>::go(true); } VC_HARNESS(iterative_compressible_3){ CIni<3,45,D3Q45>::go(true); }
// ---- restart (compressible): the internal energy and the temperature are those of the loaded distributions
static unsigned long c_restart(void*){ return 5; } static void ck_ctor(void* c){ void** t=(void**)malloc(16*8); for(int i=0;i<16;i++) t[i]=(void*)vcm::vm_nop; *(void***)c=t; } static std::string c_str(void*){ return std::string("out"); } static bool c_yes(void*){ return true; }
template<int D, class ST, int Q> struct Restart { typedef CompressibleCFDSolver<D> S; static double old[Q][NN], gold[Q][NN]; static ST* st; static S* raw;
	static void base(CFDSolver<D>* s){ ((void**)&s->m_advectionOperator)[0]=Adv<D>::make(); sp(s->m_configuration,configuration()); sp(s->m_stencil,st); double* f[Q]; initDF(s->m_f,"f",Q,0,f); for(int k=0;k<NN;k++){ double r=0; for(int i=0;i<Q;i++) r+=(old[i][k]=f[i][k]); vc_assume(r>1e-3); } vecn(fv(&s->m_density),"rho"); new(&s->m_velocity) std::vector<distributed_vector>(D); for(int a=0;a<D;a++) vecn(fv(&s->m_velocity[a]),a==0?"ux":a==1?"uy":"uz"); w_ctor(fv(&s->m_maskShockSensor)); }
	static void dfctor(DistributionFunctions* f){ f->m_Q=0; w_ctor(fv(&f->m_f0)); bl_ctor((FakeBlock*)&f->m_fStream); w_ctor(fv(&f->m_f0Ghosted)); bl_ctor((FakeBlock*)&f->m_fStreamGhosted); }
	static void dfreinit(DistributionFunctions* f, unsigned long q){ double* g[Q]; vc_check("all-directions",q==Q); initDF(*f,"g",Q,1,g); }
	static bool load(S* s){ double* g[Q]; initDF(s->m_g,"g",Q,1,g); for(int i=0;i<Q;i++) for(int k=0;k<NN;k++) gold[i][k]=g[i][k]; return true; }
	static void setup(){ install_solver(); st=new ST(vc_real("scaling",0.1,100)); cfg.gamma=vc_real("gamma",1.01,3); vc_override("^boost::filesystem",(void*)vcm::vm_nop); vc_override("SolverConfiguration::getOutputDirectory",(void*)c_str); vc_override("SolverConfiguration::getRestartAtIteration()",(void*)c_restart); vc_override("::Checkpoint(unsigned long",(void*)ck_ctor); vc_override("::exists()",(void*)c_yes); vc_override("::~Checkpoint()",(void*)vcm::vm_nop); vc_override("^natrium::DistributionFunctions::reinit(",(void*)dfreinit); vc_override("^natrium::DistributionFunctions::DistributionFunctions()",(void*)dfctor); vc_override("isOutputCompressibleTurbulenceStatistics()",(void*)c_no); }
	static double temp(int k, double* u, double& rho){ rho=0; for(int a=0;a<D;a++) u[a]=0; for(int i=0;i<Q;i++){ rho+=old[i][k]; for(int a=0;a<D;a++) u[a]+=st->getDirection(i)(a)*old[i][k]; } for(int a=0;a<D;a++) u[a]/=rho; double t=0; for(int i=0;i<Q;i++){ double s=0; for(int a=0;a<D;a++){ double c=st->getDirection(i)(a)-u[a]; s+=c*c; } t+=s*old[i][k]; } return t; } // twice the thermal energy of f
	static void energy(){ setup(); S* s=(S*)calloc(1,sizeof(S)); base(s); bool r=s->applyCheckpointToG(); vc_reach("loaded"); vc_check("restart-is-recognized",r); double cs2=st->getSpeedOfSoundSquare(), u[D], rho; for(int k=0;k<NN;k++){ double t=temp(k,u,rho); for(int i=0;i<Q;i++){ vc_check_eq("distributions-untouched",val(s->m_f,i,k),old[i][k]); vc_check_eq("internal-energy-of-the-loaded-state",val(s->m_g,i,k)*(cfg.gamma-1)*rho*cs2*D,old[i][k]*t*(2-D*(cfg.gamma-1))); } } }
	static void temperature(){ setup(); vc_override(D==2?"CFDSolver<2ul>::CFDSolver(":"CFDSolver<3ul>::CFDSolver(",(void*)base); vc_override("::applyCheckpointToG()",(void*)load); S* s=(S*)calloc(1,sizeof(S)); boost::shared_ptr<SolverConfiguration> c; sp(c,configuration()); boost::shared_ptr<ProblemDescription<D>> p; new(s) S(c,p); vc_reach("constructed"); double cs2=st->getSpeedOfSoundSquare(), u[D], rho; for(int k=0;k<NN;k++){ double t=temp(k,u,rho), g=0; for(int i=0;i<Q;i++){ g+=gold[i][k]; vc_check_eq("distributions-untouched",val(s->m_f,i,k),old[i][k]); vc_check_eq("distributions-untouched",val(s->m_g,i,k),gold[i][k]); } vc_check_eq("density-is-the-sum",fv(&s->m_density)->data[k],rho); for(int a=0;a<D;a++) vc_check_eq("velocity-is-the-mean",fv(&s->m_velocity[a])->data[k],u[a]); vc_check_eq("temperature-of-the-loaded-state",fv(&s->m_temperature)->data[k]*2*rho*cs2,(t+cs2*g)*(cfg.gamma-1)); } } };
template<int D, class ST, int Q> double Restart<D,ST,Q>::old[Q][NN]; template<int D, class ST, int Q> double Restart<D,ST,Q>::gold[Q][NN]; template<int D, class ST, int Q> ST* Restart<D,ST,Q>::st;
VC_HARNESS(restart_g_2){ Restart<2,D2Q9,9>::energy(); } VC_HARNESS(restart_g_3){ Restart<3,D3Q15,15>::energy(); } VC_HARNESS(restart_2){ Restart<2,D2Q9,9>::temperature(); } VC_HARNESS(restart_3){ Restart<3,D3Q15,15>::temperature(); }
