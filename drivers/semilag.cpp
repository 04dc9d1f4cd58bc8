// Semi-Lagrangian streaming: characteristics, face crossing, interpolation, boundary hits, periodic boundaries.
#include <queue>
#include "deal.II/fe/fe_values.h"
#include "common.h"
#include "natrium/advection/SemiLagrangian.cpp"
#include "natrium/advection/SemiLagrangianTools.cpp"
#include "natrium/boundaries/SemiLagrangianBoundaryHandler.cpp"
#include "natrium/boundaries/PeriodicBoundary.cpp"
#include "natrium/solver/DistributionFunctions.cpp"
#include "natrium/stencils/Stencil.cpp"
#include "natrium/stencils/D2Q9.cpp"
#include "natrium/stencils/D3Q15.cpp"
#include "nodes.h"
using namespace vcf;
// ---- contract of the mapping: the cell is an axis-parallel box with corner o and inverse edge lengths s (face crossing is decided in unit coordinates)
static double g_o[3], g_s[3], g_e[3];
template<int D> struct MapC { typedef typename dealii::Triangulation<D>::cell_iterator CI;
	static dealii::Point<D> toUnit(const void*, const CI&, const dealii::Point<D>& p){ dealii::Point<D> r; for(int c=0;c<D;c++) r[c]=(p[c]-g_o[c])*g_s[c]; return r; }
	static dealii::Point<D> toReal(const void*, const CI&, const dealii::Point<D>& p){ dealii::Point<D> r; for(int c=0;c<D;c++) r[c]=g_o[c]+g_e[c]*p[c]; return r; } };
template<int D> static void* mapping(){ void** vt=(void**)calloc(128,8); for(int i=0;i<128;i++) vt[i]=(void*)vcm::vm_null; typedef dealii::Point<D> (dealii::Mapping<D>::*F)(const typename dealii::Triangulation<D>::cell_iterator&, const dealii::Point<D>&) const; union { F f; long w[2]; } u; u.f=&dealii::Mapping<D>::transform_real_to_unit_cell; vt[(u.w[0]-1)/8]=(void*)MapC<D>::toUnit; u.f=&dealii::Mapping<D>::transform_unit_to_real_cell; vt[(u.w[0]-1)/8]=(void*)MapC<D>::toReal; void** m=(void**)calloc(1,4096); m[0]=vt; return m; }
template<int D> static unsigned child_of(const dealii::Point<D>& p){ unsigned r=0; for(int c=0;c<D;c++) if(p[c]>0.5) r+=1u<<c; return r; }
static void install_sl(){ install(); vc_override("^natrium::LOG(",(void*)vcm::vm_null); }
// the first face: cell is the unit box scaled by s and moved by o
template<int D> void face(int axis){ install_sl(); SemiLagrangian<D>* a=(SemiLagrangian<D>*)calloc(1,sizeof(SemiLagrangian<D>)); *(void**)&a->m_mapping=mapping<D>(); dealii::Point<D> pi, po, pb; double ui[3], uo[3];
	for(int c=0;c<D;c++){ g_o[c]=D==2?vc_real(nm("corner",c),-10,10):c+1; g_e[c]=D==2?vc_real(nm("edge",c),0.01,10):0.5; g_s[c]=1/g_e[c]; int ki, ko; if(D==2||c==axis){ ki=vc_choose("inner",3); ko=D==2?vc_choose("outer",5):2+vc_choose("outer",3); } else { ki=2; ko=vc_choose("outer",2)?3:c==(axis+1)%3?2:4; } ui[c]=ki==0?0:ki==1?1:vc_real(nm("inside",c),1e-9,1-1e-9); uo[c]=ko==0?0:ko==1?1:ko==2?vc_real(nm("outside",c),-30,-1e-9):ko==3?vc_real(nm("outside",c),1e-9,1-1e-9):vc_real(nm("outside",c),1+1e-9,30); pi[c]=g_o[c]+g_e[c]*ui[c]; po[c]=g_o[c]+g_e[c]*uo[c]; }
	double lambda=7; size_t child=99; static typename dealii::DoFHandler<D>::active_cell_iterator* it=(typename dealii::DoFHandler<D>::active_cell_iterator*)calloc(1,256); int f=a->faceCrossedFirst(*it,pi,po,pb,&lambda,&child); vc_reach("face");
	bool in=true; for(int c=0;c<D;c++) in=in&&uo[c]>=0&&uo[c]<=1; if(f==-1){ vc_check("departure-point-inside",in); return; } vc_check("outside-is-noticed",!in); vc_check("face-number",f>=0&&f<2*D);
	int ax=f/2; vc_check("face-is-crossed",f%2?uo[ax]>1:uo[ax]<0); vc_check_eq("lambda-at-face",lambda*(uo[ax]-ui[ax]),(f%2?1:0)-ui[ax]);
	for(int c=0;c<D;c++){ double h=(pb[c]-g_o[c])*g_s[c], x=ui[c]+lambda*(uo[c]-ui[c]); if(c==ax) vc_check_eq("on-the-face",h,f%2); else { if(uo[c]>1) vc_check("first-face",lambda*(uo[c]-ui[c])<=1-ui[c]); if(uo[c]<0) vc_check("first-face",lambda*(uo[c]-ui[c])>=0-ui[c]); vc_check("on-the-path",h-x<=1e-10&&x-h<=1e-10); } } }
VC_HARNESS(face_2){ face<2>(0); } VC_HARNESS(face_3y){ face<3>(1); } VC_HARNESS(face_3z){ face<3>(2); }
// ---- following characteristics and assembling: a mesh of numbered cells; where a path leaves its cell is decided by the contract of faceCrossedFirst
// (an arbitrary face at an arbitrary remaining time); what lies behind the face is chosen: neighbor, refined neighbor, periodic boundary, wall, outflow, other boundary
typedef dealii::TrilinosWrappers::SparseMatrix SpM;
struct CellRaw { int level, index; const void* tria; void* dofs; };
enum Event { FOUND, INTERIOR, REFINED, PERIODIC, WALL, OUTFLOW, OTHERWALL }; enum { N_FACES_USED=3 };
static int g_dim, g_Q, g_nd, g_script[4], g_len2, g_schedDof, g_schedDir, g_mode, g_row; static double g_dtt; static Stencil* g_sten; static double g_x[8][3], g_left[4], g_shift[4][3]; static const int DOFS[3][2]={{0,1},{1,2},{3,4}}; static bool OWNED[5]={true,true,false,true,false};
struct Path { bool seen, done; int cell, dir, step; double p[3], d[3]; bool flip; double left; int adds[8]; }; static Path g_path[8][32]; static Path* g_cur; static int g_curDof, g_curDir, g_pending;
struct Rec { int cell; double p[3]; }; static Rec g_rec[512]; static int g_nrec, g_prev;
static int next_cell(int cell, int kind){ return 10+(cell%10)+ (kind==REFINED?30:kind==PERIODIC?60:20); }
static bool c_owned(CellRaw* c){ return c->index<3; } static bool c_ghost(CellRaw* c){ return c->index>=3; } static bool c_atb(CellRaw*, unsigned f){ return g_pending==PERIODIC||g_pending==WALL||g_pending==OUTFLOW||g_pending==OTHERWALL; }
static CellRaw c_face(CellRaw* c, unsigned f){ CellRaw r=*c; r.index=c->index*100+f; return r; } static unsigned f_bid(CellRaw* f){ return (unsigned)(f->index%100==2?g_pending:77); }
static CellRaw c_neighbor(CellRaw* c, unsigned f){ CellRaw r=*c; if(f!=2) vc_fail("neighbor-behind-the-crossed-face"); if(c->index>=1000){ if(c->index!=1500+g_prev) vc_fail("neighbor-of-the-crossed-child"); r.index=next_cell(g_prev,REFINED); r.level=1; return r; } r.index=g_pending==REFINED?999:next_cell(c->index,INTERIOR); return r; }
static CellRaw c_child(CellRaw* c, unsigned i){ CellRaw r=*c; if(i!=3) vc_fail("neighbor-of-the-crossed-child"); r.index=1000+c->index+500; return r; } static bool c_haschild(CellRaw* c){ return c->index==999; }
static CellRaw dh_begin(void*, unsigned){ CellRaw r; r.level=0; r.index=0; r.tria=(void*)0x100; r.dofs=(void*)0x200; return r; } static CellRaw dh_end(void*){ CellRaw r=dh_begin(0,0); r.index=4; return r; } static CellRaw* it_next(CellRaw* c){ c->index++; return c; } static bool it_neq(const CellRaw* a, const CellRaw* b){ return a->index!=b->index; } static bool it_eq(const CellRaw* a, const CellRaw* b){ return a->index==b->index; }
static bool it_less(const CellRaw* a, const CellRaw* b){ return a->index<b->index; } static void* it_ptr(void* a){ return a; }
static void c_dofs(CellRaw* c, std::vector<unsigned>* v){ for(int j=0;j<g_nd;j++) (*v)[j]=c->index<3?DOFS[c->index][j]:c->index*10+j; }
static bool is_owned(void* set, unsigned i); static bool g_tracked[16]; static char g_ownedset[8]; static bool is_owned(void* set, unsigned i){ return set==g_ownedset?OWNED[i]:g_tracked[i]; } static void is_add(void* set, unsigned i){ g_tracked[i]=true; } static void* dh_owned(void*){ return g_ownedset; } static unsigned dh_n(void*){ return 5; }
static double dmin(const void*){ return 4*g_sten->getMaxParticleVelocityMagnitude()*g_dtt; }
template<int D> struct SL {
	typedef dealii::Point<D> P; static std::vector<P>* usp; static void* get_usp(void*){ return usp; }
	static P support(const void*, const CellRaw& c, const P& u){ P r; int j=u[0]>0.5?1:0; int d=DOFS[c.index][j]; for(int k=0;k<D;k++) r[k]=g_x[d][k]; return r; }
	static LagrangianPathTracker<D>* tracker(const P& p){ LagrangianPathTracker<D>* t=nullptr; return (LagrangianPathTracker<D>*)((char*)&p-((char*)&t->currentPoint-(char*)t)); }
	static bool eq(const char* what, const P& p, const double* q){ for(int k=0;k<D;k++) vc_check_eq(what,p[k],q[k]); return true; }
	static void begin(LagrangianPathTracker<D>* t){ int i=(int)t->destination.index, a=(int)t->destination.direction; if(i<0||i>4||!OWNED[i]||a<1||a>=g_Q){ vc_fail("characteristic-of-owned-node"); return; } Path& q=g_path[i][a]; g_curDof=i; g_curDir=a; if(g_cur!=&q){ if(q.seen) vc_fail("characteristic-followed-once"); q.seen=true; g_cur=&q; q.cell=i==3?2:((CellRaw*)&t->currentCell)->index; if(i!=1&&q.cell!=(i==3?2:0)) vc_fail("starts-in-cell-of-node"); if(i==1&&q.cell!=0&&q.cell!=1) vc_fail("starts-in-cell-of-node"); q.dir=a; q.step=0; q.left=g_dtt; for(int k=0;k<D;k++){ q.p[k]=g_x[i][k]; q.d[k]=g_x[i][k]-g_dtt*g_sten->getDirection(a)(k); } } }
	// contract of faceCrossedFirst: minus one when the departure point is inside; otherwise a point of the path on the face
	static int crossed(void*, const CellRaw& c, const P& in, const P& out, P& pb, double* lambda, unsigned long* child, bool){ LagrangianPathTracker<D>* t=tracker(in); begin(t); Path& q=*g_cur; if(&out!=&t->departurePoint||&c!=(const CellRaw*)&t->currentCell){ vc_unsupported("faceCrossedFirst called with copies of the tracked points"); }
		vc_check("current-cell",c.index==q.cell); eq("current-point",in,q.p); eq("departure-point",out,q.d); bool sched=g_curDof==g_schedDof&&g_curDir==g_schedDir; int ev=sched&&q.step<g_len2?g_script[q.step]:FOUND; g_pending=ev; if(ev==FOUND){ q.done=true; return -1; }
		double left=g_left[q.step]; // remaining time at the face
		const dealii::Vector<double> e=g_sten->getDirection(q.dir); *lambda=0.5; *child=3; int s=q.step++;
		for(int k=0;k<D;k++){ pb[k]=q.d[k]+left*e(k); q.p[k]=pb[k]; }
		g_prev=q.cell; if(ev==INTERIOR||ev==REFINED) q.cell=next_cell(q.cell,ev);
		if(ev==PERIODIC){ q.cell=next_cell(q.cell,PERIODIC); for(int k=0;k<D;k++){ q.p[k]+=g_shift[s][k]; q.d[k]+=g_shift[s][k]; } }
		if(ev==WALL){ q.dir=g_sten->getIndexOfOppositeDirection(q.dir); for(int k=0;k<D;k++) q.d[k]=pb[k]+left*e(k); q.left=left; }
		if(ev==OUTFLOW){ q.flip=true; for(int k=0;k<D;k++){ q.p[k]=out[k]+g_dtt*e(k); q.d[k]=out[k]+2*g_dtt*e(k); } q.dir=g_sten->getIndexOfOppositeDirection(q.dir); }
		if(ev==OTHERWALL){ q.done=true; q.left=left; }
		return 2; }
	static P across(void*, const P& p, const CellRaw& c){ P r; int s=g_cur->step-1; if(c.index!=c.index) vc_fail("x"); for(int k=0;k<D;k++) r[k]=p[k]+g_shift[s][k]; return r; }
	static unsigned long opposite(void*, const CellRaw& c, CellRaw& n){ n=c; n.index=next_cell(c.index,PERIODIC); return 2; }
	static int g_hits; static void hit(void*, const LagrangianPathTracker<D>& t, unsigned long id){ Path& q=*g_cur; g_hits++; vc_check("wall-hit-of-this-path",(int)t.destination.index==g_curDof&&(int)t.destination.direction==g_curDir&&(int)id==g_pending&&(g_pending==WALL||g_pending==OTHERWALL)); vc_check("wall-hit-in-cell",((const CellRaw*)&t.currentCell)->index==q.cell); eq("wall-hit-at-face",t.currentPoint,q.p); double r2=0, e2=0; for(int k=0;k<D;k++){ double z=t.departurePoint[k]-t.currentPoint[k]; r2+=z*z; double e=g_sten->getDirection(q.dir)(k); e2+=e*e; } vc_check_eq("wall-hit-time",r2,q.left*q.left*e2); if(t.currentDirection!=(unsigned)q.dir) vc_fail("wall-hit-direction"); }
	static void shapes(const CellRaw& c, const std::vector<P>& pts, std::vector<std::vector<double>>& v, const void*){ if(v.size()!=pts.size()) vc_fail("one-value-list-per-point"); for(unsigned i=0;i<pts.size();i++){ Rec& r=g_rec[g_nrec]; r.cell=c.index; for(int k=0;k<D;k++) r.p[k]=pts[i][k]; for(int j=0;j<g_nd;j++) v[i][j]=g_nrec*10+j+1; g_nrec++; } }
	struct Blk { int i, j; }; static Blk* block(void*, unsigned i, unsigned j){ Blk* b=(Blk*)malloc(sizeof(Blk)); b->i=i; b->j=j; return b; }
	static void entry(Blk* b, unsigned row, unsigned col, double v){ int a=b->i+1; if(row>4||a<1||a>=g_Q||!g_path[row][a].seen){ vc_fail("entry-of-a-characteristic"); return; } Path& q=g_path[row][a]; int code=(int)v-1, k=code/10, j=code%10; if(k<0||k>=g_nrec||j>=g_nd){ vc_fail("entry-is-a-shape-value"); return; } Rec& r=g_rec[k]; int dir=q.flip?g_sten->getIndexOfOppositeDirection(q.dir):q.dir; vc_check("interpolates-in-cell",r.cell==q.cell); for(int c=0;c<D;c++) vc_check_eq("interpolates-at-departure-point",r.p[c],q.d[c]); vc_check("couples-direction",b->j==dir-1); vc_check("interpolation-node",(int)col==(q.cell<3?DOFS[q.cell][j]:q.cell*10+j)); q.adds[j]++; }
	static void pentry(Blk* b, unsigned row, unsigned col){ int a=g_row+1; if(row>4||!g_path[row][a].seen||b->i!=g_row){ vc_fail("entry-of-a-characteristic"); return; } Path& q=g_path[row][a]; int dir=q.flip?g_sten->getIndexOfOppositeDirection(q.dir):q.dir; vc_check("couples-direction",b->j==dir-1); for(int j=0;j<g_nd;j++) if((int)col==(q.cell<3?DOFS[q.cell][j]:q.cell*10+j)){ q.adds[j]++; return; } vc_fail("interpolation-node"); }
};
template<int D> std::vector<dealii::Point<D>>* SL<D>::usp; template<int D> int SL<D>::g_hits;
static bool bc_periodic(void*, unsigned long bi){ return bi==PERIODIC; } struct SP { void* p; void* c; }; static SP g_bsp, g_psp; static void* bc_get(void*, unsigned long bi){ if((int)bi!=g_pending) vc_fail("boundary-of-the-crossed-face"); return &g_bsp; } static void* bc_per(void*, unsigned long bi){ if(bi!=PERIODIC) vc_fail("boundary-of-the-crossed-face"); return &g_psp; } static SP g_coll; static void* pd_bounds(void*){ return &g_coll; }
static int b_name(void*){ static const int W[4]={ZERO_VELOCITY_NEQ_BB,CONSTANT_VELOCITY_NEQ_BB,NONCONSTANT_VELOCITY_NEQ_BB,THERMAL_BB}; return g_pending==WALL?W[(g_schedDir+g_len2)%4]:g_pending==OUTFLOW?DO_NOTHING_BC:VELOCITY_EQUILIBRIUM_BOUNDARY; }
// ---- the fiftieth crossing: a path that never ends keeps its value
static int g_diag; template<int D> struct Endless { static int crossed(void*, const CellRaw& c, const dealii::Point<D>& in, const dealii::Point<D>&, dealii::Point<D>& pb, double*, unsigned long*, bool){ LagrangianPathTracker<D>* t=SL<D>::tracker(in); if((int)t->destination.index!=g_schedDof||(int)t->destination.direction!=g_schedDir){ g_pending=FOUND; return -1; } g_cur=&g_path[0][0]; g_prev=c.index; g_pending=INTERIOR; g_nrec++; return 2; }
	static void entry(typename SL<D>::Blk* b, unsigned row, unsigned col, double v){ if((int)row!=g_schedDof||b->j!=g_schedDir-1) return; vc_check("endless-path-keeps-its-value",(int)col==g_schedDof&&b->i==(g_row<0?b->j:g_row)&&v==1.0&&g_diag==0); g_diag++; } static void pentry(typename SL<D>::Blk* b, unsigned row, unsigned col){ entry(b,row,col,1.0); } };
template<int D, int Q, class S> void follow(int maxlen, bool pattern, bool endless=false){
	install_sl(); g_dim=D; g_Q=Q; g_nd=2; typedef SL<D> L; g_sten=new S(vc_real("scaling",0.1,100)); g_dtt=vc_real("dt",0.001,1);
	vc_override("::is_locally_owned() const",(void*)c_owned); vc_override("::is_ghost() const",(void*)c_ghost); vc_override("::at_boundary(unsigned int) const",(void*)c_atb); vc_override("::face(unsigned int) const",(void*)c_face); vc_override("::boundary_id() const",(void*)f_bid); vc_override("::neighbor(unsigned int) const",(void*)c_neighbor); vc_override("::child(unsigned int) const",(void*)c_child); vc_override("::has_children() const",(void*)c_haschild); vc_override("::get_dof_indices(",(void*)c_dofs);
	vc_override("::begin_active(unsigned int) const",(void*)dh_begin); vc_override("dealii::DoFHandler<2, 2>::end() const",(void*)dh_end); vc_override("dealii::DoFHandler<3, 3>::end() const",(void*)dh_end); vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<2, 2, false>>::operator++()",(void*)it_next); vc_override("^dealii::TriaActiveIterator<dealii::DoFCellAccessor<3, 3, false>>::operator++()",(void*)it_next); vc_override("false>>::operator!=(",(void*)it_neq); vc_override("false>>::operator==(",(void*)it_eq); vc_override("false>>::operator<(",(void*)it_less); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<2, 2, false>>::operator->()",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<3, 3, false>>::operator->()",(void*)it_ptr);
	vc_override("^dealii::IndexSet::is_element(",(void*)is_owned); vc_override("^dealii::IndexSet::add_index(",(void*)is_add); vc_override("^dealii::IndexSet::IndexSet(",(void*)vcm::vm_nop); vc_override("::locally_owned_dofs() const",(void*)dh_owned); vc_override("::n_dofs() const",(void*)dh_n); vc_override("getMinimumVertexDistance<",(void*)dmin); vc_override("^dealii::IndexSet::~IndexSet()",(void*)vcm::vm_nop);
	vc_override("::get_unit_support_points() const",(void*)L::get_usp); vc_override(D==2?"^natrium::SemiLagrangian<2ul>::faceCrossedFirst(":"^natrium::SemiLagrangian<3ul>::faceCrossedFirst(",(void*)L::crossed); vc_override("::coordinatesAcrossPeriodicBoundary(",(void*)L::across); vc_override("::getOppositeCellAtPeriodicBoundary(",(void*)L::opposite); vc_override("::addHit(natrium::LagrangianPathTracker",(void*)L::hit); vc_override("^void natrium::shapeFunctionValue<",(void*)L::shapes);
	vc_override("^dealii::BlockMatrixBase<dealii::TrilinosWrappers::SparseMatrix>::block(",(void*)L::block); vc_override("SparsityPattern>::block(",(void*)L::block); vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)L::entry); vc_override("SparsityPattern::add(unsigned int, unsigned int)",(void*)L::pentry);
	vc_override("::isPeriodic(unsigned long) const",(void*)bc_periodic); vc_override("::getBoundary(unsigned long) const",(void*)bc_get); vc_override("::getPeriodicBoundary(unsigned long) const",(void*)bc_per); vc_override("::getBoundaryName() const",(void*)b_name); vc_override("ProblemDescription<2ul>::getBoundaries() const",(void*)pd_bounds); vc_override("ProblemDescription<3ul>::getBoundaries() const",(void*)pd_bounds);  vc_override("ProblemDescription<2ul>::getBoundaries()",(void*)pd_bounds); vc_override("ProblemDescription<3ul>::getBoundaries()",(void*)pd_bounds); vc_override("ProblemDescription<2ul>::getMesh()",(void*)pd_bounds); vc_override("ProblemDescription<3ul>::getMesh()",(void*)pd_bounds); vc_override("MPI::n_mpi_processes(",(void*)vcm::one_);
	g_bsp.p=calloc(1,64); g_psp.p=calloc(1,64); g_coll.p=calloc(1,64); L::usp=new std::vector<dealii::Point<D>>(); for(int i=0;i<2;i++){ dealii::Point<D> p; p[0]=i; L::usp->push_back(p); }
	for(int i=0;i<5;i++) for(int k=0;k<D;k++) g_x[i][k]=vc_real(nm(k==0?"x":k==1?"y":"z",i),-10,10); g_len2=vc_choose("faces",maxlen+1); g_schedDof=g_len2?(vc_choose("node",2)?3:1):0; g_schedDir=g_len2?1+vc_choose("direction",Q-1):1; for(int s=0;s<g_len2;s++){ g_script[s]=1+vc_choose("event",6); g_left[s]=vc_real(nm("left",s),0,1); for(int k=0;k<D;k++) g_shift[s][k]=vc_real(nm(k==0?"sx":k==1?"sy":"sz",s),-10,10); if(g_script[s]==OUTFLOW) vc_assume(s==0); if(g_script[s]==OTHERWALL) g_len2=s+1; }
	SemiLagrangian<D>* a=(SemiLagrangian<D>*)calloc(1,sizeof(SemiLagrangian<D>)); void* pd=calloc(1,4096); *(void**)((char*)&a->m_mapping-8)=pd;
	void** m=(void**)mapping<D>(); typedef dealii::Point<D> (dealii::Mapping<D>::*F)(const typename dealii::Triangulation<D>::cell_iterator&, const dealii::Point<D>&) const; union { F f; long w[2]; } u; u.f=&dealii::Mapping<D>::transform_unit_to_real_cell; ((void**)m[0])[(u.w[0]-1)/8]=(void*)L::support; *(void**)&a->m_mapping=m; void* fe=calloc(1,4096); *(unsigned*)&((dealii::FiniteElement<D>*)fe)->dofs_per_cell=2; *(void**)&a->m_fe=fe; *(void**)&a->m_doFHandler=calloc(1,4096); *(void**)&a->m_stencil=g_sten; a->m_deltaT=g_dtt;
	if(endless){ g_schedDof=vc_choose("node",2)?3:1; g_schedDir=1+vc_choose("direction",Q-1); vc_override(D==2?"^natrium::SemiLagrangian<2ul>::faceCrossedFirst(":"^natrium::SemiLagrangian<3ul>::faceCrossedFirst(",(void*)Endless<D>::crossed); vc_override("^dealii::TrilinosWrappers::SparseMatrix::add(unsigned int, unsigned int, double)",(void*)Endless<D>::entry); vc_override("SparsityPattern::add(unsigned int, unsigned int)",(void*)Endless<D>::pentry); vc_override("^void natrium::shapeFunctionValue<",(void*)vcm::vm_nop); }
	g_row=pattern?g_schedDir-1:-1; a->fillSparseObject(pattern,g_row); vc_reach("assembled"); if(endless){ vc_check("endless-path-keeps-its-value",g_diag==1); return; }
	for(int i=0;i<5;i++) for(int d=1;d<Q;d++){ Path& q=g_path[i][d]; bool want=OWNED[i]&&(!pattern||d==g_row+1); vc_check("every-characteristic-followed",q.seen==want&&q.done==want); bool hitend=want&&i==g_schedDof&&d==g_schedDir&&g_len2&&g_script[g_len2-1]==OTHERWALL; for(int j=0;j<g_nd;j++) vc_check("every-interpolation-entry-once",q.adds[j]==(want&&!hitend?1:0)); }
	int walls=0; for(int s=0;s<g_len2;s++) if(g_script[s]==WALL||g_script[s]==OTHERWALL) walls++; vc_check("every-wall-hit-recorded",SL<D>::g_hits==(pattern?0:walls)); }
VC_HARNESS(endless_D2Q9){ follow<2,9,D2Q9>(0,false,true); } VC_HARNESS(endless_pattern_D2Q9){ follow<2,9,D2Q9>(0,true,true); }
VC_HARNESS(follow_D2Q9){ follow<2,9,D2Q9>(2,false); }

VC_HARNESS(follow_D3Q15){ follow<3,15,D3Q15>(1,false); } VC_HARNESS(pattern_D2Q9){ follow<2,9,D2Q9>(1,true); } VC_HARNESS(pattern_D3Q15){ follow<3,15,D3Q15>(1,true); }

// ---- boundary hits: three hits in two cells; every one is handed to its boundary condition exactly once, at its own point, direction, node and time
template<int D> struct HitC { static dealii::Point<D> pt[3]; static double tau[3]; static int cell[3], bd[3], dir[3], calls[3]; static int curcell, curq; static std::vector<dealii::Point<D>>* pts; static BoundaryFlags flags; static char data[8]; static double tt, dtt; static const Stencil* st;
	static void fe_ctor(void* self, const CellRaw& c, const std::vector<dealii::Point<D>>& p, void*, void*, BoundaryFlags& f, void*){ curcell=c.index; pts=new std::vector<dealii::Point<D>>(p); flags=f; curq=-1; BoundaryFlags want=c.index==0?(boundary_rho|boundary_u):boundary_u; vc_check("update-flags-of-cell",f==want); }
	static void fe_reinit(void*, unsigned long q){ curq=(int)q; }
	static bool atb(CellRaw* c, unsigned f){ return c->index==0?f<2:f==2||f==3; } static unsigned bid(CellRaw* f){ int i=f->index; return i==0?1:i==1?2:i==102?2:i==103?3:99; } };
template<int D> dealii::Point<D> HitC<D>::pt[3]; template<int D> double HitC<D>::tau[3]; template<int D> int HitC<D>::cell[3]; template<int D> int HitC<D>::bd[3]; template<int D> int HitC<D>::dir[3]; template<int D> int HitC<D>::calls[3]; template<int D> int HitC<D>::curcell; template<int D> int HitC<D>::curq; template<int D> std::vector<dealii::Point<D>>* HitC<D>::pts; template<int D> BoundaryFlags HitC<D>::flags; template<int D> char HitC<D>::data[8]; template<int D> double HitC<D>::tt; template<int D> double HitC<D>::dtt; template<int D> const Stencil* HitC<D>::st;
template<int D> struct TB: Boundary<D> { int id; bool per; BoundaryFlags fl; TB(int i, bool p, BoundaryFlags f, BoundaryName n=VELOCITY_EQUILIBRIUM_BOUNDARY):Boundary<D>(i,n,PrescribedBoundaryValues<D>()),id(i),per(p),fl(f){} bool isPeriodic() const { return per; } bool isDGSupported() const { return false; } bool isSLSupported() const { return true; } BoundaryFlags getUpdateFlags() const { return fl; }
	void calculateBoundaryValues(FEBoundaryValues<D>& fe, size_t q, const LagrangianPathDestination& d, double eps, double t){ typedef HitC<D> H; int h=(int)d.index-10; if(h<0||h>2||q>=H::pts->size()){ vc_fail("hit-of-this-list"); return; } H::calls[h]++; vc_check("boundary-of-hit",id==H::bd[h]); vc_check("direction-of-hit",(int)d.direction==H::dir[h]); vc_check("cell-of-hit",H::curcell==H::cell[h]); vc_check("values-at-hit-point",H::curq==(int)q); for(int c=0;c<D;c++){ double z=(*H::pts)[q][c]-H::pt[h][c]; vc_check("point-of-hit",z<=1e-9&&-z<=1e-9); } vc_check_eq("time",t,H::tt);
		double e2=0; for(int c=0;c<D;c++){ double e=H::st->getDirection(H::dir[h])(c); e2+=e*e; } double left=H::dtt-eps; vc_check_eq("time-of-hit",left*left*e2,H::tau[h]*H::tau[h]*e2); vc_check("time-of-hit",left>=0); } };
template<int D> static SemiLagrangianBoundaryHandler<D>* handler(Stencil* st, double dt, BoundaryCollection<D>* bc){ SemiLagrangianBoundaryHandler<D>* h=(SemiLagrangianBoundaryHandler<D>*)calloc(1,sizeof(SemiLagrangianBoundaryHandler<D>)); new(&h->m_hitList) HitList<D>(); h->m_timeStep=dt; void** r=(void**)&h->m_timeStep; r[1]=st; r[2]=calloc(1,4096); r[3]=calloc(1,4096); r[4]=bc; r[5]=calloc(1,4096); return h; }
template<int D, int Q, class S> void hits(){ install_sl(); typedef HitC<D> H; S* st=new S(vc_real("scaling",0.1,100)); H::st=st; H::dtt=vc_real("dt",0.001,1); H::tt=vc_real("t",0,100);
	vc_override("::at_boundary(unsigned int) const",(void*)H::atb); vc_override("::face(unsigned int) const",(void*)c_face); vc_override("::boundary_id() const",(void*)H::bid); vc_override("false>>::operator==(",(void*)it_eq); vc_override("false>>::operator!=(",(void*)it_neq); vc_override("false>>::operator<(",(void*)it_less); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<2, 2, false>>::operator->()",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<3, 3, false>>::operator->()",(void*)it_ptr);
	vc_override("::FEBoundaryValues(dealii::TriaActiveIterator",(void*)H::fe_ctor); vc_override("FEBoundaryValues<2ul>::~FEBoundaryValues()",(void*)vcm::vm_nop); vc_override("FEBoundaryValues<3ul>::~FEBoundaryValues()",(void*)vcm::vm_nop); vc_override("FEBoundaryValues<2ul>::reinit(",(void*)H::fe_reinit); vc_override("FEBoundaryValues<3ul>::reinit(",(void*)H::fe_reinit); vc_override("::getFe() const",(void*)pd_bounds); vc_override("::getMapping() const",(void*)pd_bounds); vc_override("GlobalBoundaryData::GlobalBoundaryData(",(void*)vcm::vm_nop); vc_override("GlobalBoundaryData::~GlobalBoundaryData(",(void*)vcm::vm_nop);
	BoundaryCollection<D>* bc=new BoundaryCollection<D>(); bc->addBoundary(boost::shared_ptr<Boundary<D>>(new TB<D>(1,false,boundary_rho))); bc->addBoundary(boost::shared_ptr<Boundary<D>>(new TB<D>(2,false,boundary_u))); bc->m_boundaries.insert(std::make_pair((size_t)3,boost::shared_ptr<Boundary<D>>(new TB<D>(3,true,boundary_d2u_dxdt))));
	SemiLagrangianBoundaryHandler<D>* h=handler<D>(st,H::dtt,bc); int n=1+vc_choose("hits",3); CellRaw c; memset((void*)&c,0,sizeof(c)); c.tria=(void*)0x100; c.dofs=(void*)0x200;
	for(int i=0;i<n;i++){ H::cell[i]=i?vc_choose("cell",2):0; H::bd[i]=H::cell[i]?2:1+vc_choose("boundary",2); H::dir[i]=1+(i*3+n)%(Q-1); int same=i==0?D+1:n==2?vc_choose("same-point",D+2):vc_choose("same-point",i==1?3:2); H::tau[i]=vc_real(nm("left",i),0,1)*H::dtt; for(int k=0;k<D;k++) H::pt[i][k]=same<=D&&k!=same-1?H::pt[0][k]:vc_real(nm(k==0?"px":k==1?"py":"pz",i),-10,10); dealii::Point<D> dep; for(int k=0;k<D;k++) dep[k]=H::pt[i][k]-H::tau[i]*st->getDirection(H::dir[i])(k); c.index=H::cell[i]; typename dealii::DoFHandler<D>::active_cell_iterator ci; memcpy((void*)&ci,(void*)&c,sizeof(c)); LagrangianPathTracker<D> t(10+i,H::dir[i],H::dir[i],dep,H::pt[i],ci); h->addHit(t,H::bd[i]); }
	vc_check("every-hit-stored",(int)h->n_hits()==n); DistributionFunctions* f=(DistributionFunctions*)calloc(1,4096); h->apply(*f,*f,H::tt); vc_reach("applied"); for(int i=0;i<3;i++) vc_check("every-hit-handled-once",H::calls[i]==(i<n?1:0)); }
VC_HARNESS(hits_D2Q9){ hits<2,9,D2Q9>(); } VC_HARNESS(hits_D3Q15){ hits<3,15,D3Q15>(); }
// ---- boundary values of the second distribution
template<int D, int Q, class S> void hits_g(){ install_nodes(); vc_override("^natrium::LOG(",(void*)vcm::vm_null); vc_override("false>>::operator==(",(void*)it_eq); vc_override("false>>::operator<(",(void*)it_less); S* st=new S(vc_real("scaling",0.1,100)); double dt=vc_real("dt",0.001,1), gamma=vc_real("gamma",1.01,3); long len=vc_len("nodes"); if(len==0) return; double *f[Q], *g[Q]; DistributionFunctions* df=newDF("f",Q,len,f); DistributionFunctions* dg=newDF("g",Q,len,g);
	int kind=vc_choose("boundary",2); BoundaryCollection<D>* bc=new BoundaryCollection<D>(); bc->addBoundary(boost::shared_ptr<Boundary<D>>(new TB<D>(1,false,boundary_rho,kind?VELOCITY_EQUILIBRIUM_BOUNDARY:ZERO_VELOCITY_NEQ_BB))); SemiLagrangianBoundaryHandler<D>* h=handler<D>(st,dt,bc); CellRaw c; memset((void*)&c,0,sizeof(c)); typename dealii::DoFHandler<D>::active_cell_iterator ci; memcpy((void*)&ci,(void*)&c,sizeof(c));
	int dir=1+vc_choose("direction",Q-1); long k=vc_index("dof",len), m=vc_index("other",len); dealii::Point<D> p, dep; for(int i=0;i<D;i++){ p[i]=vc_real(nm("p",i),-10,10); dep[i]=p[i]-0.5*dt*st->getDirection(dir)(i); } LagrangianPathTracker<D> t(k,dir,dir,dep,p,ci); h->addHit(t,1); h->applyToG(*df,*dg,vc_real("t",0,100),gamma); vc_reach("applied");
	vc_check_eq("second-distribution-at-boundary",g[dir][k]*(gamma-1),kind?f[dir][k]*(2-D*(gamma-1)):vc_old(g[dir],k)*(gamma-1)); for(int i=0;i<Q;i++){ vc_check_eq("boundary-frame",f[i][m],vc_old(f[i],m)); if(i!=dir||m!=k) vc_check_eq("boundary-frame",g[i][m],vc_old(g[i],m)); } }
VC_HARNESS(hits_g_D2Q9){ hits_g<2,9,D2Q9>(); } VC_HARNESS(hits_g_D3Q15){ hits_g<3,15,D3Q15>(); }

// ---- interpolation weights: the shape functions of the cell at the unit coordinates of the points
static int g_cellidx; static std::vector<dealii::Point<3>>* g_unit; static void sh_reinit(void*, const CellRaw& c){ g_cellidx=c.index; }
template<int D> struct ShC { static void quad(void*, const std::vector<dealii::Point<D>>& p){ g_unit=new std::vector<dealii::Point<3>>(p.size()); for(unsigned i=0;i<p.size();i++) for(int k=0;k<D;k++) (*g_unit)[i][k]=p[i][k]; } };
static double* sh_value(void*, unsigned j, unsigned q){ if(g_cellidx!=5||q>=g_unit->size()) vc_fail("shape-value-of-this-cell"); double r=1; for(int k=0;k<3;k++) r+=(j+1+k*k)*(*g_unit)[q][k]; double* p=(double*)malloc(8); *p=r; return p; } static void* g_fep; static void* sh_fe(void*){ return g_fep; }
template<int D> void shapes(){ install_sl(); vc_override("FEValues<2, 2>::FEValues(",(void*)vcm::vm_nop); vc_override("FEValues<3, 3>::FEValues(",(void*)vcm::vm_nop); vc_override("FEValues<2, 2>::~FEValues(",(void*)vcm::vm_nop); vc_override("FEValues<3, 3>::~FEValues(",(void*)vcm::vm_nop); vc_override("FEValues<2, 2>::reinit",(void*)sh_reinit); vc_override("FEValues<3, 3>::reinit",(void*)sh_reinit); vc_override("::shape_value(unsigned int, unsigned int) const",(void*)sh_value); vc_override("^dealii::Quadrature<2>::Quadrature(std::vector<dealii::Point",(void*)ShC<2>::quad); vc_override("^dealii::Quadrature<3>::Quadrature(std::vector<dealii::Point",(void*)ShC<3>::quad); vc_override("^dealii::Quadrature<2>::~Quadrature",(void*)vcm::vm_nop); vc_override("^dealii::Quadrature<3>::~Quadrature",(void*)vcm::vm_nop); vc_override("::get_fe() const",(void*)sh_fe); vc_override("::get_fe(unsigned int) const",(void*)sh_fe); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<2, 2, false>>::operator->()",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<3, 3, false>>::operator->()",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<2, 2, false>>::operator->() const",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::DoFCellAccessor<3, 3, false>>::operator->() const",(void*)it_ptr);
	void* fe=calloc(1,4096); *(unsigned*)&((dealii::FiniteElement<D>*)fe)->dofs_per_cell=4; g_fep=fe; CellRaw c; memset((void*)&c,0,sizeof(c)); c.index=5; typename dealii::DoFHandler<D>::active_cell_iterator ci; memcpy((void*)&ci,(void*)&c,sizeof(c)); for(int k=0;k<D;k++){ g_o[k]=vc_real(nm("corner",k),-10,10); g_e[k]=vc_real(nm("edge",k),0.01,10); g_s[k]=1/g_e[k]; }
	int n=D==2?1+vc_choose("points",2):1; double u[2][3]; std::vector<dealii::Point<D>> pts; std::vector<std::vector<double>> v; for(int i=0;i<n;i++){ dealii::Point<D> p; for(int k=0;k<D;k++){ int kind=k&&i?0:vc_choose("coordinate",3); u[i][k]=kind==0?vc_real(nm("unit",i*3+k),1e-9,1-1e-9):kind==1?vc_real(nm("near0",i*3+k),-1e-11,1e-11):1+vc_real(nm("near1",i*3+k),-1e-11,1e-11); p[k]=g_o[k]+g_e[k]*u[i][k]; } pts.push_back(p); v.push_back(std::vector<double>(4,17.0)); }
	shapeFunctionValue<D>(ci,pts,v,*(dealii::Mapping<D>*)mapping<D>()); vc_reach("shapes"); vc_check("one-point-each",(int)g_unit->size()==n);
	for(int i=0;i<n;i++){ for(int k=0;k<D;k++){ double x=(*g_unit)[i][k]; vc_check("unit-coordinate",x>=0&&x<=1&&x-u[i][k]<=1e-10&&u[i][k]-x<=1e-10); } for(int j=0;j<4;j++) vc_check_eq("shape-value",v[i][j],*sh_value(0,j,i)); } }
VC_HARNESS(shapes_2){ shapes<2>(); } VC_HARNESS(shapes_3){ shapes<3>(); }
// ---- the streaming step: matrix times old state, then boundary values; rest particles stay
static int g_step; static DistributionFunctions *g_f, *g_fold; static double g_t; static void* g_mat;
static void st_vmult(void* m, FakeBlock* dst, FakeBlock* src){ vc_check("matrix-of-the-step",m==g_mat); vc_check("old-state-is-streamed",(void*)dst==(void*)&g_f->m_fStream&&(void*)src==(void*)&g_fold->m_fStream); vc_check("order-of-steps",g_step==0); g_step=1; for(unsigned i=0;i<dst->n;i++) for(int k=0;k<2;k++) fv(dst->b+i)->data[k]=3*fv(src->b+i)->data[1-k]+i+fv(src->b+(i+1)%src->n)->data[k]; }
static void st_apply(void*, DistributionFunctions& a, DistributionFunctions& b, double t){ vc_check("boundary-values-of-new-state",&a==g_f&&&b==g_fold); vc_check_eq("boundary-values-at-time",t,g_t); vc_check("order-of-steps",g_step==1); g_step=2; }
static FakeVec* st_vcopy(FakeVec* a, const FakeVec* b){ for(int k=0;k<2;k++) a->data[k]=b->data[k]; return a; } static FakeBlock* st_bcopy(FakeBlock* a, const FakeBlock* b){ for(unsigned i=0;i<a->n;i++) st_vcopy(fv(a->b+i),fv(b->b+i)); return a; }
template<int D, int Q> void stream(){ install_nodes(); vc_override("TimerOutput",(void*)vcm::vm_nop); vc_override("Timing::getTimer",(void*)vcm::vm_null); vc_override("BlockSparseMatrix::vmult<",(void*)st_vmult); vc_override("SemiLagrangianBoundaryHandler<2ul>::apply(natrium::DistributionFunctions&, natrium::DistributionFunctions const&, double)",(void*)st_apply); vc_override("SemiLagrangianBoundaryHandler<3ul>::apply(natrium::DistributionFunctions&, natrium::DistributionFunctions const&, double)",(void*)st_apply); vc_override("^dealii::TrilinosWrappers::MPI::Vector::operator=(dealii::TrilinosWrappers::MPI::Vector const&)",(void*)st_vcopy); vc_override("^dealii::TrilinosWrappers::MPI::BlockVector::operator=(dealii::TrilinosWrappers::MPI::BlockVector const&)",(void*)st_bcopy);
	double *f[Q], *fo[Q], old[Q][2], res[Q][2]; g_f=newDFn("f",Q,2,f); g_fold=newDFn("g",Q,2,fo); for(int i=0;i<Q;i++) for(int k=0;k<2;k++) old[i][k]=f[i][k]; SemiLagrangian<D>* a=(SemiLagrangian<D>*)calloc(1,sizeof(SemiLagrangian<D>)); a->m_deltaT=vc_real("dt",0.001,1); g_t=vc_real("t",0,100); g_mat=&a->m_systemMatrix; double r=a->SemiLagrangian<D>::stream(*g_fold,*g_f,g_t); vc_reach("streamed"); vc_check("order-of-steps",g_step==2); vc_check_eq("time-step",r,a->m_deltaT);
	for(int i=0;i<Q;i++) for(int k=0;k<2;k++){ vc_check_eq("old-state-kept",fo[i][k],old[i][k]); vc_check_eq("streamed-state",f[i][k],i?3*old[i][1-k]+(i-1)+old[1+i%(Q-1)][k]:old[i][k]); } }
VC_HARNESS(stream_D2Q9){ stream<2,9>(); } VC_HARNESS(stream_D3Q15){ stream<3,15>(); }

// ---- periodic boundaries: the cells of a pair are mapped onto each other by the translation that takes one face to the other
struct TriaRaw { int level, index; const void* tria; ~TriaRaw(){} }; static TriaRaw p_face(TriaRaw* c, unsigned f){ TriaRaw r=*c; r.index=c->index*100+f; return r; }
static int g_fA, g_fB; static bool g_flip; static double g_tr[3], g_v[4][3];
template<int D> struct PerC { static dealii::Point<D>* vertex(TriaRaw* f, unsigned i){ bool b=f->index/100==1; if(f->index%100!=(b?g_fB:g_fA)) vc_fail("vertex-of-the-periodic-face"); dealii::Point<D>* p=(dealii::Point<D>*)malloc(sizeof(dealii::Point<D>)); int j=b&&g_flip?(1<<(D-1))-1-i:i; for(int k=0;k<D;k++) (*p)[k]=g_v[j][k]+(b?g_tr[k]:0); return p; }
	static dealii::Point<D> vertexv(TriaRaw* f, unsigned i){ return *vertex(f,i); } };
static bool fm_empty(const vcm::FM* a){ return a->m*a->n==0; }
template<int D> void periodic(){ install_sl(); vc_override("TableBase<2, double>::empty() const",(void*)fm_empty); vc_override("::face(unsigned int) const",(void*)p_face); vc_override("::vertex(unsigned int) const",(void*)PerC<D>::vertex); vc_override(">>::operator==(",(void*)it_eq); vc_override(">>::operator!=(",(void*)it_neq); vc_override(">>::operator<(",(void*)it_less); vc_override("^dealii::TriaRawIterator<dealii::CellAccessor<2, 2>>::operator->()",(void*)it_ptr); vc_override("^dealii::TriaRawIterator<dealii::CellAccessor<3, 3>>::operator->()",(void*)it_ptr); vc_override("::begin_active(unsigned int) const",(void*)dh_begin);
	PeriodicBoundary<D>* b=(PeriodicBoundary<D>*)calloc(1,sizeof(PeriodicBoundary<D>)); new(&b->m_cells) PeriodicCellMap<D>(); b->m_doFHandler=(const dealii::DoFHandler<D>*)calloc(1,4096); int ax=vc_choose("axis",D), sw=vc_choose("swap",2); g_fA=2*ax+sw; g_fB=2*ax+1-sw; g_flip=vc_choose("flip",2); for(int k=0;k<D;k++){ g_tr[k]=vc_real(nm("shift",k),-10,10); for(int i=0;i<(1<<(D-1));i++) g_v[i][k]=vc_real(nm(k==0?"vx":k==1?"vy":"vz",i),-10,10); }
	CellRaw A, B; memset((void*)&A,0,sizeof(A)); A.tria=(void*)0x100; A.dofs=(void*)0x200; B=A; B.index=1; FacePair<D> fp; memcpy((void*)&fp.cell[0],(void*)&A,16); memcpy((void*)&fp.cell[1],(void*)&B,16); fp.face_idx[0]=g_fA; fp.face_idx[1]=g_fB; fp.orientation[0]=true; fp.orientation[1]=g_flip; b->m_cells.insert(std::make_pair(fp.cell[0],fp)); b->m_cells.insert(std::make_pair(fp.cell[1],fp));
	typename dealii::DoFHandler<D>::active_cell_iterator a, c; memcpy((void*)&a,(void*)&A,sizeof(A)); memcpy((void*)&c,(void*)&B,sizeof(B)); dealii::Point<D> p; for(int k=0;k<D;k++) p[k]=vc_real(nm("p",k),-10,10);
	dealii::Point<D> q=b->coordinatesAcrossPeriodicBoundary(p,a), r=b->coordinatesAcrossPeriodicBoundary(p,c), s=b->coordinatesAcrossPeriodicBoundary(q,c); vc_reach("periodic");
	for(int k=0;k<D;k++){ vc_check_eq("translated-to-the-other-side",q[k],p[k]+g_tr[k]); vc_check_eq("translated-back",r[k],p[k]-g_tr[k]); vc_check_eq("round-trip",s[k],p[k]); }
	typename dealii::DoFHandler<D>::cell_iterator n1, n2; unsigned long f1=b->getOppositeCellAtPeriodicBoundary(a,n1), f2=b->getOppositeCellAtPeriodicBoundary(c,n2); vc_check("opposite-cell",((CellRaw*)&n1)->index==1&&((CellRaw*)&n2)->index==0); vc_check("opposite-face",(int)f1==g_fB&&(int)f2==g_fA); }
VC_HARNESS(periodic_2){ periodic<2>(); } VC_HARNESS(periodic_3){ periodic<3>(); }
