// FLAGS: -fdelayed-template-parsing
// Pseudo-entropic stabilizer: a projection of the distributions of every owned node that keeps the hydrodynamic moments.
#include "solverbase.h"
#include "natrium/dataprocessors/PseudoEntropicStabilizer.cpp"
#include "natrium/stencils/D3Q19.cpp"
static void* dofs_idx(void*){ static char c[512]; return c; } static int g_ghosts; static void ghost(void*){ g_ghosts++; }
// moments of a (new) and b (old): mass, momentum, second moments
template<int Q, int D> static void moments(Stencil* st, const double* a, const double* b, bool trace){ double m=0; for(int i=0;i<Q;i++) m+=a[i]-b[i]; vc_check_eq("stabilizer-mass",m+1,1); double P[3][3];
	for(int k=0;k<D;k++){ double p=0; for(int i=0;i<Q;i++) p+=st->getDirection(i)(k)*(a[i]-b[i]); vc_check_eq("stabilizer-momentum",p+1,1); for(int l=0;l<D;l++){ P[k][l]=0; for(int i=0;i<Q;i++) P[k][l]+=st->getDirection(i)(k)*st->getDirection(i)(l)*(a[i]-b[i]); } }
	for(int k=0;k<D;k++) for(int l=0;l<D;l++) if(k!=l) vc_check_eq("stabilizer-shear-stress",P[k][l]+1,1); else if(trace) vc_check_eq("stabilizer-normal-stress",P[k][k]+1,1); else vc_check_eq("stabilizer-normal-stress-difference",P[k][k]-P[0][0]+1,1); }
template<int D, int Q, class ST> void apply(bool with_e){ install_nodes(); vc_override("TimerOutput",(void*)vcm::vm_nop); vc_override("Timing::",(void*)vcm::vm_null); vc_override("^natrium::LOG(",(void*)vcm::vm_null); vc_override("::locally_owned_dofs() const",(void*)dofs_idx); vc_override("^natrium::DistributionFunctions::updateGhosted()",(void*)ghost); long len=vc_len("nodes"); g_len=len; typedef CFDSolver<D> S;
	S* s=rawSolver<S,D>(); ST* st=new ST(vc_real("scaling",0.1,100)); sp(s->m_stencil,st); double* f[Q]; DistributionFunctions* df=newDF("f",Q,len,f); memcpy((void*)&s->m_f,(void*)df,sizeof(DistributionFunctions));
	PseudoEntropicStabilizer<D> p(*s,with_e); p.apply(); vc_reach("applied"); vc_check("ghosts-refreshed",g_ghosts>0); if(len==0) return; long k=vc_loop_index(); double a[Q], b[Q]; for(int i=0;i<Q;i++){ a[i]=f[i][k]; b[i]=vc_old(f[i],k); } vc_reach("node"); moments<Q,D>(st,a,b,!with_e||Q!=9); }
template<int D, int Q, class ST> void node(){ install(); ST* st=new ST(vc_real("scaling",0.1,100)); std::array<double,Q> in, out, twice; for(int i=0;i<Q;i++) in[i]=vc_real(nm("f",i),-10,10); for(int i=0;i<Q;i++) out[i]=twice[i]=vc_real(nm("before",i),-10,10); double b[Q]; for(int i=0;i<Q;i++) b[i]=in[i]; applyStabilizer<Q>(in,out); vc_reach("node"); moments<Q,D>(st,&out[0],b,true); for(int i=0;i<Q;i++) vc_check_eq("input-untouched",in[i],b[i]); applyStabilizer<Q>(out,twice); for(int i=0;i<Q;i++) vc_check_eq("stabilizer-is-a-projection",twice[i]+1,out[i]+1); }
VC_HARNESS(pes_apply_d2q9){ apply<2,9,D2Q9>(false); } VC_HARNESS(pes_apply_d2q9_with_e){ apply<2,9,D2Q9>(true); } VC_HARNESS(pes_apply_d3q19){ apply<3,19,D3Q19>(vc_choose("withe",2)==1); } VC_HARNESS(pes_node_d2q9){ node<2,9,D2Q9>(); } VC_HARNESS(pes_node_d3q19){ node<3,19,D3Q19>(); }
