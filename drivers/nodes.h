// Contracts of deal.II index-set iteration and Trilinos element references.
#ifndef VC_NODES_H_
#define VC_NODES_H_
#include "fakes.h"
namespace vcf {
// ---- contracts: index set iterator (consecutive owned indices), element references
struct It { const void* set; unsigned range; unsigned idx; };
static long g_len;
static It it_make(unsigned range){ It r; r.set=nullptr; r.range=range; r.idx=0; return r; } // range 0: an element; 1: the end; 2: value of it++, not used by the code under contract
static It it_begin(void* s){ return it_make(0); }
static It it_end(void* s){ return it_make(1); }
static unsigned it_at(It* i){ if(i->range!=0) vc_unsupported("index set iterator dereferenced after it++"); return i->idx; }
static bool it_ne(It* a, It* b){ if(a->range!=0||b->range!=1) vc_unsupported("index set iterators compared in another way than it != end"); return (long)a->idx<g_len; }
static It* it_inc(It* a){ a->idx++; return a; }
static It it_post(It* a, int){ a->idx++; return it_make(2); }
struct Ref { FakeVec* v; unsigned i; };
static Ref vref(FakeVec* v, unsigned i){ Ref r; r.v=v; r.i=i; return r; }
static double vget(FakeVec* v, unsigned i){ return v->data[i]; }
static double rget(Ref* r){ return r->v->data[r->i]; }
static Ref* rset(Ref* r, const double* x){ r->v->data[r->i]=*x; return r; }
static Ref* rcopy(Ref* r, Ref* o){ r->v->data[r->i]=o->v->data[o->i]; return r; }
static Ref* radd(Ref* r, const double* x){ r->v->data[r->i]+=*x; return r; }
static Ref* rsub(Ref* r, const double* x){ r->v->data[r->i]-=*x; return r; }
static Ref* rmul(Ref* r, const double* x){ r->v->data[r->i]*=*x; return r; }
static Ref* rdiv(Ref* r, const double* x){ r->v->data[r->i]/=*x; return r; }
static unsigned vsize(FakeVec* v){ return (unsigned)v->len; }
static void install_nodes(){ install(); vc_override("^natrium::DistributionFunctions::updateGhosted()",(void*)vcm::vm_nop);
	vc_override("^dealii::IndexSet::begin() const",(void*)it_begin); vc_override("^dealii::IndexSet::end() const",(void*)it_end);
	vc_override("^dealii::IndexSet::ElementIterator::operator*() const",(void*)it_at); vc_override("^dealii::IndexSet::ElementIterator::operator!=(",(void*)it_ne);
	vc_override("^dealii::IndexSet::ElementIterator::operator++()",(void*)it_inc); vc_override("^dealii::IndexSet::ElementIterator::operator++(int)",(void*)it_post);
	vc_override("^dealii::TrilinosWrappers::MPI::Vector::operator()(unsigned int)",(void*)vref); vc_override("^dealii::TrilinosWrappers::MPI::Vector::operator()(unsigned int) const",(void*)vget);
	vc_override("^dealii::TrilinosWrappers::MPI::Vector::size() const",(void*)vsize);
	vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator double() const",(void*)rget);
	vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator=(double const&) const",(void*)rset);
	vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator=(dealii::TrilinosWrappers::internal::VectorReference const&)",(void*)rcopy);
	vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator+=(",(void*)radd); vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator-=(",(void*)rsub);
	vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator*=(",(void*)rmul); vc_override("^dealii::TrilinosWrappers::internal::VectorReference::operator/=(",(void*)rdiv); }
}
#endif
