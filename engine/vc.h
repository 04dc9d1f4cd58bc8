// Specification interface of the NVC verifier.
//
// A driver TU includes the real sources of /repo and states contracts on them with
// these intrinsics.  It is compiled to LLVM IR and executed by nvc in one of two modes:
//   * symbolic (default): every vc_check* is a proof obligation that must hold for ALL
//     values of the vc_real/vc_choose/vc_len/vc_array inputs;
//   * concrete (--concrete / --model): the same IR with IEEE double arithmetic on one
//     input, taken from a counterexample (replay) or drawn from the seed (bounded stand-in).
#ifndef VC_H_
#define VC_H_
#include <cstddef>
extern "C" {
// --- inputs
double vc_real(const char* name, double lo, double hi); // arbitrary real in [lo,hi]
int vc_choose(const char* name, int n);                 // arbitrary element of {0..n-1} (case split, complete)
long vc_len(const char* name);                          // arbitrary length >= 0 of an unbounded array / index set
long vc_index(const char* name, long len);              // arbitrary index 0 <= k < len
double* vc_array(const char* name, long len);           // array of len arbitrary reals
double* vc_array_in(const char* name, long len, double lo, double hi);
double vc_old(const double* arr, long k);               // content of arr[k] at creation
long vc_loop_index();                                   // index of the arbitrary iteration of the last loop cut
// --- assumptions and obligations
void vc_assume(bool c);
void vc_assume_eq(double a, double b);
void vc_check(const char* name, bool c);
void vc_check_eq(const char* name, double a, double b);
void vc_reach(const char* name);                        // must be reachable on some path (vacuity guard)
void vc_fail(const char* name);                         // must be unreachable
// --- logic helpers
double vc_name(double x);                               // x, abbreviated by a fresh name (let)
bool vc_is_symbolic();                                  // false in a concrete run
void vc_unsupported(const char* why);                   // end this path as undecided (a bounded concrete run stands in)
void vc_override(const char* needle, void* fn);         // calls to functions whose demangled name contains needle go to fn
void vc_override_at(const char* needle, const char* caller_needle, void* fn);
const char* vc_callee();                                // (in an override) demangled name of the replaced callee
bool vc_callee_has(const char* needle);
int vc_pivot_rank(double x);                            // engine: 0 = zero, larger = safer pivot (1 = may vanish)
bool vc_is_const(double x);                             // engine: x is a known constant
double vc_poly_coeff(double p, double x, int k);        // coefficient of x^k in p (x a plain input)
void vc_print(const char* tag, double x);
void vc_print_int(const char* tag, long x);
void vc_run_ctors(const char* needle);                  // run global constructors of the module whose name contains needle
bool vc_once(int token);                                // true once per (path, token)
void vc_havoc(double* p, long n, const char* name);     // arbitrary contents
}
#define VC_INF 1e300
#define VC_HARNESS(n) extern "C" __attribute__((used)) void vc_h_##n()
#endif
