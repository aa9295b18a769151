// Specification primitives shared by all contract translation units.
//
// The same text is used twice:
//  * compiled to LLVM bitcode together with /repo's sources and given to the deductive verifier (engine/dver.cpp),
//    which intercepts the vp_* functions: inputs become universally quantified logical variables,
//    vp_assume is a precondition, vp_ensure is a proof obligation (postcondition / invariant / lemma);
//  * compiled natively with g++ against the same sources (runtime/native_rt.cpp) to replay verifier counterexamples
//    on the real code and to run the labelled *bounded* stand-in.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <array>
#include <vector>
#include <exception>
extern "C" {
int    vp_symbolic();                                        // 1: deductive verifier, 2: verifier w/ replay tolerances, 0: native
double vp_any_real(const char* name, double lo, double hi);  // forall x in [lo,hi] (+-inf: unbounded; the native run then samples [-8,8])
long   vp_any_int(const char* name, long lo, long hi);       // forall i in [lo,hi]
bool   vp_any_bool(const char* name);
long   vp_case(const char* name, long lo, long hi);          // forall i in [lo,hi], split into concrete cases
void   vp_assume(bool c);                                    // precondition / invariant assumed
void   vp_ensure(const char* label, bool c);                 // obligation
void   vp_cover(const char* label);                          // must be reachable (vacuity guard)
bool   vp_and(bool a, bool b);
bool   vp_or(bool a, bool b);
bool   vp_imp(bool a, bool b);
double vp_ite_real(bool c, double a, double b);
void   vp_dead_end();                                        // stop this path (rest not of interest)
void   vp_print_real(const char* name, double x);
void   vp_note(const char* text);                            // native only: adds text to the replay log
}
namespace vp {
constexpr double INF = std::numeric_limits<double>::infinity();
/// Full-range real input (native runs sample [-8,8] plus edge values).
inline double real(const char* n) { return vp_any_real(n, -INF, INF); }
inline double real(const char* n, double lo, double hi) { return vp_any_real(n, lo, hi); }
/// Equality of real-valued results. Exact in the logic; natively within `tol` (rounding of the real code).
inline bool eq(double a, double b, double tol = 1e-9) {
    double t = vp_symbolic() == 1 ? 0.0 : tol;
    return vp_and(a - b <= t, b - a <= t);
}
inline bool eqrel(double a, double b, double scale, double tol = 1e-9) {
    double t = vp_symbolic() == 1 ? 0.0 : tol * scale;
    return vp_and(a - b <= t, b - a <= t);
}
/// |a-b| <= tol in both readings.
inline bool near(double a, double b, double tol) { return vp_and(a - b <= tol, b - a <= tol); }
/// near, with different allowance: ts in the logic, tn natively.
inline bool near2(double a, double b, double ts, double tn) { double t = vp_symbolic() == 1 ? ts : tn; return vp_and(a - b <= t, b - a <= t); }
/// a <= b, natively with slack.
inline bool le(double a, double b, double tol = 1e-9) { double t = vp_symbolic() == 1 ? 0.0 : tol; return a <= b + t; }
inline bool in(double x, double lo, double hi, double tol = 1e-9) { return vp_and(le(lo, x, tol), le(x, hi, tol)); }
inline double slack(double tol) { return vp_symbolic() == 1 ? 0.0 : tol; }
inline double abs(double x) { return vp_ite_real(x < 0.0, -x, x); }
inline double min(double a, double b) { return vp_ite_real(a < b, a, b); }
inline double max(double a, double b) { return vp_ite_real(a < b, b, a); }
/// A size_t in [lo,hi].
inline std::size_t idx(const char* n, long lo, long hi) { return (std::size_t)vp_any_int(n, lo, hi); }
inline std::array<double,3> point(const char* nx, const char* ny, const char* nz, double lo = -INF, double hi = INF) {
    std::array<double,3> p; p[0] = vp_any_real(nx, lo, hi); p[1] = vp_any_real(ny, lo, hi); p[2] = vp_any_real(nz, lo, hi); return p;
}
}
#ifdef VP_NATIVE
struct VpReject {};
#endif
#define VP_HARNESS(name) extern "C" void name()
#endif
