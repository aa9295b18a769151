// Contracts of Polynomial::f_x / f_x_int (P06): shifted Legendre polynomials and their antiderivatives.
#include "vp.h"
#include "queso/utilities/polynomial_utilities.hpp"
using namespace queso;
// Oracle: Bonnet's recurrence (the definition of the Legendre polynomials), independent of the closed forms in the code.
static double legendre(std::size_t n, double t) {
    double p0 = 1.0, p1 = t;
    if (n == 0) return p0;
    for (std::size_t k = 1; k < n; ++k) { double p2 = ((2.0*k + 1.0)*t*p1 - k*p0) / (k + 1.0); p0 = p1; p1 = p2; }
    return p1;
}
struct Iv { double a, b, len; };
static Iv iv() { Iv r; r.a = vp::real("a", -10, 10); r.len = vp::real("len", 0.05, 20); r.b = r.a + r.len; return r; }

//@harness H_legendre_value property=P06
VP_HARNESS(H_legendre_value) {
    std::size_t p = vp_case("order", 0, 8);
    Iv v = iv();
    double t = vp::real("t", -1, 1);
    double x = v.a + 0.5*v.len*(1.0 + t);
    vp_ensure("equals-legendre-of-mapped-variable", vp::eq(Polynomial::f_x(x, p, v.a, v.b), legendre(p, t), 1e-8));
}
//@harness H_legendre_endpoints property=P06
VP_HARNESS(H_legendre_endpoints) {
    std::size_t p = vp_case("order", 0, 8);
    Iv v = iv();
    vp_ensure("one-at-right-end", vp::eq(Polynomial::f_x(v.b, p, v.a, v.b), 1.0, 1e-8));
    vp_ensure("alternating-at-left-end", vp::eq(Polynomial::f_x(v.a, p, v.a, v.b), (p % 2) ? -1.0 : 1.0, 1e-8));
}
// Fundamental theorem of calculus: f_x_int(x) - f_x_int(y) is the integral of the Legendre polynomial from y to x,
// written with the identity (2k+1) P_k = d/dt (P_{k+1} - P_{k-1}).
//@harness H_legendre_integral property=P06
VP_HARNESS(H_legendre_integral) {
    std::size_t p = vp_case("order", 0, 8);
    Iv v = iv();
    double t = vp::real("t", -1, 1), s = vp::real("s", -1, 1);
    double x = v.a + 0.5*v.len*(1.0 + t), y = v.a + 0.5*v.len*(1.0 + s);
    double got = Polynomial::f_x_int(x, p, v.a, v.b) - Polynomial::f_x_int(y, p, v.a, v.b);
    double want = p == 0 ? 0.5*v.len*(t - s)
        : 0.5*v.len*((legendre(p+1,t) - legendre(p-1,t)) - (legendre(p+1,s) - legendre(p-1,s))) / (2.0*p + 1.0);
    vp_ensure("integral-difference", vp::eq(got, want, 1e-7));
}
//@harness H_legendre_orthogonal property=P06
VP_HARNESS(H_legendre_orthogonal) {
    std::size_t p = vp_case("order", 1, 8);
    Iv v = iv();
    vp_ensure("integral-over-interval-vanishes", vp::eq(Polynomial::f_x_int(v.b, p, v.a, v.b) - Polynomial::f_x_int(v.a, p, v.a, v.b), 0.0, 1e-7));
    vp_ensure("order-zero-integral-is-length", vp::eq(Polynomial::f_x_int(v.b, 0, v.a, v.b) - Polynomial::f_x_int(v.a, 0, v.a, v.b), v.len, 1e-9));
}
//@harness H_power property=P06
VP_HARNESS(H_power) {
    std::size_t p = vp_case("p", 0, 16);
    double x = vp::real("x", -2, 2);
    double want = 1.0; for (std::size_t i = 0; i < p; ++i) want = want * x;
    vp_ensure("power", vp::eqrel(Polynomial::power(x, p), want, 1e5));
}
