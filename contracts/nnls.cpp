// Contracts of the non-negative least squares solver (P12): the optimality (KKT) conditions are the postcondition.
//@sources queso/solvers/nnls.cpp
#include "vp.h"
#include "queso/solvers/nnls.h"
using namespace queso;
typedef std::vector<double> V;
// min |b - A x| over x >= 0 (A column-major, m rows): a vector x >= 0 is a minimiser iff A^T(b - A x) <= 0 with equality where x > 0.
static void kkt(const V& A, const V& b, std::size_t n, double scale, double tol) {
    const std::size_t m = b.size();
    V A1(A), b1(b), x(1, -7.0);
    const double rn = NNLS::solve(A1, b1, x);
    vp_ensure("one-entry-per-column", x.size() == n);
    if (x.size() != n) return;
    V r(b); double bb = 0, rr = 0;
    for (std::size_t j = 0; j < n; ++j) { vp_ensure("non-negative", x[j] >= 0.0); for (std::size_t i = 0; i < m; ++i) r[i] -= A[j*m + i]*x[j]; }
    if (!vp_symbolic()) { double q = 1; for (double v : x) q += v; scale *= q*q; }   // rounding of the real code grows with the solution
    for (std::size_t i = 0; i < m; ++i) { bb += b[i]*b[i]; rr += r[i]*r[i]; }
    for (std::size_t j = 0; j < n; ++j) {
        double g = 0; for (std::size_t i = 0; i < m; ++i) g += A[j*m + i]*r[i];
        vp_ensure("gradient-not-improvable", vp::le(g, 0.0, tol*scale));
        vp_ensure("stationary-where-positive", vp_or(x[j] <= 0.0, g >= -vp::slack(tol*scale)));
    }
    vp_ensure("residual-non-negative", rn >= 0.0);
    vp_ensure("residual-is-norm", vp::eqrel(rn*rn, rr, scale, tol));
    vp_ensure("not-worse-than-zero", vp::le(rr, bb, tol*scale));
}
// one equation, any coefficients
//@harness H_one_row property=P12 opts="--br-timeout 0.3"
VP_HARNESS(H_one_row) {
    const long n = vp_case("n", 1, 3);
    V A, b{vp::real("b", -10, 10)};
    const char* nm[3] = {"a0", "a1", "a2"};
    for (long j = 0; j < n; ++j) A.push_back(vp::real(nm[j], -10, 10));
    kkt(A, b, n, 1e4, 1e-8);
}
// one column, any coefficients
//@harness H_one_column property=P12 opts="--br-timeout 0.3"
VP_HARNESS(H_one_column) {
    V A{vp::real("a0", -10, 10), vp::real("a1", -10, 10)}, b{vp::real("b0", -10, 10), vp::real("b1", -10, 10)};
    kkt(A, b, 1, 1e4, 1e-8);
}
// two equations: all right-hand sides for columns with rational length (the reflections and rotations stay rational)
static const double P[][2] = {{3,4},{4,3},{-3,4},{5,-12},{1,0},{0,2},{-8,-15},{0,0},{6,8}};
//@harness H_two_rows property=P12 opts="--br-timeout 0.3"
VP_HARNESS(H_two_rows) {
    const long i = vp_case("i", 0, 8), j = vp_case("j", 0, 8);
    V A{P[i][0], P[i][1], P[j][0], P[j][1]}, b{vp::real("b0", -10, 10), vp::real("b1", -10, 10)};
    kkt(A, b, 2, 1e4, 1e-8);
}
//@harness H_two_rows_three property=P12 opts="--br-timeout 0.3"
VP_HARNESS(H_two_rows_three) {
    const long q = vp_symbolic() ? 3 : 6, i = vp_case("i", 0, q), j = vp_case("j", 0, q), k = vp_case("k", 0, q);
    V A{P[i][0], P[i][1], P[j][0], P[j][1], P[k][0], P[k][1]}, b{vp::real("b0", -10, 10), vp::real("b1", -10, 10)};
    kkt(A, b, 3, 1e4, 1e-8);
}
// three equations: A = Q R with rational orthogonal Q
static const double Q[3][3] = {{2.0,1.0,-2.0},{1.0,2.0,2.0},{2.0,-2.0,1.0}};
//@harness H_three_rows property=P12 opts="--br-timeout 0.3"
VP_HARNESS(H_three_rows) {
    const long s = vp_case("s", 0, 5), t = vp_case("t", 0, 1);
    const double c[2] = {1, -1};
    V A, b{vp::real("b0", -10, 10), vp::real("b1", -10, 10), vp::real("b2", -10, 10)};
    const int pm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    V cols[3];
    for (int i = 0; i < 3; ++i) { cols[0].push_back(Q[0][i]); cols[1].push_back(3*c[t]*Q[0][i] + 4*Q[1][i]); cols[2].push_back(Q[2][i]); }
    for (int j = 0; j < 3; ++j) for (double v : cols[pm[s][j]]) A.push_back(v);
    kkt(A, b, 3, 1e4, 1e-8);
}
// larger systems (as in the moment fitting): bounded, native only
//@harness H_many property=P12 mode=native native=8
VP_HARNESS(H_many) {
    const std::size_t m = vp::idx("m", 1, 27), n = vp::idx("n", 1, 40);
    V A, b;
    const bool neg = vp_any_bool("neg");
    for (std::size_t i = 0; i < m; ++i) b.push_back(vp::real("b", neg ? -1 : 0, 1));
    for (std::size_t i = 0; i < m*n; ++i) A.push_back(vp::real("a", -1, 1));
    kkt(A, b, n, 100.0, 1e-8);
}
//@harness H_repeated_columns property=P12 mode=native native=5
VP_HARNESS(H_repeated_columns) {
    const std::size_t m = vp::idx("m", 1, 12), n = vp::idx("n", 1, 12);
    V A, b; for (std::size_t i = 0; i < m; ++i) b.push_back(vp::real("b", -1, 1));
    for (std::size_t i = 0; i < m*n; ++i) A.push_back(vp::real("a", -1, 1));
    const double f = vp::real("f", 0.01, 100); V c(A); for (double v : c) A.push_back(v*f);
    kkt(A, b, 2*n, 1e5, 1e-8);
}
