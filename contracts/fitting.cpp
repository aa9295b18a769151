// Contracts of the moment fitting and point elimination of trimmed elements (P10).
// The solver is replaced by its contract (P12): any non-negative vector, together with the norm of its residual.
//@sources queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp
#include "vp.h"
#include <algorithm>
#include "queso/includes/define.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/quadrature/trimmed_element.hpp"
using namespace queso;
typedef std::vector<double> V;
static V gA, gB, gX; static int gCalls; static double gR;
namespace queso {
double NNLS::solve(MatrixType& A, VectorType& B, VectorType& X) {
    ++gCalls; gA = A; gB = B;
    const std::size_t m = B.size(), n = m ? A.size()/m : 0;
    X.assign(n, 0.0);
    if (m == 0 || n == 0) { gX = X; return gR = 1e8; }
    double rr = 0;
    for (std::size_t j = 0; j < n; ++j) if (vp_any_bool("positive")) X[j] = vp::real("x", 0.001, 10);
    for (std::size_t i = 0; i < m; ++i) { double r = B[i]; for (std::size_t j = 0; j < n; ++j) r -= A[j*m + i]*X[j]; rr += r*r; }
    gX = X;
    for (auto& a : A) a = 0.0; for (auto& b : B) b = 0.0;     // the solver overwrites its input
    gR = std::sqrt(rr);
    return gR;
}
}
struct El {
    typedef queso::IntegrationPoint IntegrationPointType; typedef std::vector<IntegrationPointType> IntegrationPointVectorType;
    typedef queso::BoundaryIntegrationPoint BoundaryIntegrationPointType;
    PointType plo{0,0,0}, phi{1,1,1}; double detj = 1.0;
    IntegrationPointVectorType ips;
    mutable std::vector<std::pair<PointType, bool>> asked;
    struct Bounds { PointType lower, upper; };
    template<CoordinateSpace S> Bounds GetCellBounds() const { return S == CoordinateSpace::parametric ? Bounds{plo, phi} : Bounds{PointType{100,100,100}, PointType{300,500,800}}; }
    double DetJ() const { return detj; }
    IndexType GetId() const { return 7; }
    IntegrationPointVectorType& GetIntegrationPoints() { return ips; }
    const IntegrationPointVectorType& GetIntegrationPoints() const { return ips; }
    template<CoordinateSpace S> bool IsInsideActiveDomain(const PointType& p) const {
        vp_ensure("membership-asked-in-parametric-space", S == CoordinateSpace::parametric);
        const bool r = vp_any_bool("inside"); asked.push_back({p, r}); return r;
    }
};
typedef El::IntegrationPointVectorType IPs;
struct Q : QuadratureTrimmedElement<El> {
    using QuadratureTrimmedElement<El>::MomentFitting; using QuadratureTrimmedElement<El>::PointElimination; using QuadratureTrimmedElement<El>::AssembleFictitiousIPs;
};
static Vector3i V3(long i, long j, long k) { return Vector3i{(IndexType)i, (IndexType)j, (IndexType)k}; }
static double f(const El& e, const PointType& p, int i, int j, int k) { const int q[3] = {i, j, k}; double r = 1; for (int d = 0; d < 3; ++d) r = r*Polynomial::f_x(p[d], q[d], e.plo[d], e.phi[d]); return r; }
// the system handed to the solver is the moment fitting system; its solution becomes the weights
//@harness H_fit_system property=P10 opts="--br-timeout 0.3"
VP_HARNESS(H_fit_system) {
    const long c = vp_case("c", 0, 6);
    const long o[7][3] = {{0,0,0},{1,0,0},{0,1,2},{2,1,0},{1,1,1},{2,0,2},{0,4,1}};
    El e; e.plo = vp::point("ax","ay","az",-10,10); PointType s = vp::point("sx","sy","sz",0.1,20); for (int d = 0; d < 3; ++d) e.phi[d] = e.plo[d] + s[d];
    e.detj = vp::real("detj", 0.01, 100);
    const std::size_t nf = (o[c][0]+1)*(o[c][1]+1)*(o[c][2]+1);
    V m; for (std::size_t i = 0; i < nf; ++i) m.push_back(i + 0.5);
    IPs p; p.push_back(IntegrationPoint(vp::real("px",-5,5), vp::real("py",-5,5), vp::real("pz",-5,5), 1.0)); p.push_back(IntegrationPoint(vp::real("qx",-5,5), vp::real("qy",-5,5), vp::real("qz",-5,5), 1.0));
    IPs in(p);
    gCalls = 0;
    const double r = Q::MomentFitting(m, p, e, V3(o[c][0], o[c][1], o[c][2]));
    vp_ensure("solved-once", gCalls == 1);
    vp_ensure("system-size", gA.size() == 2*nf && gB.size() == nf && gX.size() == 2 && p.size() == 2);
    if (gA.size() != 2*nf || gB.size() != nf || gX.size() != 2 || p.size() != 2) return;
    double cc = 0; std::size_t row = 0;
    for (int i = 0; i <= o[c][0]; ++i) for (int j = 0; j <= o[c][1]; ++j) for (int k = 0; k <= o[c][2]; ++k) {
        cc += m[row]*m[row];
        vp_ensure("right-hand-side-is-moment", vp::eqrel(gB[row], m[row], 10));
        for (int q = 0; q < 2; ++q) { const double want = f(e, in[q].Point(), i, j, k); vp_ensure("matrix-is-basis-at-point", vp::eqrel(gA[q*nf + row], want, vp_symbolic() == 1 ? 1.0 : 1.0 + vp::abs(want), 1e-7)); }
        ++row;
    }
    vp_ensure("relative-residual", vp::eqrel(r*r*cc, gR*gR, vp_symbolic() == 1 ? 1.0 : 1.0 + gR*gR, 1e-9));
    for (int q = 0; q < 2; ++q) {
        vp_ensure("point-kept", vp_and(vp::eq(p[q][0], in[q][0]), vp_and(vp::eq(p[q][1], in[q][1]), vp::eq(p[q][2], in[q][2]))));
        vp_ensure("weight-is-solution-over-jacobian", vp::eqrel(p[q].Weight()*e.detj, gX[q], 10));
    }
}
static void elimination(std::size_t np, const Vector3i& o) {
    El e; e.detj = 2.0;
    const double pos[4][3] = {{0.25,0.5,0.125},{0.75,0.25,0.5},{0.5,0.875,0.75},{0.125,0.75,0.25}};
    IPs p, in; for (std::size_t i = 0; i < np; ++i) p.push_back(IntegrationPoint(pos[i][0], pos[i][1], pos[i][2], 1.0));
    const std::size_t nf = (o[0]+1)*(o[1]+1)*(o[2]+1);
    V m; for (std::size_t i = 0; i < nf; ++i) m.push_back(i == 0 ? 1.0 : 0.25*i);
    double cc = 0; for (double v : m) cc += v*v;
    const double target = vp::real("target", 0.001, 0.5);
    const double res = Q::PointElimination(m, p, e, o, target);
    vp_ensure("at-most-as-many-points-as-functions", e.ips.size() <= nf);
    std::vector<char> used(np, 0);
    V r(m);
    for (auto& q : e.ips) {
        bool hit = false;
        for (std::size_t i = 0; i < np && !hit; ++i) if (!used[i] && q[0] == pos[i][0] && q[1] == pos[i][1] && q[2] == pos[i][2]) { hit = true; used[i] = 1; }
        vp_ensure("points-are-initial-points", hit);
        vp_ensure("weights-positive", q.Weight() > 0.0);
        std::size_t row = 0;
        for (std::size_t i = 0; i <= o[0]; ++i) for (std::size_t j = 0; j <= o[1]; ++j) for (std::size_t k = 0; k <= o[2]; ++k) r[row++] -= f(e, q.Point(), i, j, k)*q.Weight()*e.detj;
    }
    double rr = 0; for (double v : r) rr += v*v;
    // the residual reported is the one of the rule returned (no rule: everything is missing)
    vp_ensure("reported-residual-is-of-returned-rule", vp::eqrel(res*res*cc, rr, 1e4, 1e-8));
}
//@harness H_elimination_constant property=P10 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_elimination_constant) { const long n = vp_case("n", 1, 3); elimination(n, V3(0, 0, 0)); }
//@harness H_elimination_linear property=P10 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_elimination_linear) { const long a = vp_case("axis", 0, 2), n = vp_case("n", 1, 3); elimination(n, V3(a == 0, a == 1, a == 2)); }
//@harness H_elimination_more property=P10 mode=native native=4
VP_HARNESS(H_elimination_more) { const long n = vp_case("n", 1, 4), i = vp_case("i", 0, 2), j = vp_case("j", 0, 1), k = vp_case("k", 0, 1); elimination(n, V3(i, j, k)); }
// points of the fictitious part: the Gauss points of the cell that are not in the active domain
//@harness H_fictitious property=P10 opts="--br-timeout 0.3"
VP_HARNESS(H_fictitious) {
    const long c = vp_case("c", 0, 3);
    const long o[4][3] = {{0,0,0},{1,0,0},{0,1,1},{0,0,2}};
    El e; e.plo = vp::point("ax","ay","az",-10,10); PointType s = vp::point("sx","sy","sz",0.1,20); for (int d = 0; d < 3; ++d) e.phi[d] = e.plo[d] + s[d];
    const double alpha = vp::real("alpha", 0, 1);
    e.ips.push_back(IntegrationPoint(0.5, 0.25, 0.125, 3.0));
    Q::AssembleFictitiousIPs(e, V3(o[c][0], o[c][1], o[c][2]), alpha);
    const IntegrationPointFactory1D::Ip1DVectorType* R[3]; for (int d = 0; d < 3; ++d) R[d] = &IntegrationPointFactory1D::GetGauss(o[c][d], IntegrationMethod::gauss);
    std::size_t n = 0; for (auto& a : e.asked) n += !a.second;
    vp_ensure("every-candidate-asked-once", e.asked.size() == R[0]->size()*R[1]->size()*R[2]->size());
    vp_ensure("exactly-the-outside-points-added", e.ips.size() == n + 1);
    if (e.ips.size() != n + 1) return;
    vp_ensure("existing-points-kept", e.ips[0][0] == 0.5 && e.ips[0][1] == 0.25 && e.ips[0][2] == 0.125 && e.ips[0].Weight() == 3.0);
    std::vector<char> used(n + 1, 0); used[0] = 1;
    for (std::size_t i = 0; i < R[0]->size(); ++i) for (std::size_t j = 0; j < R[1]->size(); ++j) for (std::size_t k = 0; k < R[2]->size(); ++k) {
        const std::size_t id[3] = {i, j, k}; PointType x; double w = alpha;
        for (int d = 0; d < 3; ++d) { x[d] = e.plo[d] + s[d]*(*R[d])[id[d]][0]; w = w*s[d]*(*R[d])[id[d]][1]; }
        auto same = [&](const PointType& p) { return vp_and(vp::eq(p[0], x[0]), vp_and(vp::eq(p[1], x[1]), vp::eq(p[2], x[2]))); };
        int state = -1;
        for (auto& a : e.asked) if (same(a.first)) { state = a.second; break; }
        vp_ensure("candidate-is-gauss-point", state >= 0);
        if (state != 0) continue;
        bool hit = false;
        for (std::size_t q = 1; q <= n && !hit; ++q) if (!used[q] && same(e.ips[q].Point())) { hit = true; used[q] = 1; vp_ensure("scaled-weight", vp::eqrel(e.ips[q].Weight(), w, 1e4)); }
        vp_ensure("outside-point-added", hit);
    }
}
