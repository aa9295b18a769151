// Contracts of the 1D quadrature rules (P07) and of the tensor-product rule of a full element (P08).
//@sources queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp
#include "vp.h"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/quadrature/single_element.hpp"
#include "queso/containers/integration_point.hpp"
using namespace queso;
typedef IntegrationPointFactory1D F;
typedef F::Ip1DVectorType Rule;
static IntegrationMethod method(long i) { return static_cast<IntegrationMethod>(i); }
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static void basics(const Rule& r) {
    double prev = 0.0, sum = 0;
    for (std::size_t i = 0; i < r.size(); ++i) {
        vp_ensure("points-increasing-inside", r[i][0] > prev); prev = r[i][0];
        vp_ensure("weights-positive", r[i][1] > 0.0);
        sum += r[i][1];
    }
    vp_ensure("points-inside", prev < 1.0);
    vp_ensure("weights-sum-to-one", std::abs(sum - 1.0) < 1e-12);
}
//@harness H_rule_gauss property=P07
VP_HARNESS(H_rule_gauss) {
    const long p = vp_case("p", 0, 12), m = vp_case("method", 0, 2);
    const long n = p - m + 1;       // points
    bool thrown = false; const Rule* r = nullptr;
    try { r = &F::GetGauss(p, method(m)); } catch (std::exception&) { thrown = true; }
    if (n < 1) { vp_ensure("unavailable-rule-refused", thrown); return; }
    if (p <= 9) vp_ensure("rule-available", !thrown);   // highest tabulated degree
    if (thrown) return;
    vp_ensure("number-of-points", (long)r->size() == n);
    basics(*r);
    for (int k = 0; k <= 2*n - 1; ++k) {
        double s = 0; for (auto& x : *r) s += x[1]*pw(x[0], k);
        vp_ensure("exact-for-degree-2n-1", std::abs(s - 1.0/(k+1)) < 1e-12);
    }
}
//@harness H_rule_gauss_refuses property=P07
VP_HARNESS(H_rule_gauss_refuses) {
    const long p = vp_case("p", 0, 5), m = vp_case("method", 3, 5);
    bool thrown = false;
    try { F::GetGauss(p, method(m)); } catch (std::exception&) { thrown = true; }
    vp_ensure("multi-element-method-refused", thrown);
}
//@harness H_rule_ggq_refuses property=P07
VP_HARNESS(H_rule_ggq_refuses) {
    const long p = vp_case("p", 0, 7), m = vp_case("method", 0, 5), e = vp_case("e", 0, 2);
    bool thrown = false;
    try { F::GetGGQ(p, e, method(m)); } catch (std::exception&) { thrown = true; }
    vp_ensure("unsupported-request-refused", thrown == (m < 3 || p < 2 || p > 4 || e < 1));
}
// Spline space S^d_r on e equal spans of [0,1]: 1,x,..,x^d and (x-k/e)_+^q, q=r+1..d, k=1..e-1.
static void ggq(long p, long m, long e, int step) {
    const long d = 2*p - (m - 3), r = p - 2;
    const long n = (d+1)*2 + (e-1)*(d-r) - d - 1;
    auto ptr = F::GetGGQ(p, e, method(m));
    const Rule& q = *ptr;
    vp_ensure("half-as-many-points-as-functions", (long)q.size() == (n + 1)/2);
    basics(q);
    for (int k = 0; k <= d; ++k) {
        double s = 0; for (auto& x : q) s += x[1]*pw(x[0], k);
        vp_ensure("exact-for-polynomials", std::abs(s - 1.0/(k+1)) < 1e-12);
    }
    for (long j = 1; j < e; j += step) for (long k = r + 1; k <= d; ++k) {
        const double t = double(j)/double(e); double s = 0;
        for (auto& x : q) if (x[0] > t) s += x[1]*pw(x[0]-t, k);
        vp_ensure("exact-for-splines", std::abs(s - pw(1.0-t, k+1)/(k+1)) < 1e-12);
    }
}
//@harness H_rule_ggq property=P07 max=600
VP_HARNESS(H_rule_ggq) { const long p = vp_case("p", 2, 4), m = vp_case("method", 3, 5); ggq(p, m, vp_case("e", 1, 24), 1); }
//@harness H_rule_ggq_many property=P07 tier=thorough max=2000
VP_HARNESS(H_rule_ggq_many) { const long p = vp_case("p", 2, 4), m = vp_case("method", 3, 5); ggq(p, m, vp_case("e", 25, 64), 1); }
//@harness H_rule_ggq_long property=P07 mode=native native=6
VP_HARNESS(H_rule_ggq_long) { const long p = vp_case("p", 2, 4), m = vp_case("method", 3, 5); ggq(p, m, vp_any_int("e", 20, 1500), 17); }
// ---------------------------------------------------------------- P08
struct El { typedef IntegrationPoint IntegrationPointType; typedef std::vector<IntegrationPoint> IntegrationPointVectorType; };
static void tensor(const Vector3i& o, long m) {
    PointType lo = vp::point("lx","ly","lz",-100,100), s = vp::point("sx","sy","sz",1e-3,100), hi{lo[0]+s[0], lo[1]+s[1], lo[2]+s[2]};
    El::IntegrationPointVectorType ips;
    ips.push_back(IntegrationPoint(1.0, 2.0, 3.0, 4.0));   // earlier content is dropped
    QuadratureSingleElement<El>::AssembleIPs(ips, lo, hi, o, method(m));
    const Rule *r[3]; std::size_t n = 1;
    for (int k = 0; k < 3; ++k) { r[k] = &F::GetGauss(o[k], method(m)); n *= r[k]->size(); }
    vp_ensure("number-of-points", ips.size() == n);
    if (ips.size() != n) return;
    double sum = 0;
    std::vector<char> seen(n, 0);
    for (std::size_t i = 0; i < r[0]->size(); ++i) for (std::size_t j = 0; j < r[1]->size(); ++j) for (std::size_t k = 0; k < r[2]->size(); ++k) {
        const std::size_t id[3] = {i, j, k};
        // the order of the points is free; the code's own order is tried first
        std::size_t at = (i*r[1]->size() + j)*r[2]->size() + k;
        bool c = true; double w = 1; PointType x;
        for (int q = 0; q < 3; ++q) { x[q] = lo[q] + s[q]*(*r[q])[id[q]][0]; w = w * s[q] * (*r[q])[id[q]][1]; }
        auto is = [&](std::size_t a) { return vp_and(vp::eqrel(ips[a][0], x[0], 100), vp_and(vp::eqrel(ips[a][1], x[1], 100), vp::eqrel(ips[a][2], x[2], 100))); };
        bool hit = is(at);
        if (!hit) for (at = 0; at < n && !hit; ++at) { hit = is(at); if (hit) break; }
        vp_ensure("every-product-point-present", hit);
        if (!hit) return;
        vp_ensure("point-used-once", !seen[at]); seen[at] = 1;
        vp_ensure("weight-is-product", vp::eqrel(ips[at].Weight(), w, 1e6));
        for (int q = 0; q < 3; ++q) vp_ensure("inside-box", vp_and(ips[at][q] > lo[q], ips[at][q] < hi[q]));
        vp_ensure("weight-positive", ips[at].Weight() > 0.0);
        sum += ips[at].Weight();
    }
    const double vol = s[0]*s[1]*s[2];
    vp_ensure("weights-sum-to-volume", vp_and(sum <= vol*(1+1e-9), sum >= vol*(1-1e-9)));
}
//@harness H_tensor_small property=P08 opts="--br-timeout 0.3"
VP_HARNESS(H_tensor_small) { const long i = vp_case("i", 0, 3), j = vp_case("j", 0, 3), k = vp_case("k", 0, 3); tensor(Vector3i{(IndexType)i, (IndexType)j, (IndexType)k}, 0); }
//@harness H_tensor_reduced property=P08 opts="--br-timeout 0.3"
VP_HARNESS(H_tensor_reduced) { const long m = vp_case("method", 1, 2), i = vp_case("i", 0, 2), j = vp_case("j", 0, 2); tensor(Vector3i{(IndexType)(i+m), (IndexType)(j+m), (IndexType)(m + (i+j+1)%3)}, m); }
//@harness H_tensor_high property=P08 opts="--br-timeout 0.3"
VP_HARNESS(H_tensor_high) { const long a = vp_case("axis", 0, 2), p = vp_case("p", 4, 9); Vector3i o{0, 0, 0}; o[a] = p; o[(a+1)%3] = 1; tensor(o, 0); }
