// Contracts of TriangleUtilities (P25).
#include "vp.h"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/utilities/triangle_utilities.hpp"
using namespace queso;
struct Tri { PointType a, b, c; };
static Tri tri(double r) {
    return {vp::point("ax","ay","az",-r,r), vp::point("bx","by","bz",-r,r), vp::point("cx","cy","cz",-r,r)};
}
static PointType sub(const PointType& a, const PointType& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
static PointType crs(const PointType& a, const PointType& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static double dt(const PointType& a, const PointType& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static TriangleProxy<WithoutNormals> proxy(const Tri& t) { return {t.a, t.b, t.c}; }

//@harness H_tri_area property=P25
VP_HARNESS(H_tri_area) {
    Tri t = tri(10);
    PointType n = crs(sub(t.b, t.a), sub(t.c, t.a));
    double A = TriangleUtilities::Area(proxy(t));
    vp_ensure("area-nonnegative", A >= 0.0);
    vp_ensure("area-is-half-cross", vp::eqrel(4.0*A*A, dt(n, n), 1e6));
    PointType c = TriangleUtilities::Center(proxy(t));
    for (int i = 0; i < 3; ++i) vp_ensure("centre-is-mean", vp::near2(3.0*c[i], t.a[i]+t.b[i]+t.c[i], 1e-13, 1e-12));
}
//@harness H_tri_normal property=P25 ob=40 opts="--br-timeout 0.2"
VP_HARNESS(H_tri_normal) {
    Tri t = tri(10);
    PointType n = crs(sub(t.b, t.a), sub(t.c, t.a));
    const double n2 = dt(n, n);
    vp_assume(n2 > 1e-4);
    Vector3d m = TriangleUtilities::Normal(proxy(t));
    vp_ensure("normal-unit", vp::eq(dt(m, m), 1.0));
    PointType x = crs(m, n);
    for (int i = 0; i < 3; ++i) vp_ensure("normal-parallel-to-cross", vp::eqrel(x[i], 0.0, 1e3));
    vp_ensure("normal-right-handed", dt(m, n) > 0.0);
}
//@harness H_tri_aspect property=P25 mode=native
VP_HARNESS(H_tri_aspect) {
    Tri t = tri(10);
    PointType n = crs(sub(t.b, t.a), sub(t.c, t.a));
    vp_assume(dt(n, n) > 1e-4);
    double a = TriangleUtilities::AspectRatio(proxy(t));
    vp_ensure("aspect-at-least-one", a >= 1.0 - 1e-9);
    PointType e1 = sub(t.b,t.a), e2 = sub(t.c,t.b), e3 = sub(t.a,t.c);
    double l1 = std::sqrt(dt(e1,e1)), l2 = std::sqrt(dt(e2,e2)), l3 = std::sqrt(dt(e3,e3));
    double want = std::max(l1, std::max(l2, l3)) * (l1+l2+l3) / (2.0*std::sqrt(3.0)*std::sqrt(dt(n,n)));
    vp_ensure("aspect-formula", std::abs(a - want) <= 1e-8 * want);
}
// Integration points of a triangle: inside, positive weights that sum to the area, polynomially exact on the reference triangle.
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static int degree(long m) { return m == 0 ? 1 : m == 1 ? 2 : m == 2 ? 4 : 6; }
//@harness H_tri_rule_table property=P25
VP_HARNESS(H_tri_rule_table) {
    long m = vp_case("method", 0, 4);
    const auto& ips = TriangleUtilities::detail::GetIntegrationPoints(m);
    const int d = degree(m);
    vp_ensure("non-empty", ips.size() > 0);
    double facts[10]; facts[0]=1; for (int i=1;i<10;++i) facts[i]=facts[i-1]*i;
    for (int i = 0; i <= d; ++i) for (int j = 0; i + j <= d; ++j) {
        double s = 0.0;
        for (const auto& p : ips) s += p.Weight() * pw(p[0], i) * pw(p[1], j);
        vp_ensure("exact-for-declared-degree", vp::near(s, facts[i]*facts[j]/facts[i+j+2], 2e-14));
    }
    for (const auto& p : ips) vp_ensure("points-inside-weights-positive", p.Weight() > 0 && p[0] >= 0 && p[1] >= 0 && p[0]+p[1] <= 1.0);
}
//@harness H_tri_ips_global property=P25 opts="--br-timeout 0.2"
VP_HARNESS(H_tri_ips_global) {
    Tri t = tri(10);
    // Callee contracts: Area and Normal are used through the values they return (their contracts are H_tri_area / H_tri_normal).
    const double A = TriangleUtilities::Area(proxy(t));
    long m = vp_case("method", 0, 4);
    const auto& tab = TriangleUtilities::detail::GetIntegrationPoints(m);
    auto ips = TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPoint>(proxy(t), m);
    vp_ensure("count", ips.size() == tab.size());
    double s = 0; PointType mom{0,0,0};
    Vector3d n = TriangleUtilities::Normal(proxy(t));
    for (std::size_t k = 0; k < ips.size(); ++k) {
        const auto& p = ips[k]; const double r = tab[k][0], q = tab[k][1];
        s += p.Weight();
        for (int i = 0; i < 3; ++i) {
            vp_ensure("point-is-barycentric-image", vp::near2(p[i], (1.0-r-q)*t.a[i] + r*t.b[i] + q*t.c[i], 1e-13, 1e-12));
            mom[i] += p.Weight() * p[i];
            vp_ensure("normal-of-triangle", vp::eq(p.Normal()[i], n[i], 1e-12));
        }
        vp_ensure("weight-scaled-by-area", vp::near2(p.Weight(), 2.0*tab[k].Weight()*A, 1e-12, 1e-9));
    }
    vp_ensure("weights-sum-to-area", vp::near2(s, A, 1e-11, 1e-9));
    PointType c = TriangleUtilities::Center(proxy(t));
    for (int i = 0; i < 3; ++i) vp_ensure("first-moment", vp::near2(mom[i], A*c[i], 1e-9, 1e-8));
}
