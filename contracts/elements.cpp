// Contracts of untrimmed elements and their active domain (P26).
#include "vp.h"
#include "queso/includes/define.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/untrimmed_element.hpp"
//@sources queso/utilities/mesh_utilities.cpp
using namespace queso;
typedef UntrimmedElement<IntegrationPoint, BoundaryIntegrationPoint> El;
constexpr auto GL = CoordinateSpace::global; constexpr auto PA = CoordinateSpace::parametric;
static ElementBounds bounds() {
    static const char* n[4][3] = {{"gx","gy","gz"},{"gdx","gdy","gdz"},{"pu","pv","pw"},{"pdu","pdv","pdw"}};
    ElementBounds b;
    for (int i = 0; i < 3; ++i) {
        b.global.lower[i] = vp::real(n[0][i], -100, 100); b.global.upper[i] = b.global.lower[i] + vp::real(n[1][i], 1e-3, 100);
        b.parametric.lower[i] = vp::real(n[2][i], -10, 10); b.parametric.upper[i] = b.parametric.lower[i] + vp::real(n[3][i], 1e-3, 10);
    }
    return b;
}
// one element of general position with rational data (for obligations on long point lists)
static ElementBounds fixed(long c) {
    ElementBounds b;
    if (c == 0) { b.global.lower = {-1.0, 0.5, -3.0}; b.global.upper = {1.0, 3.5, 1.0}; b.parametric.lower = {0.25, 0.0, -1.0}; b.parametric.upper = {0.5, 1.0, 1.0}; }
    else { b.global.lower = {2.0, -8.0, 0.25}; b.global.upper = {2.5, -7.75, 8.25}; b.parametric.lower = {-1.0, -0.5, 0.0}; b.parametric.upper = {1.0, 0.5, 4.0}; }
    return b;
}
static double ext(const BoundingBoxType& b, int i) { return b.upper[i] - b.lower[i]; }
template<typename P> static void same(const char* l, const P& a, const P& b, double tol = 1e-9) { for (int i = 0; i < 3; ++i) vp_ensure(l, vp::eqrel(a[i], b[i], 1e2, tol)); }

//@harness H_el_inside property=P26
VP_HARNESS(H_el_inside) {
    auto b = bounds(); El e(3, b);
    PointType x = vp::point("x","y","z",-250,250);
    const bool para = vp_case("para", 0, 1);
    const auto& q = para ? b.parametric : b.global;
    bool in = true;
    for (int i = 0; i < 3; ++i) in = vp_and(in, vp_and(q.lower[i] <= x[i], x[i] <= q.upper[i]));
    const bool r = para ? e.IsInsideActiveDomain<PA>(x) : e.IsInsideActiveDomain<GL>(x);
    vp_ensure("inside-iff-in-box", r == in);
    if (!para) vp_ensure("default-space-is-global", e.IsInsideActiveDomain(x) == in);
}
// points on faces, edges and corners belong to the domain
//@harness H_el_inside_closed property=P26
VP_HARNESS(H_el_inside_closed) {
    auto b = bounds(); El e(3, b);
    const bool para = vp_case("para", 0, 1);
    const auto& q = para ? b.parametric : b.global;
    PointType x;
    const char* n[3] = {"cx","cy","cz"};
    for (int i = 0; i < 3; ++i) x[i] = vp_case(n[i], 0, 1) ? q.upper[i] : q.lower[i];
    vp_ensure("corner-inside", para ? e.IsInsideActiveDomain<PA>(x) : e.IsInsideActiveDomain<GL>(x));
}
//@harness H_el_state property=P26 opts="--br-timeout 0.3" max=200
VP_HARNESS(H_el_state) {
    auto b = bounds(); El e(3, b);
    const bool para = vp_case("para", 0, 1);
    const auto& q = para ? b.parametric : b.global;
    PointType lo = vp::point("lx","ly","lz",-250,250), s = vp::point("sx","sy","sz",0.01,100), up{lo[0]+s[0], lo[1]+s[1], lo[2]+s[2]};
    const double tol = vp::real("tol", 0, 0.001);
    bool apart = false, within = true;
    for (int i = 0; i < 3; ++i) {
        apart = vp_or(apart, vp_or(up[i] - tol < q.lower[i], lo[i] + tol > q.upper[i]));
        within = vp_and(within, vp_and(lo[i] + tol >= q.lower[i], up[i] - tol <= q.upper[i]));
    }
    const auto st = para ? e.GetIntersectionState<PA>(lo, up, tol) : e.GetIntersectionState<GL>(lo, up, tol);
    vp_ensure("outside-iff-disjoint", (st == IntersectionState::outside) == apart);
    vp_ensure("inside-iff-contained", (st == IntersectionState::inside) == vp_and(within, !apart));
    vp_ensure("state-is-defined", vp_or(st == IntersectionState::outside, vp_or(st == IntersectionState::inside, st == IntersectionState::trimmed)));
}
// the element's own box is inside; neighbours that only share a face are outside
//@harness H_el_state_neighbours property=P26
VP_HARNESS(H_el_state_neighbours) {
    auto b = bounds(); El e(3, b);
    const bool para = vp_case("para", 0, 1);
    const auto& q = para ? b.parametric : b.global;
    const int ax = (int)vp_case("axis", 0, 2); const int s = (int)vp_case("side", 0, 2);
    PointType lo = q.lower, up = q.upper;
    const double w = vp::real("w", 0.01, 10);
    if (s == 1) { up[ax] = q.lower[ax]; lo[ax] = q.lower[ax] - w; }
    if (s == 2) { lo[ax] = q.upper[ax]; up[ax] = q.upper[ax] + w; }
    const double tol = vp::real("tol", 1e-10, 0.0005);
    const auto st = para ? e.GetIntersectionState<PA>(lo, up, tol) : e.GetIntersectionState<GL>(lo, up, tol);
    vp_ensure("own-box-inside-neighbour-outside", st == (s == 0 ? IntersectionState::inside : IntersectionState::outside));
}
//@harness H_el_bounds property=P26
VP_HARNESS(H_el_bounds) {
    auto b = bounds();
    const long id = vp_any_int("id", 0, 1000000);
    El e((IndexType)id, b); auto v = e.View();
    same("cell-bounds", e.GetCellBounds<GL>().lower, b.global.lower); same("cell-bounds", e.GetCellBounds<GL>().upper, b.global.upper);
    same("cell-bounds", e.GetCellBounds<PA>().lower, b.parametric.lower); same("cell-bounds", e.GetCellBounds<PA>().upper, b.parametric.upper);
    same("view-bounds", v.GetCellBounds<GL>().lower, b.global.lower); same("view-bounds", v.GetCellBounds<GL>().upper, b.global.upper);
    same("view-bounds", v.GetCellBounds<PA>().lower, b.parametric.lower); same("view-bounds", v.GetCellBounds<PA>().upper, b.parametric.upper);
    same("active-bounds", e.GetActiveDomainBounds<GL>().lower, b.global.lower); same("active-bounds", e.GetActiveDomainBounds<GL>().upper, b.global.upper);
    same("active-bounds", e.GetActiveDomainBounds<PA>().lower, b.parametric.lower); same("active-bounds", e.GetActiveDomainBounds<PA>().upper, b.parametric.upper);
    vp_ensure("id-kept", vp_and((long)e.GetId() == id, (long)v.GetId() == id));
    vp_ensure("untrimmed", !e.IsTrimmed() && !v.IsTrimmed());
    vp_ensure("detj", vp::eq(e.DetJ()*ext(b.parametric,0)*ext(b.parametric,1)*ext(b.parametric,2), ext(b.global,0)*ext(b.global,1)*ext(b.global,2), 1e-4));
    vp_ensure("view-detj", vp::eq(e.DetJ(), v.DetJ(), 1e-6));
}
template<typename R> static void check_global(const ElementBounds& b, const PointType* p, const double* w, R&& range) {
    std::size_t n = 0;
    for (const auto& q : range) {
        if (n >= 2) break;
        for (int i = 0; i < 3; ++i)
            vp_ensure("global-point-is-image", vp::eqrel((q[i] - b.global.lower[i]) * ext(b.parametric, i), (p[n][i] - b.parametric.lower[i]) * ext(b.global, i), 1e3, 1e-9));
        vp_ensure("global-weight-scaled", vp::eqrel(q.Weight()*ext(b.parametric,0)*ext(b.parametric,1)*ext(b.parametric,2), w[n]*ext(b.global,0)*ext(b.global,1)*ext(b.global,2), 1e6, 1e-9));
        ++n;
    }
    vp_ensure("global-count", n == 2);
}
//@harness H_el_points property=P26 opts="--br-timeout 0.3" max=200
VP_HARNESS(H_el_points) {
    auto b = bounds(); El e(3, b);
    PointType p[2]; p[0] = vp::point("ax","ay","az",-10,20); p[1] = vp::point("bx","by","bz",-10,20);
    double w[2]; w[0] = vp::real("wa", 0, 10); w[1] = vp::real("wb", 0, 10);
    for (int i = 0; i < 2; ++i) e.GetIntegrationPoints().push_back(IntegrationPoint(p[i], w[i]));
    const El& c = e;
    const auto& st = c.GetIntegrationPoints<PA>();
    vp_ensure("parametric-count", st.size() == 2);
    for (int i = 0; i < 2; ++i) { same("parametric-point-kept", st[i].Point(), p[i]); vp_ensure("parametric-weight-kept", vp::eq(st[i].Weight(), w[i])); }
    check_global(b, p, w, c.GetIntegrationPoints<GL>());
    auto v = e.View();
    const auto& sv = v.GetIntegrationPoints<PA>();
    vp_ensure("view-sees-element", sv.size() == 2);
    for (int i = 0; i < 2; ++i) { same("view-parametric-point", sv[i].Point(), p[i]); vp_ensure("view-parametric-weight", vp::eq(sv[i].Weight(), w[i])); }
    check_global(b, p, w, v.GetIntegrationPoints<GL>());
}
// a range obtained from a temporary view stays valid as long as the element lives
struct Clobber { double a[16]; };
__attribute__((noinline)) static double clobber(double x) { volatile double a[64]; double s = 0; for (int i = 0; i < 64; ++i) { a[i] = x + i; } for (int i = 0; i < 64; ++i) s += a[i]; return s; }
__attribute__((noinline)) static auto range_of(const El& e) { return e.View().GetIntegrationPoints<GL>(); }
//@harness H_el_points_temporary_view property=P26 opts="--br-timeout 0.3" max=200
VP_HARNESS(H_el_points_temporary_view) {
    auto b = bounds(); El e(3, b);
    PointType p[2]; p[0] = vp::point("ax","ay","az",-10,20); p[1] = vp::point("bx","by","bz",-10,20);
    double w[2]; w[0] = vp::real("wa", 0, 10); w[1] = vp::real("wb", 0, 10);
    for (int i = 0; i < 2; ++i) e.GetIntegrationPoints().push_back(IntegrationPoint(p[i], w[i]));
    auto r = range_of(e);
    (void)clobber(77.0);
    check_global(b, p, w, r);
}
// boundary points: closed surface, divergence theorem, both spaces
//@harness H_el_boundary property=P26 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_el_boundary) {
    auto b = bounds(); El e(3, b);
    const auto g = e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, GL>();
    double n[3] = {0,0,0}, area = 0;
    double fx[3] = {0,0,0};
    for (const auto& q : g) {
        const auto nn = q.Normal();
        for (int i = 0; i < 3; ++i) { n[i] += q.Weight()*nn[i]; fx[i] += q.Weight()*nn[i]*q[i]; }
        area += q.Weight();
    }
    const double vol = ext(b.global,0)*ext(b.global,1)*ext(b.global,2);
    for (int i = 0; i < 3; ++i) {
        vp_ensure("boundary-closed", vp::eqrel(n[i], 0.0, 1e4, 1e-9));
        vp_ensure("flux-is-volume", vp::near2(fx[i], vol, 1e-3, 1e-3));
    }
    vp_ensure("boundary-area", vp::near2(area, 2*(ext(b.global,0)*ext(b.global,1)+ext(b.global,1)*ext(b.global,2)+ext(b.global,2)*ext(b.global,0)), 1e-3, 1e-3));
}
// the same points in parametric space: images, area vectors transformed by the cofactor, closed there as well
//@harness H_el_boundary_parametric property=P26 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_el_boundary_parametric) {
    auto b = fixed(vp_case("box", 0, 1)); El e(3, b);
    const bool mesh_first = vp_case("mesh_first", 0, 1);
    if (mesh_first) (void)e.GetActiveDomainBoundaryMesh();
    const auto u = e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, PA>();
    const auto g = e.GetActiveDomainBoundaryIps();
    vp_ensure("same-number-of-points", vp_and(u.size() == g.size(), u.size() > 0));
    if (u.size() != g.size()) return;
    double n[3] = {0,0,0}, fx[3] = {0,0,0};
    for (std::size_t q = 0; q < u.size(); ++q) {
        const auto nu = u[q].Normal(), ng = g[q].Normal();
        for (int i = 0; i < 3; ++i) {
            const int j = (i+1)%3, k = (i+2)%3;
            vp_ensure("parametric-point-is-image", vp::near((u[q][i] - b.parametric.lower[i]) * ext(b.global, i), (g[q][i] - b.global.lower[i]) * ext(b.parametric, i), 1e-9));
            vp_ensure("parametric-area-vector", vp::near(u[q].Weight()*nu[i]*ext(b.global,j)*ext(b.global,k), g[q].Weight()*ng[i]*ext(b.parametric,j)*ext(b.parametric,k), 1e-9));
            n[i] += u[q].Weight()*nu[i]; fx[i] += u[q].Weight()*nu[i]*u[q][i];
        }
        vp_ensure("boundary-weight-positive", vp_and(u[q].Weight() > 0.0, g[q].Weight() > 0.0));
        vp_ensure("boundary-point-in-domain", vp_and(e.IsInsideActiveDomain<GL>(PointType{(1-1e-9)*g[q][0]+1e-9*0.5*(b.global.lower[0]+b.global.upper[0]), (1-1e-9)*g[q][1]+1e-9*0.5*(b.global.lower[1]+b.global.upper[1]), (1-1e-9)*g[q][2]+1e-9*0.5*(b.global.lower[2]+b.global.upper[2])}), true));
    }
    for (int i = 0; i < 3; ++i) {
        vp_ensure("parametric-boundary-closed", vp::near(n[i], 0.0, 1e-9));
        vp_ensure("parametric-flux-is-volume", vp::near(fx[i], ext(b.parametric,0)*ext(b.parametric,1)*ext(b.parametric,2), 1e-9));
    }
}
//@harness H_el_boundary_mesh property=P26 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_el_boundary_mesh) {
    auto b = bounds(); El e(3, b);
    const bool twice = vp_case("twice", 0, 1);
    if (twice) (void)e.GetActiveDomainBoundaryIps();
    auto m = e.GetActiveDomainBoundaryMesh();
    vp_ensure("boundary-mesh-triangles", m.NumOfTriangles() == 12);
    double n[3] = {0,0,0}, vol = 0;
    for (std::size_t t = 0; t < m.NumOfTriangles(); ++t) {
        const auto tr = m.Triangle(t);
        const auto &p = tr.P1, &q = tr.P2, &r = tr.P3;
        for (int i = 0; i < 3; ++i) {
            const int j = (i+1)%3, k = (i+2)%3;
            const double a = 0.5*((q[j]-p[j])*(r[k]-p[k]) - (q[k]-p[k])*(r[j]-p[j]));
            n[i] += a; vol += a*(p[i]+q[i]+r[i])/9.0;
        }
    }
    for (int i = 0; i < 3; ++i) vp_ensure("boundary-mesh-closed", vp::eqrel(n[i], 0.0, 1e4, 1e-9));
    vp_ensure("boundary-mesh-volume", vp::eqrel(vol, ext(b.global,0)*ext(b.global,1)*ext(b.global,2), 1e6, 1e-9));
}
// per-element data of the grid traversal
//@harness H_el_values property=P26,P27
VP_HARNESS(H_el_values) {
    auto b = fixed(0); El e(3, b);
    vp_ensure("initial-values", vp_and(!e.GetValue<bool>(ElementValues::is_visited), e.GetValue<double>(ElementValues::neighbor_coefficient) == 1.0));
    const double x = vp::real("x"), y = vp::real("y");
    const bool v = vp_case("v", 0, 1), c = vp_case("copy", 0, 1);
    e.SetValue(ElementValues::neighbor_coefficient, x);
    vp_ensure("other-entry-unchanged", !e.GetValue<bool>(ElementValues::is_visited));
    e.SetValue(ElementValues::is_visited, v);
    vp_ensure("value-kept", vp_and(e.GetValue<double>(ElementValues::neighbor_coefficient) == x, e.GetValue<bool>(ElementValues::is_visited) == v));
    El f(4, b);
    if (c) { f.SetValue(ElementValues::neighbor_coefficient, y); vp_ensure("elements-independent", e.GetValue<double>(ElementValues::neighbor_coefficient) == x); }
    e.SetValue(ElementValues::neighbor_coefficient, y);
    vp_ensure("value-overwritten", e.GetValue<double>(ElementValues::neighbor_coefficient) == y);
}
