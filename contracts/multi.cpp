// Contracts of the multi-element quadrature (P09): every full element gets its share of the rules of the boxes of elements.
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp
//@native_sources queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/flood_fill.cpp
#include "vp.h"
#include "settings.h"
#include <queue>
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/quadrature/multiple_elements.hpp"
using namespace queso;
typedef BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint> Grid;
typedef Grid::ElementFilter Filter;
struct UB { static constexpr Filter Builds = Filter::untrimmed;
    std::optional<Grid::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { return Grid::UntrimmedElementType(id, b, {}); } };
struct TB { static constexpr Filter Builds = Filter::trimmed;
    std::optional<Grid::TrimmedElementType> Build(IndexType id, const ElementBounds& b) {
        return Grid::TrimmedElementType(id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, nullptr), {IntegrationPoint(1.0*id, -2.0, 3.0, 4.0)}); } };
static IntegrationMethod method(long m) { return m == 0 ? IntegrationMethod::ggq_optimal : m == 1 ? IntegrationMethod::ggq_reduced_1 : IntegrationMethod::ggq_reduced_2; }
static long deg(long p, long m) { return 2*p - m; }                 // degree of the spline space integrated exactly
static double pw(double x, long k) { double r = 1; while (k-- > 0) r = r * x; return r; }
static double pos(double x) { return x > 0 ? x : 0.0; }
// integral over [a,b] of x^k, and of (x-t)_+^k
static double mono(double a, double b, long k) { return (pw(b, k+1) - pw(a, k+1))/(k+1.0); }
static double trunc(double a, double b, double t, long k) { return (pw(pos(b-t), k+1) - pw(pos(a-t), k+1))/(k+1.0); }
static bool isFull(long mask, std::size_t i) { return (mask >> i) & 1; }
// Whole contract for one configuration. kind[i]: 0 missing, 1 full, 2 trimmed
static void contract(const vp::GridSpec& g, const std::vector<int>& kind, long m, bool moments, double tol = 1e-9) {
    auto st = vp::make_settings(g);
    Grid grid(*st); GridIndexer gi(*st);
    UB ub; TB tb;
    for (std::size_t i = 0; i < kind.size(); ++i) {
        const ElementBounds b{gi.GetBoundingBoxXYZFromIndex(i), gi.GetBoundingBoxUVWFromIndex(i)};
        if (kind[i] == 1) grid.MakeElement(ub, i+1, b);
        if (kind[i] == 2) grid.MakeElement(tb, i+1, b);
    }
    grid.LockElements();
    QuadratureMultipleElements<Grid::UntrimmedElementType>::AssembleIPs(grid, g.order, method(m));
    double vol = 0, wsum = 0;
    PointType ms{0,0,0}, me{0,0,0};
    for (const auto& e : grid.GetElements<Filter::trimmed>()) {
        const auto& q = e.GetIntegrationPoints<CoordinateSpace::parametric>();
        vp_ensure("trimmed-element-untouched", q.size() == 1 && q[0][0] == 1.0*e.GetId() && q[0][1] == -2.0 && q[0].Weight() == 4.0);
    }
    std::size_t nf = 0;
    for (const auto& e : grid.GetElements<Filter::untrimmed>()) {
        ++nf;
        const auto b = e.GetCellBounds<CoordinateSpace::parametric>();
        vp_ensure("element-still-full", e.GetId() >= 1 && e.GetId() <= kind.size() && kind[e.GetId()-1] == 1);
        vol += (b.upper[0]-b.lower[0])*(b.upper[1]-b.lower[1])*(b.upper[2]-b.lower[2]);
        for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::parametric>()) {
            for (int d = 0; d < 3; ++d) vp_ensure("point-inside-its-element", vp_and(b.lower[d] < q[d], q[d] < b.upper[d]));
            vp_ensure("weight-positive", q.Weight() > 0.0);
            wsum += q.Weight();
        }
    }
    std::size_t want = 0; for (int k : kind) want += k == 1;
    vp_ensure("all-full-elements-kept", nf == want);
    vp_ensure("volume-of-full-elements", vp::near(wsum, vol, tol));
    if (!moments) return;
    // the rules of all boxes integrate polynomials and splines over the knots of the grid: so does their union
    for (int d = 0; d < 3; ++d) {
        const long p = (long)g.order[d], D = deg(p, m); const int a = (d+1)%3;
        double s[5] = {0,0,0,0,0}, x[5] = {0,0,0,0,0};
        const double h = (g.phi[d]-g.plo[d])/g.n[d], t1 = g.plo[d] + h, t2 = g.plo[d] + h*(g.n[d] > 2 ? 2 : 0);
        for (const auto& e : grid.GetElements<Filter::untrimmed>()) {
            const auto b = e.GetCellBounds<CoordinateSpace::parametric>();
            const double A = (b.upper[a]-b.lower[a])*(b.upper[(d+2)%3]-b.lower[(d+2)%3]);
            x[0] += A*mono(b.lower[d], b.upper[d], D); x[1] += A*trunc(b.lower[d], b.upper[d], t1, D); x[2] += A*trunc(b.lower[d], b.upper[d], t2, D); x[4] += A*trunc(b.lower[d], b.upper[d], t1, p-1);
            x[3] += (b.upper[(d+2)%3]-b.lower[(d+2)%3])*mono(b.lower[d], b.upper[d], D)*mono(b.lower[a], b.upper[a], 1);
            for (const auto& q : e.GetIntegrationPoints<CoordinateSpace::parametric>()) {
                s[0] += q.Weight()*pw(q[d], D); s[1] += q.Weight()*pw(pos(q[d]-t1), D); s[2] += q.Weight()*pw(pos(q[d]-t2), D); s[4] += q.Weight()*pw(pos(q[d]-t1), p-1);
                s[3] += q.Weight()*pw(q[d], D)*q[a];
            }
        }
        vp_ensure("integrates-polynomials", vp::near(s[0], x[0], tol));
        vp_ensure("integrates-splines", vp_and(vp::near(s[4], x[4], tol), vp_and(vp::near(s[1], x[1], tol), vp::near(s[2], x[2], tol))));
        vp_ensure("integrates-products", vp::near(s[3], x[3], tol));
    }
}
static std::vector<int> arrangement(long mask, std::size_t n, long other) {
    std::vector<int> k(n); for (std::size_t i = 0; i < n; ++i) k[i] = isFull(mask, i) ? 1 : (other == 2 ? 2 : other == 1 ? 0 : (i % 2 ? 2 : 0)); return k;
}
static vp::GridSpec spec(long a, long b, long c, long p, long q, long r) {
    vp::GridSpec g; g.n = Vector3i{(IndexType)a,(IndexType)b,(IndexType)c}; g.order = Vector3i{(IndexType)p,(IndexType)q,(IndexType)r};
    g.lo = {-1,0,2}; g.hi = {2,1,3}; g.plo = {0.0, -1.0, 0.5}; g.phi = {1.0, 0.5, 1.0}; return g;
}
// all arrangements of full and other cells on small grids (quick: one orientation / every third mask)
static void planar(long pl, long mask) {
    const long n[3][3] = {{3,2,1},{1,3,2},{2,1,3}};
    contract(spec(n[pl][0], n[pl][1], n[pl][2], 2, 2, 2), arrangement(mask, 6, mask % 3), (mask + pl) % 3, true);
}
//@harness H_multi_planar property=P09 max=500
VP_HARNESS(H_multi_planar) { const long mask = vp_case("mask", 0, 63); planar((mask/2) % 3, mask); }
//@harness H_multi_planar_all property=P09 tier=thorough max=900
VP_HARNESS(H_multi_planar_all) { const long pl = vp_case("plane", 0, 2); planar(pl, vp_case("mask", 0, 63)); }
//@harness H_multi_cube property=P09 max=500
VP_HARNESS(H_multi_cube) { const long mask = 4*vp_case("mask", 0, 63) + 1; contract(spec(2, 2, 2, 2, 2, 2), arrangement(mask, 8, mask % 3), 2 - mask % 3, false); }
//@harness H_multi_cube_all property=P09 tier=thorough max=900
VP_HARNESS(H_multi_cube_all) { const long mask = vp_case("mask", 0, 255); contract(spec(2, 2, 2, 2, 2, 2), arrangement(mask, 8, mask % 3), 2 - mask % 3, false); }
// all degrees and methods on rows and selected arrangements
//@harness H_multi_degrees property=P09 max=500
VP_HARNESS(H_multi_degrees) {
    const long p = vp_case("p", 2, 4), m = vp_case("method", 0, 2), c = vp_case("c", 0, 3);
    const long n[4][3] = {{4,1,1},{1,5,1},{1,1,3},{2,2,1}}; const long mask[4] = {15, 31, 7, 7};
    contract(spec(n[c][0], n[c][1], n[c][2], p, c == 0 ? 2 : p, c == 1 ? 2 : p), arrangement(mask[c], n[c][0]*n[c][1]*n[c][2], 2), m, true);
}
// any position and size of the parametric domain
//@harness H_multi_symbolic property=P09 opts="--br-timeout 0.3" max=500
VP_HARNESS(H_multi_symbolic) {
    const int ax = (int)vp_case("axis", 0, 2); const long m = vp_case("method", 0, 2), mask = vp_case("mask", 1, 7);
    vp::GridSpec g = spec(ax == 0 ? 3 : 1, ax == 1 ? 3 : 1, ax == 2 ? 3 : 1, 2, 2, 2);
    const double lo = vp::real("lo", -10, 10), s = vp::real("s", 0.1, 10);
    g.plo[ax] = lo; g.phi[ax] = lo + s;
    contract(g, arrangement(mask, 3, 0), m, false, 1e-8);
}
// bounded companion: random arrangements of larger grids, all degrees
//@harness H_multi_random property=P09 mode=native native=10
VP_HARNESS(H_multi_random) {
    const long a = vp_any_int("a", 1, 5), b = vp_any_int("b", 1, 5), c = vp_any_int("c", 1, 4), m = vp_case("method", 0, 2);
    vp::GridSpec g = spec(a, b, c, vp_any_int("p", 2, 4), vp_any_int("q", 2, 4), vp_any_int("r", 2, 4));
    std::vector<int> k(a*b*c); const long fill = vp_any_int("fill", 1, 9);
    for (auto& x : k) { const long z = vp_any_int("z", 0, 9); x = z < fill ? 1 : (z % 2 ? 2 : 0); }
    contract(g, k, m, true, 1e-8);
}
