// Contracts of the point classification (P18): GeometryQuery::IsInside (closed and open meshes) and its caller BRepOperator::IsInside.
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/flood_fill.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc
#include "vp.h"
#include <random>
#include "queso/includes/define.hpp"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/embedding/geometry_query.h"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/ray_aabb_primitive.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
// Closed solids: a convex polyhedron given by its faces; n_f.x <= d_f is the membership criterion (exact data).
struct Solid { TriangleMesh m; std::vector<PointType> n; std::vector<double> d; };
static PointType sub(const PointType& a, const PointType& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
static PointType crs(const PointType& a, const PointType& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static double dt(const PointType& a, const PointType& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static void face(Solid& s, const std::vector<PointType>& v, int a, int b, int c) {
    const PointType n = crs(sub(v[b], v[a]), sub(v[c], v[a])); s.n.push_back(n); s.d.push_back(dt(n, v[a]));
    s.m.AddTriangle({(IndexType)a, (IndexType)b, (IndexType)c}, n);
}
static Solid polyhedron(const std::vector<PointType>& v, const std::vector<std::array<int,3>>& f) {
    Solid s; for (auto& p : v) s.m.AddVertex(p); for (auto& t : f) face(s, v, t[0], t[1], t[2]); return s;
}
static std::vector<std::array<int,3>> boxFaces(int c) {  // two different tessellations
    if (c == 0) return {{0,2,1},{1,2,3},{4,5,6},{5,7,6},{0,1,4},{1,5,4},{2,6,3},{3,6,7},{0,4,2},{2,4,6},{1,3,5},{3,7,5}};
    return {{0,2,3},{0,3,1},{4,5,7},{4,7,6},{0,1,5},{0,5,4},{2,6,7},{2,7,3},{0,4,6},{0,6,2},{1,3,7},{1,7,5}};
}
static Solid box(const PointType& l, const PointType& u, int tess) {
    std::vector<PointType> v(8); for (int i = 0; i < 8; ++i) v[i] = PointType{i & 1 ? u[0] : l[0], i & 2 ? u[1] : l[1], i & 4 ? u[2] : l[2]};
    return polyhedron(v, boxFaces(tess));
}
static Solid tet(const std::vector<PointType>& v) { return polyhedron(v, {{0,2,1},{0,1,3},{1,2,3},{0,3,2}}); }
static Solid solid(long c) {
    if (c == 0) return box({0,0,0}, {1,1,1}, 0);
    if (c == 1) return box({-2,0.5,-1}, {1,3.5,7}, 1);
    if (c == 2) return tet({{0,0,0},{4,0,0},{0,4,0},{0,0,4}});
    if (c == 3) return tet({{-1,-1,-1},{1,1,-1},{-1,1,1},{1,-1,1}});
    if (c == 4) return polyhedron({{1,0,0},{0,1,0},{-1,0,0},{0,-1,0},{0,0,1},{0,0,-1}}, {{0,1,4},{1,2,4},{2,3,4},{3,0,4},{1,0,5},{2,1,5},{3,2,5},{0,3,5}});
    return tet({{100,100,100},{104,101,100},{101,104,100},{101,101,103}});
}
static bool strictlyIn(const Solid& s, const PointType& x, double g) { bool r = true; for (std::size_t i = 0; i < s.n.size(); ++i) r = vp_and(r, dt(s.n[i], x) < s.d[i] - g); return r; }
static bool strictlyOut(const Solid& s, const PointType& x, double g) { bool r = false; for (std::size_t i = 0; i < s.n.size(); ++i) r = vp_or(r, dt(s.n[i], x) > s.d[i] + g); return r; }
static const double DIRS[8][3] = {{1,1.25,0.75},{0.5,1.5,1},{1,1,1},{1,0.5,1.5},{2,1,1.5},{0.75,0.75,1.5},{-1,0.5,2},{-1,-2,-1.5}};
static void ray_contract(const Solid& s, const PointType& x, const Vector3d& dir, bool must_succeed) {
    GeometryQuery q(s.m, true);
    const bool in = strictlyIn(s, x, 1e-6), out = strictlyOut(s, x, 1e-6);
    vp_assume(vp_or(in, out));
    const auto [inside, success] = q.IsInside(Ray_AABB_primitive(x, dir));
    vp_ensure("successful-ray-inside-point", vp_imp(vp_and(in, success), inside));
    vp_ensure("successful-ray-outside-point", vp_imp(vp_and(out, success), !inside));
    vp_ensure("failed-ray-not-inside", vp_imp(!success, !inside));
    if (must_succeed) vp_ensure("ray-successful", success);
}
// any point, tree contract in place of the tree (P17): every triangle is a candidate
extern "C" std::vector<IndexType> vp_stub_query(const AABB_tree* t, const AABB_primitive_base*) {
    std::vector<IndexType> r; for (const auto& n : t->Nodes()) if (n.height == 0) r.push_back(n.particle); return r;
}
//@harness H_inside_ray_box property=P18 opts="--br-timeout 0.3 --replace AABB_tree::Query=>vp_stub_query" max=400
VP_HARNESS(H_inside_ray_box) { const long c = vp_case("solid", 0, 1); ray_contract(solid(c), vp::point("x","y","z",-8,8), Vector3d{DIRS[c][0], DIRS[c][1], DIRS[c][2]}, false); }
//@harness H_inside_ray_poly property=P18 opts="--br-timeout 0.3 --replace AABB_tree::Query=>vp_stub_query" max=400
VP_HARNESS(H_inside_ray_poly) {
    const long c = vp_case("solid", 2, 4), k = 2*vp_case("dir", 0, 1) + (c == 2 ? 0 : 3*(c-3));
    ray_contract(solid(c), vp::point("x","y","z",-8,8), Vector3d{DIRS[k][0], DIRS[k][1], DIRS[k][2]}, false);
}
//@harness H_inside_ray_all property=P18 tier=thorough opts="--br-timeout 0.3 --replace AABB_tree::Query=>vp_stub_query" max=1500
VP_HARNESS(H_inside_ray_all) {
    const long c = vp_case("solid", 0, 4), k = vp_case("dir", 0, 7);
    ray_contract(solid(c), vp::point("x","y","z",-8,8), Vector3d{DIRS[k][0], DIRS[k][1], DIRS[k][2]}, false);
}
// with the real tree
//@harness H_inside_ray_tree property=P18 opts="--br-timeout 0.3" max=400
VP_HARNESS(H_inside_ray_tree) {
    const long c = vp_case("solid", 2, 3); const long k = c - 2;
    ray_contract(solid(c), vp::point("x","y","z",-8,8), Vector3d{DIRS[k][0], DIRS[k][1], DIRS[k][2]}, false);
}
//@harness H_inside_ray_tree_box property=P18 tier=thorough opts="--br-timeout 0.3" max=1500
VP_HARNESS(H_inside_ray_tree_box) { ray_contract(solid(0), vp::point("x","y","z",-8,8), Vector3d{DIRS[0][0], DIRS[0][1], DIRS[0][2]}, false); }
// any direction, fixed points
//@harness H_inside_ray_direction property=P18 opts="--br-timeout 0.3 --replace AABB_tree::Query=>vp_stub_query" max=300
VP_HARNESS(H_inside_ray_direction) {
    const long c = vp_case("solid", 0, 3);
    const PointType pts[6] = {{0.25,0.75,0.5},{0.1,0.9,0.2},{-0.5,0.5,0.25},{0.5,-3,0.5},{2,2,2.5},{0.5,0.5,-0.5}};
    const long k = vp_case("point", 0, 5);
    ray_contract(solid(c), pts[k], Vector3d{vp::real("dx", 0.5, 1.5), vp::real("dy", 0.5, 1.5), vp::real("dz", 0.5, 1.5)}, false);
}
// scale and position: the classification does not depend on them
//@harness H_inside_scaled property=P18 opts="--br-timeout 0.3 --replace AABB_tree::Query=>vp_stub_query" max=300
//@harness H_inside_scaled_box property=P18 tier=thorough opts="--br-timeout 0.3 --replace AABB_tree::Query=>vp_stub_query" max=600
static void scaled(const Solid& b, double s, double o, int k) {
    PointType x; const char* n[3] = {"x","y","z"}; for (int d = 0; d < 3; ++d) x[d] = o + s*vp::real(n[d], -2, 5);
    bool in = true, out = false; for (std::size_t i = 0; i < b.n.size(); ++i) { in = vp_and(in, dt(b.n[i], x) < b.d[i] - 1e-6*s*s*s); out = vp_or(out, dt(b.n[i], x) > b.d[i] + 1e-6*s*s*s); }
    vp_assume(vp_or(in, out));
    GeometryQuery q(b.m, true);
    const auto [inside, success] = q.IsInside(Ray_AABB_primitive(x, Vector3d{DIRS[k][0], DIRS[k][1], DIRS[k][2]}));
    vp_ensure("successful-ray-inside-point", vp_imp(vp_and(in, success), inside));
    vp_ensure("successful-ray-outside-point", vp_imp(vp_and(out, success), !inside));
}
static const double SC[4] = {1024, 64, 1.0/64, 1.0/256}, OFF[4] = {0, 4096, 1, 0};
VP_HARNESS(H_inside_scaled) {
    const long c = vp_case("c", 0, 3); const double s = SC[c], o = OFF[c];
    scaled(tet({{o,o,o},{o+4*s,o,o},{o,o+4*s,o},{o,o,o+4*s}}), s, o, 0);
}
VP_HARNESS(H_inside_scaled_box) {
    const long c = vp_case("c", 0, 3), k = vp_case("dir", 0, 1); const double s = SC[c], o = OFF[c];
    scaled(box({o,o,o}, {o+s,o+s,o+s}, 0), s, o, k);
}
// points of general position are decided by a single ray
//@harness H_inside_ray_decides property=P18 opts="--br-timeout 0.3"
VP_HARNESS(H_inside_ray_decides) {
    const long c = vp_case("solid", 0, 4), i = vp_case("i", 0, 3), j = vp_case("j", 0, 3), k = vp_case("k", 0, 3);
    ray_contract(solid(c), PointType{-0.7+0.61*i, -0.66+0.57*j, -0.73+0.59*k}, Vector3d{1.0, 1.2345, 0.8765}, true);
}
// open mesh: the nearest hit decides, whatever order the candidates come in
//@harness H_inside_open property=P18 opts="--br-timeout 0.3 --ieee-div --replace AABB_tree::Query=>vp_stub_query" max=300
VP_HARNESS(H_inside_open) {
    const long order = vp_case("order", 0, 5); const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    double z[3]; z[0] = vp::real("z0", 0.1, 5); z[1] = z[0] + vp::real("d1", 0.1, 5); z[2] = z[1] + vp::real("d2", 0.1, 5);
    const bool back[3] = {(bool)vp_case("b0", 0, 1), (bool)vp_case("b1", 0, 1), true};
    const double gap = vp::real("x0", -3, 3);
    TriangleMesh m;
    for (int q = 0; q < 3; ++q) {
        const int t = perm[order][q]; const IndexType b = 3*q;
        m.AddVertex(PointType{t == 0 ? -1+gap : -1.0, -1, z[t]}); m.AddVertex(PointType{t == 0 ? 3+gap : 3.0, -1, z[t]}); m.AddVertex(PointType{t == 0 ? -1+gap : -1.0, 3, z[t]});
        if (back[t]) m.AddTriangle({b, b+1, b+2}, Vector3d{0,0,1}); else m.AddTriangle({b, b+2, b+1}, Vector3d{0,0,-1});
    }
    GeometryQuery q(m, false);
    const auto [inside, success] = q.IsInside(Ray_AABB_primitive(PointType{0,0,0}, Vector3d{0,0,1}));
    const bool hit0 = vp_and(gap < 1 - 1e-6, gap > -2 + 1e-6), miss0 = vp_or(gap > 1 + 1e-6, gap < -2 - 1e-6);
    vp_ensure("nearest-hit-decides", vp_and(vp_imp(vp_and(success, hit0), inside == back[0]), vp_imp(vp_and(success, miss0), inside == back[1])));
    vp_ensure("clear-hits-succeed", vp_imp(vp_or(hit0, miss0), success));
}
// Caller against the contract of the callee: rays in any random direction, some of them without a decision.
static PointType gPoint; static bool gTruth; static long gFail; static long gCalls;
struct RayData { virtual ~RayData() {} PointType o, d, inv; Vector3i s; bool pos; };
extern "C" std::pair<bool, bool> vp_stub_inside(const GeometryQuery*, const Ray_AABB_primitive*) {
    ++gCalls;
    if (gCalls <= gFail) return {false, false};
    return {gTruth, true};
}
extern "C" double vp_stub_uniform(const std::uniform_real_distribution<double>* d, void*) { return vp_any_real("random", d->a(), d->b()); }
//@harness H_inside_caller property=P18 mode=sym opts="--br-timeout 0.3 --replace GeometryQuery::IsInside[(]=>vp_stub_inside --replace uniform_real_distribution<double>::operator=>vp_stub_uniform" max=300
VP_HARNESS(H_inside_caller) {
    const Solid s = solid(1);
    gFail = vp_case("failed_rays", 0, 8); if (gFail > 5) gFail = 30*gFail - 150;   // 0..5, 30, 60, 90
    gTruth = vp_case("truth", 0, 1); gCalls = 0;
    PointType x = vp::point("x","y","z",-10,10);
    bool inbox = true; const PointType l{-2,0.5,-1}, u{1,3.5,7}; for (int d = 0; d < 3; ++d) inbox = vp_and(inbox, vp_and(x[d] >= l[d], x[d] <= u[d]));
    BRepOperator b(s.m, true);
    const bool r = b.IsInside(x);
    vp_ensure("result-is-callee-result-in-box", r == vp_and(gTruth, inbox));
}
// no ray decides: not inside, and the search ends
//@harness H_inside_caller_gives_up property=P18 mode=sym opts="--br-timeout 0.3 --replace GeometryQuery::IsInside[(]=>vp_stub_inside --replace uniform_real_distribution<double>::operator=>vp_stub_uniform" max=300
VP_HARNESS(H_inside_caller_gives_up) {
    const Solid s = solid(0); gFail = 1000000; gCalls = 0;
    BRepOperator b(s.m, true);
    vp_ensure("undecided-is-outside", !b.IsInside(PointType{0.5,0.5,0.5}));
}
// bounded: the whole chain with real random rays
//@harness H_inside_sampled property=P18 mode=native native=6
VP_HARNESS(H_inside_sampled) {
    const long c = vp_case("solid", 0, 5);
    const Solid s = solid(c);
    PointType x = vp::point("x","y","z",-2,5); if (c == 5) for (int d = 0; d < 3; ++d) x[d] += 100;
    const bool in = strictlyIn(s, x, 1e-6), out = strictlyOut(s, x, 1e-6);
    vp_assume(in || out);
    BRepOperator b(s.m, true);
    vp_ensure("point-classified", b.IsInside(x) == in);
}
// bounded: small and large solids, coordinates of general position, points on a lattice aligned with the edges
//@harness H_inside_aligned property=P18 mode=native native=6
VP_HARNESS(H_inside_aligned) {
    const double sc = std::pow(10.0, (double)vp_any_int("e", 0, 6) - 3.0);
    PointType l = vp::point("lx","ly","lz",-10,10), d = vp::point("dx","dy","dz",0.1,2), u; for (int i = 0; i < 3; ++i) { l[i] *= sc; u[i] = l[i] + sc*d[i]; }
    const Solid s = box(l, u, (int)vp_case("tess", 0, 1));
    BRepOperator b(s.m, true);
    for (int i = -1; i < 6; ++i) for (int j = -1; j < 6; ++j) for (int k = -1; k < 6; ++k) {
        const PointType x{l[0]+(u[0]-l[0])*(i+0.5)/5, l[1]+(u[1]-l[1])*(j+0.5)/5, l[2]+(u[2]-l[2])*(k+0.5)/5};
        vp_ensure("point-classified", b.IsInside(x) == (i >= 0 && i < 5 && j >= 0 && j < 5 && k >= 0 && k < 5));
    }
}
