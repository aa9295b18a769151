// Contract of BRepOperator::ClipTriangleMeshUnique (P30): the parts of a surface in the half-open cells (l, u] add up to the
// surface, keep its orientation and lie in their cell. Real operator, search tree and clipper.
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/flood_fill.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc
#include "vp.h"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
static PointType areaVec(const TriangleMesh& m) {
    PointType r{0,0,0};
    for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle<WithNormals>(i); const PointType a{t.P2[0]-t.P1[0], t.P2[1]-t.P1[1], t.P2[2]-t.P1[2]}, b{t.P3[0]-t.P1[0], t.P3[1]-t.P1[1], t.P3[2]-t.P1[2]};
        r[0] += 0.5*(a[1]*b[2] - a[2]*b[1]); r[1] += 0.5*(a[2]*b[0] - a[0]*b[2]); r[2] += 0.5*(a[0]*b[1] - a[1]*b[0]); }
    return r;
}
static void add(TriangleMesh& m, const PointType& a, const PointType& b, const PointType& c, const PointType& n) { const IndexType i = m.NumOfVertices(); m.AddVertex(a); m.AddVertex(b); m.AddVertex(c); m.AddTriangle(Vector3i{i, i+1, i+2}, n); }
// clips to a chain of cells along axis a with the given faces; areas, positions, normals
static void chain(const TriangleMesh& mesh, int a, const double* cut, int n, const PointType& lo, const PointType& hi, double scale) {
    BRepOperator op(mesh); const PointType full = areaVec(mesh); PointType sum{0,0,0};
    for (int s = 0; s < n; ++s) {
        PointType l = lo, u = hi; l[a] = cut[s]; u[a] = cut[s+1];
        const auto p = op.ClipTriangleMeshUnique(l, u); const auto& m = p.Mesh();
        const PointType ar = areaVec(m); for (int k = 0; k < 3; ++k) sum[k] += ar[k];
        for (IndexType i = 0; i < m.NumOfVertices(); ++i) for (int k = 0; k < 3; ++k) vp_ensure("segment-in-its-cell", vp::in(m.Vertex(i)[k], l[k] - 1e-9*scale, u[k] + 1e-9*scale, 0.0));
        for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle<WithNormals>(i);
            bool any = false; for (IndexType j = 0; j < mesh.NumOfTriangles(); ++j) any = vp_or(any, vp_and(t.Normal[0] == mesh.Normal(j)[0], vp_and(t.Normal[1] == mesh.Normal(j)[1], t.Normal[2] == mesh.Normal(j)[2])));
            vp_ensure("normal-of-surface", any); }
    }
    for (int k = 0; k < 3; ++k) vp_ensure("areas-add-up", vp::near(sum[k], full[k], 1e-9*scale*scale));
}
// Triangles parallel to the faces, at any position from face to face (they may lie exactly on faces).
static void planar(int a, double scale) {
    const int b = (a+1)%3, c = (a+2)%3;
    // in units of the scale; cells [0,1], [1,2.5]
    const double t = vp::real("t", 0.0, 2.5);
    for (double f : {0.0, 1.0, 2.5}) vp_assume(vp_or(t == f, vp_or(t <= f - 1e-9, t >= f + 1e-9)));
    PointType v[3]; for (auto& p : v) p[a] = t*scale;
    v[0][b] = 0.1*scale; v[0][c] = 0.2*scale; v[1][b] = 0.9*scale; v[1][c] = 0.2*scale; v[2][b] = 0.1*scale; v[2][c] = 0.8*scale;
    PointType n{0,0,0}; n[a] = 1.0; TriangleMesh m; const bool flip = vp_case("flip", 0, 1); if (flip) n[a] = -1.0;
    add(m, v[0], v[flip ? 2 : 1], v[flip ? 1 : 2], n);
    const double cut[4] = {-0.5*scale, 0.0, scale, 2.5*scale};
    chain(m, a, cut, 3, PointType{-scale,-scale,-scale}, PointType{3*scale,3*scale,3*scale}, scale);
}
//@harness H_unique_planar_x property=P30 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_planar_x) { planar(0, 1.0); }
//@harness H_unique_planar_y property=P30 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_planar_y) { planar(1, 1.0); }
//@harness H_unique_planar_z property=P30 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_planar_z) { planar(2, 1.0); }
//@harness H_unique_planar_large property=P30 native=5 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_planar_large) { planar((int)vp_case("axis", 0, 2), vp_case("scale", 0, 1) ? 1e4 : 1e6); }
// Triangle with arbitrary positions of its vertices along the axis, on, between and across the faces.
static void inclined(int a, bool general) {
    const int b = (a+1)%3, c = (a+2)%3; const char* pn[3] = {"p0","p1","p2"};
    PointType v[3]; static const double off[3][3] = {{0.0, 0.7, 1.1}, {1.2, 0.0, 0.0}, {1.5, 0.5, 1.5}};
    const int f = general ? 0 : (int)vp_case("family", 0, 2); const double t = general ? 0.0 : vp::real("t", 0.0, 1.0);
    for (int i = 0; i < 3; ++i) { v[i][a] = general ? vp::real(pn[i], 0.0, 2.5) : t + off[f][i]; for (double f : {0.0, 1.0, 2.5}) vp_assume(vp_or(v[i][a] == f, vp_or(v[i][a] <= f - 1e-9, v[i][a] >= f + 1e-9))); }
    v[0][b] = 0.25; v[0][c] = 0.5; v[1][b] = 2.0; v[1][c] = 0.5; v[2][b] = 0.25; v[2][c] = 1.5;
    PointType n = Math::Cross(v[1] - v[0], v[2] - v[0]);
    TriangleMesh m; add(m, v[0], v[1], v[2], n);
    const double cut[4] = {-0.5, 0.0, 1.0, 2.5};
    chain(m, a, cut, 3, PointType{-1,-1,-1}, PointType{3,3,3}, 1.0);
}
//@harness H_unique_inclined_x property=P30 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_inclined_x) { inclined(0, false); }
//@harness H_unique_general_x property=P30 mode=sym tier=thorough opts="--br-timeout 0.2"
VP_HARNESS(H_unique_general_x) { inclined(0, true); }
//@harness H_unique_inclined_y property=P30 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_inclined_y) { inclined(1, false); }
//@harness H_unique_general_y property=P30 mode=sym tier=thorough opts="--br-timeout 0.2"
VP_HARNESS(H_unique_general_y) { inclined(1, true); }
//@harness H_unique_inclined_z property=P30 opts="--br-timeout 0.2"
VP_HARNESS(H_unique_inclined_z) { inclined(2, false); }
//@harness H_unique_general_z property=P30 mode=sym tier=thorough opts="--br-timeout 0.2"
VP_HARNESS(H_unique_general_z) { inclined(2, true); }
// Closed surface with faces on and off the faces of the cells: 2x2x2 cells, arbitrary box.
//@harness H_unique_box property=P30 mode=native native=10
VP_HARNESS(H_unique_box) {
    const char* ln[3] = {"lx","ly","lz"}; const char* hn[3] = {"hx","hy","hz"}; const char* on[3] = {"ox","oy","oz"};
    const double s = vp_case("scale", 0, 3) == 0 ? 1.0 : vp_case("scale2", 0, 1) ? 1e-1 : 1e5;
    PointType lo, hi; const double cut[4] = {-1.0*s, 0.0, 1.0*s, 2.5*s};
    for (int a = 0; a < 3; ++a) {
        const long o = vp_case(on[a], 0, 3);
        lo[a] = o & 1 ? cut[vp_any_int(ln[a], 0, 1)] : -1.0*s + s*vp::real(ln[a], 0.001, 1.9); hi[a] = o & 2 ? cut[2 + vp_any_int(hn[a], 0, 1)] : lo[a] + vp::real(hn[a], 0.001, 1.0)*(2.5*s - lo[a]);
        if (hi[a] <= lo[a] + 1e-3*s) return;
        for (double f : cut) { if (lo[a] != f && vp::abs(lo[a] - f) < 1e-9*s) return; if (hi[a] != f && vp::abs(hi[a] - f) < 1e-9*s) return; }
    }
    const TriangleMesh m = MeshUtilities::MakeMeshBox(lo, hi); BRepOperator op(m); double sum = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) {
        PointType l{cut[i], cut[j], cut[k]}, u{cut[i+1], cut[j+1], cut[k+1]}; const int x[3] = {i, j, k};
        for (int a = 0; a < 3; ++a) if (x[a] == 0) l[a] -= 1e-12*vp::max(1.0, s);
        const auto p = op.ClipTriangleMeshUnique(l, u); sum += MeshUtilities::Area(p.Mesh().View());
        for (IndexType q = 0; q < p.Mesh().NumOfVertices(); ++q) for (int a = 0; a < 3; ++a) vp_ensure("segment-in-its-cell", vp::in(p.Mesh().Vertex(q)[a], l[a], u[a], 1e-9*s));
    }
    const double e[3] = {hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2]}, area = 2*(e[0]*e[1] + e[1]*e[2] + e[2]*e[0]);
    vp_ensure("areas-add-up", vp::near(sum, area, 1e-8*s*s));
}
