// Contracts of TriangleMesh / TriangleMeshView / MeshUtilities (P22 bounding boxes, P23 container, P24 area and volume).
//@sources queso/utilities/mesh_utilities.cpp
#include "vp.h"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
static PointType sub(const PointType& a, const PointType& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
static PointType crs(const PointType& a, const PointType& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static double dt(const PointType& a, const PointType& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static PointType P(Vector3dView v) { return {v[0], v[1], v[2]}; }
static const char* VX[6][3] = {{"ax","ay","az"},{"bx","by","bz"},{"cx","cy","cz"},{"dx","dy","dz"},{"ex","ey","ez"},{"fx","fy","fz"}};
static const char* NX[4][3] = {{"n0x","n0y","n0z"},{"n1x","n1y","n1z"},{"n2x","n2y","n2z"},{"n3x","n3y","n3z"}};
static PointType vtx(int i, double r) { return vp::point(VX[i][0], VX[i][1], VX[i][2], -r, r); }
static PointType nrm(int i) { return vp::point(NX[i][0], NX[i][1], NX[i][2], -1, 1); }
static bool same(const PointType& a, const PointType& b) { return vp_and(a[0] == b[0], vp_and(a[1] == b[1], a[2] == b[2])); }
// nv vertices, nt triangles with arbitrary (valid) connectivity chosen case by case.
static TriangleMesh anyMesh(int nv, int nt, double r) {
    TriangleMesh m;
    for (int i = 0; i < nv; ++i) m.AddVertex(vtx(i, r));
    for (int t = 0; t < nt; ++t) {
        std::size_t a = t % nv, b = (t + 1) % nv, c = (t + 2) % nv;
        m.AddTriangle({a, b, c}, nrm(t));
    }
    return m;
}
// ---------------------------------------------------------------- P22
static void bbox(int nv, int nt, double r, double off) {
    TriangleMesh m;
    for (int i = 0; i < nv; ++i) { PointType p = vtx(i, r); for (int k = 0; k < 3; ++k) p[k] += off; m.AddVertex(p); }
    for (int t = 0; t < nt; ++t) m.AddTriangle({std::size_t(t), std::size_t(t+1), std::size_t(t+2)}, {0,0,1});
    auto [lo, hi] = MeshUtilities::BoundingBox(TriangleMeshView(m));
    for (int k = 0; k < 3; ++k) {
        bool tl = false, th = false;
        for (int i = 0; i < nv; ++i) {
            const double x = m.Vertices()[i][k];
            vp_ensure("box-contains-every-vertex", vp_and(lo[k] <= x, x <= hi[k]));
            tl = vp_or(tl, lo[k] == x); th = vp_or(th, hi[k] == x);
        }
        vp_ensure("box-touches-extreme-vertices", vp_and(tl, th));
    }
}
//@harness H_mesh_bbox_one property=P22 opts="--merge BoundingBox --br-timeout 0.2"
VP_HARNESS(H_mesh_bbox_one) { bbox(3, 1, 1e6, 0.0); }
//@harness H_mesh_bbox_strip property=P22 opts="--merge BoundingBox --br-timeout 0.2" tier=thorough
VP_HARNESS(H_mesh_bbox_strip) { bbox(5, 3, 1e3, 0.0); }
//@harness H_mesh_bbox_negative property=P22 opts="--merge BoundingBox --br-timeout 0.2"
VP_HARNESS(H_mesh_bbox_negative) { bbox(4, 2, 1.0, -1000.0); }
// ---------------------------------------------------------------- P23
//@harness H_mesh_build property=P23
VP_HARNESS(H_mesh_build) {
    long nv = vp_case("nv", 3, 5), nt = vp_case("nt", 0, 3);
    TriangleMesh m = anyMesh(nv, nt, 1e3);
    vp_ensure("counts", m.NumOfVertices() == (std::size_t)nv && m.NumOfTriangles() == (std::size_t)nt && m.Normals().size() == (std::size_t)nt && m.Vertices().size() == (std::size_t)nv && m.TriangleIndices().size() == (std::size_t)nt);
    bool ok = true; try { m.Check(); } catch (Exception&) { ok = false; }
    vp_ensure("consistent-mesh-accepted", ok);
    TriangleMeshView v(m);
    vp_ensure("view-count", v.NumOfTriangles() == (std::size_t)nt);
    for (int t = 0; t < nt; ++t) {
        const std::size_t id[3] = {std::size_t(t % nv), std::size_t((t+1) % nv), std::size_t((t+2) % nv)};
        auto p = m.Triangle<WithNormals>(t); auto q = v.Triangle<WithNormals>(t);
        vp_ensure("triangle-vertices", same(P(p.P1), m.Vertex(id[0])) && same(P(p.P2), m.Vertex(id[1])) && same(P(p.P3), m.Vertex(id[2])));
        vp_ensure("triangle-normal", same(P(p.Normal), m.Normal(t)) && same(m.Normals()[t], m.Normal(t)));
        vp_ensure("view-agrees", same(P(q.P1), P(p.P1)) && same(P(q.P2), P(p.P2)) && same(P(q.P3), P(p.P3)) && same(P(q.Normal), P(p.Normal)));
    }
    std::size_t k = 0;
    v.VisitEachTriangle<WithNormals>([&](const auto& t) { vp_ensure("visit-in-order", k < (std::size_t)nt && same(P(t.P1), P(m.Triangle(k).P1)) && same(P(t.P3), P(m.Triangle(k).P3)) && same(P(t.Normal), m.Normal(k))); ++k; });
    vp_ensure("visit-all", k == (std::size_t)nt);
    k = 0; for (auto t : m.Triangles<WithoutNormals>()) { vp_ensure("range-in-order", same(P(t.P2), P(m.Triangle(k).P2))); ++k; }
    vp_ensure("range-all", k == (std::size_t)nt);
    k = 0; for (auto t : v.Triangles<WithNormals>()) { vp_ensure("view-range-in-order", same(P(t.P2), P(m.Triangle(k).P2)) && same(P(t.Normal), m.Normal(k))); ++k; }
    vp_ensure("view-range-all", k == (std::size_t)nt);
}
//@harness H_mesh_check_rejects property=P23
VP_HARNESS(H_mesh_check_rejects) {
    long nv = vp_case("nv", 0, 3), a = vp_case("a", 0, 4), b = vp_case("b", 0, 4), c = vp_case("c", 0, 4);
    TriangleMesh m;
    for (int i = 0; i < nv; ++i) m.AddVertex(vtx(i, 10));
    m.AddTriangle({(std::size_t)a, (std::size_t)b, (std::size_t)c}, {0,0,1});
    bool ok = true; try { m.Check(); } catch (Exception&) { ok = false; }
    vp_ensure("check-accepts-iff-vertices-exist", ok == (a < nv && b < nv && c < nv));
}
//@harness H_mesh_remove property=P23
VP_HARNESS(H_mesh_remove) {
    long nt = vp_case("nt", 1, 4), r = vp_case("r", 0, 3);
    vp_assume(r < nt);
    TriangleMesh m = anyMesh(5, nt, 1e3), o = anyMesh(5, nt, 1e3);
    std::vector<Vector3i> tri(m.TriangleIndices().begin(), m.TriangleIndices().end());
    std::vector<Vector3d> nor(m.Normals().begin(), m.Normals().end());
    m.RemoveTriangle(r);
    vp_ensure("one-less", m.NumOfTriangles() == (std::size_t)(nt - 1) && m.Normals().size() == (std::size_t)(nt - 1) && m.NumOfVertices() == 5);
    // every other triangle is still there exactly once, with its own normal
    for (int t = 0; t < nt; ++t) {
        int cnt = 0;
        for (std::size_t k = 0; k < m.NumOfTriangles(); ++k) if (m.TriangleIndices()[k] == tri[t]) { ++cnt; vp_ensure("normal-stays-with-triangle", same(m.Normal(k), nor[t])); }
        vp_ensure("exactly-the-chosen-triangle-is-gone", cnt == (t == r ? 0 : 1));
    }
    bool ok = true; try { m.Check(); } catch (Exception&) { ok = false; }
    vp_ensure("still-consistent", ok);
}
//@harness H_mesh_append property=P23
VP_HARNESS(H_mesh_append) {
    long n1 = vp_case("n1", 0, 3), n2 = vp_case("n2", 0, 3), v1 = vp_case("v1", 3, 4), extra = vp_case("unused_vertex", 0, 1);
    TriangleMesh m, o;
    for (int i = 0; i < v1; ++i) m.AddVertex(vtx(i, 1e3));
    for (int t = 0; t < n1; ++t) m.AddTriangle({std::size_t(t % v1), std::size_t((t+1) % v1), std::size_t((t+2) % v1)}, nrm(t));
    for (int i = 0; i < 3 + extra; ++i) o.AddVertex({vp::real("ox",-9,9), vp::real("oy",-9,9), vp::real("oz",-9,9)});
    for (int t = 0; t < n2; ++t) o.AddTriangle({std::size_t((t+1) % 3), std::size_t(t % 3), std::size_t((t+2) % 3)}, {vp::real("onx",-1,1), vp::real("ony",-1,1), vp::real("onz",-1,1)});
    TriangleMesh before = m;
    MeshUtilities::Append(m, o);
    vp_ensure("counts-add-up", m.NumOfTriangles() == (std::size_t)(n1 + n2) && m.NumOfVertices() == (std::size_t)(v1 + 3 + extra) && m.Normals().size() == (std::size_t)(n1 + n2));
    for (int t = 0; t < n1; ++t) { auto a = m.Triangle(t), b = before.Triangle(t); vp_ensure("first-mesh-unchanged", same(P(a.P1), P(b.P1)) && same(P(a.P2), P(b.P2)) && same(P(a.P3), P(b.P3)) && same(P(a.Normal), P(b.Normal))); }
    for (int t = 0; t < n2; ++t) { auto a = m.Triangle(n1 + t), b = o.Triangle(t); vp_ensure("second-mesh-appended", same(P(a.P1), P(b.P1)) && same(P(a.P2), P(b.P2)) && same(P(a.P3), P(b.P3)) && same(P(a.Normal), P(b.Normal))); }
    bool ok = true; try { m.Check(); } catch (Exception&) { ok = false; }
    vp_ensure("result-consistent", ok);
}
//@harness H_mesh_clear property=P23
VP_HARNESS(H_mesh_clear) {
    TriangleMesh m = anyMesh(4, vp_case("nt", 0, 3), 10);
    TriangleMesh c = m; m.Clear();
    vp_ensure("cleared", m.NumOfTriangles() == 0 && m.NumOfVertices() == 0 && m.Normals().empty());
    vp_ensure("copy-independent", c.NumOfVertices() == 4);
    std::size_t id = m.AddVertex({1,2,3});
    vp_ensure("first-vertex-id-zero", id == 0 && m.NumOfVertices() == 1);
}
// A mesh of another library shown through the view: same triangles, geometric normals.
struct Foreign { std::vector<PointType> v; std::vector<std::array<int,3>> t; };
struct FNum { IndexType operator()(const Foreign& f) const { return f.t.size(); } };
struct FTri { TriangleProxy<WithoutNormals> operator()(const Foreign& f, IndexType i) const { return { f.v[f.t[i][0]], f.v[f.t[i][1]], f.v[f.t[i][2]] }; } };
//@harness H_mesh_foreign property=P23 opts="--br-timeout 0.2"
VP_HARNESS(H_mesh_foreign) {
    const double z = vp::real("z", -10, 10), a = vp::real("a", 0.1, 10), b = vp::real("b", -10, 10), d = vp::real("d", 0.1, 10);
    Foreign f; f.v = {{0,0,z}, {a,0,z}, {b,d,z}};   // the general triangle normal is P25's contract
    PointType n0 = crs(sub(f.v[1], f.v[0]), sub(f.v[2], f.v[0]));
    const int k = (int)vp_case("orientation", 0, 1);
    f.t = {{0,k == 0 ? 1 : 2,k == 0 ? 2 : 1}};
    TriangleMeshView v(f, FNum{}, FTri{});
    vp_ensure("count", v.NumOfTriangles() == 1);
    {
        auto q = v.Triangle<WithNormals>(0);
        vp_ensure("vertices", same(P(q.P1), f.v[0]) && same(P(q.P2), f.v[k == 0 ? 1 : 2]) && same(P(q.P3), f.v[k == 0 ? 2 : 1]));
        vp_ensure("normal-oriented", k == 0 ? dt(P(q.Normal), n0) > 0.0 : dt(P(q.Normal), n0) < 0.0);
        vp_ensure("normal-unit", vp::eq(dt(P(q.Normal), P(q.Normal)), 1.0));
    }
}
// ---------------------------------------------------------------- P24
//@harness H_mesh_sums property=P24
VP_HARNESS(H_mesh_sums) {
    // Area / Volume are the sums over the triangles of A, n.c A / 3, n_d c_d A; sequential and OMP versions agree.
    long nt = vp_case("nt", 0, 3);
    TriangleMesh m = anyMesh(5, nt, 10);
    TriangleMeshView v(m);
    double A = 0, V = 0, D[3] = {0,0,0};
    for (int t = 0; t < nt; ++t) {
        auto p = m.Triangle<WithNormals>(t);
        PointType x = crs(sub(P(p.P2), P(p.P1)), sub(P(p.P3), P(p.P1)));
        double a = 0.5 * std::sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]);
        A += a;
        for (int k = 0; k < 3; ++k) { double c = (p.P1[k] + p.P2[k] + p.P3[k]) / 3.0; D[k] += p.Normal[k] * c * a; V += p.Normal[k] * c * a / 3.0; }
    }
    vp_ensure("area-is-sum", vp::eqrel(MeshUtilities::Area(v), A, 1e3));
    vp_ensure("area-omp-agrees", vp::eqrel(MeshUtilities::AreaOMP(v), A, 1e3));
    vp_ensure("volume-is-sum", vp::eqrel(MeshUtilities::Volume(v), vp::abs(V), 1e4));
    vp_ensure("volume-omp-agrees", vp::eqrel(MeshUtilities::VolumeOMP(v), vp::abs(V), 1e4));
    for (int k = 0; k < 3; ++k) vp_ensure("directional-volume-is-sum", vp::eqrel(MeshUtilities::Volume(v, k), vp::abs(D[k]), 1e4));
}
//@harness H_mesh_box property=P24,P22
VP_HARNESS(H_mesh_box) {
    PointType lo = vp::point("lx","ly","lz",-100,100), d = vp::point("dx","dy","dz",1e-3,100), hi = {lo[0]+d[0], lo[1]+d[1], lo[2]+d[2]};
    TriangleMesh m = MeshUtilities::MakeMeshBox(lo, hi);
    TriangleMeshView v(m);
    vp_ensure("twelve-triangles-eight-vertices", m.NumOfTriangles() == 12 && m.NumOfVertices() == 8);
    const double vol = d[0]*d[1]*d[2], area = 2.0*(d[0]*d[1] + d[1]*d[2] + d[0]*d[2]);
    vp_ensure("area-of-box", vp::eqrel(MeshUtilities::Area(v), area, 1e5));
    vp_ensure("area-omp-of-box", vp::eqrel(MeshUtilities::AreaOMP(v), area, 1e5));
    vp_ensure("volume-of-box", vp::eqrel(MeshUtilities::Volume(v), vol, 1e7));
    vp_ensure("volume-omp-of-box", vp::eqrel(MeshUtilities::VolumeOMP(v), vol, 1e7));
    for (int k = 0; k < 3; ++k) vp_ensure("volume-per-direction", vp::eqrel(MeshUtilities::Volume(v, k), vol, 1e7));
    PointType s{0,0,0};
    for (int t = 0; t < 12; ++t) {
        auto p = m.Triangle(t);
        PointType x = crs(sub(P(p.P2), P(p.P1)), sub(P(p.P3), P(p.P1)));
        for (int k = 0; k < 3; ++k) s[k] += x[k];
        vp_ensure("stored-normal-is-geometric", same(crs(x, P(p.Normal)), {0,0,0}) && dt(x, P(p.Normal)) > 0.0 && dt(P(p.Normal), P(p.Normal)) == 1.0);
        PointType c = {lo[0]+0.5*d[0], lo[1]+0.5*d[1], lo[2]+0.5*d[2]};
        vp_ensure("normal-points-outward", dt(sub(P(p.P1), c), P(p.Normal)) > 0.0);
        // every directed edge has its opposite in exactly one other triangle: closed and consistently oriented
        for (int e = 0; e < 3; ++e) {
            const std::size_t a = m.TriangleIndices()[t][e], b = m.TriangleIndices()[t][(e+1)%3]; int cnt = 0, dup = 0;
            for (int u = 0; u < 12; ++u) for (int g = 0; g < 3; ++g) { const std::size_t p0 = m.TriangleIndices()[u][g], p1 = m.TriangleIndices()[u][(g+1)%3]; cnt += (p0 == b && p1 == a); dup += (p0 == a && p1 == b); }
            vp_ensure("closed", cnt == 1 && dup == 1);
        }
    }
    for (int k = 0; k < 3; ++k) vp_ensure("area-vectors-cancel", vp::eqrel(s[k], 0.0, 1e5));
}
//@harness H_mesh_box_quality property=P24 opts="--br-timeout 0.2"
VP_HARNESS(H_mesh_box_quality) {
    PointType lo = vp::point("lx","ly","lz",-100,100), d = vp::point("dx","dy","dz",1e-1,100), hi = {lo[0]+d[0], lo[1]+d[1], lo[2]+d[2]};
    TriangleMesh m = MeshUtilities::MakeMeshBox(lo, hi);
    vp_ensure("closed-mesh-has-no-error", vp::near2(MeshUtilities::EstimateQuality(TriangleMeshView(m)), 0.0, 0.0, 1e-7));
    auto [l, h] = MeshUtilities::BoundingBox(TriangleMeshView(m));
    vp_ensure("bounding-box-is-box", same(l, lo) && same(h, hi));
}
static TriangleMesh tet(const PointType* p) {
    TriangleMesh m; for (int i = 0; i < 4; ++i) m.AddVertex(p[i]);
    static const std::size_t T[4][3] = {{0,2,1},{0,1,3},{1,2,3},{0,3,2}};
    for (auto& t : T) {
        PointType x = crs(sub(p[t[1]], p[t[0]]), sub(p[t[2]], p[t[0]]));
        double l = std::sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]);
        m.AddTriangle({t[0], t[1], t[2]}, {x[0]/l, x[1]/l, x[2]/l});
    }
    return m;
}
//@harness H_mesh_tet property=P24 opts="--br-timeout 0.3"
VP_HARNESS(H_mesh_tet) {
    PointType p[4] = {vtx(0,5), vtx(1,5), vtx(2,5), vtx(3,5)};
    const double V6 = dt(crs(sub(p[1],p[0]), sub(p[2],p[0])), sub(p[3],p[0]));
    vp_assume(V6 > 1e-2);
    static const std::size_t T[4][3] = {{0,2,1},{0,1,3},{1,2,3},{0,3,2}};
    for (auto& t : T) { PointType x = crs(sub(p[t[1]], p[t[0]]), sub(p[t[2]], p[t[0]])); vp_assume(x[0]*x[0] + x[1]*x[1] + x[2]*x[2] > 1e-6); }
    TriangleMesh m = tet(p);
    TriangleMeshView v(m);
    vp_ensure("volume-of-tetrahedron", vp::eqrel(6.0*MeshUtilities::Volume(v), V6, 1e3));
    for (int k = 0; k < 3; ++k) vp_ensure("volume-per-direction", vp::eqrel(6.0*MeshUtilities::Volume(v, k), V6, 1e3));
}
//@harness H_mesh_volume_dir_range property=P24
VP_HARNESS(H_mesh_volume_dir_range) {
    TriangleMesh m = anyMesh(3, 1, 10); long d = vp_case("d", 0, 6); bool thrown = false;
    try { (void)MeshUtilities::Volume(TriangleMeshView(m), d); } catch (Exception&) { thrown = true; }
    vp_ensure("direction-out-of-range-rejected", thrown == (d > 2));
}
// Refinement keeps the surface: area, volume, orientation, bounding box; and reaches the requested number of triangles.
//@harness H_mesh_refine property=P24,P23 opts="--br-timeout 0.2"
VP_HARNESS(H_mesh_refine) {
    // one right triangle and a second one of different size, in a plane z = c
    double a = vp::real("a", 0.5, 10), b = vp::real("b", 0.5, 10), c = vp::real("c", -5, 5), s = vp::real("s", 0.5, 10);
    TriangleMesh m; m.AddVertex({0,0,c}); m.AddVertex({a,0,c}); m.AddVertex({0,b,c}); m.AddVertex({a*s,b*s,c});
    m.AddTriangle({0,1,2}, {0,0,1}); m.AddTriangle({1,3,2}, {0,0,1});
    const double A = MeshUtilities::Area(TriangleMeshView(m)), V = MeshUtilities::Volume(TriangleMeshView(m));
    vp_assume((s - 0.5) * a * b > 0.05);
    long want = vp_case("want", 1, 9);
    MeshUtilities::Refine(m, want);
    TriangleMeshView v(m);
    vp_ensure("reaches-requested-size", m.NumOfTriangles() >= (std::size_t)want);
    vp_ensure("untouched-if-large-enough", want > 2 || (m.NumOfTriangles() == 2 && m.NumOfVertices() == 4));
    vp_ensure("area-preserved", vp::eqrel(MeshUtilities::Area(v), A, 1e3));
    vp_ensure("volume-preserved", vp::eqrel(MeshUtilities::Volume(v), V, 1e4));
    for (std::size_t t = 0; t < m.NumOfTriangles(); ++t) {
        auto p = m.Triangle(t);
        PointType x = crs(sub(P(p.P2), P(p.P1)), sub(P(p.P3), P(p.P1)));
        vp_ensure("orientation-preserved", x[2] > 0.0 && same(P(p.Normal), {0,0,1}));
    }
    bool ok = true; try { m.Check(); } catch (Exception&) { ok = false; }
    vp_ensure("still-consistent", ok);
}
