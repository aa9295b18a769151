// Contract of the closing of a trimmed domain (P21): clipped surface and the inside parts of the element's faces form a closed,
// outward oriented boundary with the volume of the active domain. Real operator, clipper, closing, triangulation and inside test.
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/flood_fill.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc
#include "vp.h"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
// Closed, outward, with the volume `vol`; face[a][s] is the exact inside area of the element's face (lower, upper) along a.
static void closed(const TriangleMeshView& m, const TriangleMesh* body, const PointType& lo, const PointType& hi, double vol, const double (*face)[2], double tol) {
    (void)body; PointType n{0,0,0}; double v6 = 0; double area[3][2] = {{0,0},{0,0},{0,0}};
    m.VisitEachTriangle<WithNormals>([&](const auto& t) {
        const auto P = t.P1; const PointType a{t.P2[0]-P[0], t.P2[1]-P[1], t.P2[2]-P[2]}, b{t.P3[0]-P[0], t.P3[1]-P[1], t.P3[2]-P[2]};
        const PointType c{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]};
        for (int k = 0; k < 3; ++k) { n[k] += 0.5*c[k]; v6 += (P[k] - lo[k])*c[k];
            for (double q : {t.P1[k], t.P2[k], t.P3[k]}) vp_ensure("boundary-in-the-element", vp::in(q, lo[k] - tol, hi[k] + tol, 0.0)); }
        vp_ensure("orientation-matches-normal", c[0]*t.Normal[0] + c[1]*t.Normal[1] + c[2]*t.Normal[2] >= -tol*tol);
        for (int k = 0; k < 3; ++k) for (int s = 0; s < 2; ++s) {   // parts of the element's faces
            const double p = s ? hi[k] : lo[k];
            const bool on = vp_and(vp::near(t.Normal[k], s ? 1.0 : -1.0, 1e-8), vp_and(vp::near(t.P1[k], p, tol), vp_and(vp::near(t.P2[k], p, tol), vp::near(t.P3[k], p, tol))));
            if (on) area[k][s] += 0.5*(s ? c[k] : -c[k]); }
    });
    double h = hi[0]-lo[0]; for (int k = 1; k < 3; ++k) h = vp::max(h, hi[k]-lo[k]);
    for (int k = 0; k < 3; ++k) { vp_ensure("normals-integrate-to-zero", vp::near(n[k], 0.0, tol*h));
        if (face) for (int s = 0; s < 2; ++s) vp_ensure("inside-part-of-each-face", vp::near(area[k][s], face[k][s], tol*h)); }
    vp_ensure("flux-is-the-volume", vp::near(v6/6.0, vol, tol*h*h));
#ifdef VP_NATIVE
    vp_ensure("reported-volume", vp::near(MeshUtilities::Volume(m), vol, tol*h*h));
#endif
}
#ifdef VP_NATIVE
struct Plane { PointType n; double d; };   // inside: n.x <= d
static double dot(const PointType& a, const PointType& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
// exact face areas of an intersection of half spaces (polygon of each plane cut by all others)
static std::vector<PointType> facePolygon(const std::vector<Plane>& ps, size_t i, double big) {
    const Plane& p = ps[i]; PointType u = std::abs(p.n[0]) < 0.6 ? PointType{1,0,0} : PointType{0,1,0}; const double un = dot(u, p.n); for (int k = 0; k < 3; ++k) u[k] -= un*p.n[k];
    const double l = std::sqrt(dot(u,u)); for (int k = 0; k < 3; ++k) u[k] /= l; PointType w = Math::Cross(p.n, u);
    std::vector<PointType> q; for (int c = 0; c < 4; ++c) { const double s = (c == 0 || c == 3) ? -big : big, t = c < 2 ? -big : big; q.push_back(PointType{p.n[0]*p.d + s*u[0] + t*w[0], p.n[1]*p.d + s*u[1] + t*w[1], p.n[2]*p.d + s*u[2] + t*w[2]}); }
    for (size_t j = 0; j < ps.size() && !q.empty(); ++j) if (j != i) {
        std::vector<PointType> r;
        for (size_t k = 0; k < q.size(); ++k) { const PointType &A = q[k], &B = q[(k+1)%q.size()]; const double a = dot(A, ps[j].n) - ps[j].d, b = dot(B, ps[j].n) - ps[j].d;
            if (a <= 0) r.push_back(A); if ((a < 0 && b > 0) || (a > 0 && b < 0)) { const double t = a/(a-b); r.push_back(PointType{A[0]+t*(B[0]-A[0]), A[1]+t*(B[1]-A[1]), A[2]+t*(B[2]-A[2])}); } }
        q = r; }
    return q;
}
static double polyArea(const std::vector<PointType>& q, const PointType& n) { PointType s{0,0,0}; for (size_t k = 1; k + 1 < q.size(); ++k) { const PointType c = Math::Cross(q[k]-q[0], q[k+1]-q[0]); for (int a = 0; a < 3; ++a) s[a] += 0.5*c[a]; } return dot(s, n); }
static void body_vs_cell(const TriangleMesh& mesh, const std::vector<Plane>& bp, const PointType& lo, const PointType& hi, double tol, bool relative) {
    std::vector<Plane> ps; double size = 0; for (int a = 0; a < 3; ++a) size = std::max(size, hi[a]-lo[a]);
    for (const auto& q : bp) { bool flush = false, nearly = false;   // a body face lying on a face of the element counts as the element's face; nearly, but not, on it: out of scope
        for (int a = 0; a < 3; ++a) for (int t = 0; t < 2; ++t) { if (q.n[a]*(t ? 1 : -1) < 0.9) continue; bool all = true;
            for (int c = 0; c < 4; ++c) { PointType p = lo; p[a] = t ? hi[a] : lo[a]; if (c & 1) p[(a+1)%3] = hi[(a+1)%3]; if (c & 2) p[(a+2)%3] = hi[(a+2)%3]; const double e = std::abs(dot(q.n, p) - q.d); all &= e < 1e-12*(size + std::abs(q.d)); nearly |= e < 1e-3*size && q.n[a]*(t ? 1 : -1) > 1 - 1e-5; } flush |= all; }
        if (!flush && nearly) return; if (!flush) ps.push_back(q); }
    const size_t nb = ps.size(); for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) { Plane p; p.n = PointType{0,0,0}; p.n[a] = s ? 1 : -1; p.d = s ? hi[a] : -lo[a]; ps.push_back(p); }
    // exact values relative to the element's corner
    for (auto& p : ps) p.d -= dot(p.n, lo);
    double big = 0; for (int a = 0; a < 3; ++a) big = std::max(big, hi[a]-lo[a]); double vol = 0, surf = 0; double face[3][2];
    for (size_t i = 0; i < ps.size(); ++i) { const double A = polyArea(facePolygon(ps, i, 100*big), ps[i].n); vol += A*ps[i].d/3; if (i < nb) surf += A; else face[(i-nb)/2][(i-nb)%2] = A; }
    if (surf < 1e-3*big*big) return;    // surface does not cut the element
    const double cell = (hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]);
    if (relative && (vol < 1e-3*cell)) return;
    BRepOperator op(mesh); const auto p = op.pGetTrimmedDomain(lo, hi, 0.0, 20, false);
    vp_ensure("trimmed-domain-exists", p != nullptr); if (!p) return;
    closed(p->GetBoundaryMesh(), &mesh, lo, hi, vol, face, tol*big);
}
#endif
// Axis aligned bodies at any position, also flush with faces of the element.
//@harness H_trimmed_box property=P21 mode=native native=15
VP_HARNESS(H_trimmed_box) {
#ifdef VP_NATIVE
    const double s = vp_case("scale", 0, 2) == 0 ? 1.0 : vp_case("scale2", 0, 1) ? 1e-2 : 1e3;
    PointType lo, hi, bl, bh; const char* on[3] = {"ox","oy","oz"}; const char* ln[3] = {"lx","ly","lz"}; const char* hn[3] = {"hx","hy","hz"}; const char* pn[3] = {"px","py","pz"};
    for (int a = 0; a < 3; ++a) { lo[a] = s*vp::real(pn[a], -3.0, 3.0); hi[a] = lo[a] + s*vp::real(hn[a], 0.5, 2.0); const double e = hi[a]-lo[a];
        const long o = vp_case(on[a], 0, 8); const double f = vp::real(ln[a], 0.02, 0.98), g = vp::real(hn[a], 0.5, 2.0)*0.4 + 0.05;
        bl[a] = o%3 == 0 ? lo[a] - e*f : o%3 == 1 ? lo[a] : lo[a] + e*f*0.9; bh[a] = o/3 == 0 ? hi[a] + e*f : o/3 == 1 ? hi[a] : bl[a] + (hi[a]-bl[a])*g; }
    const TriangleMesh m = MeshUtilities::MakeMeshBox(bl, bh); std::vector<Plane> bp;
    for (int a = 0; a < 3; ++a) for (int t = 0; t < 2; ++t) { Plane p; p.n = PointType{0,0,0}; p.n[a] = t ? 1 : -1; p.d = t ? bh[a] : -bl[a]; bp.push_back(p); }
    body_vs_cell(m, bp, lo, hi, 1e-4, true);
#endif
}
#ifdef VP_NATIVE
// Convex hull faces of a tetrahedron or a (sheared, turned) box given by corner and edges.
static void convexBody(int kind, const PointType& c, const PointType* e, TriangleMesh& m, std::vector<Plane>& bp) {
    auto add = [&](const PointType& a, const PointType& b, const PointType& d, bool plane) { PointType n = Math::Cross(b-a, d-a); const double l = Math::Norm(n); for (int k = 0; k < 3; ++k) n[k] /= l;
        const IndexType i = m.NumOfVertices(); m.AddVertex(a); m.AddVertex(b); m.AddVertex(d); m.AddTriangle(Vector3i{i,i+1,i+2}, n); if (plane) bp.push_back(Plane{n, dot(n, a)}); };
    auto pt = [&](double x, double y, double z) { PointType r; for (int k = 0; k < 3; ++k) r[k] = c[k] + x*e[0][k] + y*e[1][k] + z*e[2][k]; return r; };
    if (kind == 0) { const PointType a = pt(0,0,0), b = pt(1,0,0), d = pt(0,1,0), f = pt(0,0,1); add(a,d,b,true); add(a,b,f,true); add(a,f,d,true); add(b,d,f,true); return; }
    auto quad = [&](const PointType& a, const PointType& b, const PointType& d, const PointType& f) { add(a,b,d,true); add(a,d,f,false); };
    quad(pt(0,0,0),pt(0,1,0),pt(1,1,0),pt(1,0,0)); quad(pt(0,0,1),pt(1,0,1),pt(1,1,1),pt(0,1,1)); quad(pt(0,0,0),pt(1,0,0),pt(1,0,1),pt(0,0,1));
    quad(pt(0,1,0),pt(0,1,1),pt(1,1,1),pt(1,1,0)); quad(pt(0,0,0),pt(0,0,1),pt(0,1,1),pt(0,1,0)); quad(pt(1,0,0),pt(1,1,0),pt(1,1,1),pt(1,0,1));
}
#endif
// Tetrahedra and turned boxes, large (half-space-like) and small.
//@harness H_trimmed_convex property=P21 mode=native native=25
VP_HARNESS(H_trimmed_convex) {
#ifdef VP_NATIVE
    const double s = vp_case("scale", 0, 2) == 0 ? 1.0 : vp_case("scale2", 0, 1) ? 1e-2 : 1e3;
    PointType lo, hi, c, e[3]; const char* pn[3] = {"px","py","pz"}; const char* hn[3] = {"hx","hy","hz"}; const char* cn[3] = {"cx","cy","cz"};
    const double size = vp_case("big", 0, 1) ? 6.0 : 1.2;
    const double a = vp::real("alpha", -3.1, 3.1), b = vp::real("beta", -1.5, 1.5), g = vp::real("gamma", -3.1, 3.1);
    const double ca = std::cos(a), sa = std::sin(a), cb = std::cos(b), sb = std::sin(b), cg = std::cos(g), sg = std::sin(g);
    e[0] = PointType{ca*cb, sa*cb, -sb}; e[1] = PointType{ca*sb*sg - sa*cg, sa*sb*sg + ca*cg, cb*sg}; e[2] = PointType{ca*sb*cg + sa*sg, sa*sb*cg - ca*sg, cb*cg};
    for (int k = 0; k < 3; ++k) { lo[k] = s*vp::real(pn[k], -3.0, 3.0); hi[k] = lo[k] + s*vp::real(hn[k], 0.5, 2.0); c[k] = lo[k] + (hi[k]-lo[k])*vp::real(cn[k], 0.0, 1.0); for (int i = 0; i < 3; ++i) e[i][k] *= s*size; }
    if (size > 2) for (int k = 0; k < 3; ++k) c[k] -= vp_case("shift", 0, 1) ? 0.5*(e[0][k] + e[1][k]) : 0.3*e[0][k];
    TriangleMesh m; std::vector<Plane> bp; convexBody((int)vp_case("kind", 0, 1), c, e, m, bp);
    body_vs_cell(m, bp, lo, hi, 1e-4, true);
#endif
}
// Contract of the search tree in its place (P17): inserting orders nothing, every triangle is a candidate.
extern "C" void vp_stub_leaf(void*, unsigned int) {}
extern "C" std::vector<IndexType> vp_stub_query(const AABB_tree* t, const AABB_primitive_base*) {
    std::vector<IndexType> r; for (const auto& n : t->Nodes()) if (n.height == 0) r.push_back(n.particle); return r;
}
// Contract of the inside test of the trimmed domain in its place (P18): decides the body's planes, arbitrary on the surface.
static std::vector<std::pair<PointType, double>> gBody;     // n.x <= d inside
extern "C" bool vp_stub_inside(const TrimmedDomain*, const PointType& x) {
    bool in = true, out = false;
    for (const auto& [n, d] : gBody) { const double v = n[0]*x[0] + n[1]*x[1] + n[2]*x[2]; in = vp_and(in, v < d); out = vp_or(out, v > d); }
    if (in) return true; if (out) return false; return vp_any_bool("on_surface_inside");
}
static void bodyBox(const PointType& l, const PointType& h) { gBody.clear(); for (int a = 0; a < 3; ++a) { PointType n{0,0,0}; n[a] = 1; gBody.push_back({n, h[a]}); n[a] = -1; gBody.push_back({n, -l[a]}); } }
// Half spaces at any position, both sides, each direction: a body that covers the element in the other directions.
static void half(int a, int oa) {
    const int b = (a+1)%3, c = (a+2)%3;
    PointType lo{0.5,-1.0,2.0}, hi{1.5,1.0,2.5}; const double e = hi[a]-lo[a];
    const double t = vp::real("t", 0.01, 0.99); PointType bl, bh;
    for (int k = 0; k < 3; ++k) { bl[k] = lo[k] - 1.0; bh[k] = hi[k] + 1.25; }
    if (oa) bl[a] = lo[a] + t*e; else bh[a] = lo[a] + t*e;
    const TriangleMesh m = MeshUtilities::MakeMeshBox(bl, bh); BRepOperator op(m); bodyBox(bl, bh);
    const TrimmedDomain d0(op.ClipTriangleMesh(lo, hi), lo, hi, &op, 4, vp_case("switch", 0, 1)); const TrimmedDomain* p = &d0;
    const double f = oa ? 1.0 - t : t, A = (hi[b]-lo[b])*(hi[c]-lo[c]); double face[3][2];
    face[a][0] = oa ? 0.0 : A; face[a][1] = oa ? A : 0.0; face[b][0] = face[b][1] = f*e*(hi[c]-lo[c]); face[c][0] = face[c][1] = f*e*(hi[b]-lo[b]);
    if (oa) face[a][0] = 0.0; closed(p->GetBoundaryMesh(), &m, lo, hi, f*e*A, face, 1e-7);
}
//@harness H_trimmed_half_x property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_half_x) { half(0, (int)vp_case("side", 0, 1)); }
//@harness H_trimmed_half_y property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_half_y) { half(1, (int)vp_case("side", 0, 1)); }
//@harness H_trimmed_half_z property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_half_z) { half(2, (int)vp_case("side", 0, 1)); }
// Body covering one corner region, a slab, or an interior box of the element; positions of its faces arbitrary.
static void boxes(int lowmask, int highmask, const double* fl, const double* fh) {
    PointType lo{0.5,-1.0,2.0}, hi{1.5,1.0,2.5}, bl, bh; double l[3], h[3], vol = 1, face[3][2];
    for (int k = 0; k < 3; ++k) { const double e = hi[k]-lo[k]; l[k] = (lowmask >> k) & 1 ? lo[k] + fl[k]*e : lo[k]; h[k] = (highmask >> k) & 1 ? lo[k] + fh[k]*e : hi[k]; bl[k] = (lowmask >> k) & 1 ? l[k] : lo[k] - 1.0; bh[k] = (highmask >> k) & 1 ? h[k] : hi[k] + 1.25; vol = vol*(h[k]-l[k]); }
    for (int k = 0; k < 3; ++k) { const int b = (k+1)%3, c = (k+2)%3; const double A = (h[b]-l[b])*(h[c]-l[c]); face[k][0] = (lowmask >> k) & 1 ? 0.0 : A; face[k][1] = (highmask >> k) & 1 ? 0.0 : A; }
    const TriangleMesh m = MeshUtilities::MakeMeshBox(bl, bh); BRepOperator op(m); bodyBox(bl, bh);
    const TrimmedDomain d0(op.ClipTriangleMesh(lo, hi), lo, hi, &op, 4, vp_case("switch", 0, 1)); const TrimmedDomain* p = &d0;
    closed(p->GetBoundaryMesh(), &m, lo, hi, vol, face, 1e-7);
}
//@harness H_trimmed_slab property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slab) {
    const long a = vp_case("axis", 0, 2); double fl[3]{}, fh[3]{}; const double t = vp::real("t", 0.02, 0.9); const double w = vp::real("w", 0.05, 0.9);
    vp_assume(t + w <= 0.97); fl[a] = t; fh[a] = t + w; boxes(1 << a, 1 << a, fl, fh);
}
// edge and corner regions: two or three cutting faces, n of them arbitrary
static void region(int nsym, long skip, bool all) {
    const long side = vp_case("side", 0, skip < 3 ? 3 : all ? 7 : 1); double fl[3]{}, fh[3]{}; int L = 0, H = 0, q = 0; const char* tn[3] = {"t0","t1","t2"};
    const long first = nsym == 1 ? vp_case("first", 0, skip < 3 ? (all ? 1 : 0) : (all ? 2 : 1)) : 0; const double fixed[3] = {0.375, 0.7, 0.3};
    for (int k = 0; k < 3; ++k) if (k != skip) {
        const bool any = nsym == 1 ? q == first : true; const double t = any ? vp::real(tn[q], 0.02, 0.98) : fixed[q];
        if ((side >> q) & 1) { fl[k] = t; L |= 1 << k; } else { fh[k] = t; H |= 1 << k; } ++q; }
    boxes(L, H, fl, fh);
}
//@harness H_trimmed_edge_x property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_edge_x) { region(1, 0, false); }
//@harness H_trimmed_edge_y property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_edge_y) { region(1, 1, false); }
//@harness H_trimmed_edge_z property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_edge_z) { region(1, 2, false); }
//@harness H_trimmed_corner property=P21 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_corner) { region(1, 3, false); }
//@harness H_trimmed_region_all property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_region_all) { region(1, vp_case("axis", 0, 3), true); }
//@harness H_trimmed_edge_any property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_edge_any) { region(2, vp_case("axis", 0, 2), true); }
//@harness H_trimmed_corner_any property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_corner_any) { region(3, 3, true); }
// Inclined half spaces: body with vertical sides around the element and an inclined top (or bottom) face along axis a.
static void addTri(TriangleMesh& m, const PointType& a, const PointType& b, const PointType& c) {   // also a face of the body
    const PointType g = Math::Cross(b - a, c - a); if (m.NumOfTriangles() == 0) gBody.clear(); gBody.push_back({g, g[0]*a[0] + g[1]*a[1] + g[2]*a[2]});
    const IndexType i = m.NumOfVertices(); PointType n = Math::Cross(b - a, c - a); const double l = Math::Norm(n); for (int k = 0; k < 3; ++k) n[k] /= l;
    m.AddVertex(a); m.AddVertex(b); m.AddVertex(c); m.AddTriangle(Vector3i{i, i+1, i+2}, n);
}
static void slope(int a, bool top, int s0, int s1) {
    const int b = (a+1)%3, c = (a+2)%3; static const double S[4][2] = {{0.25, 0.125}, {-0.5, 0.25}, {0.0, 0.5}, {0.375, -0.375}};
    const long s = vp_case("slope", s0, s1); const double sb = S[s][0], sc = S[s][1];
    PointType lo{0.5,-1.0,2.0}, hi; for (int k = 0; k < 3; ++k) hi[k] = lo[k] + 1.0;
    // height of the plane over the centre of the element's base; the plane cuts the four edges along a
    const double t = vp::real("t", 0.5 - 0.1, 0.5 + 0.1);
    auto at = [&](double x, double y) { return lo[a] + t + sb*(x - 0.5) + sc*(y - 0.5); };
    auto pt = [&](double x, double y, bool up) { PointType p; p[b] = lo[b] + x; p[c] = lo[c] + y; p[a] = up == top ? at(x, y) : top ? lo[a] - 2.0 : hi[a] + 2.0; return p; };
    const double d = 0.75; const double X[4] = {-d, 1+d, 1+d, -d}, Y[4] = {-d, -d, 1+d, 1+d}; TriangleMesh m;
    PointType B[4], T[4]; for (int i = 0; i < 4; ++i) { B[i] = pt(X[i], Y[i], false); T[i] = pt(X[i], Y[i], true); }
    addTri(m, B[0], B[2], B[1]); addTri(m, B[0], B[3], B[2]); addTri(m, T[0], T[1], T[2]); addTri(m, T[0], T[2], T[3]);
    for (int i = 0; i < 4; ++i) { const int j = (i+1)%4; addTri(m, B[i], B[j], T[j]); addTri(m, B[i], T[j], T[i]); }
    BRepOperator op(m); const TrimmedDomain d0(op.ClipTriangleMesh(lo, hi), lo, hi, &op, 4, vp_case("switch", 0, 1)); const TrimmedDomain* p = &d0;
    double face[3][2]; auto f = [&](double h) { return top ? h : 1.0 - h; };
    face[a][0] = top ? 1.0 : 0.0; face[a][1] = top ? 0.0 : 1.0;
    face[b][0] = f(t - 0.5*sb); face[b][1] = f(t + 0.5*sb); face[c][0] = f(t - 0.5*sc); face[c][1] = f(t + 0.5*sc);
    closed(p->GetBoundaryMesh(), &m, lo, hi, f(t), face, 1e-7);
}
//@harness H_trimmed_slope_x property=P21 max=150 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slope_x) { slope(0, true, 0, 0); }
//@harness H_trimmed_slopes_x property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slopes_x) { slope(0, vp_case("top", 0, 1), 0, 3); }
//@harness H_trimmed_slope_y property=P21 max=150 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slope_y) { slope(1, false, 1, 1); }
//@harness H_trimmed_slopes_y property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slopes_y) { slope(1, vp_case("top", 0, 1), 0, 3); }
//@harness H_trimmed_slope_z property=P21 max=150 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slope_z) { slope(2, vp_case("top", 0, 1), 2, 2); }
//@harness H_trimmed_slopes_z property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_slopes_z) { slope(2, vp_case("top", 0, 1), 0, 3); }
// Corner of the element cut off by a plane: tetrahedral active domain with arbitrary intercepts.
static void tetra(long a, double tlo, double thi) {
     const int b = (a+1)%3, c = (a+2)%3; const double lo0 = 2.0;
    PointType lo{lo0,lo0,lo0}, hi{lo0+1,lo0+1,lo0+1}, o = lo, p1 = lo, p2 = lo, p3 = lo; const double t = vp::real("t", tlo, thi); double in[3]; in[a] = t; in[b] = 0.5; in[c] = 0.75;
    // body: tetrahedron scaled about the far side so that its other faces stay outside of the element
    const double k = 2.0; o[0] -= k; o[1] -= k; o[2] -= k;
    const double s = 1.0 + k/in[0] + k/in[1] + k/in[2];     // x/i0 + y/i1 + z/i2 <= 1 with origin moved by -k
    p1 = o; p2 = o; p3 = o; p1[0] += s*in[0]; p2[1] += s*in[1]; p3[2] += s*in[2];
    TriangleMesh m; addTri(m, o, p2, p1); addTri(m, o, p1, p3); addTri(m, o, p3, p2); addTri(m, p1, p2, p3);
    BRepOperator op(m); const TrimmedDomain d0(op.ClipTriangleMesh(lo, hi), lo, hi, &op, 4, vp_case("switch", 0, 1)); const TrimmedDomain* p = &d0;
    double face[3][2]; for (int q = 0; q < 3; ++q) { face[q][0] = 0.5*in[(q+1)%3]*in[(q+2)%3]; face[q][1] = 0.0; }
    closed(p->GetBoundaryMesh(), &m, lo, hi, in[0]*in[1]*in[2]/6.0, face, 1e-7);
}
//@harness H_trimmed_tetra property=P21 max=150 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_tetra) { tetra(2, 0.2, 0.45); }
//@harness H_trimmed_tetra_any property=P21 tier=thorough max=800 opts="--br-timeout 0.2 --ieee-div --replace Tree_base::insertLeaf[(]=>vp_stub_leaf --replace AABB_tree::Query=>vp_stub_query --replace TrimmedDomain::IsInsideTrimmedDomain[(]std::array<double,.3ul>.const&[)]=>vp_stub_inside"
VP_HARNESS(H_trimmed_tetra_any) { tetra(vp_case("axis", 0, 2), 0.1, 0.95); }
