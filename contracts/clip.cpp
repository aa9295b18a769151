// Contracts of Clipper::ClipTriangle (P13) and Polygon::AddToTriangleMesh (P14).
//@sources queso/embedding/clipper.cpp queso/embedding/polygon.cpp
#include "vp.h"
#include "queso/embedding/clipper.h"
#include "queso/embedding/polygon.h"
using namespace queso;
static PointType sub(const PointType& a, const PointType& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
static PointType crs(const PointType& a, const PointType& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static double dt(const PointType& a, const PointType& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static bool same(const PointType& a, const PointType& b) { return vp_and(a[0] == b[0], vp_and(a[1] == b[1], a[2] == b[2])); }
static PointType A(double r) { return vp::point("ax","ay","az",-r,r); }
static PointType B(double r) { return vp::point("bx","by","bz",-r,r); }
static PointType D(double r) { return vp::point("cx","cy","cz",-r,r); }
// General triangle up to a linear map of the two coordinates that the active planes do not touch (which commutes with clipping).
static void tri(PointType* v, int a, bool general = true) {
    const int b = (a + 1) % 3, c = (a + 2) % 3;
    if (!general) {
        v[0][b] = 0.5; v[0][c] = -0.25; v[1][b] = 2.0; v[1][c] = -0.25; v[2][b] = 0.5; v[2][c] = 1.0;
        v[0][a] = vp::real("p0", -10, 10); v[1][a] = vp::real("p1", -10, 10); v[2][a] = vp::real("p2", -10, 10);
        return;
    }
    const double s = vp::real("s1", 0.1, 5), t = vp::real("t1", 0.1, 5), ob = vp::real("ob", -4, 4), oc = vp::real("oc", -4, 4);
    v[0][b] = ob; v[0][c] = oc; v[1][b] = ob + s; v[1][c] = oc; v[2][b] = ob; v[2][c] = oc + t;
    v[0][a] = vp::real("p0", -10, 10); v[1][a] = vp::real("p1", -10, 10); v[2][a] = vp::real("p2", -10, 10);
}
static PointType N() { return vp::point("nx","ny","nz",-1,1); }
typedef std::vector<PointType> Poly;
static bool on(double x, double p) { return vp_or(x == p, vp_or(x <= p - 1e-10, x >= p + 1e-10)); }
static TriangleProxy<WithNormals> T(const PointType* v, const PointType& n) { return {v[0], v[1], v[2], n}; }
static Poly clip(const PointType* v, const PointType& n, const PointType& lo, const PointType& hi) {
    auto p = Clipper::ClipTriangle(T(v, n), lo, hi); Poly r;
    if (p) for (IndexType i = 0; i < p->NumVertices(); ++i) r.push_back(p->GetVertex(i).first);
    return r;
}
static PointType areaVec(const Poly& p) {
    PointType s{0,0,0};
    for (std::size_t i = 1; i + 1 < p.size(); ++i) { PointType c = crs(sub(p[i], p[0]), sub(p[i+1], p[0])); for (int k = 0; k < 3; ++k) s[k] += 0.5*c[k]; }
    return s;
}
// ---------------------------------------------------------------- P13
// One active axis: the pieces below, inside and above a slab are in their slab, in the plane of the triangle, oriented like it,
// and their areas add up to the triangle's.
static void slab(int a, bool general) {
    PointType v[3], n = N(); tri(v, a, general);
    double lo = vp::real("lo", -8, 8), hi = lo + vp::real("s", 0.01, 12);
    for (auto& p : v) { vp_assume(on(p[a], lo)); vp_assume(on(p[a], hi)); }
    PointType full = crs(sub(v[1], v[0]), sub(v[2], v[0])), sum{0,0,0};
    const double cut[4] = {-100, lo, hi, 100};
    for (int s = 0; s < 3; ++s) {
        PointType l{-100,-100,-100}, h{100,100,100}; l[a] = cut[s]; h[a] = cut[s+1];
        Poly p = clip(v, n, l, h);
        PointType ar = areaVec(p);
        for (int k = 0; k < 3; ++k) sum[k] += ar[k];
        for (auto& q : p) {
            vp_ensure("vertex-in-box", vp::in(q[a], l[a] - 1e-12, h[a] + 1e-12, 1e-9));
            vp_ensure("vertex-in-plane", vp::eqrel(dt(full, sub(q, v[0])), 0.0, 1e4));
        }
        vp_ensure("at-most-nine-vertices", p.size() <= 9);
    }
    bool al = vp_and(vp_and(v[0][a] == lo, v[1][a] == lo), v[2][a] == lo); al = vp_or(al, vp_and(vp_and(v[0][a] == hi, v[1][a] == hi), v[2][a] == hi));
    for (int k = 0; k < 3; ++k) vp_ensure("pieces-add-up", vp_imp(!al, vp::eqrel(2.0*sum[k], full[k], 1e4)));
}
//@harness H_clip_slab_x property=P13 opts="--br-timeout 0.2"
VP_HARNESS(H_clip_slab_x) { slab(0, false); }
//@harness H_clip_slab_y property=P13 opts="--br-timeout 0.2"
VP_HARNESS(H_clip_slab_y) { slab(1, false); }
//@harness H_clip_slab_z property=P13 opts="--br-timeout 0.2"
VP_HARNESS(H_clip_slab_z) { slab(2, false); }
//@harness H_clip_slab_x_general property=P13 mode=sym tier=thorough opts="--br-timeout 0.2"
VP_HARNESS(H_clip_slab_x_general) { slab(0, true); }
//@harness H_clip_slab_y_general property=P13 mode=sym tier=thorough opts="--br-timeout 0.2"
VP_HARNESS(H_clip_slab_y_general) { slab(1, true); }
//@harness H_clip_slab_z_general property=P13 mode=sym tier=thorough opts="--br-timeout 0.2"
VP_HARNESS(H_clip_slab_z_general) { slab(2, true); }
//@harness H_clip_inside property=P13 opts="--br-timeout 0.2"
VP_HARNESS(H_clip_inside) {
    PointType v[3] = {A(10), B(10), D(10)}, n = N();
    Poly p = clip(v, n, PointType{-10.5,-10.5,-10.5}, PointType{10.5,10.5,10.5});
    vp_ensure("three-vertices", p.size() == 3);
    int first = -1; for (int k = 0; k < 3 && first < 0; ++k) { bool e = same(p[k], v[0]); if (e) first = k; }
    vp_ensure("same-triangle", p.size() == 3 && first >= 0 && same(p[(first+1)%3], v[1]) && same(p[(first+2)%3], v[2]));
}
//@harness H_clip_outside property=P13 opts="--br-timeout 0.2"
VP_HARNESS(H_clip_outside) {
    PointType v[3], n = N(), l{-20,-20,-20}, h{20,20,20};
    long a = vp_case("axis", 0, 2), side = vp_case("side", 0, 1);
    tri(v, a);
    if (side) l[a] = vp::real("pos", 10.0, 15); else h[a] = vp::real("pos", -15, -10.0);
    for (auto& p : v) vp_assume(p[a] != (side ? l[a] : h[a]));
    vp_ensure("outside-gives-nothing", clip(v, n, l, h).size() < 3);
}
//@harness H_clip_flags property=P13 opts="--br-timeout 0.2"
VP_HARNESS(H_clip_flags) {
    // vertices generated on a face are marked as lying on it (and on no other), vertices strictly inside are not marked
    PointType v[3], n = N(), l{-100,-100,-100}, h{100,100,100};
    long a = vp_case("axis", 0, 2), side = vp_case("side", 0, 1);
    tri(v, a);
    double c = vp::real("pos", -8, 8); (side ? h : l)[a] = c;
    for (auto& p : v) vp_assume(on(p[a], c));
    auto p = Clipper::ClipTriangle(T(v, n), l, h);
    if (p) for (IndexType i = 0; i < p->NumVertices(); ++i) {
        auto& q = p->GetVertex(i);
        for (int k = 0; k < 6; ++k) {
            if (k == 2*a + side) vp_ensure("marked-iff-on-face", q.second[k] == vp::eq(q.first[a], c, 1e-11));
            else vp_ensure("other-faces-not-marked", !q.second[k]);
        }
    }
}

// Bounded stand-in for several active planes: random triangles and boxes against an independent polygon clipper.
static Poly halfspace(const Poly& p, int a, double pos, int side) {  // keep side*(x-pos) <= 0
    Poly r;
    for (std::size_t i = 0; i < p.size(); ++i) {
        const PointType &u = p[i], &w = p[(i+1)%p.size()]; double du = side*(u[a]-pos), dw = side*(w[a]-pos);
        if (du <= 0) r.push_back(u);
        if ((du < 0 && dw > 0) || (du > 0 && dw < 0)) { double t = du/(du-dw); PointType q; for (int k = 0; k < 3; ++k) q[k] = u[k] + t*(w[k]-u[k]); q[a] = pos; r.push_back(q); }
    }
    return r;
}
//@harness H_clip_box property=P13 mode=native native=8
VP_HARNESS(H_clip_box) {
    PointType v[3] = {A(3), B(3), D(3)}, n = N(), lo = vp::point("lx","ly","lz",-2,1), h = vp::point("sx","sy","sz",0.1,3), hi{lo[0]+h[0], lo[1]+h[1], lo[2]+h[2]};
    if (vp_case("lattice", 0, 1)) { for (auto& p : v) for (auto& x : p) x = std::round(2*x)/2 + 0.0; for (int k = 0; k < 3; ++k) { lo[k] = std::round(4*lo[k])/4 + 0.125*(k==vp_case("off",0,3)); hi[k] = lo[k] + 0.25*std::ceil(4*h[k]); } }
    for (auto& p : v) for (int k = 0; k < 3; ++k) vp_assume(on(p[k], lo[k]) && on(p[k], hi[k]));
    for (int k = 0; k < 3; ++k) vp_assume(!(v[0][k] == v[1][k] && v[1][k] == v[2][k] && (v[0][k] == lo[k] || v[0][k] == hi[k])));
    PointType full = crs(sub(v[1], v[0]), sub(v[2], v[0])); vp_assume(dt(full, full) > 1e-4);
    Poly ref{v[0], v[1], v[2]};
    for (int k = 0; k < 3; ++k) { ref = halfspace(ref, k, lo[k], -1); ref = halfspace(ref, k, hi[k], 1); }
    PointType want = areaVec(ref);
    auto poly = Clipper::ClipTriangle(T(v, n), lo, hi);
    Poly p; if (poly) for (IndexType i = 0; i < poly->NumVertices(); ++i) p.push_back(poly->GetVertex(i).first);
    PointType got = areaVec(p);
    for (int k = 0; k < 3; ++k) vp_ensure("clipped-area", std::abs(got[k] - want[k]) < 1e-9);
    if (p.size() < 3) return;
    for (std::size_t i = 0; i < p.size(); ++i) {
        auto& f = poly->GetVertex(i).second;
        for (int k = 0; k < 3; ++k) {
            vp_ensure("vertex-in-box", p[i][k] >= lo[k] - 1e-12 && p[i][k] <= hi[k] + 1e-12);
            vp_ensure("marked-only-on-face", (!f[2*k] || std::abs(p[i][k]-lo[k]) < 1e-12) && (!f[2*k+1] || std::abs(p[i][k]-hi[k]) < 1e-12));
        }
        vp_ensure("vertex-in-plane", std::abs(dt(full, sub(p[i], v[0]))) < 1e-9);
        vp_ensure("at-most-nine-vertices", p.size() <= 9);
        // an edge of the piece that lies inside a face and is not an edge of the triangle is marked at both ends
        std::size_t j = (i+1)%p.size();
        PointType e = sub(p[j], p[i]);
        if (dt(e, e) < 1e-12) continue;
        for (int q = 0; q < 6; ++q) {
            double pos = q%2 ? hi[q/2] : lo[q/2];
            if (p[i][q/2] != pos || p[j][q/2] != pos) continue;
            bool cut = false; for (auto& c : v) cut = cut || (q%2 ? c[q/2] > pos : c[q/2] < pos);
            if (cut) vp_ensure("cut-edge-marked", f[q] && poly->GetVertex(j).second[q]);
        }
    }
}
// ---------------------------------------------------------------- P14
static void fan(int n, bool flags) {
    const PointType nn = N();
    Polygon<9> poly(PointType{nn});
    std::vector<PointType> p(n); std::vector<std::array<bool,6>> f(n, std::array<bool,6>{});
    const char* cn[9][3] = {{"x0","y0","z0"},{"x1","y1","z1"},{"x2","y2","z2"},{"x3","y3","z3"},{"x4","y4","z4"},{"x5","y5","z5"},{"x6","y6","z6"},{"x7","y7","z7"},{"x8","y8","z8"}};
    for (int i = 0; i < n; ++i) p[i] = vp::point(cn[i][0], cn[i][1], cn[i][2], -10, 10);
    if (flags) {
        int plane = vp_case("plane", 0, 5), i = vp_case("edge", 0, n-1), both = vp_case("both", 0, 1);   // one edge (or one vertex) on one plane
        f[i][plane] = true; if (both) f[(i+1)%n][plane] = true;
        int other = (plane + 3) % 6; f[(i+2)%n][other] = true;                                            // and a lone vertex on another one
    }
    for (int i = 0; i < n; ++i) { IndexType k = poly.AddVertex(p[i], f[i]); vp_ensure("vertex-index", k == (IndexType)i); }
    vp_ensure("vertex-count", poly.NumVertices() == (IndexType)n);
    ClippedTriangleMesh m;
    const int pre = vp_case("pre", 0, 1);
    if (pre) { m.AddVertex(PointType{1,2,3}); m.AddVertex(PointType{4,5,6}); m.AddVertex(PointType{7,8,10}); m.AddTriangle({0,1,2}, PointType{0,0,1}); m.AddEdgeOnPlane(SignedAxis::neg_x, 0, 1, 0); }
    poly.AddToTriangleMesh(m);
    const int nt = n < 3 ? 0 : n == 3 ? 1 : n;
    const auto tris = m.NumOfTriangles();
    vp_ensure("triangle-count", tris == (IndexType)(nt + pre));
    if (tris != (IndexType)(nt + pre)) return;
    PointType s{0,0,0}, want = areaVec(p);
    for (IndexType t = pre; t < tris; ++t) {
        auto q = m.Triangle(t); const PointType a{q.P1[0],q.P1[1],q.P1[2]}, b{q.P2[0],q.P2[1],q.P2[2]}, c{q.P3[0],q.P3[1],q.P3[2]};
        PointType ar = crs(sub(b, a), sub(c, a)); for (int k = 0; k < 3; ++k) s[k] += 0.5*ar[k];
        auto nv = m.Normal(t);
        vp_ensure("normal-kept", vp_and(nv[0] == nn[0], vp_and(nv[1] == nn[1], nv[2] == nn[2])));
    }
    if (n >= 3) for (int k = 0; k < 3; ++k) vp_ensure("area-vector-kept", vp::eqrel(s[k], want[k], 1e4));
    if (pre) {
        vp_ensure("earlier-triangle-untouched", m.Triangle(0).P3[2] == 10.0 && m.Triangle(0).P2[0] == 4.0 && m.Normal(0)[2] == 1.0);
    }
    // edges on planes
    std::vector<int> cnt(6, 0);
    int pl = 0;
    for (SignedAxis ax : EnumRange<SignedAxis>()) {
        int k = 0;
        for (const auto& e : m.Edges(ax)) {
            if (pre && pl == 0 && k == 0) { ++k; continue; }
            bool ok = false;
            for (int i = 0; i < n; ++i) if (f[i][pl] && f[(i+1)%n][pl]) {
                bool hit = vp_and(same(PointType{e.mP1[0],e.mP1[1],e.mP1[2]}, p[i]), same(PointType{e.mP2[0],e.mP2[1],e.mP2[2]}, p[(i+1)%n]));
                ok = vp_or(ok, hit);
            }
            vp_ensure("edge-is-polygon-edge-on-plane", ok);
            vp_ensure("edge-normal", vp_and(e.mNormal[0] == nn[0], vp_and(e.mNormal[1] == nn[1], e.mNormal[2] == nn[2])));
            ++k;
        }
        int exp = (pre && pl == 0); for (int i = 0; i < n; ++i) exp += n >= 3 && f[i][pl] && f[(i+1)%n][pl];
        vp_ensure("edge-count", k == exp);
        ++pl;
    }
}
//@harness H_polygon_fan property=P14 opts="--br-timeout 0.3"
VP_HARNESS(H_polygon_fan) { fan(vp_case("n", 0, 9), false); }
//@harness H_polygon_edges property=P14 opts="--br-timeout 0.3"
VP_HARNESS(H_polygon_edges) { fan(vp_case("n", 3, 9), true); }
//@harness H_polygon_overflow property=P14
VP_HARNESS(H_polygon_overflow) {
    PointType nn = N(), q = A(10);
    Polygon<9> poly(PointType{nn});
    const int n = vp_case("n", 0, 9);
    for (int i = 0; i < n; ++i) poly.AddVertex(q);
    bool thrown = false;
    try { poly.AddVertex(q); } catch (std::exception&) { thrown = true; }
    vp_ensure("tenth-vertex-refused", thrown == (n == 9));
    bool rd = false;
    try { poly.GetVertex(poly.NumVertices()); } catch (std::exception&) { rd = true; }
    vp_ensure("read-past-end-refused", rd);
}
