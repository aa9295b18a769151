// Contracts of AABB_primitive::intersect (P15) and Ray_AABB_primitive::intersect (P16).
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/ray_aabb_primitive.cpp external_libraries/aabb_tree/AABB_base.cc
#include "vp.h"
#include "queso/embedding/aabb_primitive.h"
#include "queso/embedding/ray_aabb_primitive.h"
using namespace queso;
static PointType sub(const PointType& a, const PointType& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
static PointType crs(const PointType& a, const PointType& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
static double dt(const PointType& a, const PointType& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static PointType A(double r) { return vp::point("ax","ay","az",-r,r); }
static PointType B(double r) { return vp::point("bx","by","bz",-r,r); }
static PointType D(double r) { return vp::point("cx","cy","cz",-r,r); }
// ---------------------------------------------------------------- P15
//@harness H_box_box property=P15
VP_HARNESS(H_box_box) {
    PointType l1 = vp::point("l1x","l1y","l1z",-10,10), d1 = vp::point("d1x","d1y","d1z",0,10), l2 = vp::point("l2x","l2y","l2z",-10,10), d2 = vp::point("d2x","d2y","d2z",0,10);
    PointType h1, h2; bool overlap = true;
    for (int k = 0; k < 3; ++k) { h1[k] = l1[k] + d1[k]; h2[k] = l2[k] + d2[k]; overlap = vp_and(overlap, vp_and(l1[k] <= h2[k], l2[k] <= h1[k])); }
    AABB_primitive a(l1, h1), b(l2, h2);
    vp_ensure("box-box-iff-closed-boxes-overlap", a.intersect(b) == overlap);
    vp_ensure("symmetric", b.intersect(a) == overlap);
}
//@harness H_box_box_touch property=P15
VP_HARNESS(H_box_box_touch) {
    // integer positions: shared faces, edges and corners count as overlap, a gap of one unit does not
    long p[3] = {vp_case("px", 0, 4), vp_case("py", 0, 4), vp_case("pz", 0, 4)};
    AABB_primitive a(PointType{1,1,1}, PointType{3,3,3}), b(PointType{double(p[0])*1.0,double(p[1]),double(p[2])}, PointType{double(p[0])+1,double(p[1])+1,double(p[2])+1});
    bool e = true; for (long q : p) e = e && q <= 3 && q + 1 >= 1;
    vp_ensure("touching-boxes-overlap", a.intersect(b) == e && b.intersect(a) == e);
}
// The result is the separating-axis criterion: false exactly when one of the 13 axes (3 box normals, triangle normal,
// 9 edge cross products) separates the triangle from the box shrunk by the tolerance. By the separating-axis theorem for
// convex polytopes (assumed) that is exactly "no common point".
static bool separates(const PointType& n, const PointType* v, const PointType& e) {
    double r = e[0]*vp::abs(n[0]) + e[1]*vp::abs(n[1]) + e[2]*vp::abs(n[2]);
    double p0 = dt(n, v[0]), p1 = dt(n, v[1]), p2 = dt(n, v[2]);
    return vp_or(vp_and(p0 > r, vp_and(p1 > r, p2 > r)), vp_and(p0 < -r, vp_and(p1 < -r, p2 < -r)));
}
static bool anySeparates(const PointType* v, const PointType& e) {
    PointType f[3] = {sub(v[1], v[0]), sub(v[2], v[1]), sub(v[0], v[2])}, u[3] = {{1,0,0},{0,1,0},{0,0,1}};
    bool s = separates(crs(f[0], f[1]), v, e);
    for (int i = 0; i < 3; ++i) { s = vp_or(s, separates(u[i], v, e)); for (int j = 0; j < 3; ++j) s = vp_or(s, separates(crs(u[i], f[j]), v, e)); }
    return s;
}
//@harness H_box_tri_sat property=P15 opts="--merge AABB_primitive::(check|sep|test|axis) --br-timeout 0.3"
VP_HARNESS(H_box_tri_sat) {
    PointType v[3] = {A(4), B(4), D(4)}, e = vp::point("ex","ey","ez",0.1,3);
    double tol = vp::real("tol", 0, 0.09);
    PointType lo{-e[0], -e[1], -e[2]}, hi{e[0], e[1], e[2]}, es{e[0]-tol, e[1]-tol, e[2]-tol};
    bool r = AABB_primitive(lo, hi).intersect(v[0], v[1], v[2], tol);
    vp_ensure("triangle-result-is-separating-axis-criterion", r == !anySeparates(v, es));
}

// Bounded companion of the assumed separating-axis theorem: a triangle built through a point of the box is detected,
// a triangle behind a plane that misses the box is not.
//@harness H_box_tri_sampled property=P15 mode=native native=4000
VP_HARNESS(H_box_tri_sampled) {
    PointType v0 = A(10), v1 = B(10), lo = vp::point("lx","ly","lz",-10,10), d = vp::point("dx","dy","dz",1e-3,10), w = vp::point("wx","wy","wz",0,1);
    double s = vp::real("s", 0, 1), t = vp::real("t", 0.05, 1), tol = vp::real("tol", 0, 1e-4);
    vp_assume(s + t <= 1);
    PointType hi{lo[0]+d[0], lo[1]+d[1], lo[2]+d[2]}, v2;
    for (int k = 0; k < 3; ++k) { double p = lo[k] + tol + 1e-9 + w[k]*(d[k] - 2*tol - 2e-9); v2[k] = (p - (1-s-t)*v0[k] - s*v1[k]) / t; }
    vp_ensure("common-point-detected", AABB_primitive(lo, hi).intersect(v0, v1, v2, tol));
    PointType n = vp::point("nx","ny","nz",-1,1), x[3] = {v0, v1, v2};
    double n2 = dt(n, n); vp_assume(n2 > 0.1);
    double top = 0; for (int k = 0; k < 3; ++k) top += n[k] > 0 ? n[k]*hi[k] : n[k]*lo[k];
    for (auto& v : x) { double q = top + 1e-6 - dt(n, v); if (q > 0) for (int k = 0; k < 3; ++k) v[k] += n[k]*q/n2; }
    vp_ensure("separated-triangle-rejected", !AABB_primitive(lo, hi).intersect(x[0], x[1], x[2], tol));
}
// ---------------------------------------------------------------- P16
// exists t >= 0 with o + t d in [lo,hi], all d > 0, written without division
static bool hitsPositive(const PointType& o, const PointType& d, const PointType& lo, const PointType& hi) {
    bool r = true;
    for (int i = 0; i < 3; ++i) { r = vp_and(r, hi[i] >= o[i]); for (int j = 0; j < 3; ++j) if (i != j) r = vp_and(r, (lo[i] - o[i])*d[j] <= (hi[j] - o[j])*d[i]); }
    return r;
}
static PointType LO(double r) { return vp::point("lx","ly","lz",-r,r); }
static PointType SZ(double lo, double hi) { return vp::point("sx","sy","sz",lo,hi); }
//@harness H_ray_box_positive property=P16 opts="--br-timeout 0.3" native=3000
VP_HARNESS(H_ray_box_positive) {
    PointType o = A(10), d = vp::point("dx","dy","dz",0.01,1), lo = LO(10), s = SZ(1e-3,10), hi{lo[0]+s[0],lo[1]+s[1],lo[2]+s[2]};
    AABB_primitive box(lo, hi); Ray_AABB_primitive ray(o, d);
    bool e = hitsPositive(o, d, lo, hi);
    vp_ensure("positive-ray-meets-box-iff", ray.intersect_positive_ray(box) == e);
}
//@harness H_ray_box_point property=P16 opts="--br-timeout 0.3" native=3000
VP_HARNESS(H_ray_box_point) {
    // a ray aimed at a point of the box from t >= 0 hits it, from any side
    PointType lo = LO(10), s = SZ(1e-3,10), w = vp::point("wx","wy","wz",0,1), d;
    static const char* nm[3] = {"dx","dy","dz"};
    const long sg = vp_case("signs", 0, 7);
    double t = vp::real("t", 0, 20);
    PointType hi{lo[0]+s[0],lo[1]+s[1],lo[2]+s[2]}, o;
    for (int k = 0; k < 3; ++k) { d[k] = vp::real(nm[k], 0.01, 1); if ((sg >> k) & 1) d[k] = -d[k]; o[k] = lo[k] + w[k]*s[k] - t*d[k]; }
    if (vp_symbolic() != 1) for (double q : w) vp_assume(q > 1e-6 && q < 1 - 1e-6);
    vp_ensure("ray-towards-box-point-hits", Ray_AABB_primitive(o, d).intersect(AABB_primitive(lo, hi)));
}
static void rayBox(long c) {   // base-3 digit per component: 0 zero, 1 positive, 2 negative
    PointType o = A(10), lo = LO(10), s = SZ(1e-3,10), hi{lo[0]+s[0],lo[1]+s[1],lo[2]+s[2]}, d, ro, rl, rh, rd;
    static const char* nm[3] = {"dx","dy","dz"};
    bool e = true, nz[3];
    for (int k = 0; k < 3; ++k, c /= 3) {
        long z = c % 3; double m = vp::real(nm[k], 0.01, 1); nz[k] = z != 0;
        if (z == 0) { d[k] = 0; e = vp_and(e, vp_and(o[k] > lo[k], o[k] < hi[k])); vp_assume(vp_and(o[k] != lo[k], o[k] != hi[k])); }
        else if (z == 1) { d[k] = m; rd[k] = m; ro[k] = o[k]; rl[k] = lo[k]; rh[k] = hi[k]; }
        else { d[k] = -m; rd[k] = m; ro[k] = -o[k]; rl[k] = -hi[k]; rh[k] = -lo[k]; }
    }
    for (int i = 0; i < 3; ++i) if (nz[i]) { e = vp_and(e, rh[i] >= ro[i]); for (int j = 0; j < 3; ++j) if (i != j && nz[j]) e = vp_and(e, (rl[i] - ro[i])*rd[j] <= (rh[j] - ro[j])*rd[i]); }
    vp_ensure("ray-meets-box-iff", Ray_AABB_primitive(o, d).intersect(AABB_primitive(lo, hi)) == e);
}
//@harness H_ray_box_axis property=P16 opts="--br-timeout 0.3 --ieee-div" native=3000
VP_HARNESS(H_ray_box_axis) { static const long C[6] = {1, 2, 3, 6, 9, 18}; rayBox(C[vp_case("axis", 0, 5)]); }
//@harness H_ray_box_plane property=P16 opts="--br-timeout 0.3 --ieee-div" native=3000
VP_HARNESS(H_ray_box_plane) { static const long C[3] = {4, 11, 15}; rayBox(C[vp_case("plane", 0, 2)]); }
//@harness H_ray_box_oblique property=P16 opts="--br-timeout 0.3 --ieee-div" native=3000
VP_HARNESS(H_ray_box_oblique) { static const long C[2] = {14, 26}; rayBox(C[vp_case("octant", 0, 1)]); }
//@harness H_ray_box_all property=P16 opts="--br-timeout 0.5 --ieee-div" native=8000 tier=thorough
VP_HARNESS(H_ray_box_all) { rayBox(vp_case("signs", 1, 26)); }
//@harness H_ray_tri property=P16 opts="--br-timeout 0.3" native=3000
VP_HARNESS(H_ray_tri) {
    // ray aimed at the point (1-u-v) v0 + u v1 + v v2 from distance t
    PointType v0 = A(4), v1 = B(4), v2 = D(4), d = vp::point("dx","dy","dz",0.01,1), o;
    if (vp_case("backwards", 0, 1)) d = {-d[0], -d[1], -d[2]};
    double t = vp::real("t", -4, 4), u = vp::real("u", -1, 2), v = vp::real("v", -1, 2);
    PointType n = crs(sub(v1,v0), sub(v2,v0)); double dn = dt(d, n);
    vp_assume(vp_or(dn > 1e-3, dn < -1e-3));
    for (int k = 0; k < 3; ++k) o[k] = v0[k] + u*(v1[k]-v0[k]) + v*(v2[k]-v0[k]) - t*d[k];
    double T = 0, U = 0, V = 0; bool back = false, par = true;
    bool hit = Ray_AABB_primitive(o, d).intersect(v0, v1, v2, T, U, V, back, par);
    const bool inside = vp_and(vp_and(u >= 1e-9, v >= 1e-9), vp_and(u + v <= 1 - 1e-9, t >= 1e-9));
    const bool outside = vp_or(vp_or(u <= -1e-9, v <= -1e-9), vp_or(u + v >= 1 + 1e-9, t <= -1e-9));
    vp_ensure("point-inside-triangle-is-hit", vp_imp(inside, hit));
    vp_ensure("point-outside-triangle-is-not-hit", vp_imp(outside, !hit));
    vp_ensure("not-parallel", !par);
    vp_ensure("back-facing-iff-ray-leaves-through-triangle", back == (dn > 0));
    if (hit) {
        vp_ensure("distance", vp::eq(T, t, 1e-6)); vp_ensure("barycentric", vp_and(vp::eq(U, u, 1e-6), vp::eq(V, v, 1e-6)));
    }
}
//@harness H_ray_tri_parallel property=P16 opts="--br-timeout 0.3" native=3000
VP_HARNESS(H_ray_tri_parallel) {
    // direction in the plane of the triangle: reported as parallel
    PointType v0 = A(4), v1 = B(4), v2 = D(4), o = vp::point("ox","oy","oz",-4,4), d;
    double p = vp::real("p", -1, 1), q = vp::real("q", -1, 1);
    for (int k = 0; k < 3; ++k) d[k] = p*(v1[k]-v0[k]) + q*(v2[k]-v0[k]);
    if (vp_symbolic() == 1) { vp_assume(vp_and(d[0] != 0, vp_and(d[1] != 0, d[2] != 0))); }
    else { for (int k = 0; k < 3; ++k) { v0[k] = std::floor(v0[k]); v1[k] = std::floor(v1[k]); v2[k] = std::floor(v2[k]); } p = p > 0 ? 0.5 : -0.25; q = q > 0 ? 0.75 : -1.5; for (int k = 0; k < 3; ++k) d[k] = p*(v1[k]-v0[k]) + q*(v2[k]-v0[k]); }
    double T = 0, U = 0, V = 0; bool back = false, par = false;
    bool hit = Ray_AABB_primitive(o, d).intersect(v0, v1, v2, T, U, V, back, par);
    vp_ensure("parallel-reported", vp_and(hit, par));
    vp_ensure("is-parallel", Ray_AABB_primitive(o, d).is_parallel(v0, v1, v2));
}
