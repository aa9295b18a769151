// Contracts of queso::mapping (P05): affine maps between global and parametric element boxes.
#include "vp.h"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/utilities/mapping_utilities.hpp"
using namespace queso;
static ElementBounds bounds() {
    static const char* n[4][3] = {{"gx","gy","gz"},{"gdx","gdy","gdz"},{"pu","pv","pw"},{"pdu","pdv","pdw"}};
    ElementBounds b;
    for (int i = 0; i < 3; ++i) {
        b.global.lower[i] = vp::real(n[0][i], -100, 100); b.global.upper[i] = b.global.lower[i] + vp::real(n[1][i], 1e-4, 100);
        b.parametric.lower[i] = vp::real(n[2][i], -10, 10); b.parametric.upper[i] = b.parametric.lower[i] + vp::real(n[3][i], 1e-4, 10);
    }
    return b;
}
static double ext(const BoundingBoxType& b, int i) { return b.upper[i] - b.lower[i]; }
static PointType inBox(const BoundingBoxType& b, const char* a, const char* c, const char* d) {
    PointType p; const char* n[3] = {a, c, d};
    for (int i = 0; i < 3; ++i) p[i] = b.lower[i] + vp::real(n[i], -1, 2) * ext(b, i);
    return p;
}
//@harness H_map_points property=P05
VP_HARNESS(H_map_points) {
    auto b = bounds();
    PointType g = inBox(b.global, "a", "b", "c"), u = inBox(b.parametric, "d", "e", "f");
    PointType gp = mapping::ToParametric(g, b), gpg = mapping::ToGlobal(gp, b);
    PointType ug = mapping::ToGlobal(u, b), ugu = mapping::ToParametric(ug, b);
    for (int i = 0; i < 3; ++i) {
        vp_ensure("global-parametric-global-identity", vp::eqrel(gpg[i], g[i], 1e2, 1e-10));
        vp_ensure("parametric-global-parametric-identity", vp::eqrel(ugu[i], u[i], 1e2, 1e-9));
        vp_ensure("affine-coordinate-preserved", vp::eq((gp[i] - b.parametric.lower[i]) * ext(b.global, i), (g[i] - b.global.lower[i]) * ext(b.parametric, i), 1e-6));
        vp_ensure("affine-coordinate-preserved-back", vp::eq((ug[i] - b.global.lower[i]) * ext(b.parametric, i), (u[i] - b.parametric.lower[i]) * ext(b.global, i), 1e-6));
        vp_ensure("inside-iff-inside", vp_or(vp::abs(g[i] - b.global.upper[i]) < 1e-9, (g[i] <= b.global.upper[i]) == (gp[i] <= b.parametric.upper[i])));
    }
}
//@harness H_map_corners property=P05
VP_HARNESS(H_map_corners) {
    auto b = bounds();
    PointType lo = mapping::ToParametric(b.global.lower, b), hi = mapping::ToParametric(b.global.upper, b);
    PointType glo = mapping::ToGlobal(b.parametric.lower, b), ghi = mapping::ToGlobal(b.parametric.upper, b);
    for (int i = 0; i < 3; ++i) {
        vp_ensure("lower-to-lower", vp_and(vp::eq(lo[i], b.parametric.lower[i], 1e-8), vp::eq(glo[i], b.global.lower[i], 1e-8)));
        vp_ensure("upper-to-upper", vp_and(vp::eq(hi[i], b.parametric.upper[i], 1e-8), vp::eq(ghi[i], b.global.upper[i], 1e-8)));
    }
}
//@harness H_map_detj property=P05
VP_HARNESS(H_map_detj) {
    auto b = bounds();
    double vg = ext(b.global,0)*ext(b.global,1)*ext(b.global,2), vpv = ext(b.parametric,0)*ext(b.parametric,1)*ext(b.parametric,2);
    vp_ensure("detj-is-volume-ratio", vp::eqrel(mapping::DetJ(b) * vpv, vg, 1e3, 1e-9));
    vp_ensure("detj-positive", mapping::DetJ(b) > 0.0);
    PointType g = inBox(b.global, "a", "b", "c");
    double w = vp::real("w", 0, 10);
    IntegrationPoint ip(g, w);
    auto p = mapping::ToParametric(ip, b);
    auto back = mapping::ToGlobal(p, b);
    PointType gp = mapping::ToParametric(g, b);
    vp_ensure("volume-ip-weight-scaled", vp::eqrel(p.Weight() * vg, w * vpv, 1e4, 1e-9));
    vp_ensure("volume-ip-weight-round-trip", vp::eq(back.Weight(), w, 1e-9));
    for (int i = 0; i < 3; ++i) vp_ensure("volume-ip-point", vp_and(vp::eq(p[i], gp[i], 1e-9), vp::eq(back[i], g[i], 1e-7)));
}
// Surface measure: the vector w*n transforms with the cofactor matrix of the map (so fluxes and the divergence theorem carry over).
//@harness H_map_boundary_ip property=P05 ob=40
VP_HARNESS(H_map_boundary_ip) {
    auto b = bounds();
    bool to_param = vp_case("to_param", 0, 1);
    const auto& from = to_param ? b.global : b.parametric; const auto& to = to_param ? b.parametric : b.global;
    PointType x = inBox(from, "a", "b", "c");
    double w = vp::real("w", 0, 10);
    Vector3d n{vp::real("n0", -1, 1), vp::real("n1", -1, 1), vp::real("n2", -1, 1)};
    const int dom = (int)vp_case("dominant", 0, 2);
    n[dom] = vp_case("sign", 0, 1) ? vp::real("nd", 0.1, 1) : vp::real("nd", -1, -0.1);
    BoundaryIntegrationPoint ip(x, w, n);
    auto q = to_param ? mapping::ToParametric(ip, b) : mapping::ToGlobal(ip, b);
    PointType y = to_param ? mapping::ToParametric(x, b) : mapping::ToGlobal(x, b);
    const double sc = to_param ? 1.0 : 1e8;
    for (int i = 0; i < 3; ++i) {
        int j = (i+1)%3, k = (i+2)%3;
        // W*N_i * from_j*from_k == w*n_i * to_j*to_k
        vp_ensure("area-vector-cofactor", vp::eqrel(q.Weight()*q.Normal()[i]*ext(from,j)*ext(from,k), w*n[i]*ext(to,j)*ext(to,k), 1e5, 1e-9));
        vp_ensure("boundary-ip-point", vp::eq(q[i], y[i], 1e-9));
    }
    vp_ensure("boundary-normal-unit", vp::eq(q.Normal()[0]*q.Normal()[0]+q.Normal()[1]*q.Normal()[1]+q.Normal()[2]*q.Normal()[2], 1.0, 1e-9));
    vp_ensure("boundary-weight-nonnegative", q.Weight() >= 0.0);
    (void)sc;
}
//@harness H_map_boundary_round_trip property=P05 ob=40
VP_HARNESS(H_map_boundary_round_trip) {
    auto b = bounds();
    int ax = (int)vp_case("axis", 0, 2);
    double s = vp_case("sign", 0, 1) ? 1.0 : -1.0;
    Vector3d n{0,0,0}; n[ax] = s;
    PointType x = inBox(b.global, "a", "b", "c");
    double w = vp::real("w", 0, 10);
    auto q = mapping::ToGlobal(mapping::ToParametric(BoundaryIntegrationPoint(x, w, n), b), b);
    vp_ensure("boundary-weight-round-trip", vp::eqrel(q.Weight(), w, 10));
    for (int i = 0; i < 3; ++i) vp_ensure("boundary-normal-round-trip", vp_and(vp::eq(q.Normal()[i], n[i]), vp::eq(q[i], x[i], 1e-7)));
}
