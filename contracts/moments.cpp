// Contracts of the moment computation of trimmed elements (P11): boundary form (divergence theorem) and volume form.
#include "vp.h"
#include "queso/includes/define.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/quadrature/trimmed_element.hpp"
using namespace queso;
typedef std::vector<double> V;
typedef std::vector<BoundaryIntegrationPoint> B;
struct El {
    typedef queso::IntegrationPoint IntegrationPointType; typedef std::vector<IntegrationPointType> IntegrationPointVectorType;
    typedef queso::BoundaryIntegrationPoint BoundaryIntegrationPointType;
    PointType lo{-1,-1,-1}, hi{1,1,1}, plo{0,0,0}, phi{1,1,1};   // physical / parametric box
    struct Bounds { PointType lower, upper; };
    template<CoordinateSpace S> Bounds GetCellBounds() const { return S == CoordinateSpace::global ? Bounds{lo, hi} : Bounds{plo, phi}; }
};
struct Q : QuadratureTrimmedElement<El> { using QuadratureTrimmedElement<El>::ComputeConstantTerms; };
// boundary points of the box [l,u]: closed Newton-Cotes points per face (Simpson: cubic, Boole: degree 5 per direction)
static B box(const PointType& l, const PointType& u, int n) {
    const double w3[] = {1.0/6, 4.0/6, 1.0/6}, w5[] = {7.0/90, 32.0/90, 12.0/90, 32.0/90, 7.0/90}; const double* w = n == 3 ? w3 : w5;
    B r;
    for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) {
        const int b = (a+1)%3, c = (a+2)%3;
        Vector3d nv{0,0,0}; nv[a] = s ? 1.0 : -1.0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            PointType p; p[a] = s ? u[a] : l[a]; p[b] = l[b] + (u[b]-l[b])*i/(n-1.0); p[c] = l[c] + (u[c]-l[c])*j/(n-1.0);
            r.push_back(BoundaryIntegrationPoint(p, w[i]*w[j]*(u[b]-l[b])*(u[c]-l[c]), nv));
        }
    }
    return r;
}
// volume integral of the basis function (i,j,k) over the box [l,u]; f_x_int is an antiderivative of f_x (P06)
static double exact(const El& e, const PointType& l, const PointType& u, int i, int j, int k) {
    const int o[3] = {i, j, k}; double r = 1;
    for (int d = 0; d < 3; ++d) r = r * (Polynomial::f_x_int(u[d], o[d], e.lo[d], e.hi[d]) - Polynomial::f_x_int(l[d], o[d], e.lo[d], e.hi[d]));
    return r;
}
static void moments_of_box(const El& e, const PointType& l, const PointType& u, const Vector3i& o, double scale, int n = 3) {
    V m(3, 5.0);
    Q::ComputeConstantTerms(m, box(l, u, n), e, o);
    vp_ensure("one-moment-per-function", m.size() == (o[0]+1)*(o[1]+1)*(o[2]+1));
    if (m.size() != (o[0]+1)*(o[1]+1)*(o[2]+1)) return;
    std::size_t row = 0;
    for (std::size_t i = 0; i <= o[0]; ++i) for (std::size_t j = 0; j <= o[1]; ++j) for (std::size_t k = 0; k <= o[2]; ++k)
        vp_ensure("moment-is-volume-integral", vp::eqrel(m[row++], exact(e, l, u, i, j, k), scale, 1e-9));
}
static Vector3i V3(long i, long j, long k) { return Vector3i{(IndexType)i, (IndexType)j, (IndexType)k}; }
// any box, fixed element
//@harness H_moments_box property=P11 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_moments_box) {
    const long i = vp_case("i", 0, 2), j = vp_case("j", 0, 2), k = vp_case("k", 0, 2);
    El e; e.lo = {-1.0, 0.5, -3.0}; e.hi = {1.0, 2.5, 1.0};
    PointType l = vp::point("lx","ly","lz",-10,10), s = vp::point("sx","sy","sz",0,20), u{l[0]+s[0], l[1]+s[1], l[2]+s[2]};
    moments_of_box(e, l, u, V3(i, j, k), 1e10);
}
//@harness H_moments_high property=P11 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_moments_high) {
    const long c = vp_case("c", 0, 5);
    const long o[6][3] = {{4,1,0},{0,4,1},{1,0,4},{3,3,0},{0,3,3},{3,0,3}};
    El e; e.lo = {-1.0, 0.5, -3.0}; e.hi = {1.0, 2.5, 1.0};
    PointType l = vp::point("lx","ly","lz",-4,4), s = vp::point("sx","sy","sz",0,4), u{l[0]+s[0], l[1]+s[1], l[2]+s[2]};
    moments_of_box(e, l, u, V3(o[c][0], o[c][1], o[c][2]), 1e9, 5);
}
// any element, fixed box
//@harness H_moments_element property=P11 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_moments_element) {
    const long c = vp_case("c", 0, 6);
    const long o[7][3] = {{0,0,0},{1,0,2},{2,1,0},{0,2,1},{1,1,1},{2,0,2},{1,2,2}};
    El e; e.lo = vp::point("ax","ay","az",-10,10); PointType s = vp::point("sx","sy","sz",0.1,20); for (int d = 0; d < 3; ++d) e.hi[d] = e.lo[d] + s[d];
    moments_of_box(e, PointType{-0.25, 0.5, 1.0}, PointType{1.0, 0.75, 3.0}, V3(o[c][0], o[c][1], o[c][2]), 1e9);
}
// tetrahedron: slanted faces; rational rules of sufficient degree on the faces (3) and in the volume (2)
//@harness H_moments_tet property=P11 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_moments_tet) {
    const long c = vp_case("c", 0, 3);
    const long o[4][3] = {{0,0,0},{1,1,0},{0,1,1},{1,0,1}};
    El e; e.lo = {-1.0, 0.5, -3.0}; e.hi = {1.0, 2.5, 1.0};
    PointType v[4]; v[0] = vp::point("px","py","pz",-5,5); PointType s = vp::point("sx","sy","sz",0.1,5);
    v[1] = PointType{v[0][0]+s[0], v[0][1], v[0][2]}; v[2] = PointType{v[0][0], v[0][1]+s[1], v[0][2]};
    v[3] = PointType{v[0][0]+vp::real("tx",-5,5), v[0][1]+vp::real("ty",-5,5), v[0][2]+s[2]};
    const int f[4][3] = {{0,2,1},{0,1,3},{1,2,3},{0,3,2}};
    B b;
    for (auto& t : f) {
        PointType x = v[t[0]], y = v[t[1]], z = v[t[2]]; Vector3d n;
        for (int d = 0; d < 3; ++d) { int p = (d+1)%3, q = (d+2)%3; n[d] = 0.5*((y[p]-x[p])*(z[q]-x[q]) - (y[q]-x[q])*(z[p]-x[p])); }
        // the normal carries the area (not of unit length): only normal*weight enters the integral
        const double L[4][3] = {{1.0/3,1.0/3,1.0/3},{0.6,0.2,0.2},{0.2,0.6,0.2},{0.2,0.2,0.6}};
        for (int i = 0; i < 4; ++i) { PointType p; for (int d = 0; d < 3; ++d) p[d] = L[i][0]*x[d] + L[i][1]*y[d] + L[i][2]*z[d];
            b.push_back(BoundaryIntegrationPoint(p, i ? 25.0/48 : -27.0/48, n)); }
    }
    V m; Q::ComputeConstantTerms(m, b, e, V3(o[c][0], o[c][1], o[c][2]));
    const double vol = s[0]*s[1]*s[2]/6.0;
    auto g = [&](const PointType& p, int i, int j, int k) { const int q[3] = {i, j, k}; double r = 1; for (int d = 0; d < 3; ++d) r = r*Polynomial::f_x(p[d], q[d], e.lo[d], e.hi[d]); return r; };
    std::size_t row = 0;
    for (int i = 0; i <= o[c][0]; ++i) for (int j = 0; j <= o[c][1]; ++j) for (int k = 0; k <= o[c][2]; ++k) {
        double w = 0;
        for (int p = 0; p < 4; ++p) { w += -0.05*g(v[p], i, j, k); for (int q = p+1; q < 4; ++q) w += 0.2*g(PointType{0.5*(v[p][0]+v[q][0]), 0.5*(v[p][1]+v[q][1]), 0.5*(v[p][2]+v[q][2])}, i, j, k); }
        vp_ensure("moment-is-volume-integral", vp::eqrel(m[row++], vol*w, 1e6, 1e-9));
    }
}
// the moments are additive over the boundary points
//@harness H_moments_additive property=P11 opts="--br-timeout 0.3"
VP_HARNESS(H_moments_additive) {
    const long c = vp_case("c", 0, 3);
    const long o[4][3] = {{0,1,2},{2,2,2},{4,0,1},{1,4,0}};
    El e; e.lo = {-1.0, 0.5, -3.0}; e.hi = {1.0, 2.5, 1.0};
    const Vector3i ov = V3(o[c][0], o[c][1], o[c][2]);
    BoundaryIntegrationPoint p(vp::point("px","py","pz",-5,5), vp::real("w", 0, 5), vp::point("nx","ny","nz",-1,1)), q(vp::point("qx","qy","qz",-5,5), vp::real("v", 0, 5), vp::point("mx","my","mz",-1,1));
    V a, b, ab;
    Q::ComputeConstantTerms(a, B{p}, e, ov); Q::ComputeConstantTerms(b, B{q}, e, ov); Q::ComputeConstantTerms(ab, B{p, q}, e, ov);
    for (std::size_t i = 0; i < ab.size(); ++i) vp_ensure("additive", vp::eqrel(ab[i], a[i] + b[i], 1e6, 1e-9));
}
// volume form: moments of weighted points in the parametric box
//@harness H_moments_points property=P11 opts="--br-timeout 0.3"
VP_HARNESS(H_moments_points) {
    const long c = vp_case("c", 0, 3);
    const long o[4][3] = {{0,1,2},{2,2,2},{4,0,1},{1,4,0}};
    El e; e.plo = {-1.0, 0.5, -3.0}; e.phi = {1.0, 2.5, 1.0};
    auto ip = MakeUnique<El::IntegrationPointVectorType>();
    ip->push_back(IntegrationPoint(vp::real("px",-5,5), vp::real("py",-5,5), vp::real("pz",-5,5), vp::real("w",0,5)));
    ip->push_back(IntegrationPoint(vp::real("qx",-5,5), vp::real("qy",-5,5), vp::real("qz",-5,5), vp::real("v",0,5)));
    V m; Q::ComputeConstantTerms(m, ip, e, V3(o[c][0], o[c][1], o[c][2]));
    std::size_t row = 0;
    vp_ensure("one-moment-per-function", (long)m.size() == (o[c][0]+1)*(o[c][1]+1)*(o[c][2]+1));
    for (int i = 0; i <= o[c][0]; ++i) for (int j = 0; j <= o[c][1]; ++j) for (int k = 0; k <= o[c][2]; ++k) {
        const int q[3] = {i, j, k}; double s = 0;
        for (auto& r : *ip) { double t = r.Weight(); for (int d = 0; d < 3; ++d) t = t*Polynomial::f_x(r[d], q[d], e.plo[d], e.phi[d]); s += t; }
        vp_ensure("moment-is-weighted-sum", vp::eqrel(m[row++], s, 1e6, 1e-9));
    }
}
