// Contracts of the flood fill (P19). FloodFill is checked against the contract of BRepOperator:
//  * IsTrimmed(box): the box, possibly extended across one of its faces, is met by the surface;
//  * OnBoundedSideOfClippedSection(p, box): side of p, which is only defined if the surface is in the box, and p lies in
//    an untrimmed cell that shares a face with the box (both preconditions are obligations of the caller);
//  * IsInside(p): side of p.
// The surface is any set of trimmed cells plus any set of walls on the faces between untrimmed cells; the side of every
// connected component of the rest is a free logical variable.
//@sources queso/embedding/flood_fill.cpp
#include "vp.h"
#include "settings.h"
#include <omp.h>
#include "queso/embedding/flood_fill.h"
#include "queso/embedding/brep_operator.h"
using namespace queso;
namespace {
struct World {
    int n[3]; bool T[64], wall[3][64]; int comp[64], num; bool truth[64];
    PointType lo; Vector3d d;
    int id(int i, int j, int k) const { return (k*n[1] + j)*n[0] + i; }
    int cell(const double* p) const {                          // cell with p in its inside, -1: none
        int c[3];
        for (int a = 0; a < 3; ++a) { c[a] = -1; for (int i = 0; i < n[a]; ++i) if (p[a] > lo[a] + i*d[a] + 1e-3*d[a] && p[a] < lo[a] + (i+1)*d[a] - 1e-3*d[a]) c[a] = i; if (c[a] < 0) return -1; }
        return id(c[0], c[1], c[2]);
    }
    void ijk(int c, int o[3]) const { o[0] = c % n[0]; o[1] = (c / n[0]) % n[1]; o[2] = c / (n[0]*n[1]); }
    int step(int c, int a, int s) const { int o[3]; ijk(c, o); o[a] += s; return o[a] < 0 || o[a] >= n[a] ? -1 : id(o[0], o[1], o[2]); }
    bool walled(int c, int a, int s) const { return s > 0 ? wall[a][c] : wall[a][step(c, a, -1)]; }
    void components() {
        const int N = n[0]*n[1]*n[2]; num = 0;
        for (int c = 0; c < N; ++c) comp[c] = -1;
        for (int c = 0; c < N; ++c) if (!T[c] && comp[c] < 0) {
            int st[64], top = 0; st[top++] = c; comp[c] = num;
            while (top) { const int x = st[--top]; for (int a = 0; a < 3; ++a) for (int s = -1; s <= 1; s += 2) { const int y = step(x, a, s); if (y >= 0 && !T[y] && comp[y] < 0 && !walled(x, a, s)) { comp[y] = num; st[top++] = y; } } }
            ++num;
        }
    }
};
World W;
bool gBadBox, gBadPoint, gBadVote;
bool trimmed(const double* l, const double* u) {
    double m[3]; for (int a = 0; a < 3; ++a) m[a] = 0.5*(l[a] + u[a]);
    const int c = W.cell(m);
    if (c < 0) { gBadBox = true; return false; }
    bool r = W.T[c]; int o[3]; W.ijk(c, o);
    for (int a = 0; a < 3; ++a) {
        const double cl = W.lo[a] + o[a]*W.d[a], cu = W.lo[a] + (o[a]+1)*W.d[a], e = 1e-13*W.d[a];
        if (l[a] < cl - 1e-3*W.d[a] || u[a] > cu + 1e-3*W.d[a] || l[a] > cl + 1e-3*W.d[a] || u[a] < cu - 1e-3*W.d[a]) gBadBox = true;
        // surface on the face, or a trimmed cell behind a wall: seen by a box that reaches over the face
        if (l[a] < cl - e && o[a] > 0 && W.wall[a][W.step(c, a, -1)]) r = true;
        if (u[a] > cu + e && o[a] < W.n[a] - 1 && W.wall[a][c]) r = true;
    }
    return r;
}
}
namespace queso {
bool BRepOperator::IsTrimmed(PointView l, PointView u, double) const { return trimmed(l.data(), u.data()); }
bool BRepOperator::OnBoundedSideOfClippedSection(const PointType& p, PointView l, PointView u) const {
    if (!trimmed(l.data(), u.data())) gBadVote = true;
    const int c = W.cell(p.data()); double m[3]; for (int a = 0; a < 3; ++a) m[a] = 0.5*(l[a] + u[a]);
    const int b = W.cell(m); bool next = false;
    if (c < 0 || b < 0 || W.T[c]) { gBadPoint = true; return false; }
    for (int a = 0; a < 3; ++a) for (int s = -1; s <= 1; s += 2) if (W.step(c, a, s) == b) next = true;
    if (!next) gBadVote = true;
    return W.truth[W.comp[c]];
}
bool BRepOperator::IsInside(const PointType& p) const {
    const int c = W.cell(p.data());
    if (c < 0 || W.T[c]) { gBadPoint = true; return false; }
    return W.truth[W.comp[c]];
}
}
static Unique<MainDictionaryType> base() { vp::GridSpec g; g.lo = PointType{0,0,0}; g.hi = PointType{1,1,1}; g.plo = g.lo; g.phi = g.hi; g.n = Vector3i{1,1,1}; return vp::make_settings(g); }
static long mix(long a, long b) { unsigned long h = (unsigned long)a*0x9E3779B97F4A7C15ul + (unsigned long)b*0xC2B2AE3D27D4EB4Ful; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ul; return (long)(h >> 33); }
// sides: 0/1 alternate over the components, 2: arbitrary (logical variables), 3: all inside
static void check(MainDictionaryType& s, int nx, int ny, int nz, long bits, long walls, int sides_kind, int threads, const PointType& lo, const Vector3d& d) {
    W.n[0] = nx; W.n[1] = ny; W.n[2] = nz; W.lo = lo; W.d = d;
    const int N = nx*ny*nz;
    for (int c = 0; c < N; ++c) W.T[c] = (bits >> c) & 1;
    int f = 0; walls &= (1l << 62) - 1;
    for (int a = 0; a < 3; ++a) for (int c = 0; c < N; ++c) {
        const int y = W.step(c, a, 1);
        W.wall[a][c] = y >= 0 && ((walls >> (f % 62)) & 1) && !W.T[c] && !W.T[y];
        if (y >= 0) ++f;
    }
    W.components();
    const char* nm[16] = {"in0","in1","in2","in3","in4","in5","in6","in7","in8","in9","in10","in11","in12","in13","in14","in15"};
    for (int g = 0; g < W.num; ++g) W.truth[g] = sides_kind == 2 && g < 16 ? vp_any_bool(nm[g]) : sides_kind == 3 ? true : (g + sides_kind) % 2;
    gBadBox = gBadPoint = gBadVote = false;
    auto& b = s[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, PointType{lo[0], lo[1], lo[2]});
    b.SetValue(BackgroundGridSettings::upper_bound_xyz, PointType{lo[0] + nx*d[0], lo[1] + ny*d[1], lo[2] + nz*d[2]});
    b.SetValue(BackgroundGridSettings::number_of_elements, Vector3i{(IndexType)nx, (IndexType)ny, (IndexType)nz});
    omp_set_num_threads(threads);
    alignas(BRepOperator) static char buf[sizeof(BRepOperator)];     // never touched: all methods used are the contract's
    FloodFill fill(reinterpret_cast<const BRepOperator*>(buf), s);
    auto r = fill.ClassifyElements();
    omp_set_num_threads(1);
    bool flags = true, sides = true, size = r->size() == (std::size_t)N;
    vp_ensure("one-state-per-cell", size);
    for (int c = 0; c < N; ++c) {
        const auto st = (*r)[c];
        if (W.T[c]) flags = vp_and(flags, st == IntersectionState::trimmed);
        else { flags = vp_and(flags, st != IntersectionState::trimmed);
               sides = vp_and(sides, W.truth[W.comp[c]] ? st == IntersectionState::inside : st == IntersectionState::outside); }
    }
    vp_ensure("trimmed-exactly-where-cut", flags);
    vp_ensure("side-as-classified-alone", sides);
    vp_ensure("boxes-are-cells", !gBadBox);
    vp_ensure("points-in-untrimmed-cells", !gBadPoint);
    vp_ensure("votes-only-next-to-the-surface", !gBadVote);
}
static const PointType O{-2, 1, 0.5}; static const Vector3d D{1, 0.5, 2};
static void line(int axis) {
    auto s = base();
    const long b = vp_case("T", 0, 15), w = vp_case("walls", 0, axis ? 1 : 3), t = vp_case("threads", axis ? 2 : 1, 3), k = axis ? b % 2 : vp_case("sides", 0, 1);
    check(*s, axis == 0 ? 4 : 1, axis == 1 ? 4 : 1, axis == 2 ? 4 : 1, b, w == 3 ? 5 : w, k, t, O, D);
}
//@harness H_flood_line_x property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_line_x) { line(0); }
//@harness H_flood_line_y property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_line_y) { line(1); }
//@harness H_flood_line_z property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_line_z) { line(2); }
//@harness H_flood_line_sides property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_line_sides) {
    auto s = base();
    const long b = vp_case("T", 0, 31), t = vp_case("threads", 1, 3);
    check(*s, 5, 1, 1, b, 0, 2, t, O, D);
}
static void plane(int axis) {
    auto s = base();
    const long b = vp_case("T", 0, 63), w = vp_case("walls", 0, 1), t = vp_case("threads", 1, 2), k = b % 2;
    check(*s, axis == 0 ? 3 : axis == 1 ? 2 : 1, axis == 1 ? 3 : axis == 2 ? 2 : 1, axis == 2 ? 3 : axis == 0 ? 2 : 1, b, w == 0 ? 0 : mix(b, w), k, t + 1, O, D);
}
//@harness H_flood_plane_x property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_plane_x) { plane(0); }
//@harness H_flood_plane_y property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_plane_y) { plane(1); }
//@harness H_flood_plane_z property=P19 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_flood_plane_z) { plane(2); }
static void cube(long lo, long hi) {
    auto s = base();
    const long b = vp_case("T", lo, hi), w = vp_case("walls", 0, 1);
    check(*s, 2, 2, 2, b, w ? mix(b, w) : 0, b % 2, 2, O, D);
}
//@harness H_flood_cube property=P19 opts="--br-timeout 0.3" max=400
VP_HARNESS(H_flood_cube) { cube(0, 127); }
//@harness H_flood_cube_last property=P19 tier=thorough opts="--br-timeout 0.3" max=400
VP_HARNESS(H_flood_cube_last) { cube(128, 255); }
//@harness H_flood_block property=P19 tier=thorough opts="--br-timeout 0.3" max=800
VP_HARNESS(H_flood_block) {
    auto s = base();
    const long b = vp_case("T", 0, 1023), w = vp_case("walls", 0, 1), t = vp_case("threads", 2, 3);
    check(*s, 2, 3, 2, mix(b, 77) & 4095, w ? mix(b, w) : 0, b % 2, t, O, D);
}
//@harness H_flood_many property=P19 mode=native native=10
VP_HARNESS(H_flood_many) {
    auto s = base();
    const long b = vp_any_int("T", 0, 1000000), w = vp_any_int("walls", 0, 1000000), d = vp_any_int("density", 0, 2), t = vp_any_int("threads", 1, 8);
    const int nx = vp_any_int("nx", 1, 4), ny = vp_any_int("ny", 1, 4), nz = vp_any_int("nz", 1, 4);
    auto bits = [](long a) { return mix(a, 1) ^ (mix(a, 2) << 31) ^ (mix(a, 3) << 60); };
    long T = bits(b); if (d) T &= bits(b + 1); if (d > 1) T &= bits(b + 2);
    check(*s, nx, ny, nz, T, w % 3 ? bits(w) & bits(w + 1) : 0, w % 2, t, O, D);
}
