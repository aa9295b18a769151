// Contracts of GridIndexer (P01 index bijection, P02 cell boxes tile the domain, P03 grid walking).
#include "settings.h"
#include "queso/containers/grid_indexer.hpp"
using namespace queso;
using Dir = GridIndexer::Direction;
using Info = GridIndexer::IndexInfo;
static GridIndexer make(Vector3i n) {
    vp::GridSpec g; g.lo = {0,0,0}; g.hi = {1,1,1}; g.plo = {0,0,0}; g.phi = {1,1,1}; g.n = n;
    auto p = vp::make_settings(g);
    return GridIndexer(*p);
}
static Vector3i anyN(long mx) { return {vp::idx("n0",1,mx), vp::idx("n1",1,mx), vp::idx("n2",1,mx)}; }
static bool eq3(const Vector3i& a, const Vector3i& b) { return vp_and(a[0] == b[0], vp_and(a[1] == b[1], a[2] == b[2])); }
static bool eq3(const PointType& a, const PointType& b, double scale = 1.0) { return vp_and(vp::eqrel(a[0], b[0], scale), vp_and(vp::eqrel(a[1], b[1], scale), vp::eqrel(a[2], b[2], scale))); }

//@harness H_index_bijection property=P01
VP_HARNESS(H_index_bijection) {
    Vector3i n = anyN(1000000);
    GridIndexer g = make(n);
    Vector3i m{vp::idx("i",0,999999), vp::idx("j",0,999999), vp::idx("k",0,999999)};
    vp_assume(vp_and(m[0] < n[0], vp_and(m[1] < n[1], m[2] < n[2])));
    IndexType v = g.GetVectorIndexFromMatrixIndices(m);
    vp_ensure("index-in-range", v < g.NumberOfElements());
    vp_ensure("index-formula", v == m[0] + n[0]*(m[1] + n[1]*m[2]));
    vp_ensure("matrix-of-vector-is-identity", eq3(g.GetMatrixIndicesFromVectorIndex(v), m));
    vp_ensure("overloads-agree", g.GetVectorIndexFromMatrixIndices(m[0], m[1], m[2]) == v);
    vp_ensure("number-of-elements", g.NumberOfElements() == n[0]*n[1]*n[2]);
}
//@harness H_index_bijection_back property=P01
VP_HARNESS(H_index_bijection_back) {
    Vector3i n = anyN(1000000);
    GridIndexer g = make(n);
    IndexType v = vp::idx("v", 0, 999999999999999999L);
    vp_assume(v < n[0]*n[1]*n[2]);
    Vector3i m = g.GetMatrixIndicesFromVectorIndex(v);
    vp_ensure("indices-in-range", vp_and(m[0] < n[0], vp_and(m[1] < n[1], m[2] < n[2])));
    vp_ensure("vector-of-matrix-is-identity", g.GetVectorIndexFromMatrixIndices(m) == v);
}

static vp::GridSpec anyBoxes(Vector3i n, bool bspline) {
    vp::GridSpec g; g.n = n; g.bspline = bspline;
    static const char* ln[] = {"lx","ly","lz"}; static const char* dn[] = {"dx","dy","dz"};
    static const char* pl[] = {"pu","pv","pw"}; static const char* pd[] = {"du","dv","dw"};
    for (int i = 0; i < 3; ++i) {
        g.lo[i] = vp::real(ln[i], -1e3, 1e3); g.hi[i] = g.lo[i] + vp::real(dn[i], 1e-3, 1e3);
        g.plo[i] = vp::real(pl[i], -1e2, 1e2); g.phi[i] = g.plo[i] + vp::real(pd[i], 1e-3, 1e2);
    }
    return g;
}
static void boxes(bool bspline, bool uvw) {
    Vector3i n = anyN(10000);
    auto spec = anyBoxes(n, bspline);
    auto p = vp::make_settings(spec);
    GridIndexer g(*p);
    const PointType lo = uvw ? spec.plo : spec.lo, hi = uvw ? spec.phi : spec.hi;
    Vector3i m{vp::idx("i",0,9999), vp::idx("j",0,9999), vp::idx("k",0,9999)};
    vp_assume(vp_and(m[0] < n[0], vp_and(m[1] < n[1], m[2] < n[2])));
    auto box = [&](const Vector3i& a) { return uvw ? g.GetBoundingBoxUVWFromIndex(a) : g.GetBoundingBoxXYZFromIndex(a); };
    const auto b = box(m);
    const auto b2 = uvw ? g.GetBoundingBoxUVWFromIndex(m[0], m[1], m[2]) : g.GetBoundingBoxXYZFromIndex(m[0], m[1], m[2]);
    const IndexType v = g.GetVectorIndexFromMatrixIndices(m);
    const auto b3 = uvw ? g.GetBoundingBoxUVWFromIndex(v) : g.GetBoundingBoxXYZFromIndex(v);
    const double sc = 1e3;
    vp_ensure("box-overloads-agree", vp_and(vp_and(eq3(b.lower, b2.lower, sc), eq3(b.upper, b2.upper, sc)), vp_and(eq3(b.lower, b3.lower, sc), eq3(b.upper, b3.upper, sc))));
    if (uvw && !bspline) {
        vp_ensure("fe-grid-uvw-is-unit-box-of-settings", vp_and(eq3(b.lower, lo, sc), eq3(b.upper, hi, sc)));
        return;
    }
    static const char* eqn[] = {"cell-size-x","cell-size-y","cell-size-z"};
    for (int a = 0; a < 3; ++a) {
        vp_ensure(eqn[a], vp_and(vp::eqrel((b.upper[a] - b.lower[a]) * (double)n[a], hi[a] - lo[a], sc * 10), b.lower[a] < b.upper[a]));
        vp_ensure("cell-lower-position", vp::eqrel((b.lower[a] - lo[a]) * (double)n[a], (hi[a] - lo[a]) * (double)m[a], sc * 1e4));
    }
}
//@harness H_boxes_xyz property=P02
VP_HARNESS(H_boxes_xyz) { boxes(true, false); }
//@harness H_boxes_uvw property=P02
VP_HARNESS(H_boxes_uvw) { boxes(true, true); }
//@harness H_boxes_uvw_fe property=P02
VP_HARNESS(H_boxes_uvw_fe) { boxes(false, true); }
//@harness H_boxes_xyz_fe property=P02
VP_HARNESS(H_boxes_xyz_fe) { boxes(false, false); }

// Neighbouring cells share a face exactly, first/last cells touch the domain boundary: together with cell-size/position the
// cells partition the domain (no gap, no overlap).
//@harness H_boxes_shared_faces property=P02
VP_HARNESS(H_boxes_shared_faces) {
    Vector3i n = anyN(10000);
    auto spec = anyBoxes(n, true);
    auto p = vp::make_settings(spec);
    GridIndexer g(*p);
    Vector3i m{vp::idx("i",0,9999), vp::idx("j",0,9999), vp::idx("k",0,9999)};
    const int a = (int)vp_case("axis", 0, 2);
    vp_assume(vp_and(m[0] < n[0], vp_and(m[1] < n[1], m[2] < n[2])));
    const auto b = g.GetBoundingBoxXYZFromIndex(m);
    const auto u = g.GetBoundingBoxUVWFromIndex(m);
    vp_ensure("last-cell-ends-at-upper-bound", vp_imp(m[a] + 1 == n[a], vp_and(vp::eqrel(b.upper[a], spec.hi[a], 1e3), vp::eqrel(u.upper[a], spec.phi[a], 1e3))));
    vp_ensure("first-cell-starts-at-lower-bound", vp_imp(m[a] == 0, vp_and(vp::eqrel(b.lower[a], spec.lo[a], 1e3), vp::eqrel(u.lower[a], spec.plo[a], 1e3))));
    vp_assume(m[a] + 1 < n[a]);
    Vector3i q = m; q[a] += 1;
    const auto c = g.GetBoundingBoxXYZFromIndex(q);
    const auto w = g.GetBoundingBoxUVWFromIndex(q);
    vp_ensure("shared-face-xyz", vp::eqrel(b.upper[a], c.lower[a], 1e3));
    vp_ensure("shared-face-uvw", vp::eqrel(u.upper[a], w.lower[a], 1e3));
    for (int o = 0; o < 3; ++o) if (o != a) vp_ensure("same-cross-section", vp_and(vp::eqrel(b.lower[o], c.lower[o], 1e3), vp::eqrel(b.upper[o], c.upper[o], 1e3)));
}

// ---- walking.  rank: position of a cell in the traversal order of a direction inside the partition [a,b].
struct Walk { GridIndexer g; PartitionBoxType part; Vector3i m; IndexType idx; Vector3i n; };
static Walk anyWalk(bool global) {
    Vector3i n = anyN(100000);
    Vector3i a{0,0,0}, b{n[0]-1, n[1]-1, n[2]-1};
    if (!global) {
        a = {vp::idx("a0",0,99999), vp::idx("a1",0,99999), vp::idx("a2",0,99999)};
        b = {vp::idx("b0",0,99999), vp::idx("b1",0,99999), vp::idx("b2",0,99999)};
        for (int i = 0; i < 3; ++i) vp_assume(vp_and(a[i] <= b[i], b[i] < n[i]));
    }
    Vector3i m{vp::idx("i",0,99999), vp::idx("j",0,99999), vp::idx("k",0,99999)};
    for (int i = 0; i < 3; ++i) vp_assume(vp_and(a[i] <= m[i], m[i] <= b[i]));
    GridIndexer g = make(n);
    IndexType idx = g.GetVectorIndexFromMatrixIndices(m);
    return {g, std::make_pair(a, b), m, idx, n};
}
static const int kOrder[3][3] = {{0,1,2},{1,0,2},{2,0,1}};   // fastest axis first, per direction axis
static void walk(bool global, bool forward) {
    Walk w = anyWalk(global);
    const int ax = (int)vp_case("axis", 0, 2);
    const Dir d = static_cast<Dir>(2*ax + (forward ? 0 : 1));
    GridIndexer::IndexReturnType r = global ? w.g.GetNextIndex(w.idx, d) : w.g.GetNextIndex(w.idx, d, w.part);
    const Vector3i q = w.g.GetMatrixIndicesFromVectorIndex(r.first);
    const Vector3i &a = w.part.first, &b = w.part.second, &m = w.m;
    vp_ensure("stays-in-partition", vp_and(vp_and(vp_and(a[0] <= q[0], q[0] <= b[0]), vp_and(a[1] <= q[1], q[1] <= b[1])), vp_and(a[2] <= q[2], q[2] <= b[2])));
    // offsets from the start corner of the traversal
    auto off = [&](const Vector3i& x, int k) { int c = kOrder[ax][k]; return forward ? x[c] - a[c] : b[c] - x[c]; };
    auto len = [&](int k) { int c = kOrder[ax][k]; return b[c] - a[c]; };
    // successor of the mixed-radix counter (o0,o1,o2)
    const bool rowEnd = off(m,0) == len(0), colEnd = off(m,1) == len(1), allEnd = off(m,2) == len(2);
    const bool last = vp_and(rowEnd, vp_and(colEnd, allEnd));
    vp_ensure("info-middle-iff-not-at-row-end", (r.second == Info::middle) == !rowEnd);
    vp_ensure("info-global-end-iff-last-cell", (r.second == Info::global_end) == last);
    vp_ensure("last-cell-returns-itself", vp_imp(last, r.first == w.idx));
    vp_ensure("middle-step-is-face-neighbour", vp_imp(!rowEnd, vp_and(off(q,0) == off(m,0) + 1, vp_and(off(q,1) == off(m,1), off(q,2) == off(m,2)))));
    vp_ensure("carry-to-next-row", vp_imp(vp_and(rowEnd, !colEnd), vp_and(off(q,0) == 0, vp_and(off(q,1) == off(m,1) + 1, off(q,2) == off(m,2)))));
    vp_ensure("carry-to-next-plane", vp_imp(vp_and(vp_and(rowEnd, colEnd), !allEnd), vp_and(off(q,0) == 0, vp_and(off(q,1) == 0, off(q,2) == off(m,2) + 1))));
    const bool isEnd = global ? w.g.IsEnd(w.idx, d) : w.g.IsEnd(w.idx, d, w.part);
    vp_ensure("is-end-iff-at-row-end", isEnd == rowEnd);
    // the axis-specific entry points agree with the generic one
    GridIndexer::IndexReturnType s;
    if (forward) s = ax == 0 ? (global ? w.g.GetNextIndexX(w.idx) : w.g.GetNextIndexX(w.idx, w.part)) : ax == 1 ? (global ? w.g.GetNextIndexY(w.idx) : w.g.GetNextIndexY(w.idx, w.part)) : (global ? w.g.GetNextIndexZ(w.idx) : w.g.GetNextIndexZ(w.idx, w.part));
    else s = ax == 0 ? (global ? w.g.GetPreviousIndexX(w.idx) : w.g.GetPreviousIndexX(w.idx, w.part)) : ax == 1 ? (global ? w.g.GetPreviousIndexY(w.idx) : w.g.GetPreviousIndexY(w.idx, w.part)) : (global ? w.g.GetPreviousIndexZ(w.idx) : w.g.GetPreviousIndexZ(w.idx, w.part));
    vp_ensure("axis-specific-call-agrees", vp_and(s.first == r.first, s.second == r.second));
    // reversing the direction undoes the step
    const Dir back = GridIndexer::ReverseDirection(d);
    vp_assume(!last);
    GridIndexer::IndexReturnType u = global ? w.g.GetNextIndex(r.first, back) : w.g.GetNextIndex(r.first, back, w.part);
    vp_ensure("reverse-direction-undoes-step", u.first == w.idx);
}
//@harness H_walk_partition_fwd property=P03
VP_HARNESS(H_walk_partition_fwd) { walk(false, true); }
//@harness H_walk_partition_bwd property=P03
VP_HARNESS(H_walk_partition_bwd) { walk(false, false); }
//@harness H_walk_global_fwd property=P03
VP_HARNESS(H_walk_global_fwd) { walk(true, true); }
//@harness H_walk_global_bwd property=P03
VP_HARNESS(H_walk_global_bwd) { walk(true, false); }
//@harness H_directions property=P03
VP_HARNESS(H_directions) {
    const auto dirs = GridIndexer::GetDirections();
    for (unsigned i = 0; i < 6; ++i) {
        vp_ensure("directions-complete-and-distinct", static_cast<unsigned>(dirs[i]) == i);
        const Dir r = GridIndexer::ReverseDirection(dirs[i]);
        vp_ensure("reverse-is-opposite-on-same-axis", static_cast<unsigned>(r) == (i ^ 1u));
        vp_ensure("reverse-is-involution", GridIndexer::ReverseDirection(r) == dirs[i]);
    }
}
