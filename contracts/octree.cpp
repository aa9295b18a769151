// Contracts of the octree (P20): refinement tiles the root, counts, and the points handed to the moment fitting.
// The operator (classification of cells and points) is an arbitrary exact classification of a union of fine cells.
//@sources queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp
//@native_sources queso/embedding/flood_fill.cpp queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp queso/solvers/nnls.cpp external_libraries/aabb_tree/AABB_base.cc
#include "vp.h"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/embedding/octree.cpp"
using namespace queso;
struct El { typedef queso::IntegrationPoint IntegrationPointType; typedef std::vector<IntegrationPointType> IntegrationPointVectorType; };
typedef El::IntegrationPointVectorType IPs;
static const int F = 8;                                  // finest cells per direction (level 3)
struct Cell { int level, i[3]; };
// geometric classification of [lo,hi] relative to the root: which cell of which level it is
struct Op {
    PointType lo, len; int pattern;
    bool in(int x, int y, int z) const {                 // fine cell inside the domain?
        switch (pattern) {
            case 0: return true;
            case 1: return false;
            case 2: return x < 4;
            case 3: return z >= 5;
            case 4: return x + y + z < 9;
            case 5: return x == 7 && y == 0 && z == 3;
            case 6: return (x/2 + y/4 + z) % 2 == 0;
            case 7: return !(x == 2 && y == 5 && z == 6);
            case 8: return x < 4 && y >= 4;
            case 9: return y < 2 || (z > 5 && x > 3);
            case 10: return (x < 4) == (y < 4);
            default: return (x + 2*y + 3*z) % 5 != 0;
        }
    }
    IntersectionState state(const Cell& c) const {
        const int n = F >> c.level; int cnt = 0;
        for (int x = 0; x < n; ++x) for (int y = 0; y < n; ++y) for (int z = 0; z < n; ++z) cnt += in(c.i[0]*n + x, c.i[1]*n + y, c.i[2]*n + z);
        return cnt == 0 ? IntersectionState::outside : cnt == n*n*n ? IntersectionState::inside : IntersectionState::trimmed;
    }
    // -1 if [a,b] is no cell of the dyadic grid in direction d
    bool locate(double a, double b, int d, int level, int& out) const {
        const double h = len[d] / (1 << level);
        for (int i = 0; i < (1 << level); ++i) if (vp::eq(a, lo[d] + i*h, 1e-9)) { out = i; return vp::eq(b, lo[d] + (i+1)*h, 1e-9); }
        return false;
    }
    bool find(const PointType& a, const PointType& b, Cell& c) const {
        for (c.level = 0; c.level <= 3; ++c.level) {
            if (!vp::eq(b[0] - a[0], len[0] / (1 << c.level), 1e-9)) continue;
            return locate(a[0], b[0], 0, c.level, c.i[0]) && locate(a[1], b[1], 1, c.level, c.i[1]) && locate(a[2], b[2], 2, c.level, c.i[2]);
        }
        return false;
    }
    template<CoordinateSpace S> IntersectionState GetIntersectionState(const PointType& a, const PointType& b) const {
        Cell c;
        const bool ok = S == CoordinateSpace::global && find(a, b, c);
        vp_ensure("children-are-the-octants", ok);
        if (!ok) { vp_dead_end(); return IntersectionState::outside; }
        return state(c);
    }
    template<CoordinateSpace S> bool IsInsideActiveDomain(const PointType& p) const {
        if (S != CoordinateSpace::global) { vp_ensure("membership-asked-in-physical-space", false); return false; }
        int c[3];
        for (int d = 0; d < 3; ++d) { int k = 0, w = F; while (w > 1) { w /= 2; if (p[d] >= lo[d] + (k + w)*len[d]/F - vp::slack(1e-9)*len[d]) k += w; } c[d] = k; }
        return in(c[0], c[1], c[2]);
    }
};
typedef std::vector<std::pair<Cell, IntersectionState>> Leafs;
struct Node { Cell c; IntersectionState s; std::vector<Node> ch; };
static void refine(Node& n, const Op& op, int mn, int mx) {
    if (n.ch.empty()) {
        if (!(n.c.level < mn || (n.c.level < mx && n.s == IntersectionState::trimmed))) return;
        for (int o = 0; o < 8; ++o) {
            Node k{Cell{n.c.level + 1, {2*n.c.i[0] + (o & 1), 2*n.c.i[1] + ((o >> 1) & 1), 2*n.c.i[2] + (o >> 2)}}, IntersectionState::inside, {}};
            k.s = op.state(k.c);
            if (k.s != IntersectionState::outside) { refine(k, op, mn, mx); n.ch.push_back(k); }
        }
    } else for (auto& k : n.ch) refine(k, op, mn, mx);
}
static void leafs(const Node& n, Leafs& l, std::size_t& nodes) { ++nodes; if (n.ch.empty()) l.push_back({n.c, n.s}); else for (auto& k : n.ch) leafs(k, l, nodes); }
static const int ST[8][2][2] = {{{0,0},{0,0}},{{0,1},{0,1}},{{1,1},{1,1}},{{0,2},{0,2}},{{1,2},{1,2}},{{0,1},{1,2}},{{1,2},{2,2}},{{0,2},{1,3}}};
struct Setup {
    PointType xl, xs, ul, us; Op op; BoundingBoxType bx, bu;
    Setup() {
        xl = vp::point("xl","yl","zl",-50,50); xs = vp::point("xs","ys","zs",0.1,50); ul = vp::point("ul","vl","wl",-50,50); us = vp::point("us","vs","ws",0.1,50);
        op.lo = xl; op.len = xs;
        bx = MakeBox(xl, PointType{xl[0]+xs[0], xl[1]+xs[1], xl[2]+xs[2]}); bu = MakeBox(ul, PointType{ul[0]+us[0], ul[1]+us[1], ul[2]+us[2]});
    }
};
static void contract(int pattern, int s, const Vector3i& o) {
    Setup S; S.op.pattern = pattern;
    Octree<Op> t(&S.op, S.bx, S.bu);
    Node root{Cell{0, {0,0,0}}, IntersectionState::trimmed, {}};
    for (int r = 0; r < 2; ++r) { t.Refine(ST[s][r][0], ST[s][r][1]); refine(root, S.op, ST[s][r][0], ST[s][r][1]); }
    Leafs L; std::size_t nodes = 0; leafs(root, L, nodes);
    vp_ensure("number-of-leafs", t.NumberOfLeafs() == L.size());
    vp_ensure("number-of-nodes", t.NumberOfNodes() == nodes);
    vp_ensure("levels-reported", (long)t.MinRefinementLevel() == ST[s][1][0] && (long)t.MaxRefinementLevel() == ST[s][1][1]);
    IPs got; got.push_back(IntegrationPoint(1.0, 2.0, 3.0, 4.0));   // points are appended
    t.AddIntegrationPoints<El>(got, o);
    auto p2 = t.pGetIntegrationPoints<El>(o);
    vp_ensure("same-points-both-ways", p2->size() + 1 == got.size());
    const IntegrationPointFactory1D::Ip1DVectorType* R[3]; for (int d = 0; d < 3; ++d) R[d] = &IntegrationPointFactory1D::GetGauss(o[d], IntegrationMethod::gauss);
    std::size_t n = 0; double sum = 0;
    std::vector<char> used(got.size(), 0); if (!got.empty()) used[0] = 1;
    std::size_t hint = 1;
    for (auto& lf : L) {
        PointType a; double h[3]; for (int d = 0; d < 3; ++d) { h[d] = S.us[d] / (1 << lf.first.level); a[d] = S.ul[d] + lf.first.i[d]*h[d]; }
        for (std::size_t i = 0; i < R[0]->size(); ++i) for (std::size_t j = 0; j < R[1]->size(); ++j) for (std::size_t k = 0; k < R[2]->size(); ++k) {
            const std::size_t id[3] = {i, j, k}; PointType x; double w = 1; int fc[3];
            for (int d = 0; d < 3; ++d) { const double q = (*R[d])[id[d]][0]; x[d] = a[d] + h[d]*q; w = w*h[d]*(*R[d])[id[d]][1]; fc[d] = (int)((lf.first.i[d] + q)*(F >> lf.first.level)); }
            if (lf.second != IntersectionState::inside && !S.op.in(fc[0], fc[1], fc[2])) continue;
            ++n;
            bool hit = false;
            for (std::size_t q = 0; q < got.size() && !hit; ++q) {
                const std::size_t at = (hint + q) % got.size();
                if (used[at]) continue;
                if (vp_and(vp::eq(got[at][0], x[0]), vp_and(vp::eq(got[at][1], x[1]), vp::eq(got[at][2], x[2])))) {
                    hit = true; used[at] = 1; hint = at + 1;
                    vp_ensure("weight-of-leaf-rule", vp::eqrel(got[at].Weight(), w, 1e4)); sum += got[at].Weight();
                    if (at - 1 < p2->size()) vp_ensure("same-points-both-ways", vp_and(vp::eq((*p2)[at-1][0], x[0]), vp::eq((*p2)[at-1].Weight(), got[at].Weight())));
                }
            }
            vp_ensure("point-of-leaf-present", hit);
            if (!hit) return;
        }
    }
    vp_ensure("no-other-points", got.size() == n + 1);
    if (pattern == 0) vp_ensure("weights-sum-to-volume", vp::near(sum/(S.us[0]*S.us[1]*S.us[2]), 1.0, 1e-9));
}
//@harness H_octree_leafs property=P20 opts="--br-timeout 0.3" max=400
VP_HARNESS(H_octree_leafs) {
    const long p = vp_case("pattern", 0, 11), s = vp_case("steps", 0, 4);
    contract(p, s, Vector3i{0, 0, 0});
}
//@harness H_octree_deep property=P20 opts="--br-timeout 0.3" tier=thorough max=800
VP_HARNESS(H_octree_deep) { const long p = vp_case("pattern", 0, 11), s = vp_case("steps", 5, 7); contract(p, s, Vector3i{0, 0, 0}); }
//@harness H_octree_points property=P20 opts="--br-timeout 0.3" max=400
VP_HARNESS(H_octree_points) {
    const long p = vp_case("pattern", 0, 11), o = vp_case("o", 0, 3);
    const Vector3i ov[4] = {{1,0,0},{0,1,2},{1,1,1},{2,0,1}};
    contract(p, 1, ov[o]);
}
//@harness H_octree_levels_checked property=P20
VP_HARNESS(H_octree_levels_checked) {
    const long a = vp_case("min", 0, 3), b = vp_case("max", 0, 2);
    Setup S; S.op.pattern = 1;   // nothing inside: no children
    Octree<Op> t(&S.op, S.bx, S.bu);
    bool thrown = false; try { t.Refine(a, b); } catch (std::exception&) { thrown = true; }
    vp_ensure("level-order-checked", thrown == (a > b));
}
