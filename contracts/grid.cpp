// Contracts of the background grid (P04): registry of elements by id, filter and neighbour.
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc
//@native_sources queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/flood_fill.cpp
#include "vp.h"
#include "settings.h"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
using namespace queso;
typedef BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint> Grid;
typedef Grid::ElementFilter Filter;
typedef GridIndexer::Direction Dir;
static const Dir DIRS[6] = {Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward};
struct UB { static constexpr Filter Builds = Filter::untrimmed; bool empty = false; int built = 0;
    std::optional<Grid::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { ++built; if (empty) return std::nullopt; return Grid::UntrimmedElementType(id, b, {IntegrationPoint(1.0*id, 2.0, 3.0, 4.0)}); } };
struct TB { static constexpr Filter Builds = Filter::trimmed; bool empty = false; int built = 0;
    std::optional<Grid::TrimmedElementType> Build(IndexType id, const ElementBounds& b) { ++built; if (empty) return std::nullopt;
        return Grid::TrimmedElementType(id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, nullptr), {IntegrationPoint(1.0*id, -2.0, 3.0, 4.0)}); } };
static bool sameBox(const BoundingBoxType& a, const BoundingBoxType& b) {
    bool r = true; for (int d = 0; d < 3; ++d) { r = vp_and(r, vp::eq(a.lower[d], b.lower[d])); r = vp_and(r, vp::eq(a.upper[d], b.upper[d])); } return r;
}
static void checkView(const Grid::ElementViewType& v, IndexType id, int kind, const GridIndexer& gi) {
    vp_ensure("view-of-requested-element", v.GetId() == id);
    vp_ensure("kind-of-element", v.IsTrimmed() == (kind == 2));
    vp_ensure("bounds-of-element", sameBox(v.GetCellBounds<CoordinateSpace::global>(), gi.GetBoundingBoxXYZFromIndex(id - 1)));
    vp_ensure("bounds-of-element", sameBox(v.GetCellBounds<CoordinateSpace::parametric>(), gi.GetBoundingBoxUVWFromIndex(id - 1)));
    const auto& ips = v.GetIntegrationPoints();
    vp_ensure("own-points", ips.size() == 1 && ips[0][0] == 1.0*id && ips[0][1] == (kind == 2 ? -2.0 : 2.0));
}
static bool match(Filter f, int kind) { return kind && (f == Filter::all || (f == Filter::untrimmed) == (kind == 1)); }
template<Filter F> static void checkIteration(const Grid& g, const std::vector<int>& kind, const GridIndexer& gi) {
    std::vector<int> seen(kind.size(), 0); std::size_t n = 0, want = 0;
    for (auto v : g.GetElementViews<F>()) { const IndexType id = v.GetId(); if (id < 1 || id > kind.size()) { vp_ensure("only-stored-elements", false); return; } seen[id-1]++; ++n; checkView(v, id, kind[id-1], gi); }
    for (std::size_t i = 0; i < kind.size(); ++i) { want += match(F, kind[i]); vp_ensure("every-match-exactly-once", seen[i] == (match(F, kind[i]) ? 1 : 0)); }
    vp_ensure("number-of-matches", n == want);
}
template<Filter F> static void checkLookup(const Grid& g, const std::vector<int>& kind, const GridIndexer& gi) {
    for (std::size_t id = 0; id <= kind.size() + 1; ++id) {
        auto v = g.GetElementView<F>(id);
        const int k = id >= 1 && id <= kind.size() ? kind[id-1] : 0;
        vp_ensure("found-iff-stored", v.has_value() == match(F, k));
        if (v) checkView(*v, id, k, gi);
    }
    for (std::size_t id = 1; id <= kind.size(); ++id) for (int d = 0; d < 6; ++d) {
        auto r = g.GetNextElementView<F>(id, DIRS[d]);
        const auto [next, info] = d == 0 ? gi.GetNextIndexX(id-1) : d == 1 ? gi.GetPreviousIndexX(id-1) : d == 2 ? gi.GetNextIndexY(id-1) : d == 3 ? gi.GetPreviousIndexY(id-1) : d == 4 ? gi.GetNextIndexZ(id-1) : gi.GetPreviousIndexZ(id-1);
        vp_ensure("neighbour-id", r.next_id == next + 1);
        const int k = kind[next];
        vp_ensure("neighbour-found-iff-stored", r.element.has_value() == match(F, k));
        vp_ensure("end-flag", r.is_end == (info != GridIndexer::IndexInfo::middle || !match(F, k)));
        if (r.element) checkView(*r.element, next + 1, k, gi);
        vp_ensure("is-end-query", g.IsEnd(id, DIRS[d]) == gi.IsEnd(id-1, DIRS[d]));
    }
}
template<Filter F> static void checkPointers(Grid& g, const std::vector<int>& kind) {
    for (std::size_t id = 0; id <= kind.size() + 1; ++id) {
        auto* p = g.pGetElement<F>(id);
        const int k = id >= 1 && id <= kind.size() ? kind[id-1] : 0;
        vp_ensure("found-iff-stored", (p != nullptr) == match(F, k));
        if (p) vp_ensure("pointer-to-requested-element", p->GetId() == id && p->IsTrimmed() == (k == 2));
        if (id >= 1 && id <= kind.size()) for (int d = 0; d < 6; ++d) {
            auto r = g.GetNextElement<F>(id, DIRS[d]); auto w = g.GetNextElementView<F>(id, DIRS[d]);
            vp_ensure("same-neighbour-as-view", r.next_id == w.next_id && r.is_end == w.is_end && (r.p_element != nullptr) == w.element.has_value());
            if (r.p_element) vp_ensure("neighbour-pointer", r.p_element->GetId() == r.next_id);
        }
    }
    std::size_t n = 0, want = 0; for (auto& e : g.GetElements<F>()) { ++n; vp_ensure("pointer-is-stored-element", g.pGetElement<F>(e.GetId()) == &e); }
    for (int k : kind) want += match(F, k);
    vp_ensure("number-of-elements", n == want);
}
static void contract(const Vector3i& n, const std::vector<int>& kind, int order) {
    vp::GridSpec s; s.n = n; s.lo = {-1.0, 2.0, 0.5}; s.hi = {3.0, 4.0, 5.0}; s.plo = {0, 0, 0}; s.phi = {1, 2, 4};
    auto settings = vp::make_settings(s);
    GridIndexer gi(*settings);
    Grid g(*settings);
    const std::size_t N = kind.size();
    UB ub; TB tb; std::size_t nu = 0, nt = 0;
    auto make = [&](std::size_t id, int k) { ElementBounds b{gi.GetBoundingBoxXYZFromIndex(id-1), gi.GetBoundingBoxUVWFromIndex(id-1)}; return k == 2 ? g.MakeElement(tb, id, b) : g.MakeElement(ub, id, b); };
    auto throws = [&](auto f) { try { f(); } catch (std::exception&) { return true; } return false; };
    if (order % 2) g.ReserveElements(1, 1);
    for (std::size_t i = 0; i < N; ++i) {
        const std::size_t id = (order == 0 ? i : order == 1 ? N - 1 - i : (i + N/2) % N) + 1;
        const int k = kind[id-1];
        if (k == 0) { ub.empty = tb.empty = true; vp_ensure("nothing-to-store-reported", !make(id, 1 + (int)(i % 2))); ub.empty = tb.empty = false; continue; }
        vp_ensure("stored-reported", make(id, k)); if (k == 2) ++nt; else ++nu;
        if (i % 2) vp_ensure("duplicate-rejected", throws([&]() { make(id, 1 + (int)((i/2) % 2)); }));
        vp_ensure("counts", g.NumberOfUntrimmedElements() == nu && g.NumberOfTrimmedElements() == nt && g.NumberOfActiveElements() == nu + nt);
    }
    vp_ensure("access-before-lock-rejected", throws([&]() { (void)g.GetElementView<Filter::all>(1); }) && throws([&]() { (void)g.pGetElement<Filter::untrimmed>(1); }) && throws([&]() { (void)g.pGetElement<Filter::trimmed>(1); }));
    g.LockElements();
    vp_ensure("adding-after-lock-rejected", throws([&]() { make(1, 1); }) && throws([&]() { make(N, 2); }));
    vp_ensure("counts", g.NumberOfUntrimmedElements() == nu && g.NumberOfTrimmedElements() == nt && g.NumberOfActiveElements() == nu + nt && g.NumberOfConditions() == 0);
    checkIteration<Filter::all>(g, kind, gi); checkIteration<Filter::trimmed>(g, kind, gi); checkIteration<Filter::untrimmed>(g, kind, gi);
    checkLookup<Filter::all>(g, kind, gi); checkLookup<Filter::trimmed>(g, kind, gi); checkLookup<Filter::untrimmed>(g, kind, gi);
    checkPointers<Filter::trimmed>(g, kind); checkPointers<Filter::untrimmed>(g, kind);
}
//@harness H_grid_line property=P04 max=300
VP_HARNESS(H_grid_line) {
    const long c = vp_case("population", 0, 26), a = (c + c/9) % 3, o = (c/3) % 3;
    Vector3i n{1, 1, 1}; n[a] = 3;
    contract(n, {(int)(c % 3), (int)(c / 3 % 3), (int)(c / 9)}, o);
}
//@harness H_grid_line_all property=P04 max=800 tier=thorough
VP_HARNESS(H_grid_line_all) {
    const long a = vp_case("axis", 0, 2), c = vp_case("population", 0, 26), o = vp_case("order", 0, 2);
    Vector3i n{1, 1, 1}; n[a] = 3;
    contract(n, {(int)(c % 3), (int)(c / 3 % 3), (int)(c / 9)}, o);
}
//@harness H_grid_plane property=P04 max=300
VP_HARNESS(H_grid_plane) {
    const long c = vp_case("population", 0, 26), a = (c + c/9) % 3, o = (c/3) % 3;
    Vector3i n{2, 2, 2}; n[a] = 1;
    contract(n, {(int)(c % 3), (int)(c / 3 % 3), (int)(c / 9), (int)((c + c/3 + o) % 3)}, o);
}
//@harness H_grid_block property=P04 mode=native native=6
VP_HARNESS(H_grid_block) {
    Vector3i n{(IndexType)vp_any_int("nx", 1, 4), (IndexType)vp_any_int("ny", 1, 4), (IndexType)vp_any_int("nz", 1, 4)};
    std::vector<int> kind; for (std::size_t i = 0; i < n[0]*n[1]*n[2]; ++i) kind.push_back((int)vp_any_int("kind", 0, 2));
    contract(n, kind, (int)vp_any_int("order", 0, 2));
}
