// Contracts of the creation of conditions (P30). EmbeddedModel::CreateVolume / CreateCondition are checked against the
// contracts of the operator:
//  * pGetElementClassifications: any classification of the cells (here inside or outside);
//  * ClipTriangleMeshUnique(l, u): the part of the surface in the half-open box (l, u], as a mesh (possibly empty).
// The contract of ClipTriangleMeshUnique itself is in clip_unique.cpp.
//@sources queso/embedded_model.cpp queso/utilities/mesh_utilities.cpp queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_optimal.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced1.cpp queso/quadrature/integration_points_1d/precomputed_ggq_rules_reduced2.cpp queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/geometry_query.cpp queso/embedding/ray_aabb_primitive.cpp external_libraries/aabb_tree/AABB_base.cc
//@native_sources queso/embedding/clipper.cpp queso/embedding/polygon.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/embedding/octree.cpp queso/solvers/nnls.cpp queso/io/io_utilities.cpp
#include "vp.h"
#include "settings.h"
#include "queso/embedded_model.h"
#include "queso/embedding/brep_operator.h"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
typedef DictionaryStringAccess<MainDictionaryType> A;
namespace {
struct Call { PointType l, u; };
int gN[3]; int gPieces[32], gCalls[32]; bool gActive[32], gBad; double gSize; Call gBox[32]; PointType gLo, gHi;
int cellOf(const double* l, const double* u) {
    int c[3];
    for (int a = 0; a < 3; ++a) { const double m = 0.5*(l[a] + u[a]), h = (gHi[a] - gLo[a])/gN[a]; c[a] = -1; for (int i = 0; i < gN[a]; ++i) if (m > gLo[a] + i*h && m < gLo[a] + (i+1)*h) c[a] = i; if (c[a] < 0) return -1; }
    return (c[2]*gN[1] + c[1])*gN[0] + c[0];
}
// k-th piece of the surface in a cell: right triangle with legs 1 and 1 + cell, marked by its corner
PointType corner(int cell, int k) { return {100.0*cell, 10.0*k, gSize}; }
void piece(TriangleMesh& m, int cell, int k) {
    const IndexType b = m.NumOfVertices(); PointType c = corner(cell, k);
    m.AddVertex(c); m.AddVertex(PointType{c[0] + 1.0, c[1], c[2]}); m.AddVertex(PointType{c[0], c[1] + 1.0 + cell, c[2]});
    m.AddTriangle(Vector3i{b, b + 1, b + 2}, Vector3d{0, 0, 1});
}
template<typename F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
}
namespace queso {
ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView l, PointView u) const {
    ClippedTriangleMesh r{};
    const int c = cellOf(l.data(), u.data());
    if (c < 0) { gBad = true; return r; }
    gCalls[c]++; for (int a = 0; a < 3; ++a) { gBox[c].l[a] = l[a]; gBox[c].u[a] = u[a]; }
    for (int k = 0; k < gPieces[c]; ++k) piece(r.Mesh(), c, k);
    return r;
}
Unique<BRepOperator::StatusVectorType> BRepOperator::pGetElementClassifications(const MainDictionaryType&) const {
    auto p = MakeUnique<StatusVectorType>();
    for (int i = 0; i < gN[0]*gN[1]*gN[2]; ++i) p->push_back(gActive[i] ? IntersectionState::inside : IntersectionState::outside);
    return p;
}
Unique<TrimmedDomain> BRepOperator::pGetTrimmedDomain(PointView, PointView, double, IndexType, bool) const { gBad = true; return nullptr; }
bool BRepOperator::IsInside(const PointType&) const { gBad = true; return false; }
bool BRepOperator::IsTrimmed(PointView, PointView, double) const { gBad = true; return false; }
bool BRepOperator::OnBoundedSideOfClippedSection(const PointType&, PointView, PointView) const { gBad = true; return false; }
}
static Unique<MainDictionaryType> condition(IndexType id) {
    auto q = factories::CreateConditionSettings(); q->SetValue(ConditionSettings::condition_id, id); q->SetValue(ConditionSettings::input_filename, std::string("y")); q->CheckRequired(); return q;
}
static EmbeddedModel model() {
    vp::GridSpec g; g.lo = gLo; g.hi = gHi; g.plo = PointType{0,0,0}; g.phi = PointType{1,1,1}; g.n = Vector3i{(IndexType)gN[0], (IndexType)gN[1], (IndexType)gN[2]}; g.order = Vector3i{1,1,1};
    auto s = vp::make_settings(g); (*s)[MainSettings::general_settings].SetValue(GeneralSettings::echo_level, 0u);
    return EmbeddedModel::Create(std::move(s));
}
typedef BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint> Grid; typedef Grid::ConditionContainerType Conditions;
static void checkCondition(const EmbeddedModel& m, int which, IndexType id, const int* pieces, double total) {
    const auto& c = m.GetConditions()[which]; const int N = gN[0]*gN[1]*gN[2];
    int found[32][3] = {}; IndexType want = 0; double active = 0.0;
    for (int i = 0; i < N; ++i) want += pieces[i] > 0;
    vp_ensure("one-segment-per-cell-with-surface", c.NumberOfSegments() == want && c.GetSegments().size() == want);
    for (const auto& s : c.GetSegments()) {
        const auto& t = s.GetTriangleMesh();
        if (t.NumOfTriangles() == 0 || t.NumOfVertices() != 3*t.NumOfTriangles()) { vp_ensure("no-empty-segment", false); return; }
        const int cell = (int)(t.Vertex(0)[0]/100.0);
        if (cell < 0 || cell >= N || (int)t.NumOfTriangles() != pieces[cell]) { vp_ensure("segment-is-clipped-surface", false); return; }
        for (IndexType k = 0; k < t.NumOfTriangles(); ++k) {
            const PointType w = corner(cell, (int)k);
            const auto T = t.Triangle<WithNormals>(k);
            vp_ensure("segment-is-clipped-surface", T.P1[0] == w[0] && T.P1[1] == w[1] && T.P2[0] == w[0] + 1.0 && T.P3[1] == w[1] + 1.0 + cell);
            vp_ensure("orientation-kept", T.Normal[2] == 1.0 && T.Normal[0] == 0.0);
            found[cell][k]++;
        }
        vp_ensure("in-active-element-iff-active", s.IsInActiveElement() == gActive[cell] && s.GetParentElement().has_value() == gActive[cell]);
        if (s.GetParentElement()) {
            const auto& e = *s.GetParentElement(); vp_ensure("stored-with-its-cell", e.GetId() == (IndexType)cell + 1);
            const auto b = e.template GetCellBounds<CoordinateSpace::global>(); const int ijk[3] = {cell % gN[0], (cell/gN[0]) % gN[1], cell/(gN[0]*gN[1])};
            for (int a = 0; a < 3; ++a) { const double h = (gHi[a] - gLo[a])/gN[a]; vp_ensure("stored-with-its-cell", vp_and(vp::eq(b.lower[a], gLo[a] + ijk[a]*h, 1e-9), vp::eq(b.upper[a], gLo[a] + (ijk[a]+1)*h, 1e-9))); }
        }
    }
    for (int i = 0; i < N; ++i) for (int k = 0; k < pieces[i]; ++k) vp_ensure("every-piece-exactly-once", found[i][k] == 1);
    for (int i = 0; i < N; ++i) if (gActive[i]) active += pieces[i]*0.5*(1.0 + i);
    const auto& info = *m.GetModelInfo().GetList(MainInfo::conditions_infos_list)[which];
    vp_ensure("info-id", A::GetValue<IndexType>(info, "condition_id") == id);
    vp_ensure("info-area", vp::near(A::GetValue<double>(info, "surf_area"), total, 1e-9));
    vp_ensure("info-active-area", vp::near(A::GetValue<double>(info, "perc_surf_area_in_active_domain"), active/total*100.0, 1e-7));
    vp_ensure("condition-refers-to-its-info", &c.GetInfo() == &info);
}
// all cells clipped exactly once, boxes half open and without gaps; the lower boundary of the grid belongs to the first cells
static void checkBoxes() {
    const int N = gN[0]*gN[1]*gN[2];
    vp_ensure("only-boxes-of-cells", !gBad);
    for (int i = 0; i < N; ++i) {
        vp_ensure("every-cell-clipped-once", gCalls[i] == 1);
        if (gCalls[i] != 1) return;
        const int ijk[3] = {i % gN[0], (i/gN[0]) % gN[1], i/(gN[0]*gN[1])}; const int step[3] = {1, gN[0], gN[0]*gN[1]};
        for (int a = 0; a < 3; ++a) {
            const double h = (gHi[a] - gLo[a])/gN[a], l = gLo[a] + ijk[a]*h, u = gLo[a] + (ijk[a]+1)*h;
            vp_ensure("clipped-to-own-cell", vp_and(vp::near2(gBox[i].l[a], l, 1e-9, 1e-9), vp::near2(gBox[i].u[a], u, 1e-9, 1e-9)));
            // faces are shared exactly: nothing in between, nothing twice
            if (ijk[a] > 0) vp_ensure("no-gap-between-cells", vp::eq(gBox[i].l[a], gBox[i - step[a]].u[a], 1e-13));
            // (l, u] plus the offset 3e-13 of the callee has to contain the lower boundary with its tolerance of 1e-13
            else vp_ensure("lower-boundary-belongs-to-first-cell", gBox[i].l[a] <= l - 4e-13);
            if (ijk[a] == gN[a] - 1) vp_ensure("upper-boundary-belongs-to-last-cell", gBox[i].u[a] >= u - 1e-13);
        }
    }
}
static void reset(int nx, int ny, int nz) { gN[0] = nx; gN[1] = ny; gN[2] = nz; gBad = false; for (int i = 0; i < 32; ++i) { gPieces[i] = gCalls[i] = 0; gActive[i] = false; } gSize = 0.25; gLo = PointType{0,0,0}; gHi = PointType{1,1,1}; }
static void run(int nx, int ny, int nz, int maxPieces, bool twice, bool fewMasks = false) {
    reset(nx, ny, nz); const int N = nx*ny*nz;
    static const char* pn[8] = {"p0","p1","p2","p3","p4","p5","p6","p7"}; static const char* an[8] = {"a0","a1","a2","a3","a4","a5","a6","a7"};
    const int mask = fewMasks ? (int)vp_case("mask", 0, 2)*2 + 1 : 0;             // 1, 3, 5
    for (int i = 0; i < N; ++i) { gPieces[i] = (int)vp_case(pn[i], 0, maxPieces); gActive[i] = fewMasks ? (mask >> i) & 1 : vp_case(an[i], 0, 1); }
    gLo = PointType{-1.5, 0.0, 2.0}; gHi = PointType{0.5, 3.0, 2.5};
    auto m = model();
    TriangleMesh v; piece(v, 0, 0); m.CreateVolume(v.View());
    for (int i = 0; i < N; ++i) vp_ensure("active-cells", gActive[i] == [&] { for (auto e : m.GetElementViews()) if (e.GetId() == (IndexType)i + 1) return true; return false; }());
    TriangleMesh s; double total = 0; for (int i = 0; i < 3; ++i) { piece(s, i, 0); total += 0.5*(1.0 + i); }
    int first[32]; for (int i = 0; i < 32; ++i) first[i] = gPieces[i];
    auto q = condition(7); m.CreateCondition(s.View(), *q);
    checkBoxes(); vp_ensure("condition-stored", m.GetConditions().size() == 1);
    checkCondition(m, 0, 7, first, total); vp_ensure("condition-refers-to-its-settings", &m.GetConditions()[0].GetSettings() == q.get());
    if (!twice) return;
    // further conditions leave the earlier ones untouched
    for (int i = 0; i < 32; ++i) { gCalls[i] = 0; gPieces[i] = i < N ? (first[i] + 1) % 2 : 0; }
    TriangleMesh s2; piece(s2, 4, 0); auto q2 = condition(3); m.CreateCondition(s2.View(), *q2);
    checkBoxes(); vp_ensure("condition-stored", m.GetConditions().size() == 2);
    checkCondition(m, 0, 7, first, total); checkCondition(m, 1, 3, gPieces, 2.5);
}
//@harness H_cond_two property=P30
VP_HARNESS(H_cond_two) { run(1, 2, 1, 2, false); }
//@harness H_cond_row property=P30
VP_HARNESS(H_cond_row) { run(3, 1, 1, 1, true, true); }
//@harness H_cond_four property=P30 tier=thorough
VP_HARNESS(H_cond_four) { run(1, 2, 2, 1, false); }
// boxes for arbitrary grids
//@harness H_cond_boxes property=P30
VP_HARNESS(H_cond_boxes) {
    reset((int)vp_case("nx", 1, 3), (int)vp_case("ny", 1, 2), (int)vp_case("nz", 1, 2));
    const char* ln[3] = {"lx","ly","lz"}; const char* hn[3] = {"ex","ey","ez"};
    for (int a = 0; a < 3; ++a) { gLo[a] = vp::real(ln[a], -10, 10); gHi[a] = gLo[a] + vp::real(hn[a], 0.5, 10); }
    gPieces[0] = 1;
    auto m = model(); TriangleMesh v; piece(v, 0, 0); m.CreateVolume(v.View());
    auto q = condition(1); m.CreateCondition(v.View(), *q); checkBoxes();
}
