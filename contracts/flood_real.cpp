// Bounded native counterpart of flood.cpp with the real operator: all cells together against each cell alone (P19).
//@sources queso/embedding/flood_fill.cpp
//@native_sources queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc
#include "vp.h"
#include "settings.h"
#include <omp.h>
#include "queso/embedding/brep_operator.h"
#include "queso/containers/grid_indexer.hpp"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
// mode 0: general position, 1: faces of the body on cell faces, 2: grid inside of the body, 3: body cut by the end of the grid
//@harness H_flood_real property=P19 mode=native native=15
VP_HARNESS(H_flood_real) {
    const long mode = vp_case("mode", 0, 3), kind = vp_case("kind", 0, 1), threads = vp_case("threads", 1, 4);
    const Vector3i n{(IndexType)vp_any_int("nx", 1, 6), (IndexType)vp_any_int("ny", 1, 6), (IndexType)vp_any_int("nz", 1, 6)};
    PointType lo, hi; const char* nm[9] = {"x0","y0","z0","ex","ey","ez","ox","oy","oz"};
    for (int a = 0; a < 3; ++a) { lo[a] = vp::real(nm[a], -5, 5); hi[a] = lo[a] + vp::real(nm[3+a], 0.5, 3); }
    PointType glo, ghi;
    for (int a = 0; a < 3; ++a) {
        const double L = hi[a] - lo[a], o = vp::real(nm[6+a], 0.05, 0.45);
        if (mode == 0) { glo[a] = lo[a] - o*L; ghi[a] = hi[a] + (0.5 - o)*L; }
        else if (mode == 1) { glo[a] = lo[a] - L; ghi[a] = hi[a] + L; }                        // cells of length L: 3, 6
        else if (mode == 2) { glo[a] = lo[a] + 0.1*L; ghi[a] = hi[a] - o*L; }
        else { glo[a] = lo[a] + (a == 0 ? o*L : -0.2*L); ghi[a] = hi[a] + (a == 1 ? -o*L : 0.3*L); }
    }
    Vector3i m = n; if (mode == 1) for (int a = 0; a < 3; ++a) m[a] = n[a] > 3 ? 6 : 3;
    Unique<TriangleMesh> p;
    if (kind == 0) p = MakeUnique<TriangleMesh>(MeshUtilities::MakeMeshBox(lo, hi));
    else {
        if (mode == 2) return;
        p = MakeUnique<TriangleMesh>();
        const double e[4][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; PointType v[4];
        for (int i = 0; i < 4; ++i) { for (int a = 0; a < 3; ++a) v[i][a] = lo[a] + e[i][a]*(hi[a] - lo[a]); p->AddVertex(v[i]); }
        const IndexType t[4][3] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}};
        for (auto& f : t) { Vector3d N = Math::Cross(v[f[1]] - v[f[0]], v[f[2]] - v[f[0]]); N *= 1.0/Math::Norm(N); p->AddTriangle({f[0], f[1], f[2]}, N); }
    }
    vp::GridSpec g; g.lo = glo; g.hi = ghi; g.plo = PointType{0,0,0}; g.phi = PointType{1,1,1}; g.n = m;
    auto s = vp::make_settings(g);
    BRepOperator op(*p);
    omp_set_num_threads(threads);
    auto r = op.pGetElementClassifications(*s);
    omp_set_num_threads(1);
    GridIndexer gi(*s);
    bool same = r->size() == gi.NumberOfElements();
    for (IndexType i = 0; same && i < gi.NumberOfElements(); ++i) { const auto b = gi.GetBoundingBoxXYZFromIndex(i); same = (*r)[i] == op.GetIntersectionState(b.lower, b.upper); }
    vp_ensure("together-as-alone", same);
}
