// Bounded native contracts of the readers and writers (P28): written files are parsed again, independent of the code's reader,
// and read back by the code's reader. File streams and text formatting are outside the verifier's reach, so nothing here is proved.
// All files are in a directory made by mkdtemp and removed again.
//@sources queso/io/io_utilities.cpp queso/embedding/aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/geometry_query.cpp queso/embedding/polygon.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/trimmed_domain_on_plane.cpp queso/embedding/trimmed_domain.cpp queso/utilities/mesh_utilities.cpp external_libraries/aabb_tree/AABB_base.cc
//@native_sources queso/embedding/brep_operator.cpp queso/embedding/clipper.cpp queso/embedding/flood_fill.cpp
#include "vp.h"
#include "settings.h"
#include "queso/io/io_utilities.h"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#ifdef VP_NATIVE
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <map>
#include <set>
using namespace queso;
namespace {
struct Dir {
    std::string d, f; Dir() { char t[] = "/tmp/vp_io_XXXXXX"; const char* p = mkdtemp(t); if (!p) throw VpReject{}; d = p; f = d + "/f"; }
    ~Dir() { ::unlink(f.c_str()); ::rmdir(d.c_str()); }
    std::string read() const { std::ifstream i(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
    void write(const std::string& s) const { std::ofstream o(f, std::ios::binary); o.write(s.data(), (long)s.size()); }
};
template<typename F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
typedef std::vector<std::array<PointType, 4>> Tris;      // three vertices, normal
Tris trisOf(const TriangleMesh& m) { Tris r; for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { const auto t = m.Triangle<WithNormals>(i); std::array<PointType, 4> a; for (int k = 0; k < 3; ++k) { a[0][k] = t.P1[k]; a[1][k] = t.P2[k]; a[2][k] = t.P3[k]; a[3][k] = t.Normal[k]; } r.push_back(a); } return r; }
double scale() { static const double s[4] = {1.0, 1e-2, 1e3, 1e5}; return s[vp_case("scale", 0, 3)]; }
unsigned long rnd(unsigned long& s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
// triangles over a pool of vertices on a jittered lattice (vertices are shared, distinct ones are well apart)
TriangleMesh mesh(int n, double sc) {
    TriangleMesh m; unsigned long s = 88172645463325252ul ^ (unsigned long)vp_any_int("seed", 0, 1000000);
    const int pool = n < 8 ? 12 : n/2 + 8; std::vector<PointType> v;
    for (int i = 0; i < pool; ++i) { PointType p; for (int a = 0; a < 3; ++a) p[a] = sc*((double)(rnd(s) % 16001)/1000.0 - 8.0 + 1e-4*(double)(rnd(s) % 7)); v.push_back(p); m.AddVertex(p); }
    if (vp_case("zeros", 0, 1) && n) { for (auto a : {0, 1}) { PointType z{0.0, -0.0, 0.0}; (void)z; (void)a; } }
    for (int i = 0; i < n; ++i) { IndexType a, b, c; Vector3d N; double l;
        int tries = 0; do { a = rnd(s) % pool; b = rnd(s) % pool; c = rnd(s) % pool; N = Math::Cross(v[b] - v[a], v[c] - v[a]); l = Math::Norm(N); } while ((a == b || b == c || a == c || l < 1e-3*sc*sc) && ++tries < 100);
        if (tries >= 100) throw VpReject{};
        N *= 1.0/l; m.AddTriangle(Vector3i{a, b, c}, N); }
    return m;
}
int count() { const long k = vp_case("size", 0, 39); return k < 32 ? (int)(k % 8) : k < 39 ? (int)vp_any_int("n", 8, 200) : (int)vp_any_int("N", 20960, 43000); }
void checkTris(const Tris& got, const Tris& want, double tol, double ntol, const char* label) {
    vp_ensure("number-of-triangles", got.size() == want.size()); if (got.size() != want.size()) return;
    bool ok = true, nok = true;
    for (std::size_t i = 0; i < got.size(); ++i) for (int k = 0; k < 4; ++k) for (int a = 0; a < 3; ++a) { const double d = std::abs(got[i][k][a] - want[i][k][a]); if (k < 3) ok = ok && d <= tol*(1.0 + 0.0*d); else nok = nok && d <= ntol; }
    vp_ensure(label, ok); vp_ensure("normals", nok);
}
// independent parsers
Tris parseBinarySTL(const std::string& s) {
    Tris r; if (s.size() < 84) return r; std::uint32_t n; std::memcpy(&n, s.data() + 80, 4);
    vp_ensure("file-size", s.size() == 84 + 50ul*n); if (s.size() != 84 + 50ul*n) return r;
    for (std::uint32_t i = 0; i < n; ++i) { float f[12]; std::memcpy(f, s.data() + 84 + 50ul*i, 48); std::array<PointType, 4> a; for (int k = 0; k < 3; ++k) { a[3][k] = f[k]; for (int v = 0; v < 3; ++v) a[v][k] = f[3 + 3*v + k]; } r.push_back(a); }
    return r;
}
Tris parseAsciiSTL(const std::string& s) {
    Tris r; std::istringstream i(s); std::string w, x; i >> w >> x; bool ok = w == "solid";
    while (i >> w && w == "facet") { std::array<PointType, 4> a; i >> w; ok = ok && w == "normal"; for (int k = 0; k < 3; ++k) i >> a[3][k]; i >> w >> x; ok = ok && w == "outer" && x == "loop";
        for (int v = 0; v < 3; ++v) { i >> w; ok = ok && w == "vertex"; for (int k = 0; k < 3; ++k) i >> a[v][k]; } i >> w >> x; ok = ok && w == "endloop" && x == "endfacet" && i; r.push_back(a); }
    vp_ensure("well-formed-ascii", ok && w == "endsolid"); return r;
}
struct Vtk { std::vector<PointType> p; std::vector<std::vector<long>> c; std::vector<long> t; std::vector<double> w; bool ok = true, data = false; };
Vtk parseVtk(const std::string& s, bool bin) {
    Vtk r; std::size_t pos = 0; auto line = [&] { const std::size_t e = s.find('\n', pos); if (e == std::string::npos) { r.ok = false; return std::string(); } std::string l = s.substr(pos, e - pos); pos = e + 1; return l; };
    auto num = [&](const std::string& l, int k) { std::istringstream i(l); std::string w; for (int j = 0; j <= k; ++j) i >> w; return std::atol(w.c_str()); };
    auto be = [&](void* o, int n) { if (pos + n > s.size()) { r.ok = false; std::memset(o, 0, n); return; } for (int k = 0; k < n; ++k) ((char*)o)[k] = s[pos + n - 1 - k]; pos += n; };
    auto text = [&] { while (pos < s.size() && std::isspace((unsigned char)s[pos])) ++pos; std::size_t e = pos; while (e < s.size() && !std::isspace((unsigned char)s[e])) ++e; std::string w = s.substr(pos, e - pos); pos = e; if (w.empty()) r.ok = false; return w; };
    auto real = [&] { double d = 0; if (bin) be(&d, 8); else d = std::atof(text().c_str()); return d; };
    auto inte = [&] { std::uint32_t d = 0; if (bin) be(&d, 4); else d = (std::uint32_t)std::atol(text().c_str()); return (long)d; };
    auto skip = [&] { if (!bin) while (pos < s.size() && std::isspace((unsigned char)s[pos])) ++pos; };
    r.ok = line() == "# vtk DataFile Version 4.1"; line(); r.ok = line() == (bin ? "BINARY" : "ASCII") && r.ok; r.ok = line() == "DATASET UNSTRUCTURED_GRID" && r.ok;
    std::string l = line(); r.ok = r.ok && l.rfind("POINTS ", 0) == 0 && l.find(" double") != std::string::npos; if (!r.ok) return r;
    const long np = num(l, 1); for (long i = 0; i < np && r.ok; ++i) { PointType p; for (int a = 0; a < 3; ++a) p[a] = real(); r.p.push_back(p); } skip();
    l = line(); r.ok = r.ok && l.rfind("CELLS ", 0) == 0; if (!r.ok) return r;
    const long nc = num(l, 1), sz = num(l, 2); long used = 0;
    for (long i = 0; i < nc && r.ok; ++i) { const long k = inte(); std::vector<long> c; if (k < 0 || k > 100) { r.ok = false; return r; } for (long j = 0; j < k; ++j) c.push_back(inte()); used += k + 1; r.c.push_back(c); } skip(); r.ok = r.ok && used == sz;
    l = line(); r.ok = r.ok && l.rfind("CELL_TYPES ", 0) == 0 && num(l, 1) == nc; if (!r.ok) return r;
    for (long i = 0; i < nc && r.ok; ++i) r.t.push_back(inte()); skip();
    if (pos < s.size()) { l = line(); r.ok = r.ok && l.rfind("POINT_DATA ", 0) == 0 && num(l, 1) == np; l = line(); r.ok = r.ok && l == "SCALARS Weights double 1"; l = line(); r.ok = r.ok && l == "LOOKUP_TABLE default"; r.data = true; for (long i = 0; i < np && r.ok; ++i) r.w.push_back(real()); skip(); }
    r.ok = r.ok && pos == s.size(); return r;
}
std::size_t distinct(const Tris& t) { std::set<std::array<float, 3>> s; for (auto& a : t) for (int v = 0; v < 3; ++v) s.insert({(float)a[v][0] + 0.0f, (float)a[v][1] + 0.0f, (float)a[v][2] + 0.0f}); return s.size(); }
typedef BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint> Grid; typedef Grid::ElementFilter Filter;
struct UB { static constexpr Filter Builds = Filter::untrimmed; std::vector<IntegrationPoint> p; std::optional<Grid::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { auto q = p; return Grid::UntrimmedElementType(id, b, std::move(q)); } };
struct TB { static constexpr Filter Builds = Filter::trimmed; std::vector<IntegrationPoint> p; std::optional<Grid::TrimmedElementType> Build(IndexType id, const ElementBounds& b) { auto q = p; return Grid::TrimmedElementType(id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, nullptr), std::move(q)); } };
void addFrom(TriangleMesh& m, const std::array<PointType, 4>& t) { const IndexType b = m.NumOfVertices(); for (int v = 0; v < 3; ++v) m.AddVertex(t[v]); m.AddTriangle(Vector3i{b, b+1, b+2}, t[3]); }
}
#endif
//@harness H_stl_roundtrip property=P28 mode=native native=15
VP_HARNESS(H_stl_roundtrip) {
#ifdef VP_NATIVE
    Dir d; const double sc = scale(); const bool bin = vp_case("binary", 0, 1); const int n = count(); const TriangleMesh m = mesh(n, sc); const Tris want = trisOf(m);
    IO::WriteMeshToSTL(m, d.f, bin ? IO::EncodingType::binary : IO::EncodingType::ascii);
    const Tris file = bin ? parseBinarySTL(d.read()) : parseAsciiSTL(d.read()); const double tol = bin ? 8.1*sc*6.0e-8 : 0.5000001e-6 + 8.1*sc*1e-15;
    checkTris(file, want, tol, bin ? 6.1e-8 : 0.51e-6, "file-lists-triangles");
    if (!bin && sc < 0.1) return;                                           // six digits after the point: shape is lost for small models
    TriangleMesh r; if (vp_case("used", 0, 1)) { r.AddVertex(PointType{1,2,3}); r.AddVertex(PointType{1,2,4}); r.AddVertex(PointType{1,3,3}); r.AddTriangle(Vector3i{0,1,2}, Vector3d{1,0,0}); }
    IO::ReadMeshFromSTL(r, d.f); const double rt = tol + 8.1*sc*6.0e-8; Tris got = trisOf(r);
    checkTris(got, want, rt, 1e-1, "read-back-same-triangles");
    bool unit = true; for (auto& t : got) { Vector3d N = Math::Cross(t[1] - t[0], t[2] - t[0]); N *= 1.0/Math::Norm(N); for (int a = 0; a < 3; ++a) unit = unit && std::abs(N[a] - t[3][a]) < 1e-9; }
    vp_ensure("normals-of-read-triangles", unit); vp_ensure("vertices-shared", r.NumOfVertices() == distinct(got) && r.NumOfVertices() == distinct(file));
#endif
}
//@harness H_stl_malformed property=P28 mode=native native=10
VP_HARNESS(H_stl_malformed) {
#ifdef VP_NATIVE
    Dir d; const bool bin = vp_case("binary", 0, 1); const int n = (int)vp_any_int("n", 1, 6); const TriangleMesh m = mesh(n, 1.0); TriangleMesh r;
    IO::WriteMeshToSTL(m, d.f, bin ? IO::EncodingType::binary : IO::EncodingType::ascii); std::string s = d.read();
    if (vp_case("missing", 0, 20) == 0) { vp_ensure("missing-file-rejected", throws([&] { IO::ReadMeshFromSTL(r, d.d + "/nothing"); }) && throws([&] { IO::WriteMeshToSTL(m, d.d + "/no/where", IO::EncodingType::ascii); })); return; }
    if (bin) { const std::size_t cut = (std::size_t)vp_any_int("cut", 0, 83 + 50*n); d.write(s.substr(0, cut)); vp_ensure("truncated-binary-rejected", throws([&] { IO::ReadMeshFromSTL(r, d.f); })); return; }
    std::vector<std::string> L; { std::istringstream i(s); std::string l; while (std::getline(i, l)) L.push_back(l); }
    const int t = (int)vp_any_int("t", 0, 5) % n, kind = (int)vp_case("kind", 0, 8), v = (int)vp_case("v", 0, 2); const std::size_t b = 1 + 7ul*t;     // first line of the facet
    std::string& x = L[b + 2 + v]; std::istringstream i(x); std::string w[4]; for (auto& q : w) i >> q;
    switch (kind) {
        case 0: x = w[0] + " " + w[1] + " " + w[2]; break;                    // coordinate missing
        case 1: w[1 + (t % 3)] = "abc"; x = w[0] + " " + w[1] + " " + w[2] + " " + w[3]; break;
        case 2: x = "vertex"; break;
        case 3: L.erase(L.begin() + (long)(b + 2 + v)); break;                // vertex missing
        case 4: L[b + 1] = "inner"; break;
        case 5: L[b + 5] = "vertex 1 2 3"; break;                            // four vertices
        case 6: L[b + 6] = "facet normal 0 0 1"; break;                      // not closed
        case 7: L.resize(b + 1 + (std::size_t)v*2); break;                    // truncated in the facet
        case 8: x = "corner " + w[1] + " " + w[2] + " " + w[3]; break;
    }
    std::string o; for (auto& l : L) o += l + "\n"; d.write(o);
    vp_ensure("malformed-ascii-rejected", throws([&] { IO::ReadMeshFromSTL(r, d.f); }));
#endif
}
// files of other programs: binary with a header that starts with "solid", ascii with blanks, exponents and names
//@harness H_stl_foreign property=P28 mode=native native=10
VP_HARNESS(H_stl_foreign) {
#ifdef VP_NATIVE
    Dir d; const double sc = scale(); const int n = (int)vp_any_int("n", 0, 30); const TriangleMesh m = mesh(n, sc); const Tris want = trisOf(m); TriangleMesh r; std::string s;
    const int kind = (int)vp_case("kind", 0, 3);
    if (kind < 2) { s.assign(80, kind ? ' ' : '\0'); const char* h = vp_case("solid", 0, 1) ? "solid part" : "exported"; s.replace(0, std::strlen(h), h);
        std::uint32_t k = (std::uint32_t)n; s.append((char*)&k, 4); for (auto& t : want) { float f[12]; for (int a = 0; a < 3; ++a) { f[a] = 0; for (int v = 0; v < 3; ++v) f[3+3*v+a] = (float)t[v][a]; } s.append((char*)f, 48); s.append(2, '\0'); } }
    else { char q[200]; s = kind == 2 ? "solid\n" : "solid  part 1\r\n"; const char* e = kind == 2 ? "\n" : "\r\n";
        for (auto& t : want) { s += std::string("  facet normal 0 0 0") + e + "    outer loop" + e; for (int v = 0; v < 3; ++v) { std::snprintf(q, 200, "      vertex   %.9e  %.9e\t%.9e%s", t[v][0], t[v][1], t[v][2], e); s += q; } s += std::string("    endloop") + e + "  endfacet" + e; }
        s += std::string("endsolid") + e; }
    d.write(s); IO::ReadMeshFromSTL(r, d.f); checkTris(trisOf(r), want, 8.1*sc*6.1e-8, 1e-1, "read-triangles");
#endif
}
//@harness H_vtk_mesh property=P28 mode=native native=10
VP_HARNESS(H_vtk_mesh) {
#ifdef VP_NATIVE
    Dir d; const double sc = scale(); const bool bin = vp_case("binary", 0, 1); const int n = count(); const TriangleMesh m = mesh(n, sc); const Tris want = trisOf(m);
    IO::WriteMeshToVTK(m, d.f, bin ? IO::EncodingType::binary : IO::EncodingType::ascii); const Vtk v = parseVtk(d.read(), bin);
    vp_ensure("well-formed-vtk", v.ok && !v.data); if (!v.ok) return; vp_ensure("number-of-triangles", v.c.size() == want.size()); if (v.c.size() != want.size()) return;
    bool ok = true, type = true; for (std::size_t i = 0; i < want.size(); ++i) { type = type && v.t[i] == 5 && v.c[i].size() == 3; if (!type) break; for (int k = 0; k < 3; ++k) { const long p = v.c[i][k]; if (p < 0 || p >= (long)v.p.size()) { ok = false; break; } for (int a = 0; a < 3; ++a) ok = ok && std::abs(v.p[p][a] - want[i][k][a]) <= (bin ? 0.0 : 0.51e-15 + 8.1*sc*2.3e-16); } }
    vp_ensure("cell-types", type); vp_ensure("file-lists-triangles", ok);
#endif
}
//@harness H_vtk_grid property=P28 mode=native native=10
VP_HARNESS(H_vtk_grid) {
#ifdef VP_NATIVE
    Dir d; const bool bin = vp_case("binary", 0, 1), points = vp_case("points", 0, 1); const auto enc = bin ? IO::EncodingType::binary : IO::EncodingType::ascii; const double sc = scale();
    vp::GridSpec g; g.n = Vector3i{(IndexType)vp_any_int("nx", 1, 4), (IndexType)vp_any_int("ny", 1, 4), (IndexType)vp_any_int("nz", 1, 4)};
    for (int a = 0; a < 3; ++a) { static const char* ln[3] = {"lx","ly","lz"}; static const char* hn[3] = {"ex","ey","ez"}; g.lo[a] = sc*vp::real(ln[a], -5, 5); g.hi[a] = g.lo[a] + sc*vp::real(hn[a], 0.5, 5); g.plo[a] = -1.0 - a; g.phi[a] = 2.0 + a; } g.bspline = vp_case("bspline", 0, 1);
    auto s = vp::make_settings(g); Grid grid(*s); GridIndexer gi(*s); unsigned long seed = 77123u + (unsigned long)vp_any_int("seed", 0, 1000000);
    const std::size_t N = g.n[0]*g.n[1]*g.n[2]; std::vector<int> kind(N); std::vector<std::vector<IntegrationPoint>> ips(N); UB ub; TB tb; const bool full = vp_case("full", 0, 3) == 0;
    for (std::size_t i = 0; i < N; ++i) { kind[i] = full ? 1 : (int)(rnd(seed) % 3); if (!kind[i]) continue; const auto uvw = gi.GetBoundingBoxUVWFromIndex(i); const int np = (int)(rnd(seed) % 4);
        for (int k = 0; k < np; ++k) { double q[3]; for (int a = 0; a < 3; ++a) q[a] = uvw.lower[a] + (uvw.upper[a] - uvw.lower[a])*(double)(rnd(seed) % 1000)/1000.0; ips[i].push_back(IntegrationPoint(q[0], q[1], q[2], 0.001*(double)(rnd(seed) % 1000))); }
        ub.p = tb.p = ips[i]; const ElementBounds b{gi.GetBoundingBoxXYZFromIndex(i), uvw}; if (kind[i] == 1) grid.MakeElement(ub, i + 1, b); else grid.MakeElement(tb, i + 1, b); }
    grid.LockElements(); if (points) IO::WritePointsToVTK(grid, d.f, enc); else IO::WriteElementsToVTK(grid, d.f, enc);
    const Vtk v = parseVtk(d.read(), bin); vp_ensure("well-formed-vtk", v.ok && v.data == points); if (!v.ok) return;
    const double tol = sc*1e-12 + 1e-15; bool ok = true; std::size_t at = 0, want = 0;
    std::vector<IndexType> order; for (auto e : grid.GetElementViews()) order.push_back(e.GetId() - 1);
    for (auto i : order) want += points ? ips[i].size() : 1; vp_ensure("number-of-cells", v.c.size() == want && order.size() == (std::size_t)std::count_if(kind.begin(), kind.end(), [](int k) { return k > 0; })); if (v.c.size() != want) return;
    for (auto i : order) {
        const auto b = gi.GetBoundingBoxXYZFromIndex(i), u = gi.GetBoundingBoxUVWFromIndex(i);
        if (!points) { ok = ok && v.t[at] == 12 && v.c[at].size() == 8; if (!ok) break;
            static const int c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
            for (int k = 0; k < 8; ++k) { const long p = v.c[at][k]; if (p < 0 || p >= (long)v.p.size()) { ok = false; break; } for (int a = 0; a < 3; ++a) ok = ok && std::abs(v.p[p][a] - (c[k][a] ? b.upper[a] : b.lower[a])) <= tol; } ++at; }
        else for (auto& q : ips[i]) { ok = ok && v.t[at] == 1 && v.c[at].size() == 1 && v.c[at][0] >= 0 && v.c[at][0] < (long)v.p.size(); if (!ok) break; const long p = v.c[at][0]; double det = 1.0;
            for (int a = 0; a < 3; ++a) { const double x = b.lower[a] + (q[a] - u.lower[a])/(u.upper[a] - u.lower[a])*(b.upper[a] - b.lower[a]); det *= (b.upper[a] - b.lower[a])/(u.upper[a] - u.lower[a]); ok = ok && std::abs(v.p[p][a] - x) <= tol; }
            ok = ok && std::abs(v.w[p] - q.Weight()*det) <= 1e-12*std::abs(det) + 1e-15; ++at; }
    }
    vp_ensure(points ? "file-lists-points" : "file-lists-boxes", ok);
#endif
}
//@harness H_stl_condition property=P28 mode=native native=5
VP_HARNESS(H_stl_condition) {
#ifdef VP_NATIVE
    Dir d; const bool bin = vp_case("binary", 0, 1); const int n = (int)vp_any_int("n", 0, 40); const TriangleMesh m = mesh(n, 1.0); const Tris want = trisOf(m); Tris order;
    auto cs = factories::CreateConditionSettings(); auto ci = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionInfo"); typedef Grid::ElementViewType EV; Condition<EV> c(*cs, *ci);
    std::size_t at = 0; unsigned long s = 4711u + (unsigned long)vp_any_int("split", 0, 1000); while (at < want.size()) { ClippedTriangleMesh q{}; const std::size_t k = std::min<std::size_t>(want.size() - at, 1 + rnd(s) % 5); for (std::size_t i = 0; i < k; ++i) { addFrom(q.Mesh(), want[at]); order.push_back(want[at++]); } c.AddSegment(Condition<EV>::ConditionSegmentType(at, std::move(q))); }
    IO::WriteConditionToSTL(c, d.f, bin ? IO::EncodingType::binary : IO::EncodingType::ascii);
    checkTris(bin ? parseBinarySTL(d.read()) : parseAsciiSTL(d.read()), order, bin ? 5e-7 : 0.51e-6, 1e-6, "file-lists-triangles");
#endif
}
