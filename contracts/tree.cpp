// Contracts of the bounding-volume tree (P17): representation invariant after every insertion, query complete and duplicate free.
#include "vp.h"
#include "queso/includes/define.hpp"
#include "queso/containers/triangle_mesh.hpp"
#include "queso/embedding/aabb_tree.h"
#include "queso/embedding/aabb_primitive.h"
#include "queso/embedding/ray_aabb_primitive.h"
#include "queso/embedding/geometry_query.h"
//@sources queso/embedding/aabb_primitive.cpp queso/embedding/ray_aabb_primitive.cpp queso/embedding/aabb_tree.cpp queso/embedding/geometry_query.cpp external_libraries/aabb_tree/AABB_base.cc
using namespace queso;
typedef std::array<PointType, 3> T;
typedef std::vector<T> TV;
static TriangleMesh mesh(const TV& t) {
    TriangleMesh m;
    for (std::size_t i = 0; i < t.size(); ++i) { for (int v = 0; v < 3; ++v) m.AddVertex(t[i][v]); m.AddTriangle({(IndexType)(3*i), (IndexType)(3*i+1), (IndexType)(3*i+2)}, Vector3d{0,0,1}); }
    return m;
}
static double lo(const T& t, int d) { return vp::min(t[0][d], vp::min(t[1][d], t[2][d])); }
static double hi(const T& t, int d) { return vp::max(t[0][d], vp::max(t[1][d], t[2][d])); }
// Every triangle is in exactly one leaf, below the root, and every node on the way up contains its box.
static void invariant(const AABB_tree& tree, const TV& t) {
    const auto& n = tree.Nodes();
    std::vector<int> seen(t.size(), 0);
    std::vector<IndexType> st; st.push_back(tree.Root());
    std::size_t visited = 0;
    while (!st.empty() && visited <= 4*t.size()) {
        const IndexType k = st.back(); st.pop_back(); ++visited;
        vp_ensure("node-index-valid", k < n.size());
        if (k >= n.size()) return;
        if (n[k].isLeaf()) {
            const unsigned p = n[k].particle;
            vp_ensure("leaf-is-a-triangle", p < t.size());
            if (p >= t.size()) return;
            seen[p]++;
            for (int d = 0; d < 3; ++d) vp_ensure("leaf-box-is-triangle-box", vp_and(vp::eq(n[k].aabb_base.lowerBound[d], lo(t[p], d)), vp::eq(n[k].aabb_base.upperBound[d], hi(t[p], d))));
        } else {
            for (IndexType c : {(IndexType)n[k].left, (IndexType)n[k].right}) {
                vp_ensure("child-index-valid", c < n.size()); if (c >= n.size()) return;
                vp_ensure("child-knows-parent", n[c].parent == k);
                for (int d = 0; d < 3; ++d) vp_ensure("node-box-contains-child-box", vp_and(n[k].aabb_base.lowerBound[d] <= n[c].aabb_base.lowerBound[d], n[c].aabb_base.upperBound[d] <= n[k].aabb_base.upperBound[d]));
                st.push_back(c);
            }
        }
    }
    for (int s : seen) vp_ensure("every-triangle-in-one-leaf", s == 1);
}
// Query by box: exactly the triangles whose box meets the query, each once.
static void query_box(const AABB_tree& tree, const TV& t, const PointType& l, const PointType& u, double margin = 0) {
    const auto r = tree.Query(AABB_primitive(l, u));
    std::vector<int> seen(t.size(), 0);
    for (auto i : r) { vp_ensure("result-is-a-triangle", i < t.size()); if (i >= t.size()) return; seen[i]++; }
    for (std::size_t i = 0; i < t.size(); ++i) {
        bool meets = true, far = false;
        for (int d = 0; d < 3; ++d) {
            meets = vp_and(meets, vp_and(lo(t[i], d) + margin <= u[d], l[d] + margin <= hi(t[i], d)));
            far = vp_or(far, vp_or(lo(t[i], d) - margin > u[d], l[d] - margin > hi(t[i], d)));
        }
        vp_ensure("no-candidate-lost", vp_imp(meets, seen[i] == 1));
        vp_ensure("no-candidate-twice", seen[i] <= 1);
        vp_ensure("no-foreign-candidate", vp_imp(far, seen[i] == 0));
    }
}
static void outside_test(const AABB_tree& tree, const TV& t, const PointType& x) {
    PointType l = {lo(t[0],0), lo(t[0],1), lo(t[0],2)}, u = {hi(t[0],0), hi(t[0],1), hi(t[0],2)};
    bool in = true;
    for (int d = 0; d < 3; ++d) { for (const auto& a : t) { l[d] = vp::min(l[d], lo(a, d)); u[d] = vp::max(u[d], hi(a, d)); } in = vp_and(in, vp_and(l[d] <= x[d], x[d] <= u[d])); }
    vp_ensure("within-box-iff-in-common-box", tree.IsWithinBoundingBox(x) == in);
}
//@harness H_tree_one property=P17 opts="--br-timeout 0.3" max=200
VP_HARNESS(H_tree_one) {
    TV t(1); t[0] = T{vp::point("ax","ay","az",-10,10), vp::point("bx","by","bz",-10,10), vp::point("cx","cy","cz",-10,10)};
    auto m = mesh(t); AABB_tree tree(m.View());
    invariant(tree, t);
    outside_test(tree, t, vp::point("px","py","pz",-12,12));
}
// boxes with symbolic position; the insertion order and all cost decisions are covered by the case split of the verifier
//@harness H_tree_three property=P17 opts="--br-timeout 0.3 --merge min_element|max_element|minmax" max=300
VP_HARNESS(H_tree_three) {
    TV t(3);
    t[0] = T{PointType{0,0,0}, PointType{1,0,2}, PointType{0,1,1}};
    t[1] = T{vp::point("ax","ay","az",-10,10), PointType{0,0,0}, PointType{0,0,0}};
    for (int d = 0; d < 3; ++d) { t[1][1][d] = t[1][0][d] + (d == 0 ? 1.0 : 0.5); t[1][2][d] = t[1][0][d] + (d == 0 ? 0.0 : 1.0); }
    t[2] = T{PointType{3,3,3}, PointType{4,5,6}, PointType{3,4,7}};
    auto m = mesh(t); AABB_tree tree(m.View());
    invariant(tree, t);
}
static TV family(long c) {
    TV t;
    auto add = [&](double x, double y, double z, double a, double b, double e) { t.push_back(T{PointType{x,y,z}, PointType{x+a,y,z+e}, PointType{x,y+b,z}}); };
    if (c == 0) for (int i = 0; i < 9; ++i) add(i, 0, 0, 1, 1, 0);                                       // sorted row: rotations on every level
    if (c == 1) for (int i = 8; i >= 0; --i) add(0, 2*i, 0, 1, 1, 1);                                    // reverse sorted
    if (c == 2) for (int i = 0; i < 8; ++i) add(3*(i%2), 3*((i/2)%2), 3*(i/4), 1, 2, 1);                 // grid
    if (c == 3) for (int i = 0; i < 7; ++i) add(-i, -i, -i, 2*i+1, 2*i+1, 2*i+1);                        // nested
    if (c == 4) { const int p[10] = {5,0,9,2,7,1,8,3,6,4}; for (int i = 0; i < 10; ++i) add(p[i], p[(i+3)%10], p[(i+7)%10], 0.5, 0.25, 4); }
    if (c == 5) for (int i = 0; i < 5; ++i) add(1, 1, 1, 1, 1, 1);                                       // coincident
    if (c == 6) { add(0,0,0,1,1,0); add(1,0,0,1,1,0); add(0,1,0,1,1,0); add(100,0,0,1,1,0); add(-50,3,2,1,1,7); add(0.5,0.5,0.5,0,0,0); }  // degenerate boxes
    return t;
}
//@harness H_tree_invariant property=P17
VP_HARNESS(H_tree_invariant) {
    const auto t = family(vp_case("family", 0, 6));
    TV s;
    for (const auto& a : t) { s.push_back(a); auto m = mesh(s); AABB_tree tree(m.View()); invariant(tree, s); }
}
// more than the initial node pool (16): the pool is reallocated while the tree is linked
//@harness H_tree_growth property=P17
VP_HARNESS(H_tree_growth) {
    const long n = vp_case("n", 0, 5); const int cnt[6] = {8, 9, 16, 17, 33, 40};
    TV t;
    for (int i = 0; i < cnt[n]; ++i) { const int a = (i*7)%41, b = (i*11)%43, e = (i*13)%37; t.push_back(T{PointType{(double)a,(double)b,(double)e}, PointType{a+1.0,b+0.5,e+0.0}, PointType{a+0.0,b+1.0,e+2.0}}); }
    auto m = mesh(t); AABB_tree tree(m.View());
    invariant(tree, t);
    query_box(tree, t, PointType{10,10,-1}, PointType{30,25,100});
    query_box(tree, t, PointType{-1,-1,-1}, PointType{100,100,100});
}
//@harness H_tree_query property=P17 opts="--br-timeout 0.3" max=200
VP_HARNESS(H_tree_query) {
    const auto t = family(vp_case("family", 0, 6));
    auto m = mesh(t); AABB_tree tree(m.View());
    PointType l = vp::point("lx","ly","lz",-60,110); const int ax = (int)vp_case("axis", 0, 2);
    PointType u{l[0]+1, l[1]+1, l[2]+1};
    for (int d = 0; d < 3; ++d) if (d != ax) { l[d] = -1000; u[d] = 1000; }
    u[ax] = l[ax] + vp::real("s", 0, 50);
    query_box(tree, t, l, u);
}
//@harness H_tree_query_full property=P17 tier=thorough opts="--br-timeout 0.3" max=800
VP_HARNESS(H_tree_query_full) {
    const auto t = family(2 * vp_case("family", 1, 3));
    auto m = mesh(t); AABB_tree tree(m.View());
    PointType l = vp::point("lx","ly","lz",-60,110), s = vp::point("sx","sy","sz",0,50);
    query_box(tree, t, l, PointType{l[0]+s[0], l[1]+s[1], l[2]+s[2]});
}
//@harness H_tree_outside property=P17 opts="--br-timeout 0.3" max=200
VP_HARNESS(H_tree_outside) {
    const auto t = family(vp_case("family", 0, 6));
    auto m = mesh(t); AABB_tree tree(m.View());
    outside_test(tree, t, vp::point("px","py","pz",-120,120));
    GeometryQuery q(m, false);
    PointType p = vp::point("qx","qy","qz",-120,120);
    vp_ensure("query-object-agrees", q.IsWithinBoundingBox(p) == tree.IsWithinBoundingBox(p));
}
// no triangles: nothing is found
//@harness H_tree_empty property=P17
VP_HARNESS(H_tree_empty) {
    TriangleMesh m; AABB_tree tree(m.View());
    vp_ensure("empty-query", tree.Query(AABB_primitive(PointType{-1,-1,-1}, PointType{1,1,1})).empty());
    vp_ensure("empty-outside", !tree.IsWithinBoundingBox(vp::point("px","py","pz",-120,120)));
    GeometryQuery q(m, true);
    vp_ensure("empty-does-not-intersect", !q.DoIntersect(PointType{-1,-1,-1}, PointType{1,1,1}, 0.0));
}
// a ray: no triangle it hits is lost
//@harness H_tree_ray property=P17 opts="--br-timeout 0.3" max=300
VP_HARNESS(H_tree_ray) {
    const auto t = family(vp_case("family", 0, 4));
    const std::size_t k = (std::size_t)vp_case("target", 0, 6);
    auto m = mesh(t); AABB_tree tree(m.View());
    PointType c; for (int d = 0; d < 3; ++d) c[d] = 0.5*t[k][0][d] + 0.25*t[k][1][d] + 0.25*t[k][2][d];
    const double s[3] = {vp::real("t", 0.1, 20), 1.0, 0}; 
    const long dc = vp_case("dir", 0, 3);
    const double dirs[4][3] = {{1,2,3}, {3,1,0.5}, {1,-1,2}, {-2,-1,-1}};
    Vector3d dir{dirs[dc][0], dirs[dc][1], dirs[dc][2]};
    PointType o; for (int d = 0; d < 3; ++d) o[d] = c[d] - s[0]*dir[d];
    Ray_AABB_primitive ray(o, dir);
    const auto r = tree.Query(ray);
    int cnt = 0; std::vector<int> seen(t.size(), 0);
    for (auto i : r) { vp_ensure("result-is-a-triangle", i < t.size()); if (i >= t.size()) return; seen[i]++; if (i == k) ++cnt; }
    vp_ensure("hit-triangle-is-candidate", cnt == 1);
    for (int q : seen) vp_ensure("no-candidate-twice", q <= 1);
}
// bounded companion: random triangle sets
//@harness H_tree_random property=P17 mode=native native=5
VP_HARNESS(H_tree_random) {
    const int n = (int)vp_any_int("n", 1, 60);
    TV t; const double sc = vp::real("sc", 0, 4);
    for (int i = 0; i < n; ++i) { PointType p = vp::point("x","y","z",-8,8); T a; a[0] = p; for (int v = 1; v < 3; ++v) { PointType e = vp::point("ex","ey","ez",-1,1); for (int d = 0; d < 3; ++d) a[v][d] = p[d] + sc*e[d]; } t.push_back(a); }
    auto m = mesh(t); AABB_tree tree(m.View());
    invariant(tree, t);
    for (int q = 0; q < 4; ++q) { PointType l = vp::point("lx","ly","lz",-9,9), s = vp::point("sx","sy","sz",0,6); query_box(tree, t, l, PointType{l[0]+s[0], l[1]+s[1], l[2]+s[2]}, 1e-12); }
    outside_test(tree, t, vp::point("px","py","pz",-12,12));
}
