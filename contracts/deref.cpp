// Contracts of DereferenceIterator (P31): behaves as the random-access iterator it wraps.
#include "vp.h"
#include <memory>
#include <vector>
#include "queso/includes/dereference_iterator.hpp"
using namespace queso;
using Vec = std::vector<std::unique_ptr<double>>;
struct Obj { double v; };
using OVec = std::vector<std::unique_ptr<Obj>>;
static OVec make(long n) { OVec v; static const char* nm[] = {"v0","v1","v2","v3","v4","v5","v6","v7"}; for (long i = 0; i < n; ++i) v.push_back(std::make_unique<Obj>(Obj{vp::real(nm[i])})); return v; }
//@harness H_deref_range property=P31
VP_HARNESS(H_deref_range) {
    long n = vp_case("n", 0, 6);
    OVec v = make(n);
    long i = 0;
    for (auto& o : dereference_range(v.begin(), v.end())) { vp_ensure("range-yields-each-pointee-in-order", vp_and(i < n, &o == v[i].get())); ++i; }
    vp_ensure("range-complete", i == n);
    const OVec& cv = v; i = 0;
    for (const auto& o : dereference_range(cv.begin(), cv.end())) { vp_ensure("const-range", &o == v[i].get()); ++i; }
    vp_ensure("const-range-complete", i == n);
}
//@harness H_deref_algebra property=P31
VP_HARNESS(H_deref_algebra) {
    OVec v = make(6);
    long i = vp_case("i", 0, 5), j = vp_case("j", 0, 5);
    auto b = dereference_iterator(v.begin());
    auto x = b + i, y = j + b;
    vp_ensure("plus", vp_and(&*x == v[i].get(), x.operator->() == v[i].get()));
    vp_ensure("plus-commutes", &*y == v[j].get());
    vp_ensure("index", &b[j] == v[j].get());
    vp_ensure("index-relative", i + j > 5 || &x[j] == v[i + j].get());
    vp_ensure("difference", y - x == j - i);
    vp_ensure("minus", (x - i) == b);
    vp_ensure("eq", (x == y) == (i == j)); vp_ensure("ne", (x != y) == (i != j));
    vp_ensure("lt", (x < y) == (i < j)); vp_ensure("le", (x <= y) == (i <= j));
    vp_ensure("gt", (x > y) == (i > j)); vp_ensure("ge", (x >= y) == (i >= j));
    auto z = x; auto& r = (z += (j - i)); vp_ensure("plus-assign", vp_and(z == y, &r == &z));
    auto& r2 = (z -= (j - i)); vp_ensure("minus-assign", vp_and(z == x, &r2 == &z));
    auto old = z++; vp_ensure("post-increment", vp_and(old == x, z - x == 1));
    auto old2 = z--; vp_ensure("post-decrement", vp_and(old2 - x == 1, z == x));
    auto& p = ++z; vp_ensure("pre-increment", vp_and(z - x == 1, &p == &z));
    auto& q = --z; vp_ensure("pre-decrement", vp_and(z == x, &q == &z));
    DereferenceIterator<OVec::const_iterator> c(x);
    vp_ensure("const-conversion", &*c == v[i].get());
    double w = vp::real("w"); (*x).v = w;
    vp_ensure("write-through", v[i]->v == w);
}
