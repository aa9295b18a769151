// dver: a deductive verifier for contracts on real C++ code.
//
// Input : LLVM bitcode compiled at -O0 from /repo's sources together with a contract translation unit,
//         and the name of one contract function ("proof obligation unit").
// Method: forward symbolic execution (strongest postcondition style, as in VeriFast/Viper-silicon) of the real
//         function bodies for ALL inputs admitted by the contract's preconditions.  Integers are mathematical
//         integers with explicit wrap-around, doubles are mathematical reals (stated assumption), memory is a set
//         of disjoint objects with bounds and initialisation tracking.  Every `vp_ensure`, memory access, signed
//         overflow, branch on uninitialised data, unexpected exception generates an obligation that is discharged
//         by an SMT solver (z3 in process, then z3-new / cvc5 as external back ends).
//         Calls to functions that have a contract of their own can be replaced by that contract (--replace).
//         Loops with symbolic trip counts can be cut by an invariant (--loopinv); otherwise they are unrolled until
//         infeasible (complete) or until a stated limit (the run is then labelled bounded).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <gmpxx.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>
#include <functional>
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <regex>
#include <chrono>
#include <cmath>
#include <cstring>
#include <optional>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>

using namespace llvm;
using E = z3::expr;
typedef __int128 i128;
static z3::context *C;
static const DataLayout *DL;
static Module *M;

static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Unsupported { std::string what; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

//---------------------------------------------------------------------------------------------- values
struct Val {
    enum K : uint8_t { Undef, CInt, SInt, SBool, CReal, SReal, Special, Ptr, Agg } k = Undef;
    uint8_t w = 0;             // int width
    bool symoff = false;       // Ptr: offset symbolic (in e)
    int8_t sp = 0;             // Special: +1 inf, -1 -inf, 0 nan
    uint64_t ci = 0;           // CInt value; Ptr: concrete offset (as int64)
    uint64_t obj = 0;          // Ptr
    std::shared_ptr<const mpq_class> q;
    std::optional<E> e;
    std::shared_ptr<std::vector<Val>> agg;
};
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val mkInt(uint64_t v, unsigned w) { Val r; r.k = Val::CInt; r.w = w; r.ci = v & maskw(w); return r; }
static Val mkReal(const mpq_class &q) { Val r; r.k = Val::CReal; r.q = std::make_shared<mpq_class>(q); return r; }
static Val mkSpecial(int s) { Val r; r.k = Val::Special; r.sp = s; return r; }
// Mathematical reading of constants the compiler has rounded: 1.0/3.0 folded to a double denotes 1/3 (denominators up to 10^4).
static bool snapConst(double d, mpq_class &out) {
    double a = std::fabs(d);
    if (a < 1e-4 || a > 1e6 || a == std::floor(a)) return false;
    { int ex; double m = std::frexp(a, &ex) * 1048576.0; if (m == std::floor(m)) return false; } // short dyadic: exact
    double x = a; long p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    for (int i = 0; i < 20; ++i) {
        double fl = std::floor(x); if (fl > 1e9) return false;
        long k = (long)fl, p2 = k * p1 + p0, q2 = k * q1 + q0;
        if (q2 > 10000) return false;
        if ((double)p2 / (double)q2 == a) { out = mpq_class(d < 0 ? -p2 : p2, q2); out.canonicalize(); return true; }
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        if (x == fl) return false;
        x = 1.0 / (x - fl);
    }
    return false;
}
static Val mkDouble(double d) {
    if (std::isnan(d)) return mkSpecial(0);
    if (std::isinf(d)) return mkSpecial(d > 0 ? 1 : -1);
    { mpq_class q; if (snapConst(d, q)) return mkReal(q); }
    return mkReal(mpq_class(d));
}
static Val mkPtr(uint64_t o, int64_t off) { Val r; r.k = Val::Ptr; r.w = 64; r.obj = o; r.ci = (uint64_t)off; return r; }
static std::string mpqStr(const mpq_class &q) { return q.get_str(); }
static E numReal(const mpq_class &q) {
    mpq_class c(q); c.canonicalize();
    if (c.get_den() == 1) return C->real_val(c.get_num().get_str().c_str());
    return C->real_val(c.get_str().c_str());
}
static E numInt(const mpz_class &z) { return C->int_val(z.get_str().c_str()); }
static mpz_class mpzFromU64(uint64_t u) { mpz_class r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &u); return r; }
static E numU64(uint64_t v) { return C->int_val((uint64_t)v); }
static bool isTrue(const E &e) { return e.is_true(); }
static bool isFalse(const E &e) { return e.is_false(); }

static bool numeralToMpq(const E &e, mpq_class &out) {
    if (!e.is_numeral()) return false;
    std::string s = Z3_get_numeral_string(*C, e);
    try { out = mpq_class(s); } catch (...) { return false; }
    out.canonicalize();
    return true;
}
static Val mkSReal(const E &e0) {
    E e = e0;
    mpq_class q;
    if (numeralToMpq(e, q)) return mkReal(q);
    Val r; r.k = Val::SReal; r.e = e; return r;
}
static Val mkSBool(const E &e0) {
    if (isTrue(e0)) return mkInt(1, 1);
    if (isFalse(e0)) return mkInt(0, 1);
    Val r; r.k = Val::SBool; r.w = 1; r.e = e0; return r;
}
static Val mkSInt(const E &e0, unsigned w) {
    mpq_class q;
    if (numeralToMpq(e0, q)) {
        mpz_class z = q.get_num(); mpz_class m; mpz_class mod = mpz_class(1) << w;
        mpz_fdiv_r(m.get_mpz_t(), z.get_mpz_t(), mod.get_mpz_t());
        uint64_t u = 0; size_t cnt = 0;
        mpz_export(&u, &cnt, 1, 8, 0, 0, m.get_mpz_t());
        if (cnt == 0) u = 0;
        return mkInt(u, w);
    }
    Val r; r.k = Val::SInt; r.w = w; r.e = e0; return r;
}
static E toInt(const Val &v) {
    switch (v.k) {
    case Val::CInt: return numU64(v.ci);
    case Val::SInt: return *v.e;
    case Val::SBool: return z3::ite(*v.e, C->int_val(1), C->int_val(0));
    default: unsup("toInt of non-integer value kind " + std::to_string(v.k));
    }
}
static E toBool(const Val &v) {
    switch (v.k) {
    case Val::CInt: return C->bool_val((v.ci & 1) != 0);
    case Val::SBool: return *v.e;
    case Val::SInt: return *v.e != 0;
    default: unsup("toBool of non-boolean value");
    }
}
static E toReal(const Val &v) {
    switch (v.k) {
    case Val::CReal: return numReal(*v.q);
    case Val::SReal: return *v.e;
    case Val::Special: unsup("symbolic arithmetic with inf/nan");
    default: unsup("toReal of non-real value");
    }
}

//---------------------------------------------------------------------------------------------- integer intervals
struct Itv { bool lo_ok = false, hi_ok = false; mpz_class lo, hi; };
static std::unordered_map<unsigned, Itv> declBounds;  // by ast id of constant
static std::vector<E> keepAlive;                      // keeps ast ids stable
static std::unordered_map<unsigned, Itv> itvCache;
static Itv itv(const E &e) {
    unsigned id = Z3_get_ast_id(*C, e);
    auto it = itvCache.find(id);
    if (it != itvCache.end()) return it->second;
    Itv r;
    mpq_class q;
    if (numeralToMpq(e, q)) { r.lo_ok = r.hi_ok = true; r.lo = r.hi = q.get_num(); if (q.get_den() != 1) { r.lo_ok = r.hi_ok = false; } }
    else if (e.is_app()) {
        auto k = e.decl().decl_kind();
        auto d = declBounds.find(id);
        if (d != declBounds.end()) r = d->second;
        else switch (k) {
        case Z3_OP_ADD: {
            r.lo_ok = r.hi_ok = true;
            for (unsigned i = 0; i < e.num_args(); ++i) { Itv a = itv(e.arg(i)); r.lo_ok &= a.lo_ok; r.hi_ok &= a.hi_ok; r.lo += a.lo; r.hi += a.hi; }
        } break;
        case Z3_OP_SUB: {
            Itv a = itv(e.arg(0)); r = a;
            for (unsigned i = 1; i < e.num_args(); ++i) { Itv b = itv(e.arg(i)); r.lo_ok &= b.hi_ok; r.hi_ok &= b.lo_ok; r.lo -= b.hi; r.hi -= b.lo; }
        } break;
        case Z3_OP_MUL: {
            r.lo_ok = r.hi_ok = true; r.lo = r.hi = 1;
            for (unsigned i = 0; i < e.num_args(); ++i) {
                Itv a = itv(e.arg(i));
                if (!(a.lo_ok && a.hi_ok && r.lo_ok && r.hi_ok)) { r.lo_ok = r.hi_ok = false; break; }
                mpz_class c[4] = {r.lo * a.lo, r.lo * a.hi, r.hi * a.lo, r.hi * a.hi};
                r.lo = r.hi = c[0];
                for (auto &x : c) { if (x < r.lo) r.lo = x; if (x > r.hi) r.hi = x; }
            }
        } break;
        case Z3_OP_ITE: {
            Itv a = itv(e.arg(1)), b = itv(e.arg(2));
            r.lo_ok = a.lo_ok && b.lo_ok; r.hi_ok = a.hi_ok && b.hi_ok;
            r.lo = a.lo < b.lo ? a.lo : b.lo; r.hi = a.hi > b.hi ? a.hi : b.hi;
        } break;
        case Z3_OP_IDIV: {
            Itv a = itv(e.arg(0)), b = itv(e.arg(1));
            if (a.lo_ok && a.lo >= 0 && b.lo_ok && b.lo > 0) {
                r.lo_ok = true; r.lo = 0; r.hi_ok = a.hi_ok;
                if (r.hi_ok) r.hi = a.hi / b.lo;
            }
        } break;
        case Z3_OP_MOD: {
            Itv a = itv(e.arg(0)), b = itv(e.arg(1));
            if (b.lo_ok && b.lo > 0) { r.lo_ok = true; r.lo = 0; r.hi_ok = b.hi_ok; if (r.hi_ok) { r.hi = b.hi - 1;
                if (a.lo_ok && a.lo>=0 && a.hi_ok && a.hi < r.hi) r.hi = a.hi; } }
        } break;
        default: break;
        }
    }
    keepAlive.push_back(e);
    itvCache[id] = r;
    return r;
}

//---------------------------------------------------------------------------------------------- real intervals (outward-rounded doubles)
struct RI { double lo = -HUGE_VAL, hi = HUGE_VAL; };
static std::unordered_map<unsigned, RI> realBounds;      // declared bounds of input constants
static std::unordered_map<unsigned, E> sqrtOf;           // sqrt!k -> argument
static std::unordered_map<unsigned, RI> riCache;
static double dn(double x) { return std::nextafter(x, -HUGE_VAL); }
static double up(double x) { return std::nextafter(x, HUGE_VAL); }
using RIMap = std::unordered_map<unsigned, RI>;
static RI riMul(const RI &a, const RI &b) {
    RI r; bool first = true;
    for (double x : {a.lo, a.hi}) for (double y : {b.lo, b.hi}) {
        double l, h;
        if (x == 0 || y == 0) l = h = 0; else { double p = x * y; l = dn(p); h = up(p); if (std::isnan(p)) return RI{}; }
        if (first) { r.lo = l; r.hi = h; first = false; } else { r.lo = std::min(r.lo, l); r.hi = std::max(r.hi, h); }
    }
    return r;
}
static RI riSq(const RI &a) {
    RI r; double m = std::max(std::fabs(a.lo), std::fabs(a.hi));
    double s = (a.lo > 0 || a.hi < 0) ? std::min(std::fabs(a.lo), std::fabs(a.hi)) : 0;
    r.lo = s == 0 ? 0 : std::max(0.0, dn(s * s)); r.hi = m == 0 ? 0 : up(m * m); return r;
}
static RI rint_(const E &e, const RIMap *extra, RIMap &cache) {
    unsigned id = Z3_get_ast_id(*C, e);
    auto it = cache.find(id);
    if (it != cache.end()) return it->second;
    RI r; mpq_class q;
    if (numeralToMpq(e, q)) { double d = q.get_d(); if (!std::isfinite(d)) ; else if (mpq_class(d) == q) r.lo = r.hi = d; else { r.lo = dn(d); r.hi = up(d); } }
    else if (e.is_app()) {
        if (e.is_int()) {
            Itv i = itv(e);
            if (i.lo_ok) { double d = i.lo.get_d(); r.lo = mpz_class(d) == i.lo ? d : dn(d); }
            if (i.hi_ok) { double d = i.hi.get_d(); r.hi = mpz_class(d) == i.hi ? d : up(d); }
        } else switch (e.decl().decl_kind()) {
        case Z3_OP_ADD: {
            r = rint_(e.arg(0), extra, cache);
            for (unsigned i = 1; i < e.num_args(); ++i) { RI b = rint_(e.arg(i), extra, cache); if (r.lo == 0 && r.hi == 0) { r = b; continue; } if (b.lo == 0 && b.hi == 0) continue;
                r.lo = (r.lo == 0) ? b.lo : (b.lo == 0 ? r.lo : dn(r.lo + b.lo)); r.hi = (r.hi == 0) ? b.hi : (b.hi == 0 ? r.hi : up(r.hi + b.hi)); }
        } break;
        case Z3_OP_SUB: {
            r = rint_(e.arg(0), extra, cache);
            for (unsigned i = 1; i < e.num_args(); ++i) { RI b = rint_(e.arg(i), extra, cache); r.lo = b.hi == 0 ? r.lo : dn(r.lo - b.hi); r.hi = b.lo == 0 ? r.hi : up(r.hi - b.lo); }
        } break;
        case Z3_OP_UMINUS: { RI a = rint_(e.arg(0), extra, cache); r.lo = -a.hi; r.hi = -a.lo; } break;
        case Z3_OP_MUL: {
            std::map<unsigned, unsigned> cnt; std::vector<E> order;
            for (unsigned i = 0; i < e.num_args(); ++i) { unsigned a = Z3_get_ast_id(*C, e.arg(i)); if (!cnt[a]++) order.push_back(e.arg(i)); }
            r.lo = r.hi = 1;
            for (auto &x : order) {
                RI a = rint_(x, extra, cache); unsigned c = cnt[Z3_get_ast_id(*C, x)];
                bool one = r.lo == 1 && r.hi == 1;
                RI p = a; if (c >= 2) { p = riSq(a); for (c -= 2; c >= 2; c -= 2) p = riMul(p, riSq(a)); if (c) p = riMul(p, a); }
                r = one ? p : riMul(r, p);
            }
        } break;
        case Z3_OP_POWER: {
            mpq_class n; RI a = rint_(e.arg(0), extra, cache);
            if (numeralToMpq(e.arg(1), n) && n.get_den() == 1 && n > 0 && n < 64) { long c = n.get_num().get_si(); r.lo = r.hi = 1; bool one = true;
                if (c >= 2) { r = riSq(a); one = false; for (c -= 2; c >= 2; c -= 2) r = riMul(r, riSq(a)); } if (c) r = one ? a : riMul(r, a); }
        } break;
        case Z3_OP_DIV: {
            RI a = rint_(e.arg(0), extra, cache), b = rint_(e.arg(1), extra, cache);
            if (b.lo > 0 || b.hi < 0) { RI i; i.lo = dn(1 / b.hi); i.hi = up(1 / b.lo); if (b.lo > 0) i.lo = std::max(0.0, i.lo); else i.hi = std::min(0.0, i.hi); r = riMul(a, i); }
        } break;
        case Z3_OP_ITE: { RI a = rint_(e.arg(1), extra, cache), b = rint_(e.arg(2), extra, cache); r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi);
            // |x|
            E c = e.arg(0);
            auto sgnOf = [&](const E &x, int s) { for (int k = 0; k < 1; ++k) { (void)x; (void)s; } };
            (void)sgnOf;
            if (c.is_app() && c.num_args() == 2 && (c.decl().decl_kind() == Z3_OP_GE || c.decl().decl_kind() == Z3_OP_LE)) {
                mpq_class z; bool ge = c.decl().decl_kind() == Z3_OP_GE;
                if (numeralToMpq(c.arg(1), z) && z == 0) {
                    E pos = ge ? e.arg(1) : e.arg(2), neg = ge ? e.arg(2) : e.arg(1);
                    if (z3::eq(pos, c.arg(0)) && z3::eq((-neg).simplify(), pos.simplify())) { RI a2 = rint_(pos, extra, cache); r.lo = (a2.lo > 0) ? a2.lo : (a2.hi < 0 ? -a2.hi : 0); r.hi = std::max(std::fabs(a2.lo), std::fabs(a2.hi)); }
                }
            }
        } break;
        case Z3_OP_TO_REAL: r = rint_(e.arg(0), extra, cache); break;
        case Z3_OP_UNINTERPRETED: {
            auto b = realBounds.find(id); if (b != realBounds.end()) r = b->second;
            auto s = sqrtOf.find(id);
            if (s != sqrtOf.end()) { RI a = rint_(s->second, extra, cache); r.lo = a.lo > 0 ? std::max(0.0, dn(std::sqrt(a.lo))) : 0; if (a.hi >= 0) r.hi = up(std::sqrt(a.hi)); }
        } break;
        default: break;
        }
        if (std::isnan(r.lo) || std::isnan(r.hi)) r = RI{};
        if (extra) { auto x = extra->find(id); if (x != extra->end()) { r.lo = std::max(r.lo, x->second.lo); r.hi = std::min(r.hi, x->second.hi); } }
    }
    keepAlive.push_back(e);
    cache[id] = r;
    return r;
}
static int riDecide(const E &c, const RIMap *extra, RIMap &cache) {  // 1 true, 0 false, -1 unknown
    if (isTrue(c)) return 1; if (isFalse(c)) return 0;
    if (!c.is_app()) return -1;
    switch (c.decl().decl_kind()) {
    case Z3_OP_NOT: { int a = riDecide(c.arg(0), extra, cache); return a < 0 ? -1 : !a; }
    case Z3_OP_AND: { bool all = true; for (unsigned i = 0; i < c.num_args(); ++i) { int a = riDecide(c.arg(i), extra, cache); if (a == 0) return 0; if (a < 0) all = false; } return all ? 1 : -1; }
    case Z3_OP_OR: { bool all = true; for (unsigned i = 0; i < c.num_args(); ++i) { int a = riDecide(c.arg(i), extra, cache); if (a == 1) return 1; if (a < 0) all = false; } return all ? 0 : -1; }
    case Z3_OP_IMPLIES: { int a = riDecide(c.arg(0), extra, cache), b = riDecide(c.arg(1), extra, cache); if (a == 0 || b == 1) return 1; if (a == 1 && b == 0) return 0; return -1; }
    case Z3_OP_EQ: case Z3_OP_LE: case Z3_OP_LT: case Z3_OP_GE: case Z3_OP_GT: {
        if (!c.arg(0).is_arith()) return -1;
        RI a = rint_(c.arg(0), extra, cache), b = rint_(c.arg(1), extra, cache);
        auto k = c.decl().decl_kind();
        if (k == Z3_OP_GE || k == Z3_OP_GT) { std::swap(a, b); k = k == Z3_OP_GE ? Z3_OP_LE : Z3_OP_LT; }
        if (k == Z3_OP_EQ) { if (a.hi < b.lo || b.hi < a.lo) return 0; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; return -1; }
        if (k == Z3_OP_LE) { if (a.hi <= b.lo) return 1; if (b.hi < a.lo) return 0; return -1; }
        if (a.hi < b.lo) return 1; if (b.hi <= a.lo) return 0; return -1;
    }
    default: return -1;
    }
}
// bounds implied by simple atoms of the path condition
static void riAtoms(const E &c, bool neg, RIMap &m) {
    if (!c.is_app()) return;
    auto k = c.decl().decl_kind();
    if (k == Z3_OP_NOT) { riAtoms(c.arg(0), !neg, m); return; }
    if (k == Z3_OP_AND && !neg) { for (unsigned i = 0; i < c.num_args(); ++i) riAtoms(c.arg(i), false, m); return; }
    if (k == Z3_OP_OR && neg) { for (unsigned i = 0; i < c.num_args(); ++i) riAtoms(c.arg(i), true, m); return; }
    if (k != Z3_OP_LE && k != Z3_OP_LT && k != Z3_OP_GE && k != Z3_OP_GT && !(k == Z3_OP_EQ && !neg)) return;
    if (!c.arg(0).is_arith()) return;
    for (int side = 0; side < 2; ++side) {
        E x = c.arg(side), y = c.arg(1 - side); mpq_class q;
        if (x.is_numeral() || !numeralToMpq(y, q)) continue;
        RI &r = m[Z3_get_ast_id(*C, x)];
        bool le = (k == Z3_OP_LE || k == Z3_OP_LT), ge = (k == Z3_OP_GE || k == Z3_OP_GT);
        if (side) std::swap(le, ge);
        if (neg) std::swap(le, ge);
        double d = q.get_d();
        if (!std::isfinite(d)) continue;
        if (le || k == Z3_OP_EQ) r.hi = std::min(r.hi, mpq_class(d) == q ? d : up(d));
        if (ge || k == Z3_OP_EQ) r.lo = std::max(r.lo, mpq_class(d) == q ? d : dn(d));
    }
}

//---------------------------------------------------------------------------------------------- rational-function normal form
// Decides polynomial / rational-function identities: every divisor was shown nonzero when the division was executed,
// sqrt atoms are reduced with s*s = argument.
typedef std::vector<std::pair<unsigned, unsigned>> Mono;   // (atom id, exponent), sorted by id
typedef std::map<Mono, mpq_class> RPoly;
struct RTooBig {};
static std::unordered_map<unsigned, E> ratAtoms;
static const E &atomById(unsigned id) { return ratAtoms.find(id)->second; }
static const size_t RMAX = 6000;
static RPoly rAdd(const RPoly &a, const RPoly &b, int sgn) {
    RPoly r = a;
    for (auto &t : b) { auto &c = r[t.first]; if (sgn > 0) c += t.second; else c -= t.second; if (c == 0) r.erase(t.first); }
    if (r.size() > RMAX) throw RTooBig{};
    return r;
}
static std::unordered_map<unsigned, std::pair<RPoly, RPoly>> ratCache;
static std::pair<RPoly, RPoly> toRat(const E &e, int depth);
static RPoly rMul(const RPoly &a, const RPoly &b);
static RPoly rReduce(const Mono &m, const mpq_class &c) {  // apply s*s -> x for sqrt atoms with polynomial argument
    for (size_t i = 0; i < m.size(); ++i) if (m[i].second >= 2) {
        auto it = sqrtOf.find(m[i].first);
        if (it == sqrtOf.end()) continue;
        auto rt = toRat(it->second, 1);
        if (rt.second.size() != 1 || !rt.second.begin()->first.empty() || rt.second.begin()->second != 1) continue;
        Mono k = m; k[i].second -= 2; if (k[i].second == 0) k.erase(k.begin() + i);
        RPoly base; base[k] = c;
        return rMul(base, rt.first);
    }
    RPoly r; if (c != 0) r[m] = c; return r;
}
static RPoly rMul(const RPoly &a, const RPoly &b) {
    RPoly r;
    if (a.size() * b.size() > 400000) throw RTooBig{};
    for (auto &x : a) for (auto &y : b) {
        Mono m; size_t i = 0, j = 0; bool red = false;
        while (i < x.first.size() || j < y.first.size()) {
            if (j >= y.first.size() || (i < x.first.size() && x.first[i].first < y.first[j].first)) m.push_back(x.first[i++]);
            else if (i >= x.first.size() || y.first[j].first < x.first[i].first) m.push_back(y.first[j++]);
            else { m.push_back({x.first[i].first, x.first[i].second + y.first[j].second}); ++i; ++j; }
        }
        for (auto &t : m) if (t.second >= 2 && sqrtOf.count(t.first)) red = true;
        mpq_class c = x.second * y.second;
        if (red) { RPoly q = rReduce(m, c); if (!(q.size() == 1 && q.begin()->first == m)) { r = rAdd(r, q, 1); continue; } }
        auto &d = r[m]; d += c; if (d == 0) r.erase(m);
        if (r.size() > RMAX) throw RTooBig{};
    }
    return r;
}
// cancels atom powers that divide every term of numerator and denominator
static void rContent(const RPoly &p, std::map<unsigned, unsigned> &c, bool init) {
    bool first = init;
    for (auto &t : p) {
        if (first) { for (auto &f : t.first) c[f.first] = f.second; first = false; continue; }
        for (auto i = c.begin(); i != c.end();) {
            unsigned x = 0; for (auto &f : t.first) if (f.first == i->first) { x = f.second; break; }
            if (!x) i = c.erase(i); else { i->second = std::min(i->second, x); ++i; }
        }
        if (c.empty()) return;
    }
}
static RPoly rDivMono(const RPoly &p, const std::map<unsigned, unsigned> &c) {
    RPoly r;
    for (auto &t : p) { Mono m; for (auto &f : t.first) { auto i = c.find(f.first); unsigned x = f.second - (i == c.end() ? 0 : i->second); if (x) m.push_back({f.first, x}); } r[m] = t.second; }
    return r;
}
static bool rDivExact(RPoly num, const RPoly &den, RPoly &quo);
static void rCancel(std::pair<RPoly, RPoly> &r) {
    if (r.first.empty() || r.second.size() > 200) return;
    std::map<unsigned, unsigned> c; rContent(r.second, c, true);
    if (!c.empty()) rContent(r.first, c, false);
    if (!c.empty()) { r.first = rDivMono(r.first, c); r.second = rDivMono(r.second, c); }
    if (r.second.size() > 1 && r.second.size() <= 60 && r.first.size() >= r.second.size() && r.first.size() <= 600) {
        for (auto &t : r.second) for (auto &f : t.first) if (sqrtOf.count(f.first)) return;
        RPoly q; try { if (rDivExact(r.first, r.second, q)) { r.first = q; r.second.clear(); r.second[Mono{}] = 1; } } catch (RTooBig &) {}
    }
}
static E polyToExpr(const RPoly &p) {
    E s = numReal(0);
    for (auto &t : p) { E m = numReal(t.second); for (auto &f : t.first) for (unsigned k = 0; k < f.second; ++k) m = m * atomById(f.first); s = s + m; }
    return s.simplify();
}
// exact multivariate division (lexicographic order on atom ids)
static bool rDivExact(RPoly num, const RPoly &den, RPoly &quo) {
    auto less = [](const Mono &a, const Mono &b) {   // lex: smaller atom id is more significant
        size_t i = 0;
        for (; i < a.size() && i < b.size(); ++i) {
            if (a[i].first != b[i].first) return a[i].first > b[i].first;
            if (a[i].second != b[i].second) return a[i].second < b[i].second;
        }
        return i >= a.size() && i < b.size();
    };
    auto lead = [&](const RPoly &p) { auto r = p.begin(); for (auto i = p.begin(); i != p.end(); ++i) if (less(r->first, i->first)) r = i; return r; };
    auto ld = lead(den); quo.clear();
    for (int it = 0; it < 200 && !num.empty(); ++it) {
        auto ln = lead(num); Mono q; size_t j = 0; bool ok = true;
        for (auto &f : ln->first) { unsigned e = f.second; if (j < ld->first.size() && ld->first[j].first < f.first) { ok = false; break; } if (j < ld->first.size() && ld->first[j].first == f.first) { if (ld->first[j].second > e) { ok = false; break; } e -= ld->first[j].second; ++j; } if (e) q.push_back({f.first, e}); }
        if (!ok || j < ld->first.size()) return false;
        RPoly t; t[q] = ln->second / ld->second;
        quo[q] += ln->second / ld->second;
        num = rAdd(num, rMul(t, den), -1);
        if (num.size() > 3000) return false;
    }
    return num.empty();
}
static std::pair<RPoly, RPoly> toRat(const E &e, int depth) {
    if (depth > 400) throw RTooBig{};
    unsigned id = Z3_get_ast_id(*C, e);
    auto it = ratCache.find(id);
    if (it != ratCache.end()) return it->second;
    RPoly one; one[Mono{}] = 1;
    std::pair<RPoly, RPoly> r{RPoly{}, one};
    mpq_class q;
    auto atom = [&]() { ratAtoms.emplace(id, e); r.first.clear(); r.first[Mono{{id, 1}}] = 1; r.second = one; keepAlive.push_back(e); };
    auto add = [&](const std::pair<RPoly, RPoly> &a, const std::pair<RPoly, RPoly> &b, int s) -> std::pair<RPoly, RPoly> {
        if (a.second == b.second) return {rAdd(a.first, b.first, s), a.second};
        if (a.second.size() == 1 && b.second.size() == 1) {   // common denominator of two monomials
            std::map<unsigned, unsigned> l; for (auto &f : a.second.begin()->first) l[f.first] = f.second; for (auto &f : b.second.begin()->first) l[f.first] = std::max(l[f.first], f.second);
            auto cof = [&](const RPoly &d) { RPoly r; Mono m; auto &dm = d.begin()->first; for (auto &x : l) { unsigned k = x.second; for (auto &f : dm) if (f.first == x.first) k -= f.second; if (k) m.push_back({x.first, k}); } r[m] = 1 / d.begin()->second; return r; };
            RPoly den; den[Mono(l.begin(), l.end())] = 1;
            return {rAdd(rMul(a.first, cof(a.second)), rMul(b.first, cof(b.second)), s), den};
        }
        return {rAdd(rMul(a.first, b.second), rMul(b.first, a.second), s), rMul(a.second, b.second)};
    };
    if (numeralToMpq(e, q)) { if (q != 0) r.first[Mono{}] = q; }
    else if (!e.is_app()) atom();
    else switch (e.decl().decl_kind()) {
    case Z3_OP_ADD: r = toRat(e.arg(0), depth + 1); for (unsigned i = 1; i < e.num_args(); ++i) r = add(r, toRat(e.arg(i), depth + 1), 1); break;
    case Z3_OP_SUB: r = toRat(e.arg(0), depth + 1); for (unsigned i = 1; i < e.num_args(); ++i) r = add(r, toRat(e.arg(i), depth + 1), -1); break;
    case Z3_OP_UMINUS: { auto a = toRat(e.arg(0), depth + 1); r = {rAdd(RPoly{}, a.first, -1), a.second}; } break;
    case Z3_OP_MUL: r = toRat(e.arg(0), depth + 1); for (unsigned i = 1; i < e.num_args(); ++i) { auto b = toRat(e.arg(i), depth + 1); r = {rMul(r.first, b.first), rMul(r.second, b.second)}; } break;
    case Z3_OP_DIV: { auto a = toRat(e.arg(0), depth + 1), b = toRat(e.arg(1), depth + 1); if (b.first.empty()) atom(); else r = {rMul(a.first, b.second), rMul(a.second, b.first)}; } break;
    case Z3_OP_POWER: { mpq_class n; if (numeralToMpq(e.arg(1), n) && n.get_den() == 1 && n > 0 && n < 40) { auto a = toRat(e.arg(0), depth + 1); r = a; for (long k = n.get_num().get_si(); k > 1; --k) r = {rMul(r.first, a.first), rMul(r.second, a.second)}; } else atom(); } break;
    case Z3_OP_ITE: {   // case distinctions written differently share one atom; |p| is recognised
        E c = e.arg(0), x = e.arg(1), y = e.arg(2);
        while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); std::swap(x, y); }
        auto k = c.is_app() ? c.decl().decl_kind() : Z3_OP_UNINTERPRETED;
        if (!(c.is_app() && c.num_args() == 2 && c.arg(0).is_real() && (k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT))) { atom(); break; }
        auto rx = toRat(x, depth + 1), ry = toRat(y, depth + 1), rc = toRat(c.arg(0) - c.arg(1), depth + 1);
        bool pconst = rc.second.size() == 1 && rc.second.begin()->first.empty();
        if (!pconst || rc.first.empty()) { atom(); break; }
        if (rx == ry) { r = rx; break; }
        mpq_class l = abs(rc.first.begin()->second) * sgn(rc.second.begin()->second);
        RPoly p = rc.first; for (auto &t : p) t.second /= l;
        bool strict = k == Z3_OP_LT || k == Z3_OP_GT, less = k == Z3_OP_LE || k == Z3_OP_LT;
        if (sgn(p.begin()->second) < 0) { for (auto &t : p) t.second = -t.second; less = !less; }
        if (less) { std::swap(rx, ry); strict = !strict; }   // now: (p > 0 or p >= 0) ? rx : ry, leading coefficient 1
        if (rx.second == ry.second && rx.second == one && rAdd(rx.first, ry.first, 1).empty() && rx.first.size() == p.size()) {
            auto i = rx.first.begin(); auto j = p.begin(); mpq_class f = i->second / j->second; bool same = true;
            for (; i != rx.first.end(); ++i, ++j) if (i->first != j->first || i->second != f * j->second) { same = false; break; }
            if (same) {  // f * |p|
                static std::map<RPoly, E> absOf;
                auto it2 = absOf.find(p);
                if (it2 == absOf.end()) { it2 = absOf.emplace(p, f == 1 ? e : (numReal(1 / f) * e).simplify()).first; if (f != 1) { E pe = polyToExpr(p); it2->second = z3::ite(pe >= 0, pe, -pe); } }
                unsigned aid = Z3_get_ast_id(*C, it2->second); ratAtoms.emplace(aid, it2->second); keepAlive.push_back(it2->second);
                r.first.clear(); r.first[Mono{{aid, 1}}] = f; r.second = one; break;
            }
        }
        static std::map<std::tuple<RPoly, bool, std::pair<RPoly, RPoly>, std::pair<RPoly, RPoly>>, E> iteOf;
        auto it2 = iteOf.emplace(std::make_tuple(p, strict, rx, ry), e).first;
        unsigned aid = Z3_get_ast_id(*C, it2->second); ratAtoms.emplace(aid, it2->second); keepAlive.push_back(it2->second);
        r.first.clear(); r.first[Mono{{aid, 1}}] = 1; r.second = one; break;
    }
    default: atom();
    }
    rCancel(r);
    ratCache[id] = r; keepAlive.push_back(e);
    return r;
}
struct RHyp { RPoly p; int op; };  // p op 0: op 0 '>=', 1 '>', 2 '=='
static std::unordered_map<unsigned, std::optional<RHyp>> hypCache;
static const std::optional<RHyp> &hypOf(const E &c0) {
    unsigned id = Z3_get_ast_id(*C, c0);
    auto it = hypCache.find(id);
    if (it != hypCache.end()) return it->second;
    keepAlive.push_back(c0);
    std::optional<RHyp> r;
    E c = c0; bool neg = false;
    while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); neg = !neg; }
    if (c.is_app() && c.num_args() == 2 && c.arg(0).is_real()) {
        auto k = c.decl().decl_kind();
        int op = k == Z3_OP_EQ ? (neg ? -1 : 2) : (k == Z3_OP_GE || k == Z3_OP_LE) ? (neg ? 1 : 0) : (k == Z3_OP_GT || k == Z3_OP_LT) ? (neg ? 0 : 1) : -1;
        bool ge = (k == Z3_OP_GE || k == Z3_OP_GT) != neg;
        if (op >= 0) try {
            auto d = (op == 2 || ge) ? toRat(c.arg(0) - c.arg(1), 0) : toRat(c.arg(1) - c.arg(0), 0);
            if (d.second.size() == 1 && d.second.begin()->first.empty() && d.first.size() <= 400) {
                RHyp h; h.p = d.first; if (sgn(d.second.begin()->second) < 0) for (auto &t : h.p) t.second = -t.second; h.op = op; r = h;
            }
        } catch (RTooBig &) {}
    }
    return hypCache[id] = r;
}
static RI riPoly(const RPoly &p, const RIMap *extra, RIMap &cache) {
    RI acc; acc.lo = acc.hi = 0; bool first = true;
    for (auto &t : p) {
        double cf = t.second.get_d(); RI m; m.lo = m.hi = cf; if (!std::isfinite(cf)) { acc.lo = -INFINITY; acc.hi = INFINITY; return acc; } if (mpq_class(cf) != t.second) { m.lo = dn(cf); m.hi = up(cf); }
        for (auto &f : t.first) {
            RI a = rint_(atomById(f.first), extra, cache);
            unsigned e = f.second; for (; e >= 2; e -= 2) m = riMul(m, riSq(a)); if (e) m = riMul(m, a);
        }
        if (std::isnan(m.lo) || std::isnan(m.hi)) return RI{};
        if (first) { acc = m; first = false; } else { acc.lo = m.lo == 0 ? acc.lo : dn(acc.lo + m.lo); acc.hi = m.hi == 0 ? acc.hi : up(acc.hi + m.hi); }
    }
    return acc;
}
// sign facts about p: 1 >0, 2 >=0, -1 <0, -2 <=0, 0 ==0, 9 unknown; from intervals and single hypotheses (p = l*h + const)
static int rSign(const RPoly &p, const RIMap *extra, RIMap &cache, const std::vector<E> *hyps) {
    if (p.empty()) return 0;
    RI r = riPoly(p, extra, cache);
    if (r.lo > 0) return 1; if (r.hi < 0) return -1;
    int weak = r.lo >= 0 ? 2 : r.hi <= 0 ? -2 : 9;
    if (p.size() == 1 && !p.begin()->first.empty() && hyps) {   // monomial of square roots (and even powers): signs of the factors
        int sg = sgn(p.begin()->second); bool strict = true, ok = true;
        for (auto &f : p.begin()->first) {
            auto it = sqrtOf.find(f.first);
            if (it == sqrtOf.end()) {
                RPoly a; a[Mono{{f.first, 1}}] = 1;
                RI ar = rint_(atomById(f.first), extra, cache); int fs = ar.lo > 0 ? 1 : ar.hi < 0 ? -1 : ar.lo >= 0 ? 2 : ar.hi <= 0 ? -2 : 9;
                if (f.second % 2 == 0) { if (fs != 1 && fs != -1) strict = false; continue; }
                if (fs == 9) { ok = false; break; }
                if (fs < 0) sg = -sg; if (fs == 2 || fs == -2) strict = false;
                continue;
            }
            if (!strict) continue;
            auto rt = toRat(it->second, 1);
            int ns = rSign(rt.first, extra, cache, hyps), ds = rSign(rt.second, extra, cache, hyps);
            if (!((ns == 1 && ds == 1) || (ns == -1 && ds == -1))) strict = false;
        }
        if (ok) { if (strict) return sg; weak = sg > 0 ? 2 : -2; }
    }
    if (hyps) for (auto &x : *hyps) {
        auto &h = hypOf(x);
        if (!h) continue;
        // p == l*h.p + c
        const Mono *lead = nullptr; mpq_class l;
        if (h->p.size() + 1 < p.size() || p.size() + 1 < h->p.size()) continue;
        for (auto &t : h->p) if (!t.first.empty()) { auto i = p.find(t.first); if (i == p.end()) { lead = nullptr; break; } lead = &t.first; l = i->second / t.second; break; }
        if (!lead) continue;
        bool ok = true; size_t nz = 0;
        for (auto &t : h->p) { if (t.first.empty()) continue; nz++; auto i = p.find(t.first); if (i == p.end() || i->second != l * t.second) { ok = false; break; } }
        if (!ok) continue;
        size_t pz = 0; for (auto &t : p) if (!t.first.empty()) pz++;
        if (pz != nz) continue;
        mpq_class pc0, hc0; { auto i = p.find(Mono{}); if (i != p.end()) pc0 = i->second; auto j = h->p.find(Mono{}); if (j != h->p.end()) hc0 = j->second; }
        mpq_class c = pc0 - l * hc0;  // p = l*h + c
        if (h->op == 2) { int q = sgn(c); return q > 0 ? 1 : q < 0 ? -1 : 0; }
        if (l > 0) { if (c > 0 || (c == 0 && h->op == 1)) return 1; if (c == 0) { if (weak == -2) return 0; weak = 2; } }
        else { if (c < 0 || (c == 0 && h->op == 1)) return -1; if (c == 0) { if (weak == 2) return 0; weak = -2; } }
    }
    return weak;
}
static int ratDecide(const E &c0, const RIMap *extra = nullptr, const std::vector<E> *hyps = nullptr) {  // comparison atoms: 1 true, 0 false, -1 unknown
    E c = c0; bool neg = false;
    while (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); neg = !neg; }
    if (!c.is_app() || c.num_args() != 2) return -1;
    auto k = c.decl().decl_kind();
    if (k != Z3_OP_EQ && k != Z3_OP_LE && k != Z3_OP_LT && k != Z3_OP_GE && k != Z3_OP_GT) return -1;
    if (!c.arg(0).is_real()) return -1;
    try {
        auto d = toRat(c.arg(0) - c.arg(1), 0);
        int s;
        // sqrt atoms with a rational-function argument N/D: substitute s*s = N/D and clear the denominator (zero test only)
        RPoly num = d.first;
        for (int round = 0; round < 8 && !num.empty(); ++round) {
            unsigned best = 0, mx = 0;
            for (auto &t : num) for (auto &f : t.first) if (f.second >= 2 && sqrtOf.count(f.first) && f.first >= best) { if (f.first > best) { best = f.first; mx = 0; } mx = std::max(mx, f.second); }
            if (!mx) break;
            auto rt = toRat(sqrtOf.find(best)->second, 1);
            unsigned km = mx / 2;
            RPoly one; one[Mono{}] = 1;
            std::vector<RPoly> np{one}, dp{one};
            for (unsigned i = 0; i < km; ++i) { np.push_back(rMul(np.back(), rt.first)); dp.push_back(rMul(dp.back(), rt.second)); }
            RPoly nn;
            for (auto &t : num) {
                Mono m = t.first; unsigned k = 0;
                for (size_t i = 0; i < m.size(); ++i) if (m[i].first == best) { k = m[i].second / 2; m[i].second %= 2; if (!m[i].second) m.erase(m.begin() + i); break; }
                RPoly b; b[m] = t.second;
                nn = rAdd(nn, rMul(b, rMul(np[k], dp[km - k])), 1);
            }
            num = nn;
        }
        if (num.empty()) s = 0;
        else {
            bool ok = d.first.size() == d.second.size(); mpq_class q;
            if (ok) {  // constant quotient?
                auto i = d.first.begin(); auto j = d.second.begin(); q = i->second / j->second;
                for (; i != d.first.end(); ++i, ++j) if (i->first != j->first || i->second != q * j->second) { ok = false; break; }
            }
            if (ok) s = sgn(q);
            else {
                RIMap local; RIMap &cache = extra ? local : riCache;
                int ds = rSign(d.second, extra, cache, hyps);   // divisors are nonzero
                if (ds == 9 || ds == 0) return -1;
                int ns = rSign(d.first, extra, cache, hyps);
                if (ns == 9) return -1;
                if (ds < 0) ns = -ns;
                if (ns == 1 || ns == -1 || ns == 0) s = ns;
                else if (ns == -2 && (k == Z3_OP_LE || k == Z3_OP_GT)) s = -1;
                else if (ns == 2 && (k == Z3_OP_GE || k == Z3_OP_LT)) s = 1;
                else return -1;
            }
        }
        bool v = k == Z3_OP_EQ ? s == 0 : k == Z3_OP_LE ? s <= 0 : k == Z3_OP_LT ? s < 0 : k == Z3_OP_GE ? s >= 0 : s > 0;
        return (v != neg) ? 1 : 0;
    } catch (RTooBig &) { return -1; }
}

//---------------------------------------------------------------------------------------------- memory
struct Cell { Val v; uint32_t size = 0; };
struct Obj {
    std::map<int64_t, Cell> cells;
    int64_t size = 0;
    enum { Stack, Heap, Global, Func, External } kind = Stack;
    bool isConst = false;
    bool freed = false;
    const llvm::Value *origin = nullptr;
    std::string name;
};
using ObjP = std::shared_ptr<Obj>;

struct Frame {
    Function *F = nullptr;
    BasicBlock *BB = nullptr, *prev = nullptr;
    BasicBlock::iterator it;
    std::vector<Val> regs;
    const CallBase *call = nullptr;  // call in the caller
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
    std::map<const Instruction *, unsigned> forks;  // symbolic branch counters (loop bound)
    std::map<const BasicBlock*, int> loopState;     // loop invariant state: 1 = inside inductive step
    std::string spec;                                // merge marker
};

struct Model { std::vector<std::pair<E, E>> kv; };

struct State {
    std::vector<Frame> stack;
    std::map<uint64_t, ObjP> mem;
    std::vector<E> pc;
    std::vector<E> defs;
    std::shared_ptr<Model> model;                          // satisfies pc & defs if set
    std::map<unsigned, std::pair<E, uint64_t>> conc;       // concretised expressions
    std::vector<std::pair<std::string, std::string>> trace; // labels passed
    std::vector<std::pair<std::string, E>> inputs;         // named inputs in creation order
    bool feasUnknown = false;
    bool done = false;
    bool thrown = false;
    Val ret;
    int mergeDepth = -1;
    std::map<std::string,int> nameCount;
    std::map<std::string,Val> ghosts;
};
using StateP = std::unique_ptr<State>;

//---------------------------------------------------------------------------------------------- options
struct Options {
    std::string entry, bc, out, smtdir;
    std::vector<std::pair<std::regex, std::string>> replace;
    std::vector<std::regex> merge, skip;
    double maxTime = 600, obTimeout = 20, brTimeout = 3;
    unsigned unroll = 80;
    bool ieeeDiv = false;
    bool nativeTol = false;
    bool useExternal = true;
    bool verbose = false;
    bool noCtors = false;
    bool hasMerge = false;
    unsigned maxPaths = 2000000;
    std::vector<std::string> loopinv;
} opt;

//---------------------------------------------------------------------------------------------- results
struct ObStat { uint64_t gen = 0, triv = 0, unsat = 0, failed = 0, unknown = 0; std::map<std::string, uint64_t> by; double t = 0; };
static std::map<std::string, ObStat> obs;
struct Failure { std::string label, where, kind; std::vector<std::pair<std::string, std::string>> inputs; std::string detail; };
static std::vector<Failure> failures;
static std::map<std::string, uint64_t> covers, coversMaybe;
static std::set<std::string> executedFns, replacedFns, trustedFns, loopInvUsed;
static std::string incomplete;
static std::set<std::string> boundedNotes;
static uint64_t nPaths = 0, nQueries = 0, nSteps = 0;
static double solverTime = 0, tStart;
static std::map<std::string, double> timeBy;

//---------------------------------------------------------------------------------------------- solver
static void collectVars(const E &e, std::unordered_set<unsigned> &seen, std::set<unsigned> &vars) {
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        unsigned id = Z3_get_ast_id(*C, x);
        if (!seen.insert(id).second) continue;
        if (!x.is_app()) continue;
        if (x.num_args() == 0) { if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED) vars.insert(id); }
        else { if (x.decl().decl_kind()==Z3_OP_UNINTERPRETED) vars.insert(Z3_get_ast_id(*C, x.decl()));
            for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i)); }
    }
}
static std::unordered_map<unsigned, std::set<unsigned>> varCache;
static const std::set<unsigned> &varsOf(const E &e) {
    unsigned id = Z3_get_ast_id(*C, e);
    auto it = varCache.find(id);
    if (it != varCache.end()) return it->second;
    std::unordered_set<unsigned> seen; std::set<unsigned> v;
    collectVars(e, seen, v);
    keepAlive.push_back(e);
    return varCache[id] = v;
}
static std::vector<E> slice(const State &S, const std::vector<E> &q) {
    std::set<unsigned> vs;
    for (auto &x : q) { auto &v = varsOf(x); vs.insert(v.begin(), v.end()); }
    std::vector<const E *> rest;
    std::vector<E> out;
    for (auto &x : S.pc) rest.push_back(&x);
    for (auto &x : S.defs) rest.push_back(&x);
    bool ch = true;
    while (ch) {
        ch = false;
        std::vector<const E *> nr;
        for (auto *x : rest) {
            auto &v = varsOf(*x);
            bool hit = false;
            for (auto y : v) if (vs.count(y)) { hit = true; break; }
            if (hit) { out.push_back(*x); vs.insert(v.begin(), v.end()); ch = true; }
            else nr.push_back(x);
        }
        rest.swap(nr);
    }
    return out;
}
static bool nonlinearReal(const std::vector<E> &v);
static bool pureReal(const std::vector<E> &v) {
    std::unordered_set<unsigned> seen;
    std::vector<E> st(v.begin(), v.end());
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*C, x)).second) continue;
        if (!x.is_app()) return false;
        if (x.is_int()) return false;
        if (x.is_array()) return false;
        if (x.decl().decl_kind() == Z3_OP_UNINTERPRETED && x.num_args() > 0) return false;
        for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i));
    }
    return true;
}

// Sound relaxation of nonlinear integer problems to nonlinear real arithmetic: integer constants become reals, strict
// integer comparisons are tightened by one, div/mod/to_int become fresh variables with their defining inequalities.
// If the relaxation is unsatisfiable so is the original.
static z3::check_result externalSolve(const std::vector<E> &fs, double tmo, std::shared_ptr<Model> *mOut, std::string &by);
struct Relaxer {
    std::unordered_map<unsigned, E> memo; std::vector<E> side; bool ok = true; int fresh = 0;
    std::vector<std::pair<E, E>> intVars;  // original, real
    E fr() { return C->real_const(("rlx!" + std::to_string(fresh++)).c_str()); }
    E cmpLe(const E &a, const E &b, bool strict, bool isint) { E x = tr(a), y = tr(b); if (!strict) return x <= y; return isint ? x + 1 <= y : x < y; }
    E form(const E &e, bool neg) {  // boolean
        if (!e.is_app()) { ok = false; return e; }
        switch (e.decl().decl_kind()) {
        case Z3_OP_TRUE: return C->bool_val(!neg); case Z3_OP_FALSE: return C->bool_val(neg);
        case Z3_OP_NOT: return form(e.arg(0), !neg);
        case Z3_OP_AND: case Z3_OP_OR: { bool conj = (e.decl().decl_kind() == Z3_OP_AND) != neg; z3::expr_vector v(*C); for (unsigned i = 0; i < e.num_args(); ++i) v.push_back(form(e.arg(i), neg)); return conj ? z3::mk_and(v) : z3::mk_or(v); }
        case Z3_OP_IMPLIES: return neg ? form(e.arg(0), false) && form(e.arg(1), true) : form(e.arg(0), true) || form(e.arg(1), false);
        case Z3_OP_LE: return neg ? cmpLe(e.arg(1), e.arg(0), true, e.arg(0).is_int()) : cmpLe(e.arg(0), e.arg(1), false, false);
        case Z3_OP_GE: return neg ? cmpLe(e.arg(0), e.arg(1), true, e.arg(0).is_int()) : cmpLe(e.arg(1), e.arg(0), false, false);
        case Z3_OP_LT: return neg ? cmpLe(e.arg(1), e.arg(0), false, false) : cmpLe(e.arg(0), e.arg(1), true, e.arg(0).is_int());
        case Z3_OP_GT: return neg ? cmpLe(e.arg(0), e.arg(1), false, false) : cmpLe(e.arg(1), e.arg(0), true, e.arg(0).is_int());
        case Z3_OP_EQ: case Z3_OP_DISTINCT: {
            if (e.num_args() != 2) { ok = false; return e; }
            bool ng = neg != (e.decl().decl_kind() == Z3_OP_DISTINCT);
            E a = e.arg(0), b = e.arg(1);
            if (a.is_bool()) { E p = form(a, false), q = form(b, false), np = form(a, true), nq = form(b, true); return ng ? (p && nq) || (np && q) : (p && q) || (np && nq); }
            E x = tr(a), y = tr(b);
            if (!ng) return x == y;
            return a.is_int() ? (x + 1 <= y || y + 1 <= x) : x != y;
        }
        case Z3_OP_XOR: { E p = form(e.arg(0), false), q = form(e.arg(1), neg), np = form(e.arg(0), true), nq = form(e.arg(1), !neg); return (p && nq) || (np && q); }
        case Z3_OP_ITE: return (form(e.arg(0), false) && form(e.arg(1), neg)) || (form(e.arg(0), true) && form(e.arg(2), neg));
        case Z3_OP_UNINTERPRETED: if (e.num_args() == 0) return neg ? !e : e; break;
        default: break;
        }
        ok = false; return e;
    }
    E tr(const E &e) {  // arithmetic -> real
        unsigned id = Z3_get_ast_id(*C, e);
        auto it = memo.find(id); if (it != memo.end()) return it->second;
        E r = tr2(e); keepAlive.push_back(e); memo.emplace(id, r); return r;
    }
    E tr2(const E &e) {
        mpq_class q; if (numeralToMpq(e, q)) return numReal(q);
        if (!e.is_app()) { ok = false; return C->real_val(0); }
        switch (e.decl().decl_kind()) {
        case Z3_OP_ADD: { E r = tr(e.arg(0)); for (unsigned i = 1; i < e.num_args(); ++i) r = r + tr(e.arg(i)); return r; }
        case Z3_OP_SUB: { E r = tr(e.arg(0)); for (unsigned i = 1; i < e.num_args(); ++i) r = r - tr(e.arg(i)); return r; }
        case Z3_OP_MUL: { E r = tr(e.arg(0)); for (unsigned i = 1; i < e.num_args(); ++i) r = r * tr(e.arg(i)); return r; }
        case Z3_OP_UMINUS: return -tr(e.arg(0));
        case Z3_OP_DIV: return tr(e.arg(0)) / tr(e.arg(1));
        case Z3_OP_TO_REAL: return tr(e.arg(0));
        case Z3_OP_TO_INT: { E t = fr(), x = tr(e.arg(0)); side.push_back(t <= x); side.push_back(x < t + 1); return t; }
        case Z3_OP_ITE: { E t = fr(), c = form(e.arg(0), false), nc = form(e.arg(0), true), a = tr(e.arg(1)), b = tr(e.arg(2)); side.push_back((c && t == a) || (nc && t == b)); return t; }
        case Z3_OP_IDIV: case Z3_OP_MOD: {
            E x = tr(e.arg(0)), y = tr(e.arg(1));
            unsigned k1 = Z3_get_ast_id(*C, e.arg(0)), k2 = Z3_get_ast_id(*C, e.arg(1));
            auto key = std::make_pair(k1, k2);
            auto it = dm.find(key);
            if (it == dm.end()) { E q = fr(), r = fr(); side.push_back(y < 1 || (x == y * q + r && r >= 0 && r + 1 <= y)); it = dm.emplace(key, std::make_pair(q, r)).first; }
            return e.decl().decl_kind() == Z3_OP_IDIV ? it->second.first : it->second.second;
        }
        case Z3_OP_UNINTERPRETED: if (e.num_args() == 0) { if (e.is_real()) return e; E v = C->real_const(("int!" + e.decl().name().str()).c_str()); intVars.push_back({e, v}); return v; } break;
        default: break;
        }
        ok = false; return C->real_val(0);
    }
    std::map<std::pair<unsigned, unsigned>, std::pair<E, E>> dm;
};
static bool nonlinearInt(const std::vector<E> &v) {
    std::unordered_set<unsigned> seen; std::vector<E> st(v.begin(), v.end());
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*C, x)).second || !x.is_app()) continue;
        auto k = x.decl().decl_kind();
        if (x.is_int()) {
            if (k == Z3_OP_MUL) { int nn = 0; for (unsigned i = 0; i < x.num_args(); ++i) nn += !x.arg(i).is_numeral(); if (nn > 1) return true; }
            if ((k == Z3_OP_IDIV || k == Z3_OP_MOD) && !x.arg(1).is_numeral()) return true;
        }
        if (k == Z3_OP_TO_REAL) { return true; }
        for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i));
    }
    return false;
}
static bool nonlinearReal(const std::vector<E> &v) {
    std::unordered_set<unsigned> seen; std::vector<E> st(v.begin(), v.end());
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (!seen.insert(Z3_get_ast_id(*C, x)).second || !x.is_app()) continue;
        auto k = x.decl().decl_kind();
        if (k == Z3_OP_MUL) { int nn = 0; for (unsigned i = 0; i < x.num_args(); ++i) nn += !x.arg(i).is_numeral(); if (nn > 1) return true; }
        if (k == Z3_OP_POWER || (k == Z3_OP_DIV && !x.arg(1).is_numeral())) return true;
        for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i));
    }
    return false;
}
// Linear abstraction over monomials: every polynomial comparison is put in normal form, each monomial of degree >= 2 becomes a
// fresh variable (with sign / McCormick / pairwise-product facts), and the result is decided by linear arithmetic. Sound for unsat.
static E evalIn(const Model &m, const E &e);
struct MonoAbs {
    std::map<Mono, E> var; std::unordered_map<unsigned, E> fmemo, atomVar; std::vector<E> side; std::vector<E> hyps; RIMap ex, cache; int n = 0;
    E fresh(bool b = false) { std::string nm = "mono!" + std::to_string(n++); return b ? C->bool_const(nm.c_str()) : C->real_const(nm.c_str()); }
    E atom(unsigned id) {
        auto it = atomVar.find(id); if (it != atomVar.end()) return it->second;
        E a = atomById(id);
        if (a.is_app() && a.num_args() == 0) { atomVar.emplace(id, a); return a; }
        E v = fresh(); atomVar.emplace(id, v);
        if (a.is_app() && a.decl().decl_kind() == Z3_OP_ITE) { E c = form(a.arg(0)); side.push_back(z3::ite(c, v == real(a.arg(1)), v == real(a.arg(2)))); }
        return v;
    }
    E mono(const Mono &m) {
        if (m.empty()) return numReal(1);
        if (m.size() == 1 && m[0].second == 1) return atom(m[0].first);
        auto it = var.find(m); if (it != var.end()) return it->second;
        E v = fresh(); var.emplace(m, v);
        bool sq = true; for (auto &f : m) if (f.second % 2) sq = false;
        if (sq) side.push_back(v >= 0);
        return v;
    }
    E poly(const RPoly &p) {
        z3::expr_vector t(*C);
        for (auto &x : p) { E m = mono(x.first); t.push_back(x.first.empty() ? numReal(x.second) : numReal(x.second) * m); }
        if (t.empty()) return numReal(0);
        return t.size() == 1 ? t[0] : z3::sum(t);
    }
    E real(const E &e) {
        auto r = toRat(e, 0);
        if (r.second.size() == 1 && r.second.begin()->first.empty()) { RPoly p = r.first; for (auto &t : p) t.second /= r.second.begin()->second; return poly(p); }
        auto it = atomVar.find(Z3_get_ast_id(*C, e)); if (it != atomVar.end()) return it->second;
        E v = fresh(); atomVar.emplace(Z3_get_ast_id(*C, e), v); keepAlive.push_back(e);
        E dn = poly(r.second); (void)dn;
        return v;
    }
    // sign of a divisor (nonzero) from the polynomial hypotheses by linear arithmetic
    std::unique_ptr<z3::solver> lp; std::map<RPoly, int> lpMemo;
    int lpSign(const RPoly &p) {
        auto it = lpMemo.find(p); if (it != lpMemo.end()) return it->second;
        int r = 9;
        if (p.size() <= 60) try {
            if (!lp) {
                lp.reset(new z3::solver(*C, "QF_LRA")); z3::params q(*C); q.set("timeout", 30u); lp->set(q);
                for (auto &h : hyps) { auto &x = hypOf(h); if (!x || x->p.size() > 60) continue; E e = poly(x->p); lp->add(x->op == 2 ? e == 0 : x->op == 1 ? e > 0 : e >= 0); }
            }
            E e = poly(p);
            lp->push(); lp->add(e < 0); bool notNeg = lp->check() == z3::unsat; lp->pop();
            if (notNeg) r = 1;
            else { lp->push(); lp->add(e > 0); if (lp->check() == z3::unsat) r = -1; lp->pop(); }
        } catch (z3::exception &) {}
        return lpMemo[p] = r;
    }
    E form(const E &c) {
        unsigned id = Z3_get_ast_id(*C, c);
        auto it = fmemo.find(id); if (it != fmemo.end()) return it->second;
        keepAlive.push_back(c);
        E r = form1(c); fmemo.emplace(id, r); return r;
    }
    E form1(const E &c) {
        if (!c.is_app()) return fresh(true);
        auto k = c.decl().decl_kind();
        if (c.num_args() == 2 && c.arg(0).is_real() && (k == Z3_OP_EQ || k == Z3_OP_LE || k == Z3_OP_LT || k == Z3_OP_GE || k == Z3_OP_GT)) {
            auto d = toRat(c.arg(0) - c.arg(1), 0);
            int ds = 1;
            if (!(d.second.size() == 1 && d.second.begin()->first.empty())) { ds = rSign(d.second, &ex, cache, &hyps); if (ds == 2) ds = 1; if (ds == -2) ds = -1; if (ds != 1 && ds != -1) ds = lpSign(d.second); if (ds != 1 && ds != -1) return fresh(true); }
            else if (sgn(d.second.begin()->second) < 0) ds = -1;
            RPoly p = d.first;
            if (!p.empty()) { mpq_class l = abs(p.begin()->second); if (ds < 0) l = -l; for (auto &t : p) t.second /= l; }
            E x = poly(p), z = numReal(0);
            return k == Z3_OP_EQ ? x == z : k == Z3_OP_LE ? x <= z : k == Z3_OP_LT ? x < z : k == Z3_OP_GE ? x >= z : x > z;
        }
        if (c.num_args() == 0) return c;
        switch (k) {
        case Z3_OP_NOT: return !form(c.arg(0));
        case Z3_OP_AND: case Z3_OP_OR: { z3::expr_vector v(*C); for (unsigned i = 0; i < c.num_args(); ++i) v.push_back(form(c.arg(i))); return k == Z3_OP_AND ? z3::mk_and(v) : z3::mk_or(v); }
        case Z3_OP_IMPLIES: return z3::implies(form(c.arg(0)), form(c.arg(1)));
        case Z3_OP_XOR: return form(c.arg(0)) != form(c.arg(1));
        case Z3_OP_EQ: case Z3_OP_IFF: if (c.arg(0).is_bool()) return form(c.arg(0)) == form(c.arg(1)); break;
        case Z3_OP_DISTINCT: if (c.num_args() == 2) return !form(c.arg(0) == c.arg(1)); break;
        case Z3_OP_ITE: return z3::ite(form(c.arg(0)), form(c.arg(1)), form(c.arg(2)));
        default: break;
        }
        return fresh(true);
    }
    // products of pairs of linear hypotheses whose monomials already occur, and bounds on binary products
    void facts() {
        std::vector<std::pair<RPoly, int>> H;
        for (auto &h : hyps) { auto &x = hypOf(h); if (!x || x->p.size() > 40) continue; H.push_back({x->p, x->op}); if (H.size() >= 60) break; }
        std::set<unsigned> at; for (auto &m : var) for (auto &f : m.first) at.insert(f.first);
        for (unsigned a : at) { RI r = rint_(atomById(a), &ex, cache); RPoly p; p[Mono{{a, 1}}] = 1;
            if (std::isfinite(r.lo)) { RPoly q = p; if (r.lo != 0) q[Mono{}] = -mpq_class(r.lo); H.push_back({q, 0}); }
            if (std::isfinite(r.hi)) { RPoly q; q[Mono{{a, 1}}] = -1; if (r.hi != 0) q[Mono{}] = mpq_class(r.hi); H.push_back({q, 0}); } }
        auto deg = [](const RPoly &p) { unsigned d = 0; for (auto &t : p) { unsigned s = 0; for (auto &f : t.first) s += f.second; d = std::max(d, s); } return d; };
        std::vector<unsigned> dg; for (auto &h : H) dg.push_back(deg(h.first));
        unsigned mx = 0; for (auto &m : var) { unsigned s = 0; for (auto &f : m.first) s += f.second; mx = std::max(mx, s); }
        size_t budget = 1500;
        for (size_t i = 0; i < H.size() && budget; ++i) for (size_t j = i; j < H.size() && budget; ++j) {
            if (dg[i] + dg[j] > mx || dg[i] == 0 || dg[j] == 0) continue;
            if (H[i].first.size() * H[j].first.size() > 60) continue;
            try {
                RPoly p = rMul(H[i].first, H[j].first); bool known = true;
                for (auto &t : p) { unsigned s = 0; for (auto &f : t.first) s += f.second; if (s >= 2 && !var.count(t.first)) { known = false; break; } }
                if (!known) continue;
                E x = poly(p);
                side.push_back((H[i].second == 2 || H[j].second == 2) ? x == 0 : (H[i].second == 1 && H[j].second == 1) ? x > 0 : x >= 0);
                budget--;
            } catch (RTooBig &) {}
        }
    }
};
// Nonlinear real queries run in forked children (default solver and nlsat side by side), so that a time limit is a hard one.
static z3::check_result forkSolve(const std::vector<E> &fs, double tmo, std::shared_ptr<Model> *mOut, std::string &by) {
    struct P { pid_t pid; int fd; std::string out; bool done = false; };
    std::vector<P> ps;
    std::unique_ptr<MonoAbs> A; std::vector<E> g; size_t side0 = 0;
    try {
        A.reset(new MonoAbs); A->hyps = fs;
        for (auto &f : fs) riAtoms(f, false, A->ex);
        for (auto &f : fs) g.push_back(A->form(f));
        side0 = A->side.size();
        if (A->var.size() > 4000) A.reset();
    } catch (RTooBig &) { A.reset(); } catch (z3::exception &) { A.reset(); }
    if (A && A->var.size() < 300) {  // the linear abstraction is decided in-process first (linear arithmetic terminates quickly)
        try {
            z3::solver s(*C, "QF_LRA"); z3::params p(*C); p.set("timeout", 50u); s.set(p);
            for (auto &f : g) s.add(f); for (size_t i = 0; i < side0; ++i) s.add(A->side[i]);
            if (s.check() == z3::unsat) { by = "z3-4.8-linear(monomials)"; return z3::unsat; }
        } catch (z3::exception &) {}
    }
    if (A) try { A->facts(); } catch (RTooBig &) { A.reset(); } catch (z3::exception &) { A.reset(); }
    std::vector<int> kind;
    for (int w = 0; w < 4; ++w) {
        if (w >= 2 && !A) continue;
        if (w == 2) continue;  // done above
        if (w == 3 && A->side.size() == side0) continue;
        int pf[2]; if (pipe(pf)) continue;
        pid_t pid = fork();
        if (pid == 0) {
            close(pf[0]); setpgid(0, 0);
            std::string out = "unknown\n";
            try {
                z3::solver s = w == 1 ? z3::tactic(*C, "qfnra-nlsat").mk_solver() : z3::solver(*C);
                z3::params p(*C); p.set("timeout", (unsigned)(tmo * 1000)); s.set(p);
                if (w < 2) for (auto &f : fs) s.add(f);
                else { for (auto &f : g) s.add(f); for (size_t i = 0; i < (w == 2 ? side0 : A->side.size()); ++i) s.add(A->side[i]); }
                auto r = s.check();
                if (r == z3::unsat) out = "unsat\n";
                if (r == z3::sat && w >= 2) {   // lucky: the linear model may satisfy the real query
                    z3::model md = s.get_model(); Model m;
                    for (unsigned i = 0; i < md.num_consts(); ++i) { z3::func_decl d = md.get_const_decl(i); if (d.name().str().rfind("mono!", 0) == 0) continue; E val = md.get_const_interp(d); if (val.is_numeral() || val.is_bool()) m.kv.push_back({d(), val}); }
                    for (auto &f : fs) if (!isTrue(evalIn(m, f))) { r = z3::unknown; break; }
                }
                if (r == z3::sat) {
                    out = "sat\n";
                    z3::model md = s.get_model();
                    for (unsigned i = 0; i < md.num_consts(); ++i) {
                        z3::func_decl d = md.get_const_decl(i); E val = md.get_const_interp(d); std::string v;
                        if (val.is_bool()) v = val.is_true() ? "true" : "false";
                        else if (val.is_numeral()) v = (val.is_int() ? "i" : "") + std::string(Z3_get_numeral_string(*C, val));
                        else if (val.is_real() && val.is_algebraic()) { v = Z3_get_numeral_decimal_string(*C, val, 30); if (!v.empty() && v.back() == '?') v.pop_back(); }
                        else continue;
                        out += d.name().str() + "\x01" + v + "\n";
                    }
                    out += "end\n";
                }
            } catch (z3::exception &) {}
            size_t off = 0; while (off < out.size()) { ssize_t n = write(pf[1], out.data() + off, out.size() - off); if (n <= 0) break; off += n; }
            _exit(0);
        }
        close(pf[1]); fcntl(pf[0], F_SETFL, O_NONBLOCK);
        ps.push_back({pid, pf[0]}); kind.push_back(w);
    }
    double t0 = now(); int winner = -1; size_t open_ = ps.size(); z3::check_result r = z3::unknown;
    useconds_t nap = 200;
    while (open_ && winner < 0 && now() - t0 < tmo + 0.3) {
        for (size_t i = 0; i < ps.size() && winner < 0; ++i) {
            if (ps[i].done) continue;
            char b[4096]; ssize_t n;
            while ((n = read(ps[i].fd, b, sizeof b)) > 0) ps[i].out.append(b, n);
            if (n == 0) { ps[i].done = true; open_--; }
            if (ps[i].out.rfind("unsat\n", 0) == 0) { winner = (int)i; r = z3::unsat; }
            else if (ps[i].done && ps[i].out.rfind("sat\n", 0) == 0 && ps[i].out.find("end\n") != std::string::npos) { winner = (int)i; r = z3::sat; }
        }
        if (winner < 0) { usleep(nap); if (nap < 5000) nap = nap * 5 / 4; }
    }
    for (auto &p : ps) { kill(p.pid, SIGKILL); close(p.fd); waitpid(p.pid, nullptr, 0); }
    if (winner < 0) return r;
    { static const char *nm[] = {"z3-4.8", "z3-4.8-nlsat", "z3-4.8-linear(monomials)", "z3-4.8-linear(monomials+products)"}; by = nm[kind[winner]]; }
    if (r == z3::sat && mOut) {
        std::map<std::string, E> vars; std::unordered_set<unsigned> seen; std::vector<E> st(fs.begin(), fs.end());
        while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(Z3_get_ast_id(*C, x)).second || !x.is_app()) continue;
            if (x.num_args() == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) vars.emplace(x.decl().name().str(), x);
            for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i)); }
        auto m = std::make_shared<Model>(); std::istringstream is(ps[winner].out); std::string l;
        while (std::getline(is, l)) {
            auto q = l.find('\x01'); if (q == std::string::npos) continue;
            auto it = vars.find(l.substr(0, q)); if (it == vars.end()) continue;
            std::string v = l.substr(q + 1);
            m->kv.push_back({it->second, it->second.is_bool() ? C->bool_val(v == "true") : it->second.is_int() ? C->int_val(v.c_str() + (v[0] == 'i')) : C->real_val(v.c_str())});
        }
        *mOut = m;
    }
    return r;
}

static z3::check_result z3solve(const std::vector<E> &fs, double tmo, std::shared_ptr<Model> *mOut, std::string &by) {
    nQueries++;
    double t0 = now();
    z3::check_result r = z3::unknown;
    auto attempt = [&](z3::solver s, const char *nm, double tm) {
        z3::params p(*C); p.set("timeout", (unsigned)(tm * 1000)); s.set(p);
        for (auto &f : fs) s.add(f);
        try { r = s.check(); } catch (z3::exception &ex) { r = z3::unknown; }
        if (r != z3::unknown) by = nm;
        if (r == z3::sat && mOut) {
            auto m = std::make_shared<Model>();
            try {
                z3::model md = s.get_model();
                bool ok = true;
                for (unsigned i = 0; i < md.num_consts(); ++i) {
                    z3::func_decl d = md.get_const_decl(i);
                    E val = md.get_const_interp(d);
                    if (!(val.is_numeral() || val.is_bool())) {
                        if (val.is_real() && val.is_algebraic()) { // irrational: round to a rational (replay only)
                            std::string sN = Z3_get_numeral_decimal_string(*C, val, 30);
                            if (!sN.empty() && sN.back() == '?') sN.pop_back();
                            val = C->real_val(sN.c_str()); ok = false;
                        } else { ok = false; continue; }
                    }
                    m->kv.push_back({d(), val});
                }
                if (md.num_funcs() > 0) ok = false;
                (void)ok;
                *mOut = m;
            } catch (z3::exception &) {}
        }
    };
    if (pureReal(fs)) {
        if (nonlinearReal(fs)) r = forkSolve(fs, tmo, mOut, by);
        else attempt(z3::solver(*C), "z3-4.8", tmo);
    } else if (nonlinearInt(fs)) {
        Relaxer R; std::vector<E> rf;
        for (auto &f : fs) rf.push_back(R.form(f, false));
        if (R.ok) {
            for (auto &x : R.side) rf.push_back(x);
            z3::check_result rr = z3::unknown;
            try { z3::solver s = z3::tactic(*C, "qfnra-nlsat").mk_solver(); z3::params p(*C); p.set("timeout", (unsigned)(tmo * 1000)); s.set(p); for (auto &f : rf) s.add(f); rr = s.check(); } catch (z3::exception &) { rr = z3::unknown; }
            if (rr == z3::unsat) { r = z3::unsat; by = "z3-4.8-nlsat(real-relaxation)"; }
        }
        if (r == z3::unknown) r = externalSolve(fs, std::max(1.0, tmo), mOut, by);
    } else if (nonlinearReal(fs)) r = forkSolve(fs, tmo, mOut, by);
    else attempt(z3::solver(*C), "z3-4.8", tmo);
    solverTime += now() - t0;
    timeBy[by.empty() ? "z3-4.8" : by] += now() - t0;
    return r;
}
static std::string runCmdRace(const std::vector<std::vector<std::string>> &cmds, double tmo, int &winner) {
    struct P { pid_t pid; int fd; std::string out; bool done = false; };
    std::vector<P> ps;
    for (auto &c : cmds) {
        int pf[2]; if (pipe(pf)) continue;
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            dup2(pf[1], 1); int dn = open("/dev/null", O_RDWR); dup2(dn, 2); dup2(dn, 0);
            close(pf[0]);
            std::vector<char *> av; for (auto &s : c) av.push_back(const_cast<char *>(s.c_str())); av.push_back(nullptr);
            execvp(av[0], av.data()); _exit(127);
        }
        close(pf[1]); fcntl(pf[0], F_SETFL, O_NONBLOCK);
        ps.push_back({p, pf[0]});
    }
    double t0 = now(); winner = -1; std::string res = "unknown";
    size_t open_ = ps.size();
    while (open_ && now() - t0 < tmo + 2) {
        for (size_t i = 0; i < ps.size(); ++i) {
            if (ps[i].done) continue;
            char b[4096]; ssize_t n = read(ps[i].fd, b, sizeof b);
            if (n > 0) ps[i].out.append(b, n);
            else if (n == 0) { ps[i].done = true; open_--; }
            if (ps[i].done || ps[i].out.find('\n') != std::string::npos) {
                if (ps[i].out.rfind("unsat", 0) == 0) { winner = (int)i; res = "unsat"; }
                else if (ps[i].out.rfind("sat", 0) == 0 && ps[i].done) { winner = (int)i; res = ps[i].out; }
            }
        }
        if (winner >= 0) break;
        usleep(2000);
    }
    for (auto &p : ps) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); close(p.fd); waitpid(p.pid, nullptr, 0); }
    return res;
}
static int smtN = 0;
static z3::check_result externalSolve(const std::vector<E> &fs, double tmo, std::shared_ptr<Model> *mOut, std::string &by) {
    z3::solver s(*C);
    std::map<std::string, E> vars;
    std::unordered_set<unsigned> seen;
    std::vector<E> st(fs.begin(), fs.end());
    while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(Z3_get_ast_id(*C, x)).second) continue;
        if (x.is_app()) { if (x.num_args() == 0 && x.decl().decl_kind() == Z3_OP_UNINTERPRETED) vars.emplace(x.to_string(), x);
            for (unsigned i = 0; i < x.num_args(); ++i) st.push_back(x.arg(i)); } }
    for (auto &f : fs) s.add(f);
    std::string fn = opt.smtdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(smtN++) + ".smt2";
    {
        std::string txt = s.to_smt2();
        std::ofstream o(fn);
        o << "(set-option :produce-models true)\n(set-logic ALL)\n" << txt;
        if (!vars.empty()) { o << "(get-value ("; for (auto &v : vars) o << v.first << " "; o << "))\n"; }
    }
    std::string t = std::to_string((int)tmo);
    int w = -1; double t0 = now();
    std::vector<std::vector<std::string>> cmds = {
        {"z3-new", "-T:" + t, fn}, {"cvc5", "--tlimit=" + t + "000", "--nl-ext-tplanes", "-q", fn}};
    if (pureReal(fs)) cmds.push_back({"cvc5", "--tlimit=" + t + "000", "--nl-cov", "-q", fn});
    std::string r = runCmdRace(cmds, tmo, w);
    solverTime += now() - t0;
    unlink(fn.c_str());
    static const char *nm[] = {"z3-5.3", "cvc5-1.1.2", "cvc5-1.1.2-cov"};
    if (w >= 0) { by = nm[w]; timeBy[by] += now() - t0; }
    if (r == "unsat") return z3::unsat;
    if (r.rfind("sat", 0) == 0) {
        if (mOut) {
            auto m = std::make_shared<Model>();
            // parse ((name value) ...)
            size_t p = r.find('(');
            if (p != std::string::npos) {
                try {
                    for (auto &v : vars) {
                        std::string key = "(" + v.first + " ";
                        size_t q = r.find(key);
                        if (q == std::string::npos) continue;
                        q += key.size(); int dep = 0; size_t e = q;
                        while (e < r.size()) { if (r[e] == '(') dep++; if (r[e] == ')') { if (dep == 0) break; dep--; } e++; }
                        std::string sv = r.substr(q, e - q);
                        if (sv.find("root-obj") != std::string::npos || sv.find("real_algebraic") != std::string::npos) continue;
                        std::string decl = v.second.is_int() ? "Int" : v.second.is_bool() ? "Bool" : "Real";
                        z3::expr_vector ev = C->parse_string(("(declare-const zz__ " + decl + ")(assert (= zz__ " + sv + "))").c_str());
                        E val = ev[0].arg(1).simplify();
                        if (!val.is_numeral() && !val.is_bool()) val = ev[0].arg(0).simplify();
                        m->kv.push_back({v.second, val});
                    }
                } catch (z3::exception &) {}
            }
            *mOut = m;
        }
        return z3::sat;
    }
    return z3::unknown;
}
static E evalIn(const Model &m, const E &e) {
    z3::expr_vector a(*C), b(*C);
    for (auto &kv : m.kv) { a.push_back(kv.first); b.push_back(kv.second); }
    E x = e;
    return x.substitute(a, b).simplify();
}
static std::shared_ptr<Model> mergeModel(const std::shared_ptr<Model> &old, const std::shared_ptr<Model> &nw) {
    if (!nw) return nullptr;
    auto r = std::make_shared<Model>(*nw);
    if (old) {
        std::set<unsigned> have;
        for (auto &kv : nw->kv) have.insert(Z3_get_ast_id(*C, kv.first));
        for (auto &kv : old->kv) if (!have.count(Z3_get_ast_id(*C, kv.first))) r->kv.push_back(kv);
    }
    return r;
}
static std::string siteOf(const State &S);
// feasibility of pc & cond
static z3::check_result feasible(State &S, const E &cond, std::shared_ptr<Model> *mOut, bool obligation = false, std::string *byOut = nullptr) {
    if (isTrue(cond)) { if (mOut) *mOut = S.model; return z3::sat; }
    if (isFalse(cond)) return z3::unsat;
    if (!obligation && S.model) {
        E v = evalIn(*S.model, cond);
        if (isTrue(v)) { if (mOut) *mOut = S.model; return z3::sat; }
    }
    if (riDecide(cond, nullptr, riCache) == 0) { if (byOut) *byOut = "engine-intervals"; return z3::unsat; }
    if (ratDecide(cond) == 0) { if (byOut) *byOut = "engine-algebra"; return z3::unsat; }
    if (!obligation) { RIMap ex; for (auto &x : S.pc) riAtoms(x, false, ex); if (ratDecide(cond, &ex, &S.pc) == 0) { if (byOut) *byOut = "engine-algebra"; return z3::unsat; } }
    std::vector<E> q{cond};
    std::vector<E> sl = slice(S, q);
    sl.push_back(cond);
    std::shared_ptr<Model> m; std::string by;
    double tq = now();
    static std::map<std::vector<unsigned>, std::string> unsatCache;
    std::vector<unsigned> key; key.reserve(sl.size());
    for (auto &x : sl) key.push_back(Z3_get_ast_id(*C, x));
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    { auto ci = unsatCache.find(key); if (ci != unsatCache.end()) { if (byOut) *byOut = ci->second; return z3::unsat; } }
    z3::check_result r = z3solve(sl, obligation ? std::min(opt.obTimeout, 4.0) : opt.brTimeout, &m, by);
    if (opt.verbose && now() - tq > 0.02) { std::string cs = cond.to_string(); std::cerr << "SLOW " << now() - tq << (obligation ? " ob " : " br ") << (r == z3::sat ? "sat " : r == z3::unsat ? "unsat " : "unknown ") << by << " " << siteOf(S) << ": " << cs.substr(0, 200) << "\n"; }
    if (r == z3::unknown) {
        RIMap ex, cache;
        for (auto &x : sl) riAtoms(x, false, ex);
        if (riDecide(cond, &ex, cache) == 0) { if (byOut) *byOut = "engine-intervals"; return z3::unsat; }
        for (auto &x : sl) if (riDecide(x, &ex, cache) == 0) { if (byOut) *byOut = "engine-intervals"; return z3::unsat; }
    }
    if (r == z3::unknown && obligation && opt.useExternal) r = externalSolve(sl, opt.obTimeout, &m, by);
    if (r == z3::unsat) { for (auto &x : sl) keepAlive.push_back(x); unsatCache[key] = by; }
    if (r == z3::sat && mOut) *mOut = mergeModel(S.model, m);
    if (byOut) *byOut = by;
    return r;
}

//---------------------------------------------------------------------------------------------- function info
struct FInfo { std::unordered_map<const Value *, unsigned> slot; unsigned n = 0; bool merge = false, skip = false; Function *repl = nullptr; std::string dem; };
static std::unordered_map<const Function *, FInfo> finfo;
static FInfo &info(Function *F) {
    auto it = finfo.find(F);
    if (it != finfo.end()) return it->second;
    FInfo &I = finfo[F];
    for (auto &a : F->args()) I.slot[&a] = I.n++;
    for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) I.slot[&i] = I.n++;
    I.dem = demangle(F->getName().str());
    for (auto &r : opt.merge) if (std::regex_search(I.dem, r)) I.merge = true;
    for (auto &r : opt.skip) if (std::regex_search(I.dem, r)) I.skip = true;
    for (auto &r : opt.replace) if (std::regex_search(I.dem, r.first)) {
        I.repl = M->getFunction(r.second);
        if (!I.repl) unsup("replacement stub not found: " + r.second);
        if (I.repl == F) I.repl = nullptr;
        else replacedFns.insert(I.dem + " -> contract " + r.second);
    }
    return I;
}

static uint64_t nextObj = 1;
static std::map<const Value *, uint64_t> globalObj;
static std::map<uint64_t, const GlobalValue *> objGlobal;
static uint64_t freshN = 0;
static const DebugLoc *curLoc = nullptr;

static std::string where(const State &S) {
    std::string r;
    int n = 0;
    for (size_t i = S.stack.size(); i-- > 0 && n < 6; ) {
        auto &f = S.stack[i];
        const Instruction *I = nullptr;
        if (f.it != f.BB->end()) I = &*f.it;
        if (i + 1 < S.stack.size() && S.stack[i + 1].call) I = S.stack[i + 1].call;
        std::string fn = demangle(f.F->getName().str());
        if (fn.size() > 140) fn = fn.substr(0, 140) + "...";
        if (I && I->getDebugLoc()) {
            auto *sc = cast<DIScope>(I->getDebugLoc().getScope());
            std::string file = sc->getFilename().str();
            if (file.find("/include/c++/") != std::string::npos && n == 0 && i > 0) { }
            r += (n ? " <- " : "") + fn + " (" + file + ":" + std::to_string(I->getDebugLoc().getLine()) + ")";
        } else r += (n ? " <- " : "") + fn;
        n++;
    }
    return r;
}
static std::string siteOf(const State &S) {  // innermost frame in repo code (for obligation naming)
    static std::unordered_map<const Function *, std::pair<bool, std::string>> cache;
    for (size_t i = S.stack.size(); i-- > 0;) {
        auto &f = S.stack[i];
        auto it = cache.find(f.F);
        if (it == cache.end()) {
            std::string fn = demangle(f.F->getName().str());
            auto p = fn.find('(');
            it = cache.emplace(f.F, std::make_pair(fn.rfind("queso::", 0) == 0 || fn.find(" queso::") != std::string::npos, fn.substr(0, p == std::string::npos ? 80 : std::min<size_t>(p, 120)))).first;
        }
        if (it->second.first || i == 0) return it->second.second;
    }
    return "?";
}

static void addPc(State &S, const E &c1) {
    E c = c1.simplify();
    if (isTrue(c)) return;
    if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND) { for (unsigned i = 0; i < c.num_args(); ++i) addPc(S, c.arg(i)); return; }
    S.pc.push_back(c);
}
static std::string valueString(const E &v) {
    if (v.is_bool()) return isTrue(v) ? "1" : "0";
    std::string s; 
    mpq_class q;
    if (numeralToMpq(v, q)) return q.get_str();
    return v.to_string();
}
static void recordFailure(State &S, const std::string &label, const std::string &kind, const std::shared_ptr<Model> &m, const std::string &detail) {
    Failure f; f.label = label; f.where = where(S); f.kind = kind; f.detail = detail;
    if (m) for (auto &in : S.inputs) {
        E v = evalIn(*m, in.second);
        if (!v.is_numeral() && !v.is_bool()) v = in.second.is_bool() ? C->bool_val(false) : in.second.is_int() ? C->int_val(0) : C->real_val(0);
        if (v.is_bool() && !isTrue(v) && !isFalse(v)) v = C->bool_val(false);
        f.inputs.push_back({in.first, valueString(v)});
    }
    size_t same = 0;
    for (auto &x : failures) if (x.label == label) same++;
    if (same < 5) failures.push_back(f);
}
static z3::check_result quickPoly(const E &c) {  // syntactic normalisation before calling a solver
    try {
        z3::params p(*C); p.set("som", true); p.set("arith_lhs", true);
        E s = c.simplify(p);
        if (isTrue(s)) return z3::sat;
        if (isFalse(s)) return z3::unsat;
    } catch (z3::exception &) {}
    return z3::unknown;
}
struct PathEnd {};
// obligation: under pc, cond must hold
static void oblige(State &S, const std::string &label, const E &cond0, const std::string &kind) {
    auto &o = obs[label];
    o.gen++;
    E cond = cond0.simplify();
    if (isTrue(cond)) { o.triv++; o.unsat++; o.by["simplifier"]++; return; }
    if (quickPoly(cond) == z3::sat) { o.unsat++; o.by["z3-simplifier"]++; return; }
    double t0 = now();
    std::shared_ptr<Model> m; std::string by;
    // Split conjunctions for smaller queries.
    std::vector<E> parts;
    std::function<void(const E &)> split = [&](const E &x) {
        if (x.is_app() && x.decl().decl_kind() == Z3_OP_AND) for (unsigned i = 0; i < x.num_args(); ++i) split(x.arg(i));
        else parts.push_back(x);
    };
    split(cond);
    bool allOk = true; 
    for (auto &p : parts) {
        if (isTrue(p) || quickPoly(p) == z3::sat) { by = "z3-simplifier"; continue; }
        if (ratDecide(p) == 1) { by = "engine-algebra"; continue; }
        { RIMap ex; for (auto &x : S.pc) riAtoms(x, false, ex); if (ratDecide(p, &ex, &S.pc) == 1) { by = "engine-algebra"; continue; } }
        z3::check_result r = feasible(S, !p, &m, true, &by);
        if (r == z3::sat && S.feasUnknown) {  // the path itself was never shown feasible: confirm on the whole path condition
            std::vector<E> all(S.pc.begin(), S.pc.end());
            all.insert(all.end(), S.defs.begin(), S.defs.end());
            all.push_back(!p);
            RIMap ex, cache; for (auto &x : all) riAtoms(x, false, ex);
            r = z3::unknown;
            for (auto &x : all) if (riDecide(x, &ex, cache) == 0) { r = z3::unsat; by = "engine-intervals"; break; }
            std::shared_ptr<Model> m2;
            if (r == z3::unknown) r = z3solve(all, std::min(opt.obTimeout, 4.0), &m2, by);
            if (r == z3::unknown && opt.useExternal) r = externalSolve(all, opt.obTimeout, &m2, by);
            if (r == z3::sat) m = m2 ? m2 : m;
        }
        if (r == z3::unsat) continue;
        allOk = false;
        if (r == z3::sat) {
            o.failed++;
            std::string ps = p.to_string(); if (ps.size() > 600) ps = ps.substr(0, 600) + " ...";
            recordFailure(S, label, kind, m, "back end: " + by + "; violated conjunct: " + ps);
        } else {
            o.unknown++;
            std::string ps = p.to_string(); if (ps.size() > 600) ps = ps.substr(0, 600) + " ...";
            if (opt.verbose) std::cerr << "UNKNOWN " << label << " " << ps << "\n";
        }
        break;
    }
    o.t += now() - t0;
    if (allOk) { o.unsat++; o.by[by.empty() ? "z3" : by]++; return; }
    // continue under the assumption that it holds
    z3::check_result r2 = feasible(S, cond, nullptr);
    if (r2 == z3::unsat) throw PathEnd{};
    addPc(S, cond);
    if (S.model && !isTrue(evalIn(*S.model, cond))) S.model = nullptr;
}
static void failHere(State &S, const std::string &label, const std::string &kind, const std::string &detail) {
    auto &o = obs[label]; o.gen++;
    // confirm path feasibility
    std::vector<E> all;
    std::shared_ptr<Model> m = S.model;
    if (!m) {
        for (auto &x : S.pc) all.push_back(x);
        for (auto &x : S.defs) all.push_back(x);
        std::string by;
        z3::check_result r = z3solve(all, opt.obTimeout, &m, by);
        if (r == z3::unknown && opt.useExternal) r = externalSolve(all, opt.obTimeout, &m, by);
        if (r == z3::unsat) { o.unsat++; o.by[by]++; throw PathEnd{}; }
        if (r == z3::unknown) { o.unknown++; throw PathEnd{}; }
    }
    o.failed++;
    recordFailure(S, label, kind, m, detail);
    throw PathEnd{};
}

struct Fork { std::vector<E> conds; };  // re-execute current instruction under each condition
struct ForkStates { };                  // children already pushed

static std::vector<StateP> work;

//---------------------------------------------------------------------------------------------- exact int ops
static bool provably(State &S, const E &c0) {
    E c = c0.simplify();
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    if (S.model && isFalse(evalIn(*S.model, c))) return false;
    static std::unordered_map<std::string, bool> cache;
    return feasible(S, !c, nullptr) == z3::unsat;
}
static mpz_class pow2(unsigned w) { return mpz_class(1) << w; }
static E wrapU(State &S, const E &r, unsigned w) {
    Itv i = itv(r);
    if (i.lo_ok && i.hi_ok && i.lo >= 0 && i.hi < pow2(w)) return r;
    if (provably(S, r >= 0 && r < numInt(pow2(w)))) return r;
    return z3::mod(r, numInt(pow2(w)));
}
static E toSigned(State &S, const Val &v) {
    if (v.k == Val::CInt) {
        int64_t x = v.w == 64 ? (int64_t)v.ci : (int64_t)(v.ci << (64 - v.w)) >> (64 - v.w);
        return C->int_val((int64_t)x);
    }
    E e = toInt(v);
    if (v.k == Val::SBool) return z3::ite(*v.e, C->int_val(-1), C->int_val(0));
    Itv i = itv(e);
    if (i.lo_ok && i.hi_ok && i.lo >= 0 && i.hi < pow2(v.w - 1)) return e;
    if (provably(S, e < numInt(pow2(v.w - 1)))) return e;
    return z3::ite(e >= numInt(pow2(v.w - 1)), e - numInt(pow2(v.w)), e);
}
static int64_t sx(const Val &v) { return v.w >= 64 ? (int64_t)v.ci : (int64_t)(v.ci << (64 - v.w)) >> (64 - v.w); }
static Val fromSigned(State &S, const E &r, unsigned w) {
    Itv i = itv(r);
    if (i.lo_ok && i.lo >= 0 && i.hi_ok && i.hi < pow2(w)) return mkSInt(r, w);
    return mkSInt(wrapU(S, r, w), w);
}
static E concLookup(State &S, const E &e, bool &ok, uint64_t &v) {
    auto it = S.conc.find(Z3_get_ast_id(*C, e));
    ok = it != S.conc.end();
    if (ok) v = it->second.second;
    return e;
}
// enumerate feasible concrete values of e and fork
static uint64_t concretize(State &S, const E &e0, unsigned maxv, const char *why) {
    E e = e0.simplify();
    mpq_class q;
    if (numeralToMpq(e, q)) { mpz_class z = q.get_num(); if (z < 0) return (uint64_t)z.get_si(); return mkSInt(e, 64).ci; }
    bool ok; uint64_t v; concLookup(S, e, ok, v);
    if (ok) return v;
    // find values
    std::vector<mpz_class> vals;
    E excl = C->bool_val(true);
    while (true) {
        std::shared_ptr<Model> m; 
        std::vector<E> q1{excl && (e == e)};
        std::vector<E> sl = slice(S, {e == 0});
        sl.push_back(excl);
        E t = C->int_const("conc__t"); sl.push_back(t == e);
        std::string by;
        z3::check_result r = z3solve(sl, opt.obTimeout, &m, by);
        if (r == z3::unsat) break;
        if (r == z3::unknown) unsup(std::string("cannot enumerate symbolic value for ") + why);
        E x = evalIn(*m, t);
        mpq_class qq; if (!numeralToMpq(x, qq)) unsup("concretize: non numeral");
        vals.push_back(qq.get_num());
        excl = excl && (t != numInt(qq.get_num()));
        if (vals.size() > maxv) {
            boundedNotes.insert(std::string("symbolic value enumeration limit for ") + why);
            unsup(std::string("too many values for ") + why + ": " + e.to_string().substr(0, 200));
        }
    }
    if (vals.empty()) throw PathEnd{};
    std::sort(vals.begin(), vals.end());
    for (size_t i = vals.size(); i-- > 0;) {
        auto n = std::make_unique<State>(S);
        E c = e == numInt(vals[i]);
        addPc(*n, c);
        if (n->model && !isTrue(evalIn(*n->model, c))) n->model = nullptr;
        uint64_t u; if (vals[i] < 0) u = (uint64_t)vals[i].get_si(); else u = mkSInt(numInt(vals[i]), 64).ci;
        keepAlive.push_back(e);
        n->conc.insert({Z3_get_ast_id(*C, e), {e, u}});
        work.push_back(std::move(n));
    }
    throw ForkStates{};
}

//---------------------------------------------------------------------------------------------- memory ops
static ObjP &objRef(State &S, uint64_t id) { return S.mem[id]; }
static Obj *mut(State &S, uint64_t id) {
    ObjP &p = S.mem[id];
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return p.get();
}
static uint64_t newObj(State &S, int64_t size, decltype(Obj::kind) kind, const std::string &name, const Value *origin = nullptr) {
    auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->name = name; o->origin = origin;
    uint64_t id = nextObj++;
    S.mem[id] = o;
    return id;
}
static Val constVal(State &S, const Constant *c);
static uint64_t globalId(State &S, const GlobalValue *gv);
static bool doubleBits(const mpq_class &q, uint64_t &bits) {
    double d = q.get_d();
    if (!std::isfinite(d) || mpq_class(d) != q) return false;
    memcpy(&bits, &d, 8); return true;
}
static Val bitcastTo(State &S, const Val &v, Type *T) {
    if (v.k == Val::Undef) return v;
    if (T->isDoubleTy()) {
        if (v.k == Val::CReal || v.k == Val::SReal || v.k == Val::Special) return v;
        if (v.k == Val::CInt) { double d; uint64_t b = v.ci; memcpy(&d, &b, 8); return mkDouble(d); }
        unsup("reinterpretation of symbolic integer as double");
    }
    if (T->isFloatTy()) {
        if (v.k == Val::CReal || v.k == Val::SReal || v.k == Val::Special) return v;
        if (v.k == Val::CInt) { float d; uint32_t b = (uint32_t)v.ci; memcpy(&d, &b, 4); return mkDouble(d); }
        unsup("reinterpretation of symbolic integer as float");
    }
    if (T->isIntegerTy()) {
        unsigned w = T->getIntegerBitWidth();
        if (v.k == Val::CInt || v.k == Val::SInt || v.k == Val::SBool) {
            if (v.w == w) return v;
            if (v.k == Val::CInt) return mkInt(v.ci, w);
            if (v.k == Val::SBool) return mkSInt(toInt(v), w);
            if (w > v.w) { Val r = v; r.w = w; return r; }
            return mkSInt(z3::mod(toInt(v), numInt(pow2(w))), w);
        }
        if (v.k == Val::Ptr) return v;
        if (v.k == Val::CReal && w == 64) { uint64_t b; if (doubleBits(*v.q, b)) return mkInt(b, 64); unsup("bits of a non-double rational"); }
        if (v.k == Val::CReal && w == 32) { float f = (float)v.q->get_d(); uint32_t b; memcpy(&b, &f, 4); return mkInt(b, 32); }
        if (v.k == Val::Special && w == 64) { double d = v.sp == 0 ? NAN : v.sp * INFINITY; uint64_t b; memcpy(&b, &d, 8); return mkInt(b, 64); }
        if (v.k == Val::SReal && w == 64) return v;  // value carried through an integer register (e.g. coerced struct copy)
        unsup("reinterpretation of a symbolic real as integer");
    }
    if (T->isPointerTy()) {
        if (v.k == Val::Ptr) return v;
        if (v.k == Val::CInt) { if (v.ci == 0) return mkPtr(0, 0); return mkPtr(0, (int64_t)v.ci); }
        unsup("integer used as pointer");
    }
    return v;
}
static Val extractBytes(State &S, const Cell &c, int64_t lo, int64_t n) {  // bytes [lo,lo+n) as integer, little endian
    if (lo == 0 && n == c.size) return c.v;
    Val v = c.v;
    if (v.k == Val::Undef) return v;
    if (v.k == Val::CReal || v.k == Val::Special) v = bitcastTo(S, v, IntegerType::get(M->getContext(), 8 * c.size));
    if (v.k == Val::CInt) return mkInt(v.ci >> (8 * lo), 8 * n);
    if (v.k == Val::SBool) v = mkSInt(toInt(v), 8 * c.size);
    if (v.k == Val::SInt) {
        E e = toInt(v);
        if (lo) e = e / numInt(pow2(8 * lo));
        e = z3::mod(e, numInt(pow2(8 * n)));
        return mkSInt(e, 8 * n);
    }
    if (v.k == Val::Ptr && v.obj == 0 && !v.symoff) return mkInt(v.ci >> (8 * lo), 8 * n);
    unsup("partial access of a symbolic/pointer cell");
}
static Val loadCells(State &S, const Obj &o, int64_t off, int64_t n) {
    auto it = o.cells.find(off);
    if (it != o.cells.end() && it->second.size == n) return it->second.v;
    // containing cell
    it = o.cells.upper_bound(off);
    if (it != o.cells.begin()) {
        auto p = std::prev(it);
        if (p->first <= off && off + n <= p->first + (int64_t)p->second.size) return extractBytes(S, p->second, off - p->first, n);
    }
    // tile
    int64_t pos = off; std::vector<std::pair<int64_t, Val>> parts; bool undef = false;
    while (pos < off + n) {
        auto q = o.cells.upper_bound(pos);
        if (q == o.cells.begin()) { undef = true; break; }
        auto p = std::prev(q);
        int64_t cend = p->first + p->second.size;
        if (cend <= pos) { undef = true; break; }
        int64_t take = std::min(cend, off + n) - pos;
        Val v = extractBytes(S, p->second, pos - p->first, take);
        if (v.k == Val::Undef) { undef = true; break; }
        if (v.k == Val::CReal || v.k == Val::Special) v = bitcastTo(S, v, IntegerType::get(M->getContext(), 8 * take));
        if (v.k == Val::Ptr || v.k == Val::SReal) unsup("combining pointer/real cells");
        parts.push_back({take, v});
        pos += take;
    }
    if (undef) return Val{};
    bool conc = true; for (auto &p : parts) if (p.second.k != Val::CInt) conc = false;
    if (conc) {
        if (n > 8) unsup("wide concrete load");
        uint64_t r = 0; int sh = 0;
        for (auto &p : parts) { r |= (p.second.ci & maskw(8 * p.first)) << sh; sh += 8 * p.first; }
        return mkInt(r, 8 * n);
    }
    E r = C->int_val(0); int sh = 0;
    for (auto &p : parts) { r = r + toInt(p.second) * numInt(pow2(sh)); sh += 8 * p.first; }
    return mkSInt(r.simplify(), 8 * n);
}
static void eraseRange(State &S, Obj &o, int64_t off, int64_t n) {
    auto it = o.cells.upper_bound(off);
    if (it != o.cells.begin()) --it;
    while (it != o.cells.end() && it->first < off + n) {
        int64_t a = it->first, b = a + it->second.size;
        if (b <= off) { ++it; continue; }
        Cell c = it->second;
        it = o.cells.erase(it);
        if (a < off) { Cell l; l.size = off - a; try { l.v = extractBytes(S, c, 0, off - a); } catch (Unsupported &) { l.v = Val{}; } o.cells[a] = l; }
        if (b > off + n) { Cell l; l.size = b - off - n; try { l.v = extractBytes(S, c, off + n - a, b - off - n); } catch (Unsupported &) { l.v = Val{}; } o.cells[off + n] = l; }
    }
}
static void storeCells(State &S, Obj &o, int64_t off, int64_t n, const Val &v) {
    auto it = o.cells.find(off);
    if (it != o.cells.end() && it->second.size == n) { it->second.v = v; return; }
    eraseRange(S, o, off, n);
    Cell c; c.v = v; c.size = n; o.cells[off] = c;
}
// checks validity of access; returns object id
static void checkAccess(State &S, const Val &p, int64_t n, bool write) {
    if (p.k == Val::Undef) failHere(S, "memory-safety:" + siteOf(S), "access through uninitialised pointer", "");
    if (p.k != Val::Ptr) unsup("memory access through non-pointer value");
    if (p.obj == 0) failHere(S, "memory-safety:" + siteOf(S), "null pointer dereference", "");
    auto it = S.mem.find(p.obj);
    if (it == S.mem.end()) {
        auto g = objGlobal.find(p.obj);
        if (g == objGlobal.end()) failHere(S, "memory-safety:" + siteOf(S), "use after free or out of scope", "");
    }
    Obj &o = *S.mem[p.obj];
    if (o.freed) failHere(S, "memory-safety:" + siteOf(S), "use after free", "");
    if (o.kind == Obj::Func) unsup("data access to function");
    if (!p.symoff) {
        int64_t off = (int64_t)p.ci;
        if (off < 0 || off + n > o.size)
            failHere(S, "memory-safety:" + siteOf(S), "out-of-bounds access",
                     "object " + o.name + " size " + std::to_string(o.size) + " offset " + std::to_string(off) + " access " + std::to_string(n));
        obs["memory-safety:" + siteOf(S)].gen++; obs["memory-safety:" + siteOf(S)].triv++; obs["memory-safety:" + siteOf(S)].unsat++;
    } else {
        oblige(S, "memory-safety:" + siteOf(S), *p.e >= 0 && *p.e + (int)n <= C->int_val((int64_t)o.size), "out-of-bounds access");
    }
    if (write && o.isConst) failHere(S, "memory-safety:" + siteOf(S), "write to constant object", o.name);
}
static bool numericCell(const Val &v) { return v.k == Val::CInt || v.k == Val::SInt || v.k == Val::SBool || v.k == Val::CReal || v.k == Val::SReal; }
static Val iteVal(const E &c, const Val &a, const Val &b, bool &ok) {
    ok = true;
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a.k == Val::Undef && b.k == Val::Undef) return a;
    if (a.k == Val::Ptr && b.k == Val::Ptr) {
        if (a.obj == b.obj && !a.symoff && !b.symoff && a.ci == b.ci) return a;
        ok = false; return a;
    }
    if (a.k == Val::Special && b.k == Val::Special && a.sp == b.sp) return a;
    bool ar = a.k == Val::CReal || a.k == Val::SReal, br = b.k == Val::CReal || b.k == Val::SReal;
    bool ai = a.k == Val::CInt || a.k == Val::SInt || a.k == Val::SBool, bi = b.k == Val::CInt || b.k == Val::SInt || b.k == Val::SBool;
    if (a.k == Val::CInt && b.k == Val::CInt && a.ci == b.ci && a.w == b.w) return a;
    if (a.k == Val::CReal && b.k == Val::CReal && *a.q == *b.q) return a;
    if (ar && br) return mkSReal(z3::ite(c, toReal(a), toReal(b)));
    if (ai && bi && a.w == b.w) {
        if (a.w == 1) return mkSBool(z3::ite(c, toBool(a), toBool(b)).simplify());
        if (a.e && b.e && z3::eq(*a.e, *b.e)) return a;
        return mkSInt(z3::ite(c, toInt(a), toInt(b)), a.w);
    }
    if (a.k == Val::Agg && b.k == Val::Agg && a.agg->size() == b.agg->size()) {
        Val r = a; r.agg = std::make_shared<std::vector<Val>>();
        for (size_t i = 0; i < a.agg->size(); ++i) { bool k2; r.agg->push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i], k2)); if (!k2) ok = false; }
        return r;
    }
    ok = false; return a;
}
static Val doLoad(State &S, Val p, Type *T) {
    int64_t n = DL->getTypeStoreSize(T);
    if (p.k == Val::Ptr && p.symoff) {
        bool ok; uint64_t v; concLookup(S, *p.e, ok, v);
        if (ok) { p.symoff = false; p.ci = v; p.e.reset(); }
    }
    checkAccess(S, p, n, false);
    Obj &o = *S.mem[p.obj];
    if (!p.symoff) {
        if (T->isStructTy() || T->isVectorTy() || T->isArrayTy()) {
            Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
            if (auto *st = dyn_cast<StructType>(T)) {
                auto *sl = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i) {
                    Val q = p; q.ci += sl->getElementOffset(i); r.agg->push_back(doLoad(S, q, st->getElementType(i)));
                }
            } else {
                Type *et = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
                unsigned ne = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
                for (unsigned i = 0; i < ne; ++i) { Val q = p; q.ci += i * DL->getTypeAllocSize(et); r.agg->push_back(doLoad(S, q, et)); }
            }
            return r;
        }
        return bitcastTo(S, loadCells(S, o, (int64_t)p.ci, n), T);
    }
    // symbolic offset
    E off = *p.e;
    std::vector<std::pair<int64_t, Val>> cand; bool numeric = true;
    for (auto &c : o.cells) if (c.second.size == n) {
        if (!numericCell(c.second.v)) { numeric = false; break; }
        cand.push_back({c.first, c.second.v});
    }
    if (numeric && !cand.empty() && cand.size() <= 64) {
        // only sound if every feasible offset is a candidate
        E any = C->bool_val(false);
        for (auto &c : cand) any = any || off == C->int_val((int64_t)c.first);
        if (provably(S, any)) {
            std::vector<std::pair<int64_t, Val>> live;
            for (auto &c : cand) if (feasible(S, off == C->int_val((int64_t)c.first), nullptr) != z3::unsat) live.push_back(c);
            if (live.empty()) throw PathEnd{};
            Val r = bitcastTo(S, live.back().second, T); bool good = true;
            for (size_t i = live.size() - 1; i-- > 0;) { bool ok; r = iteVal(off == C->int_val((int64_t)live[i].first), bitcastTo(S, live[i].second, T), r, ok); if (!ok) { good = false; break; } }
            if (good) return r;
        }
    }
    p.ci = concretize(S, off, 64, "load offset"); p.symoff = false;
    return doLoad(S, p, T);
}
static void doStore(State &S, Val p, const Val &v, Type *T) {
    int64_t n = DL->getTypeStoreSize(T);
    if (p.k == Val::Ptr && p.symoff) {
        bool ok; uint64_t cv; concLookup(S, *p.e, ok, cv);
        if (ok) { p.symoff = false; p.ci = cv; p.e.reset(); }
    }
    checkAccess(S, p, n, true);
    if (!p.symoff) {
        if (v.k == Val::Agg) {
            if (auto *st = dyn_cast<StructType>(T)) {
                auto *sl = DL->getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.ci += sl->getElementOffset(i); doStore(S, q, (*v.agg)[i], st->getElementType(i)); }
            } else {
                Type *et = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
                for (unsigned i = 0; i < v.agg->size(); ++i) { Val q = p; q.ci += i * DL->getTypeAllocSize(et); doStore(S, q, (*v.agg)[i], et); }
            }
            return;
        }
        Obj *o = mut(S, p.obj);
        Val sv = v;
        if (v.k == Val::SBool || (v.k == Val::CInt && v.w == 1)) sv = v.k == Val::CInt ? mkInt(v.ci, 8) : mkSInt(toInt(v), 8);
        if (T->isFloatTy() && v.k == Val::CReal) sv = v;
        storeCells(S, *o, (int64_t)p.ci, n, sv);
        return;
    }
    E off = *p.e;
    Obj &o0 = *S.mem[p.obj];
    bool numeric = numericCell(v); std::vector<int64_t> cand;
    if (numeric) for (auto &c : o0.cells) if (c.second.size == n) { if (!numericCell(c.second.v)) { numeric = false; break; } cand.push_back(c.first); }
    if (numeric && !cand.empty() && cand.size() <= 64) {
        E any = C->bool_val(false);
        for (auto c : cand) any = any || off == C->int_val((int64_t)c);
        if (provably(S, any)) {
            std::vector<std::pair<int64_t, Val>> nv; bool good = true;
            for (auto c : cand) {
                if (feasible(S, off == C->int_val((int64_t)c), nullptr) == z3::unsat) continue;
                bool ok; Val old = bitcastTo(S, o0.cells.at(c).v, T);
                Val x = iteVal(off == C->int_val((int64_t)c), v, old, ok);
                if (!ok) { good = false; break; }
                nv.push_back({c, x});
            }
            if (good) { Obj *o = mut(S, p.obj); for (auto &x : nv) o->cells[x.first].v = x.second; return; }
        }
    }
    p.ci = concretize(S, off, 64, "store offset"); p.symoff = false;
    doStore(S, p, v, T);
}
static void doMemcpy(State &S, Val d, Val s, const Val &len) {
    uint64_t n = len.k == Val::CInt ? len.ci : concretize(S, toInt(len), 64, "memcpy length");
    if (n == 0) return;
    if (d.symoff) { d.ci = concretize(S, *d.e, 64, "memcpy dst"); d.symoff = false; }
    if (s.symoff) { s.ci = concretize(S, *s.e, 64, "memcpy src"); s.symoff = false; }
    checkAccess(S, s, n, false); checkAccess(S, d, n, true);
    const Obj &so = *S.mem[s.obj];
    std::vector<std::pair<int64_t, Cell>> parts;
    int64_t a = (int64_t)s.ci, b = a + n;
    auto it = so.cells.upper_bound(a);
    if (it != so.cells.begin()) --it;
    for (; it != so.cells.end() && it->first < b; ++it) {
        int64_t ca = it->first, cb = ca + it->second.size;
        if (cb <= a) continue;
        if (ca >= a && cb <= b) parts.push_back({ca - a, it->second});
        else {
            int64_t x = std::max(ca, a), y = std::min(cb, b);
            Cell c; c.size = y - x; c.v = extractBytes(S, it->second, x - ca, y - x);
            parts.push_back({x - a, c});
        }
    }
    Obj *o = mut(S, d.obj);
    eraseRange(S, *o, (int64_t)d.ci, n);
    for (auto &p : parts) o->cells[(int64_t)d.ci + p.first] = p.second;
}
static void doMemset(State &S, Val d, const Val &byte, const Val &len) {
    uint64_t n = len.k == Val::CInt ? len.ci : concretize(S, toInt(len), 64, "memset length");
    if (n == 0) return;
    if (d.symoff) { d.ci = concretize(S, *d.e, 64, "memset dst"); d.symoff = false; }
    checkAccess(S, d, n, true);
    if (byte.k != Val::CInt) unsup("symbolic memset byte");
    uint64_t pat = 0; for (int i = 0; i < 8; ++i) pat |= (byte.ci & 255) << (8 * i);
    Obj *o = mut(S, d.obj);
    eraseRange(S, *o, (int64_t)d.ci, n);
    int64_t pos = (int64_t)d.ci, end = pos + n;
    while (pos < end) {
        int64_t t = std::min<int64_t>(8, end - pos);
        if (t < 8) t = 1;
        Cell c; c.size = t; c.v = mkInt(pat, 8 * t); o->cells[pos] = c; pos += t;
    }
}

//---------------------------------------------------------------------------------------------- constants
static void initGlobal(State &S, uint64_t id, int64_t off, const Constant *c) {
    Type *T = c->getType();
    if (isa<ConstantAggregateZero>(c) || (c->isNullValue() && !T->isPointerTy() && DL->getTypeAllocSize(T) > 8)) {
        Obj *o = mut(S, id); int64_t n = DL->getTypeAllocSize(T), p = off;
        while (p < off + n) { int64_t t = std::min<int64_t>(8, off + n - p); if (t < 8) t = 1; Cell ce; ce.size = t; ce.v = mkInt(0, 8 * t); o->cells[p] = ce; p += t; }
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobal(S, id, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        int64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(S, id, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        int64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) initGlobal(S, id, off + i * es, cd->getElementAsConstant(i));
        return;
    }
    if (isa<UndefValue>(c)) return;
    Val v = constVal(S, c);
    Cell ce; ce.size = DL->getTypeStoreSize(T); ce.v = v;
    Obj *o = mut(S, id);
    o->cells[off] = ce;
}
static uint64_t globalId(State &S, const GlobalValue *gv) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) gv = cast<GlobalValue>(ga->getAliaseeObject());
    auto it = globalObj.find(gv);
    uint64_t id;
    if (it == globalObj.end()) { id = nextObj++; globalObj[gv] = id; objGlobal[id] = gv; }
    else id = it->second;
    if (S.mem.count(id)) return id;
    auto o = std::make_shared<Obj>();
    o->name = "@" + gv->getName().str();
    if (isa<Function>(gv)) { o->kind = Obj::Func; o->size = 1; o->origin = gv; S.mem[id] = o; return id; }
    auto *g = cast<GlobalVariable>(gv);
    o->kind = Obj::Global; o->origin = gv;
    o->size = DL->getTypeAllocSize(g->getValueType());
    S.mem[id] = o;
    if (g->hasInitializer()) { initGlobal(S, id, 0, g->getInitializer()); }
    else { mut(S, id)->kind = Obj::External; mut(S, id)->size = 4096; }
    if (g->isConstant()) mut(S, id)->isConst = true;
    return id;
}
static Val gepVal(State &S, Val base, const GEPOperator *g, const std::function<Val(const Value *)> &ev);
static Val constVal(State &S, const Constant *c) {
    Type *T = c->getType();
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) return mkInt(ci->getValue().getZExtValue(), 64); unsup("wide integer constant"); }
        return mkInt(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (T->isDoubleTy()) return mkDouble(cf->getValueAPF().convertToDouble());
        if (T->isFloatTy()) return mkDouble(cf->getValueAPF().convertToFloat());
        if (T->isX86_FP80Ty()) { bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return mkDouble(f.convertToDouble()); }
        unsup("fp constant type");
    }
    if (isa<ConstantPointerNull>(c)) return mkPtr(0, 0);
    if (auto *gv = dyn_cast<GlobalValue>(c)) return mkPtr(globalId(S, gv), 0);
    if (isa<UndefValue>(c)) {
        if (T->isStructTy()) { Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(T->getStructNumElements()); return r; }
        if (auto *vt = dyn_cast<FixedVectorType>(T)) { Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(vt->getNumElements()); return r; }
        return Val{};
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: return gepVal(S, constVal(S, ce->getOperand(0)), cast<GEPOperator>(ce), [&](const Value *v) { return constVal(S, cast<Constant>(v)); });
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            return bitcastTo(S, constVal(S, ce->getOperand(0)), T);
        case Instruction::Sub: { Val a = constVal(S, ce->getOperand(0)), b = constVal(S, ce->getOperand(1)); if (a.k == Val::CInt && b.k == Val::CInt) return mkInt(a.ci - b.ci, a.w); } break;
        default: break;
        }
        unsup("constant expression");
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c)) {
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; ++i) r.agg->push_back(constVal(S, c->getAggregateElement(i)));
        return r;
    }
    unsup("constant kind");
}
static Val ptrAdd(State &S, const Val &p, const Val &idx, int64_t scale) {  // idx signed
    if (p.k == Val::Undef) return p;
    Val r = p;
    if (idx.k == Val::Undef) failHere(S, "initialised-data:" + siteOf(S), "pointer arithmetic with uninitialised index", "");
    if (idx.k == Val::CInt) {
        int64_t d = sx(idx) * scale;
        if (!p.symoff) r.ci = (uint64_t)((int64_t)p.ci + d);
        else if (d) r.e = (*p.e + C->int_val((int64_t)d)).simplify();
        return r;
    }
    E d = toSigned(S, idx) * C->int_val((int64_t)scale);
    E base = p.symoff ? *p.e : C->int_val((int64_t)p.ci);
    E t = (base + d).simplify();
    mpq_class q;
    if (numeralToMpq(t, q)) { r.symoff = false; r.e.reset(); r.ci = (uint64_t)q.get_num().get_si(); return r; }
    r.symoff = true; r.e = t; r.ci = 0;
    bool ok; uint64_t cv; concLookup(S, t, ok, cv);
    if (ok) { r.symoff = false; r.e.reset(); r.ci = cv; }
    return r;
}
static Val gepVal(State &S, Val p, const GEPOperator *g, const std::function<Val(const Value *)> &ev) {
    if (p.k == Val::CInt) p = mkPtr(0, (int64_t)p.ci);
    if (p.k != Val::Ptr) { if (p.k == Val::Undef) return p; unsup("gep on non-pointer"); }
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        if (auto *st = it.getStructTypeOrNull()) {
            unsigned i = cast<ConstantInt>(it.getOperand())->getZExtValue();
            p = ptrAdd(S, p, mkInt(DL->getStructLayout(st)->getElementOffset(i), 64), 1);
        } else p = ptrAdd(S, p, ev(it.getOperand()), (int64_t)DL->getTypeAllocSize(it.getIndexedType()));
    }
    return p;
}

//---------------------------------------------------------------------------------------------- operand eval
static Val opnd(State &S, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(S, c);
    Frame &f = S.stack.back();
    FInfo &I = info(f.F);
    auto it = I.slot.find(v);
    if (it == I.slot.end()) unsup("unknown operand");
    return f.regs[it->second];
}
static void setReg(State &S, const Instruction *I, const Val &v) {
    Frame &f = S.stack.back();
    f.regs[info(f.F).slot[I]] = v;
}
static void needDef(State &S, const Val &v, const char *what) {
    if (v.k == Val::Undef) failHere(S, "initialised-data:" + siteOf(S), std::string("use of uninitialised value in ") + what, "");
}

static Val realBin(State &S, unsigned op, const Val &a, const Val &b) {
    needDef(S, a, "arithmetic"); needDef(S, b, "arithmetic");
    if (a.k == Val::Special || b.k == Val::Special) {
        auto sgn = [&](const Val &v) -> int { if (v.k == Val::Special) return v.sp; if (v.k == Val::CReal) return ::sgn(*v.q);
            if (provably(S, toReal(v) > 0)) return 1; if (provably(S, toReal(v) < 0)) return -1; if (provably(S, toReal(v) == 0)) return 0;
            throw Fork{{toReal(v) > 0, toReal(v) < 0, toReal(v) == 0}}; };
        if ((a.k == Val::Special && a.sp == 0) || (b.k == Val::Special && b.sp == 0)) return mkSpecial(0);
        switch (op) {
        case Instruction::FAdd: if (a.k == Val::Special && b.k == Val::Special) return a.sp == b.sp ? a : mkSpecial(0); return a.k == Val::Special ? a : b;
        case Instruction::FSub: if (a.k == Val::Special && b.k == Val::Special) return a.sp != b.sp ? a : mkSpecial(0); return a.k == Val::Special ? a : mkSpecial(-b.sp);
        case Instruction::FMul: { int s1 = sgn(a), s2 = sgn(b); if (s1 * s2 == 0) return mkSpecial(0); return mkSpecial(s1 * s2); }
        case Instruction::FDiv: if (a.k == Val::Special && b.k == Val::Special) return mkSpecial(0); if (b.k == Val::Special) return mkReal(0);
            { int s2 = sgn(b); if (s2 == 0) s2 = 1; return mkSpecial(a.sp * s2); }
        }
        unsup("special fp op");
    }
    if (a.k == Val::CReal && b.k == Val::CReal) {
        switch (op) {
        case Instruction::FAdd: return mkReal(*a.q + *b.q);
        case Instruction::FSub: return mkReal(*a.q - *b.q);
        case Instruction::FMul: return mkReal(*a.q * *b.q);
        case Instruction::FDiv: if (*b.q != 0) return mkReal(*a.q / *b.q); break;
        }
    }
    // light-weight identities
    auto isC = [](const Val &v, int c) { return v.k == Val::CReal && *v.q == c; };
    switch (op) {
    case Instruction::FAdd: if (isC(a, 0)) return b; if (isC(b, 0)) return a; return mkSReal(toReal(a) + toReal(b));
    case Instruction::FSub: if (isC(b, 0)) return a; return mkSReal(toReal(a) - toReal(b));
    case Instruction::FMul: if (isC(a, 0) || isC(b, 0)) return mkReal(0); if (isC(a, 1)) return b; if (isC(b, 1)) return a; return mkSReal(toReal(a) * toReal(b));
    case Instruction::FDiv: {
        if (isC(b, 1)) return a;
        bool bz = isC(b, 0);
        if (!bz && b.k == Val::SReal) {
            E z = toReal(b) == 0;
            if (opt.ieeeDiv) {
                if (!provably(S, !z)) {
                    if (provably(S, z)) bz = true; else throw Fork{{!z, z}};
                }
            } else oblige(S, "nonzero-divisor:" + siteOf(S), !z, "floating-point division by zero");
        }
        if (bz) {
            if (!opt.ieeeDiv) failHere(S, "nonzero-divisor:" + siteOf(S), "floating-point division by zero", "");
            if (a.k == Val::CReal) return mkSpecial(sgn(*a.q));
            E x = toReal(a);
            if (provably(S, x > 0)) return mkSpecial(1); if (provably(S, x < 0)) return mkSpecial(-1); if (provably(S, x == 0)) return mkSpecial(0);
            throw Fork{{x > 0, x < 0, x == 0}};
        }
        return mkSReal(toReal(a) / toReal(b));
    }
    }
    unsup("fp op");
}
// a comparison whose difference is a short polynomial is written that way
static void smallForm(E &x, E &y) {
    std::vector<E> v{x, y}; if (!nonlinearReal(v)) return;
    try {
        auto d = toRat(x - y, 0);
        if (d.second.size() != 1 || !d.second.begin()->first.empty() || d.first.size() > 6) return;
        E s = numReal(0);
        for (auto &t : d.first) { E m = numReal(t.second / d.second.begin()->second); for (auto &f : t.first) for (unsigned k = 0; k < f.second; ++k) m = m * atomById(f.first); s = s + m; }
        x = s.simplify(); y = numReal(0);
    } catch (RTooBig &) {}
}
static Val fcmp(State &S, FCmpInst::Predicate p, const Val &a, const Val &b) {
    needDef(S, a, "comparison"); needDef(S, b, "comparison");
    auto isnan_ = [](const Val &v) { return v.k == Val::Special && v.sp == 0; };
    if (isnan_(a) || isnan_(b)) { bool un = (p >= FCmpInst::FCMP_UNO); if (p == FCmpInst::FCMP_TRUE) un = true; return mkInt(un ? 1 : 0, 1); }
    if (p == FCmpInst::FCMP_UNO) return mkInt(0, 1);
    if (p == FCmpInst::FCMP_ORD) return mkInt(1, 1);
    if (p == FCmpInst::FCMP_TRUE) return mkInt(1, 1);
    if (p == FCmpInst::FCMP_FALSE) return mkInt(0, 1);
    int rel = -2;  // -1,0,1 concrete relation
    if (a.k == Val::Special || b.k == Val::Special) {
        int x = a.k == Val::Special ? a.sp * 2 : 0, y = b.k == Val::Special ? b.sp * 2 : 0;
        rel = x < y ? -1 : x > y ? 1 : 0;
    } else if (a.k == Val::CReal && b.k == Val::CReal) rel = cmp(*a.q, *b.q) < 0 ? -1 : cmp(*a.q, *b.q) > 0 ? 1 : 0;
    auto base = [&](int lt, int eq, int gt) -> Val {
        if (rel != -2) return mkInt(rel < 0 ? lt : rel == 0 ? eq : gt, 1);
        E x = toReal(a), y = toReal(b);
        smallForm(x, y);
        E r = C->bool_val(false);
        if (lt && eq && !gt) r = x <= y; else if (lt && !eq && !gt) r = x < y; else if (!lt && eq && !gt) r = x == y;
        else if (!lt && eq && gt) r = x >= y; else if (!lt && !eq && gt) r = x > y; else if (lt && !eq && gt) r = x != y;
        return mkSBool(r.simplify());
    };
    switch (p) {
    case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: return base(0, 1, 0);
    case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: return base(0, 0, 1);
    case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: return base(0, 1, 1);
    case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: return base(1, 0, 0);
    case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: return base(1, 1, 0);
    case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: return base(1, 0, 1);
    default: unsup("fcmp");
    }
}
static Val icmp(State &S, CmpInst::Predicate p, const Val &a, const Val &b) {
    needDef(S, a, "comparison"); needDef(S, b, "comparison");
    if (a.k == Val::Ptr || b.k == Val::Ptr) {
        auto norm = [&](const Val &v) { if (v.k == Val::Ptr) return v; if (v.k == Val::CInt) return mkPtr(0, (int64_t)v.ci); unsup("pointer compare with symbolic integer"); };
        Val x = norm(a), y = norm(b);
        if (x.obj == y.obj) {
            if (!x.symoff && !y.symoff) {
                int64_t i = (int64_t)x.ci, j = (int64_t)y.ci; bool r;
                switch (p) { case CmpInst::ICMP_EQ: r = i == j; break; case CmpInst::ICMP_NE: r = i != j; break;
                case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = i < j; break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = i <= j; break;
                case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = i > j; break; default: r = i >= j; }
                return mkInt(r, 1);
            }
            E i = x.symoff ? *x.e : C->int_val((int64_t)x.ci), j = y.symoff ? *y.e : C->int_val((int64_t)y.ci);
            switch (p) { case CmpInst::ICMP_EQ: return mkSBool((i == j).simplify()); case CmpInst::ICMP_NE: return mkSBool((i != j).simplify());
            case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return mkSBool((i < j).simplify()); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return mkSBool((i <= j).simplify());
            case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return mkSBool((i > j).simplify()); default: return mkSBool((i >= j).simplify()); }
        }
        if (p == CmpInst::ICMP_EQ) return mkInt(0, 1);
        if (p == CmpInst::ICMP_NE) return mkInt(1, 1);
        // ordering of pointers into different objects (std::less on addresses): fixed but arbitrary order by object id
        bool lt = x.obj < y.obj;
        switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLT: case CmpInst::ICMP_SLE: return mkInt(lt, 1); default: return mkInt(!lt, 1); }
    }
    if (a.k == Val::CInt && b.k == Val::CInt) {
        bool r;
        int64_t sa = sx(a), sb = sx(b);
        switch (p) { case CmpInst::ICMP_EQ: r = a.ci == b.ci; break; case CmpInst::ICMP_NE: r = a.ci != b.ci; break;
        case CmpInst::ICMP_ULT: r = a.ci < b.ci; break; case CmpInst::ICMP_ULE: r = a.ci <= b.ci; break;
        case CmpInst::ICMP_UGT: r = a.ci > b.ci; break; case CmpInst::ICMP_UGE: r = a.ci >= b.ci; break;
        case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; default: unsup("icmp"); }
        return mkInt(r, 1);
    }
    if (a.k == Val::SReal || b.k == Val::SReal || a.k == Val::CReal || b.k == Val::CReal) unsup("integer comparison of real bits");
    if (a.w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
        E r = toBool(a) == toBool(b);
        return mkSBool((p == CmpInst::ICMP_EQ ? r : !r).simplify());
    }
    // integers that are a case distinction between constants (converted bools): compare case by case, which removes the integers
    {
        std::function<int(const E &)> leaves = [&](const E &x) -> int { if (x.is_numeral()) return 1; if (x.is_app() && x.decl().decl_kind() == Z3_OP_ITE) { int l = leaves(x.arg(1)), r = leaves(x.arg(2)); return l && r && l + r <= 6 ? l + r : 0; } return 0; };
        std::function<E(const E &, const std::function<E(const E &)> &)> over = [&](const E &x, const std::function<E(const E &)> &f) -> E { if (x.is_numeral()) return f(x); return z3::ite(x.arg(0), over(x.arg(1), f), over(x.arg(2), f)); };
        if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE || p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE) {
            E x = toInt(a), y = toInt(b); int lx = leaves(x), ly = leaves(y);
            if (lx && ly && lx * ly > 1 && lx * ly <= 16) {
                E r = over(x, [&](const E &u) { return over(y, [&](const E &v) { mpq_class i, j; numeralToMpq(u, i); numeralToMpq(v, j);
                    bool t = p == CmpInst::ICMP_EQ ? i == j : p == CmpInst::ICMP_NE ? i != j : p == CmpInst::ICMP_ULT ? i < j : p == CmpInst::ICMP_ULE ? i <= j : p == CmpInst::ICMP_UGT ? i > j : i >= j;
                    return C->bool_val(t); }); });
                return mkSBool(r.simplify());
            }
        }
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return mkSBool((toInt(a) == toInt(b)).simplify());
    case CmpInst::ICMP_NE: return mkSBool((toInt(a) != toInt(b)).simplify());
    case CmpInst::ICMP_ULT: return mkSBool((toInt(a) < toInt(b)).simplify());
    case CmpInst::ICMP_ULE: return mkSBool((toInt(a) <= toInt(b)).simplify());
    case CmpInst::ICMP_UGT: return mkSBool((toInt(a) > toInt(b)).simplify());
    case CmpInst::ICMP_UGE: return mkSBool((toInt(a) >= toInt(b)).simplify());
    case CmpInst::ICMP_SLT: return mkSBool((toSigned(S, a) < toSigned(S, b)).simplify());
    case CmpInst::ICMP_SLE: return mkSBool((toSigned(S, a) <= toSigned(S, b)).simplify());
    case CmpInst::ICMP_SGT: return mkSBool((toSigned(S, a) > toSigned(S, b)).simplify());
    case CmpInst::ICMP_SGE: return mkSBool((toSigned(S, a) >= toSigned(S, b)).simplify());
    default: unsup("icmp");
    }
}
// Euclidean division x = y*q + r for symbolic y: use the syntactic quotient when it provably is the quotient.
typedef std::map<std::vector<unsigned>, mpz_class> Poly;
static std::map<unsigned, E> polyAtom;
static bool toPoly(const E &e, Poly &p, int depth = 0) {
    mpq_class q;
    if (numeralToMpq(e, q)) { if (q.get_den() != 1) return false; if (q != 0) p[{}] += q.get_num(); return true; }
    if (e.is_app()) switch (e.decl().decl_kind()) {
    case Z3_OP_ADD: for (unsigned i = 0; i < e.num_args(); ++i) if (!toPoly(e.arg(i), p, depth + 1)) return false; return true;
    case Z3_OP_SUB: case Z3_OP_UMINUS: case Z3_OP_MUL: {
        Poly acc; bool first = true; bool mul = e.decl().decl_kind() == Z3_OP_MUL;
        if (e.decl().decl_kind() == Z3_OP_UMINUS) { Poly t; if (!toPoly(e.arg(0), t)) return false; for (auto &x : t) p[x.first] -= x.second; return true; }
        for (unsigned i = 0; i < e.num_args(); ++i) {
            Poly t; if (!toPoly(e.arg(i), t, depth + 1)) return false;
            if (first) { acc = t; first = false; continue; }
            if (mul) { Poly n; for (auto &x : acc) for (auto &y : t) { auto m = x.first; m.insert(m.end(), y.first.begin(), y.first.end()); std::sort(m.begin(), m.end()); n[m] += x.second * y.second; } if (n.size() > 200) return false; acc = n; }
            else for (auto &x : t) acc[x.first] -= x.second;
        }
        for (auto &x : acc) p[x.first] += x.second;
        return true; }
    default: break;
    }
    unsigned id = Z3_get_ast_id(*C, e); polyAtom.emplace(id, e); p[{id}] += 1; return true;
}
static E fromPoly(const Poly &p) {
    E r = C->int_val(0); bool first = true;
    for (auto &x : p) { if (x.second == 0) continue; E t = numInt(x.second); bool one = x.second == 1; bool f = true;
        for (auto a : x.first) { if (f && one) t = polyAtom.at(a); else t = t * polyAtom.at(a); f = false; }
        r = first ? t : r + t; first = false; }
    return r;
}
static void divmod(State &S, const E &x, const E &y, E &q, E &r) {
    q = (x / y).simplify(); r = z3::mod(x, y).simplify();
    if (y.is_numeral() && x.is_numeral()) return;
    Poly px, py;
    if (toPoly(x, px) && toPoly(y, py)) {
        for (auto it = py.begin(); it != py.end();) if (it->second == 0) it = py.erase(it); else ++it;
        if (py.size() == 1) {
            auto &my = py.begin()->first; mpz_class cy = py.begin()->second; Poly pq, pr;
            for (auto &t : px) {
                if (t.second == 0) continue;
                if (std::includes(t.first.begin(), t.first.end(), my.begin(), my.end()) && cy != 0 && t.second % cy == 0) {
                    std::vector<unsigned> m; std::set_difference(t.first.begin(), t.first.end(), my.begin(), my.end(), std::back_inserter(m)); pq[m] += t.second / cy;
                } else pr[t.first] += t.second;
            }
            if (!pq.empty() || !y.is_numeral()) {
                E R = fromPoly(pr);
                if (provably(S, R >= 0 && R < y)) { q = fromPoly(pq).simplify(); r = R.simplify(); return; }
            }
        }
    }
    if (y.is_numeral()) return;
    // fresh quotient and remainder with their defining property
    std::string k = "div!" + std::to_string(Z3_get_ast_id(*C, x)) + "!" + std::to_string(Z3_get_ast_id(*C, y));
    keepAlive.push_back(x); keepAlive.push_back(y);
    E Q = C->int_const((k + "q").c_str()), R = C->int_const((k + "r").c_str());
    Itv ix = itv(x), iy = itv(y);
    if (ix.lo_ok && ix.lo >= 0 && iy.lo_ok && iy.lo > 0) {
        Itv b; b.lo_ok = b.hi_ok = true; b.lo = 0; if (ix.hi_ok) b.hi = ix.hi / iy.lo; else b.hi_ok = false;
        keepAlive.push_back(Q); declBounds[Z3_get_ast_id(*C, Q)] = b; itvCache.erase(Z3_get_ast_id(*C, Q));
        Itv c; c.lo_ok = true; c.lo = 0; c.hi_ok = iy.hi_ok; if (iy.hi_ok) c.hi = iy.hi - 1;
        keepAlive.push_back(R); declBounds[Z3_get_ast_id(*C, R)] = c; itvCache.erase(Z3_get_ast_id(*C, R));
    } else return;
    for (auto &d : {x == y * Q + R, Q >= 0, R >= 0, R < y}) S.defs.push_back(d);
    if (S.model) { // extend the model
        E vx = evalIn(*S.model, x), vy = evalIn(*S.model, y); mpq_class a, b2;
        if (numeralToMpq(vx, a) && numeralToMpq(vy, b2) && b2 > 0) { auto m = std::make_shared<Model>(*S.model); mpz_class qq = a.get_num() / b2.get_num(); m->kv.push_back({Q, numInt(qq)}); m->kv.push_back({R, numInt(a.get_num() - qq * b2.get_num())}); S.model = m; }
        else S.model = nullptr;
    }
    q = Q; r = R;
}
static Val intBin(State &S, const BinaryOperator *I, const Val &a0, const Val &b0) {
    unsigned op = I->getOpcode();
    Val a = a0, b = b0;
    // masks on partly initialised words (std::vector<bool>): the uninitialised bits are taken to be zero
    if (op == Instruction::And || op == Instruction::Or) {
        if (a.k == Val::Undef && b.k == Val::CInt) a = mkInt(0, I->getType()->getIntegerBitWidth());
        if (b.k == Val::Undef && a.k == Val::CInt) b = mkInt(0, I->getType()->getIntegerBitWidth());
    }
    needDef(S, a, "arithmetic"); needDef(S, b, "arithmetic");
    unsigned w = I->getType()->getIntegerBitWidth();
    bool nuw = false, nsw = false;
    if (auto *o = dyn_cast<OverflowingBinaryOperator>(I)) { nuw = o->hasNoUnsignedWrap(); nsw = o->hasNoSignedWrap(); }
    if (w > 64) unsup("arithmetic wider than 64 bit");
    if (a.k == Val::Ptr || b.k == Val::Ptr) {
        if (op == Instruction::Sub && a.k == Val::Ptr && b.k == Val::Ptr) {
            if (a.obj != b.obj) failHere(S, "memory-safety:" + siteOf(S), "difference of pointers into different objects", "");
            if (!a.symoff && !b.symoff) return mkInt(a.ci - b.ci, 64);
            E i = a.symoff ? *a.e : C->int_val((int64_t)a.ci), j = b.symoff ? *b.e : C->int_val((int64_t)b.ci);
            return fromSigned(S, (i - j).simplify(), 64);
        }
        if (op == Instruction::Add && a.k == Val::Ptr) return ptrAdd(S, a, b, 1);
        if (op == Instruction::Add && b.k == Val::Ptr) return ptrAdd(S, b, a, 1);
        if (op == Instruction::Sub && b.k == Val::CInt) return ptrAdd(S, a, mkInt(0 - b.ci, 64), 1);
        // low bits of an address (pointers to member functions, alignment tests): objects and functions are 16-byte aligned
        if (op == Instruction::And && a.k == Val::Ptr && !a.symoff && b.k == Val::CInt && b.ci < 16) return mkInt(a.ci & b.ci, 64);
        unsup("integer arithmetic on pointer");
    }
    if (a.k == Val::CInt && b.k == Val::CInt) {
        uint64_t x = a.ci, y = b.ci; int64_t sa = sx(a), sb = sx(b);
        auto chk = [&](i128 r) { if (nsw) { i128 lim = (i128)1 << (w - 1); if (r >= lim || r < -lim) failHere(S, "no-signed-overflow:" + siteOf(S), "signed integer overflow", ""); } };
        switch (op) {
        case Instruction::Add: chk((i128)sa + sb); return mkInt(x + y, w);
        case Instruction::Sub: chk((i128)sa - sb); return mkInt(x - y, w);
        case Instruction::Mul: chk((i128)sa * sb); return mkInt(x * y, w);
        case Instruction::UDiv: if (y == 0) failHere(S, "nonzero-divisor:" + siteOf(S), "integer division by zero", ""); return mkInt(x / y, w);
        case Instruction::URem: if (y == 0) failHere(S, "nonzero-divisor:" + siteOf(S), "integer division by zero", ""); return mkInt(x % y, w);
        case Instruction::SDiv: if (sb == 0) failHere(S, "nonzero-divisor:" + siteOf(S), "integer division by zero", ""); return mkInt((uint64_t)(sa / sb), w);
        case Instruction::SRem: if (sb == 0) failHere(S, "nonzero-divisor:" + siteOf(S), "integer division by zero", ""); return mkInt((uint64_t)(sa % sb), w);
        case Instruction::Shl: return y >= w ? Val{} : mkInt(x << y, w);
        case Instruction::LShr: return y >= w ? Val{} : mkInt(x >> y, w);
        case Instruction::AShr: return y >= w ? Val{} : mkInt((uint64_t)(sa >> y), w);
        case Instruction::And: return mkInt(x & y, w);
        case Instruction::Or: return mkInt(x | y, w);
        case Instruction::Xor: return mkInt(x ^ y, w);
        }
    }
    if (w == 1) {
        E x = toBool(a), y = toBool(b);
        switch (op) { case Instruction::And: return mkSBool((x && y).simplify()); case Instruction::Or: return mkSBool((x || y).simplify()); case Instruction::Xor: return mkSBool((x != y).simplify()); }
    }
    // boolean-as-integer masks
    if (op == Instruction::And && b.k == Val::CInt && b.ci == 1 && a.k == Val::SInt) {
        Itv i = itv(*a.e); if (i.lo_ok && i.hi_ok && i.lo >= 0 && i.hi <= 1) return a;
        return mkSInt(z3::mod(*a.e, 2), w);
    }
    E x = toInt(a), y = toInt(b);
    switch (op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        if (nsw) {
            E p = toSigned(S, a), q = toSigned(S, b);
            E r = (op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * q).simplify();
            Itv i = itv(r);
            if (!(i.lo_ok && i.hi_ok && i.lo >= -pow2(w - 1) && i.hi < pow2(w - 1)))
                oblige(S, "no-signed-overflow:" + siteOf(S), r >= numInt(-pow2(w - 1)) && r < numInt(pow2(w - 1)), "signed integer overflow");
            return fromSigned(S, r, w);
        }
        E r = (op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y).simplify();
        return mkSInt(wrapU(S, r, w), w);
    }
    case Instruction::UDiv: oblige(S, "nonzero-divisor:" + siteOf(S), y != 0, "integer division by zero"); { E q=x,r=x; divmod(S,x,y,q,r); return mkSInt(q, w); }
    case Instruction::URem: oblige(S, "nonzero-divisor:" + siteOf(S), y != 0, "integer division by zero"); { E q=x,r=x; divmod(S,x,y,q,r); return mkSInt(r, w); }
    case Instruction::SDiv: case Instruction::SRem: {
        E p = toSigned(S, a), q = toSigned(S, b);
        oblige(S, "nonzero-divisor:" + siteOf(S), q != 0, "integer division by zero");
        E ap = z3::ite(p >= 0, p, -p), aq = z3::ite(q >= 0, q, -q);
        if (provably(S, p >= 0)) ap = p;
        if (provably(S, q > 0)) aq = q;
        bool pos = z3::eq(ap, p) && z3::eq(aq, q);
        if (op == Instruction::SDiv) { E d = ap / aq; if (!pos) d = z3::ite((p >= 0) == (q >= 0), d, -d); return fromSigned(S, d.simplify(), w); }
        E m = z3::mod(ap, aq); if (!pos) m = z3::ite(p >= 0, m, -m); return fromSigned(S, m.simplify(), w);
    }
    case Instruction::Shl: if (b.k == Val::CInt) return mkSInt(wrapU(S, (x * numInt(pow2(b.ci))).simplify(), w), w); break;
    case Instruction::LShr: if (b.k == Val::CInt) return mkSInt((x / numInt(pow2(b.ci))).simplify(), w); break;
    case Instruction::AShr: if (b.k == Val::CInt) { E p = toSigned(S, a); return fromSigned(S, (p / numInt(pow2(b.ci))).simplify(), w); } break;
    case Instruction::And: {
        const Val *c = b.k == Val::CInt ? &b : a.k == Val::CInt ? &a : nullptr; E o = c == &b ? x : y;
        if (c) { if (c->ci == 0) return mkInt(0, w); if ((c->ci & (c->ci + 1)) == 0) return mkSInt(z3::mod(o, numInt(mpzFromU64(c->ci) + 1)).simplify(), w); }
        break;
    }
    case Instruction::Or: if (b.k == Val::CInt && b.ci == 0) return a; if (a.k == Val::CInt && a.ci == 0) return b; break;
    case Instruction::Xor:
        if (b.k == Val::CInt && b.ci == maskw(w)) return mkSInt((numInt(pow2(w) - 1) - x).simplify(), w);
        break;
    }
    // bit-vector fallback
    E bx = z3::int2bv(w, x), by = z3::int2bv(w, y);
    E r = bx;
    switch (op) {
    case Instruction::And: r = bx & by; break; case Instruction::Or: r = bx | by; break; case Instruction::Xor: r = bx ^ by; break;
    case Instruction::Shl: r = z3::shl(bx, by); break; case Instruction::LShr: r = z3::lshr(bx, by); break; case Instruction::AShr: r = z3::ashr(bx, by); break;
    default: unsup("integer op");
    }
    return mkSInt(z3::bv2int(r, false), w);
}
static Val absReal(State &S, const Val &a) {
    needDef(S, a, "fabs");
    if (a.k == Val::Special) return a.sp ? mkSpecial(1) : a;
    if (a.k == Val::CReal) return mkReal(abs(*a.q));
    E x = toReal(a);
    RIMap ex; for (auto &c : S.pc) riAtoms(c, false, ex);
    int d = ratDecide(x >= 0, &ex, &S.pc);
    if (d == 1) return mkSReal(x);
    if (d == 0) return mkSReal(-x);
    return mkSReal(z3::ite(x >= 0, x, -x));
}
static Val sqrtReal(State &S, const Val &a) {
    needDef(S, a, "sqrt");
    if (a.k == Val::Special) return a.sp < 0 ? mkSpecial(0) : a;
    if (a.k == Val::CReal) {
        if (*a.q < 0) return mkSpecial(0);
        mpz_class n = a.q->get_num(), d = a.q->get_den(), sn = sqrt(n), sd = sqrt(d);
        if (sn * sn == n && sd * sd == d) return mkReal(mpq_class(sn, sd));
    }
    E x = toReal(a).simplify();
    oblige(S, "sqrt-domain:" + siteOf(S), x >= 0, "square root of a negative number");
    static std::unordered_map<unsigned, E> cache;
    static std::map<std::pair<RPoly, RPoly>, E> byForm;
    unsigned id = Z3_get_ast_id(*C, x);
    auto it = cache.find(id);
    if (it == cache.end()) try {   // the same argument written differently (up to a square factor) shares one root
        auto r = toRat(x, 0);
        if (!r.first.empty() && r.first.size() <= 400 && r.second.size() <= 50) {
            mpq_class lead = r.first.begin()->second / r.second.begin()->second; mpq_class f = 1;
            if (lead < 0) lead = -lead;
            mpz_class n = lead.get_num(), d = lead.get_den(), sn = sqrt(n), sd = sqrt(d);
            if (sn * sn == n && sd * sd == d) f = mpq_class(sn, sd);
            mpq_class dl = r.second.begin()->second, f2 = f * f;
            for (auto &t : r.second) t.second /= dl;
            for (auto &t : r.first) t.second /= dl * f2;
            auto key = std::make_pair(r.first, r.second);
            auto b = byForm.find(key);
            if (b == byForm.end()) {
                E y = f == 1 ? x : (x / numReal(f2)).simplify();
                E sv = C->real_const(("sqrt!" + std::to_string(freshN++)).c_str());
                keepAlive.push_back(y); keepAlive.push_back(sv); sqrtOf.emplace(Z3_get_ast_id(*C, sv), y);
                b = byForm.emplace(key, sv).first;
            }
            E sv = b->second; E y = sqrtOf.find(Z3_get_ast_id(*C, sv))->second;
            S.defs.push_back(sv >= 0);
            S.defs.push_back(z3::implies(y >= 0, sv * sv == y));
            if (S.model) S.model = nullptr;
            return mkSReal(f == 1 ? sv : numReal(f) * sv);
        }
    } catch (RTooBig &) {}
    E s = it != cache.end() ? it->second : C->real_const(("sqrt!" + std::to_string(freshN++)).c_str());
    if (it == cache.end()) { keepAlive.push_back(x); keepAlive.push_back(s); cache.emplace(id, s); sqrtOf.emplace(Z3_get_ast_id(*C, s), x); }
    S.defs.push_back(s >= 0);
    S.defs.push_back(z3::implies(x >= 0, s * s == x));
    if (S.model) S.model = nullptr;
    return mkSReal(s);
}
static Val minmaxReal(State &S, const Val &a, const Val &b, bool mx) {  // std::min/std::max semantics (first argument on ties)
    Val c = fcmp(S, FCmpInst::FCMP_OLT, mx ? a : b, mx ? b : a);
    if (c.k == Val::CInt) return c.ci ? b : a;
    bool ok; Val r = iteVal(*c.e, b, a, ok); if (!ok) unsup("min/max"); return r;
}

//---------------------------------------------------------------------------------------------- unwinding / frames
static void popFrame(State &S) {
    Frame &f = S.stack.back();
    for (auto id : f.allocas) S.mem.erase(id);
    S.stack.pop_back();
}
static std::map<const Value *, int> typeIds;
static int typeId(const Value *v) { auto it = typeIds.find(v); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; return typeIds[v] = n; }
static void unwind(State &S, const std::string &why) {
    size_t stop = S.mergeDepth >= 0 ? (size_t)S.mergeDepth : 0;
    while (true) {
        if (S.stack.size() <= 1 || S.stack.size() <= stop) {
            if (S.stack.size() <= 1) failHere(S, "no-exception:" + siteOf(S), "unexpected exception", why);
            S.thrown = true; return;  // propagate out of merge region
        }
        const CallBase *cb = S.stack.back().call;
        if (S.stack.size() - 1 < stop + 0) {}
        if (stop && S.stack.size() == stop) { S.thrown = true; return; }
        popFrame(S);
        Frame &f = S.stack.back();
        auto *inv = dyn_cast_or_null<InvokeInst>(cb);
        if (!inv) continue;
        LandingPadInst *lp = inv->getLandingPadInst();
        int sel = 0; bool catches = false;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i)) { catches = true; Constant *cl = lp->getClause(i); sel = isa<ConstantPointerNull>(cl) ? 1000 : typeId(cl); break; }
        if (!catches) continue;
        f.prev = f.BB; f.BB = inv->getUnwindDest(); f.it = f.BB->begin();
        // landing pad value
        Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val>>();
        uint64_t ex = newObj(S, 64, Obj::Heap, "exception");
        v.agg->push_back(mkPtr(ex, 0)); v.agg->push_back(mkInt(sel, 32));
        // phis are not allowed before landingpad except PHI nodes: evaluate
        f.regs[info(f.F).slot[lp]] = v;
        f.spec = "lp";
        return;
    }
}
static void enterBlock(State &S, BasicBlock *to) {
    Frame &f = S.stack.back();
    f.prev = f.BB; f.BB = to;
    std::vector<std::pair<const Instruction *, Val>> ph;
    auto it = to->begin();
    for (; it != to->end() && isa<PHINode>(*it); ++it) {
        auto &p = cast<PHINode>(*it);
        ph.push_back({&p, opnd(S, p.getIncomingValueForBlock(f.prev))});
    }
    for (auto &x : ph) setReg(S, x.first, x.second);
    f.it = it;
}
static void finishCall(State &S, const CallBase *cb, const Val &r) {  // in caller frame
    if (!cb->getType()->isVoidTy()) setReg(S, cb, r);
    Frame &f = S.stack.back();
    if (auto *inv = dyn_cast<InvokeInst>(cb)) enterBlock(S, inv->getNormalDest());
    else { f.it = std::next(BasicBlock::iterator(const_cast<CallBase *>(cb))); }
}
static std::string readCStr(State &S, const Val &p) {
    std::string r; if (p.k != Val::Ptr || p.symoff || !p.obj) unsup("c-string");
    for (int64_t i = 0; i < 10000; ++i) { Val c = loadCells(S, *S.mem[p.obj], (int64_t)p.ci + i, 1); if (c.k != Val::CInt) unsup("symbolic c-string"); if (!c.ci) break; r.push_back((char)c.ci); }
    return r;
}
static std::string uniq(State &S, const std::string &n) {
    int k = S.nameCount[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}
static bool startsWith(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }
static bool isIostreamName(const std::string &n) {
    return n.find("basic_ostream") != std::string::npos || n.find("basic_istream") != std::string::npos || n.find("ios_base") != std::string::npos || n.find("basic_ios") != std::string::npos
        || n.find("_ZNSo") == 0 || n.find("_ZNSi") == 0 || n.find("_ZSt4endl") == 0 || n.find("_ZNSolsE") == 0 || n.find("_ZStls") == 0 || n.find("setprecision") != std::string::npos
        || n.find("ostringstream") != std::string::npos || n.find("stringstream") != std::string::npos || n.find("basic_stringbuf") != std::string::npos;
}
// returns true if handled (result in r)
static bool external(State &S, const CallBase *cb, Function *F, std::vector<Val> &a, Val &r) {
    std::string n = F->getName().str();
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: doMemcpy(S, a[0], a[1], a[2]); return true;
        case Intrinsic::memset: doMemset(S, a[0], a[1], a[2]); return true;
        case Intrinsic::fabs: r = absReal(S, a[0]); return true;
        case Intrinsic::sqrt: r = sqrtReal(S, a[0]); return true;
        case Intrinsic::fmuladd: case Intrinsic::fma: r = realBin(S, Instruction::FAdd, realBin(S, Instruction::FMul, a[0], a[1]), a[2]); return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: return true;
        case Intrinsic::stacksave: r = mkPtr(0, 0); return true;
        case Intrinsic::expect: r = a[0]; return true;
        case Intrinsic::is_constant: r = mkInt(0, 1); return true;
        case Intrinsic::trap: failHere(S, "no-trap:" + siteOf(S), "trap", ""); 
        case Intrinsic::eh_typeid_for: { r = mkInt(isa<ConstantPointerNull>(cb->getArgOperand(0)) ? 1000 : typeId(cb->getArgOperand(0)->stripPointerCasts()), 32); return true; }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: {
            needDef(S, a[0], "floor/ceil");
            E x = toReal(a[0]); z3::expr fl = z3::expr(*C, Z3_mk_real2int(*C, x));
            E v = F->getIntrinsicID() == Intrinsic::floor ? z3::expr(*C, Z3_mk_int2real(*C, fl)) : F->getIntrinsicID() == Intrinsic::ceil ? -z3::expr(*C, Z3_mk_int2real(*C, z3::expr(*C, Z3_mk_real2int(*C, -x)))) : z3::ite(x >= 0, z3::expr(*C, Z3_mk_int2real(*C, fl)), -z3::expr(*C, Z3_mk_int2real(*C, z3::expr(*C, Z3_mk_real2int(*C, -x)))));
            r = mkSReal(v.simplify()); return true; }
        case Intrinsic::maxnum: r = minmaxReal(S, a[0], a[1], true); return true;
        case Intrinsic::minnum: r = minmaxReal(S, a[0], a[1], false); return true;
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: {
            bool mul = F->getIntrinsicID() == Intrinsic::umul_with_overflow;
            Val x; x.k = Val::Agg; x.agg = std::make_shared<std::vector<Val>>();
            if (a[0].k == Val::CInt && a[1].k == Val::CInt) { unsigned __int128 p = mul ? (unsigned __int128)a[0].ci * a[1].ci : (unsigned __int128)a[0].ci + a[1].ci; x.agg->push_back(mkInt((uint64_t)p, 64)); x.agg->push_back(mkInt((p >> 64) != 0, 1)); }
            else { E p = mul ? toInt(a[0]) * toInt(a[1]) : toInt(a[0]) + toInt(a[1]); x.agg->push_back(mkSInt(wrapU(S, p, 64), 64)); x.agg->push_back(mkSBool((p >= numInt(pow2(64))).simplify())); }
            r = x; return true; }
        case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::abs: {
            auto id = F->getIntrinsicID(); needDef(S, a[0], "integer min/max/abs"); unsigned w = a[0].w;
            if (a[0].k != Val::CInt && a[0].k != Val::SInt) break;
            if (id == Intrinsic::abs) {
                if (a[0].k == Val::CInt) { int64_t x = sx(a[0]); r = mkInt(x < 0 ? (uint64_t)0 - (uint64_t)x : (uint64_t)x, w); if (w < 64) r = mkInt(r.ci & ((1ull << w) - 1), w); return true; }
                E p = toSigned(S, a[0]); r = fromSigned(S, z3::ite(p < 0, -p, p).simplify(), w); return true;
            }
            needDef(S, a[1], "integer min/max");
            bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mx = id == Intrinsic::smax || id == Intrinsic::umax;
            if (a[0].k == Val::CInt && a[1].k == Val::CInt) { bool lt = sg ? sx(a[0]) < sx(a[1]) : a[0].ci < a[1].ci; r = lt == mx ? a[1] : a[0]; return true; }
            if (a[1].k != Val::CInt && a[1].k != Val::SInt) break;
            E p = sg ? toSigned(S, a[0]) : toInt(a[0]), q = sg ? toSigned(S, a[1]) : toInt(a[1]);
            E m = mx ? z3::ite(p < q, q, p) : z3::ite(p < q, p, q);
            r = sg ? fromSigned(S, m.simplify(), w) : mkSInt(m.simplify(), w); return true; }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz:
            if (a[0].k == Val::CInt) { uint64_t x = a[0].ci; unsigned w = a[0].w; unsigned c = 0;
                if (F->getIntrinsicID() == Intrinsic::ctpop) c = __builtin_popcountll(x); else if (F->getIntrinsicID() == Intrinsic::ctlz) c = x ? __builtin_clzll(x) - (64 - w) : w; else c = x ? __builtin_ctzll(x) : w;
                r = mkInt(c, w); return true; }
            break;
        default: break;
        }
        unsup("intrinsic " + n);
    }
    // ---- contract language
    if (startsWith(n, "vp_")) {
        if (n == "vp_symbolic") { r = mkInt(opt.nativeTol ? 2 : 1, 32); return true; }
        if (n == "vp_any_real") {
            std::string nm = uniq(S, readCStr(S, a[0]));
            E x = C->real_const(nm.c_str());
            S.inputs.push_back({nm, x});
            { RI b; if (a[1].k == Val::CReal) { double d = a[1].q->get_d(); b.lo = mpq_class(d) == *a[1].q ? d : dn(d); } if (a[2].k == Val::CReal) { double d = a[2].q->get_d(); b.hi = mpq_class(d) == *a[2].q ? d : up(d); }
              unsigned xid = Z3_get_ast_id(*C, x); keepAlive.push_back(x);
              auto ob = realBounds.find(xid); if (ob != realBounds.end()) { b.lo = std::min(b.lo, ob->second.lo); b.hi = std::max(b.hi, ob->second.hi); riCache.clear(); }
              realBounds[xid] = b; riCache.erase(xid); }
            if (a[1].k == Val::CReal) addPc(S, x >= toReal(a[1]));
            if (a[2].k == Val::CReal) addPc(S, x <= toReal(a[2]));
            if (S.model) { auto m = std::make_shared<Model>(*S.model); mpq_class lo = a[1].k == Val::CReal ? *a[1].q : mpq_class(0); if (a[1].k != Val::CReal && a[2].k == Val::CReal && *a[2].q < 0) lo = *a[2].q; m->kv.push_back({x, numReal(lo)}); S.model = m; }
            r = mkSReal(x); return true;
        }
        if (n == "vp_any_int") {
            std::string nm = uniq(S, readCStr(S, a[0]));
            E x = C->int_const(nm.c_str());
            S.inputs.push_back({nm, x});
            Itv i; i.lo_ok = i.hi_ok = true; i.lo = mpzFromU64(a[1].ci); i.hi = mpzFromU64(a[2].ci);
            { unsigned xid = Z3_get_ast_id(*C, x); keepAlive.push_back(x); auto ob = declBounds.find(xid);
              if (ob != declBounds.end() && (ob->second.lo != i.lo || ob->second.hi != i.hi)) { if (ob->second.lo < i.lo) i.lo = ob->second.lo; if (ob->second.hi > i.hi) i.hi = ob->second.hi; itvCache.clear(); riCache.clear(); }
              declBounds[xid] = i; itvCache.erase(xid); }
            addPc(S, x >= numU64(a[1].ci)); addPc(S, x <= numU64(a[2].ci));
            if (S.model) { auto m = std::make_shared<Model>(*S.model); m->kv.push_back({x, numU64(a[1].ci)}); S.model = m; }
            r = mkSInt(x, 64); return true;
        }
        if (n == "vp_any_bool") {
            std::string nm = uniq(S, readCStr(S, a[0]));
            E x = C->bool_const(nm.c_str());
            S.inputs.push_back({nm, x});
            if (S.model) { auto m = std::make_shared<Model>(*S.model); m->kv.push_back({x, C->bool_val(false)}); S.model = m; }
            r = mkSBool(x); return true;
        }
        if (n == "vp_case") {  // case split: value enumerated, complete over [lo,hi]
            std::string nm = readCStr(S, a[0]);
            uint64_t lo = a[1].ci, hi = a[2].ci;
            std::string nm2 = uniq(S, nm);
            for (uint64_t v = hi + 1; v-- > lo;) {
                auto ns = std::make_unique<State>(S);
                ns->inputs.push_back({nm2, numU64(v)});
                finishCall(*ns, cb, mkInt(v, 64));
                work.push_back(std::move(ns));
            }
            throw ForkStates{};
        }
        if (n == "vp_assume") {
            needDef(S, a[0], "precondition");
            E c = toBool(a[0]).simplify();
            std::shared_ptr<Model> m;
            z3::check_result q = feasible(S, c, &m);
            if (q == z3::unsat) throw PathEnd{};
            if (q == z3::unknown) { S.feasUnknown = true; m = nullptr; }
            addPc(S, c); S.model = m;
            return true;
        }
        if (n == "vp_ensure") {
            std::string lab = readCStr(S, a[0]);
            needDef(S, a[1], "postcondition");
            auto &cv = (S.feasUnknown && !S.model) ? coversMaybe : covers; cv["ensure:" + lab]++;
            oblige(S, lab, toBool(a[1]), "postcondition");
            return true;
        }
        if (n == "vp_cover") {
            std::string lab = readCStr(S, a[0]);
            if (S.feasUnknown && !S.model) coversMaybe[lab]++; else covers[lab]++;
            return true;
        }
        if (n == "vp_note") return true;
        if (n == "vp_imp") { needDef(S, a[0], "spec"); needDef(S, a[1], "spec"); r = mkSBool((!toBool(a[0]) || toBool(a[1])).simplify()); return true; }
        if (n == "vp_and" || n == "vp_or") {
            needDef(S, a[0], "spec"); needDef(S, a[1], "spec");
            E x = toBool(a[0]), y = toBool(a[1]); r = mkSBool((n == "vp_and" ? x && y : x || y).simplify());
            if (r.k == Val::CInt) r.w = 1; return true;
        }
        if (n == "vp_ite_real") { needDef(S, a[0], "spec"); bool ok; r = iteVal(toBool(a[0]).simplify(), a[1], a[2], ok); if (!ok) unsup("vp_ite_real"); return true; }
        if (n == "vp_dead_end") throw PathEnd{};
        if (n == "vp_print_real") { std::cerr << readCStr(S, a[0]) << " = " << (a[1].k == Val::CReal ? a[1].q->get_str() : a[1].k == Val::SReal ? a[1].e->to_string() : std::string("?")) << "\n"; return true; }
        unsup("contract primitive " + n);
    }
    // ---- C/C++ runtime
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t") {
        uint64_t sz = a[0].k == Val::CInt ? a[0].ci : concretize(S, toInt(a[0]), 64, "allocation size");
        r = mkPtr(newObj(S, (int64_t)sz, Obj::Heap, "new[" + std::to_string(sz) + "]"), 0);
        return true;
    }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "free" || n == "_ZdlPvmSt11align_val_t") {
        if (a[0].k == Val::Ptr && a[0].obj == 0) return true;
        if (a[0].k != Val::Ptr) failHere(S, "memory-safety:" + siteOf(S), "free of invalid pointer", "");
        auto it = S.mem.find(a[0].obj);
        if (it == S.mem.end()) failHere(S, "memory-safety:" + siteOf(S), "double free", "");
        if (a[0].ci != 0 || it->second->kind != Obj::Heap) failHere(S, "memory-safety:" + siteOf(S), "free of non-heap pointer", "");
        S.mem.erase(it);
        return true;
    }
    if (n == "sqrt") { r = sqrtReal(S, a[0]); return true; }
    if (n == "fabs") { r = absReal(S, a[0]); return true; }
    if (n == "fmax") { r = minmaxReal(S, a[0], a[1], true); return true; }
    if (n == "fmin") { r = minmaxReal(S, a[0], a[1], false); return true; }
    if (n == "ceil" || n == "floor") {
        needDef(S, a[0], n.c_str());
        if (a[0].k == Val::CReal) { mpz_class z; if (n == "ceil") mpz_cdiv_q(z.get_mpz_t(), a[0].q->get_num_mpz_t(), a[0].q->get_den_mpz_t()); else mpz_fdiv_q(z.get_mpz_t(), a[0].q->get_num_mpz_t(), a[0].q->get_den_mpz_t()); r = mkReal(mpq_class(z)); return true; }
        E x = toReal(a[0]);
        E v = n == "floor" ? z3::expr(*C, Z3_mk_int2real(*C, z3::expr(*C, Z3_mk_real2int(*C, x)))) : -z3::expr(*C, Z3_mk_int2real(*C, z3::expr(*C, Z3_mk_real2int(*C, -x))));
        r = mkSReal(v); return true;
    }
    if (n == "pow") {
        needDef(S, a[0], "pow"); needDef(S, a[1], "pow");
        if (a[1].k == Val::CReal && a[1].q->get_den() == 1 && *a[1].q >= 0 && *a[1].q <= 64) {
            long k = a[1].q->get_num().get_si(); Val p = mkReal(1);
            for (long i = 0; i < k; ++i) p = realBin(S, Instruction::FMul, p, a[0]);
            r = p; return true;
        }
        unsup("pow with symbolic exponent");
    }
    if (n == "strlen") { r = mkInt(readCStr(S, a[0]).size(), 64); return true; }
    if (n == "strcmp") { int c = readCStr(S, a[0]).compare(readCStr(S, a[1])); r = mkInt((uint64_t)(uint32_t)(c < 0 ? -1 : c > 0 ? 1 : 0), 32); return true; }
    if (n == "memcmp" || n == "bcmp") {
        if (a[2].k != Val::CInt) unsup("symbolic memcmp");
        for (uint64_t i = 0; i < a[2].ci; ++i) {
            Val x = loadCells(S, *S.mem.at(a[0].obj), (int64_t)a[0].ci + i, 1), y = loadCells(S, *S.mem.at(a[1].obj), (int64_t)a[1].ci + i, 1);
            if (x.k != Val::CInt || y.k != Val::CInt) unsup("symbolic memcmp bytes");
            if (x.ci != y.ci) { r = mkInt(x.ci < y.ci ? -1 : 1, 32); return true; }
        }
        r = mkInt(0, 32); return true;
    }
    if (n == "_ZSt11_Hash_bytesPKvmm") {
        uint64_t h = 1469598103934665603ull;
        for (uint64_t i = 0; i < a[1].ci; ++i) { Val x = loadCells(S, *S.mem.at(a[0].obj), (int64_t)a[0].ci + i, 1); if (x.k != Val::CInt) unsup("hash of symbolic bytes"); h = (h ^ x.ci) * 1099511628211ull; }
        r = mkInt(h, 64); return true;
    }
    if (n == "__cxa_guard_acquire") {
        Val g = doLoad(S, a[0], IntegerType::get(M->getContext(), 8));
        r = mkInt(g.k == Val::CInt && g.ci == 0 ? 1 : 0, 32); return true;
    }
    if (n == "__cxa_guard_release") { doStore(S, a[0], mkInt(1, 8), IntegerType::get(M->getContext(), 8)); return true; }
    if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "__cxa_free_exception" || n == "__cxa_end_catch" || n == "atexit") { r = mkInt(0, 32); return true; }
    if (n == "__cxa_begin_catch") { r = a[0]; return true; }
    if (n == "__cxa_allocate_exception") { r = mkPtr(newObj(S, 512, Obj::Heap, "exception"), 0); return true; }
    if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Unwind_Resume" || startsWith(n, "_ZSt20__throw_") || startsWith(n, "_ZSt17__throw_") || startsWith(n, "_ZSt19__throw_") || startsWith(n, "_ZSt16__throw_") || startsWith(n, "_ZSt2") && n.find("__throw_") != std::string::npos || startsWith(n,"_ZSt18__throw") || n.find("__throw_") != std::string::npos) {
        unwind(S, n); throw ForkStates{};  // state was modified in place; caller re-queues
    }
    if (n == "__assert_fail" || n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "exit") failHere(S, "no-abort:" + siteOf(S), n, "");
    if (startsWith(n, "omp_")) { r = mkInt(1, 32); return true; }
    if (n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "_ZNSt6chrono3_V212steady_clock3nowEv") { r = mkInt(0, 64); return true; }
    if (isIostreamName(n)) { trustedFns.insert("iostream (output ignored)"); if (cb->getType()->isPointerTy()) r = a.empty() ? mkPtr(0, 0) : a[0]; else if (cb->getType()->isIntegerTy()) r = mkInt(0, cb->getType()->getIntegerBitWidth()); return true; }
    return false;
}

static Val readRefReal(State &S, const Val &p) { return doLoad(S, p, Type::getDoubleTy(M->getContext())); }

// trusted models of defined library functions; true if handled
static bool intercept(State &S, const CallBase *cb, Function *F, std::vector<Val> &a, Val &r) {
    StringRef n = F->getName();
    if (n == "_ZSt3minIdERKT_S2_S2_" || n == "_ZSt3maxIdERKT_S2_S2_") {
        Val x = readRefReal(S, a[0]), y = readRefReal(S, a[1]);
        needDef(S, x, "min/max"); needDef(S, y, "min/max");
        Val v = minmaxReal(S, x, y, n == "_ZSt3maxIdERKT_S2_S2_");
        trustedFns.insert("std::min/std::max<double> (returns the value, not the reference)");
        uint64_t id = newObj(S, 8, Obj::Stack, "minmax"); storeCells(S, *mut(S, id), 0, 8, v); mut(S, id)->isConst = true;
        r = mkPtr(id, 0); return true;
    }
    if (n == "_ZSt3minImERKT_S2_S2_" || n == "_ZSt3maxImERKT_S2_S2_") {
        Type *T = Type::getInt64Ty(M->getContext());
        Val x = doLoad(S, a[0], T), y = doLoad(S, a[1], T);
        bool mx = n == "_ZSt3maxImERKT_S2_S2_";
        Val c = icmp(S, CmpInst::ICMP_ULT, mx ? x : y, mx ? y : x);
        Val v; if (c.k == Val::CInt) v = c.ci ? y : x; else { bool ok; v = iteVal(*c.e, y, x, ok); if (!ok) unsup("min/max"); }
        trustedFns.insert("std::min/std::max<size_t> (returns the value, not the reference)");
        uint64_t id = newObj(S, 8, Obj::Stack, "minmax"); storeCells(S, *mut(S, id), 0, 8, v); mut(S, id)->isConst = true;
        r = mkPtr(id, 0); return true;
    }
    if (startsWith(n.str(), "_ZN5queso9ExceptionC")) { unwind(S, "queso::Exception"); throw ForkStates{}; }
    if (startsWith(n.str(), "_ZN5queso6Logger") || startsWith(n.str(), "_ZN5queso9Exceptionls")) { trustedFns.insert("queso::Logger (console output ignored)"); r = a.empty() ? Val{} : a[0]; return true; }
    if (isIostreamName(n.str()) && n.find("queso") == StringRef::npos) { trustedFns.insert("iostream (output ignored)"); r = a.empty() ? Val{} : a[0]; if (!cb->getType()->isPointerTy()) r = mkInt(0, 32); return true; }
    return false;
}

//---------------------------------------------------------------------------------------------- merging of states after a call
static bool sameVal(const Val &a, const Val &b) {
    if (a.k != b.k) return false;
    switch (a.k) {
    case Val::Undef: return true;
    case Val::CInt: return a.ci == b.ci && a.w == b.w;
    case Val::SInt: case Val::SBool: return a.w == b.w && z3::eq(*a.e, *b.e);
    case Val::CReal: return *a.q == *b.q;
    case Val::SReal: return z3::eq(*a.e, *b.e);
    case Val::Special: return a.sp == b.sp;
    case Val::Ptr: return a.obj == b.obj && a.symoff == b.symoff && (a.symoff ? z3::eq(*a.e, *b.e) : a.ci == b.ci);
    case Val::Agg: if (a.agg->size() != b.agg->size()) return false; for (size_t i = 0; i < a.agg->size(); ++i) if (!sameVal((*a.agg)[i], (*b.agg)[i])) return false; return true;
    }
    return false;
}
static E andAll(const std::vector<E> &v, size_t from) {
    z3::expr_vector ev(*C);
    for (size_t i = from; i < v.size(); ++i) ev.push_back(v[i]);
    if (ev.size() == 0) return C->bool_val(true);
    if (ev.size() == 1) return ev[0];
    return z3::mk_and(ev);
}
// merge B into A (both returned to the same frame); base = common pc prefix length. cA: condition of A relative to base
static bool mergeTwo(State &A, E &cA, const State &B, const E &cB) {
    if (A.stack.size() != B.stack.size() || A.thrown != B.thrown) return false;
    bool ok;
    // registers of the top frame (others are unchanged)
    std::vector<std::tuple<size_t, size_t, Val>> newRegs;
    for (size_t fi = 0; fi < A.stack.size(); ++fi) {
        auto &fa = A.stack[fi]; auto &fb = B.stack[fi];
        if (fa.F != fb.F || fa.BB != fb.BB || fa.it != fb.it) return false;
        for (size_t i = 0; i < fa.regs.size(); ++i) {
            if (sameVal(fa.regs[i], fb.regs[i])) continue;
            Val v = iteVal(cB, fb.regs[i], fa.regs[i], ok);
            if (!ok) return false;
            newRegs.push_back({fi, i, v});
        }
    }
    std::vector<std::tuple<uint64_t, int64_t, Cell>> newCells;
    std::vector<std::pair<uint64_t, ObjP>> newObjs;
    for (auto &kv : B.mem) {
        auto it = A.mem.find(kv.first);
        if (it == A.mem.end()) { newObjs.push_back(kv); continue; }
        if (it->second == kv.second) continue;
        Obj &oa = *it->second; Obj &ob = *kv.second;
        if (oa.size != ob.size || oa.freed != ob.freed) return false;
        for (auto &cb : ob.cells) {
            auto ca = oa.cells.find(cb.first);
            if (ca == oa.cells.end() || ca->second.size != cb.second.size) {
                if (ca == oa.cells.end()) { // maybe covered differently: only allow if A has nothing there (uninitialised)
                    Val av; try { av = loadCells(A, oa, cb.first, cb.second.size); } catch (Unsupported &) { return false; }
                    if (av.k == Val::Undef) { continue; }  // undefined on one side: stays undefined
                    Val v = iteVal(cB, cb.second.v, av, ok); if (!ok) return false;
                    Cell c; c.size = cb.second.size; c.v = v; newCells.push_back({kv.first, cb.first, c}); continue;
                }
                return false;
            }
            if (sameVal(ca->second.v, cb.second.v)) continue;
            Val v = iteVal(cB, cb.second.v, ca->second.v, ok);
            if (!ok) return false;
            Cell c; c.size = cb.second.size; c.v = v; newCells.push_back({kv.first, cb.first, c});
        }
        for (auto &ca : oa.cells) if (!ob.cells.count(ca.first)) {
            Val bv; try { State &BB = const_cast<State &>(B); bv = loadCells(BB, ob, ca.first, ca.second.size); } catch (Unsupported &) { return false; }
            if (bv.k == Val::Undef) { Cell c; c.size = ca.second.size; newCells.push_back({kv.first, ca.first, c}); }
            else { Val v = iteVal(cB, bv, ca.second.v, ok); if (!ok) return false; Cell c; c.size = ca.second.size; c.v = v; newCells.push_back({kv.first, ca.first, c}); }
        }
    }
    for (auto &kv : A.mem) if (!B.mem.count(kv.first)) { if (kv.second->kind == Obj::Heap || kv.second->kind == Obj::Stack) { /* allocated (or still alive) only in A */ } }
    for (auto &t : newRegs) A.stack[std::get<0>(t)].regs[std::get<1>(t)] = std::get<2>(t);
    for (auto &t : newCells) { Obj *o = mut(A, std::get<0>(t)); storeCells(A, *o, std::get<1>(t), std::get<2>(t).size, std::get<2>(t).v); }
    for (auto &t : newObjs) A.mem[t.first] = t.second;
    for (auto &d : B.defs) { bool have = false; for (auto &x : A.defs) if (z3::eq(x, d)) { have = true; break; } if (!have) A.defs.push_back(d); }
    for (auto &in : B.inputs) { bool have = false; for (auto &x : A.inputs) if (x.first == in.first) { have = true; break; } if (!have) A.inputs.push_back(in); }
    cA = cA || cB;
    A.feasUnknown |= B.feasUnknown;
    return true;
}

static void runWork(size_t floor, std::vector<StateP> *returned, size_t retDepth);
static int mergeNest = 0;
static void runMerged(State &S, const CallBase *cb, Function *F, std::vector<Val> &args);

static void pushCall(State &S, const CallBase *cb, Function *F, std::vector<Val> &args) {
    Frame nf; nf.F = F; FInfo &I = info(F); nf.regs.resize(I.n); nf.call = cb;
    unsigned i = 0;
    for (auto &p : F->args()) {
        if (i >= args.size()) unsup("argument count");
        Val v = args[i];
        if (p.hasByValAttr()) {
            Type *T = p.getParamByValType(); int64_t sz = DL->getTypeAllocSize(T);
            uint64_t id = newObj(S, sz, Obj::Stack, "byval");
            doMemcpy(S, mkPtr(id, 0), v, mkInt(sz, 64));
            nf.allocas.push_back(id); v = mkPtr(id, 0);
        }
        nf.regs[i++] = v;
    }
    for (; i < args.size(); ++i) nf.varargs.push_back(args[i]);
    nf.BB = &F->getEntryBlock(); nf.it = nf.BB->begin();
    S.stack.push_back(std::move(nf));
    if (S.stack.size() > 400) unsup("call depth");
    executedFns.insert(I.dem);
}

//---------------------------------------------------------------------------------------------- loop invariants
struct LoopInv { std::regex fn; unsigned ordinal; std::string inv; std::vector<std::string> vars, mods; };
// (see --loopinv; implemented in enterLoopHeader)

static bool doCall(State &S, const CallBase *cb) {  // returns true if frame pushed/changed control
    Function *F = cb->getCalledFunction();
    if (!F) {
        if (cb->isInlineAsm()) unsup("inline asm");
        Val fp = opnd(S, cb->getCalledOperand());
        needDef(S, fp, "indirect call");
        if (fp.k == Val::Ptr) { auto it = objGlobal.find(fp.obj); if (it != objGlobal.end()) F = dyn_cast<Function>(const_cast<GlobalValue *>(it->second)); }
        if (!F) failHere(S, "memory-safety:" + siteOf(S), "call through invalid function pointer", "");
    }
    std::vector<Val> args;
    if (F->isIntrinsic() && (F->getIntrinsicID() == Intrinsic::dbg_declare || F->getIntrinsicID() == Intrinsic::dbg_value || F->getIntrinsicID() == Intrinsic::dbg_label
        || F->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)) { finishCall(S, cb, Val{}); return true; }
    if (F->isIntrinsic() && F->getIntrinsicID() == Intrinsic::eh_typeid_for) { Val r; std::vector<Val> e; external(S, cb, F, e, r); finishCall(S, cb, r); return true; }
    for (auto &a : cb->args()) args.push_back(opnd(S, a));
    Val r;
    if (F->isDeclaration()) {
        if (external(S, cb, F, args, r)) { finishCall(S, cb, r); return true; }
        unsup("call to external function " + demangle(F->getName().str()));
    }
    if (intercept(S, cb, F, args, r)) { finishCall(S, cb, r); return true; }
    FInfo &I = info(F);
    if (I.skip) { trustedFns.insert("skipped: " + I.dem); Val z; Type *T = cb->getType(); if (T->isIntegerTy()) z = mkInt(0, T->getIntegerBitWidth()); finishCall(S, cb, z); return true; }
    if (I.repl) {
        // do not replace inside the stub itself
        bool inside = false; for (auto &f : S.stack) if (f.F == I.repl) inside = true;
        if (!inside) { F = I.repl; pushCall(S, cb, F, args); return true; }
    }
    if (I.merge) { runMerged(S, cb, F, args); return true; }
    pushCall(S, cb, F, args);
    return true;
}

static void branchOn(State &S, const E &c0, BasicBlock *t, BasicBlock *f, const Instruction *I) {
    E c = c0.simplify();
    if (isTrue(c)) { enterBlock(S, t); return; }
    if (isFalse(c)) { enterBlock(S, f); return; }
    {   // already decided on this path?
        E nc = (!c).simplify();
        unsigned ic = Z3_get_ast_id(*C, c), in = Z3_get_ast_id(*C, nc);
        for (auto &x : S.pc) { unsigned k = Z3_get_ast_id(*C, x); if (k == ic) { enterBlock(S, t); return; } if (k == in) { enterBlock(S, f); return; } }
    }
    std::shared_ptr<Model> mt, mf;
    z3::check_result rt = feasible(S, c, &mt);
    z3::check_result rf = rt == z3::unsat ? z3::sat : feasible(S, !c, &mf);
    if (rt == z3::unsat) { addPc(S, !c); if (S.model && !isTrue(evalIn(*S.model, !c))) S.model = nullptr; enterBlock(S, f); return; }
    if (rf == z3::unsat) { addPc(S, c); if (S.model && !isTrue(evalIn(*S.model, c))) S.model = nullptr; enterBlock(S, t); return; }
    Frame &fr = S.stack.back();
    if (++fr.forks[I] > opt.unroll) {
        boundedNotes.insert("symbolic loop/branch cut after " + std::to_string(opt.unroll) + " forks at " + where(S).substr(0, 300));
        throw PathEnd{};
    }
    auto o = std::make_unique<State>(S);
    addPc(*o, !c); o->model = rf == z3::sat ? mf : nullptr; if (rf == z3::unknown) o->feasUnknown = true;
    enterBlock(*o, f);
    work.push_back(std::move(o));
    addPc(S, c); S.model = rt == z3::sat ? mt : nullptr; if (rt == z3::unknown) S.feasUnknown = true;
    enterBlock(S, t);
}

// executes one instruction; may throw
static const bool profOn = getenv("DVER_PROF") != nullptr;            // development aid: steps per function
static std::map<const llvm::Function *, uint64_t> profCnt;
static void step(State &S) {
    Frame &f = S.stack.back();
    Instruction *I = &*f.it;
    nSteps++; if (profOn) profCnt[I->getFunction()]++;
    switch (I->getOpcode()) {
    case Instruction::Alloca: {
        auto *ai = cast<AllocaInst>(I);
        Val n = opnd(S, ai->getArraySize());
        if (n.k != Val::CInt) unsup("symbolic alloca");
        int64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n.ci;
        uint64_t id = newObj(S, sz, Obj::Stack, ai->getName().str(), ai);
        f.allocas.push_back(id);
        setReg(S, I, mkPtr(id, 0)); break;
    }
    case Instruction::Load: setReg(S, I, doLoad(S, opnd(S, I->getOperand(0)), I->getType())); break;
    case Instruction::Store: doStore(S, opnd(S, I->getOperand(1)), opnd(S, I->getOperand(0)), I->getOperand(0)->getType()); break;
    case Instruction::GetElementPtr: setReg(S, I, gepVal(S, opnd(S, I->getOperand(0)), cast<GEPOperator>(I), [&](const Value *v) { return opnd(S, v); })); break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        setReg(S, I, intBin(S, cast<BinaryOperator>(I), opnd(S, I->getOperand(0)), opnd(S, I->getOperand(1)))); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        Val a = opnd(S, I->getOperand(0)), b = opnd(S, I->getOperand(1));
        if (a.k == Val::Agg) { Val r = a; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(realBin(S, I->getOpcode(), (*a.agg)[i], (*b.agg)[i])); setReg(S, I, r); }
        else setReg(S, I, realBin(S, I->getOpcode(), a, b));
        break;
    }
    case Instruction::FNeg: { Val a = opnd(S, I->getOperand(0)); needDef(S, a, "negation");
        if (a.k == Val::CReal) setReg(S, I, mkReal(-*a.q)); else if (a.k == Val::Special) setReg(S, I, mkSpecial(-a.sp)); else setReg(S, I, mkSReal(-toReal(a))); break; }
    case Instruction::ICmp: setReg(S, I, icmp(S, cast<ICmpInst>(I)->getPredicate(), opnd(S, I->getOperand(0)), opnd(S, I->getOperand(1)))); break;
    case Instruction::FCmp: setReg(S, I, fcmp(S, cast<FCmpInst>(I)->getPredicate(), opnd(S, I->getOperand(0)), opnd(S, I->getOperand(1)))); break;
    case Instruction::ZExt: {
        Val a = opnd(S, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth();
        if (a.k == Val::Undef) { setReg(S, I, a); break; }
        if (a.k == Val::CInt) setReg(S, I, mkInt(a.ci, w)); else setReg(S, I, mkSInt(toInt(a), w)); break;
    }
    case Instruction::SExt: {
        Val a = opnd(S, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth();
        if (a.k == Val::Undef) { setReg(S, I, a); break; }
        if (a.k == Val::CInt) setReg(S, I, mkInt((uint64_t)sx(a), w));
        else { E s = toSigned(S, a); Itv i = itv(s); if (i.lo_ok && i.lo >= 0) setReg(S, I, mkSInt(s, w)); else if (z3::eq(s, toInt(a))) setReg(S, I, mkSInt(s, w)); else setReg(S, I, mkSInt(z3::ite(s >= 0, s, s + numInt(pow2(w))).simplify(), w)); }
        break;
    }
    case Instruction::Trunc: {
        Val a = opnd(S, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth();
        if (a.k == Val::Undef) { setReg(S, I, a); break; }
        if (a.k == Val::CInt) { setReg(S, I, mkInt(a.ci, w)); break; }
        if (a.k == Val::SBool) { setReg(S, I, w == 1 ? a : mkSInt(toInt(a), w)); break; }
        if (a.k != Val::SInt) unsup("trunc");
        if (w == 1) {
            E e = *a.e;
            Itv i = itv(e);
            if (i.lo_ok && i.hi_ok && i.lo >= 0 && i.hi <= 1) setReg(S, I, mkSBool((e == 1).simplify()));
            else setReg(S, I, mkSBool((z3::mod(e, 2) == 1).simplify()));
        } else setReg(S, I, mkSInt(wrapU(S, *a.e, w), w));
        break;
    }
    case Instruction::FPExt: setReg(S, I, opnd(S, I->getOperand(0))); break;
    case Instruction::FPTrunc: { Val a = opnd(S, I->getOperand(0)); if (a.k == Val::CReal) setReg(S, I, mkDouble((float)a.q->get_d())); else setReg(S, I, a); break; }
    case Instruction::UIToFP: { Val a = opnd(S, I->getOperand(0)); needDef(S, a, "conversion"); if (a.k == Val::CInt) setReg(S, I, mkReal(mpq_class(mpzFromU64(a.ci)))); else setReg(S, I, mkSReal(z3::expr(*C, Z3_mk_int2real(*C, toInt(a))))); break; }
    case Instruction::SIToFP: { Val a = opnd(S, I->getOperand(0)); needDef(S, a, "conversion"); if (a.k == Val::CInt) setReg(S, I, mkReal(mpq_class((long)sx(a)))); else setReg(S, I, mkSReal(z3::expr(*C, Z3_mk_int2real(*C, toSigned(S, a))))); break; }
    case Instruction::FPToUI: case Instruction::FPToSI: {
        Val a = opnd(S, I->getOperand(0)); needDef(S, a, "conversion"); unsigned w = I->getType()->getIntegerBitWidth();
        if (a.k == Val::Special) failHere(S, "fp-to-int-range:" + siteOf(S), "conversion of inf/nan to integer", "");
        bool sg = I->getOpcode() == Instruction::FPToSI;
        if (a.k == Val::CReal) { mpz_class z; mpz_tdiv_q(z.get_mpz_t(), a.q->get_num_mpz_t(), a.q->get_den_mpz_t());
            mpz_class lo = sg ? mpz_class(-pow2(w - 1)) : mpz_class(0), hi = sg ? pow2(w - 1) : pow2(w);
            if (z < lo || z >= hi) failHere(S, "fp-to-int-range:" + siteOf(S), "floating-point value out of integer range", "");
            setReg(S, I, mkSInt(numInt(z), w)); break; }
        E x = toReal(a); E fl = z3::expr(*C, Z3_mk_real2int(*C, x)); E tr = z3::ite(x >= 0, fl, -z3::expr(*C, Z3_mk_real2int(*C, -x)));
        if (provably(S, x >= 0)) tr = fl;
        oblige(S, "fp-to-int-range:" + siteOf(S), sg ? tr >= numInt(-pow2(w - 1)) && tr < numInt(pow2(w - 1)) : tr >= 0 && tr < numInt(pow2(w)), "floating-point value out of integer range");
        if (sg) setReg(S, I, fromSigned(S, tr, w)); else setReg(S, I, mkSInt(tr, w));
        break;
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: setReg(S, I, bitcastTo(S, opnd(S, I->getOperand(0)), I->getType())); break;
    case Instruction::Freeze: setReg(S, I, opnd(S, I->getOperand(0))); break;
    case Instruction::Select: {
        Val c = opnd(S, I->getOperand(0)); needDef(S, c, "select condition");
        Val a = opnd(S, I->getOperand(1)), b = opnd(S, I->getOperand(2));
        if (c.k == Val::CInt) { setReg(S, I, c.ci ? a : b); break; }
        bool ok; Val r = iteVal(toBool(c), a, b, ok);
        if (!ok) { E cc = toBool(c); if (provably(S, cc)) { setReg(S, I, a); break; } if (provably(S, !cc)) { setReg(S, I, b); break; } throw Fork{{cc, !cc}}; }
        setReg(S, I, r); break;
    }
    case Instruction::ExtractValue: { Val a = opnd(S, I->getOperand(0)); for (auto i : cast<ExtractValueInst>(I)->indices()) { if (a.k != Val::Agg) { a = Val{}; break; } Val t = (*a.agg)[i]; a = t; } setReg(S, I, a); break; }
    case Instruction::InsertValue: {
        Val a = opnd(S, I->getOperand(0)), b = opnd(S, I->getOperand(1)); auto idx = cast<InsertValueInst>(I)->getIndices();
        if (a.k != Val::Agg) { a = Val{}; a.k = Val::Agg; a.agg = std::make_shared<std::vector<Val>>(I->getType()->isStructTy() ? I->getType()->getStructNumElements() : I->getType()->getArrayNumElements()); }
        if (idx.size() != 1) unsup("nested insertvalue");
        a.agg = std::make_shared<std::vector<Val>>(*a.agg); (*a.agg)[idx[0]] = b; setReg(S, I, a); break;
    }
    case Instruction::ExtractElement: { Val a = opnd(S, I->getOperand(0)), i = opnd(S, I->getOperand(1)); if (i.k != Val::CInt || a.k != Val::Agg) unsup("extractelement"); setReg(S, I, (*a.agg)[i.ci]); break; }
    case Instruction::InsertElement: { Val a = opnd(S, I->getOperand(0)), b = opnd(S, I->getOperand(1)), i = opnd(S, I->getOperand(2)); if (i.k != Val::CInt) unsup("insertelement");
        if (a.k != Val::Agg) { a = Val{}; a.k = Val::Agg; a.agg = std::make_shared<std::vector<Val>>(cast<FixedVectorType>(I->getType())->getNumElements()); }
        a.agg = std::make_shared<std::vector<Val>>(*a.agg); (*a.agg)[i.ci] = b; setReg(S, I, a); break; }
    case Instruction::LandingPad: break;  // value set by unwind
    case Instruction::Resume: unsup("resume");
    case Instruction::Unreachable: failHere(S, "no-unreachable:" + siteOf(S), "reached unreachable code (missing return?)", "");
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if (b->isUnconditional()) { enterBlock(S, b->getSuccessor(0)); return; }
        Val c = opnd(S, b->getCondition()); needDef(S, c, "branch condition");
        if (c.k == Val::CInt) { enterBlock(S, b->getSuccessor(c.ci ? 0 : 1)); return; }
        branchOn(S, toBool(c), b->getSuccessor(0), b->getSuccessor(1), I);
        return;
    }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I);
        Val c = opnd(S, sw->getCondition()); needDef(S, c, "switch condition");
        if (c.k != Val::CInt) {
            E x = toInt(c); bool ok; uint64_t v; concLookup(S, x, ok, v);
            if (ok) c = mkInt(v, c.w);
            else {
                std::vector<E> cs; E rest = C->bool_val(true);
                for (auto &k : sw->cases()) { E q = x == numU64(k.getCaseValue()->getZExtValue()); if (provably(S, q)) { enterBlock(S, k.getCaseSuccessor()); return; } if (feasible(S, q, nullptr) != z3::unsat) cs.push_back(q); rest = rest && !q; }
                if (feasible(S, rest, nullptr) != z3::unsat) { if (cs.empty()) { enterBlock(S, sw->getDefaultDest()); return; } cs.push_back(rest); }
                if (cs.size() == 1) { // exactly one feasible
                    for (auto &k : sw->cases()) { E q = x == numU64(k.getCaseValue()->getZExtValue()); if (z3::eq(q, cs[0])) { addPc(S, q); if (S.model && !isTrue(evalIn(*S.model,q))) S.model=nullptr; enterBlock(S, k.getCaseSuccessor()); return; } }
                    enterBlock(S, sw->getDefaultDest()); return;
                }
                throw Fork{cs};
            }
        }
        BasicBlock *d = sw->getDefaultDest();
        for (auto &k : sw->cases()) if (k.getCaseValue()->getZExtValue() == c.ci) d = k.getCaseSuccessor();
        enterBlock(S, d); return;
    }
    case Instruction::Ret: {
        Val r; if (I->getNumOperands()) r = opnd(S, I->getOperand(0));
        const CallBase *cb = f.call;
        popFrame(S);
        if (S.stack.empty() || !cb) { S.done = true; return; }
        finishCall(S, cb, r);
        return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(S, cast<CallBase>(I)); return;
    case Instruction::AtomicRMW: { auto *rmw = cast<AtomicRMWInst>(I); Val p = opnd(S, rmw->getPointerOperand()), v = opnd(S, rmw->getValOperand()); Val old = doLoad(S, p, rmw->getType());
        Val nv; switch (rmw->getOperation()) { case AtomicRMWInst::Add: nv = mkSInt(wrapU(S, toInt(old) + toInt(v), v.w), v.w); break; case AtomicRMWInst::Sub: nv = mkSInt(wrapU(S, toInt(old) - toInt(v), v.w), v.w); break; case AtomicRMWInst::FAdd: nv = realBin(S, Instruction::FAdd, old, v); break; case AtomicRMWInst::Xchg: nv = v; break; default: unsup("atomicrmw"); }
        doStore(S, p, nv, rmw->getType()); setReg(S, I, old); break; }
    case Instruction::AtomicCmpXchg: { auto *cx = cast<AtomicCmpXchgInst>(I); Val p = opnd(S, cx->getPointerOperand()); Val old = doLoad(S, p, cx->getCompareOperand()->getType());
        doStore(S, p, opnd(S, cx->getNewValOperand()), cx->getNewValOperand()->getType()); Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(mkInt(1, 1)); setReg(S, I, r); break; }
    case Instruction::Fence: break;
    default: unsup(std::string("instruction ") + I->getOpcodeName());
    }
    S.stack.back().it = std::next(BasicBlock::iterator(I));
}

static bool timeUp() { return now() - tStart > opt.maxTime; }
// run states in `work` above index `floor` until empty. States whose stack depth drops below retDepth go to *returned.
static void runWork(size_t floor, std::vector<StateP> *returned, size_t retDepth) {
    while (work.size() > floor) {
        StateP s = std::move(work.back()); work.pop_back();
        int myMerge = returned ? (int)retDepth : -1;
        s->mergeDepth = myMerge;
        try {
            uint64_t cnt = 0;
            while (true) {
                if (s->done) { nPaths++; break; }
                if (returned && (s->thrown || s->stack.size() < retDepth)) { returned->push_back(std::move(s)); break; }
                if ((++cnt & 1023) == 0 && timeUp()) { incomplete = "time limit"; work.resize(0); if (returned) returned->clear(); throw Unsupported{"time limit"}; }
                try { step(*s); }
                catch (Fork &fk) {
                    for (size_t i = fk.conds.size(); i-- > 0;) {
                        E c = fk.conds[i].simplify(); std::shared_ptr<Model> m;
                        z3::check_result r = feasible(*s, c, &m);
                        if (r == z3::unsat) continue;
                        auto n = std::make_unique<State>(*s); addPc(*n, c); n->model = r == z3::sat ? m : nullptr; if (r == z3::unknown) n->feasUnknown = true;
                        work.push_back(std::move(n));
                    }
                    break;
                }
            }
        } catch (PathEnd &) { nPaths++; }
        catch (ForkStates &) {
            // either children were pushed (state discarded) or the state was unwound in place
            if (s && s->stack.size() && s->stack.back().spec == "lp") { s->stack.back().spec.clear(); work.push_back(std::move(s)); }
            else if (s && s->thrown && returned) returned->push_back(std::move(s));
        }
    }
}
static void runMerged(State &S, const CallBase *cb, Function *F, std::vector<Val> &args) {
    // explore all paths of the call, then merge the returning states
    size_t floor = work.size();
    size_t depth = S.stack.size() + 1;  // depth inside callee
    size_t base = S.pc.size();
    int outerMerge = S.mergeDepth;
    auto n = std::make_unique<State>(S);
    pushCall(*n, cb, F, args);
    work.push_back(std::move(n));
    std::vector<StateP> ret;
    mergeNest++;
    uint64_t kills0 = nPaths;
    runWork(floor, &ret, depth);
    mergeNest--;
    bool killed = nPaths != kills0;
    // group
    struct G { StateP s; E c; };
    std::vector<G> groups;
    for (auto &r : ret) {
        // condition of this path relative to base
        E c = andAll(r->pc, base);
        bool merged = false;
        if (!r->thrown) for (auto &g : groups) {
            if (g.s->thrown) continue;
            if (mergeTwo(*g.s, g.c, *r, c)) { merged = true; break; }
        }
        if (!merged) groups.push_back({std::move(r), c});
    }
    bool single = groups.size() == 1;
    for (auto &g : groups) {
        g.s->pc.erase(g.s->pc.begin() + base, g.s->pc.end());
        if (!(single && !killed)) addPc(*g.s, g.c.simplify());
        g.s->mergeDepth = outerMerge;
        if (!isTrue(g.c.simplify())) {
            if (single && !killed) g.s->model = S.model; else if (!(g.s->model && isTrue(evalIn(*g.s->model, g.c)))) g.s->model = nullptr;
        }
        g.s->model = (single && !killed && S.defs.size() == g.s->defs.size()) ? S.model : g.s->model;
        if (g.s->defs.size() != S.defs.size()) g.s->model = nullptr;
        if (g.s->thrown) { g.s->thrown = false; 
            // unwinding continues in the caller: emulate throw from the call site
            try { // the frame of callee was popped? stack has depth `depth` -> pop to caller then look for handler
                State &T = *g.s;
                unwind(T, "exception propagated through contract-merged call");
                if (T.thrown) { work.push_back(std::move(g.s)); continue; }
            } catch (PathEnd &) { nPaths++; continue; }
            g.s->stack.back().spec.clear();
        }
        work.push_back(std::move(g.s));
    }
    throw ForkStates{};
}

//---------------------------------------------------------------------------------------------- main
static std::string jesc(const std::string &s) {
    std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { if (i + 1 >= argc) { std::cerr << "missing arg\n"; exit(2); } return argv[++i]; };
        if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--max-time") opt.maxTime = std::stod(nx());
        else if (a == "--ob-timeout") opt.obTimeout = std::stod(nx()); else if (a == "--br-timeout") opt.brTimeout = std::stod(nx());
        else if (a == "--unroll") opt.unroll = std::stoul(nx()); else if (a == "--ieee-div") opt.ieeeDiv = true; else if (a == "--native-tol") opt.nativeTol = true;
        else if (a == "--no-external") opt.useExternal = false; else if (a == "-v") opt.verbose = true; else if (a == "--smtdir") opt.smtdir = nx(); else if (a == "--no-ctors") opt.noCtors = true;
        else if (a == "--merge") opt.merge.emplace_back(nx()); else if (a == "--skip") opt.skip.emplace_back(nx());
        else if (a == "--replace") { std::string s = nx(); auto p = s.rfind("=>"); opt.replace.push_back({std::regex(s.substr(0, p)), s.substr(p + 2)}); }
        else opt.bc = a;
    }
    if (opt.smtdir.empty()) opt.smtdir = "/tmp";
    tStart = now();
    z3::context ctx; C = &ctx;
    LLVMContext lc; SMDiagnostic err;
    auto mod = parseIRFile(opt.bc, err, lc);
    if (!mod) { err.print("dver", errs()); return 2; }
    M = mod.get(); DL = &mod->getDataLayout();
    std::string status = "ok", why;
    try {
        Function *F = M->getFunction(opt.entry);
        if (!F) { std::cerr << "no entry " << opt.entry << "\n"; return 2; }
        auto s = std::make_unique<State>();
        s->model = std::make_shared<Model>();
        auto runFn = [&](Function *fn) {
            auto st = std::move(s);
            std::vector<Val> none; pushCall(*st, nullptr, fn, none);
            State *raw = st.get(); (void)raw;
            while (true) {
                if (st->done) break;
                step(*st);
            }
            st->done = false;
            s = std::move(st);
        };
        if (!opt.noCtors) {
            if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) runFn(fn); }
        }
        obs.clear(); executedFns.clear(); trustedFns.clear();
        std::vector<Val> none; pushCall(*s, nullptr, F, none);
        work.push_back(std::move(s));
        runWork(0, nullptr, 0);
    } catch (Unsupported &u) { status = incomplete.empty() ? "unsupported" : "incomplete"; why = u.what; }
    catch (PathEnd &) { status = "unsupported"; why = "path end in constructors"; }
    catch (z3::exception &e) { status = "unsupported"; why = std::string("z3: ") + e.msg(); }
    catch (Fork &) { status = "unsupported"; why = "fork in constructors"; }
    catch (ForkStates &) { status = "unsupported"; why = "fork in constructors"; }
    std::ofstream o(opt.out.empty() ? "/dev/stdout" : opt.out);
    o << "{\n \"entry\":\"" << opt.entry << "\",\n \"status\":\"" << status << "\",\n \"why\":\"" << jesc(why) << "\",\n \"paths\":" << nPaths << ", \"steps\":" << nSteps << ", \"queries\":" << nQueries << ", \"solver_s\":" << solverTime << ", \"wall_s\":" << now() - tStart << ",\n";
    o << " \"solver_by\":{"; bool first = true; for (auto &t : timeBy) { o << (first ? "" : ",") << "\"" << t.first << "\":" << t.second; first = false; } o << "},\n";
    o << " \"obligations\":{\n"; first = true;
    for (auto &x : obs) { o << (first ? "" : ",\n") << "  \"" << jesc(x.first) << "\":{\"generated\":" << x.second.gen << ",\"trivial\":" << x.second.triv << ",\"discharged\":" << x.second.unsat << ",\"failed\":" << x.second.failed << ",\"unknown\":" << x.second.unknown << ",\"by\":{"; bool f2 = true; for (auto &b : x.second.by) { o << (f2 ? "" : ",") << "\"" << b.first << "\":" << b.second; f2 = false; } o << "}}"; first = false; }
    o << "\n },\n \"failures\":[\n"; first = true;
    for (auto &f : failures) { o << (first ? "" : ",\n") << "  {\"label\":\"" << jesc(f.label) << "\",\"kind\":\"" << jesc(f.kind) << "\",\"where\":\"" << jesc(f.where) << "\",\"detail\":\"" << jesc(f.detail) << "\",\"inputs\":["; bool f2 = true; for (auto &in : f.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(in.first) << "\",\"" << jesc(in.second) << "\"]"; f2 = false; } o << "]}"; first = false; }
    auto set2 = [&](const char *k, const std::set<std::string> &st) { o << ",\n \"" << k << "\":["; bool f2 = true; for (auto &x : st) { o << (f2 ? "" : ",") << "\"" << jesc(x) << "\""; f2 = false; } o << "]"; };
    o << "\n ]";
    std::set<std::string> qf; for (auto &x : executedFns) if (x.find("queso::") != std::string::npos) { std::string y = x.size() > 300 ? x.substr(0, 300) : x; qf.insert(y); }
    set2("functions", qf); set2("replaced", replacedFns); set2("trusted", trustedFns); set2("bounded", boundedNotes);
    o << ",\n \"covers\":{"; first = true; for (auto &x : covers) { o << (first ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; first = false; } o << "}";
    o << ",\n \"covers_unconfirmed\":{"; first = true; for (auto &x : coversMaybe) { o << (first ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; first = false; } o << "}\n}\n";
    if (profOn) { std::vector<std::pair<uint64_t, std::string>> v; for (auto &x : profCnt) v.push_back({x.second, llvm::demangle(x.first->getName().str())}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; ++i) std::cerr << v[i].first << " " << v[i].second.substr(0, 150) << "\n"; }
    o.flush(); o.close(); std::cout.flush(); std::cerr.flush();
    _exit(0);      // pending states need no destruction
}
