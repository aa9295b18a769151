// Native runtime for contract units: replays verifier counterexamples on the real code, and runs the bounded stand-in
// (seeded sampling of the same contract inputs, with edge values and value re-use). Never counted as proof.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <set>
#include <vector>
#include <random>
#include <chrono>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

static std::mt19937_64 rng;
static bool replayMode = false;
static std::map<std::string, std::vector<double>> replayVals;
static std::map<std::string, size_t> replayPos;
struct In { std::string name; double v; bool isInt; long iv; };
static std::vector<In> inputs;
static std::map<std::string, size_t> nameCount;
static std::vector<double> pool;
static std::map<std::string, unsigned long> ensured, covered;
static std::string failLabel, notes;
static std::string harnessName, failFile;
static unsigned long nCases = 0, nRejected = 0, nAccepted = 0;
static bool quietReject = false;
struct VpFail {};

static double u01() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static std::string uniq(const char* n) {
    size_t k = nameCount[n]++;
    return k == 0 ? std::string(n) : std::string(n) + "#" + std::to_string(k);
}
static bool lookup(const std::string& n, double& v) {
    auto it = replayVals.find(n);
    if (it == replayVals.end()) return false;
    v = it->second[0];
    return true;
}
extern "C" {
int vp_symbolic() { return 0; }
double vp_any_real(const char* name, double lo, double hi) {
    std::string n = uniq(name);
    double v;
    if (replayMode) { if (!lookup(n, v)) v = std::isinf(lo) ? (std::isinf(hi) ? 0.0 : hi) : lo; inputs.push_back({n, v, false, 0}); return v; }
    double l = std::isinf(lo) ? (std::isinf(hi) ? -8.0 : hi - 16.0) : lo, h = std::isinf(hi) ? (std::isinf(lo) ? 8.0 : l + 16.0) : hi;
    unsigned k = rng() % 20;
    if (k < 8) v = l + (h - l) * u01();
    else if (k < 11) v = l + (h - l) * ((rng() % 9) / 8.0);
    else if (k < 12) v = l;
    else if (k < 13) v = h;
    else if (k < 15) v = std::round(l + (h - l) * u01());
    else if (k < 18 && !pool.empty()) { v = pool[rng() % pool.size()]; if (rng() % 4 == 0) v += (u01() - 0.5) * std::pow(10.0, -(double)(rng() % 12)); }
    else if (k < 19) { double e = std::pow(10.0, -(double)(rng() % 10)); v = (rng() & 1) ? l + (h - l) * e : h - (h - l) * e; }
    else v = 0.0;
    if (v < l) v = l; if (v > h) v = h;
    pool.push_back(v);
    inputs.push_back({n, v, false, 0});
    return v;
}
long vp_any_int(const char* name, long lo, long hi) {
    std::string n = uniq(name);
    long v; double d;
    if (replayMode) { if (lookup(n, d)) v = (long)d; else v = lo; }
    else { unsigned k = rng() % 10; unsigned long span = (unsigned long)hi - (unsigned long)lo + 1;
        if (span == 0) v = (long)rng();
        else if (k == 0) v = lo; else if (k == 1) v = hi; else if (k < 5 && span > 12) v = lo + (long)(rng() % 12); else v = lo + (long)(rng() % span); }
    inputs.push_back({n, (double)v, true, v});
    return v;
}
bool vp_any_bool(const char* name) {
    std::string n = uniq(name); double d; bool v;
    if (replayMode) v = lookup(n, d) ? d != 0 : false; else v = rng() & 1;
    inputs.push_back({n, v ? 1.0 : 0.0, true, v});
    return v;
}
long vp_case(const char* name, long lo, long hi) { return vp_any_int(name, lo, hi); }
void vp_assume(bool c) { if (!c) throw VpReject{}; }
void vp_ensure(const char* label, bool c) { ensured[label]++; if (!c) { failLabel = label; throw VpFail{}; } }
void vp_cover(const char* label) { covered[label]++; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
bool vp_imp(bool a, bool b) { return !a || b; }
double vp_ite_real(bool c, double a, double b) { return c ? a : b; }
void vp_dead_end() { throw VpReject{}; }
void vp_print_real(const char* name, double x) { char b[128]; snprintf(b, sizeof b, "%s=%.17g ", name, x); notes += b; }
void vp_note(const char* t) { notes += t; notes += ' '; }
}
static void writeFail(const std::string& what) {
    FILE* f = fopen(failFile.c_str(), "w");
    if (!f) return;
    fprintf(f, "harness %s\nfailed %s\n", harnessName.c_str(), what.c_str());
    if (!notes.empty()) fprintf(f, "notes %s\n", notes.c_str());
    for (auto& i : inputs) { if (i.isInt) fprintf(f, "input %s %ld\n", i.name.c_str(), i.iv); else fprintf(f, "input %s %a\n", i.name.c_str(), i.v); }
    fclose(f);
}
static void onSig(int s) { writeFail(std::string("crash:signal ") + std::to_string(s)); _exit(1); }
extern "C" void __asan_on_error() { writeFail("memory-safety (address sanitizer)"); }
static void onDeath() { if (failLabel.empty()) writeFail("memory-safety or undefined behaviour (sanitizer)"); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static std::string sampleTxt;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// returns 0 ok, 1 fail, 2 rejected
static int runOne(void (*fn)()) {
    inputs.clear(); nameCount.clear(); pool.clear(); notes.clear(); failLabel.clear();
    nCases++;
    try { fn(); nAccepted++; if (sampleTxt.empty()) { for (auto& i : inputs) { char b[700]; if (i.isInt) snprintf(b, sizeof b, "%s=%ld ", i.name.c_str(), i.iv); else snprintf(b, sizeof b, "%s=%.6g ", i.name.c_str(), i.v); sampleTxt += b; if (sampleTxt.size() > 600) break; } if (sampleTxt.empty()) sampleTxt = "(no inputs)"; } return 0; }
    catch (VpReject&) { nRejected++; return 2; }
    catch (VpFail&) { writeFail(failLabel); return 1; }
    catch (std::exception& e) { failLabel = std::string("no-unexpected-exception"); notes += e.what(); for (auto& c : notes) if (c == '\n') c = ' '; writeFail(failLabel); return 1; }
    catch (...) { failLabel = "no-unexpected-exception"; writeFail(failLabel); return 1; }
}
int main(int argc, char** argv) {
    double tmax = 10; unsigned long maxCases = 1000000, seed = 1; std::string replay, out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--harness") harnessName = nx(); else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--cases") maxCases = strtoul(nx().c_str(), 0, 10);
        else if (a == "--seed") seed = strtoul(nx().c_str(), 0, 10); else if (a == "--replay") replay = nx(); else if (a == "--out") out = nx(); else if (a == "--fail") failFile = nx();
    }
    void* self = dlopen(nullptr, RTLD_NOW);
    auto fn = (void (*)())dlsym(self, harnessName.c_str());
    if (!fn) { fprintf(stderr, "no harness %s\n", harnessName.c_str()); return 2; }
    if (failFile.empty()) failFile = "/dev/null";
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    else for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, onSig);
    signal(SIGABRT, onSig);
    // the code under test prints diagnostics: keep them out of the check's output
    if (!getenv("VP_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) {} }
    int rc = 0;
    if (!replay.empty()) {
        replayMode = true;
        FILE* f = fopen(replay.c_str(), "r"); char n[512], v[512], k[64];
        char line[2048];
        while (f && fgets(line, sizeof line, f)) if (sscanf(line, "%63s %511s %511s", k, n, v) == 3 && !strcmp(k, "input")) replayVals[n] = {strtod(v, nullptr)};
        if (f) fclose(f);
        int r = runOne(fn);
        rc = r == 1 ? 1 : r == 2 ? 3 : 0;
        fprintf(stderr, "replay: %s %s\n", r == 1 ? "FAILED" : r == 2 ? "rejected (precondition)" : "passed", failLabel.c_str());
    } else {
        double t0 = nowS();
        for (unsigned long c = 0; c < maxCases; ++c) {
            if ((c & 7) == 0 && nowS() - t0 > tmax) break;
            rng.seed(seed * 0x9E3779B97F4A7C15ull + c * 0xD1B54A32D192ED03ull + 12345);
            int r = runOne(fn);
            if (r == 1) { rc = 1; break; }
        }
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"harness\":\"%s\",\"cases\":%lu,\"accepted\":%lu,\"rejected\":%lu,\"failed\":\"%s\",\"ensured\":{", harnessName.c_str(), nCases, nAccepted, nRejected, rc == 1 ? failLabel.c_str() : "");
        bool first = true; for (auto& e : ensured) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", e.first.c_str(), e.second); first = false; }
        fprintf(f, "},\"sample\":\"%s\"}\n", sampleTxt.c_str()); fclose(f);
    }
    fflush(stdout);
    _exit(rc);
}
