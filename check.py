#!/usr/bin/env python3
"""Driver: decides one property by discharging the contract obligations generated from /repo's current sources.

usage: check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--strict] [--keep]

Contract units live in contracts/*.cpp.  Structured comments in them:
  //@sources  a.cpp b.cpp           sources of /repo linked into the unit (bitcode and native)
  //@harness NAME property=P01[,P02] [mode=both|sym|native] [tier=quick|thorough] [max=SEC] [ob=SEC] [native=SEC]
             [opts="engine options"]  [thopts="engine options of the thorough tier instead of opts"] [finding=ID]
"""
import argparse, concurrent.futures as cf, fractions, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4
CLANG = "clang++-18"
INC = [f"-I{VERIF}/contracts", f"-I{REPO}", f"-I{REPO}/queso", f"-I{REPO}/external_libraries"]
BCFLAGS = ["-std=c++20", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", f"-I{VERIF}/stubs"] + INC
NATFLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-fPIC", "-DVP_NATIVE", "-DQUESO_BUILD_TESTING=0", "-fopenmp", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined",
            "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"] + INC
ENGFLAGS = ["-std=c++20", "-O1", "-w", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE"]
ENGLIBS = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lgmpxx", "-lgmp"]
LEVELS = {}


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def fname(sig):
    """Qualified name of a demangled signature if it is a function of /repo (template arguments dropped)."""
    out, depth = "", 0
    s = sig.replace("operator<<", "operator_shl").replace("operator<", "operator_lt").replace("operator->", "operator_arrow").replace("operator()", "operator_call")
    s = s.replace("(anonymous namespace)", "anon")
    for c in s:
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0:
            if c == "(": break
            out += c
    out = out.strip().split(" ")[-1]
    return out if out.startswith("queso::") or out.startswith("aabb") else None


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class Harness:
    pass


def parse_units():
    units = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.cpp"))):
        name = os.path.basename(f)[:-4]
        txt = open(f).read()
        srcs, natlink, natsrcs = [], [], []
        for m in re.finditer(r"^//@sources\s+(.*)$", txt, re.M):
            srcs += m.group(1).split()
        for m in re.finditer(r"^//@native_sources\s+(.*)$", txt, re.M):
            natsrcs += m.group(1).split()
        u = {"name": name, "file": f, "sources": srcs, "natsources": natsrcs, "harnesses": []}
        for m in re.finditer(r"^//@harness\s+(\S+)\s+(.*)$", txt, re.M):
            h = Harness()
            h.name = m.group(1)
            kv = {}
            for tok in shlex.split(m.group(2)):
                k, _, v = tok.partition("=")
                kv[k] = v
            h.props = kv.get("property", "").split(",")
            h.mode = kv.get("mode", "both")
            h.tier = kv.get("tier", "quick")
            h.max = float(kv.get("max", "240"))
            h.ob = float(kv.get("ob", "20"))
            h.native = float(kv.get("native", "4"))
            h.opts = shlex.split(kv.get("opts", ""))
            h.thopts = shlex.split(kv["thopts"]) if "thopts" in kv else None
            h.finding = kv.get("finding")
            h.unit = u
            u["harnesses"].append(h)
        units[name] = u
    return units


def run(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = 124; r.stdout = e.stdout or b""
        return r


def build_engine():
    src = os.path.join(VERIF, "engine", "dver.cpp")
    key = sha(rd(src), " ".join(ENGFLAGS))
    out = os.path.join(BUILD, "dver-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + f".{os.getpid()}"
    r = run(["g++"] + ENGFLAGS + [src, "-o", tmp] + ENGLIBS)
    if r.returncode:
        raise SystemExit("cannot build the verifier:\n" + r.stdout.decode()[-3000:])
    os.rename(tmp, out)
    for o in glob.glob(os.path.join(BUILD, "dver-*")):
        if o != out:
            try: os.unlink(o)
            except OSError: pass
    return out


def tree_key():
    """Hash of everything a compilation can see: /repo's headers and sources, contracts, runtime."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "queso"), os.path.join(REPO, "external_libraries"), os.path.join(VERIF, "contracts"), os.path.join(VERIF, "stubs"), os.path.join(VERIF, "runtime")]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".tpp", ".hh", ".hxx", ".inl", ".cc")) :
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(rd(p))
    return h.hexdigest()


def cached_compile(cmd, src, suffix, tkey):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    key = sha(tkey, rd(src), src, " ".join(cmd))
    out = os.path.join(BUILD, "obj", key + suffix)
    if os.path.exists(out):
        return out, ""
    tmp = out + f".{os.getpid()}.{time.time_ns()}" + suffix
    r = run(cmd + [src, "-o", tmp], timeout=600)
    if r.returncode:
        return None, r.stdout.decode(errors="replace")
    os.rename(tmp, out)
    return out, ""


def ratf(s):
    if s in ("0", "1"):
        return s
    try:
        f = fractions.Fraction(s)
        if f.denominator == 1 and abs(f.numerator) < 2**62:
            return str(f.numerator)
        return float(f).hex()
    except Exception:
        return "0"


class Checker:
    def __init__(self, prop, tier, only=None, keep=False):
        self.prop, self.tier, self.only = prop, tier, only
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="dver_", dir=os.environ.get("TMPDIR", "/tmp"))
        self.keep = keep
        self.notes = []
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def note(self, s):
        self.notes.append(s)
        log("note:", s)

    def compile_all(self, units):
        tkey = tree_key()
        fut = {}
        eng = self.pool.submit(build_engine)
        def bc(src): return self.pool.submit(cached_compile, [CLANG] + BCFLAGS, src, ".bc", tkey)
        def nat(src): return self.pool.submit(cached_compile, ["g++"] + NATFLAGS + ["-c"], src, ".o", tkey)
        rts = os.path.join(VERIF, "runtime", "rt.cpp")
        nrt = os.path.join(VERIF, "runtime", "native_rt.cpp")
        anysym = any(h.mode != "native" for u in units for h in u["sel"])
        anynat = any(h.mode != "sym" for u in units for h in u["sel"])
        if anysym: fut["rt.bc"] = bc(rts)
        if anynat or anysym: fut["nrt.o"] = nat(nrt)
        for u in units:
            sym = any(h.mode != "native" for h in u["sel"])
            for s in [u["file"]] + [os.path.join(REPO, x) for x in u["sources"]]:
                if sym and ("bc", s) not in fut: fut[("bc", s)] = bc(s)
                if ("nat", s) not in fut: fut[("nat", s)] = nat(s)
            for x in u["natsources"]:
                s = os.path.join(REPO, x)
                if ("nat", s) not in fut: fut[("nat", s)] = nat(s)
        self.engine = None
        res = {k: f.result() for k, f in fut.items()}
        self.engine = eng.result() if anysym else None
        for u in units:
            u["linkbc"] = u["exe"] = None
            sym = any(h.mode != "native" for h in u["sel"])
            files = [u["file"]] + [os.path.join(REPO, x) for x in u["sources"]]
            if sym:
                bad = [f for f in files if res[("bc", f)][0] is None]
                if bad:
                    self.note(f"unit {u['name']}: extraction to bitcode failed for {bad}: {res[('bc', bad[0])][1][-800:]}")
                else:
                    out = os.path.join(self.tmp, u["name"] + ".bc")
                    r = run(["llvm-link-18"] + [res[("bc", f)][0] for f in files] + [res["rt.bc"][0], "-o", out])
                    if r.returncode: self.note(f"unit {u['name']}: llvm-link failed: {r.stdout.decode()[-500:]}")
                    else: u["linkbc"] = out
            nfiles = files + [os.path.join(REPO, x) for x in u["natsources"]]
            bad = [f for f in nfiles if res[("nat", f)][0] is None]
            if bad:
                self.note(f"unit {u['name']}: native compilation failed for {bad}: {res[('nat', bad[0])][1][-800:]}")
            elif "nrt.o" in res and res["nrt.o"][0]:
                out = os.path.join(self.tmp, u["name"] + ".exe")
                r = run(["g++", "-rdynamic", "-fopenmp", "-fsanitize=address,undefined", "-o", out] + [res[("nat", f)][0] for f in nfiles] + [res["nrt.o"][0], "-ldl"])
                if r.returncode: self.note(f"unit {u['name']}: native link failed: {r.stdout.decode()[-800:]}")
                else: u["exe"] = out

    def sym(self, h, extra=()):
        out = os.path.join(self.tmp, f"{h.name}.{len(extra)}.json")
        opts = h.thopts if (self.tier == "thorough" and h.thopts is not None) else h.opts
        mx = h.max * (3 if self.tier == "thorough" else 1)
        cmd = [self.engine, "--entry", h.name, "--out", out, "--smtdir", self.tmp, "--max-time", str(mx), "--ob-timeout", str(h.ob * (2 if self.tier == "thorough" else 1))] + opts + list(extra) + [h.unit["linkbc"]]
        r = run(cmd, timeout=mx + 120)
        try:
            d = json.load(open(out))
        except Exception as e:
            d = {"status": "crashed", "why": f"engine rc={r.returncode} {r.stdout[-500:].decode(errors='replace')}", "obligations": {}, "failures": [], "functions": [], "replaced": [], "trusted": [], "bounded": [],
                 "covers": {}, "covers_unconfirmed": {}, "solver_by": {}, "solver_s": 0, "paths": 0, "queries": 0, "wall_s": 0}
        d["cmd"] = " ".join(shlex.quote(c) for c in cmd)
        return d

    def natenv(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=1:print_stacktrace=0"
        e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "2")
        return e

    def native(self, h, secs, seed):
        if not h.unit["exe"]: return None
        out = os.path.join(self.tmp, f"{h.name}.{seed}.nat.json")
        fail = os.path.join(self.tmp, f"{h.name}.{seed}.fail")
        wd = tempfile.mkdtemp(dir=self.tmp)
        r = run([h.unit["exe"], "--harness", h.name, "--time", str(secs), "--seed", str(seed), "--out", out, "--fail", fail], timeout=secs + 120, env=self.natenv(), cwd=wd)
        d = {"cases": 0, "accepted": 0, "rejected": 0, "failed": "", "ensured": {}}
        try: d = json.load(open(out))
        except Exception: pass
        d["rc"] = r.returncode
        d["fail"] = fail if os.path.exists(fail) else None
        d["log"] = r.stdout[-1500:].decode(errors="replace")
        if r.returncode == 124: d["rc"] = 0; d["timeout"] = True
        return d

    def replay(self, h, inputs, n):
        if not h.unit["exe"]: return None, None
        f = os.path.join(self.tmp, f"{h.name}.replay{n}")
        with open(f, "w") as o:
            for k, v in inputs: o.write(f"input {k} {ratf(v)}\n")
        fail = f + ".fail"
        wd = tempfile.mkdtemp(dir=self.tmp)
        r = run([h.unit["exe"], "--harness", h.name, "--replay", f, "--fail", fail], timeout=120, env=self.natenv(), cwd=wd)
        return (r.returncode == 1), (fail if os.path.exists(fail) else None)

    def go(self):
        try:
            return self.go2()
        finally:
            if not self.keep: shutil.rmtree(self.tmp, ignore_errors=True)

    def go2(self):
        units = parse_units()
        sel = []
        for u in units.values():
            u["sel"] = [h for h in u["harnesses"] if self.prop in h.props and (self.tier == "thorough" or h.tier == "quick") and (not self.only or re.search(self.only, h.name))]
            if u["sel"]: sel.append(u)
        if not sel:
            log(f"no harness for {self.prop}"); return 2
        self.compile_all(sel)
        tb = time.time() - self.t0
        hs = [h for u in sel for h in u["sel"]]
        symf, natf = {}, {}
        order = sorted(hs, key=lambda h: -h.max)
        for h in order:
            if h.mode != "native" and h.unit["linkbc"] and self.engine: symf[h.name] = self.pool.submit(self.sym, h)
        nmul = 6 if self.tier == "thorough" else 1
        for h in order:
            if h.mode != "sym": natf[h.name] = self.pool.submit(self.native, h, h.native * nmul, self.seed)
        S = {n: f.result() for n, f in symf.items()}
        N = {n: f.result() for n, f in natf.items()}
        findings = self.load_findings()
        violations, undecided, known = [], [], []
        rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
        for old in glob.glob(os.path.join(rdir, self.prop + "_*")): os.unlink(old)
        for h in hs:
            d, n = S.get(h.name), N.get(h.name)
            natfail = n and n["rc"] not in (0,)
            if natfail and not n["fail"]:
                # native run ended abnormally without a recorded case
                self.note(f"{h.name}: native run ended with rc={n['rc']}: {n['log'][-400:]}")
            failed = []
            if d:
                for f in d["failures"]: failed.append(f)
                if d["status"] != "ok": undecided.append(f"{h.name}: {d['status']}: {d['why']}")
                for l, o in d["obligations"].items():
                    if o["unknown"]: undecided.append(f"{h.name}: {o['unknown']} obligation(s) '{l}' not decided by any solver")
                # vacuity: a postcondition has to be reached
                if d["status"] == "ok" and not any(k.startswith("ensure:") for k in list(d["covers"]) + list(d["covers_unconfirmed"])) and not d["failures"]:
                    undecided.append(f"{h.name}: vacuous (no postcondition reached)")
            elif h.mode != "native":
                undecided.append(f"{h.name}: not run by the verifier")
            if n is None and h.mode != "sym" : undecided.append(f"{h.name}: native stand-in not built")
            if failed or natfail:
                rep, confirmed = None, False
                if n and n.get("fail"): rep, confirmed = n["fail"], True
                if not confirmed:
                    for i, f in enumerate(failed):
                        ok, fl = self.replay(h, f["inputs"], i)
                        if ok: confirmed, rep = True, fl; break
                if not confirmed and failed:
                    d2 = self.sym(h, ("--native-tol",))
                    for i, f in enumerate(d2["failures"]):
                        ok, fl = self.replay(h, f["inputs"], 100 + i)
                        if ok: confirmed, rep = True, fl; break
                if not confirmed and failed and n is not None:
                    n2 = self.native(h, 20, self.seed + 7777)
                    if n2 and n2["rc"] == 1 and n2["fail"]: confirmed, rep = True, n2["fail"]
                if natfail and not failed and not confirmed:
                    if n["rc"] == 1 or n["rc"] in (-11, -6, -8, -4, -7): confirmed = True
                    else: undecided.append(f"{h.name}: native stand-in rc={n['rc']}"); continue
                path = os.path.join(rdir, f"{self.prop}_{h.name}.txt")
                with open(path, "w") as o:
                    o.write(f"property {self.prop}\nharness {h.name} (contracts/{h.unit['name']}.cpp)\n")
                    if rep: o.write("--- failing input replayed on the real code (name value)\n" + open(rep).read())
                    elif n: o.write("--- native log\n" + n["log"] + "\n")
                    for f in failed:
                        o.write(f"--- failed obligation: {f['label']} [{f['kind']}]\n  at {f['where']}\n  {f['detail']}\n  verifier counterexample: {f['inputs']}\n")
                    if d: o.write("--- verifier command: " + d["cmd"] + "\n")
                kf = [k for k in findings if k.get("harness") == h.name]
                if kf and h.finding:
                    known.append((h, kf[0])); continue
                violations.append((h, path, confirmed, failed, n))
            elif h.finding:
                self.note(f"{h.name}: known finding {h.finding} no longer reproduces")
        self.evidence(hs, S, N, undecided, violations, tb)
        for s in undecided: log("UNDECIDED:", s)
        for h, k in known: log(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        for h, path, confirmed, failed, n in violations:
            for f in failed[:3]: log(f"failed obligation {h.name}/{f['label']} at {f['where'][:200]}")
            if n and n["rc"] == 1: log(f"native stand-in {h.name} failed: {n.get('failed')} {n['log'][-300:] if not n.get('fail') else ''}")
        confirmed_v = [v for v in violations if v[2]]
        if violations:
            v = (confirmed_v or violations)[0]
            log(f"VIOLATION property={self.prop} replay={v[1]}" + ("" if v[2] else " no-failing-input-found"))
            return 1
        if not any(d["status"] == "ok" for d in S.values()) and not any(n for n in N.values()):
            log(f"{self.prop}: no answer (nothing could be built or run)"); return 2
        log(f"{self.prop}: held ({self.tier}); wall {time.time()-self.t0:.1f}s, build {tb:.1f}s" + (f"; {len(undecided)} item(s) undecided by proof, see evidence" if undecided else ""))
        self.undecided = undecided
        return 0

    def load_findings(self):
        p = os.path.join(VERIF, "known_findings.json")
        try: return [k for k in json.load(open(p)) if k.get("property") == self.prop and k.get("status") == "open"]
        except Exception: return []

    def evidence(self, hs, S, N, undecided, violations, tb):
        gen = dis = conc = 0
        by, solver, fns, trusted, bounded, replaced = {}, {}, set(), set(), set(), set()
        per, labels = {}, {}
        for h in hs:
            e = {"mode": h.mode}
            d = S.get(h.name)
            if d:
                # memory / arithmetic side conditions that evaluate to constants on a path are counted apart from the headline
                tr = sum(o["trivial"] for l, o in d["obligations"].items() if ":" in l)
                g = sum(o["generated"] for o in d["obligations"].values()) - tr; k = sum(o["discharged"] for o in d["obligations"].values()) - tr
                conc += tr
                fl = sum(o["failed"] for o in d["obligations"].values()); un = sum(o["unknown"] for o in d["obligations"].values())
                gen += g; dis += k
                for o in d["obligations"].values():
                    for b, c in o["by"].items(): by[b] = by.get(b, 0) + c
                for b, t in d["solver_by"].items(): solver[b] = round(solver.get(b, 0) + t, 3)
                fns |= {y for y in map(fname, d["functions"]) if y}
                trusted |= set(d["trusted"]); replaced |= set(d["replaced"])
                for b in d["bounded"]: bounded.add(f"{h.name}: {b}")
                e.update(status=d["status"], why=d["why"], obligations=g, discharged=k, failed=fl, unknown=un, paths=d["paths"], solver_queries=d["queries"], solver_s=round(d["solver_s"], 2), wall_s=round(d["wall_s"], 2),
                         postconditions={l: o["discharged"] for l, o in d["obligations"].items() if ":" not in l}, covered=sorted(d["covers"]))
            n = N.get(h.name)
            if n: e["bounded_native"] = {"cases": n["cases"], "accepted": n["accepted"], "rejected_by_precondition": n["rejected"], "label": "bounded sampling, not counted as proof"}
            per[h.name] = e
        mf = {}
        try: mf = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}.get(self.prop, {})
        except Exception: pass
        level = mf.get("level", "proof")
        natc = sum((N[n]["cases"] if N[n] else 0) for n in N)
        nata = sum((N[n]["accepted"] if N[n] else 0) for n in N)
        cov = {"obligations": gen, "discharged": dis, "checker_cmd": f"python3 {VERIF}/check.py {self.prop} --tier {self.tier}",
               "trusted_base": ["engine/dver.cpp (LLVM-IR semantics of the verifier)", "clang 18 front end (C++ to LLVM IR at -O0)", "z3 4.8.12 / z3 5.3 / cvc5 1.1.2", "runtime/rt.cpp (stand-ins for libstdc++ out-of-line tree/hash/list functions)"] + sorted(trusted),
               "discharged_by": by, "solver_seconds": solver, "functions_under_contract": sorted(fns), "callee_contracts_used": sorted(replaced),
               "bounded": sorted(bounded), "undecided": undecided, "harnesses": per, "build_s": round(tb, 1),
               "implicit_checks_constant": conc, "evaluations": natc, "distinct_nontrivial": nata,
               "rule": "bounded native stand-in (never counted as proof): seeded sampling (uniform, edge, re-used and near-equal values) of the contract's inputs on the real code under ASan/UBSan; non-trivial = accepted by every vp_assume precondition",
               "samples": [f"{h.name}: {N[h.name]['sample'].strip()}" for h in hs if N.get(h.name) and N[h.name].get("sample")][:8],
               "explanation": "obligations generated from /repo's current sources by symbolic execution of the real functions under the contracts listed in `harnesses`; native runs are bounded stand-ins / counterexample replay."}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": ["double arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN inputs excluded) in the deductive part; the native replay and stand-in use IEEE arithmetic",
                              "contract preconditions (vp_assume / input ranges in contracts/*.cpp)", "sequential execution inside one contract unit (OpenMP pragmas are not lowered)",
                              "heap allocation succeeds; exceptions unwind to the nearest handler without running clean-ups in the deductive part"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w"), indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--strict", action="store_true")
    a = ap.parse_args()
    if a.prop == "setup":
        build_engine(); return 0
    c = Checker(a.prop, a.tier, a.only, a.keep)
    c.undecided = []
    rc = c.go()
    if a.strict and c.undecided: return 3
    return rc


if __name__ == "__main__":
    sys.exit(main())
