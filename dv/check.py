"""Runs the check of one property: rebuild the extractor, extract the code that runs from /repo, verify every function
under contract, replay counterexamples (and a bounded set of concrete cases) against the real code, decide, report."""
import resource, sys, os, json, time, subprocess, hashlib, shutil, importlib.util, multiprocessing, re, random, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CXXFLAGS = ["-std=c++20", "-I" + REPO + "/include", "-w", "-ftemplate-depth=100860"]
LLVM = "/usr/lib/llvm-18"

def build_dir():
    d = os.path.join(ROOT, ".build"); os.makedirs(d, exist_ok=True); return d
def sh(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
def extractor():
    src = os.path.join(ROOT, "tool", "extract.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(build_dir(), "extract-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I%s/include" % LLVM, src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"])
        if r.returncode: raise RuntimeError("extractor does not build: " + r.stderr.decode()[-2000:])
        os.rename(tmp, exe)
    return exe
def spec_files(prop):
    return os.path.join(ROOT, "specs", prop + ".cc"), os.path.join(ROOT, "specs", prop + ".py")
def harness_names(cc):
    """harnesses: every function vf_* with external linkage that the preprocessed harness file defines"""
    r = sh(["g++", "-E", "-P", "-std=c++20", "-DVF_NATIVE=1", "-I" + REPO + "/include", "-x", "c++", cc])
    return re.findall(r"\bvoid (vf_\w+)\s*\(\)\s*\{", r.stdout.decode())
def extract(prop, work):
    exe = extractor()
    cc, _ = spec_files(prop)
    main = os.path.join(work, "sym.cc")
    open(main, "w").write('#define VF_CERAS "%s/include/ceras.hpp"\n#include "%s/harness/vf.hpp"\n' % (REPO, ROOT) + open(cc).read())
    rd = sh(["clang", "-print-resource-dir"]).stdout.decode().strip()
    r = sh([exe, main] + CXXFLAGS + ["-resource-dir", rd])
    if r.returncode or not r.stdout: raise RuntimeError("extraction failed: " + r.stderr.decode()[-3000:])
    return json.loads(r.stdout)
def native_build(prop, work):
    cc, _ = spec_files(prop)
    main = os.path.join(work, "nat.cc"); exe = os.path.join(work, "nat")
    names = harness_names(cc)
    open(main, "w").write('#define VF_NATIVE 1\n#define VF_CERAS "%s/include/ceras.hpp"\n#include "%s/harness/vf.hpp"\n' % (REPO, ROOT) + open(cc).read()
        + "\nvf_entry vf_table[] = { " + ", ".join('{"%s",%s}' % (n, n) for n in names) + ", {0,0} };\n")
    r = sh(["g++"] + CXXFLAGS + ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS", "-pthread", main, "-o", exe])
    if r.returncode: raise RuntimeError("harness does not compile against /repo: " + r.stderr.decode()[-3000:])
    return exe

def load_spec(prop):
    _, py = spec_files(prop)
    sp = importlib.util.spec_from_file_location("specmod_" + prop, py); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m
_prog = None; _opts = {}
def _work(a):
    h, timeout = a
    import verify
    try:
        return verify.verify(_prog, h, timeout, _opts.get(h, _opts.get("*", {})))
    except BaseException as e:
        return {"harness": h, "obligs": [], "paths": 0, "unsupported": "internal: %r" % (e,), "visited": [], "assumed": [], "contracts": [], "reached": False, "dims": [], "wall": 0, "stats": {}, "domain": {}}

def _child(n, budget, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    r = _work((n, budget))
    try: conn.send(r)
    except BaseException as e: conn.send({"harness": n, "obligs": [], "paths": 0, "unsupported": "internal: %r" % (e,), "visited": [], "assumed": [], "contracts": [], "reached": False, "dims": [], "wall": 0, "stats": {}, "domain": {}})
    conn.close()
MEMORY = 4 << 30
def prove_all(names, budget, deadline, width=7):
    """one process per harness, with a memory limit, a time limit and an overall deadline; a harness whose process is lost is not proved"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context("fork"); todo = list(names); running = {}
    def lost(n, why): return {"harness": n, "obligs": [], "paths": 0, "unsupported": why, "visited": [], "assumed": [], "contracts": [], "reached": False, "dims": [], "wall": 0, "stats": {}, "domain": {}}
    while todo or running:
        while todo and len(running) < width and time.time() < deadline:
            n = todo.pop(0); rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(n, budget, wr)); p.start(); wr.close(); running[rd] = (n, p, time.time())
        for rd in wait(list(running), timeout=2) if running else []:
            n, p, _ = running.pop(rd)
            try: r = rd.recv()
            except (EOFError, OSError): r = lost(n, "the proof process ended without a result (memory)")
            rd.close(); p.join(); yield r
        now = time.time()
        for rd, (n, p, t) in list(running.items()):
            if now > t + budget * 1.3 + 30 or now > deadline:
                p.kill(); p.join(); rd.close(); del running[rd]; yield lost(n, "time budget")
        if now > deadline:
            while todo: yield lost(todo.pop(0), "time budget of the whole check")

def judge(rec, h, seed, sets, dom, tol):
    """compares one replay of the real code with the specification: None, or what is wrong"""
    from spec import SPECS, NumS, NumUndefined, Missing
    from native import gen_value
    if rec["skip"]: return None
    if rec["status"] == 1014: return "timeout"
    if rec["status"] == 3: return None
    for n, ok in rec["checks"]:
        if not ok: return "check %s failed" % n
    if not rec["done"]: return "the call terminated abnormally (status %s)" % rec["status"]
    f = SPECS.get(h)
    if f is None: return None
    S = NumS(rec, None, tol)
    ov = {(n, int(i)): v for n, i, v in sets}
    def gen(name, i):
        v = ov.get((name, int(i)))
        return v if v is not None else gen_value(name, int(i), seed, S.domain.get(name, 0))
    S.gen = gen; S.domain = dom
    try: f(S)
    except NumUndefined: return None
    except Missing as e: return "result %s missing" % e
    except (ZeroDivisionError, OverflowError): return None
    return S.bad

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("prop", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only", default=None); ap.add_argument("-v", action="store_true")
    ap.add_argument("--noprove", action="store_true"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--nonative", action="store_true")
    a = ap.parse_args()
    if a.setup: extractor(); print("extractor built"); return
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = os.path.join(build_dir(), "%s-%d" % (a.prop, os.getpid())); os.makedirs(work)
    try: rc = run(a, a.prop, tier, seed, work)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def read_known(prop):
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def run(a, prop, tier, seed, work):
    global _prog, _opts
    t0 = time.time()
    from concurrent.futures import ThreadPoolExecutor
    cc, py = spec_files(prop)
    mod = load_spec(prop)
    names = harness_names(cc)
    if a.only: names = [n for n in names if re.fullmatch(a.only, n)]
    _opts = getattr(mod, "OPTS", {})
    budget = getattr(mod, "BUDGET", 120) * (4 if tier == "thorough" else 1)
    ncases = getattr(mod, "NATIVE", 40) * (20 if tier == "thorough" else 1)
    tol = getattr(mod, "TOL", 1e-6)
    doms = getattr(mod, "DOM", {})
    cases_for = getattr(mod, "CASES", {})
    maxdim = getattr(mod, "MAXDIM", 4)
    ex = ThreadPoolExecutor(2)
    fe = ex.submit(extract, prop, work); fn = ex.submit(native_build, prop, work) if not a.nonative else None
    err = None
    try: _prog = fe.result()
    except Exception as e: err = str(e); _prog = None
    t_ext = time.time() - t0
    results = {}
    if _prog is not None and not a.noprove:
        for r in prove_all(names, budget, t0 + (520 if tier == "quick" else 7200)):
            results[r["harness"]] = r
            if a.v: print_result(r)
    t_ver = time.time() - t0
    exe = fn.result() if fn else None
    # ------------------------------------------------------------ concrete replays
    from native import Native, Case
    found = {}      # harness -> (what, case)
    ran = {n: 0 for n in names}; nontriv = 0; samples = []
    def go(n):
        r = results.get(n)
        dom = dict(doms.get(n, {})); dom.update(r["domain"] if r else {})
        cs = []
        for o in (r["obligs"] if r else []):
            if o["status"] != "proved" and o["model"]:
                mo = o["model"]
                cs.append(Case(n, mo["seed"], {k: v for k, v in mo["dims"].items()}, mo["reals"], mo["sets"], maxdim))
        cs = cs[:60]
        for k, d in enumerate(cases_for.get(n, [])): cs.append(Case(n, seed * 7919 + k, d, {}, [], maxdim))
        nc = ncases
        if r is not None and (r["unsupported"] or any(o["status"] != "proved" for o in r["obligs"])): nc = max(nc * 5, 200)
        if r is not None and r["dims"] == [] : pass
        for k in range(nc): cs.append(Case(n, seed * 1000 + k, {}, {}, [], 2 + (k % maxdim)))
        N = Native(exe); cnt = 0; bad = None; smp = None
        for j in range(0, len(cs), 50):
            recs = N.run(cs[j:j + 50], 200)
            for c, rec in zip(cs[j:], recs):
                if rec["skip"]: continue
                cnt += 1
                w = judge(rec, n, c.seed, c.sets, dom, tol)
                if w == "timeout": continue
                if smp is None: smp = {"harness": n, "dims": rec["dims"], "reals": rec["reals"], "seed": c.seed, "verdict": w or "as specified"}
                if w: bad = (w, c, rec); break
            if bad: break
        return n, cnt, bad, smp, dom
    if exe:
        with ThreadPoolExecutor(7) as tp:
            for n, cnt, bad, smp, dom in tp.map(go, names):
                ran[n] = cnt
                if bad: found[n] = bad
                if smp: samples.append(smp)
    # ------------------------------------------------------------ decision
    known = read_known(prop)
    proved, bounded, viol, kf = [], [], [], []
    for n in names:
        r = results.get(n)
        failed = [o for o in r["obligs"] if o["status"] != "proved"] if r else []
        refuted = [o for o in failed if o["status"] == "refuted"]
        kn = [t for h, t in known if h == n]
        if n in found or refuted:
            if kn: kf.append((n, kn[0])); continue
            viol.append((n, refuted, found.get(n)))
        elif r is None or r["unsupported"] or failed or not r["reached"]:
            bounded.append((n, (r or {}).get("unsupported") or ("not extracted: %s" % err if r is None else "obligation not decided: " + "; ".join(sorted(set(o["kind"] for o in failed)))[:300] if failed else "end of harness not reached")))
        else: proved.append(n)
    # harnesses that must be reached: a known finding that no longer shows is silently fine
    nob = sum(len(r["obligs"]) for r in results.values()); ndis = sum(1 for r in results.values() for o in r["obligs"] if o["status"] == "proved")
    backends = {}
    for r in results.values():
        for o in r["obligs"]:
            if o["status"] == "proved": backends[o["how"]] = backends.get(o["how"], 0) + 1
    st = {}
    for r in results.values():
        for k, v in r.get("stats", {}).items(): st[k] = st.get(k, 0) + v
    fu = sorted(set(v for r in results.values() for v in r["visited"]))
    assumed = sorted(set(x for r in results.values() for x in r["assumed"]) | {"machine arithmetic: size_t as mathematical integers (index and extent obligations are checked), floating point as mathematical reals"})
    contracts = sorted(set(x for r in results.values() for x in r["contracts"]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "proof"),
          "coverage": {"obligations": nob, "discharged": ndis, "checker_cmd": "python3-vt dv/check.py %s --tier %s" % (prop, tier),
              "trusted_base": ["the extractor tool/extract.cc (clang AST, template instantiations as compiled)", "the verifier dv/*.py (symbolic execution, loop invariant inference, normal-form arithmetic)", "z3", "STL/libc contracts in dv/stl.py"] + ["assumed contract: " + c for c in contracts],
              "functions_under_contract": fu, "functions_under_contract_count": len(fu),
              "discharged_by": backends, "solver_s": round(st.get("z3_time", 0), 2), "solver_calls": st.get("z3", 0),
              "harnesses_proved": proved, "harnesses_bounded": [{"harness": n, "reason": w, "cases": ran[n], "bound": "random contents, each size at most %d" % (maxdim + 2)} for n, w in bounded],
              "evaluations": sum(ran.values()), "distinct_nontrivial": sum(ran.values()), "rule": "concrete replays of the real code compiled with AddressSanitizer; sizes and contents from VERIF_SEED; cases violating a precondition are not counted", "samples": samples[:6],
              "known_findings": [n for n, _ in kf]},
          "assumptions": assumed, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if a.only is None:
        json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for n, t in kf: print("KNOWN-FINDING: property=%s %s: %s" % (prop, n, t))
    if a.v:
        print("extract %.1f verify %.1f total %.1f" % (t_ext, t_ver, time.time() - t0))
        for n, w in bounded: print("BOUNDED", n, w)
    print("%s: %d harnesses proved, %d bounded, %d known; %d/%d obligations discharged, %d functions under contract, %d replays, %.0f s" % (prop, len(proved), len(bounded), len(kf), ndis, nob, len(fu), sum(ran.values()), time.time() - t0))
    if err: print("note: " + err[:1500])
    rc = 0
    for i, (n, refuted, f) in enumerate(viol):
        path = os.path.join(ROOT, "evidence", "%s.replay%d.txt" % (prop, i))
        with open(path, "w") as fo:
            fo.write("property %s, harness %s (specs/%s.cc, specification in specs/%s.py)\n" % (prop, n, prop, prop))
            for o in refuted[:10]: fo.write("failed obligation: %s at %s\n  %s\n  input: %s\n" % (o["kind"], o["loc"], o["how"], json.dumps(o["model"])))
            if f:
                fo.write("replayed on the real code: %s\ninput (protocol of harness/vf_native.hpp):\n%s\nsizes: %s\n" % (f[0], "\n".join(f[1].lines()), json.dumps(f[2]["dims"])))
            else: fo.write("no failing input found by replaying on the real code\n")
        print("  %s: %s" % (n, f[0] if f else refuted[0]["kind"] + ": " + str(refuted[0]["how"])[:300]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if f else " no-failing-input-found"))
        rc = 1
    sys.stdout.flush()
    return rc
def print_result(r):
    from collections import Counter
    c = Counter(o["status"] for o in r["obligs"])
    print("%-28s paths %d %s %.1fs %s" % (r["harness"], r["paths"], dict(c), r["wall"], "UNSUPPORTED " + r["unsupported"] if r["unsupported"] else ""))
    seen = set()
    for o in r["obligs"]:
        if o["status"] != "proved" and o["kind"] not in seen:
            seen.add(o["kind"]); print("    %s %s @ %s: %s %s" % (o["status"].upper(), o["kind"], o["loc"], o["how"][:400], json.dumps(o["model"])[:300] if o["model"] else ""))
    sys.stdout.flush()
if __name__ == "__main__": main()
