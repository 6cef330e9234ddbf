import os, sys, json, time, subprocess, tempfile, shutil, fnmatch, re
from concurrent.futures import ThreadPoolExecutor
import checks

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AWL_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
CXX = "/usr/lib/llvm-18/bin/clang++"
ENGINE = os.path.join(ROOT, "build", "awlai")
DEFAULT_OPAQUE = ["awl::LogString::", "awl::From", "awl::ToAString", "awl::Type2String"] + [c + "::What" for c in ("awl::Exception", "awl::GeneralException", "awl::io::PosixException", "awl::io::IoError", "awl::io::EndOfFileException", "awl::io::CorruptionException", "awl::io::FieldNotFoundException", "awl::io::TypeMismatchException")]

class Broken(Exception):
    pass

TIER = "quick"
def shorten(f):
    return f if len(f) <= 160 else f[:120] + " ... " + f[-30:]

def sh(cmd, timeout=800):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    return r.returncode, r.stdout, r.stderr

def ensure_engine():
    src = [os.path.join(ROOT, "engine", f) for f in ("awlai.cpp", "interp.inc", "expr.cpp", "expr.h")]
    if os.path.exists(ENGINE) and all(os.path.getmtime(ENGINE) >= os.path.getmtime(s) for s in src):
        return
    r = subprocess.run(["make", "-s", "-C", ROOT, "-B", "build/awlai"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("engine does not build:\n" + r.stdout)

def flags(unit):
    std = unit.get("std", "gnu++20")
    f = ["-std=" + std, "-DAWL_INT_128", "-I" + os.path.join(ROOT, "harness"), "-I" + REPO, "-I" + REPO + "/Platforms/Posix"]
    for i in unit.get("include", []):
        f.append("-I" + REPO + "/" + i)
    for h in ("cstddef", "cstdint", "array", "memory", "utility", "algorithm", "functional"):  # a header that uses more of the library than it includes compiles as in the program
        f += ["-include", h]
    f += unit.get("flags", [])
    if TIER == "thorough":
        f.append("-DVF_DEEP")
    return f

def compile_unit(unit, tmp, jobs):
    """harness + repo sources -> one optimised bitcode file"""
    name = unit["harness"]
    stem = name.replace("/", "_").replace(".cpp", "") + "_" + str(abs(hash(json.dumps(unit, sort_keys=True))) % 10**8)
    srcs = [os.path.join(ROOT, "harness", name)] + [os.path.join(REPO, d) for d in unit.get("deps", [])]
    for s in srcs:
        if not os.path.exists(s):
            raise Broken("source vanished: " + s)
    outs = []
    def one(i_s):
        i, s = i_s
        o = os.path.join(tmp, "%s_%d.bc" % (stem, i))
        cmd = [CXX] + flags(unit) + ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-gline-tables-only", "-w", "-emit-llvm", "-c", s, "-o", o]
        if not unit.get("extern_templates"):
            cmd.insert(1, "-D_GLIBCXX_EXTERN_TEMPLATE=0")
        rc, so, se = sh(cmd)
        if rc:
            raise Broken("%s does not compile:\n%s" % (s, se[:4000]))
        return o
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(one, enumerate(srcs)))
    linked = os.path.join(tmp, stem + ".l.bc"); opt = os.path.join(tmp, stem + ".o.bc")
    rc, so, se = sh([LLVM + "llvm-link"] + outs + ["-o", linked])
    if rc:
        raise Broken("link: " + se[:2000])
    passes = unit.get("passes", "coro-early,cgscc(coro-split),coro-cleanup,function(sroa)")
    rc, so, se = sh([LLVM + "opt", "-passes=" + passes, linked, "-o", opt])
    if rc:
        raise Broken("opt: " + se[:2000])
    return opt

def run_entry(unit, bc, entry, tmp, tier):
    out = bc + "." + entry + ".json"
    cmd = [ENGINE, bc, "--entry", entry, "--out", out, "--repo", REPO]
    for o in DEFAULT_OPAQUE + unit.get("opaque", []):
        cmd += ["--opaque", o]
    for o in unit.get("transparent", ["std::__cxx11::basic_string<"]):
        cmd += ["--transparent", o]
    if not unit.get("leak"):
        cmd.append("--no-leak")
    if unit.get("ctors"):
        cmd.append("--ctors")
    unroll = unit.get("unroll", 2) + (1 if tier == "thorough" else 0)
    cmd += ["--unroll", str(unroll)]
    cmd += unit.get("engine", [])
    try:
        rc, so, se = sh(cmd, 700 if tier == "thorough" else 300)
    except subprocess.TimeoutExpired:
        return "analysis of %s did not end in time" % entry
    if rc or not os.path.exists(out):
        return "analyser failed on %s: rc %d %s" % (entry, rc, se[:2000])
    return json.load(open(out))

def entries_of(unit, bc):
    rc, so, se = sh([LLVM + "llvm-nm", "--defined-only", bc])
    es = sorted(set(re.findall(r"\bT (vfh_\w+)", so)))
    sel = unit.get("entries")
    if sel:
        es = [e for e in es if any(fnmatch.fnmatch(e, p) for p in sel)]
    return es

def match(rule, pats):
    return any(fnmatch.fnmatch(rule, p) for p in pats)

def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]

WITNESSES = []
def static_unit(unit, tmp):
    """type-level witnesses: every static assertion of the file must hold"""
    s = os.path.join(ROOT, "harness", unit["static"])
    cmd = [CXX] + flags(unit) + ["-fsyntax-only", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", s]
    rc, so, se = sh(cmd)
    wit = re.findall(r"^\s*static_assert\s*\((.*)\);", open(s).read(), re.M); n = len(wit); WITNESSES.extend(wit)
    bad, other = [], []
    lines = se.splitlines()
    for i, l in enumerate(lines):
        if ": error:" in l or "fatal error:" in l:
            ub = None  # an evaluation that has no defined result is a violation, one the compiler cannot do is not
            if "not an integral constant expression" in l:
                for m in lines[i + 1:]:
                    if ": error:" in m: break
                    if re.search(r"note: (read of dereferenced one-past-the-end|cannot refer to element|shift count|negative shift|left shift of negative|value .* is outside the range|read of uninitialized|dereferenc.*null|division by zero|read of object outside its lifetime|call to .* that is not valid|memory allocated|delete of)", m):
                        ub = m; break
            (bad if "static assertion failed" in l or ub else other).append(l + (" [" + ub + "]" if ub else ""))
    return n, bad, other

def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cfg = checks.CHECKS.get(pid)
    if not cfg:
        print("unknown property " + pid); return 2
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=os.path.join(ROOT, "build"))
    try:
        global TIER
        TIER = tier
        os.environ["AWLAI_SECONDS"] = "600" if tier == "thorough" else "200"
        return run(pid, cfg, tier, seed, tmp, t0)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); return 2
    except subprocess.TimeoutExpired as e:
        print("ANALYSIS-BROKEN property=%s: timeout %s" % (pid, e)); return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(pid, cfg, tier, seed, tmp, t0):
    ensure_engine()
    viol, functions, obl, covers, stats = [], set(), {}, set(), {}
    unmod, havoc, cuts, entries, units, broken = set(), set(), set(), [], [], []
    nstatic = 0
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        def job(unit):
            bc = compile_unit(unit, tmp, 4)
            return unit, bc
        comp = list(ex.map(job, [u for u in cfg["units"] if "harness" in u]))
        for unit, bc in comp:
            es = entries_of(unit, bc)
            if not es:
                raise Broken("no entries in " + unit["harness"])
            units.append(unit["harness"])
            for e in es:
                jobs.append((unit, bc, e))
        res = list(ex.map(lambda j: (j, run_entry(j[0], j[1], j[2], tmp, tier)), jobs))
    for (unit, bc, e), r in res:
        if isinstance(r, str):
            broken.append(r); continue
        if r["budget_exceeded"]:
            broken.append("analysis budget exceeded in " + e)
        if e.startswith("vfh_ctl_"):          # deliberately broken miniature: the rule must fire
            want = [p for p in cfg["rules"] if p not in ("hang", "uncaught", "assert")]
            if not any(match(f["rule"], want) for f in r["findings"]):
                broken.append("control %s of %s raised nothing" % (e, unit["harness"]))
            entries.append(e + " (control, fired)")
            continue
        entries.append(e)
        for f in r["findings"]:
            if os.environ.get("VF_SCAN") and f["rule"] in ("hang", "uncaught", "assert"): print("SCAN", pid, e, f["rule"], f["msg"], f["function"][:100], f["file"], f["line"])
            if match(f["rule"], cfg["rules"]) and not match(f["rule"], cfg.get("except", [])):
                f["entry"] = e; viol.append(f)
        functions.update(r["functions"]); covers.update(r["covers"])
        unmod.update(r["unmodelled"]); havoc.update(r["havocked"]); cuts.update(r["recursion_cuts"])
        for k, v in r["obligations"].items():
            if match(k, cfg["rules"]):
                o = obl.setdefault(k, {"sites": 0, "evaluations": 0}); o["sites"] += v["sites"]; o["evaluations"] += v["evaluations"]
        for k in ("steps", "states", "merges", "widenings", "paths", "unknown_stores", "unknown_loads", "uncaught_paths"):
            stats[k] = stats.get(k, 0) + r[k]
    for unit in cfg["units"]:
        if "static" in unit:
            n, bad, other = static_unit(unit, tmp); nstatic += n; units.append(unit["static"]); entries.append(unit["static"])
            if n < unit.get("min", 1):
                broken.append("only %d static witnesses in %s" % (n, unit["static"]))
            for l in bad:
                m = re.search(r"(\S+):(\d+):\d+: error: static assertion (?:failed.*?: ?|expression is not an integral )(.*)", l)
                viol.append({"rule": pid + ".type", "msg": (m.group(3) if m else l), "function": "", "file": m.group(1) if m else "", "line": int(m.group(2)) if m else 0, "stack": [l], "path": [], "entry": unit["static"]})
            if other and not bad:
                broken.append("%s: %s" % (unit["static"], "; ".join(other)[:2000]))
    custom = cfg.get("custom")
    extra = {}
    if custom:
        cv, cb, extra = custom(REPO, ROOT, tmp, tier, functions)
        viol += cv; broken += cb
    for c in cfg.get("covers", []):
        if c not in covers:
            broken.append("model point '%s' is unreachable" % c)
    for k in cfg.get("require", []):
        if not any(fnmatch.fnmatch(o, k) for o in obl):
            broken.append("rule %s matched no site" % k)
    nfun = len(functions)
    if nfun < cfg.get("min_functions", 1) and not cfg.get("no_engine"):
        broken.append("only %d library functions analysed (floor %d)" % (nfun, cfg.get("min_functions", 1)))
    # known findings
    ks = known(pid); new = []; hit = set()
    for f in viol:
        k = next((k for k in ks if fnmatch.fnmatch(f["rule"], k["rule"]) and (not k.get("function") or k["function"] in f["function"]) and (not k.get("msg") or k["msg"] in f["msg"]) and (not k.get("entry") or k["entry"] == f["entry"])), None)
        if k:
            hit.add(k["what"])
        else:
            new.append(f)
    for h in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, h))
    # one report per rule+site
    seen, uniq = set(), []
    for f in new:
        key = (f["rule"], f["msg"], f["function"], f["line"], "" if f["function"] else f["entry"])
        if key not in seen:
            seen.add(key); uniq.append(f)
    print("%s: %d library functions, %d entries, %d rules, %d rule sites, %d static witnesses, %d abstract states, %d paths" % (pid, nfun, len(entries), len(obl), sum(o["sites"] for o in obl.values()), nstatic, stats.get("states", 0), stats.get("paths", 0)))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": {"explanation": cfg["explain"], "units": sorted(set(units)), "entries": entries, "functions_analysed": nfun, "functions": sorted(set(shorten(f) for f in functions))[:1200],
                       "rules": obl, "rule_sites": sum(o["sites"] for o in obl.values()), "static_witnesses": nstatic, "witnesses": WITNESSES, "analysis": stats,
                       "opaque_functions": sorted(havoc)[:80], "external_functions": sorted(unmod)[:80], "recursion_cuts": sorted(cuts), "model_points_reached": sorted(covers), "samples": ([shorten(f) for f in sorted(functions)] or WITNESSES)[:5], **extra},
          "assumptions": cfg.get("assume", []) + ["memory allocation does not fail unless modelled", "distinct unknown objects do not alias unless the model says so", "debug assertions hold (their violation ends the path) unless the unit is analysed with NDEBUG"],
          "wall_s": round(time.time() - t0, 2), "violations": len(uniq)}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for f in uniq[:12]:
        print("  %s: %s" % (f["rule"], f["msg"]))
        print("    in %s (%s:%s), entry %s" % (f["function"] or "?", f["file"], f["line"], f["entry"]))
        for s in f["stack"][:14]:
            print("      at " + s)
        for s in f["path"][-14:]:
            print("      path: " + s)
    if uniq:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.json")
        json.dump(uniq, open(rp, "w"), indent=1)
        for b in broken:
            print("  note: " + b)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN property=%s: %s" % (pid, b))
        return 2
    return 0
