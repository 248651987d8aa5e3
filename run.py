#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from the current tree of
the library, runs them under their monitors, and turns what they report into a
verdict.   run.py PROP [--replay FILE]     (VERIF_SEED, VERIF_TIER)"""
import sys, os, json, time, subprocess, shutil, re, signal, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.dont_write_bytecode = True
import table

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
ENV = {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
       "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0"}

def includes():
    r = ["-I" + os.path.join(HERE, "harness")]
    for c in ["common", "Radau5-NG", "Rodas-NG", "Rock4-NG", "Rock4-L", "SDIRKL", "SymplecticRK"]:
        r.append("-I%s/%s/include" % (REPO, c))
    r.append("-I%s/SymplecticRK/sage" % REPO)
    r.append("-I%s/SDIRKL/test/Lapl" % REPO)   # GenericException.hpp, which Sdirkl.hpp expects from its user
    return r

def unit_name(u):
    return u["name"]

def compile_unit(u, bdir):
    exe = os.path.join(bdir, u["name"])
    cc = u.get("cc", "g++")
    cmd = [cc, "-std=gnu++17", "-DGCC", "-w", u.get("opt", "-O1"), "-g1"]
    if u.get("san", True):
        cmd += SAN
    cmd += ["-DODES_MONITOR"] if u.get("hook", True) else []
    inc = includes()
    if u.get("rock4l"):   # Rock4-L has its own versions of files Rock4-NG has too
        inc = [i for i in inc if not i.endswith("Rock4-NG/include")]
    else:
        inc = [i for i in inc if not i.endswith("Rock4-L/include")]
    if u.get("src_cmd"):
        pass
    cmd += u.get("flags", []) + inc
    cmd += [os.path.join(HERE, "harness", s) for s in [u["src"]] + u.get("more", [])]
    cmd += ["-o", exe] + u.get("libs", ["-llapack", "-lblas"])
    cmd += ["-lpthread"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return exe, p.returncode, p.stdout, cmd

def read(p, n=200000):
    try:
        with open(p, errors="replace") as f:
            return f.read(n)
    except OSError:
        return ""

def run_unit(u, exe, odir, seed, tier, extra=(), tag=""):
    base = os.path.join(odir, u["name"] + tag)
    out, cf, err = base + ".jsonl", base + ".case", base + ".err"
    for p in (out, cf, err):
        if os.path.exists(p): os.unlink(p)
    args = u.get("wrap", []) + [exe, "--seed", str(seed + u.get("seedx", 0)), "--tier", tier, "--out", out, "--casefile", cf]
    sc = u.get("scale", {}).get(tier)
    if sc: args += ["--scale", str(sc)]
    args += list(u.get("args", [])) + list(extra)
    env = dict(os.environ); env.update(ENV); env.update(u.get("env", {}))
    env["OMP_DYNAMIC"] = "false"; env["OPENBLAS_NUM_THREADS"] = "1"; env["OMP_WAIT_POLICY"] = "passive"
    if "omp" not in u: env["OMP_NUM_THREADS"] = "1"
    for k in u.get("unset", []): env.pop(k, None)
    to = u.get("timeout", {}).get(tier, 300 if tier == "quick" else 800)
    t0 = time.time(); hung = False
    with open(err, "w") as ef:
        p = subprocess.Popen(args, stdout=ef, stderr=ef, env=env, cwd=odir, start_new_session=True)
        try:
            rc = p.wait(timeout=to)
        except subprocess.TimeoutExpired:
            hung = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            rc = p.wait()
    ev = []
    for l in read(out, 50000000).splitlines():
        try: ev.append(json.loads(l))
        except ValueError: pass
    return dict(rc=rc, hung=hung, ev=ev, err=read(err), case=read(cf).strip(), wall=time.time() - t0, args=args)

def san_key(txt):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", txt)
    if m: return "asan-" + m.group(1)
    m = re.search(r"runtime error: ([^\n]{0,80})", txt)
    if m: return "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "", m.group(1).lower())).strip("-")[:60]
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", txt)
    if m: return "tsan-" + m.group(1).strip().replace(" ", "-")
    if "==ERROR" in txt or "ERROR SUMMARY" in txt: return "memcheck"
    return None

def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    chk = table.CHECKS[prop]
    units = [u for u in chk["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    rp = None
    if replay:
        rp = json.load(open(replay)); seed = rp["seed"]; tier = rp["tier"]
        units = [u for u in chk["units"] if u["name"] == rp["unit"]]
    bdir = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
    odir = os.path.join(bdir, "out")
    rdir = os.path.join(HERE, "out", prop)
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(odir)
    if not replay: shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 2
    try:
        rc = check(prop, chk, units, tier, seed, bdir, odir, rdir, rp, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)

def check(prop, chk, units, tier, seed, bdir, odir, rdir, rp, t0):
    viols, errors, samples, notes = [], [], [], []
    evals = 0; distinct = 0; counts = {}; maxi = {}
    order = sorted(units, key=lambda u: -u.get("weight", 1))
    exes = {}
    work = []
    def one(u):
        key = json.dumps([u["src"], u.get("flags"), u.get("opt"), u.get("san", True), u.get("cc")])
        exe, c, txt, cmd = compile_unit(u, bdir)
        if c != 0:
            exe, c, txt, cmd = compile_unit(u, bdir)
        if c != 0: return u, None, ("compile", txt, cmd)
        extra = []
        if rp and rp.get("case") is not None and rp.get("case") >= 0: extra = ["--group", rp["group"], "--case", str(rp["case"])]
        elif rp and rp.get("group"): extra = ["--group", rp["group"]]
        r = run_unit(u, exe, odir, seed, tier, extra)
        if r["hung"]:
            r2 = run_unit(u, exe, odir, seed, tier, extra, ".again")
            r2["first_case"] = r["case"]; r = r2
        try: os.unlink(exe)
        except OSError: pass
        return u, r, None
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, order))
    for u, r, cerr in res:
        if cerr:
            if u.get("compile_is_property"):
                viols.append(dict(key=u["compile_is_property"], unit=u["name"], group="", case=-1, desc="compilation", msg=cerr[1][-1500:]))
            else:
                errors.append("%s: does not compile: %s" % (u["name"], cerr[1][-3000:]))
            continue
        end = [e for e in r["ev"] if e.get("t") == "end"]
        for e in r["ev"]:
            if e.get("t") == "viol":
                viols.append(dict(key=e["key"], unit=u["name"], group=e["group"], case=e["case"], desc=e["desc"], msg=e["msg"]))
            elif e.get("t") == "sample" and len(samples) < 12:
                samples.append("%s: %s" % (u["name"], e["s"]))
        m = re.match(r"(.*) #(-?\d+) ?(.*)", r["case"], re.S)
        g, c, d = (m.group(1), int(m.group(2)), m.group(3)) if m else ("", -1, r["case"])
        sk = san_key(r["err"])
        if r["hung"]:
            if r.get("first_case") == r["case"]:
                viols.append(dict(key="hang", unit=u["name"], group=g, case=c, desc=d, msg="does not end (twice at the same case)"))
            else:
                errors.append("%s: timed out twice, at different cases: %s" % (u["name"], r["case"][:200]))
        elif not end or r["rc"] != 0:
            if not end or sk or r["rc"] < 0:
                if r["rc"] == -9 and not sk:
                    errors.append("%s: killed (memory?)" % u["name"])
                else:
                    key = sk or ("killed-by-signal-%d" % -r["rc"] if r["rc"] < 0 else "abnormal-exit-%d" % r["rc"])
                    viols.append(dict(key=key, unit=u["name"], group=g, case=c, desc=d, msg=r["err"][:2500]))
            else:
                errors.append("%s: exit code %d: %s" % (u["name"], r["rc"], r["err"][-500:]))
        elif sk:
            viols.append(dict(key=sk, unit=u["name"], group=g, case=c, desc=d, msg=r["err"][:2500]))
        for e in end:
            evals += e["evals"]; distinct += e["distinct"]
            for k, v in e["counts"].items(): counts[k] = counts.get(k, 0) + v
            for k, v in e["max"].items():
                try: v = float(v)
                except ValueError: continue
                if k not in maxi or not (v <= maxi[k]): maxi[k] = v
            if not rp:
                for need in u.get("need", []):
                    if e["counts"].get(need, 0) < 1: errors.append("%s: observed no '%s'" % (u["name"], need))
    if not rp:
        for need in chk.get("need", []):
            if counts.get(need, 0) < 1: errors.append("no harness observed '%s'" % need)
    # ---- known findings
    known = []
    kf = os.path.join(HERE, "known_findings.txt")
    for l in read(kf).splitlines():
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    real, hit = [], {}
    for v in viols:
        k = [x for x in known if x[0] == v["key"] or x[0] == v["key"] + "@" + v["group"]]
        if k: hit[k[0]] = v
        else: real.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1] + (" (observed)" if k in hit else "")))
    # ---- evidence
    if not rp:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": chk["rule"], "samples": samples,
                           "observed": counts, "extremes": maxi, "harnesses": [u["name"] for u in units]},
              "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if real:
        seen = {}
        for v in real:
            if v["key"] in seen: continue
            h = hashlib.sha1((v["key"] + v["unit"]).encode()).hexdigest()[:8]
            path = os.path.join(rdir, "%s-%s.json" % (re.sub(r"[^\w-]", "_", v["key"])[:60], h))
            if not rp:
                with open(path, "w") as f: json.dump(dict(v, seed=seed, tier=tier, property=prop), f, indent=1)
            seen[v["key"]] = path
            print("  %s [%s %s #%s] %s :: %s" % (v["key"], v["unit"], v["group"], v["case"], v["desc"][:300], v["msg"][:700]))
        for k, p in seen.items():
            print("VIOLATION property=%s replay=%s" % (prop, p))
            break
        return 1
    if errors:
        for e in errors: print("ERROR " + e)
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %s" % (prop, tier, seed, evals, distinct, time.time() - t0,
          " ".join("%s=%d" % kv for kv in sorted(counts.items())[:8])))
    return 0
if __name__ == "__main__":
    main()
