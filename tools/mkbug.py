#!/usr/bin/env python3
"""Development aid: from a description of a planted bug (old/new text, demonstration), writes seeded/<id>/ after
confirming in a scratch copy of /repo that it applies, builds, passes the stable tests, and that its demonstration
tells the two trees apart; then reports what the checks named say.   mkbug.py FILE.py [ids...]"""
import sys, os, json, shutil, subprocess, re, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles and runs demo.cpp against the tree in the current directory
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
g++ -std=gnu++17 -DGCC -w %s -Icommon/include -IRadau5-NG/include -IRodas-NG/include %s -ISDIRKL/include -ISDIRKL/test/Lapl -ISymplecticRK/include -ISymplecticRK/sage "$d/demo.cpp" -o "$t/demo" -llapack -lblas -lpthread
rc=$?
if [ $rc = 0 ]; then (cd "$t" && timeout 120 ./demo); rc=$?; fi
rm -f "$t/demo"; rmdir "$t"
exit $rc
'''
def sh(cmd, cwd=None, env=None, to=1000):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=to)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def tests(repo, W):
    s = open("/opt/vp/odes_examples.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % repo)
    p = W + "/ex.py"; open(p, "w").write(s)
    shutil.rmtree(repo + "/_build", ignore_errors=True)
    sh("python3 %s build; python3 %s test %s/lines" % (p, p, W))
    res = dict(reversed(l.split(None, 1)) for l in open(W + "/lines").read().splitlines() if l.strip())
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if res.get(t) != "PASS"], res
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for b in g["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        W = "/tmp/bug/%s" % b["id"]; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        repo = W + "/repo"
        sh("cp -a /repo %s && git -C %s checkout -q -- . && git -C %s clean -fdxq" % (repo, repo, repo))
        ok = True
        D = W + "/seed"; os.makedirs(D)
        open(D + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        for k, v in b.get("files", {}).items(): open(D + "/" + k, "w").write(v)
        if b.get("sh"): open(D + "/demo.sh", "w").write(b["sh"].lstrip("\n"))
        else: open(D + "/demo.sh", "w").write(DEMO % (b.get("flags", "-O1"), "-IRock4-L/include" if b.get("rock4l") else "-IRock4-NG/include"))
        os.chmod(D + "/demo.sh", 0o755)
        r0, o0 = sh("bash %s/demo.sh" % D, cwd=repo)
        for f, old, new in b["edits"]:
            s = open(repo + "/" + f, newline="").read()
            crlf = "\r\n" in s
            if crlf: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
            n = s.count(old)
            if n != b.get("times", 1): print(b["id"], "EDIT matches", n, "times:", repr(old[:60])); ok = False
            open(repo + "/" + f, "w", newline="").write(s.replace(old, new))
        if not ok: continue
        r1, o1 = sh("bash %s/demo.sh" % D, cwd=repo)
        rc, diff = sh("git -C %s diff --binary" % repo)
        p = subprocess.run("git -C %s diff > %s/patch.diff" % (repo, D), shell=True)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(D + "/meta.json", "w"), indent=1)
        # removed lines must come from the original repository
        base = sh("git -C /repo rev-list --max-parents=0 HEAD")[1].split()[0]
        own = []
        for m in re.findall(r"^-(?!--)(.*)$", diff, re.M):
            if m.strip() and not any(m.strip() in sh("git -C /repo show %s:%s" % (base, f))[1] for f, _, _ in b["edits"]): own.append(m.strip())
        print("== %s [%s] demo clean %d patched %d%s" % (b["id"], b["property"], r0, r1, " LINES NOT ORIGINAL: %r" % own if own else ""))
        if r0 != 0 or r1 == 0 or r1 == 124 and not b.get("hang"): print("  DEMO BAD\n  clean:", o0[-600:], "\n  patched:", o1[-600:]); continue
        miss, res = tests(repo, W)
        if miss: print("  TESTS FAIL:", miss[:5], len(res)); continue
        shutil.rmtree(repo + "/_build", ignore_errors=True)
        T = HERE + "/seeded/" + b["id"]; shutil.rmtree(T, ignore_errors=True); shutil.copytree(D, T)
        for prop in [b["property"]] + b.get("also", []):
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
            rc, o = sh("python3 %s/run.py %s" % (g.get("VERIF", HERE), prop), env=env)
            v = [l for l in o.splitlines() if "VIOLATION" in l or l.startswith("  ")][:2]
            print("  check %s -> %d %s" % (prop, rc, " ".join(v)[:230] if rc else "MISSED"))
        shutil.rmtree(W, ignore_errors=True); sys.stdout.flush()
main()
