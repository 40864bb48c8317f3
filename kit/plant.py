#!/usr/bin/env python3
"""Turns specs of planted bugs (kit/bugs/*.py) into seeded/<id>/, confirming each in a scratch copy of /repo."""
import glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "kit")
S = "/tmp/plant/repo"


def sh(c, cwd=S, t=300):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def vp(script, *a):
    # the project's own build and test commands, on the scratch copy
    env = dict(os.environ)
    return sh("sed 's#/repo#%s#g; s#/opt/vp/build.sh#/tmp/plant/build.sh#' /opt/vp/%s > /tmp/plant/%s && bash /tmp/plant/%s %s" % (S, script, script, script, " ".join(a)))


def main():
    want = sys.argv[1:]
    os.makedirs("/tmp/plant", exist_ok=True)
    if os.path.isdir(S):
        shutil.rmtree(S)
    subprocess.check_call(["cp", "-a", "/repo", S])
    shutil.rmtree(os.path.join(S, "_build"), ignore_errors=True)
    for f in sorted(glob.glob(os.path.join(KIT, "bugs", "*.py"))):
        g = {}
        exec(open(f).read(), g)
        for b in g["BUGS"]:
            if want and b["id"] not in want and not any(b["id"].startswith(w) for w in want):
                continue
            one(b)
    shutil.rmtree("/tmp/plant")


def one(b):
    sh("git checkout -q -- .")
    d = os.path.join(V, "seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for n in ("sim.c", "sim.h", "flows.h"):
        shutil.copy(os.path.join(KIT, n), d)
    shutil.copytree(os.path.join(V, "sdk"), os.path.join(d, "sdk"), ignore=shutil.ignore_patterns("libc"))
    shutil.copy(os.path.join(KIT, "run.sh"), os.path.join(d, "demo.sh"))
    open(os.path.join(d, "demo.c"), "w").write(b["demo"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d)
    for p, old, new in b["edits"]:
        s = open(os.path.join(S, p)).read()
        if s.count(old) != b.get("times", 1):
            print(b["id"], "EDIT does not apply:", p, s.count(old), old[:50])
            shutil.rmtree(d)
            return
        open(os.path.join(S, p), "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git diff").stdout)
    rb = vp("build.sh")
    rt = vp("test.sh", "/tmp/plant/t.json")
    t = json.load(open("/tmp/plant/t.json"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    missing = base - set(t["passed"])
    r1 = sh("bash %s/demo.sh" % d)
    ok = r0.returncode == 0 and rb.returncode == 0 and not missing and r1.returncode != 0 and "error:" not in r1.stdout.split("runtime")[0].replace("ERROR:", "")
    print(b["id"], "ok" if ok else "BAD", "| unchanged:", r0.returncode, r0.stdout[-300:] if r0.returncode else "", "| build", rb.returncode,
          "| tests missing", len(missing), "| patched:", r1.returncode, r1.stdout.strip().split("\n")[0][:150] if r1.stdout else "")
    if rb.returncode:
        print(rb.stdout[-800:])
    sh("git checkout -q -- .")
    if not ok:
        shutil.rmtree(d)


main()
