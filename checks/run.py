#!/usr/bin/env python3
"""Decides one property: builds the analysis engine, lowers /repo's current source to IR together with the device
model and the property's monitor or harness, runs the abstract interpreter, and reports what it found."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))
import table  # noqa: E402

CFLAGS = ("--target=thumbv6m-none-eabi -ffreestanding -funsigned-char -fshort-enums -std=gnu11 -O0 -g "
          "-Xclang -disable-O0-optnone -Wno-everything -include stub_common.h -emit-llvm -c").split()


class NoAnswer(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_engine(tmp):
    r = run(["make", "-C", os.path.join(VERIF, "engine"), "-j8", "-s", "OUT=" + os.path.join(tmp, "va")])
    if r.returncode:
        raise NoAnswer("the engine does not build:\n" + r.stderr[-2000:])
    return os.path.join(tmp, "va", "va")


class Lowering:
    """C files to bitcode, each once per set of flags."""

    def __init__(self, tmp):
        self.tmp, self.n, self.done = tmp, 0, {}

    def includes(self):
        return ["-I" + os.path.join(VERIF, d) for d in ("sdk/libc", "sdk/include", "model")] + ["-I" + os.path.join(REPO, "src")]

    def lower(self, files, flags):
        todo = [f for f in files if (f, tuple(flags)) not in self.done]

        def one(a):
            i, f = a
            out = os.path.join(self.tmp, "ir%d.bc" % i)
            r = run(["clang-18"] + CFLAGS + self.includes() + list(flags) + [f, "-o", out])
            return f, out, r

        with ThreadPoolExecutor(8) as ex:
            for f, out, r in ex.map(one, [(self.n + k, f) for k, f in enumerate(todo)]):
                if r.returncode:
                    raise NoAnswer("%s does not compile:\n%s" % (f, r.stderr[-2000:]))
                self.done[(f, tuple(flags))] = out
        self.n += len(todo)
        return [self.done[(f, tuple(flags))] for f in files]

    def link(self, bcs):
        self.n += 1
        out = os.path.join(self.tmp, "all%d.bc" % self.n)
        r = run(["llvm-link-18"] + bcs + ["-o", out + "0"])
        if r.returncode:
            raise NoAnswer("IR does not link:\n" + r.stderr[-2000:])
        r = run(["opt-18", "-passes=function(mem2reg)", out + "0", "-o", out])
        if r.returncode:
            raise NoAnswer("mem2reg:\n" + r.stderr[-2000:])
        return out


def repo_sources():
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        fs += [os.path.join(d, n) for n in names if n.endswith(".c")]
    return sorted(fs)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) site=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def site(where):
    return where.split(" ")[0]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = table.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="va_")
    try:
        return decide(prop, tier, spec, tmp, t0)
    except NoAnswer as e:
        print("no answer: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, spec, tmp, t0):
    va = build_engine(tmp)
    low = Lowering(tmp)
    srcs = repo_sources()
    units = [u for u in spec["units"] if tier == "thorough" or not u.get("thorough")]
    viol, reach, obl, funcs, notes, runs = [], set(), set(), set(), {}, []
    for u in units:
        flags = u.get("flags", [])
        files = [os.path.join(VERIF, f) for f in u["files"]]
        sdk = [os.path.join(VERIF, "sdk/src", f) for f in sorted(os.listdir(os.path.join(VERIF, "sdk/src")))]
        bc = low.link(low.lower(srcs + sdk + files, flags))
        outp = os.path.join(tmp, "out.json")
        if os.path.exists(outp):
            os.unlink(outp)
        try:
            r = run([va, bc, os.path.join(REPO, "src"), outp] + ([u["root"]] if "root" in u else []), timeout=u.get("timeout", 850 if tier == "quick" else 3000))
        except subprocess.TimeoutExpired:
            raise NoAnswer("unit %s: time limit" % u["name"])
        if r.returncode or not os.path.exists(outp):
            raise NoAnswer("unit %s: engine exit %d\n%s" % (u["name"], r.returncode, r.stderr[-2000:]))
        o = json.load(open(outp))
        for bad in ("event fixpoint did not terminate", "state at rest did not stabilise"):
            if bad in o["notes"]:
                raise NoAnswer("unit %s: %s" % (u["name"], bad))
        for v in o["violations"]:
            if v["property"] == prop:
                viol.append((u["name"], v))
        for k in o["obligations"]:
            if k.startswith("REACH|"):
                if k[6:].startswith(prop + " "):
                    reach.add(k[6:])
            elif k.startswith(prop + "|"):
                obl.add((u["name"], k))
        funcs |= set(o["functions"])
        for k, n in o["notes"].items():
            notes[k] = notes.get(k, 0) + n
        if spec.get("unknown_pointers"):
            for k in o["notes"]:
                if "through an unknown pointer" in k or "unknown function pointer" in k:
                    m = re.match(r"(.*) in (\S+) \((.*)\)", k)
                    viol.append((u["name"], {"property": prop, "message": m.group(1) if m else k,
                                             "where": "%s (%s)" % (m.group(2), m.group(3)) if m else "?", "path": []}))
        runs.append({"unit": u["name"], "states_at_rest": o["rest_states"], "event_runs": o["event_runs"],
                     "instructions_interpreted": o["stats"].get("insts", 0), "joins": o["stats"].get("joins", 0),
                     "calls": o["stats"].get("calls", 0), "seconds": o["seconds"]})
    missing = [r for r in spec.get("reach", []) if prop + " " + r not in reach]
    if missing and not viol and spec.get("expected"):
        # the property says that this happens, and on no path does it
        for r in missing:
            viol.append((units[0]["name"], {"property": prop, "message": "on no path is it reached: " + r, "where": "the functions analysed, from " + spec["expected"], "path": []}))
    elif missing and not viol:
        raise NoAnswer("not reached in the analysed program: " + "; ".join(missing))
    if not obl and not spec.get("no_obligations"):
        raise NoAnswer("no instance of the rule was met")
    known = known_findings(prop)
    new, old = [], []
    for un, v in viol:
        hit = [k for k in known if k[0] == site(v["where"]) and k[1] == v["message"]]
        (old if hit else new).append((un, v))
    bad_sites = set((v["message"], v["where"]) for _, v in viol)
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": spec["explanation"],
            "rule": spec["rule"],
            "units": runs,
            "sources_lowered": len(srcs),
            "functions_interpreted": len(funcs),
            "functions": sorted(funcs),
            "obligations": len(obl),
            "discharged": len(obl) - len(bad_sites) if len(obl) >= len(bad_sites) else 0,
            "obligation_sites": sorted("%s: %s" % (u, k.split("|", 1)[1]) for u, k in obl)[:400],
            "anchors_reached": sorted(reach),
            "imprecision_notes": notes,
        },
        "assumptions": table.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    seen = set()
    for _, v in old:
        k = (v["message"], site(v["where"]))
        if k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, site(v["where"]), v["message"]))
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".replay.txt")
        with open(rp, "w") as f:
            for un, v in new:
                f.write("%s: %s\n  at %s [analysis unit %s]\n" % (prop, v["message"], v["where"], un))
                for p in v["path"]:
                    f.write("  " + p + "\n")
        for un, v in new[:10]:
            print("%s: %s at %s" % (prop, v["message"], v["where"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: held; %d obligations, %d functions, %.1f s" % (prop, len(obl), len(funcs), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
