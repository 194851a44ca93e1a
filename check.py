#!/usr/bin/env python3
"""Driver: builds the harnesses a property needs from /repo's working tree, runs its modes, writes evidence.

  check.py Cxx [--tier quick|thorough]     decide one property
  check.py Cxx --replay FILE               re-run one recorded failure
  check.py --setup                         check the toolchain
  check.py --build-all                     build every harness (fills the cache)
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, FLAVOURS  # noqa: E402

NCPU = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree(d):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs]
    return out


class BuildError(RuntimeError):
    def __init__(self, harness, flavour, log):
        errs = [l for l in log.splitlines() if "error" in l][:20]
        super().__init__(f"building {harness} ({flavour}) failed:\n" + "\n".join(errs) + "\n...\n" + log[-3000:])
        self.harness, self.flavour, self.errs = harness, flavour, errs


def explain_build_error(prop, e):
    """The harness does not compile. If the library itself is fine (its headers compile with the same compiler and flags)
    then programs which use the public interface as this property allows are rejected: that is a failed case like any
    other (it happened: async tasks with a memory resource). Otherwise nothing can be decided."""
    cc, flags = FLAVOURS[e.flavour]
    os.makedirs(BUILD, exist_ok=True)
    t = os.path.join(BUILD, f"sane-{os.getpid()}.cpp")
    std = ["algorithm", "chrono", "functional", "iterator", "memory", "memory_resource", "mutex", "optional", "ranges", "string", "thread", "utility", "vector"]
    hdrs = [f"kelcoro/{h}" for h in ("kelcoro.hpp", "algorithm.hpp", "inplace_generator.hpp", "stack_memory_resource.hpp")]
    with open(t, "w") as f:
        f.write("".join(f"#include <{h}>\n" for h in std + hdrs) + "int main() {}\n")
    r = sh([cc, "-std=c++20", "-w", "-I" + os.path.join(REPO, "include"), *flags, "-fsyntax-only", t])
    os.unlink(t)
    print(e)
    if r.returncode or not any("/include/kelcoro/" in l or "/src/" in l for l in e.errs):
        print("ERROR the library's headers do not compile on their own either, or the compiler failed")
        return 2
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rep = os.path.join(HERE, "replays", f"{prop}-build-{e.flavour}.json")
    with open(rep, "w") as f:
        json.dump({"property": prop, "harness": e.harness, "flavour": e.flavour, "mode": "build", "message": "; ".join(e.errs[:5])}, f, indent=1)
    print(f"{prop}: programs that this property covers do not compile any more: {e.errs[0][:300]}")
    print(f"VIOLATION property={prop} replay={rep}")
    return 1


SUPPORT_LOCK = threading.Lock()


def support(src, extra):
    """engine / scheduler objects: no sanitizer, independent of /repo"""
    with SUPPORT_LOCK:
        return support_(src, extra)


def support_(src, extra):
    key = digest([os.path.join(HERE, "src", f) for f in ("vf.h", "vsched.h", src)], extra)
    out = os.path.join(BUILD, f"{src}-{key}.o")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        r = sh(["g++", "-std=c++20", "-O2", "-g1", "-w", "-c", os.path.join(HERE, "src", src), "-o", tmp])
        if r.returncode:
            raise RuntimeError(r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def build(harness, flavour):
    os.makedirs(BUILD, exist_ok=True)
    cc, flags = FLAVOURS[flavour]
    src = os.path.join(HERE, "src", harness + ".cpp")
    hdrs = [p for p in tree(os.path.join(HERE, "src")) if p.endswith((".h", ".hpp")) or os.path.basename(p).startswith("vf_core") or os.path.basename(p).startswith("vsched")]
    key = digest(tree(os.path.join(REPO, "include")) + hdrs + [src], cc + " ".join(flags))
    out = os.path.join(BUILD, f"{harness}-{flavour}-{key}")
    if os.path.exists(out):
        return out
    objs = [support("vf_core.cpp", ""), support("vsched.cpp", "")]
    tmp = f"{out}.{os.getpid()}.tmp"
    cmd = [cc, "-std=c++20", "-g1", "-w", "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(HERE, "src"), *flags, src, *objs, "-o", tmp, "-pthread"]
    r = sh(cmd)
    if r.returncode:
        raise BuildError(harness, flavour, r.stdout)
    os.rename(tmp, out)
    for f in os.listdir(BUILD):  # drop outdated builds of the same harness
        p = os.path.join(BUILD, f)
        if f.startswith(f"{harness}-{flavour}-") and p != out and not f.endswith(".tmp") and time.time() - os.path.getmtime(p) > 3600:
            try:
                os.unlink(p)
            except OSError:
                pass
    return out


def known(prop):
    """known_findings.txt: 'fixed: property=ID commit what' (suppresses nothing) or
    'known: property=ID mode=MODE match=/regex/ what' """
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) mode=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def run(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    mult = 1 if tier == "quick" else spec.get("thorough", 20)
    runs = spec["runs"] + (spec.get("extra", []) if tier == "thorough" else [])
    need = []
    for r in runs:
        if r[:2] not in need:
            need.append(r[:2])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        bins = dict(zip(need, ex.map(lambda b: build(*b), need)))
    t_build = time.time() - t0
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    ev, nt, samples, rules, modes, labels = 0, 0, [], [], [], {}
    violations, errors = [], []
    for i, (h, fl, mode, cases) in enumerate(runs):
        left = (840 if tier == "quick" else 3000) - (time.time() - t0)
        wall = max(5, min(left - 100, (90 if tier == "quick" else 600)))
        res = os.path.join(BUILD, f"res-{prop}-{mode}-{fl}-{os.getpid()}.json")
        rep = os.path.join(rep_dir, f"{prop}-{mode}-{fl}-{seed}.json")
        for p in (res, rep):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [bins[(h, fl)], "run", "--mode", mode, "--cases", str(int(cases * mult)), "--seed", str(seed * 1000 + i),
               "--jobs", str(NCPU), "--out", res, "--replay-out", rep, "--wall", str(wall)]
        r = sh(cmd)
        try:
            d = json.load(open(res), strict=False)
            os.unlink(res)
        except Exception as e:  # noqa: BLE001
            errors.append(f"{mode}/{fl}: no result ({e}), exit {r.returncode}: {r.stdout[-1500:]}")
            continue
        ev += d["evaluations"]
        nt += d["distinct_nontrivial"]
        if f"{mode}: {d['rule']}" not in rules:
            rules.append(f"{mode}: {d['rule']}")
        samples += [{"mode": mode, "case": s[:1500]} for s in d["samples"][:2]]
        modes.append({k: d[k] for k in ("mode", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "wall_s", "capped", "labels")} | {"flavour": fl})
        if r.returncode == 0:
            continue
        f = d.get("failure") or {}
        text = f"{f.get('message', '')}\n{f.get('output', '')}\n{f.get('case_text', '')}"
        if r.returncode == 10 and f.get("confirmed"):
            k = next((x for x in known(prop) if x[0] in (mode, "*") and re.search(x[1], text)), None)
            if k:
                print(f"KNOWN-FINDING: property={prop} {k[2]}")
                continue
            with open(rep) as g:
                inner = g.read()
            with open(rep, "w") as g:
                json.dump({"property": prop, "harness": h, "flavour": fl, "mode": mode, "message": f.get("message"),
                           "case": f.get("case_text"), "vf": inner}, g, indent=1)
            violations.append((rep, mode, fl, f))
            break  # one minimal reproduction is enough
        errors.append(f"{mode}/{fl}: unconfirmed failure, exit {r.returncode}: {text[:3000]} {r.stdout[-500:]}")
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": nt, "rule": " | ".join(rules), "samples": samples[:12],
                     "modes": modes, "build_s": round(t_build, 1)},
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    for rep, mode, fl, f in violations:
        print(f"{prop} mode {mode} ({fl}): {f.get('message')}\ncase:\n{f.get('case_text')}\n{f.get('output', '')[-3000:]}")
        print(f"VIOLATION property={prop} replay={rep}")
    for e in errors:
        print("ERROR", e)
    print(f"{prop}: {ev} cases, {nt} distinct non-trivial, build {t_build:.0f}s, total {time.time() - t0:.0f}s")
    return 1 if violations else 2 if errors else 0


def replay(prop, path):
    d = json.load(open(path), strict=False)
    try:
        b = build(d["harness"], d["flavour"])
    except BuildError as e:
        return explain_build_error(prop, e)
    if d["mode"] == "build":
        return 0
    inner = path + ".vf"
    with open(inner, "w") as f:
        f.write(d["vf"])
    r = subprocess.run([b, "replay", "--mode", d["mode"], "--file", inner])
    os.unlink(inner)
    if r.returncode == 10:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if r.returncode == 0 else 2


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        for c in ("g++", "clang++"):
            r = sh([c, "--version"])
            print(r.stdout.splitlines()[0])
            if r.returncode:
                return 1
        return 0
    if a[:1] == ["--build-all"]:
        need = sorted({r[:2] for s in CHECKS.values() for r in s["runs"] + s.get("extra", [])})
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for n, p in zip(need, ex.map(lambda b: build(*b), need)):
                print(n, p)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        return replay(prop, a[a.index("--replay") + 1])
    try:
        return run(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    except BuildError as e:
        return explain_build_error(prop, e)
    except Exception:  # noqa: BLE001  (no answer is neither 0 nor 1)
        print("ERROR", traceback.format_exc())
        return 2


if __name__ == "__main__":
    sys.exit(main())
