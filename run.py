#!/usr/bin/env python3
"""Driver of the model-checking framework.

  run.py check PROP [--tier quick|thorough]   decide one property
  run.py build                                build everything (setup)
  run.py replay FILE                          replay a recorded violation
  run.py list                                 scenarios of every property
  run.py bin HARNESS                          path of a built harness

The library and the harnesses are rebuilt from /repo's working tree into
/verif/.build, keyed by the content of every input.
"""
import sys, os, subprocess, hashlib, json, time, re, shutil, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
CXX = "clang++"
JOBS = min(8, os.cpu_count() or 1)
COMMON = ["-g", "-O1", "-std=gnu++20", "-w", "-include", "cstdint",
          "-DSTRING_NAMES=1", "-DL1D_CACHE_LINE_SIZE=64", "-DRDTSCP=1",
          "-faligned-new", "-pthread",
          "-I" + HERE + "/stubs", "-I" + REPO, "-I" + REPO + "/raftinc",
          "-I" + HERE + "/engine", "-I" + HERE + "/harness"]
INSTR = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1",
         "-mllvm", "-tsan-instrument-func-entry-exit=0"]
# not part of the project's own build (redefines raft::yield)
SKIP = {"sysschedutil.cpp"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def files(root, pats):
    out = []
    for p in pats:
        out += [f for f in glob.glob(os.path.join(root, p), recursive=True) if os.path.isfile(f)]
    return out


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write("BUILD ERROR (%s)\n%s\n%s\n" % (what, " ".join(cmd), "\n".join([l for l in r.stdout.splitlines() if "error" in l][:12]) + "\n" + r.stdout[-1500:]))
        return False
    return True


def harness_sources():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(HERE + "/harness/*.cpp"))


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        headers = files(REPO, ["raftinc/**/*", "raft", "raftalgorithm", "raftio", "raftmanip",
                               "raftmath", "raftrandom", "raftstat", "raftutility"]) + \
            files(HERE, ["stubs/**/*"])
        self.hdr = tree_hash(headers)
        self.eng_hdr = tree_hash(files(HERE, ["engine/*.h", "harness/*.h"]))
        self.flags = sha(*COMMON, *INSTR, subprocess.run(
            [CXX, "--version"], stdout=subprocess.PIPE, text=True).stdout)

    def compile(self, src, key, flags):
        obj = os.path.join(BUILD, "%s-%s.o" % (os.path.basename(src), key))
        if os.path.exists(obj):
            os.utime(obj)
            return obj
        tmp = obj + ".%d.tmp" % os.getpid()
        if not run([CXX] + flags + ["-c", src, "-o", tmp], src):
            return None
        os.rename(tmp, obj)
        return obj

    def lib_jobs(self):
        jobs = []
        for s in sorted(glob.glob(REPO + "/src/*.cpp")):
            if os.path.basename(s) in SKIP:
                continue
            with open(s, "rb") as f:
                key = sha(self.flags, self.hdr, f.read(), tree_hash(files(REPO, ["src/**/*.hpp", "src/**/*.h", "src/**/*.tcc"])))
            jobs.append((s, key, COMMON + INSTR + ["-DLIBCOMPILE=1"]))
        return jobs

    def engine_job(self):
        s = HERE + "/engine/vpmc.cpp"
        with open(s, "rb") as f:
            key = sha(self.flags, self.eng_hdr, f.read())
        return (s, key, ["-O2", "-g", "-std=c++20", "-w", "-pthread"])

    def harness_job(self, name):
        s = HERE + "/harness/" + name + ".cpp"
        with open(s, "rb") as f:
            key = sha(self.flags, self.hdr, self.eng_hdr, f.read())
        return (s, key, COMMON + INSTR)

    def build(self, names):
        jobs = [self.engine_job()] + [self.harness_job(n) for n in names] + self.lib_jobs()
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda j: self.compile(*j), jobs))
        if any(o is None for o in objs):
            return None
        eng, hs, lib = objs[0], objs[1:1 + len(names)], objs[1 + len(names):]
        libkey = sha(*lib)
        bins = {}
        def link(nh):
            n, h = nh
            out = os.path.join(BUILD, "%s-%s.bin" % (n, sha(h, eng, libkey)))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                if not run([CXX, "-g", "-no-pie", "-o", tmp, h] + lib + [eng, "-pthread", "-ldl"], n):
                    return None
                os.rename(tmp, out)
            else:
                os.utime(out)
            return out
        with ThreadPoolExecutor(JOBS) as ex:
            outs = list(ex.map(link, zip(names, hs)))
        if any(o is None for o in outs):
            return None
        self.prune()
        return dict(zip(names, outs))

    def prune(self):
        now = time.time()
        ents = sorted(((os.path.getmtime(f), f) for f in glob.glob(BUILD + "/*") if os.path.isfile(f)))
        total = sum(os.path.getsize(f) for _, f in ents)
        for m, f in ents:
            if total < 3 << 30 or now - m < 1800:
                break
            total -= os.path.getsize(f)
            os.unlink(f)


def known_findings():
    """lines 'known: property=<id> match=<substring> :: <description>'"""
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s*property=(\S+)\s+scenario=(\S+)\s+match=(.*?)\s*::\s*(.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def quick_bounds():
    """scenarios that are cheap enough to be explored deeper than their own quick bound"""
    p = HERE + "/quick_bounds.json"
    return json.load(open(p)) if os.path.exists(p) else {}


def uses(name):
    """properties a harness serves, from its first-line marker '// PROPS: C01 C02'"""
    with open(HERE + "/harness/" + name + ".cpp") as f:
        for l in f:
            m = re.match(r"//\s*PROPS:\s*(.*)", l)
            if m:
                return m.group(1).split()
    return []


def scenarios(binary):
    out = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True).stdout
    return [l.split()[0] for l in out.splitlines() if l.strip()]


def check(prop, tier):
    t0 = time.time()
    names = [n for n in harness_sources() if prop in uses(n)]
    if not names:
        print("no harness for", prop)
        return 2
    bins = Builder().build(names)
    if bins is None:
        return 2
    budget = {"quick": 110.0, "thorough": 780.0}[tier]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    tmpd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    todo = []
    for n in names:
        for s in scenarios(bins[n]):
            if s.split(".")[0] == prop:
                todo.append((n, s))
    if not todo:
        print("no scenario for", prop)
        return 2
    deeper = quick_bounds()
    known = known_findings()
    results, rc = [], 0
    violations, knowns = [], []
    for i, (n, s) in enumerate(todo):
        left = budget - (time.time() - t0)
        share = max(2.0, left / (len(todo) - i) * 8.0) if i + 1 < len(todo) else max(2.0, left)
        share = min(share, max(2.0, left))
        out = os.path.join(tmpd, "out%d.json" % i)
        cmd = [bins[n], "--scenario", s, "--tier", tier, "--workers", str(JOBS),
               "--time", "%.1f" % share, "--out", out]
        if tier == "quick" and s in deeper:
            cmd += ["--bound", str(deeper[s])]
        kn = [k for k in known if k[0] == prop and (k[1] == "*" or k[1] == s)]
        for k in kn:
            cmd += ["--known", k[2]]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        try:
            j = json.load(open(out))
        except Exception as e:
            sys.stderr.write("scenario %s: no result (%s), exit %d\n%s\n%s\n" % (s, e, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
            rc = rc or 2
            continue
        j["harness"] = n
        results.append(j)
        for k in kn:
            kj = j.get("known") or {}
            if k[2] in (kj.get("message") or ""):
                knowns.append(k)
        print("%-40s bound %s/%s exec %d points %d outcomes %d%s %.1fs" % (
            s, j.get("bound_completed"), j.get("bound"), j.get("executions", 0), j.get("points", 0),
            j.get("distinct_outcomes", 0), " CAPPED" if j.get("capped") else "", j.get("wall_s", 0)), flush=True)
        if r.returncode == 1 and j.get("violation"):
            v = j["violation"]
            rp = os.path.join(HERE, "evidence", "%s-%s.replay" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", s)))
            with open(rp, "w") as f:
                f.write("# property %s\n# harness %s\n# tier %s\n" % (prop, n, tier))
                for l in (v.get("message", "") + "\n" + v.get("log", "")).splitlines():
                    f.write("# " + l + "\n")
                f.write("scenario %s\n" % s)
                for a in v.get("alter", []):
                    f.write("alter %s\n" % " ".join(str(x) for x in a))
            violations.append((s, v.get("message", ""), rp))
            break
        elif r.returncode not in (0, 1):
            sys.stderr.write("scenario %s: exit %d\n%s\n%s\n" % (s, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
            rc = rc or 2
    shutil.rmtree(tmpd, ignore_errors=True)
    seen = set()
    for k in knowns:
        if k[3] not in seen:
            seen.add(k[3])
            print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    tot = lambda k: sum(int(j.get(k, 0) or 0) for j in results)
    samples = []
    for j in results:
        for x in (j.get("samples") or [])[:2]:
            samples.append({"scenario": j["scenario"], "trace": x})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("points"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": tot("executions"),
            "evaluations": tot("executions"),
            "samples": samples[:12],
            "exhaustive": bool(results) and not violations and rc == 0 and not any(j.get("capped") for j in results),
            "rule": "stateless exploration of the real code under a controlled scheduler: states are the decision "
                    "points (scheduling points and data choices) visited, transitions the alternatives explored out "
                    "of them, traces the complete executions of the implementation, each checked by the oracle",
            "events": tot("events"),
            "scenarios": [{k: j.get(k) for k in ("scenario", "harness", "bound", "bound_completed", "capped", "passes",
                                                 "executions", "points", "branches", "pruned", "states_deduped",
                                                 "distinct_outcomes", "max_threads", "max_events",
                                                 "shared_locations", "divergences", "unconfirmed", "known_hits", "wall_s")}
                          for j in results],
        },
        "assumptions": [
            "sequentially consistent memory: compiler and hardware reorderings are not modelled",
            "schedules with more deviations from the fair round-robin default than the stated bound are not covered",
            "data, capacities and thread counts are limited to the alphabets in DESIGN.md",
            "stubs/ stands in for the absent shm, affinity and demangle submodules",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    for s, m, rp in violations:
        print("scenario %s: %s" % (s, m.strip().splitlines()[0] if m.strip() else ""))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if violations:
        return 1
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "build":
        return 0 if Builder().build(harness_sources()) else 2
    if a[0] == "list":
        bins = Builder().build(harness_sources())
        for n, b in sorted(bins.items()):
            for s in scenarios(b):
                print(n, s)
        return 0
    if a[0] == "bin":
        print(Builder().build([a[1]])[a[1]])
        return 0
    if a[0] == "replay":
        n, tier = None, "quick"
        for l in open(a[1]):
            m = re.match(r"# harness (\S+)", l)
            if m:
                n = m.group(1)
            m = re.match(r"# tier (\S+)", l)
            if m:
                tier = m.group(1)
        b = Builder().build([n])[n]
        return subprocess.run([b, "--tier", tier, "--replay", a[1]]).returncode
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
