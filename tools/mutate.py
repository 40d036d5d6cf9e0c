#!/usr/bin/env python3
"""developer helper: mutation sweep.  mutate.py OUT N SEED FILE...
Applies single-point mutations to FILEs of a scratch clone of /repo and runs every
scenario against each; writes one line per mutant to OUT (killed by which / survived)."""
import sys, os, re, random, subprocess, json, time
OUT, N, SEED, FILES = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
W = os.environ.get("MUT_DIR", "/tmp/mut/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.path.isdir(W): subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
subprocess.run(["git", "-C", W, "pull", "-q"], check=True)
OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<>\-=])<(?![<=])(?=\s*[\w(*])", "<="), (r"(?<![<>\-=])>(?![>=])(?=\s*[\w(*])", ">="), (r"<=", "<"), (r">=", ">"),
       (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\+\+", "--"), (r"\+=", "-="), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"if\( !", "if( "), (r"\+(?= \w)", "-"), (r"!(?=[ (]*[\w(])(?!=)", "")]
def lines(f):
    """code lines outside of comments, preprocessor and #if 0 blocks"""
    out, com, skip = [], False, 0
    for i, l in enumerate(open(f).read().split("\n")):
        s = l.strip()
        if s.startswith("#if 0"): skip = 1
        elif skip and s.startswith("#if"): skip += 1
        elif skip and s.startswith("#endif"): skip -= 1; continue
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: com = True
            continue
        if not s or s.startswith(("//", "#", "*")) or skip: continue
        out.append((i, l))
    return out
def mutants(f):
    m = []
    for i, l in lines(os.path.join(W, f)):
        code = re.sub(r'/\*.*?\*/', lambda x: " " * len(x.group(0)), re.sub(r'"[^"]*"', lambda x: "_" * len(x.group(0)), l)).split("//")[0]
        if "template" in code or "UNUSED" in code or "cerr" in code or "ss <<" in code or "std::forward" in code or "_cast" in code or "operator" in code or "static_assert" in code or "assert(" in code: continue
        for a, b in OPS:
            for k in re.finditer(a, code):
                m.append((f, i, l, l[:k.start()] + b + l[k.end():]))
        s = code.strip()
        if s.endswith(";") and not re.match(r"(return|break|using|typedef|const|auto|friend|virtual|class|struct|static|constexpr|template|public|namespace|std::\w+ \w|\w+(::\w+)*\s+\w+(\s*=|;|\())", s) and s.count("(") == s.count(")") and "throw" not in s:
            m.append((f, i, l, re.match(r"\s*", l).group(0) + "/* gone */;"))
    return m
rnd = random.Random(SEED)
allm = []
for f in FILES:
    ms = mutants(f); rnd.shuffle(ms); allm += ms[:N]
env = dict(os.environ, VERIF_REPO=W)
names = sorted(f[:-4] for f in os.listdir(HERE + "/harness") if f.endswith(".cpp"))
STREAM = ("pointer", "fifo", "blocked", "signal", "ringbuffer", "buffer", "datamanager", "threadaccess", "autorelease", "alloc")
if not any(x in f for f in FILES for x in STREAM): names = [n for n in names if n not in ("fifo_seq", "fifo_conc", "fifo_resize")]
done = set(l.split("\t")[0] for l in open(OUT)) if os.path.exists(OUT) else set()
def run(b, s, t, extra):
    o = "/tmp/mut/o-%d.json" % os.getpid()
    if os.path.exists(o): os.unlink(o)
    cmd = [b, "--scenario", s, "--tier", "quick", "--workers", "8", "--time", str(t), "--out", o] + extra
    prop = s.split(".")[0]
    for l in open(HERE + "/known_findings.txt"):
        k = re.match(r"known:\s*property=(\S+)\s+scenario=(\S+)\s+match=(.*?)\s*::", l)
        if k and k.group(2) in (s, "*"): cmd += ["--known", k.group(3)]
    try: subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=t * 3 + 30)
    except subprocess.TimeoutExpired: return "TIMEOUT"
    try: j = json.load(open(o))
    except Exception: return None
    return (j.get("violation") or {}).get("message")
for f, i, l, n in allm:
    key = "%s:%d:%s" % (f, i + 1, n.strip())
    if key in done: continue
    p = os.path.join(W, f); src = open(p).read(); ls = src.split("\n"); assert ls[i] == l
    ls[i] = n; open(p, "w").write("\n".join(ls))
    t0 = time.time(); res = "SURVIVED"
    try:
        code = "import sys;sys.argv=['x'];sys.path.insert(0,%r);import run,json;print('BINS'+json.dumps(run.Builder().build(%r)))" % (HERE, names)
        r = subprocess.run(["python3", "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        mm = re.search(r"BINS(.*)", r.stdout)
        bins = json.loads(mm.group(1)) if mm else None
        if not bins: res = "NOBUILD"
        else:
            sc = []
            for nme, b in bins.items():
                sc += [(b, x.split()[0]) for x in subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if x.strip()]
            for t, ex in ((2, ["--bound", "0"]), (0.7, [])):
                hits = []
                for b, s in sc:
                    m = run(b, s, t, ex)
                    if m: hits.append("%s: %s" % (s, m.strip().split("\n")[0][:90])); break
                if hits: res = "killed\t" + hits[0]; break
    finally:
        open(p, "w").write(src)
    with open(OUT, "a") as o: o.write("%s\t%s\t%.0fs\twas: %s\n" % (key, res, time.time() - t0, l.strip()))
