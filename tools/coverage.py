#!/usr/bin/env python3
"""developer helper: which basic blocks of the library do the quick scenarios reach?
coverage.py OUT [SECONDS_PER_SCENARIO] - builds a copy of every harness with block tracing in /tmp/cov,
runs every scenario, lists the source lines of /repo that no scenario reached."""
import sys, os, re, subprocess, collections
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); OUT = sys.argv[1]; SEC = sys.argv[2] if len(sys.argv) > 2 else "1"
sys.argv = ["x"]
import run
run.BUILD = "/tmp/cov/build"
open("/tmp/cov/cov.cpp", "w").write(r'''
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
static uint8_t *const M = (uint8_t*) 0x6a0000000000ull; static constexpr uint64_t N = 64ull << 20;
__attribute__((constructor(101))) static void init()
{
   const char *f = getenv( "COVFILE" ); int fd = f ? open( f, O_RDWR | O_CREAT, 0644 ) : -1; if( fd >= 0 ) (void) !ftruncate( fd, N );
   mmap( M, N, PROT_READ | PROT_WRITE, MAP_FIXED | ( fd >= 0 ? MAP_SHARED : MAP_PRIVATE | MAP_ANONYMOUS ), fd, 0 );
}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc(){ static bool up; if( ! up ){ up = true; init(); } const uint64_t a( (uint64_t) __builtin_return_address( 0 ) - 0x400000 ); if( a < N ) M[ a ] = 1; }
''')
os.makedirs("/tmp/cov/build", exist_ok=True)
subprocess.check_call(["clang++", "-O1", "-c", "/tmp/cov/cov.cpp", "-o", "/tmp/cov/cov.o"])
run.INSTR = run.INSTR + ["-fsanitize-coverage=trace-pc,bb"]
# link the callback with the engine object
_c = run.Builder.compile
def comp(self, src, key, flags):
    o = _c(self, src, key, flags)
    if o and src.endswith("/vpmc.cpp"):
        m = o[:-2] + ".m.o"
        if not os.path.exists(m): subprocess.check_call(["ld", "-r", "-o", m, o, "/tmp/cov/cov.o"])
        return m
    return o
run.Builder.compile = comp
names = run.harness_sources()
bins = run.Builder().build(names)
lines = collections.defaultdict(lambda: [0, 0])
for n in names:
    b = bins[n]; cf = "/tmp/cov/%s.cov" % n
    if os.path.exists(cf): os.unlink(cf)
    for s in run.scenarios(b):
        subprocess.run([b, "--scenario", s, "--tier", "quick", "--workers", "4", "--time", SEC, "--out", "/tmp/cov/o.json"], env=dict(os.environ, COVFILE=cf), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cov = open(cf, "rb").read()
    dis = subprocess.run("objdump -d --no-show-raw-insn %s | grep -A1 'call.*__sanitizer_cov_trace_pc>'" % b, shell=True, stdout=subprocess.PIPE, text=True).stdout
    pcs = []
    prev = False
    for l in dis.splitlines():
        m = re.match(r"\s*([0-9a-f]+):\s*(.*)", l)
        if not m: prev = False; continue
        if prev: pcs.append(int(m.group(1), 16))
        prev = "cov_trace_pc>" in l
    q = "\n".join("0x%x" % (p - 1) for p in pcs)
    r = subprocess.run(["llvm-symbolizer", "--obj=" + b, "--output-style=GNU", "-s", "-i"] if False else ["addr2line", "-e", b], input=q, stdout=subprocess.PIPE, text=True).stdout.splitlines()
    for p, l in zip(pcs, r):
        m = re.match(r"(.*/repo/\S*):(\d+)", l)
        if not m: continue
        k = (os.path.relpath(os.path.normpath(m.group(1)), "/repo"), int(m.group(2)))
        lines[k][0] += 1; lines[k][1] += cov[p - 0x400000] != 0
with open(OUT, "w") as o:
    last = None
    for (f, l), (t, c) in sorted(lines.items()):
        if c: continue
        if f != last: o.write("== %s\n" % f); last = f
        src = open("/repo/" + f).read().split("\n")
        o.write("%5d %s\n" % (l, src[l - 1].rstrip() if 0 < l <= len(src) else "?"))
    o.write("lines with a block: %d, reached %d\n" % (len(lines), sum(1 for v in lines.values() if v[1])))
