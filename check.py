#!/usr/bin/env python3
"""Property-based tests and fuzzing of /repo: check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree in several configurations, runs the
property's harness (harness/<ID>.cpp) over an enumerated part, over seeded random
cases and under libFuzzer, confirms and shrinks any failure, and writes
evidence/<ID>.json.  Exit 0: held on everything explored.  Exit 1: a VIOLATION
line was printed.  Any other exit: the check itself could not run.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IM_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
NCPU = max(1, min(8, os.cpu_count() or 1))
ENGINE_FLAGS = ["-std=c++17", "-O1", "-g", "-Wall"]
# name -> (compiler, flags) for the library
LENIENT = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]  # as gcc 13
CONFIGS = {
    "san": ("clang", ["-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]),
    "o2": ("gcc", ["-O2", "-ftrivial-auto-var-init=pattern"]),
    "o0": ("clang", ["-O0", "-ftrivial-auto-var-init=pattern"]),
    "uc": ("gcc", ["-O2", "-ftrivial-auto-var-init=pattern", "-funsigned-char"]),  # plain char as on ARM
    "fuzz": ("clang", ["-O1", "-g", "-fsanitize=address,bounds,fuzzer-no-link", "-fno-sanitize-recover=all"]),
}
# more flags for the library in the check of one property: R02 interrupts calls at these callbacks
MOMENTS = ["-fsanitize-coverage=trace-pc,trace-loads,trace-stores"]
EXTRA = {"R02": {"san": MOMENTS, "o0": MOMENTS, "o2": ["-fsanitize-coverage=trace-pc"], "uc": ["-fsanitize-coverage=trace-pc"], "fuzz": ["-fsanitize-coverage=trace-loads,trace-stores"]}}
# A01: arithmetic that C leaves undefined stops the program
UNDEFINED = "signed-integer-overflow,shift-exponent,integer-divide-by-zero,alignment,bool,enum"
EXTRA["A01"] = {"san": ["-fsanitize=" + UNDEFINED], "fuzz": ["-fsanitize=" + UNDEFINED], "o0": ["-fsanitize=" + UNDEFINED, "-fsanitize-trap=all"],
                "o2": ["-fsanitize=" + UNDEFINED, "-fsanitize-undefined-trap-on-error"], "uc": ["-fsanitize=" + UNDEFINED, "-fsanitize-undefined-trap-on-error"]}
# X01, V01: a callback at every load and store instead of AddressSanitizer; W01: one at every basic block.
# The C library's functions go to the harness, which counts what they touch (cfuncs.hpp).
RENAME = ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"] + ["-D%s=im_%s" % (f, f) for f in ("memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcpy strncpy strcat strncat strchr strrchr strstr strspn strcspn strpbrk").split()]
CLANG_TOUCH = ["-g", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"] + RENAME
GCC_TOUCH = ["-fsanitize=thread", "-fno-tree-loop-distribute-patterns"] + RENAME
TOUCH = {"san": ("clang", ["-O1"] + CLANG_TOUCH), "o0": ("clang", ["-O0"] + CLANG_TOUCH), "fuzz": ("clang", ["-O1", "-fsanitize=fuzzer-no-link"] + CLANG_TOUCH),
         "o2": ("gcc", ["-O2"] + GCC_TOUCH), "uc": ("gcc", ["-O2", "-funsigned-char"] + GCC_TOUCH)}
OVERRIDE = {"X01": TOUCH, "V01": dict(TOUCH, o0=("clang", ["-O0", "-g", "-fsanitize=kernel-memory"] + RENAME))}  # locals.hpp
EXTRA["W01"] = {k: ["-fsanitize-coverage=trace-pc"] + RENAME for k in ("san", "o0", "o2", "uc")}
EXTRA["W01"]["fuzz"] = EXTRA["R02"]["fuzz"] + RENAME
EXTRA["E03"] = {k: v + RENAME for k, v in EXTRA["R02"].items()}
for k in ("san", "fuzz"):
    EXTRA["E03"][k] = EXTRA["E03"][k] + ["-fsanitize-address-use-after-return=never"]  # locals stay at one address
SHARE = {"quick": [("san", 40), ("o2", 40), ("o0", 20)], "thorough": [("san", 40), ("o2", 25), ("o0", 15), ("uc", 20)]}  # of the random cases
ENUM = {"quick": ("o2", "san"), "thorough": ("o2", "san", "o0", "uc")}
ENUM_MORE = {"V01": ("o0",)}  # the enumerated cases run on this build as well
BUILDS = {"quick": ["san", "o2", "o0", "fuzz"], "thorough": ["san", "o2", "o0", "uc", "fuzz"]}
FAIL, ASAN, HANG = 77, 78, 79
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "LSAN_", "MSAN_", "CFLAGS", "CXXFLAGS", "LDFLAGS"))}
ENV["LC_ALL"] = "C"
ENV["LD_BIND_NOW"] = "1"  # no lazy binding inside watched calls (L01)
ENV["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=78"


class Broken(Exception):
    """The check itself cannot run."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


# ---- building ------------------------------------------------------------------
def tree(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return out


def include_dirs():
    return [d for d, _, _ in sorted(os.walk(os.path.join(REPO, "Inc")))]


def build(prop, work, configs):
    srcs = tree(os.path.join(REPO, "Src"), (".c",))
    if not srcs:
        raise Broken("no sources in " + REPO)
    incs = ["-I" + d for d in include_dirs()]
    jobs = []
    libs = {}
    for cfg in configs:
        cc, flags = OVERRIDE.get(prop, CONFIGS)[cfg]
        flags = flags + EXTRA.get(prop, {}).get(cfg, [])
        libs[cfg] = []
        os.makedirs(os.path.join(work, cfg), exist_ok=True)
        for s in srcs:
            o = os.path.join(work, cfg, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(s, REPO)) + ".o")
            libs[cfg].append(o)
            jobs.append([cc, "-std=gnu99", "-w"] + (LENIENT if cc == "clang" else []) + flags + incs + ["-c", s, "-o", o])
    asan = ["-fsanitize=address"]
    eng = os.path.join(HARNESS, "engine.cpp")
    har = os.path.join(HARNESS, prop + ".cpp")
    obj = lambda n: os.path.join(work, n)
    jobs.insert(0, ["clang++"] + ENGINE_FLAGS + asan + incs + ["-c", har, "-o", obj("h_asan.o")])
    jobs.insert(1, ["clang++"] + ENGINE_FLAGS + asan + ["-c", eng, "-o", obj("e_asan.o")])
    if set(configs) & {"o2", "o0", "uc"}:
        jobs.insert(0, ["clang++"] + ENGINE_FLAGS + incs + ["-c", har, "-o", obj("h_plain.o")])
        jobs.insert(1, ["clang++"] + ENGINE_FLAGS + ["-c", eng, "-o", obj("e_plain.o")])
    if "fuzz" in configs:
        jobs.insert(2, ["clang++"] + ENGINE_FLAGS + asan + ["-DIM_FUZZ", "-c", eng, "-o", obj("e_fuzz.o")])

    def one(cmd):
        r = sh(cmd)
        if r.returncode != 0:
            raise Broken("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-3000:]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    bins = {}
    links = []
    for cfg in configs:
        b = os.path.join(work, prop + "." + cfg)
        bins[cfg] = b
        if cfg == "san":
            links.append(["clang++", "-fsanitize=address,bounds", obj("h_asan.o"), obj("e_asan.o")] + libs[cfg] + ["-o", b])
        elif cfg == "fuzz":
            links.append(["clang++", "-fsanitize=address,bounds,fuzzer", obj("h_asan.o"), obj("e_fuzz.o")] + libs[cfg] + ["-o", b])
        else:
            links.append(["clang++", obj("h_plain.o"), obj("e_plain.o")] + libs[cfg] + ["-o", b])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, links))
    if prop == "G01":
        build_machines(work)
    if prop == "O01":
        build_others(work, srcs, incs)
    if prop == "I01":
        build_headers(work, srcs, incs)
    return bins


# O01: the library built with other options, each a server of harness/port
OTHERS = {
    "gcc-O3-lto": ["gcc", "-std=gnu99", "-O3", "-flto", "-march=native", "-DNDEBUG", "-fshort-enums"],
    "gcc-Os-c11": ["gcc", "-std=gnu11", "-Os", "-funsigned-char", "-fno-inline", "-fwrapv"],
    "gcc-O1-c17": ["gcc", "-std=gnu17", "-O1", "-fno-strict-aliasing", "-DNDEBUG", "-fno-builtin", "-fno-pic", "-no-pie", "-ftrivial-auto-var-init=zero"],
    "clang-O3-c11": ["clang", "-std=gnu11", "-O3", "-flto", "-DNDEBUG", "-fshort-enums", "-march=native"],
    "clang-Oz-gnu17": ["clang", "-std=gnu17", "-Oz", "-funsigned-char", "-fno-builtin", "-ftrivial-auto-var-init=pattern"],
    "clang-O2-gnu99": ["clang", "-std=gnu99", "-O2", "-DNDEBUG", "-fwrapv", "-fno-strict-aliasing"],
}


def build_others(work, srcs, incs):
    port = os.path.join(HARNESS, "port")

    def one(name):
        cmd = OTHERS[name]
        b = os.path.join(work, name)
        r = None
        for drop in ([], ["-flto", "-march=native"]):
            flags = [f for f in cmd if f not in drop] + ["-w"] + (LENIENT if cmd[0] == "clang" else []) + incs
            r = sh(flags + ["-DHOSTED", "-o", b] + srcs + [os.path.join(port, "server.c"), "-lm"])
            if r.returncode == 0:
                return
        if os.path.exists(b):
            os.remove(b)
        log("O01: no %s here: %s" % (name, r.stdout.decode("utf-8", "replace")[-600:]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, OTHERS))


# I01: what the public headers declare, and the library for linking
def build_headers(work, srcs, incs):
    d = ENV["IM_HEADERS"] = os.path.join(work, "headers")
    os.makedirs(d)
    hs = []
    for h in tree(os.path.join(REPO, "Inc"), (".h",)):
        hs.append((h, os.path.basename(h)))
    names = [n for _, n in hs]
    if len(set(names)) != len(names):
        hs = [(h, os.path.relpath(h, os.path.join(REPO, "Inc"))) for h, _ in hs]

    def declared(k):
        h, name = hs[k]
        src, aux = os.path.join(d, "%d.c" % k), os.path.join(d, "%d.aux" % k)
        with open(src, "w") as fp:
            fp.write('#include "%s"\n' % name)
        sh(["gcc", "-std=gnu11", "-w"] + incs + ["-aux-info", aux, "-fsyntax-only", src])
        fns = []
        for line in open(aux, errors="replace") if os.path.exists(aux) else []:
            m = re.match(r"/\* (.*?):\d+:\w+ \*/ .*?(\w+) \(", line)
            if m and os.path.realpath(m.group(1)).startswith(os.path.realpath(REPO) + os.sep) and m.group(2) not in fns:
                fns.append(m.group(2))
        return " ".join([name] + fns)

    def obj(k):
        o = os.path.join(d, "l%d.o" % k)
        r = sh(["gcc", "-std=gnu99", "-w"] + incs + ["-c", srcs[k], "-o", o])
        if r.returncode != 0:
            raise Broken("build failed: " + srcs[k])
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(obj, range(len(srcs))))
        lines = list(ex.map(declared, range(len(hs))))
    open(os.path.join(d, "list"), "w").write("\n".join(lines) + "\n")
    open(os.path.join(d, "incs"), "w").write("\n".join(incs) + "\n")
    open(os.path.join(d, "main.c"), "w").write("int main(void) { return 0; }\n")
    if sh(["gcc", "-c", os.path.join(d, "main.c"), "-o", os.path.join(d, "main.o")]).returncode or sh(["ar", "rcs", os.path.join(d, "libim.a")] + objs).returncode:
        raise Broken("build failed: main.c or libim.a")


# G01: the library on other machines, each a server of harness/port
LLVM = "/usr/lib/llvm-18/bin"
X64 = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
X32 = "e-m:e-p:32:32-p270:32:32-p271:32:32-p272:64:64-i128:128-f64:32:64-f80:32-n8:16:32-S128"


def build_machines(work):
    """Servers for the machines that can be had here; one whose build fails is left out."""
    port = os.path.join(HARNESS, "port")
    res = sh(["clang", "-print-resource-dir"]).stdout.decode().strip()
    flags = ["-std=gnu99", "-w", "-ffreestanding", "-fno-builtin"] + LENIENT + ["-nostdinc", "-isystem", os.path.join(port, "include"), "-isystem", os.path.join(res, "include")]
    flags += ["-I" + d for d in include_dirs()]
    srcs = tree(os.path.join(REPO, "Src"), (".c",)) + [os.path.join(port, "server.c"), os.path.join(port, "mini.c")]
    sys_c = os.path.join(port, "sys.c")

    class No(Exception):
        pass

    def must(cmd):
        r = sh(cmd)
        if r.returncode != 0:
            raise No("%s\n%s" % (" ".join(cmd)[:300], r.stdout.decode("utf-8", "replace")[-600:]))

    def big(name, target, here, layout):
        def one(s):
            b = os.path.join(work, name + "_" + re.sub(r"[^A-Za-z0-9]", "_", s))
            must(["clang", "--target=" + target] + flags + ["-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-o", b + ".ll", s])
            must([LLVM + "/opt", "-S", "-passes=function(sroa,early-cse,simplifycfg,instnamer)", b + ".ll", "-o", b + ".opt.ll"])
            must([sys.executable, os.path.join(port, "swap.py"), b + ".opt.ll", b + ".be.ll", here, layout])
            must(["clang", "--target=" + here, "-w", "-O1", "-c", b + ".be.ll", "-o", b + ".o"])
            return b + ".o"
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(one, srcs))
        must(["clang", "--target=" + here, "-nostdlib", "-static", "-ffreestanding", "-o", os.path.join(work, name), sys_c] + objs)

    def i386():
        must(["clang", "--target=i386-linux-gnu", "-march=pentium4"] + flags + ["-O2", "-nostdlib", "-static", "-o", os.path.join(work, "i386"), sys_c] + srcs)

    def wasm32():
        must(["clang", "--target=wasm32"] + flags + ["-O1", "-funsigned-char", "-nostdlib", "-Wl,--no-entry", "-o", os.path.join(work, "wasm32")] + srcs)
        shutil.copyfile(os.path.join(port, "server.js"), os.path.join(work, "wasm32.js"))

    made = {"i386": i386, "wasm32": wasm32, "be64": lambda: big("be64", "powerpc64-linux-gnu", "x86_64-linux-gnu", X64), "be32": lambda: big("be32", "powerpc-linux-gnu", "i386-linux-gnu", X32)}

    def run(name):
        try:
            made[name]()
        except (No, OSError) as e:
            if os.path.exists(os.path.join(work, name)):
                os.remove(os.path.join(work, name))
            log("G01: no %s here: %s" % (name, e))
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(run, made))


def scrape_constants(path):
    """Literals in the library's sources: bias for the generators (never for the oracles)."""
    vals = set()
    for f in tree(os.path.join(REPO, "Src"), (".c", ".h")) + tree(os.path.join(REPO, "Inc"), (".h",)):
        text = open(f, encoding="utf-8", errors="replace").read()
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
        text = re.sub(r"//[^\n]*", " ", text)
        for line in text.split("\n"):
            nums = re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", line)
            if len(nums) >= 7 or line.count(",") >= 7:
                continue  # a row of a table
            for n in nums:
                try:
                    vals.add(int(n, 0))
                except ValueError:
                    vals.add(int(n, 8) if re.fullmatch(r"[0-7]+", n) else int(n))
            for a, b in re.findall(r"(\d+)[uUlL]*\s*<<\s*(\d+)[uUlL]*", line):
                if int(b) < 63:
                    vals.add(int(a) << int(b))
            for ch in re.findall(r"'([^'\\])'", line):
                vals.add(ord(ch))
    vals = sorted(v for v in vals if 0 <= v < 1 << 64)
    with open(path, "w") as fp:
        fp.write("\n".join(str(v) for v in vals) + "\n")


# ---- running ---------------------------------------------------------------------
class Failure(Exception):
    def __init__(self, **kw):
        Exception.__init__(self, kw.get("why", ""))
        self.__dict__.update(kw)


def classify(rc):
    """None: fine; text: the property failed; Broken: the machinery failed."""
    if rc == 0:
        return None
    if rc == FAIL:
        return "oracle"
    if rc == ASAN:
        return "memory error (sanitizer)"
    if rc == HANG:
        return "no termination within the CPU-time limit"
    if rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGPIPE):
        return "crash (signal %d)" % -rc
    raise Broken("the harness ended with status %d" % rc)


def read_progress(path):
    b = open(path, "rb").read()
    magic, mode, idx, n, overflow, _ = struct.unpack_from("<6Q", b)
    msg = b[48:48 + 2048].split(b"\0")[0].decode("utf-8", "replace")
    return {"mode": mode, "idx": idx, "rec": None if overflow else b[4096:4096 + n], "msg": msg}


class Runner:
    def __init__(self, prop, work, bins, seed, tier, deadline):
        self.prop, self.work, self.bins, self.seed, self.tier = prop, work, bins, seed, tier
        self.deadline = deadline
        self.thorough = "1" if tier == "thorough" else "0"
        self.stop = threading.Event()
        self.procs = set()
        self.lock = threading.Lock()
        self.n = 0
        self.skipped = 0

    def spawn(self, cmd, out, env=None):
        with self.lock:
            if self.stop.is_set():
                return None
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.STDOUT, env=env or self.env(), cwd=self.work)
            self.procs.add(p)
        return p

    def env(self):
        e = dict(ENV)
        e["IM_CONSTS"] = os.path.join(self.work, "consts")
        e["IM_PORT"] = self.work
        return e

    def wait(self, p):
        p.wait()
        with self.lock:
            self.procs.discard(p)
        return p.returncode

    def kill_all(self):
        with self.lock:
            self.stop.set()
            for p in self.procs:
                try:
                    p.kill()
                except OSError:
                    pass

    def task(self, t):
        """One shard: returns its stats, None when skipped; raises Failure."""
        if self.stop.is_set():
            return None
        if time.monotonic() > self.deadline:
            self.skipped += 1
            return None
        if t["mode"] == "fuzz":
            return self.fuzz(t)
        with self.lock:
            self.n += 1
            tag = os.path.join(self.work, "t%d" % self.n)
        with open(tag + ".out", "wb") as out:
            p = self.spawn([self.bins[t["cfg"]], t["mode"], "--seed", str(self.seed), "--start", str(t["start"]), "--end", str(t["end"]), "--stride", str(t["stride"]),
                            "--thorough", self.thorough, "--progress", tag + ".p", "--stats", tag + ".s", "--samples", "1" if t.get("samples") else "0"], out)
            if p is None:
                return None
            rc = self.wait(p)
        if self.stop.is_set():
            return None
        why = classify(rc)
        if why:
            pr = read_progress(tag + ".p")
            raise Failure(why=why, task=t, progress=pr, output=open(tag + ".out", "rb").read().decode("utf-8", "replace")[-6000:])
        s = json.load(open(tag + ".s"))
        s["hash"] = tag + ".s.h"
        os.remove(tag + ".p")
        os.remove(tag + ".out")
        return s

    def fuzz(self, t):
        d = os.path.join(self.work, "fuzz%d" % t["job"])
        corpus = os.path.join(d, "corpus")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(corpus)
        with open(os.path.join(d, "seedlog"), "wb") as out:
            p = self.spawn([self.bins["san"], "corpus", "--seed", str(self.seed * 64 + t["job"]), "--dir", corpus, "--count", "96", "--max", str(t["max_len"]),
                            "--progress", os.path.join(d, "prog")], out)
            if p is None:
                return None
            rc = self.wait(p)
        if self.stop.is_set():
            return None
        why = classify(rc)
        if why:
            pr = read_progress(os.path.join(d, "prog"))
            raise Failure(why=why, task=dict(t, cfg="san"), progress=pr, output=open(os.path.join(d, "seedlog"), "rb").read().decode("utf-8", "replace")[-6000:])
        env = self.env()
        env["IM_FUZZ_STATS"] = os.path.join(d, "stats")
        left = max(20, int(self.deadline - time.monotonic()))
        with open(os.path.join(d, "log"), "wb") as out:
            p = self.spawn([self.bins["fuzz"], "-runs=%d" % t["runs"], "-seed=%d" % ((self.seed * 64 + t["job"]) % 4000000000 + 1), "-max_len=%d" % t["max_len"],
                            "-use_value_profile=1", "-rss_limit_mb=3000", "-timeout=900", "-detect_leaks=0", "-print_final_stats=0", "-verbosity=0",
                            "-max_total_time=%d" % left, "-artifact_prefix=" + d + "/art-", corpus], out, env)
            if p is None:
                return None
            rc = self.wait(p)
        if self.stop.is_set():
            return None
        text = open(os.path.join(d, "log"), "rb").read().decode("utf-8", "replace")[-6000:]
        if rc != 0:
            arts = [f for f in os.listdir(d) if f.startswith("art-crash-")]
            if arts:
                rec = open(os.path.join(d, arts[0]), "rb").read()
                m = re.findall(r"^FAIL: (.*)$", text, re.M)
                raise Failure(why="fuzzing", task=dict(t, cfg="fuzz"), progress={"mode": 3, "idx": 0, "rec": rec, "msg": m[-1] if m else ""}, output=text)
            if rc == 71 or rc == 70 or "out-of-memory" in text:
                raise Broken("libFuzzer ended with status %d\n%s" % (rc, text[-1500:]))
            raise Broken("libFuzzer ended with status %d\n%s" % (rc, text[-1500:]))
        s = json.load(open(os.path.join(d, "stats")))
        s["hash"] = os.path.join(d, "stats.h")
        s["samples"] = []
        shutil.rmtree(corpus, ignore_errors=True)
        return s


def plan(prop, info, tier, seed):
    cases = info["quick" if tier == "quick" else "thorough"]
    scale = float(os.environ.get("IM_SCALE", "1"))
    cases = max(64, int(cases * scale))
    enum = info["enum_quick" if tier == "quick" else "enum_thorough"]
    runs = int(info["fuzz_quick" if tier == "quick" else "fuzz_thorough"] * scale)
    tasks = []
    if enum:
        shards = min(NCPU, enum)
        for cfg in dict.fromkeys(ENUM[tier] + ENUM_MORE.get(prop, ())):
            for k in range(shards):
                tasks.append({"mode": "enum", "cfg": cfg, "start": k, "end": enum, "stride": shards, "samples": k == 0 and cfg == "o2"})
    at = 0
    chunks = []
    for cfg, pct in SHARE[tier]:
        n = cases * pct // 100
        pieces = 8 if tier == "quick" else 40
        step = max(1, (n + pieces - 1) // pieces)
        b = at
        while b < at + n:
            chunks.append({"mode": "run", "cfg": cfg, "start": b, "end": min(b + step, at + n), "stride": 1, "samples": b == at})
            b += step
        at += n
    # interleave the configurations
    by = {cfg: [c for c in chunks if c["cfg"] == cfg] for cfg, _ in SHARE[tier]}
    while any(by.values()):
        for cfg, _ in SHARE[tier]:
            if by[cfg]:
                tasks.append(by[cfg].pop(0))
    if runs:
        jobs = 4 if tier == "quick" else 8
        fz = [{"mode": "fuzz", "cfg": "fuzz", "job": j, "runs": runs, "max_len": info["max_len"], "start": 0, "end": 0, "stride": 1} for j in range(jobs)]
        # long-running: spread among the rest
        if tier == "quick":
            tasks = tasks + fz
        else:
            k = len(tasks) // 4
            tasks = tasks[:k] + fz + tasks[k:]
    return tasks


# ---- failures ------------------------------------------------------------------------
def replay_once(r, rep):
    """True when the recorded failure shows again.  Returns (failed, output)."""
    kind = rep["kind"]
    if kind == "fuzzjob":
        rr = Runner(r.prop, r.work, r.bins, rep["seed"], rep["tier"], time.monotonic() + 600)
        try:
            rr.fuzz(rep["task"])
            return False, ""
        except Failure as f:
            return True, f.output
    if kind == "job":
        rr = Runner(r.prop, r.work, r.bins, rep["seed"], rep["tier"], time.monotonic() + 600)
        open(os.path.join(r.work, "consts"), "w").write("\n".join(str(v) for v in rep["consts"]) + "\n")
        try:
            rr.task(rep["task"])
            return False, ""
        except Failure as f:
            return True, f.output
    cmd = [r.bins[rep["cfg"]]]
    if rep["cfg"] == "fuzz":
        f = os.path.join(r.work, "replay.bin")
        open(f, "wb").write(bytes.fromhex(rep["bytes"]))
        p = subprocess.run(cmd + ["-rss_limit_mb=3000", "-timeout=900", "-detect_leaks=0", "-runs=1", f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=r.env(), cwd=r.work)
        return p.returncode not in (0, 70, 71), p.stdout.decode("utf-8", "replace")[-6000:]
    if kind == "flaky":
        for _ in range(rep["tries"]):
            bad, o = replay_once(r, dict(rep, kind=rep["inner"]))
            if bad:
                return True, o
        return False, ""
    cmd += ["replay", "--kind", kind, "--seed", str(rep["seed"]), "--thorough", "1" if rep["tier"] == "thorough" else "0"]
    if kind == "bytes":
        f = os.path.join(r.work, "replay.bin")
        open(f, "wb").write(bytes.fromhex(rep["bytes"]))
        cmd += ["--in", f]
    else:
        cmd += ["--start", str(rep["start"]), "--end", str(rep["end"]), "--stride", str(rep["stride"])]
    env = r.env()
    if rep.get("consts"):
        f = os.path.join(r.work, "replay.consts")
        open(f, "w").write("\n".join(str(v) for v in rep["consts"]) + "\n")
        env["IM_CONSTS"] = f
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=r.work)
    return classify(p.returncode) is not None, p.stdout.decode("utf-8", "replace")[-6000:]


def confirm(r, rep, times=3):
    out = ""
    for _ in range(times):
        bad, o = replay_once(r, rep)
        if not bad:
            return None
        out = o
    return out


def consts(r):
    return [int(x) for x in open(os.path.join(r.work, "consts")).read().split()]


def establish(r, f):
    """From a failing shard to a confirmed, small replay record."""
    t, pr = f.task, f.progress
    base = {"property": r.prop, "seed": r.seed, "tier": r.tier, "cfg": t["cfg"], "why": f.why, "message": pr["msg"]}
    out = None
    rep = None
    if pr["mode"] != 2 and pr["rec"] is not None:
        for cfg in ([t["cfg"]] if t["cfg"] != "fuzz" else BUILDS["quick"]):
            rep = dict(base, kind="bytes", cfg=cfg, bytes=pr["rec"].hex())
            out = confirm(r, rep)
            if out is not None:
                break
        if out is not None and rep["cfg"] != "fuzz":
            a, b = os.path.join(r.work, "shrink.in"), os.path.join(r.work, "shrink.out")
            open(a, "wb").write(pr["rec"])
            if os.path.exists(b):
                os.remove(b)
            budget = 20 if r.tier == "quick" else 60
            subprocess.run([r.bins[rep["cfg"]], "shrink", "--in", a, "--out", b, "--budget", str(budget)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=r.env(), cwd=r.work)
            if os.path.exists(b):
                small = dict(rep, bytes=open(b, "rb").read().hex())
                o = confirm(r, small)
                if o is not None:
                    small["unshrunk_size"] = len(pr["rec"])
                    return small, o
    if out is None and t["mode"] in ("run", "enum") and pr["mode"] in (1, 2):
        kind = "enum" if pr["mode"] == 2 else "gen"
        rep = dict(base, kind=kind, start=pr["idx"], end=pr["idx"], stride=1, consts=consts(r))
        out = confirm(r, rep)
        if out is None:  # depends on the cases before it
            rng = dict(rep, kind="enumrange" if kind == "enum" else "range", start=t["start"], stride=t["stride"])
            out = confirm(r, rng)
            if out is not None:
                rep = rng
                back = 1
                while pr["idx"] - back * t["stride"] > t["start"]:
                    cand = dict(rng, start=pr["idx"] - back * t["stride"])
                    o = confirm(r, cand, 2)
                    if o is not None:
                        rep, out = cand, o
                        break
                    back *= 2
    if out is None and t["mode"] == "fuzz" and pr["mode"] == 3:
        rep = dict(base, kind="fuzzjob", task=t, bytes=pr["rec"].hex())
        out = confirm(r, rep, 1)
    if out is None and t["mode"] in ("run", "enum"):  # in the repetitions for the samples, after all cases
        rep = dict(base, kind="job", task=t, consts=consts(r))
        out = confirm(r, rep, 2)
    if out is None and t["mode"] in ("run", "enum") and pr["mode"] in (1, 2):
        # shows only now and then (it depends on addresses or stale memory): it must show again on its own
        kind = "enumrange" if pr["mode"] == 2 else "range"
        rep = dict(base, kind="flaky", inner=kind, tries=12, start=t["start"], end=t["end"] - 1 if pr["mode"] == 2 else pr["idx"], stride=t["stride"], consts=consts(r))
        out = confirm(r, rep, 1)
    if out is None:
        return None, f.output
    return rep, out


def describe(out):
    fails = re.findall(r"^FAIL: .*$", out, re.M) or re.findall(r"^.*ERROR: AddressSanitizer: .*$|^.*runtime error: .*$", out, re.M)
    case = re.findall(r"^CASE: .*$", out, re.M)
    return (fails[-1] if fails else out.strip().split("\n")[-1][:300]), (case[-1] if case else "")


# ---- main ------------------------------------------------------------------------------
def merge_stats(results):
    tot = {"cases": 0, "evals": 0, "nontrivial": 0, "labels": {}, "samples": []}
    for s in results:
        for k in ("cases", "evals", "nontrivial"):
            tot[k] += s[k]
        for l, n in s["labels"].items():
            tot["labels"][l] = tot["labels"].get(l, 0) + n
        tot["samples"] += s["samples"]
    return tot


def run_check(prop, tier, seed):
    t0 = time.monotonic()
    work = os.path.join(HERE, "build", "%s-%s-%d" % (prop, tier, os.getpid()))
    os.makedirs(work)
    try:
        bins = build(prop, work, BUILDS[tier])
        scrape_constants(os.path.join(work, "consts"))
        info = json.loads(sh([bins["o2"], "info"]).stdout)
        t1 = time.monotonic()
        budget = float(os.environ.get("IM_BUDGET", "480" if tier == "quick" else "2400"))
        r = Runner(prop, work, bins, seed, tier, t0 + budget)
        tasks = plan(prop, info, tier, seed)
        results, failure, broken = [], None, None
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = {ex.submit(r.task, t): t for t in tasks}
            try:
                for fu in cf.as_completed(futs):
                    try:
                        s = fu.result()
                        if s:
                            s["task"] = futs[fu]
                            results.append(s)
                    except Failure as f:
                        if failure is None:
                            failure = f
                        r.kill_all()
                    except Broken as b:
                        broken = broken or b
                        r.kill_all()
            except BaseException:
                r.kill_all()
                raise
        code, violations = 0, 0
        if failure is not None:
            r.stop.clear()
            rep, out = establish(r, failure)
            if rep is None:
                raise Broken("a failure could not be reproduced (%s)\n%s" % (failure.why, out))
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            what, case = describe(out)
            rep["failure"], rep["case"] = what, case
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
            with open(path, "w") as fp:
                json.dump(rep, fp, indent=1)
                fp.write("\n")
            log(what)
            log(case[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            code, violations = 1, 1
        elif broken is not None:
            raise broken
        stages = {}
        for mode in ("enum", "run", "fuzz"):
            tot = merge_stats([s for s in results if s["task"]["mode"] == mode])
            stages[mode] = tot
        hashes = [s["hash"] for s in results if os.path.exists(s["hash"])]
        distinct = int(sh([bins["o2"], "merge"] + hashes).stdout) if hashes else 0
        labels = {}
        for st in stages.values():
            for l, n in st["labels"].items():
                labels[l] = labels.get(l, 0) + n
        samples = (stages["run"]["samples"][:6] + stages["enum"]["samples"][:2]) or ["(no case finished)"]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(st["evals"] for st in stages.values()),
                "distinct_nontrivial": distinct,
                "rule": info["rule"],
                "samples": samples,
                "cases_enumerated_batches": stages["enum"]["cases"],
                "cases_random": stages["run"]["cases"],
                "cases_fuzzed": stages["fuzz"]["cases"],
                "nontrivial_not_deduplicated": sum(st["nontrivial"] for st in stages.values()),
                "random_cases_per_build": {cfg: sum(s["cases"] for s in results if s["task"]["mode"] == "run" and s["task"]["cfg"] == cfg) for cfg, _ in SHARE[tier]},
                "labels": dict(sorted(labels.items())),
                "shards_skipped_for_time": r.skipped,
            },
            "assumptions": [
                "64-bit Linux builds of /repo by clang 18 (-O0; -O1 with AddressSanitizer) and gcc 13 (-O2; in the thorough tier also with unsigned plain char) stand for the library",
                "inputs outside the generated sizes behave like those inside",
                "the harness's reference model states the property correctly",
            ],
            "wall_s": round(time.monotonic() - t0, 2),
            "build_s": round(t1 - t0, 2),
            "violations": violations,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
        log("%s: %s, %d evaluations, %d distinct non-trivial, %.1f s" % (prop, "VIOLATED" if code else "held", ev["coverage"]["evaluations"], distinct, ev["wall_s"]))
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_replay(path):
    rep = json.load(open(path))
    prop = rep["property"]
    work = os.path.join(HERE, "build", "%s-replay-%d" % (prop, os.getpid()))
    os.makedirs(work)
    try:
        bins = build(prop, work, ["san", "fuzz"] if rep["cfg"] == "fuzz" else [rep["cfg"]])
        scrape_constants(os.path.join(work, "consts"))
        r = Runner(prop, work, bins, rep["seed"], rep["tier"], time.monotonic() + 600)
        bad, out = replay_once(r, rep)
        what, case = describe(out)
        log(what)
        log(case)
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        log("%s: the recorded case holds" % prop)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest():
    """Everything compiles here: the engine, each harness and the library."""
    work = os.path.join(HERE, "build", "selftest-%d" % os.getpid())
    os.makedirs(work)
    try:
        incs = ["-I" + d for d in include_dirs()]
        ids = [os.path.basename(f)[:-4] for f in tree(HARNESS, (".cpp",)) if not f.endswith("engine.cpp")]

        def one(i):
            r = sh(["clang++", "-std=c++17", "-fsyntax-only"] + incs + [os.path.join(HARNESS, i + ".cpp")])
            if r.returncode:
                raise Broken("%s does not compile\n%s" % (i, r.stdout.decode("utf-8", "replace")[-2000:]))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, ids))
        build(ids[0], work, BUILDS["thorough"])
        log("%d harnesses compile" % len(ids))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="compile every harness and the library once")
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(4))
    try:
        if a.selftest:
            return selftest()
        if a.replay:
            return run_replay(a.replay)
        if not a.property or not os.path.exists(os.path.join(HARNESS, a.property + ".cpp")):
            raise Broken("no such property: %s" % a.property)
        return run_check(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    except Broken as b:
        log("BROKEN: %s" % b)
        return 2


if __name__ == "__main__":
    sys.exit(main())
