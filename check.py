#!/usr/bin/env python3
"""Build and run the model checker of one property against /repo's current working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--budget S] [--jobs N]
exit 0: held on everything explored; exit 1: VIOLATION line printed; anything else: error of the check.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
INC = ["zlib", "src", "generated", "src/gdlib", "src/global", "src/rtl"]

# variants of the build of the code under test
VARIANTS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O2", "-g1"],
    "inst": ["-O1", "-g1", "-fsanitize=thread"],   # instrumented memory accesses, our own runtime (P19)
}

sys.path.insert(0, os.path.join(VERIF, "lib"))
from props import PROPS  # noqa: E402


def repo_sources():
    """Library sources of the tree: everything in src/, src/gdlib, src/rtl (robust against added files)."""
    out = []
    for d in ("src", "src/gdlib", "src/rtl"):
        for pat in ("*.cpp", "*.c"):
            out += sorted(glob.glob(os.path.join(REPO, d, pat)))
    return out


def tree_hash():
    """Hash of everything that a source file may include: all files but the sources themselves, or, when a source file includes
    another one, all files."""
    h, sources = hashlib.sha256(), []
    for d in ("src", "generated", "zlib"):
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", ".git"))
            for f in sorted(fs):
                with open(os.path.join(root, f), "rb") as fh:
                    c = fh.read()
                if f.endswith((".c", ".cpp")):
                    sources.append(c)
                    c = re.search(rb'(?m)^[ \t]*#[ \t]*include[ \t]*[<"][^>"]*\.(c|cpp)[>"]', c) and b"included"
                h.update((root + "/" + f).encode() + b"\0" + (c or b"") + b"\0")
                if c == b"included":
                    sources.insert(0, None)
    if None in sources:
        for c in sources:
            h.update(c or b"")
    return h.hexdigest()


def run_cmd(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd


def compile_one(src, obj, flags):
    if os.path.exists(obj):
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    is_c = src.endswith(".c")
    cc = ["gcc"] if is_c else ["g++", "-std=c++17"]
    incs = ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + os.path.join(VERIF, "lib")]
    defs = ["-DNDEBUG", "-w"] + (["-DGC_NO_MUTEX", "-DZ_HAVE_UNISTD_H"] if is_c else [])
    tmp = obj + ".tmp%d.o" % os.getpid()
    rc, out, cmd = run_cmd(cc + flags + defs + incs + ["-c", src, "-o", tmp])
    if rc:
        return "compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), out)
    os.rename(tmp, obj)
    return None


def build(prop, cfg):
    """Compile the code under test and the harness; returns the path of the executable."""
    variant = cfg.get("variant", "asan")
    flags = VARIANTS[variant] + cfg.get("cflags", [])
    thash = tree_hash()
    objdir = os.path.join(CACHE, "obj")
    jobs, objs = [], []

    def add(src, fl, deps=""):
        with open(src, "rb") as fh:
            k = hashlib.sha256((thash + repr(fl) + src + deps).encode() + fh.read()).hexdigest()[:24]
        o = os.path.join(objdir, os.path.basename(src) + "." + k + ".o")
        objs.append(o)
        jobs.append((src, o, fl))

    srcs = repo_sources() if cfg.get("lib", True) else []
    srcs += [os.path.join(REPO, s) for s in cfg.get("repo_extra", [])]
    for s in srcs:
        if not any(s.endswith(x) for x in cfg.get("exclude", [])):
            add(s, flags)
    # a command line tool linked into the checker: its main becomes tool_main, the C interface is served by this process
    if cfg.get("capi") or cfg.get("tool"):
        tinc = ["-I" + REPO, "-I" + os.path.join(REPO, "src/tools")]
        add(os.path.join(REPO, "generated/gdxcc.c"), flags + ["-Ddlopen=verif_dlopen", "-Ddlclose=verif_dlclose", "-DgdxSetLoadPath=cc_gdxSetLoadPath", "-DgdxGetLoadPath=cc_gdxGetLoadPath"])
        add(os.path.join(REPO, "generated/gdxcclib.cpp"), flags + ["-DGDX_INLINE=inline __attribute__((always_inline))"])
        if cfg.get("tool"):
            for s in sorted(glob.glob(os.path.join(REPO, "src/tools/library/*.cpp"))):
                add(s, flags + tinc)
            # several tools in one checker: a main of its own for each
            many = isinstance(cfg["tool"], list)
            for t in cfg["tool"] if many else [cfg["tool"]]:
                for s in sorted(glob.glob(os.path.join(REPO, "src/tools", t, "*.cpp"))):
                    add(s, flags + tinc + ["-Dmain=" + ("tool_main_" + t if many else "tool_main")])
    hsrc = [os.path.join(VERIF, "harness", x) for x in cfg.get("harness", [prop + ".cpp"])]
    hdeps = sorted(glob.glob(os.path.join(VERIF, "lib", "*.hpp"))) + sorted(glob.glob(os.path.join(VERIF, "harness", prop + "*.[hi]*")))
    hh = hashlib.sha256()
    for f in hdeps:
        hh.update(open(f, "rb").read())
    for s in hsrc:
        add(s, cfg.get("hflags", flags), hh.hexdigest())
    hdir = os.path.join(CACHE, prop + "-" + hashlib.sha256((repr(objs) + repr(flags) + repr(cfg.get("ldflags"))).encode()).hexdigest()[:24])
    os.makedirs(hdir, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(*j), sorted(jobs, key=lambda j: -os.path.getsize(j[0]))) if e]
    if errs:
        print("\n".join(errs), file=sys.stderr)
        return None
    exe = os.path.join(hdir, prop)
    if not os.path.exists(exe):
        link = [f for f in flags if f.startswith(("-fsanitize", "-O", "-g"))] if variant != "inst" else ["-O1"]
        rc, out, cmd = run_cmd(["g++"] + link + objs + ["-o", exe + ".tmp"] + cfg.get("ldflags", []) + (["-rdynamic"] if cfg.get("capi") or cfg.get("tool") else []) + ["-lz", "-ldl", "-lpthread", "-lm"])
        if rc:
            print("linking failed:\n%s\n%s" % (" ".join(cmd), out), file=sys.stderr)
            return None
        os.rename(exe + ".tmp", exe)
    return exe


def known_findings(prop):
    """KNOWN_FINDINGS.txt: lines 'known: property=P13 sig=<signature> <what fails>' (fixed: lines suppress nothing)."""
    out = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    cfg = PROPS[prop]
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    exe = build(prop, cfg)
    if not exe:
        return 2
    env = dict(os.environ)
    for v in ("GDXCOMPRESS", "GDXCONVERT", "GAMSDIR"):
        env.pop(v, None)
    env["TZ"] = "UTC"
    env["LC_ALL"] = "C.UTF-8"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=16384:malloc_fill_byte=190:detect_stack_use_after_return=0:handle_abort=1:symbolize=0" + cfg.get("asan_options", "")
    if a.build_only:
        print("built", exe, "%.1fs" % (time.time() - t0))
        return 0
    build_s = time.time() - t0
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
    out = tempfile.mkdtemp(prefix="verif-out-%s-" % prop)
    try:
        kf = known_findings(prop)
        cmd = [exe, "--out", out, "--scratch", scratch, "--jobs", str(a.jobs)]
        budget = a.budget or (cfg.get("budget_thorough", 3600) if tier == "thorough" else cfg.get("budget_quick", 300))
        cmd += ["--budget", str(budget)]
        if tier == "thorough":
            cmd.append("--thorough")
        if a.only:
            cmd += ["--only", a.only]
        for sig, _ in kf:
            cmd += ["--known", sig]
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        p = subprocess.run(cmd, env=env, cwd=scratch)
        rc = p.returncode
        if a.replay:
            return rc
        stats = None
        if os.path.exists(os.path.join(out, "stats.json")):
            stats = json.load(open(os.path.join(out, "stats.json")))
        if rc not in (0, 1) or stats is None:
            print("check error: harness exit %s" % rc, file=sys.stderr)
            return 2
        samples = []
        for f in sorted(glob.glob(os.path.join(out, "samples-*"))):
            samples += [l.strip() for l in open(f, errors="replace")][:4]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        viols = sorted(glob.glob(os.path.join(out, "violation-*.txt")))
        replay = None
        if viols:
            replay = os.path.join(VERIF, "evidence", prop + ".replay.txt")
            shutil.copy(viols[0], replay)
        ev = {
            "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": cfg.get("level", "model_checking"),
            "coverage": {
                "states": stats["states"], "transitions": stats["transitions"],
                "traces_validated_against_impl": stats["executions"],
                "distinct_outcomes": stats["outcomes"], "pruned": stats["pruned"],
                "exhaustive": not stats["capped"] and not viols,
                "capped": stats["capped"], "unreproduced": stats["unreproduced"],
                "scenarios": stats["scenarios"], "known_findings_hit": stats["known"],
                "samples": samples[:24] or ["(none)"],
                "method": "every choice sequence within the bounds below is executed on the real code built from /repo; each execution is one model trace compared step by step with the reference model",
            },
            "assumptions": stats["assumptions"] + ["build: %s, NDEBUG, gcc on linux x86_64" % cfg.get("variant", "asan"),
                                                   "build time %.1f s" % build_s],
            "wall_s": round(time.time() - t0, 2), "violations": len(viols),
        }
        if ev["level"] in ("exploration", "fault_enumeration"):
            ev["coverage"]["evaluations"] = stats["executions"]
            ev["coverage"]["distinct_nontrivial"] = stats["states"]
            ev["coverage"]["rule"] = cfg.get("rule", "every fault / crash point of every enumerated history; non-trivial: distinct (history, point, observed outcome)")
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        for sig, what in kf:
            if stats["known"].get(sig):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if viols:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0
    finally:
        for d in (scratch, out):
            if os.path.isabs(d) and "verif-" in d:
                shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
