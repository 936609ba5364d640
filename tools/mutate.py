#!/usr/bin/env python3
"""Self-evaluation of the checks (not used by any check): mutates one source file of a scratch copy of the tree, drops
mutants that do not compile or fail the unit tests, and runs the quick checks on the others until one reports a violation.

  mutate.py FILE N SEED OUT.jsonl P01,P02,...     FILE relative to the tree; the copy is made under /tmp
"""
import json, os, random, re, shutil, subprocess, sys, time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE, N, SEED, OUT, PROPS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5].split(",")
TOP = "/tmp/mut-%d" % os.getpid()
WORK = TOP + "/repo"

RULES = [(r"(?<![<\-=])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![>\-=])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\+\+", "--"), (r"if\( ", "if( !( "), (r"\+=", "-="), (r"DELETE", "")]


def candidates(lines):
    out = []
    incomment = False
    for i, ln in enumerate(lines):
        s = ln.strip()
        if s.startswith("/*"):
            incomment = True
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "namespace", "static_assert", "assert")):
            continue
        code = ln.split("//")[0]
        code_ns = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), code)
        for pat, rep in RULES:
            if pat == "DELETE":
                if re.match(r"^\s+[A-Za-z_][\w\->.\[\]() +*,&:]*( [+\-|&]?= .*|\(.*\));\s*$", code_ns) and not re.match(r"^\s*(return|const|auto|int|bool|double|std::|char|uint)", code_ns):
                    out.append((i, pat, None))
                continue
            if pat == r"if\( ":
                m = re.search(r"if\( (.*) \)(.*)$", code_ns)
                if m and code_ns.count("if(") == 1:
                    out.append((i, pat, (m.start(1), m.end(1))))
                continue
            for m in re.finditer(pat, code_ns):
                if re.search(r"template|operator|<\w+>|std::(array|vector|map|unique)", code_ns):
                    continue
                out.append((i, pat, (m.start(), m.end(), rep)))
    return out


def apply(lines, c):
    i, pat, x = c
    l = list(lines)
    if pat == "DELETE":
        l[i] = "\n"
    elif pat == r"if\( ":
        l[i] = l[i][: x[0]] + "!( " + l[i][x[0]: x[1]] + " )" + l[i][x[1]:]
    else:
        l[i] = l[i][: x[0]] + x[2] + l[i][x[1]:]
    return l


def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def unit_tests(link, cmds, obj):
    """Builds and runs the project's unit tests with the mutated sources in front of the library."""
    objs = []
    for c in cmds:
        cmd = [a.replace(REPO + "/", WORK + "/") for a in c["command"].split()]
        cmd = ["-O0" if a == "-O2" else a for a in cmd]
        o = os.path.join(obj, os.path.basename(c["file"]) + ".o")
        i = cmd.index("-o")
        cmd[i + 1] = o
        if "-MF" in cmd:
            i = cmd.index("-MF")
            del cmd[i: i + 2]
            i = cmd.index("-MT")
            del cmd[i: i + 2]
            cmd.remove("-MD")
        rc, out = sh(cmd)
        if rc:
            return "nocompile"
        objs.append(o)
    l = [x for x in link.split("&&") if "-o gdxtest" in x][0].replace("libgdx-static.a", " ".join(objs) + " libgdx-static.a").replace("-o gdxtest", "-o " + obj + "/gdxtest")
    rc, out = sh(["bash", "-c", l], cwd=REPO + "/build")
    if rc:
        return "nolink"
    env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", LD_LIBRARY_PATH=REPO + "/build")
    rc, out = sh([obj + "/gdxtest"], cwd=obj + "/gdx", timeout=60, env=env)
    return "ok" if rc == 0 else "tests"


def main():
    shutil.rmtree(TOP, ignore_errors=True)
    os.makedirs(TOP + "/t/gdx")
    subprocess.check_call(["git", "clone", "-q", REPO, WORK])
    subprocess.check_call(["git", "clone", "-q", VERIF, TOP + "/verif"])
    path = os.path.join(WORK, FILE)
    orig = open(path).readlines()
    cands = candidates(orig)
    random.Random(SEED).shuffle(cands)
    cc = json.loads(subprocess.check_output(["ninja", "-C", REPO + "/build", "-t", "compdb"]))
    link = [c["command"] for c in cc if c["output"] == "gdxtest"][0]
    srcs = [FILE] if FILE.endswith(".cpp") else ["src/gxfile.cpp", "src/gdlib/gmsstrm.cpp"]
    cmds = [c for c in cc if any(c["file"].endswith("/" + f) for f in srcs) and "gdx-static" in c["output"]]
    out, done, stats = open(OUT, "a"), 0, {}
    for c in cands:
        if done >= N:
            break
        mut = apply(orig, c)
        open(path, "w").writelines(mut)
        st = unit_tests(link, cmds, TOP + "/t") if cmds else "ok"
        stats[st] = stats.get(st, 0) + 1
        if st == "ok":
            done += 1
            judge(c, orig, mut, out)
        open(path, "w").writelines(orig)
    print(FILE, stats)
    shutil.rmtree(TOP, ignore_errors=True)


def judge(c, orig, mut, out):
    caught, t0, detail = None, time.time(), ""
    for p in PROPS:
        rc, o = sh([sys.executable, "check.py", p], cwd=TOP + "/verif", timeout=600, env=dict(os.environ, VERIF_REPO=WORK))
        if rc == 1 and "VIOLATION property" in o:
            caught = p
            m = re.search(r"sig=(\S+) msg=(.{0,120})", o)
            detail = m.group(0) if m else ""
            break
        if rc not in (0, 1):
            detail += "%s rc=%d " % (p, rc)
    for d in os.listdir(TOP + "/verif/.cache"):
        if d != "obj":
            shutil.rmtree(TOP + "/verif/.cache/" + d, ignore_errors=True)
    b = os.path.basename(FILE)
    for o in os.listdir(TOP + "/verif/.cache/obj"):
        if o.startswith(b + ".") or FILE.endswith(".hpp"):
            os.unlink(TOP + "/verif/.cache/obj/" + o)
    r = {"file": FILE, "line": c[0] + 1, "rule": c[1], "old": orig[c[0]].strip(), "new": mut[c[0]].strip(), "caught": caught, "detail": detail, "secs": round(time.time() - t0)}
    out.write(json.dumps(r) + "\n")
    out.flush()
    print(("caught by " + caught) if caught else "SURVIVED", FILE, c[0] + 1, "|", r["old"], "|->|", r["new"], flush=True)


if __name__ == "__main__":
    main()
