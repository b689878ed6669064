"""Shared driver for the static checks: builds the analyser, compiles /repo's current
sources to LLVM bitcode, runs one analysis, applies the known-findings file, writes the
evidence and prints the verdict."""
import json, os, re, subprocess, sys, tempfile, time, hashlib, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "ta-lib-rt", "c")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang-18"


class Broken(Exception):
    """The analysis could not be carried out (exit 2): never a pass, never a violation."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r.returncode, r.stdout, r.stderr


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out, err = sh(["make", "-s", "-j8", "-C", os.path.join(VERIF, "tool"), "B=" + BUILD])
        if rc:
            raise Broken("cannot build the analyser:\n" + out + err)
    return os.path.join(BUILD, "talint")


def sources():
    """The translation units of the C library, from its own CMake list."""
    cm = open(os.path.join(SRC, "CMakeLists.txt")).read()
    cm = re.sub(r"#.*", "", cm)
    files = re.findall(r"\$\{ta-lib-rt_SOURCE_DIR\}/c/(src/[\w./]+\.c)", cm)
    files = sorted(set(files))
    missing = [f for f in files if not os.path.exists(os.path.join(SRC, f))]
    # ta_func_api.c is generated by the build from ta_func_api.xml; it only holds that
    # text as a byte array and is left out of the analysed program.
    missing = [f for f in missing if not f.endswith("ta_func_api.c")]
    if missing:
        raise Broken("sources listed by the build are missing: %s" % missing[:5])
    files = [f for f in files if not f.endswith("ta_func_api.c")]
    if len(files) < 150:
        raise Broken("only %d sources found in CMakeLists.txt" % len(files))
    return files


def config_dir(work):
    """ta_config.h is generated by cmake; when absent use an equivalent stand-in."""
    if os.path.exists(os.path.join(SRC, "include", "ta_config.h")):
        return []
    d = os.path.join(work, "cfg")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(SRC, "include", "ta_config.h.cmake")).read()
    out = []
    for m in re.finditer(r"#cmakedefine\s+(\w+)", t):
        if m.group(1).startswith("HAVE_"):
            out.append("#define %s 1" % m.group(1))
    open(os.path.join(d, "ta_config.h"), "w").write("\n".join(out) + "\n")
    return ["-I", d]


def incs(work):
    return ["-I", SRC + "/include", "-I", SRC + "/src/ta_common", "-I", SRC + "/src/ta_func",
            "-I", SRC + "/src/ta_abstract", "-I", SRC + "/src/ta_abstract/frames"] + config_dir(work)


def compile_all(work, extra=()):
    files = sources()
    inc = incs(work)
    outs = []

    def one(f):
        o = os.path.join(work, f.replace("/", "_")[:-2] + ".bc")
        cmd = [CLANG, "-w", "-std=gnu17", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-emit-llvm", "-c",
               "-fno-discard-value-names", *inc, *extra, os.path.join(SRC, f), "-o", o]
        rc, out, err = sh(cmd)
        return o, rc, err, f
    with ThreadPoolExecutor(8) as ex:
        for o, rc, err, f in ex.map(one, files):
            if rc:
                raise Broken("cannot compile %s:\n%s" % (f, err[:2000]))
            outs.append(o)
    return outs, files


def public_api(work):
    """Names declared by the installed headers."""
    t = os.path.join(work, "api.c")
    open(t, "w").write('#include "ta_libc.h"\n')
    rc, out, err = sh([CLANG, "-E", "-P", *incs(work), t])
    if rc:
        raise Broken("cannot preprocess ta_libc.h: " + err[:500])
    names = sorted(set(re.findall(r"\b(TA_\w+)\s*\(", out)))
    p = os.path.join(work, "api.txt")
    open(p, "w").write("\n".join(names) + "\n")
    return p, names


class Work:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="talint.")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def analyse(check, work, env=None):
    tool = build_tool()
    bcs, files = compile_all(work)
    api, names = public_api(work)
    out = os.path.join(work, "out.json")
    e = dict(os.environ)
    if env:
        e.update(env)
    rc, so, se = sh([tool, check, api, out] + bcs, env=e)
    if rc:
        raise Broken("analyser failed (%d): %s" % (rc, se[-3000:]))
    r = json.load(open(out))
    r["files"] = len(files)
    r["stderr"] = se
    return r


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """Lines: <property> <rule> <function> <instance> -- description   (finding)
              fixed: property=<id> <commit> <what failed>              (ignored)"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            head, _, desc = line.partition(" -- ")
            f = head.split(None, 3)
            if len(f) == 4 and f[0] == pid:
                res[(f[1], f[2], f[3])] = desc
    return res


def finish(pid, violations, coverage, level, assumptions, t0, tier, minimum=None):
    """Prints the verdict, writes evidence; returns the exit code."""
    for k, lo in ({} if violations else minimum or {}).items():
        if coverage.get("counts", {}).get(k, 0) < lo:
            raise Broken("analysis covered only %s=%s (confirmed by hand: at least %s)" %
                         (k, coverage.get("counts", {}).get(k, 0), lo))
    known = known_findings(pid)
    new, old = [], {}
    for v in violations:
        key = (v["rule"], v["func"], v["instance"].replace(" ", "_"))
        if key in known:
            old.setdefault(key, []).append(v)
        else:
            new.append(v)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s %s %s: %s" % (pid, k[0], k[1], k[2], known[k]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join("evidence", pid + ".violations.txt")
    rp = os.path.join(VERIF, replay)
    if new:
        with open(rp, "w") as f:
            for v in new:
                f.write("%s:%s: [%s] %s (%s): %s\n" % (v["file"], v["line"], v["rule"], v["func"], v["instance"], v["msg"]))
    elif os.path.exists(rp):
        os.remove(rp)
    cov = dict(coverage)
    cov["known_findings"] = len(old)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    if new:
        ev["replay"] = replay
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        for v in new[:40]:
            print("%s:%s: [%s] in %s: %s" % (v["file"], v["line"], v["rule"], v["func"], v["msg"]))
        if len(new) > 40:
            print("... %d more" % (len(new) - 40))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("OK property=%s %s" % (pid, json.dumps(coverage.get("counts", {}), sort_keys=True)))
    return 0
