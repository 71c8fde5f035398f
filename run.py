#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks: run.py <property> (VERIF_SEED, VERIF_TIER from the environment).

Builds the harness of the property from /repo's working tree with sanitizers, runs its workload in
parallel shards, attributes crashes and hangs to cases, and writes evidence/<property>.json.
Exit 0: held; 1: VIOLATION line(s) printed; 2: the check itself could not decide.
"""
import concurrent.futures as cf, fcntl, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    sys.argv.remove("--thorough")
    TIER = "thorough"
THOROUGH = TIER == "thorough"
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, VERIF)
from checks import CHECKS, LIBS  # noqa: E402

T0 = time.time()


class Broken(Exception):
    """the check itself failed; exit 2"""


# ---------------------------------------------------------------------------------------- build
BASE = ["-std=c++17", "-g1", "-fPIC", "-I" + REPO + "/include", "-I" + H + "/json11", "-isystem", "/usr/include/jsoncpp",
        "-isystem", "/usr/include/x86_64-linux-gnu/qt6", "-isystem", "/usr/include/x86_64-linux-gnu/qt6/QtCore",
        "-DPICOJSON_USE_INT64"]
EXC = ["-DVALIJSON_USE_EXCEPTIONS=1"]
ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-D_GLIBCXX_ASSERTIONS", "-fno-sanitize-recover=all", "-fno-sanitize=pointer-overflow",
        "-fsanitize-ignorelist=" + H + "/ignore.txt"]
VARIANTS = {
    "asan": (EXC + ASAN, ["-fsanitize=address,undefined"]),
    "tsan": (EXC + ["-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": (EXC, []),
    "noexc": (["-DVALIJSON_USE_EXCEPTIONS=0"] + ASAN, ["-fsanitize=address,undefined"]),
}
LDLIBS = {"jsoncpp": ["-ljsoncpp"], "yaml": ["-lyaml-cpp"], "poco": ["-lPocoJSON", "-lPocoFoundation"],
          "qtjson": ["-lQt6Core"], "qvariant": ["-lQt6Core"]}


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", H):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith((".hpp", ".h", ".cpp", ".txt", ".inc")):
                    continue
                p = os.path.join(d, f)
                if root == H and f.endswith(".cpp"):
                    continue
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def compile_one(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        return "compiling %s failed:\n%s" % (src, p.stderr[-3000:])
    os.replace(tmp, obj)
    return None


_tree = None


def build(binary):
    """binary: dict(main, libs, variant, opt, defs, extra sources) -> path of the executable"""
    global _tree
    _tree = _tree or tree_hash()
    variant = binary.get("variant", "asan")
    cflags, lflags = VARIANTS[variant]
    opt = binary.get("opt") or ("-O1" if THOROUGH else "-O0")
    cmd = ["clang++", opt] + BASE + cflags + binary.get("cflags", [])
    out = os.path.join(BUILD, variant + opt)
    os.makedirs(out, exist_ok=True)
    srcs = [os.path.join(H, binary["main"] + ".cpp")]
    for s in binary.get("extra", []):
        srcs.append(s if os.path.isabs(s) else os.path.join(H, s + ".cpp"))
    for l in binary.get("libs", []):
        srcs.append(os.path.join(H, "lib_%s.cpp" % l))
    jobs, objs = [], []
    base = cmd
    for s in srcs:
        # the workload generators and oracles are optimised in the quick tier, too; they do not include the code under test
        own = binary.get("libs") and not os.path.basename(s).startswith("lib_") and opt == "-O0" and not binary.get("direct")
        cmd = ["-O1" if own and x == "-O0" else x for x in base]
        key = hashlib.sha256((_tree + " ".join(cmd)).encode() + open(s, "rb").read()).hexdigest()[:20]
        o = os.path.join(out, os.path.basename(s)[:-4] + "-" + key + ".o")
        objs.append(o)
        jobs.append((s, o, cmd))
    # slow ones first
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise Broken("\n".join(errs))
    exe = os.path.join(out, binary["main"] + "-" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20])
    if not os.path.exists(exe):
        ld = []
        for l in binary.get("libs", []):
            for x in LDLIBS.get(l, []):
                if x not in ld:
                    ld.append(x)
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run(["clang++"] + lflags + objs + ["-o", tmp] + ld + binary.get("ld", []) + ["-pthread"], capture_output=True, text=True)
        if p.returncode:
            raise Broken("linking %s failed:\n%s" % (binary["main"], p.stderr[-3000:]))
        os.replace(tmp, exe)
    return exe


def prune():
    """keep the object cache small: drop what was not used for the current tree, when it grows"""
    try:
        tot = []
        for d, _, fs in os.walk(BUILD):
            for f in fs:
                p = os.path.join(d, f)
                st = os.stat(p)
                tot.append((st.st_mtime, st.st_size, p))
        tot.sort(reverse=True)
        size = 0
        for m, s, p in tot:
            size += s
            if size > 4 << 30:
                os.unlink(p)
    except OSError:
        pass


# ---------------------------------------------------------------------------------------- run
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:max_allocation_size_mb=4000:symbolize=1:handle_abort=1:quarantine_size_mb=32"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4"
ENV["LC_ALL"] = "C.UTF-8"


class Shard:
    def __init__(self, stage, exe, k, lo, hi):
        self.stage, self.exe, self.k, self.lo, self.hi = stage, exe, k, lo, hi
        self.viols, self.done, self.note = [], None, None


def run_shard(sh):
    st = sh.stage
    scratch = os.path.join(BUILD, "run-%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    lo = sh.lo
    sh.results = []
    for attempt in range(4):      # after a crash, go on behind the crashing case (so that one known crash does not hide the rest)
        if lo >= sh.hi:
            break
        prog = os.path.join(scratch, "%s-%d-%d" % (st["name"], sh.k, attempt))
        cmd = st.get("wrap", []) + [sh.exe, "--seed", str(SEED), "--from", str(lo), "--to", str(sh.hi), "--mode", st.get("mode", ""), "--progress", prog]
        if THOROUGH:
            cmd.append("--thorough")
        cmd += st.get("args", [])
        env = dict(ENV)
        env["VH_SCRATCH"] = scratch
        env["VH_REPO"] = REPO
        env.update(st.get("env", {}))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, start_new_session=True)
        try:
            out, err = p.communicate(timeout=st.get("timeout", 5400 if THOROUGH else 330))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
        out = out.decode("utf-8", "replace")
        err = err.decode("utf-8", "replace")
        idx = None
        try:
            with open(prog, "rb") as f:
                v = struct.unpack("<Q", f.read(8))[0]
                idx = v - 1 if v else None
        except (OSError, struct.error):
            pass
        done = None
        for line in out.splitlines():
            if line.startswith("VIOL "):
                d = json.loads(line[5:])
                d["cmd"] = replay_cmd(sh, d["case"])
                sh.viols.append(d)
            elif line.startswith("DONE "):
                done = json.loads(line[5:])
                sh.results.append(done)
        if rc == 0 and done:
            return sh
        if rc == -9 or (rc == 0 and not done) or rc == 3:
            raise Broken("%s shard %d ended with %s: %s" % (st["name"], sh.k, rc, err[-1500:]))
        if idx is None or idx >= sh.hi:
            if rc == "timeout":
                raise Broken("%s shard %d: no case started within the time limit" % (st["name"], sh.k))
            # crashed outside any case (start-up or final summary): the whole shard is the witness
            sh.viols.append({"key": "crash:%s:end" % st["name"], "case": idx if idx is not None else -1,
                             "detail": "crashed outside a case (exit %s)\n%s" % (rc, tail(err)), "cmd": " ".join(cmd)})
            return sh
        # confirm on the single case
        one = cmd[:]
        one[one.index("--from") + 1] = str(idx)
        one[one.index("--to") + 1] = str(idx + 1)
        kind = "hang" if rc == "timeout" else "crash"
        p = subprocess.Popen(one, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, start_new_session=True)
        try:
            out1, err1 = p.communicate(timeout=st.get("single_timeout", 600 if THOROUGH else 100))
            rc1 = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out1, err1 = p.communicate()
            rc1 = "timeout"
        if rc1 == -9:
            raise Broken("%s case %d: killed" % (st["name"], idx))
        if kind == "hang" and rc1 == 0:
            raise Broken("%s shard %d ran out of time without hanging in one case" % (st["name"], sh.k))
        sh.viols.append({"key": "%s:%s" % (kind, st["name"]) + (":%d" % idx if st.get("fixed") else ""), "case": idx,
                         "detail": "%s in case %d (exit %s, alone: %s)\n%s" % (kind, idx, rc, rc1, tail(err)),
                         "cmd": replay_cmd(sh, idx)})
        sh.results.append({"violations": 1, "stats": {"crashed": 1}, "distinct": {}, "samples": {}})
        lo = idx + 1
        if kind == "hang":
            break
    return sh


def tail(err):
    m = re.search(r"(==\d+==ERROR|runtime error|WARNING: ThreadSanitizer|terminate called|==\d+== (?:Invalid|Conditional|Use of|Syscall|Mismatched|Source and))", err)
    s = err[max(0, m.start() - 300):] if m else err[-3000:]
    return s[:5000]


def replay_cmd(sh, case):
    st = sh.stage
    env = " ".join("%s=%s" % kv for kv in st.get("env", {}).items())
    return "cd %s && VERIF_SEED=%d VERIF_TIER=%s %s python3 run.py --replay %s %s %d" % (VERIF, SEED, TIER, env, PROP, st["name"], case)


# ---------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    res = {}
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    except OSError:
        pass
    return res


def main():
    global PROP
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        return setup()
    replay = None
    if len(sys.argv) > 1 and sys.argv[1] == "--replay":
        PROP = sys.argv[2]
        replay = (sys.argv[3], int(sys.argv[4]))
    else:
        PROP = sys.argv[1]
    chk = CHECKS[PROP]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    stages = [s for s in chk["stages"] if (s.get("thorough", 1) if THOROUGH else s.get("quick", 0))]
    if replay:
        st = [s for s in chk["stages"] if s["name"] == replay[0]][0]
        exe = prepare(st)
        cmd = st.get("wrap", []) + [exe, "--seed", str(SEED), "--only", str(replay[1]), "--mode", st.get("mode", "")] + st.get("args", []) + (["--thorough"] if THOROUGH else [])
        env = dict(ENV); env.update(st.get("env", {})); env["VH_REPO"] = REPO
        env["VH_SCRATCH"] = os.path.join(BUILD, "run-%d" % os.getpid()); os.makedirs(env["VH_SCRATCH"], exist_ok=True)
        return subprocess.call(cmd, env=env)
    # one compile pool over all binaries: build sequentially, each parallel inside (objects are shared)
    exes = {}
    for st in stages:
        exes[st["name"]] = prepare(st)
    tbuild = time.time() - T0
    shards = []
    for st in stages:
        n = st["thorough"] if THOROUGH else st["quick"]
        if callable(n):
            n = n()
        parts = min(st.get("shards", 8 if not THOROUGH else 32), max(1, n))
        for k in range(parts):
            lo, hi = n * k // parts, n * (k + 1) // parts
            if hi > lo:
                shards.append(Shard(st, exes[st["name"]], k, lo, hi))
    with cf.ThreadPoolExecutor(chk.get("parallel", NCPU)) as ex:
        shards = list(ex.map(run_shard, shards))
    shutil.rmtree(os.path.join(BUILD, "run-%d" % os.getpid()), ignore_errors=True)

    stats, distinct, samples = {}, {}, {}
    for sh in shards:
        for d in sh.results:
            for k, v in d["stats"].items():
                stats[k] = stats.get(k, 0) + v
                kk = sh.stage["name"] + "." + k
                stats[kk] = stats.get(kk, 0) + v
            for k, v in d["distinct"].items():
                distinct.setdefault(k, set()).update(v)
                if "." not in k:
                    distinct.setdefault(sh.stage["name"] + "." + k, set()).update(v)
            for k, v in d["samples"].items():
                l = samples.setdefault(sh.stage["name"], [])
                for x in v:
                    if len(l) < 3:
                        l.append(x)
    viols = [v for sh in shards for v in sh.viols]
    known = known_findings(PROP)
    hit, new = set(), []
    for v in viols:
        if v["key"] in known:
            hit.add(v["key"])
        else:
            new.append(v)
    ev_stats = {k: v for k, v in stats.items() if "." in k and not re.search(r"\.(kw|cell|ev):", k)}
    cells = len([k for k in stats if re.search(r"\.(kw|cell|ev):", k)])
    dn = sum(len(distinct.get(k, ())) for k in chk["distinct"])
    cov = {
        "evaluations": sum(stats.get(k, 0) for k in chk.get("evals", ["evaluations"])),
        "distinct_nontrivial": dn,
        "rule": chk["rule"],
        "samples": [{"stage": s, "case": x} for s, l in samples.items() for x in l][:12],
        "observed": ev_stats,
        "distinct_observed": {k: len(v) for k, v in distinct.items() if "." in k},
        "cells_reached": cells,
        "build_s": round(tbuild, 1),
    }
    if chk.get("exhaustive"):
        cov["exhaustive_parts"] = chk["exhaustive"]
    ev = {"property": PROP, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": chk["level"], "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": len(new)}
    path = os.path.join(VERIF, "evidence", PROP + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (PROP, known[k]))
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seenk = {}
        for v in new:
            seenk.setdefault(v["key"], []).append(v)
        for n, (k, l) in enumerate(sorted(seenk.items())):
            rp = os.path.join(rdir, "%s-%d.txt" % (PROP, n))
            with open(rp, "w") as f:
                for v in l[:5]:
                    f.write("key: %s\nreplay: %s\n%s\n\n" % (v["key"], v["cmd"], v["detail"]))
            print("VIOLATION property=%s replay=%s" % (PROP, rp))
            print("  [%s, %d reported] %s" % (k, len(l), l[0]["detail"][:900].replace("\n", "\n  ")))
        return 1
    # a run that observed too little decides nothing
    for k, least in chk.get("least", {}).items():
        got = len(distinct.get(k[9:], ())) if k.startswith("distinct:") else stats.get(k, 0)
        if got < least:
            raise Broken("observed only %d of %s (at least %d expected)" % (got, k, least))
    if cov["evaluations"] == 0 or dn == 0:
        raise Broken("nothing observed")
    print("%s held on %d evaluations (%d distinct non-trivial), build %.0f s, total %.0f s" % (PROP, cov["evaluations"], dn, tbuild, time.time() - T0))
    return 0


def prepare(st):
    b = dict(st["bin"])
    if b.pop("generate", None) == "conf":
        # one worker program per adapter and configuration; the harness gets the list of them
        import confbuild
        global _tree
        _tree = _tree or tree_hash()
        st.setdefault("env", {})["VH_CONF"] = confbuild.build(b, BUILD, REPO, H, BASE, THOROUGH, _tree, Broken)
    return build(b)


def setup():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for tool in ("clang++", "python3"):
        if not shutil.which(tool):
            print("missing " + tool)
            return 2
    return 0


PROP = ""
if __name__ == "__main__":
    try:
        rc = main()
    except Broken as e:
        print("ERROR: %s" % e)
        rc = 2
    finally:
        shutil.rmtree(os.path.join(BUILD, "run-%d" % os.getpid()), ignore_errors=True)
        prune()
    sys.exit(rc)
