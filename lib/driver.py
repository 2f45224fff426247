"""Driver of the solver-based checks.

python3 run.py <PROPERTY> [quick|thorough]

For every unit of the property: compile the harness and /repo's current
sources to LLVM IR, instrument, link with the symbolic runtime, explore every
path, decide every obligation with the solver, replay what it finds against a
native build of the same sources.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
STUBS = os.path.join(VERIF, "stubs")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = max(2, os.cpu_count() or 4)
CLANG = "clang++-18"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("stdin", subprocess.DEVNULL)
    p = subprocess.run(cmd, **kw)
    out = (p.stdout or b"").decode("utf8", "replace")
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (
            cmd if isinstance(cmd, str) else " ".join(cmd), out[-6000:]))
    return out


# ---------------------------------------------------------------- engine
def engine_dir():
    h = hashlib.sha256()
    for f in sorted(glob.glob(ENGINE + "/*")):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return os.path.join(VERIF, "build", "engine-" + h.hexdigest()[:16])


def build_engine():
    d = engine_dir()
    ok = os.path.join(d, "ok")
    if os.path.exists(ok):
        return d
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    with open(os.path.join(VERIF, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return d
        for old in glob.glob(os.path.join(VERIF, "build", "engine-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        llvm = run(["llvm-config-18", "--cxxflags"]).split()
        llvm = [x for x in llvm if not x.startswith("-std=")]
        cmds = [[CLANG, "-std=c++17", "-O1", "-fPIC", "-shared"] + llvm +
                ["-fno-rtti", ENGINE + "/SymPass.cpp", "-o", d + "/SymPass.so"]]
        for f in ("runtime", "lower", "expr"):
            cmds.append(["g++", "-std=c++20", "-O2", "-c",
                         "%s/%s.cpp" % (ENGINE, f), "-o", "%s/%s.o" % (d, f)])
        with cf.ThreadPoolExecutor(4) as ex:
            list(ex.map(run, cmds))
        open(ok, "w").write("ok\n")
    return d


# ---------------------------------------------------------------- units
class Unit:
    """One harness file with the repository sources it is linked against."""

    def __init__(self, harness, sources, runs, defines=None, extra=(),
                 flags=(), prelude=(), env=None, transparent=()):
        self.harness = harness      # path under /verif
        self.sources = list(sources)  # paths under /repo
        self.runs = runs            # list of Run
        self.defines = dict(defines or {})  # config.h overrides
        self.extra = list(extra)    # further harness-side sources
        self.flags = list(flags)
        self.prelude = list(prelude)
        self.env = dict(env or {})
        # library code (substrings of demangled names) to be executed
        # symbolically although it normally runs natively
        self.transparent = list(transparent)


class Run:
    def __init__(self, name, reach=("end",), tier="quick", env=None,
                 time_limit=None, bounds=""):
        self.name = name
        self.reach = list(reach)
        self.tier = tier  # "quick": both tiers; "thorough": that tier only
        self.env = dict(env or {})
        self.time_limit = time_limit
        self.bounds = bounds


class Prop:
    def __init__(self, pid, units, bounds, assumptions=()):
        self.pid = pid
        self.units = units
        self.bounds = bounds
        self.assumptions = list(assumptions)


CFG_KEYS = {
    "STRICT_FAILSAFE_PWM": 0, "OFFLINE_FAILSAFE_PWM": 0,
    "UNC_FAILSAFE": 0, "HANDLE_MISSING_OBJECT_PATHS": 0}


def write_config(d, over):
    """config.h as meson would generate it from meson.options' defaults."""
    vals = dict(CFG_KEYS)
    vals.update(over)
    with open(os.path.join(d, "config.h"), "w") as f:
        for k, v in vals.items():
            f.write("#define %s %s\n" % (k, v))


def base_flags(d, unit, tier):
    inc = ["-I" + d, "-I" + STUBS, "-I" + ENGINE,
           "-I" + os.path.dirname(os.path.join(VERIF, unit.harness)),
           "-I" + VERIF + "/checks", "-I" + REPO]
    inc += ["-I" + os.path.join(REPO, x) for x in (
        "buildjson", "dbus", "errors", "ipmi", "notimpl", "pid", "sensors",
        "sysfs")]
    fl = ["-std=c++23", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fno-access-control",
          "-ffp-contract=off", "-w", "-DSYM_VERIF=1"]
    if tier == "thorough":
        fl.append("-DSYM_THOROUGH=1")
    return fl + list(unit.flags) + inc


def all_repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith((".", "_")) and
                   x not in ("test", "subprojects", "build", "builddir")]
        for f in files:
            if f.endswith(".cpp"):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)


def sanitize(p):
    return re.sub(r"[^A-Za-z0-9]", "_", p)


UNDEF = re.compile(r"undefined reference to `([^']*)'")


def compile_unit(unit, d, eng, tier):
    """returns (symbolic executable, native replay executable, sources)"""
    write_config(d, unit.defines)
    fl = base_flags(d, unit, tier)
    harness = [os.path.join(VERIF, unit.harness)] + \
        [os.path.join(VERIF, x) for x in unit.extra]
    srcs = [os.path.join(REPO, s) for s in unit.sources]
    missing = [s for s in srcs if not os.path.exists(s)]
    srcs = [s for s in srcs if os.path.exists(s)]
    ir = fl + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c"]
    nat = fl + ["-fsanitize=address", "-fno-omit-frame-pointer", "-c"]
    if unit.transparent:
        pre = ["-include", ENGINE + "/streams.hpp"]
        ir, nat = ir + pre, nat + ["-DSYM_NATIVE"]
    # the harness may rename or hide symbols of a source it replaces
    done = {}

    def comp(job):
        kind, s = job
        o = os.path.join(d, sanitize(s) + (".bc" if kind == "ir" else ".o"))
        run([CLANG] + (ir if kind == "ir" else nat) + [s, "-o", o])
        return (kind, s), o

    def comp_all(ss, kinds=("ir", "nat")):
        jobs = [(k, s) for s in ss for k in kinds if (k, s) not in done]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for k, o in ex.map(comp, jobs):
                done[k] = o

    comp_all(harness + srcs)
    replay = ENGINE + "/replay.cpp"
    comp_all([replay], ("nat",))

    def link():
        bcs = [done[("ir", s)] for s in harness + srcs]
        allbc = os.path.join(d, "all.bc")
        run(["llvm-link-18"] + bcs + ["-o", allbc])
        inst = os.path.join(d, "inst.bc")
        oenv = dict(os.environ)
        oenv["SYM_TRANSPARENT"] = ";".join(unit.transparent)
        run(["opt-18", "-load-pass-plugin=" + eng + "/SymPass.so",
             "-passes=function(sroa,early-cse,simplifycfg,lowerswitch,"
             "break-crit-edges),sympass,internalize,globaldce",
             "-internalize-public-api-list=__sym_fn_names,__sym_fn_count",
             allbc, "-o", inst], env=oenv)
        o = os.path.join(d, "inst.o")
        run([CLANG, "-O1", "-c", inst, "-o", o])
        sx = os.path.join(d, "sx")

        def native():
            nx = os.path.join(d, "nx")
            run([CLANG, "-fsanitize=address"] +
                [done[("nat", s)] for s in harness + srcs + [replay]] +
                ["-o", nx])
            return nx
        with cf.ThreadPoolExecutor(2) as ex:
            f = ex.submit(native)
            run(["g++", o, eng + "/runtime.o", eng + "/lower.o",
                 eng + "/expr.o", "-lz3", "-o", sx])
            return sx, f.result()

    try:
        return link() + (srcs,)
    except BuildError as e:
        if "undefined reference" not in str(e) and not missing:
            raise
        # code moved between files: add the other sources of the repository
        # that define what is missing
        first = e
    have = set(srcs)
    und = set(UNDEF.findall(str(first)))
    und_names = {re.split(r"[(\[]", u)[0].split("::")[-1] for u in und}
    cands = []
    for s in all_repo_sources():
        p = os.path.join(REPO, s)
        if p in have:
            continue
        try:
            txt = open(p, errors="replace").read()
        except OSError:
            continue
        if re.search(r"^int main\(", txt, re.M):
            continue
        if any(re.search(r"\b%s\b" % re.escape(n), txt) for n in und_names if n):
            cands.append(p)
    for _ in range(3):
        good = []
        for p in cands:
            try:
                comp_all([p])
                good.append(p)
            except BuildError:
                pass
        srcs = srcs + good
        try:
            return link() + (srcs,)
        except BuildError as e:
            first = e
            cands = []
            und = set(UNDEF.findall(str(first)))
            und_names = {re.split(r"[(\[]", u)[0].split("::")[-1] for u in und}
            for s in all_repo_sources():
                p = os.path.join(REPO, s)
                if p in srcs:
                    continue
                txt = open(p, errors="replace").read()
                if re.search(r"^int main\(", txt, re.M):
                    continue
                if any(re.search(r"\b%s\b" % re.escape(n), txt)
                       for n in und_names if n):
                    cands.append(p)
            if not cands:
                raise
    raise first


# ---------------------------------------------------------------- execution
GRACE = 20  # seconds left to an exploration that has found a violation


def explore(sx, d, r, unit, tier, limit, known=()):
    out = os.path.join(d, "out-%s.json" % r.name)
    env = dict(os.environ)
    env.update({"VERIF_SEED": str(SEED), "SYM_JOBS": str(JOBS),
                "SYM_TIME_LIMIT": str(limit), "ASAN_OPTIONS": ""})
    env.update(unit.env)
    env.update(r.env)
    work = os.path.join(d, "cwd")
    os.makedirs(work, exist_ok=True)
    p = subprocess.Popen([sx, r.name, out], cwd=work, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL, start_new_session=True)
    def found():
        try:
            with open(out, errors="replace") as f:
                for line in f:
                    if '"kind":"violation"' in line:
                        try:
                            lab = json.loads(line)["label"]
                        except (ValueError, KeyError):
                            continue
                        if not any(re.fullmatch(k, lab) for k in known):
                            return True
        except OSError:
            pass
        return False
    end = time.time() + limit + 120
    grace = None
    while True:
        try:
            p.wait(timeout=0.25 if grace is None and time.time() < end - limit
                   - 118 else 2)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        if grace is None and found():
            grace = now + GRACE
        if now > end or (grace is not None and now > grace):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    return recs


def model_text(rec):
    lines = []
    for k, v in sorted(rec.get("picks", {}).items()):
        lines.append("%s=%x" % (k, v))
    for k, v in sorted(rec.get("model", {}).items()):
        lines.append("%s=%s" % (k, v))
    return "\n".join(lines) + "\n"


def native_run(nx, name, model_path, d, timeout=20, extra=""):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                           "allocator_may_return_null=0" + extra)
    work = os.path.join(d, "cwd")
    os.makedirs(work, exist_ok=True)
    p = subprocess.Popen([nx, name, model_path], cwd=work, env=env,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return "hang", "no progress within %d s" % timeout, o.decode("utf8", "replace")
    o = o.decode("utf8", "replace")
    e = e.decode("utf8", "replace")
    if rc == 0:
        return "ok", "", o
    if rc == 1:
        m = re.search(r"^ASSERT-FAIL (.*)$", o, re.M)
        return "assert", m.group(1) if m else "?", o
    if rc == 3:
        return "assume", "", o
    if rc == 99:
        m = re.search(r"AddressSanitizer: ([^\n]*)", e)
        return "crash", "memory error: " + (m.group(1)[:120] if m else "?"), o + e
    if rc == 134 or rc < 0:
        return "crash", "terminated (%d)" % rc, o + e
    return "other", "exit %d" % rc, o + e


# ---------------------------------------------------------------- findings
def known_findings():
    """lines of known-findings.txt: finding: property=<id> key=<regex> | text"""
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) run=(\S+) label=(.*?) \| (.*)$",
                         line.strip())
            if m:
                out.append(m.groups())
    return out


NO_SUMMARY = {k: 0 for k in (
    "paths", "branches", "forks", "obligations", "discharged", "trivial",
    "queries", "unsat", "sat", "unknown", "searchHits", "solver_s",
    "pathsValidated", "pathsPruned", "symVars", "ladder", "ladderProved",
    "maxDepth", "wall_s", "killed", "rootStatus", "violations",
    "inconclusive")}
NO_SUMMARY.update(functions=[], stopped=1)


def check(prop, tier):
    t0 = time.time()
    res = {"viol": [], "err": [], "known": set()}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
           "obligations": 0, "discharged": 0, "obligations_by_folding": 0,
           "queries": 0, "queries_unsat": 0, "queries_sat": 0,
           "queries_unknown": 0, "models_by_search": 0, "solver_s": 0.0,
           "paths_validated_by_model": 0, "paths_pruned": 0,
           "symbolic_variables": 0, "exact_stage_runs": 0,
           "exact_stage_proofs": 0, "max_branch_depth": 0,
           "functions_encoded": [], "runs": [], "samples": [],
           "bounds": prop.bounds}
    fns = set()
    budget = 780 if tier == "quick" else 6 * 3600
    vdir = os.path.join(VERIF, "build", "replays")
    os.makedirs(vdir, exist_ok=True)
    for old in glob.glob(os.path.join(vdir, prop.pid + "-*")):
        os.unlink(old)
    nvio = 0
    kf = [k for k in known_findings() if k[0] == prop.pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop.pid)
    try:
        eng = build_engine()
        # compile all units first (in parallel), then explore one by one
        todo = []
        for i, u in enumerate(prop.units):
            runs = [r for r in u.runs if r.tier == "quick" or tier == "thorough"]
            if runs:
                d = os.path.join(tmp, "u%d" % i)
                os.makedirs(d)
                todo.append((u, runs, d))
        with cf.ThreadPoolExecutor(3) as ex:
            built = list(ex.map(
                lambda t: compile_unit(t[0], t[2], eng, tier), todo))
        for (u, runs, d), (sx, nx, srcs) in zip(todo, built):
            for r in runs:
                if res["viol"]:
                    break  # decided
                left = budget - (time.time() - t0)
                lim = r.time_limit or (300 if tier == "quick" else 3600)
                lim = max(10, min(lim, left))
                if left < 15:
                    res["err"].append("%s: time budget used up" % r.name)
                    break
                t1 = time.time()
                recs = explore(sx, d, r, u, tier, lim,
                               [k[2] for k in kf if k[1] in (r.name, "*")])
                summ = [x for x in recs if x["kind"] == "summary"]
                if not summ and any(x["kind"] == "violation" for x in recs):
                    # cut short because it had found something
                    summ = [dict(NO_SUMMARY)]
                if not summ:
                    res["err"].append("%s: the exploration gave no summary" % r.name)
                    continue
                s = summ[0]
                cov["states"] += s["paths"]
                cov["transitions"] += s["branches"] + s["forks"]
                cov["obligations"] += s["obligations"]
                cov["discharged"] += s["discharged"]
                cov["obligations_by_folding"] += s["trivial"]
                cov["queries"] += s["queries"]
                cov["queries_unsat"] += s["unsat"]
                cov["queries_sat"] += s["sat"]
                cov["queries_unknown"] += s["unknown"]
                cov["models_by_search"] += s["searchHits"]
                cov["solver_s"] = round(cov["solver_s"] + s["solver_s"], 3)
                cov["paths_validated_by_model"] += s["pathsValidated"]
                cov["paths_pruned"] += s["pathsPruned"]
                cov["symbolic_variables"] += s["symVars"]
                cov["exact_stage_runs"] += s["ladder"]
                cov["exact_stage_proofs"] += s["ladderProved"]
                cov["max_branch_depth"] = max(cov["max_branch_depth"],
                                              s["maxDepth"])
                fns.update(s["functions"])
                info = {"harness": r.name, "file": u.harness,
                        "config": u.defines, "paths": s["paths"],
                        "obligations": s["obligations"],
                        "discharged": s["discharged"],
                        "queries": s["queries"], "solver_s": s["solver_s"],
                        "wall_s": s["wall_s"], "bounds": r.bounds}
                cov["runs"].append(info)
                # --- replay
                mp = os.path.join(d, "model.txt")
                bad_obs = 0
                jobs = []
                for x in recs:
                    if x["kind"] in ("path", "violation", "suspect") and "model" in x:
                        jobs.append(x)
                prio = {"violation": 0, "suspect": 1, "path": 2}
                jobs.sort(key=lambda x: prio[x["kind"]])

                def do(ix):
                    i, x = ix
                    p = os.path.join(d, "m-%s-%d.txt" % (r.name, i))
                    open(p, "w").write(model_text(x))
                    nr = native_run(nx, r.name, p, d)
                    if nr[0] == "ok" and x["kind"] != "path":
                        # (locals never set: only real frames show them)
                        n2 = native_run(nx, r.name, p, d, extra=
                                        ":detect_stack_use_after_return=0")
                        if n2[0] in ("assert", "crash", "hang"):
                            nr = n2
                    return x, p, nr
                seen = set()
                confirmed = set()
                unconfirmed = []
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    results = list(ex.map(do, enumerate(jobs)))
                for x, p, (st, what, txt) in results:
                    if st in ("assert", "crash", "hang"):
                        label = what if st != "hang" else "hang: " + what
                        hit = None
                        for k in kf:
                            if k[1] in (r.name, "*") and re.fullmatch(k[2], label):
                                hit = k
                        confirmed.add(x["label"])
                        if hit:
                            res["known"].add("%s [%s] %s" % (hit[3], r.name, label))
                            continue
                        if label in seen:
                            continue
                        seen.add(label)
                        nvio += 1
                        rp = os.path.join(vdir, "%s-%d.txt" % (prop.pid, nvio))
                        with open(rp, "w") as f:
                            f.write("# property %s: %s\n# harness %s (%s), run %s, "
                                    "config %s\n# replay: python3 run.py --replay %s\n"
                                    % (prop.pid, label, u.harness, st, r.name,
                                       u.defines, rp))
                            f.write("#unit=%d\n" % prop.units.index(u))
                            f.write(open(p).read())
                            f.write("".join("# " + q + "\n" for q in
                                            txt.splitlines()[-40:]))
                        res["viol"].append((label, rp))
                        continue
                    if x["kind"] == "path":
                        if st != "ok":
                            bad_obs += 1
                            res["err"].append("%s: a path model does not replay (%s %s)"
                                              % (r.name, st, what))
                            continue
                        obs = re.findall(r"^OBS (.*)$", txt, re.M)
                        rch = re.findall(r"^REACH (.*)$", txt, re.M)
                        if obs != x["obs"] or rch != x["reach"]:
                            bad_obs += 1
                            diff = [(a, b) for a, b in zip(x["obs"], obs) if a != b]
                            res["err"].append(
                                "%s: encoding and implementation disagree on a "
                                "path: %s" % (r.name, (diff or [(x["reach"], rch)])[:2]))
                        else:
                            cov["traces_validated_against_impl"] += 1
                            if len(cov["samples"]) < 4:
                                cov["samples"].append(
                                    {"harness": r.name, "picks": x["picks"],
                                     "model": dict(list(x["model"].items())[:40]),
                                     "observed": obs[:12], "reached": rch})
                    else:
                        unconfirmed.append((x["kind"], x["label"], st))
                for kind, label, st in unconfirmed:
                    if label not in confirmed:
                        res["err"].append("%s: %s '%s' did not reproduce natively (%s)"
                                          % (r.name, kind, label, st))
                for x in recs:
                    if x["kind"] in ("inconclusive", "unsupported", "error"):
                        res["err"].append("%s: %s: %s" % (r.name, x["kind"], x["label"]))
                if s["stopped"] or s["killed"]:
                    res["err"].append("%s: exploration incomplete (stopped=%d killed=%d)"
                                      % (r.name, s["stopped"], s["killed"]))
                if s["rootStatus"] != 0:
                    res["err"].append("%s: root exploration ended with status %d"
                                      % (r.name, s["rootStatus"]))
                reached = {x["label"] for x in recs if x["kind"] == "reach"}
                for w in r.reach:
                    if w not in reached:
                        res["err"].append("%s: vacuity: '%s' was not reached" % (r.name, w))
                if s["obligations"] == 0:
                    res["err"].append("%s: no obligation" % r.name)
                if s["discharged"] < s["obligations"] and not s["violations"] \
                        and not s["inconclusive"]:
                    res["err"].append("%s: %d obligations left" % (
                        r.name, s["obligations"] - s["discharged"]))
                info["total_s"] = round(time.time() - t1, 2)
    except BuildError as e:
        res["err"].append("build: " + str(e))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    names = []
    if fns:
        try:
            p = subprocess.run(["c++filt"], input="\n".join(sorted(fns)).encode(),
                               stdout=subprocess.PIPE)
            names = p.stdout.decode().split("\n")
        except OSError:
            names = sorted(fns)
    names = sorted({n for n in names if "pid_control" in n and
                    not n.startswith(("std::", "void std::", "bool std::",
                                      "nlohmann", "auto std::"))
                    and "std::" not in n.split("(")[0]})
    cov["functions_encoded"] = names[:200]
    cov["functions_encoded_count"] = len(names)
    ev = {"property": prop.pid, "tier": tier, "seed": SEED,
          "level": "model_checking", "coverage": cov,
          "assumptions": prop.assumptions,
          "wall_s": round(time.time() - t0, 2),
          "violations": len(res["viol"])}
    if res["err"]:
        ev["coverage"]["inconclusive"] = res["err"][:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(res["known"]):
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, k))
    for label, rp in res["viol"]:
        print("# %s" % label)
        print("VIOLATION property=%s replay=%s" % (prop.pid, rp))
    if res["viol"]:
        for e in res["err"][:5]:
            print("# note: " + e[:400])
        return 1
    if res["err"]:
        for e in res["err"][:20]:
            print("INCONCLUSIVE property=%s %s" % (prop.pid, e[:3000]))
        return 2
    print("OK property=%s tier=%s paths=%d obligations=%d/%d queries=%d "
          "solver=%.1fs validated=%d wall=%.1fs" %
          (prop.pid, tier, cov["states"], cov["discharged"], cov["obligations"],
           cov["queries"], cov["solver_s"],
           cov["traces_validated_against_impl"], time.time() - t0))
    return 0


def replay(prop_by_id, path):
    """rebuild the native harness and run one saved counterexample"""
    txt = open(path).read()
    pid = re.search(r"property (\S+):", txt).group(1)
    name = re.search(r"run (\w+),", txt).group(1)
    ui = int(re.search(r"^#unit=(\d+)", txt, re.M).group(1))
    u = prop_by_id[pid].units[ui]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        sx, nx, _ = compile_unit(u, tmp, build_engine(), "quick")
        st, what, out = native_run(nx, name, path, tmp)
        if st == "ok":
            st, what, out = native_run(
                nx, name, path, tmp,
                extra=":detect_stack_use_after_return=0")
        print(st, what)
        print(out)
        return 1 if st in ("assert", "crash", "hang") else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
