#!/usr/bin/env python3
"""Driver of all checks.

  check.py P01                 run the check of P01 (tier from VERIF_TIER, default quick)
  check.py P01 --tier thorough
  check.py --replay FILE       re-run one recorded violation
  check.py --list

Builds the harness(es) of the property from /repo's current headers in a scratch
directory, runs them (sharded over the cores), confirms a violation by replaying
the single case, writes evidence/<id>.json.
Exit 0: held; 1: VIOLATION printed; 2: the check could not give an answer.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from checks import CHECKS, Build

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = os.cpu_count() or 4
MEMORY_LIMIT = 3 << 30  # resident bytes of one harness process
peak = 0

CONFIG_H = """#ifndef LIBFLATARRAY_CONFIG_H
#define LIBFLATARRAY_CONFIG_H
#define LIBFLATARRAY_WITH_CPP14 1
#endif
"""

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=3:allocator_may_return_null=1:abort_on_error=0:handle_abort=0:detect_odr_violation=0"
ENV["LANG"] = "C.UTF-8"


class NoAnswer(Exception):
    pass


class NotCompiled(NoAnswer):
    def __init__(self, build, cmd, log):
        NoAnswer.__init__(self, "harness %s does not compile:\n%s\n%s" % (build.name, cmd, log[-6000:]))
        self.log = log


# names the stand-ins in harness/foreign may lack
INTRINSIC = r"(vec_\w+|v[a-z]\w*_\w+|_mm\w+|_MM_?\w+|__mm\w+|__m\d+\w*|(?:u?int|float|poly)\d+x\d+\w*_t|vector4double|__builtin_\w+)"


def lacks_intrinsic(log):
    return re.search("[\u2018']" + INTRINSIC + "[\u2019'].*(not declared|does not name a type|has not been declared|not a member)", log) is not None \
        or "No such file or directory" in log or "no matching function for call to" in log and re.search("call to [\u2018']" + INTRINSIC, log) is not None


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    except OSError:
        pass
    return set()


def compile_one(build, work):
    inc = os.path.join(work, "inc", "libflatarray")
    os.makedirs(inc, exist_ok=True)
    cfg = os.path.join(inc, "config.h")
    if not os.path.exists(cfg):
        with open(cfg, "w") as f:
            f.write(CONFIG_H)
    exe = os.path.join(work, build.name)
    if build.prepare:
        build.prepare(work, REPO, VERIF)
    cmd = [build.cxx, "-std=c++14", "-w"] + build.flags + \
          ["-I" + work + "/inc"] + [x.replace("@WORK@", work).replace("@VERIF@", VERIF) for x in build.inc] + \
          ["-I" + REPO + "/include", "-I" + VERIF + "/harness",
           "-DVERIF_SRC=" + build.src] + [x.replace("@WORK@", work) for x in build.sources(VERIF)] + ["-o", exe] + build.libs
    cmds = [cmd]
    if build.runtime:
        # code under test and runtime get different instrumentation: compile separately, link plainly
        obj = exe + ".o"
        cmds = [cmd[:cmd.index("-o")] + ["-c", "-o", obj]]
        objs = [obj]
        for src in build.runtime:
            o = os.path.join(work, build.name + "_" + src + ".o")
            cmds.append([build.cxx, "-std=c++14", "-w", "-O2", "-I" + VERIF + "/harness", "-c", VERIF + "/harness/" + src, "-o", o])
            objs.append(o)
        cmds.append([build.cxx] + objs + ["-o", exe] + build.libs)
    t = time.time()
    for cmd in cmds:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, errors="replace")
        if p.returncode != 0 and "Killed signal" in p.stdout:
            # memory was short for a moment: once more
            time.sleep(5)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, text=True, errors="replace")
        if p.returncode != 0:
            break
    if p.returncode != 0:
        raise NotCompiled(build, " ".join(cmd), p.stdout)
    return exe, time.time() - t


def run_one(exe, args, timeout, states=None):
    env = dict(ENV)
    if re.search(r"/p(0[6-9]|10)_", exe):
        # exceptions leak fake stack frames, which slows down each call
        env["ASAN_OPTIONS"] += ":detect_stack_use_after_return=0"
    if states:
        env["MC_STATES"] = states
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, errors="replace")
    t0 = time.time()
    aborted = None
    limit = MEMORY_LIMIT * (1 if "--quick" in args else 4)
    while True:
        try:
            out, _ = p.communicate(timeout=0.25)
            if aborted is not None:
                out = out.replace("died with signal 6", "uses more than %d MB of memory" % (limit >> 20))
            return p.returncode, out
        except subprocess.TimeoutExpired:
            now = time.time()
            if aborted is None and resident(p.pid) > limit:
                # code under test that fills the memory; the harness reports the case it was in
                p.send_signal(signal.SIGABRT)
                aborted = now
            if now - t0 > timeout or (aborted is not None and now - aborted > 10):
                p.kill()
                out, _ = p.communicate()
                return None, out or ""


def resident(pid):
    """Resident memory of a process in bytes."""
    global peak
    try:
        rss = int(open("/proc/%d/statm" % pid).read().split()[1]) * 4096
    except (OSError, ValueError, IndexError):
        return 0
    peak = max(peak, rss)
    return rss


def find_violation(out):
    # the last report wins: a crash handler may fire after a first report
    m = re.findall(r"^MC-(VIOLATION|CRASH) case=(\S*) msg=(.*)$", out, re.M)
    return m[0] if m else None


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<key> <text>' suppress exactly
    that finding; 'fixed: ...' lines suppress nothing."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def run_check(pid, tier, seed):
    t0 = time.time()
    chk = CHECKS[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk["level"], "coverage": {}, "assumptions": list(chk["assumptions"]), "wall_s": 0, "violations": 0}
    status = 0
    try:
        flags = cpu_flags()
        builds, skipped = [], []
        for b in chk["builds"]:
            if tier == "quick" and b.thorough_only:
                continue
            (builds if set(b.needs) <= flags else skipped).append(b)
        if not builds:
            raise NoAnswer("no harness variant can run on this CPU")
        for b in skipped:
            ev["assumptions"].append("variant %s not run: the CPU lacks %s" % (b.name, ",".join(b.needs)))
        exes = {}
        not_compiled = []
        foreign_broken = []

        def try_compile(b):
            try:
                return compile_one(b, work)
            except NotCompiled as e:
                if b.foreign and "error:" in e.log and "Killed signal" not in e.log:
                    # code no compiler here builds unless for this check
                    foreign_broken.append((b, e))
                else:
                    not_compiled.append((b, e))
                return None

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for b, r in zip(builds, ex.map(try_compile, builds)):
                if r:
                    exes[b.name] = r[0]
        # what does compile may still show a violation; otherwise there is no answer
        builds = [b for b in builds if b.name in exes]
        for b, e in foreign_broken:
            if lacks_intrinsic(e.log):
                ev["assumptions"].append("variant %s not run: the code uses intrinsics for which harness/foreign has no stand-in" % b.name)
        foreign_broken = [x for x in foreign_broken if not lacks_intrinsic(x[1].log)]
        if not builds and not foreign_broken:
            raise not_compiled[0][1]
        t_compile = time.time() - t0
        tasks = []
        for b in builds:
            n = b.shards_thorough if tier == "thorough" else b.shards
            for i in range(n):
                tasks.append((b, i, n))
        timeout = 840 - (time.time() - t0) if tier == "quick" else 36000

        def task(x):
            b, i, n = x
            st = os.path.join(work, "%s.%d.states" % (b.name, i))
            return run_one(exes[b.name], ["--" + tier, "--shard", "%d/%d" % (i, n)] + b.args, timeout, st)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(task, tasks))

        def problem(e):
            # a violation found elsewhere outweighs a harness that gave no answer
            not_compiled.append((None, e))

        cov, states = {}, set()
        known_seen, violations = {}, []
        per_variant = {}
        for (b, i, n), (rc, out) in zip(tasks, results):
            v = find_violation(out)
            if v:
                violations.append((b, i, n, v, out))
                continue
            if rc is None:
                problem(NoAnswer("harness %s shard %d did not finish in time" % (b.name, i)))
                continue
            m = re.search(r"^MC-RESULT (.*)$", out, re.M)
            if rc != 0 or not m:
                problem(NoAnswer("harness %s shard %d ended with %s and no result:\n%s" % (b.name, i, rc, out[-3000:])))
                continue
            res = json.loads(m.group(1))
            for k, val in res.items():
                if k == "samples":
                    cov.setdefault("samples", [])
                    for s in val:
                        if len(cov["samples"]) < 8 and s not in cov["samples"]:
                            cov["samples"].append(s)
                elif k.startswith("x_"):
                    cov[k] = max(cov.get(k, 0), val)
                elif k == "states":
                    pass
                else:
                    cov[k] = cov.get(k, 0) + val
            per_variant[b.name] = per_variant.get(b.name, 0) + res.get("evaluations", 0)
            st = os.path.join(work, "%s.%d.states" % (b.name, i))
            if os.path.exists(st):
                raw = open(st, "rb").read()
                tag = b.name.encode() if b.distinct_states else b""
                for o in range(0, len(raw), 8):
                    states.add(raw[o:o + 8] + tag)
            for km in re.finditer(r"^MC-KNOWN (\S+) (.*)$", out, re.M):
                known_seen[km.group(1)] = km.group(2)

        if not_compiled and not violations and not foreign_broken:
            raise not_compiled[0][1]
        if foreign_broken and not violations:
            b, e = foreign_broken[0]
            msg = "the code for this instruction set does not compile: " + re.search("[^\n]*error:[^\n]*", e.log).group(0)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s.json" % pid)
            with open(path, "w") as f:
                json.dump({"property": pid, "build": b.name, "args": [], "case": "compile", "kind": "VIOLATION", "message": msg,
                           "how": "python3 /verif/check.py --replay " + path, "output": str(e)}, f, indent=1)
            print("VIOLATION in %s: %s" % (b.name, msg))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            ev["violations"] = len(foreign_broken)
            status = 1
        if violations:
            confirmed = None
            for b, i, n, v, out in violations:
                rc, rout = run_one(exes[b.name], ["--" + tier, "--only", v[1]] + b.args, 300)
                if find_violation(rout):
                    confirmed = (b, v, rout, ["--" + tier, "--only", v[1]])
                    break
            if not confirmed:
                for b, i, n, v, out in violations[:3]:
                    a = ["--" + tier, "--shard", "%d/%d" % (i, n)]
                    rc, rout = run_one(exes[b.name], a + b.args, 600)
                    if find_violation(rout):
                        confirmed = (b, find_violation(rout), rout, a)
                        break
            if not confirmed:
                raise NoAnswer("a reported violation could not be reproduced: %s" % (violations[0][3],))
            b, v, rout, a = confirmed
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s.json" % pid)
            with open(path, "w") as f:
                json.dump({"property": pid, "build": b.name, "args": a, "case": v[1], "kind": v[0], "message": v[2],
                           "how": "python3 /verif/check.py --replay " + path, "output": rout[-6000:]}, f, indent=1)
            print("%s in %s: case %s: %s" % (v[0], b.name, v[1], v[2]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            ev["violations"] = len(violations)
            status = 1

        known = load_known()
        for k in sorted(known_seen):
            if (pid, k) in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, k)]))
            else:
                print("%s: %s" % (k, known_seen[k]))
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s.json" % pid)
                with open(path, "w") as f:
                    json.dump({"property": pid, "finding": k, "message": known_seen[k]}, f)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                ev["violations"] += 1
                status = 1

        c = {"samples": cov.pop("samples", [])}
        lvl = chk["level"]
        if lvl == "model_checking":
            c["states"] = len(states)
            c["transitions"] = cov.pop("transitions", 0)
            c["traces_validated_against_impl"] = cov.pop("traces", 0)
            c["executions"] = cov.pop("evaluations", 0)
        else:
            c["evaluations"] = cov.pop("evaluations", 0)
            c["distinct_nontrivial"] = len(states) if chk.get("nontrivial") == "states" else cov.pop("n_nontrivial", 0)
            c["rule"] = chk["rule"]
            if cov.get("transitions"):
                c["operations_compared"] = cov.pop("transitions")
            cov.pop("traces", None) if not cov.get("traces") else None
        c["exhaustive"] = status == 0
        c["bounds"] = chk["bounds"][tier]
        c["executions_per_variant"] = per_variant
        c["compile_s"] = round(t_compile, 1)
        for k, val in sorted(cov.items()):
            if k.startswith("x_") or k.startswith("n_"):
                c[k[2:]] = val
            elif val:
                c[k] = val
        ev["coverage"] = c
    except NoAnswer as e:
        print("NO ANSWER for %s: %s" % (pid, e))
        status = 2
        ev["coverage"] = {"explanation": "no answer: %s" % str(e)[:500], "evaluations": 0, "samples": []}
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if status == 0:
        print("OK property=%s tier=%s wall=%.1fs peak=%dMB %s" % (pid, tier, ev["wall_s"], peak >> 20, json.dumps({k: v for k, v in ev["coverage"].items() if isinstance(v, int)})))
    return status


def replay(path):
    r = json.load(open(path))
    chk = CHECKS[r["property"]]
    b = [x for x in chk["builds"] if x.name == r["build"]][0]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        try:
            exe, _ = compile_one(b, work)
        except NotCompiled as e:
            print(e)
            print("reproduced: does not compile" if b.foreign else "not reproduced on this tree")
            return 1 if b.foreign else 0
        rc, out = run_one(exe, r["args"] + b.args, 900)
        print(out[-8000:])
        v = find_violation(out)
        print("reproduced: %s" % (v,) if v else "not reproduced on this tree")
        return 1 if v else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--list":
        for k in sorted(CHECKS):
            print(k, [b.name for b in CHECKS[k]["builds"]])
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run_check(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
