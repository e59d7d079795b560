"""Seeded search for one property: builds the simulators from /repo, runs them, confirms and minimises failures."""
import collections
import json
import os
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

WORKERS = min(8, os.cpu_count() or 1)
FOUR = ["x86_64", "aarch64", "armv7l", "riscv64"]
SIX = FOUR + ["aarch64-android", "armv7l-android"]
OTHERS = ["x86_64-freebsd", "x86_64-macos", "arm64-macos", "arm64-ios", "wasm"]
WINDOWS = ["x86_64-windows", "arm64-windows"]


def both(arches, race):
    """asan builds of all given architectures, with a share of the runs on race-detecting builds"""
    t = [(a + ":asan", 4 - race) for a in arches]
    if race:
        t += [(a + ":race", race) for a in arches]
    return t


# property -> (targets with their share of the runs, runs in the quick tier, runs in the thorough tier)
PLAN = {
    "C01": (both(FOUR, 2), 80000, 1600000),
    "C02": (both(FOUR, 2), 100000, 2000000),
    "C03": (both(FOUR, 2), 160000, 3200000),
    "C04": (both(SIX, 1), 100000, 2000000),
    "C05": (both(SIX, 0), 80000, 1600000),
    "C06": (both(SIX, 0), 50000, 1000000),
    "C07": (both(SIX, 0), 30000, 600000),
    "C08": (both(["x86_64", "x86_64-android"], 0), 20000, 400000),
    "C09": (both(["aarch64", "armv7l", "aarch64-android", "armv7l-android"], 0), 60000, 1200000),
    "C10": (both(["riscv64"], 0), 40000, 800000),
    "C11": (both(FOUR, 0), 120000, 2400000),
    "C12": (both(SIX, 0), 80000, 1600000),
    "C13": (both(FOUR, 1), 160000, 3200000),
    "C14": (both(SIX, 0), 50000, 1000000),
    "C15": (both(SIX, 0), 50000, 1000000),
    "C16": ([("x86_64:log", 2), ("aarch64:log", 2), ("x86_64-windows:log", 1), ("aarch64-android:log", 1)], 120000, 2400000),
    "C17": (both(SIX, 0), 30000, 600000),
    "C22": (both(OTHERS, 1), 100000, 2000000),
    "C23": (both(OTHERS, 1), 60000, 1200000),
    "C24": (both(WINDOWS, 1), 100000, 2000000),
    "C25": (both(WINDOWS, 1), 60000, 1200000),
    "C26": ([(a + ":tools", 1) for a in SIX + ["x86_64-android"]], 50000, 1000000),
    "C27": (both(["aarch64", "armv7l", "aarch64-android", "armv7l-android"], 0), 80000, 1600000),
    "C28": (both(["aarch64", "armv7l", "aarch64-android", "armv7l-android"], 0), 60000, 1200000),
    "C29": ([("armv7l-android:asan", 3)] + [(a + ":asan", 1) for a in ["aarch64", "armv7l", "aarch64-android", "riscv64"]], 60000, 1200000),
    "C30": ([(a + ":asan", 3 if "android" in a else 1) for a in ["aarch64", "armv7l", "aarch64-android", "armv7l-android"]], 80000, 1600000),
    "C31": ([(a + ":mock", 2 if a == "x86_64" else 1) for a in ["x86_64", "aarch64", "armv7l", "aarch64-android", "armv7l-android"]], 60000, 1200000),
}
CAP = {"quick": 150, "thorough": 2400}

MIRROR_CLS, MIRROR_MSG, MIRROR_COUNT, MIRROR_CHOICES = 20, 84, 596, 600


class CheckError(Exception):
    pass


def read_mirror(path):
    with open(path, "rb") as f:
        m = f.read(MIRROR_CHOICES)
        h, index, failed = struct.unpack_from("<QQI", m, 0)
        n = struct.unpack_from("<I", m, MIRROR_COUNT)[0]
        choices = list(struct.unpack("<%dI" % n, f.read(4 * n)))
    text = lambda at, size: m[at:at + size].split(b"\0")[0].decode(errors="replace")
    return {"hash": "%016x" % h, "index": index, "cls": text(MIRROR_CLS, 64), "msg": text(MIRROR_MSG, 512), "choices": choices}


def crash_class(rc, mirror):
    if mirror["cls"]:
        return mirror["cls"]
    return "signal:%d" % -rc if rc < 0 else "exit:%d" % rc


def known_findings(prop):
    """[(class, text)] of the findings listed for a property"""
    out = []
    with open(VERIF + "/known_findings.txt") as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                _, _, cls, text = line.split(" ", 3)
                out.append((cls.split("=", 1)[1], text))
    return out


def replay(sim, prop, choices, scratch, trace=False):
    """one execution of a choice list in a fresh process"""
    tag = "%s/r%d" % (scratch, time.monotonic_ns())
    with open(tag, "w") as f:
        f.write("\n".join(map(str, choices)) + "\n")
    cmd = [sim, "replay", "--prop", prop, "--choices", tag, "--mirror", tag + ".m"]
    if trace:
        cmd += ["--trace", tag + ".t"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, errors="replace")
    except subprocess.TimeoutExpired:
        return {"failed": True, "cls": "timeout", "msg": "run did not end", "hash": "", "report": "", "trace": []}
    m = read_mirror(tag + ".m")
    if p.returncode == 0:
        r = json.loads(p.stdout.strip().splitlines()[-1])
    else:
        r = {"failed": True, "cls": crash_class(p.returncode, m), "msg": m["msg"], "hash": m["hash"]}
    r["report"] = "\n".join(l for l in p.stderr.splitlines() if l.strip())[:6000] if p.returncode else ""
    r["trace"] = []
    if trace and os.path.exists(tag + ".t"):
        with open(tag + ".t", errors="replace") as f:
            r["trace"] = f.read().splitlines()
    for e in ("", ".m", ".t"):
        if os.path.exists(tag + e):
            os.remove(tag + e)
    return r


class Worker(threading.Thread):
    """runs its share of the indices of one target, restarting the simulator after crashes"""

    def __init__(self, sim, target, prop, seed, start, stride, count, end, scratch, ignore):
        super().__init__(daemon=True)
        self.args = (sim, target, prop, seed, start, stride, count, end, scratch, ignore)
        self.out = "%s/w-%s-%d" % (scratch, target.replace(":", "-"), start)
        self.crashes = []
        self.error = None

    def run(self):
        try:
            self.work()
        except Exception as e:
            self.error = repr(e)

    def work(self):
        sim, target, prop, seed, start, stride, count, end, scratch, ignore = self.args
        open(self.out, "w").close()
        index, last = start, start + stride * count
        while index < last and len(self.crashes) < 3:
            left = end - time.time()
            if left < 0.5:
                break
            cmd = [sim, "run", "--prop", prop, "--seed", str(seed), "--start", str(index), "--stride", str(stride), "--count",
                   str((last - index + stride - 1) // stride), "--secs", "%.1f" % left, "--out", self.out, "--mirror", self.out + ".m"]
            if ignore:
                cmd += ["--ignore", ",".join(ignore)]
            try:
                p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=left + 120, errors="replace")
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -9
            if rc == 0:
                return
            if not os.path.exists(self.out + ".m") or os.path.getsize(self.out + ".m") == 0:
                raise CheckError("simulator did not start: %s" % p.stderr[:500])
            m = read_mirror(self.out + ".m")
            self.crashes.append({"index": m["index"], "cls": crash_class(rc, m), "msg": m["msg"], "choices": m["choices"]})
            index = m["index"] + stride

    def records(self):
        if os.path.exists(self.out):
            with open(self.out) as f:
                for line in f:
                    try:
                        yield json.loads(line)
                    except ValueError:
                        pass  # cut by a crash

    def hashes(self):
        if os.path.exists(self.out + ".hashes"):
            with open(self.out + ".hashes", "rb") as f:
                data = f.read()
            return struct.iter_unpack("<QQ", data[:len(data) // 16 * 16])
        return ()


def confirm(sim, prop, fail, scratch):
    """gate: the same choices must fail in the same way in two fresh processes; then minimise"""
    a = replay(sim, prop, fail["choices"], scratch)
    b = replay(sim, prop, fail["choices"], scratch)
    if not a["failed"] or not b["failed"] or a["cls"] != b["cls"] or a["hash"] != b["hash"]:
        return None
    src, dst = scratch + "/min.in", scratch + "/min.out"
    with open(src, "w") as f:
        f.write("\n".join(map(str, fail["choices"])) + "\n")
    best = fail["choices"]
    try:
        p = subprocess.run([sim, "minimise", "--prop", prop, "--choices", src, "--out", dst, "--secs", "40"], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=180)
        if p.returncode == 0 and json.loads(p.stdout).get("failed"):
            with open(dst) as f:
                best = [int(x) for x in f.read().split()]
    except (subprocess.TimeoutExpired, ValueError, OSError):
        pass
    final = [replay(sim, prop, best, scratch, trace=True), replay(sim, prop, best, scratch)]
    if not all(r["failed"] for r in final) or final[0]["cls"] != final[1]["cls"] or final[0]["hash"] != final[1]["hash"] or \
            final[0]["cls"] != a["cls"]:
        best = fail["choices"]
        final = [replay(sim, prop, best, scratch, trace=True)]
    return best, final[0]


def search(prop, seed, tier, scratch, ignore, log):
    targets, quick, thorough = PLAN[prop]
    t0 = time.time()
    failed = {}
    try:
        sims = build.build([t for t, _ in targets], failed)
    except build.BuildError as e:
        raise CheckError("building the simulator failed:\n%s" % e)
    # code that compiles for some systems only is still judged on those
    for t, e in sorted(failed.items()):
        log("%s does not compile and is left out: %s" % (t, e[-400:]))
    targets = [(t, w) for t, w in targets if t in sims]
    if not targets:
        raise CheckError("building the simulator failed for every target")
    built = time.time() - t0
    total = quick if tier == "quick" else thorough
    total = int(os.environ.get("VERIF_RUNS", total))
    shares = sum(w for _, w in targets)
    cap = int(os.environ.get("VERIF_CAP", CAP[tier]))
    start = time.time()
    # one queue of slices; WORKERS of them run at a time
    parts = -(-2 * WORKERS // len(targets))
    jobs = []
    for k in range(parts):
        for t, w in targets:
            n = max(1, total * w // shares // parts)
            jobs.append((t, k, parts, n))
    done, lock = [], threading.Lock()

    def pump():
        while True:
            with lock:
                if not jobs:
                    return
                t, k, stride, n = jobs.pop(0)
                waiting = len(jobs)
            # leave time for the slices still waiting
            left = start + cap - time.time()
            share = max(1.0, left / (1 + waiting // WORKERS))
            w = Worker(sims[t], t, prop, seed, k, stride, n, time.time() + share, scratch, ignore)
            w.target_name = t
            w.run()
            with lock:
                done.append(w)

    pumps = [threading.Thread(target=pump) for _ in range(WORKERS)]
    for p in pumps:
        p.start()
    for p in pumps:
        p.join()
    log("searched %.1f s after building for %.1f s" % (time.time() - start, built))
    return sims, done, time.time() - start, built, sorted(failed)


def collect(done):
    st = collections.Counter()
    per = {}
    faults, probes = collections.Counter(), collections.Counter()
    samples, fails, nondet, errors = [], [], [], []
    sets = {0: set(), 1: set(), 2: set()}
    for w in done:
        t = w.target_name
        if w.error:
            errors.append("%s: %s" % (t, w.error))
        for r in w.records():
            if r["type"] == "stats":
                for k in ("runs", "nontrivial", "steps", "blocks", "switches", "inits", "events", "choices", "sim_ns", "rechecked"):
                    st[k] += r[k]
                per[t] = per.get(t, 0) + r["runs"]
                faults.update(r["faults"])
                probes.update(r["probes"])
                samples += [t + " " + s for s in r["samples"][:1]]
            elif r["type"] == "fail":
                fails.append(dict(r, target=t))
            elif r["type"] == "nondeterminism":
                nondet.append(dict(r, target=t))
        fails += [dict(c, target=t) for c in w.crashes]
        for kind, v in w.hashes():
            sets[kind].add((t, v))
    return st, per, faults, probes, samples, fails, nondet, errors, sets


def seams(sims):
    sim, real = set(), set()
    for p in sims.values():
        with open(os.path.dirname(p) + "/seams.json") as f:
            s = json.load(f)
        sim |= set(s["simulated"])
        real |= set(s["real"])
    return sorted(sim), sorted(real)


RULE = {
    "default": "one case = one simulated run: machine, kernel files, schedule and faults all drawn from the seed; non-trivial as the scenario defines it (the "
               "situation the property speaks about really arose); distinct = different hash over the whole event history of the run",
}


def check(prop, seed, tier):
    began = time.time()
    log = lambda s: print("# " + s, flush=True)
    known = known_findings(prop)
    ignore = [c for c, _ in known]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        sims, done, secs, built, missing = search(prop, seed, tier, scratch, ignore, log)
        st, per, faults, probes, samples, fails, nondet, errors, sets = collect(done)
        if errors:
            raise CheckError("; ".join(errors[:3]))
        seen_known = collections.Counter(f["cls"] for f in fails if f["cls"] in ignore)
        fresh = sorted((f for f in fails if f["cls"] not in ignore), key=lambda f: len(f["choices"]))
        violations, unconfirmed, classes = [], 0, collections.Counter()
        for f in fresh:
            if classes[f["cls"]] or len(violations) >= 3:
                continue
            r = confirm(sims[f["target"]], prop, f, scratch)
            if not r:
                unconfirmed += 1
                log("run %d on %s failed with %s but did not fail alike twice in fresh processes" % (f["index"], f["target"], f["cls"]))
                if unconfirmed > 8:
                    break
                continue
            classes[f["cls"]] += 1
            choices, rep = r
            if rep["cls"] in ignore:
                continue
            os.makedirs(VERIF + "/replays", exist_ok=True)
            path = "%s/replays/%s-%s-%s.json" % (VERIF, prop, f["target"].replace(":", "-"), rep["hash"] or "timeout")
            with open(path, "w") as o:
                json.dump({"property": prop, "target": f["target"], "seed": seed, "index": f["index"], "cls": rep["cls"], "msg": rep["msg"],
                           "hash": rep["hash"], "choices_found": len(f["choices"]), "choices": choices, "trace": rep["trace"], "report": rep["report"]}, o, indent=1)
            violations.append((path, rep))
        simulated, real = seams(sims)
        wall = time.time() - began
        coverage = {
            "evaluations": st["runs"],
            "distinct_nontrivial": len(sets[0]),
            "rule": RULE.get(prop, RULE["default"]),
            "samples": samples[:8],
            "nontrivial_runs": st["nontrivial"],
            "runs_per_target": per,
            "targets_that_did_not_compile": missing,
            "runs_per_hour": int(st["runs"] / secs * 3600) if secs else 0,
            "seeds": "one master seed; run i uses hash(seed, property, i), indices 0..%d per target" % (max(per.values()) - 1 if per else 0),
            "simulated_seconds": st["sim_ns"] / 1e9,
            "scheduling_steps": st["steps"],
            "context_switches": st["switches"],
            "detections_run": st["inits"],
            "recorded_events": st["events"],
            "choices_drawn": st["choices"],
            "basic_blocks_of_code_under_test": st["blocks"],
            "faults_injected": dict(sorted(faults.items())),
            "situations_reached": dict(sorted(probes.items())),
            "distinct_interleavings": len(sets[1]),
            "distinct_interleavings_measure": "hash of the sequence of (thread, yield point) decisions of runs with at least one context switch",
            "distinct_shapes": len(sets[2]),
            "distinct_shapes_measure": "hash of the generated machine's outline together with the kinds of faults that fired",
            "runs_repeated_for_determinism": st["rechecked"],
            "runs_that_differed_when_repeated": len(nondet),
            "real_components": ["every C source file of /repo that its build file selects for: " + ", ".join(sorted(t for t in sims)),
                                "libc functions left real: " + ", ".join(real)],
            "stub_components": ["simulated calls: " + ", ".join(simulated)],
            "build_s": round(built, 1),
            "search_s": round(secs, 1),
        }
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "wall_s": round(wall, 2),
            "violations": len(violations),
            "assumptions": [
                "the library is compiled by the host's compiler with the preprocessor view of the target architecture; instructions specific to ARM and RISC-V are not executed",
                "kernel files have the format of the machine model in sim/machine.cpp",
                "threads switch at simulated calls and, in race builds, at instrumented memory accesses",
            ],
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = "%s/evidence/.%s.%d" % (VERIF, prop, os.getpid())
        with open(tmp, "w") as o:
            json.dump(evidence, o, indent=1)
        os.replace(tmp, "%s/evidence/%s.json" % (VERIF, prop))
        for cls, text in known:
            print("KNOWN-FINDING: property=%s %s (class %s, %d of this run's failures)" % (prop, text, cls, seen_known[cls]), flush=True)
        log("%d runs, %d distinct non-trivial, %d interleavings, %d faults, %.0f s" % (st["runs"], len(sets[0]), len(sets[1]), sum(v for k, v in faults.items() if k != "read:short"), wall))
        for path, rep in violations:
            print("# %s: %s" % (rep["cls"], rep["msg"]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        if violations:
            return 1
        if unconfirmed or nondet:
            raise CheckError("executions were not repeatable: %d failures not confirmed, %d runs differed when repeated" % (unconfirmed, len(nondet)))
        if not st["runs"]:
            raise CheckError("nothing was run")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
