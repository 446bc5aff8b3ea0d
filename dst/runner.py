"""Runs the cases of one property on all cores, minimises and records a violation, writes the evidence."""
import argparse
import copy
import ctypes
import hashlib
import json
import multiprocessing
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

from . import clock, env, gen
from .simloop import Hang

CHUNK = 20          # cases which share a process; part of what a seed means
CPU_LIMIT = 30      # seconds of CPU one case may take before it counts as a hang
TICK = 10           # seconds of real time without any use of a CPU, twice in a row: the case is blocked for ever
SOFT_CAP = {"quick": 420, "thorough": 3000}


class HarnessError(Exception):
    pass


def _on_timer(signum, frame):
    raise Hang("no result after %d s of CPU time" % CPU_LIMIT)


class _Blocked:
    """a case which waits for something that never happens uses no CPU at all (and does not wait for one either)"""

    def __init__(self):
        self.idle = 0
        self.last = self.used()

    @staticmethod
    def used():
        t = os.times()
        try:
            with open("/proc/self/schedstat") as f:
                delay = int(f.read().split()[1]) / 1e9
        except (OSError, IndexError, ValueError):
            delay = 0.0
        return t.user + t.system, delay

    def __call__(self, signum, frame):
        now = self.used()
        self.idle = self.idle + 1 if now[0] - self.last[0] < 0.2 and now[1] - self.last[1] < TICK / 4 else 0
        self.last = now
        if self.idle >= 2:
            self.idle = 0
            raise Hang("blocked for ever")


try:
    _libc = ctypes.CDLL(None)
    _libc.prctl
except (OSError, AttributeError):
    _libc = None


def isolated(fn, *args):
    """fn(*args) in a forked child: nothing a case leaves behind in the process reaches another chunk or attempt"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if _libc is not None:
                _libc.prctl(1, signal.SIGKILL, 0, 0, 0)      # PR_SET_PDEATHSIG: it ends with its parent
            try:
                out = ("ok", fn(*args))
            except HarnessError as e:
                out = ("harness", str(e))
            except BaseException as e:
                out = ("harness", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
            data = memoryview(pickle.dumps(out))
            while data:
                data = data[os.write(w, data):]
        except BrokenPipeError:
            pass
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    with os.fdopen(r, "rb") as f:
        for c in iter(lambda: f.read(1 << 16), b""):
            chunks.append(c)
    _, status = os.waitpid(pid, 0)
    if not chunks:
        raise HarnessError("the process of a case ended without a result (status %d)" % status)
    kind, out = pickle.loads(b"".join(chunks))
    if kind == "harness":
        raise HarnessError(out)
    return out


def watched(run, case):
    """-> (violations, stats, log) of a case; the cases named by it as before it run first, in the same process"""
    for c in case.get("before", ()):
        watched(run, c)
    prop = case["property"]
    old = signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    old_alarm = signal.signal(signal.SIGALRM, _Blocked())
    signal.setitimer(signal.ITIMER_REAL, TICK, TICK)
    clock.begin(case.get("clock"))
    try:
        w = run(case)
        if hasattr(w, "look_again"):
            w.look_again()
        stats = w.stats()
        if clock.happened():
            stats.setdefault("fired", {})["date set"] = clock.happened()
        return w.violations, stats, w.log
    except Hang as e:
        return [{"tags": [prop], "cls": "hang", "t": None, "text": str(e) + " " + _where(e)}], {}, []
    except RecursionError as e:
        return [{"tags": [prop], "cls": "crash", "t": None, "text": "RecursionError " + _where(e)}], {}, []
    except (Exception, SystemExit) as e:
        where = env.in_repo(e)
        if where:
            return [{"tags": [prop], "cls": "crash", "t": None, "text": "%r in %s" % (e, where)}], {}, []
        raise HarnessError("".join(traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        clock.end()
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def _where(e):
    out = ""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(env.REPO + os.sep):
            out = "in %s:%d" % (os.path.relpath(fn, env.REPO), tb.tb_lineno)
        tb = tb.tb_next
    return out


def history_hash(log):
    h = hashlib.blake2b(digest_size=8)
    for e in log:
        h.update(repr(e).encode())
    return h.hexdigest()


def untimed_hash(log):
    h = hashlib.blake2b(digest_size=8)
    for e in log:
        h.update(repr(e[1:]).encode())
    return h.hexdigest()


def shape_hash(log):
    h = hashlib.blake2b(digest_size=8)
    for e in log:
        h.update(repr(e[1:3]).encode())
    return h.hexdigest()


def mine(violations, prop):
    return [v for v in violations if prop in v["tags"]]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split(None, 3)[1:3])
                what = line.split(None, 3)[3].strip()
                if f.get("property") == prop:
                    out.append((f["signature"], what))
    return out


# ---------------------------------------------------------------- workers
_job = None


def _chunk(span):
    try:
        return isolated(_run_chunk, span)
    except HarnessError as e:
        return [], {"index": span[0], "error": str(e), "case": None}


def _run_chunk(span):
    prop, seed, tier, known = _job[:4]
    spec = _job[4]
    out = []
    for i in range(*span):
        case = make_case(spec, prop, seed, tier, i)
        try:
            violations, stats, log = watched(spec["run"], case)
        except HarnessError as e:
            return out, {"index": i, "error": str(e), "case": case}
        vs = [v for v in mine(violations, prop) if v.get("sig") not in known]
        hits = sorted(set(v["sig"] for v in mine(violations, prop) if v.get("sig") in known))
        out.append((i, untimed_hash(log), shape_hash(log), history_hash(log), len(log), stats, hits))
        if vs:
            return out, {"index": i, "violation": vs[0], "case": case}
    return out, None


def make_case(spec, prop, seed, tier, i):
    case = spec["gen"](gen.rng_for(seed, prop, i), prop, tier, i)
    case["clock"] = gen.gen_clock(gen.rng_for(seed, prop + "/clock", i), case)
    case["property"] = prop
    case["seed"] = seed
    case["index"] = i
    return case


def explore(spec, prop, seed, tier, n, jobs, cap, known):
    global _job
    _job = (prop, seed, tier, known, spec)
    size = spec.get("chunk", CHUNK)
    spans = [(a, min(a + size, n)) for a in range(0, n, size)]
    t0 = time.time()
    results, failure, stopped = [], None, False
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(jobs)
    try:
        it = pool.imap(_chunk, spans)
        for _ in spans:
            out, bad = it.next(timeout=CPU_LIMIT * 10 + 120)
            results.extend(out)
            if bad:
                failure = bad
                break
            if time.time() - t0 > cap:
                stopped = True
                break
    finally:
        pool.terminate()
        pool.join()
    return results, failure, stopped, time.time() - t0


# ---------------------------------------------------------------- minimising
def shrink(spec, case, cls, prop, known, budget=90.0, runs=1500):
    t0 = time.time()
    count = [0]

    def fails(c):
        if count[0] >= runs or time.time() - t0 > budget:
            return None
        count[0] += 1
        try:
            return isolated(_attempt, spec, c, cls, prop, known)
        except HarnessError:
            return None

    def ddmin(get, put, items):
        nonlocal case
        n = 2
        while items and n <= 2 * len(items):
            size = max(1, len(items) // n)
            for a in range(0, len(items), size):
                rest = items[:a] + items[a + size:]
                c = copy.deepcopy(case)
                put(c, rest)
                if fails(c):
                    case, items = c, rest
                    n = max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items) * 2, n * 2)
        return items

    def path_get(c, path):
        for p in path:
            c = c[p]
        return c

    again = True
    while again and time.time() - t0 < budget:
        before = json.dumps(case, sort_keys=True)
        for path in [("before",)] + spec.get("shrink", [("ops",), ("faults",)]) + [("clock", "jumps")]:
            try:
                items = path_get(case, path)
            except (KeyError, IndexError):
                continue

            def put(c, rest, path=path):
                path_get(c, path[:-1])[path[-1]] = rest
            if items and isinstance(items, list):
                c = copy.deepcopy(case)
                put(c, [])
                if fails(c):
                    case = c
                else:
                    ddmin(None, put, list(items))
        for simpler in spec.get("simplify", lambda c: ())(case):
            if fails(simpler):
                case = simpler
        again = json.dumps(case, sort_keys=True) != before
    return case, fails_final(spec, case, cls, prop, known), count[0]


def _attempt(spec, case, cls, prop, known):
    vs, _, _ = watched(spec["run"], case)
    for v in mine(vs, prop):
        if v["cls"] == cls and v.get("sig") not in known:
            return v
    return None


def fails_final(spec, case, cls, prop, known):
    try:
        return isolated(_final, spec, case, cls, prop, known)
    except HarnessError:
        return None


def _final(spec, case, cls, prop, known):
    vs, _, log = watched(spec["run"], case)
    for v in mine(vs, prop):
        if v["cls"] == cls and v.get("sig") not in known:
            return v, history_hash(log), log
    return None


# ---------------------------------------------------------------- main
def replay(spec, prop, path):
    data = json.load(open(path))
    vs, _, log = watched(spec["run"], data["case"])
    found = [v for v in mine(vs, prop) if v["cls"] == data["violation"]["cls"]]
    same = history_hash(log) == data["history"]
    for v in found[:1]:
        print("reproduced: %s: %s (t=%s)" % (v["cls"], v["text"], v["t"]))
        print("history identical: %s" % same)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not found:
        print("not reproduced")
    return 1 if found else 0


def evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    path = os.path.join(env.VERIF, "evidence", prop + ".json")
    data = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 2),
                violations=violations, assumptions=assumptions)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def add(total, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            add(total.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v


def main(argv=None):
    from .registry import CHECKS
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digest", action="store_true", help="print the hash of every history (determinism proof)")
    ap.add_argument("--only", type=int, help="run one index and print its history")
    ap.add_argument("--chunk", action="store_true", help="with --only: run the cases of the chunk before it first")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    spec = CHECKS[prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    env.load()
    if spec.get("setup"):
        spec["setup"]()
    if a.replay:
        return replay(spec, prop, a.replay)
    if a.only is not None:
        case = make_case(spec, prop, a.seed, tier, a.only)
        if a.chunk:
            first = a.only - a.only % spec.get("chunk", CHUNK)
            case["before"] = [make_case(spec, prop, a.seed, tier, i) for i in range(first, a.only)]
        vs, stats, log = watched(spec["run"], case)
        print(json.dumps(case))
        for e in log:
            print(e)
        print(json.dumps(stats, default=str))
        for v in vs:
            print(v)
        return 0
    print("seed=%d property=%s tier=%s" % (a.seed, prop, tier))
    n = a.cases or spec[tier]
    findings = known_findings(prop)
    known = set(s for s, _ in findings)
    results, failure, stopped, wall = explore(spec, prop, a.seed, tier, n, a.jobs, SOFT_CAP[tier], known)
    if a.digest:
        for r in results:
            print(r[0], r[3])
    total = {}
    for r in results:
        add(total, r[5])
    hits = sorted(set(s for r in results for s in r[6]))
    nontrivial = spec.get("nontrivial", lambda s: True)
    distinct = len(set(r[1] for r in results if r[5] and nontrivial(r[5])))
    sim = total.pop("sim_s", 0.0)
    sample_index = results[len(results) // 2][0] if results else 0
    coverage = dict(
        evaluations=len(results),
        distinct_nontrivial=distinct,
        rule=spec["rule"],
        samples=[trim(make_case(spec, prop, a.seed, tier, i)) for i in sorted({0, sample_index})],
        runs_per_hour=int(len(results) / max(wall, 1e-6) * 3600),
        seeds_per_hour=int(len(results) / max(wall, 1e-6) * 3600),
        simulated_seconds=round(sim, 3),
        faults_injected_and_fired=total.pop("fired", {}),
        rare_conditions_reached=total.pop("probes", {}),
        distinct_histories=len(set(r[1] for r in results)),
        distinct_interleavings=len(set(r[2] for r in results)),
        interleaving_measure="distinct_histories: distinct recorded event sequences, times removed; "
                             "distinct_interleavings: distinct sequences of (event kind, endpoint)",
        events=sum(r[4] for r in results),
        totals=total,
        stopped_by_time_cap=stopped,
        workers=a.jobs,
        real_components=spec["real"],
        simulated_components=spec["stub"],
        known_findings_hit=hits,
    )
    if failure and "error" in failure:
        print("HARNESS ERROR at case %d\n%s" % (failure["index"], failure["error"]))
        return 2
    evidence(prop, tier, a.seed, "exploration", coverage, time.time() - t0, 1 if failure else 0, spec["assumptions"])
    for s, what in findings:
        if s in hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%d runs, %.0f simulated seconds, %d distinct histories, %.1f s" % (len(results), sim, coverage["distinct_histories"], wall))
    if not failure:
        return 0
    v, case = failure["violation"], failure["case"]
    print("violation in case %d: %s: %s" % (failure["index"], v["cls"], v["text"]))
    runs = 0
    final = fails_final(spec, case, v["cls"], prop, known)
    if not final:      # it may need what earlier cases of the chunk left behind in the process
        first = failure["index"] - failure["index"] % spec.get("chunk", CHUNK)
        case = dict(case, before=[make_case(spec, prop, a.seed, tier, i) for i in range(first, failure["index"])])
        final = fails_final(spec, case, v["cls"], prop, known)
        print("it needs the cases before it" if final else "it does not repeat: the code under test is not deterministic")
    if final and not a.no_shrink:
        small, again, runs = shrink(spec, copy.deepcopy(case), v["cls"], prop, known, budget=spec.get("shrink_budget", 60))
        if again:
            case, final = small, again
    repeats = bool(final)
    v, digest, log = final or (v, None, [])
    os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
    path = os.path.join(env.VERIF, "replays", "%s-%d-%d.json" % (prop, a.seed, failure["index"]))
    with open(path, "w") as f:
        json.dump(dict(property=prop, seed=a.seed, index=failure["index"], violation=v, case=case, history=digest,
                       trace=[list(e) for e in log[-400:]], shrink_runs=runs), f, indent=1, default=str)
    print("minimised in %d runs: %d ops, %d faults: %s: %s" % (runs, len(case.get("ops", ())), len(case.get("faults", ())),
                                                               v["cls"], v["text"]))
    p = subprocess.run([sys.executable, "-m", "dst", prop, "--replay", path], cwd=env.VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if repeats and (p.returncode != 1 or "history identical: True" not in p.stdout):
        print("HARNESS WARNING: replay in a fresh process said:\n" + p.stdout[-2000:])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def trim(case):
    s = json.dumps(case)
    if len(s) < 6000:
        return case
    c = dict(case)
    c["ops"] = c.get("ops", [])[:12] + [{"note": "... %d more" % (len(c.get("ops", [])) - 12)}]
    if len(json.dumps(c)) > 12000:
        return json.dumps(case)[:6000] + "..."
    return c
