"""Runner: seeded plans -> simulated runs -> violations, minimised replay files, evidence.

One plan (a JSON value) determines one execution completely.  A plan is drawn from a PRNG
that is seeded by (VERIF_SEED, property, run number) only, so one seed is one exactly
repeatable batch, independent of the number of workers.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
RUN_LIMIT_S = 100  # real time; two orders of magnitude above a normal run


class Violation(Exception):
    """The property is broken: kind is a stable class, detail says what was observed."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class RunTimeout(BaseException):
    pass


def require(cond, kind, detail=""):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)


class Stats:
    """Counters measured on this run; merged over runs."""

    def __init__(self):
        self.faults = collections.Counter()  # fault kinds that really fired
        self.probes = collections.Counter()  # rare conditions reached
        self.sigs = set()                    # signatures of distinct executions
        self.sim_seconds = 0.0
        self.events = 0

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def sig(self, obj):
        self.sigs.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest())

    def merge(self, o):
        self.faults.update(o.faults)
        self.probes.update(o.probes)
        self.sigs |= o.sigs
        self.sim_seconds += o.sim_seconds
        self.events += o.events


def rng_for(*parts):
    return random.Random("/".join(map(str, parts)))


def setup_process():
    """Environment of every process that runs simulated code."""
    sys.dont_write_bytecode = True
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    for v in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[v] = "1"
    sys.pycache_prefix = os.path.join(OUT, "no-bytecode")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for f in (sys.stdout, sys.stderr):
        if hasattr(f, "reconfigure"):
            f.reconfigure(errors="backslashreplace")
    cwd = os.path.join(OUT, "cwd")      # whatever escapes the simulation ends up here
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)


def _alarm(signum, frame):
    raise RunTimeout()


def execute(prop, plan):
    """Run one plan.  Returns (violation or None, Stats).  Harness errors propagate."""
    stats = Stats()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, RUN_LIMIT_S)
    try:
        prop.run(plan, stats)
        return None, stats
    except Violation as v:
        return v, stats
    except RunTimeout:
        return Violation("no-progress", f"no result within {RUN_LIMIT_S} s of real time"), stats
    except Exception as e:
        # an exception out of the code under test is its failure; anything else is ours
        if isinstance(e, AttributeError) and type(e.obj).__module__.startswith("MahjongAI."):
            return Violation("not-recorded", f"{type(e.obj).__name__} has no {e.name}"), stats
        frames = traceback.extract_tb(e.__traceback__)
        if frames and any(f.filename.startswith(REPO + os.sep) for f in frames):
            f = [f for f in frames if f.filename.startswith(REPO + os.sep)][-1]
            return Violation("code-raised", f"{type(e).__name__}: {e} at "
                             f"{os.path.basename(f.filename)}:{f.lineno}"), stats
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(propid, tier, seed, counter, total, stop, queue, deadline):
    try:
        setup_process()
        from dst import registry
        prop = registry.get(propid)
        stats = Stats()
        done = 0
        samples = []
        prop.setup()
        while not stop.value:
            with counter.get_lock():
                i = counter.value
                if i >= total:
                    break
                counter.value += 1
            if time.monotonic() > deadline:
                break
            plan = prop.generate(rng_for(seed, propid, i), tier, i)
            v, s = execute(prop, plan)
            stats.merge(s)
            done += 1
            if len(samples) < 2:
                samples.append(prop.describe(plan, s))
            if v is not None:
                queue.put(("violation", i, plan, v.kind, v.detail))
                stop.value = 1
                break
        queue.put(("done", done, stats, samples))
    except BaseException:
        queue.put(("error", traceback.format_exc()))
        stop.value = 1


def run_batch(prop, tier, seed, workers, total, deadline_s):
    ctx = multiprocessing.get_context("spawn")
    counter, stop = ctx.Value("i", 0), ctx.Value("i", 0)
    queue = ctx.Queue()
    deadline = time.monotonic() + deadline_s
    procs = [ctx.Process(target=_worker, args=(prop.id, tier, seed, counter, total, stop, queue, deadline))
             for _ in range(workers)]
    for p in procs:
        p.start()
    stats, done, samples, violations, errors = Stats(), 0, [], [], []
    open_ = len(procs)
    hard = deadline + RUN_LIMIT_S + 60
    while open_:
        try:
            msg = queue.get(timeout=2)
        except Exception:
            if time.monotonic() > hard:
                errors.append("worker did not finish")
                break
            if any(p.exitcode not in (None, 0) for p in procs):
                errors.append("worker died: " + str([p.exitcode for p in procs]))
                break
            continue
        if msg[0] == "violation":
            violations.append(msg[1:])
        elif msg[0] == "error":
            errors.append(msg[1])
            open_ -= 1
        else:
            done += msg[1]
            stats.merge(msg[2])
            samples += msg[3]
            open_ -= 1
    for p in procs:
        if errors and p.is_alive():
            p.kill()
        p.join(timeout=30)
    violations.sort(key=lambda v: v[0])
    return done, stats, samples, violations, errors


def _child(propid, plan, queue):
    try:
        setup_process()
        from dst import registry
        prop = registry.get(propid)
        prop.setup()
        v, _ = execute(prop, plan)
        queue.put(("ok", None if v is None else (v.kind, v.detail)))
    except BaseException:
        queue.put(("error", traceback.format_exc()))


def run_fresh(prop, plan):
    """Run a plan in a fresh process; returns None or (kind, detail)."""
    ctx = multiprocessing.get_context("spawn")
    q = ctx.Queue()
    p = ctx.Process(target=_child, args=(prop.id, plan, q))
    p.start()
    try:
        tag, res = q.get(timeout=RUN_LIMIT_S + 60)
    except Exception:
        tag, res = "error", "child died"
    p.join(timeout=10)
    if p.is_alive():
        p.kill()
    if tag == "error":
        raise RuntimeError(res)
    return res


def _minimiser(propid, plan, kind, budget_s, queue):
    try:
        setup_process()
        from dst import registry
        prop = registry.get(propid)
        prop.setup()
        end = time.monotonic() + budget_s
        best, tried = plan, 0
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for cand in prop.shrink(best):
                if time.monotonic() > end:
                    break
                tried += 1
                try:
                    v, _ = execute(prop, cand)
                except Exception:
                    continue
                if v is not None and v.kind == kind:
                    best, progress = cand, True
                    queue.put(("best", best, tried))
                    break
        queue.put(("end", best, tried))
    except BaseException:
        queue.put(("end", None, traceback.format_exc()))


def minimise(prop, plan, kind, budget_s):
    ctx = multiprocessing.get_context("spawn")
    q = ctx.Queue()
    p = ctx.Process(target=_minimiser, args=(prop.id, plan, kind, budget_s, q))
    p.start()
    best, tried = plan, 0
    end = time.monotonic() + budget_s + RUN_LIMIT_S
    while time.monotonic() < end:
        try:
            tag, b, t = q.get(timeout=2)
        except Exception:
            if not p.is_alive():
                break
            continue
        if b is not None:
            best, tried = b, t
        if tag == "end":
            break
    if p.is_alive():
        p.kill()
    p.join(timeout=10)
    return best, tried


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def main_check(propid, tier, seed):
    from dst import registry
    t0 = time.monotonic()
    prop = registry.get(propid)
    workers = int(os.environ.get("DST_WORKERS", "8"))
    total = int(os.environ.get("DST_RUNS", 0)) or prop.runs[tier]
    deadline = {"quick": 420, "thorough": 7200}[tier]
    os.makedirs(OUT, exist_ok=True)
    for f in load_known():
        if f.get("property") == propid:
            print(f"KNOWN-FINDING: property={propid} {f['what']}")
    done, stats, samples, violations, errors = run_batch(prop, tier, seed, workers, total, deadline)
    sim_wall = time.monotonic() - t0
    rc = 0
    replay = None
    for i, plan, kind, detail in violations[:4]:
        budget = {"quick": 90, "thorough": 300}[tier]
        small, tried = minimise(prop, plan, kind, budget)
        res = run_fresh(prop, small)
        if res is None or res[0] != kind:
            small, res = plan, run_fresh(prop, plan)
        if res is None:
            errors.append(f"violation of run {i} did not reproduce in a fresh process: {kind}: {detail}")
            continue
        os.makedirs(OUT, exist_ok=True)
        replay = os.path.join(OUT, f"{propid}-seed{seed}-run{i}.json")
        with open(replay, "w") as f:
            json.dump({"property": propid, "seed": seed, "run": i,
                       "violation": {"kind": res[0], "detail": res[1]},
                       "minimiser_runs": tried, "plan": small}, f, indent=1)
        print(f"violation in run {i} of seed {seed}: {res[0]}: {res[1][:2000]}")
        print(f"VIOLATION property={propid} replay={replay}")
        rc = 1
        break
    if errors and rc == 0:
        sys.stderr.write("HARNESS ERROR\n" + "\n".join(errors) + "\n")
        rc = 2
    if rc == 0 and done < total:
        # the wall-clock guard cut the batch short: say so; the evidence counts what was done
        print(f"note: only {done} of the {total} planned runs fitted into {deadline} s")
        if done < max(1, total // 20):
            sys.stderr.write("HARNESS ERROR: too few runs finished\n")
            rc = 2
    wall = time.monotonic() - t0
    for name in prop.required_probes:
        if rc == 0 and done and not (stats.probes[name] or stats.faults[name]):
            print(f"note: probe '{name}' was not reached in this run")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": propid, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": done,
            "planned": total,
            "distinct_nontrivial": len(stats.sigs),
            "rule": prop.rule,
            "samples": samples[:4] or ["(no run finished)"],
            "simulated_runs_per_hour": round(done / max(sim_wall, 1e-9) * 3600),
            "seeds_per_hour": round(done / max(sim_wall, 1e-9) * 3600),
            "simulated_seconds": round(stats.sim_seconds, 1),
            "simulated_events": stats.events,
            "faults_injected": dict(sorted(stats.faults.items())),
            "rare_conditions_reached": dict(sorted(stats.probes.items())),
            "probes_not_reached": [n for n in prop.required_probes
                                   if not (stats.probes[n] or stats.faults[n])],
            "distinct_measure": prop.measure,
            "components": prop.components,
            "workers": workers,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations) if rc == 1 else 0,
    }
    with open(os.path.join(VERIF, "evidence", f"{propid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{propid} {tier} seed={seed}: {done} runs, {len(stats.sigs)} distinct, {wall:.1f} s, exit {rc}")
    return rc


def main_replay(path):
    from dst import registry
    rec = json.load(open(path))
    prop = registry.get(rec["property"])
    res = run_fresh(prop, rec["plan"])
    if res is None:
        print(f"replay {path}: no violation")
        return 0
    print(f"replay: {res[0]}: {res[1][:2000]}")
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1


def trace_of(propid, seed, runs, queue):
    """Outcome of some runs, with everything that was measured in them."""
    try:
        setup_process()
        from dst import registry
        prop = registry.get(propid)
        prop.setup()
        out = []
        for i in runs:
            plan = prop.generate(rng_for(seed, propid, i), "quick", i)
            v, s = execute(prop, plan)
            out.append((i, hashlib.blake2b(json.dumps(plan).encode()).hexdigest()[:16], v and (v.kind, v.detail),
                        sorted(s.faults.items()), sorted(s.probes.items()), sorted(s.sigs), round(s.sim_seconds, 6),
                        s.events))
        queue.put(out)
    except BaseException:
        queue.put(traceback.format_exc())


def self_test(seeds=(1,), runs=6, ids=None):
    """The same runs in two fresh processes with different hash seeds must be identical."""
    from dst import registry
    ctx = multiprocessing.get_context("spawn")
    bad = 0
    for propid in ids or sorted(registry.MODULES):
        for seed in seeds:
            got = []
            procs = []
            for h in ("0", "4242"):
                os.environ["PYTHONHASHSEED"] = h
                q = ctx.Queue()
                p = ctx.Process(target=trace_of, args=(propid, seed, list(range(runs)), q))
                p.start()
                procs.append((p, q))
            for p, q in procs:
                got.append(q.get(timeout=900))
                p.join()
            same = got[0] == got[1] and not isinstance(got[0], str)
            bad += not same
            print(f"{propid} seed {seed}: {runs} runs twice: {'identical' if same else 'DIFFERENT'}")
            if not same:
                print(got[0] if isinstance(got[0], str) else
                      [(a, b) for a, b in zip(got[0], got[1]) if a != b][:1])
    os.environ.pop("PYTHONHASHSEED", None)
    return 1 if bad else 0


class Prop:
    """One property's simulation.  Subclasses fill these in."""
    id = ""
    level = "exploration"
    runs = {"quick": 100, "thorough": 1000}
    rule = ""
    measure = ""
    components = {"real": [], "stub": []}
    assumptions = []
    required_probes = ()

    def setup(self):
        pass

    def generate(self, rng, tier, index):
        raise NotImplementedError

    def run(self, plan, stats):
        raise NotImplementedError

    def shrink(self, plan):
        return ()

    def describe(self, plan, stats):
        s = json.dumps(plan, default=str)
        return s if len(s) < 1500 else s[:1500] + "..."
