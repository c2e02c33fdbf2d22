"""Data loader in the simulated file system (C03, C04)."""
import importlib
import os
import tempfile

from dst import dataset as D
from dst.core import Prop, Violation, require
from dst.simfs import REAL, SimFS, Stuck, rmtree


def classify(rel):
    parts = rel.split(os.sep)
    return "game" if len(parts) > 2 or len(parts) == 2 and parts[1] != SAME else "dir"


SAME = "2021"   # directories of the same name in different places


class Pass:
    """What one loader still owes in its current pass."""

    def __init__(self, files):
        self.files = files
        self.owed = dict(files.required)
        self.seen = {}
        self.short = None
        self.ended = False


class LoaderProp(Prop):
    level = "exploration"
    measure = "distinct (file kinds in listing order, batch sizes, operations, faults that struck)"
    components = {"real": ["DataLoader", "process_xml.process and below", "XML parser"],
                  "stub": ["storage calls and directory order: simulated file system over a scratch directory",
                           "players and wall: pool of games from the table simulator"]}
    assumptions = ["what processing one log alone gives identifies the game (its content is judged by C10 to C16)"]
    bad = (0.0, 0.3)
    kinds = D.UNWANTED
    faulty = False

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        dirs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([0, 1, 2, 3, 5, 8, 13])
            bad = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
            files = D.draw_files(rng, numbers, n, bad, self.kinds)
            dirs.append(files)
        loaders = [[rng.randrange(len(dirs)), rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 25])]
                   for _ in range(rng.choice([1, 1, 2, 3]))]
        ops = []
        for _ in range(rng.randrange(0, 40)):
            i = rng.randrange(len(loaders))
            o = rng.random()
            if o < 0.70:
                ops.append([rng.choice(["next", "next", "iter"]), i])
            elif o < 0.78:
                ops.append(["reset", i])
            elif o < 0.88:
                ops.append(["drain", i])
            elif self.faulty:
                d = rng.randrange(len(dirs))
                if dirs[d]:
                    ops.append([rng.choice(["remove", "cut", "mkdir"]), d, rng.randrange(len(dirs[d])),
                                round(rng.random(), 6)])
        ops.append(["ends"])
        faults = []
        if self.faulty:
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                op, kind = rng.choice([("open_r", "EIO"), ("open_r", "EACCES"), ("open_r", "EMFILE"),
                                       ("open_r", "ENOMEM"), ("read", "EIO"), ("read", "EIO"), ("read", "ENOMEM"),
                                       ("open_r", "vanish"), ("open_r", "vanish"), ("open_r", "isdir")])
                faults.append({"cls": "game", "op": op, "n": rng.randrange(rng.choice([4, 12, 40])), "kind": kind,
                               "len": rng.choice([1, 1, 1, 2, 5])})
        return {"dirs": dirs, "loaders": loaders, "ops": ops, "faults": faults, "fs": rng.getrandbits(30),
                "out": rng.choice(["utf-8", "utf-8", "ascii", "cp932"]),
                "at": [rng.choice(["", SAME]), rng.choice(["/", ""])]}

    def run(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-")
        try:
            self.simulate(plan, stats, root)
        finally:
            rmtree(root)

    def simulate(self, plan, stats, root):
        fs = SimFS(root, plan["fs"], classify, stats)
        files = [D.Files(d) for d in plan["dirs"]]
        sub, end = plan.get("at", ["", "/"])
        for i, f in enumerate(files):
            f.write(os.path.join(root, f"d{i}", sub))
            for k in f.kind.values():
                if k in D.UNWANTED:
                    stats.probe("unwanted:" + k)
                elif k != D.GOOD:
                    stats.fault("damaged:" + k)
        fs.adopt()
        fs.out_encoding = plan.get("out", "utf-8")
        stats.probe("output-" + fs.out_encoding)
        D.cache_code()
        gone = set()        # (dir, name) whose content is no longer what was planned
        struck = set()
        self.stats = stats
        self.kept = []
        with fs.process(plan["faults"]):
            mod = D.fresh_import("MahjongAI.utils.dataloader")
            logged = []
            loaders = [mod.DataLoader(os.path.join(f"d{d}", sub).rstrip("/") + end, bs, logged.append) for d, bs in plan["loaders"]]
            passes = [Pass(files[d]) for d, _ in plan["loaders"]]
            ops = plan["ops"]

            def advance(i, it=False):
                ps, (d, bs) = passes[i], plan["loaders"][i]
                before = len(fs.hits)
                try:
                    got = next(iter(loaders[i]) if it else loaders[i])
                except StopIteration:
                    got = None
                except Stuck:
                    raise Violation("no-progress", f"loader {i} does not come to an end")
                except Exception as e:  # noqa: BLE001
                    raise Violation("pass-ended", f"loader {i} over {plan['dirs'][d]}: {type(e).__name__}: {e}")
                for kind, op, path in fs.hits[before:]:
                    name = path.split(os.sep)[2 if sub else 1:]
                    struck.add((kind, op))
                    if name:
                        if kind in ("vanish", "isdir"):
                            gone.add((d, name[0]))
                        # the read failed: this game may be missing from this pass
                        for j, q in enumerate(passes):
                            if plan["loaders"][j][0] == d and (j == i or kind in ("vanish", "isdir")):
                                q.owed = {x: n for x, n in q.owed.items() if n != name[0]}
                self.judge(ps, got, bs, i, files[d])
                return got is not None

            def reset(i):
                loaders[i].reset()
                d = plan["loaders"][i][0]
                if not passes[i].ended and passes[i].seen:
                    stats.probe("reset-in-mid-pass")
                passes[i] = Pass(files[d])
                passes[i].owed = {x: n for x, n in passes[i].owed.items() if (d, n) not in gone}

            def drain(i):
                for _ in range(len(files[plan["loaders"][i][0]].kind) + 2):
                    if not advance(i):
                        return
                raise Violation("no-progress", f"loader {i} keeps delivering")

            for op in ops:
                if op[0] in ("next", "iter"):
                    advance(op[1], op[0] == "iter")
                elif op[0] == "reset":
                    reset(op[1])
                elif op[0] == "drain":
                    drain(op[1])
                elif op[0] in ("remove", "cut", "mkdir"):
                    self.tamper(op, plan, files, fs, gone, passes, stats)
                elif op[0] == "ends":
                    for i in range(len(loaders)):
                        drain(i)
                        reset(i)
                        drain(i)
            fs.faults = []
            for i in range(len(loaders)):       # the faults have stopped
                reset(i)
                drain(i)
        for h, t, digests in self.kept[:12]:
            require([D.game_digest(x, y) for x, y in zip(h, t)] == digests, "batch-changed-later",
                    "a batch was changed after it had been delivered")
        stats.sig([[k for k in f.kind.values()] for f in files] + [b for _, b in plan["loaders"]]
                  + [o[:2] for o in plan["ops"]] + sorted(struck))

    @staticmethod
    def tamper(op, plan, files, fs, gone, passes, stats):
        """Somebody changes a log between listing and reading."""
        d, name = op[1], plan["dirs"][op[1]][op[2]][0]
        p = os.path.join(fs.root, f"d{d}", plan.get("at", [""])[0], name)
        if not os.path.isfile(p) or (d, name) in gone:
            return
        data = REAL.open(p, "rb").read()
        REAL.remove(p)
        if op[0] == "mkdir":
            os.mkdir(p)
        elif op[0] == "cut":
            with REAL.open(p, "wb") as f:
                f.write(data[:int(op[3] * (len(data) - 1))])
        stats.fault({"remove": "log-removed", "cut": "log-cut-in-use", "mkdir": "log-replaced-by-directory"}[op[0]])
        gone.add((d, name))
        for j, q in enumerate(passes):
            if plan["loaders"][j][0] == d:
                q.owed = {x: n for x, n in q.owed.items() if n != name}

    def judge(self, ps, got, bs, i, files):
        if got is None:
            require(not ps.owed, "game-not-delivered",
                    lambda: f"loader {i} (batch size {bs}): pass over {files.kind} ended without "
                            f"{sorted(ps.owed.values())}")
            if not ps.ended and ps.seen:
                self.stats.probe("pass-completed")
            elif not ps.ended:
                self.stats.probe("empty-pass")
            ps.ended = True
            return
        require(not ps.ended, "delivers-after-end", f"loader {i}: a batch after the end of the pass")
        halfturns, tokens = got
        self.kept.append((halfturns, tokens, [D.game_digest(h, t) for h, t in zip(halfturns, tokens)]))
        require(len(halfturns) == len(tokens), "mixed", f"loader {i}: {len(halfturns)} games, {len(tokens)} histories")
        require(1 <= len(halfturns) <= bs, "batch-size", f"loader {i}: batch of {len(halfturns)}, configured {bs}")
        require(ps.short is None, "short-batch", f"loader {i}: a batch of {ps.short} of {bs} was not the last")
        if len(halfturns) < bs:
            ps.short = len(halfturns)
        for h, t, x in zip(halfturns, tokens, self.kept[-1][2]):
            name = files.allowed.get(x)
            if name is not None and files.shape.get(name) is not None:
                got = [[sum(type(y).__name__ == "DiscardTurn" for y in r) for r in h], len(t)]
                require(got == files.shape[name], "not-a-whole-game",
                        lambda: f"loader {i}: {name}: discards per round and histories {got}, in the log "
                                f"{files.shape[name]}")
            require(name is not None, "not-a-whole-game",
                    lambda: f"loader {i}: delivered {len(h)} rounds of {[len(r) for r in h]} turns that are no "
                            f"usable game of {files.kind}")
            require(x not in ps.seen, "delivered-twice", f"loader {i}: {name}")
            ps.seen[x] = name
            ps.owed.pop(x, None)

    def shrink(self, plan):
        for i in range(len(plan["faults"])):
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
        for n in (len(plan["ops"]) // 2, len(plan["ops"]) // 4, 1):
            for i in range(0, len(plan["ops"]), max(1, n)):
                if n and len(plan["ops"]) > 1:
                    yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + n:])
        if len(plan["loaders"]) > 1:
            i = len(plan["loaders"]) - 1
            yield dict(plan, loaders=plan["loaders"][:i], ops=[o for o in plan["ops"] if len(o) != 2 or o[1] != i])
        for d, files in enumerate(plan["dirs"]):
            for j in range(len(files)):
                ops = []
                for o in plan["ops"]:
                    if len(o) == 4 and o[1] == d:
                        if o[2] == j:
                            continue
                        o = [o[0], d, o[2] - (o[2] > j), o[3]]
                    ops.append(o)
                yield dict(plan, dirs=plan["dirs"][:d] + [files[:j] + files[j + 1:]] + plan["dirs"][d + 1:], ops=ops)
            for j, f in enumerate(files):
                if f[1] != D.GOOD:
                    yield dict(plan, dirs=plan["dirs"][:d] + [files[:j] + [[f[0], D.GOOD, f[2], f[3]]] + files[j + 1:]]
                               + plan["dirs"][d + 1:])

    def describe(self, plan, stats):
        return (f"dirs {[[f[1] for f in d] for d in plan['dirs']]} loaders {plan['loaders']} ops {plan['ops']} "
                f"faults {plan['faults']}")[:900]


class C03(LoaderProp):
    id = "C03"
    runs = {"quick": 2500, "thorough": 100000}
    rule = ("one case is one history of calls on one to three loaders over one to three directories of good and "
            "unsupported logs; counted per distinct history")
    required_probes = ("unwanted:bye", "unwanted:robots", "unwanted:nored", "unwanted:kuinashi", "unwanted:three",
                       "unwanted:norounds", "reset-in-mid-pass", "pass-completed", "empty-pass")


class C04(LoaderProp):
    id = "C04"
    runs = {"quick": 2500, "thorough": 100000}
    kinds = D.DAMAGE + D.DAMAGE + ("truncated",) * 8 + D.UNWANTED
    faulty = True
    rule = ("one case is one history of calls on loaders over directories of good, damaged and unsupported logs with "
            "I/O faults, removals and replacements; counted per distinct history")
    required_probes = ("damaged:truncated", "damaged:garbage", "damaged:dir", "damaged:redraw", "damaged:nodiscard",
                       "EIO", "EACCES", "vanish", "isdir", "log-cut-in-use", "log-removed",
                       "pass-completed", "empty-pass", "training-run")

    def generate(self, rng, tier, index):
        if index % 6 == 5:
            return self.runner().generate(rng, tier, index)
        return super().generate(rng, tier, index)

    @staticmethod
    def runner():
        from dst.trainer import DamagedRun
        return DamagedRun()

    def run(self, plan, stats):
        (self.runner() if "starts" in plan else super()).run(plan, stats)

    def shrink(self, plan):
        return (self.runner() if "starts" in plan else super()).shrink(plan)

    def describe(self, plan, stats):
        return (self.runner() if "starts" in plan else super()).describe(plan, stats)
