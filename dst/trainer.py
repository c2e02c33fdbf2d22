"""The training program in the simulated machine (C01, C02, C05, C06, C07; also part of C04).

supervised_learning.py runs unchanged as __main__ on the simulated file system and clock, with
the real data loader, log processing, torch serialisation and torch optimizer.  Only the four
networks are replaced, by a tiny model whose losses have a known gradient, so that a reference
trainer written in numpy can follow every single update.
"""
import collections
import contextlib
import copy
import datetime as _dt
import hashlib
import importlib
import io
import math
import os
import random
import re
import runpy
import sys
import tempfile
import time
import traceback

import numpy as np

from dst import dataset as D
from dst.core import REPO, Prop, Violation, require
from dst.simfs import REAL, SimCrash, SimFS, Stuck, rmtree

MODELS = {"transformer": 5, "transformer_conv": 5, "transformer_conv_large": 2, "transformer_conv_large_3": 2,
          "transformer_conv_ordered": 4, "transformer_conv_ordered_large_2": 2,
          "transformer_conv_ordered_large_3": 2, "transformer_conv_ordered_large_4": 1,
          "transformer_conv_ordered_large_5": 1}
CLASSES = (("transformer", "TransformerModel", 0), ("transformer_conv", "TransformerConvModel", 1),
           ("transformer_conv_large", "TransformerConvLargeModel", 2),
           ("transformer_conv_ordered", "TransformerConvOrderedModel", 3))
YEARS = list(range(2012, 2020))
VAL = 2021
FINAL = re.compile(r"model_(%s)_checkpoint_iter_(\d+)\.pt" % "|".join(sorted(map(re.escape, MODELS), key=len, reverse=True)))
STAMP = re.compile(r"\[(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\] (.*)", re.S)


def classify(rel):
    if rel.startswith("saved_models"):
        name = os.path.basename(rel)
        return "dir" if name == "saved_models" else "ckpt" if FINAL.fullmatch(name) else "tmp"
    if rel.startswith("data"):
        return "game" if rel.count(os.sep) >= 3 else "data"
    return "other" if rel == "." else "log"


# ---------------------------------------------------------------- reference trainer
def learning_rate(t):
    """Learning rate of update number t (0, 1, ...) of a run."""
    if t < 1000:
        return 1e-3 * t / 1000
    return 1e-3 * 0.5 * (1 + math.cos(math.pi * (t - 1000) / (1000000 - 1000)))


class Reference:
    """AdamW (torch's default constants) on the gradient of SimModel's losses."""

    def __init__(self, w, trainable):
        self.w, self.on = w.copy(), trainable
        self.m = np.zeros_like(w)
        self.v = np.zeros_like(w)
        self.t = 0

    def loss(self, c, offset):
        w = self.w * self.on
        return float(c @ w + 0.05 * (w @ w) + offset)

    def update(self, c):
        g = (c + 0.1 * self.w) * self.on
        lr = learning_rate(self.t)
        self.t += 1
        self.w = self.w * (1 - lr * 0.01 * self.on)
        self.m = 0.9 * self.m + 0.1 * g
        self.v = 0.999 * self.v + 0.001 * g * g
        mh, vh = self.m / (1 - 0.9 ** self.t), self.v / (1 - 0.999 ** self.t)
        self.w = self.w - lr * mh / (np.sqrt(vh) + 1e-8)


# ---------------------------------------------------------------- recorder and model
class Recorder:
    """What one simulated process did, as seen from the model."""

    def __init__(self, source_of, size):
        self.source_of = source_of      # game identity -> (directory, name)
        self.size = size
        self.model = None
        self.init = None                # weights of the fresh model
        self.started = None             # weights at the first forward pass
        self.ref = None
        self.events = []                # ("train"|"val"|"mixed", games, info) ("save", path, ...) ("out", text)
        self.live_errors = []
        self.schedulers = []            # learning rate schedulers made
        self.made = None                # real network: (class, arguments)
        self.start_state = None
        self.batches = []               # real network: training calls with the random state before them

    def weights(self):
        return flat(self.model.state_dict())


def flat(state):
    return np.concatenate([np.asarray(state[k].detach().double()).ravel() for k in sorted(state)])


def rng_state():
    import torch
    h = hashlib.blake2b(digest_size=8)
    h.update(torch.get_rng_state().numpy().tobytes())
    h.update(repr(random.getstate()).encode())
    s = np.random.get_state()
    h.update(s[1].tobytes() + repr(s[2:]).encode())
    return h.hexdigest()


def make_class(rec, tag):
    import torch

    class SimModel(torch.nn.Module):
        def __init__(self, n_layers=0):
            super().__init__()
            n = rec.size + 8 * tag + 64 * n_layers
            self.head = torch.nn.Parameter(torch.randn(n, dtype=torch.float64))
            self.tail = torch.nn.Parameter(torch.randn(3, 5, dtype=torch.float64))
            self.register_buffer("layers", torch.tensor([tag, n_layers], dtype=torch.float64))
            rec.model = self
            rec.init = flat(self.state_dict())

        def forward(self, all_halfturns_list, all_encoding_tokens_list, sample=False, sample_size=2250):
            info = describe_call(rec, self, all_halfturns_list, all_encoding_tokens_list, sample)
            games, phase = info["games"], info["phase"]
            if rec.started is None:
                rec.started = rec.weights()
                n = self.head.numel()
                on = np.ones(len(rec.started))
                on[n:n + 2] = 0     # the buffer
                rec.ref = Reference(rec.started, on)
            rec.events.append((phase, info))
            seed = int(hashlib.blake2b("/".join(games).encode(), digest_size=6).hexdigest(), 16)
            for k in range(1 + seed % 3):
                self.check(info)
                g = np.random.default_rng([seed, k])
                n, m = self.head.numel(), self.tail.numel()
                c = g.uniform(0.5, 1.5, n + 2 + m) * g.choice([-1.0, 1.0], n + 2 + m)
                offset = float(g.uniform(-50, 200))
                if sample:
                    c = c * (1 + 0.1 * float(torch.randperm(8)[0]))
                if self.training:
                    c = c * (0.6 + 0.8 * torch.rand(len(c), dtype=torch.float64).numpy())
                tc = torch.from_numpy(c)
                loss = (tc[:n] * self.head).sum() + (tc[n + 2:].reshape(3, 5) * self.tail).sum() \
                    + 0.05 * (self.head ** 2).sum() + 0.05 * (self.tail ** 2).sum() + offset
                info["losses"].append((float(loss.detach()), rec.ref.loss(c, offset)))
                if phase != "val":
                    rec.ref.update(c)
                yield torch.zeros(1, 1, dtype=torch.float64), loss
            self.check(info)
            info["end"] = rng_state(), rec.weights()

        def check(self, info):
            if rec.live_errors:
                return
            d = float(np.max(np.abs(rec.weights() - rec.ref.w)))
            if not d <= 1e-9:
                rec.live_errors.append(f"the weights differ by {d:.3g} from exactly one update per training loss "
                                       f"(after {rec.ref.t} losses of this run)")
    return SimModel


def make_real(rec, cls):
    """The real network, with a record of its use."""
    import torch

    class Recorded(cls):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            rec.model, rec.made = self, (cls, a, kw)
            rec.init = flat(self.state_dict())

        def forward(self, all_halfturns_list, all_encoding_tokens_list, *a, **kw):
            info = describe_call(rec, self, all_halfturns_list, all_encoding_tokens_list,
                                 kw.get("sample", a[0] if a else False))
            if rec.started is None:
                rec.started = rec.weights()
                rec.start_state = copy.deepcopy(self.state_dict())
            if info["phase"] != "val":
                rec.batches.append((all_halfturns_list, all_encoding_tokens_list, a, kw, torch.get_rng_state()))
            rec.events.append((info["phase"], info))
            for logits, loss in super().forward(all_halfturns_list, all_encoding_tokens_list, *a, **kw):
                x = float(loss.detach())
                info["losses"].append((x, x))
                yield logits, loss
            info["end"] = rng_state(), rec.weights()
    return Recorded


def describe_call(rec, model, halfturns_list, tokens_list, sample):
    """Who called the network, with what."""
    import torch
    games = [D.game_digest(h, t) for h, t in zip(halfturns_list, tokens_list)]
    src = [rec.source_of.get(x) for x in games]
    years = {s[0] for s in src if s is not None}
    return {"phase": "val" if years == {VAL} else "train" if years and VAL not in years else "other",
            "training": model.training, "sample": bool(sample), "grad": torch.is_grad_enabled(),
            "rng": rng_state(), "weights": rec.weights(), "losses": [], "games": games, "source": src,
            "lengths": (len(halfturns_list), len(tokens_list))}


# ---------------------------------------------------------------- one machine, several starts
class Start:
    """Record of one start of the training program."""


class Machine:
    def __init__(self, plan, stats, root):
        import torch
        self.torch = torch
        self.plan, self.stats = plan, stats
        self.files = {int(y): D.Files(f) for y, f in plan["dirs"].items()}
        self.source_of = {}
        for y, f in self.files.items():
            f.write(os.path.join(root, "data", "processed", str(y)))
            for d, name in f.allowed.items():
                self.source_of[d] = (y, name)
        self.root = os.path.realpath(root)
        self.models = os.path.join(self.root, "saved_models")
        self.accept = {}        # final path -> acceptable weights, newest last
        self.announced = set()
        self.place(plan["present"])
        self.fs = SimFS(root, plan["fs"], classify, stats)
        self.fs.clock += plan.get("clock", 0)
        self.fs.out_encoding = plan.get("out", "utf-8")
        if plan.get("real"):
            stats.probe("real-networks")
        self.fs.adopt()
        self.starts = []

    def place(self, present):
        """Files in the checkpoint directory before the first start."""
        for name, kind, x in present:
            os.makedirs(self.models, exist_ok=True)
            path = os.path.join(self.models, name)
            m = FINAL.fullmatch(name)
            if m:
                w = initial_state(m.group(1), self.plan["size"], x, self.torch)
                self.torch.save(w, path)
                self.accept[path] = [flat(w)]
                self.announced.add(path)
            else:
                with REAL.open(path, "wb") as f:
                    f.write(b"not a checkpoint" if kind != "torch" else pickled(self.torch, self.plan["size"]))
            os.utime(path, (1.5e9 - 1000 * x, 1.5e9 - 1000 * x))

    # -- what is on disk
    def checkpoints(self):
        """{path: weights or the reason it cannot be loaded}"""
        out = {}
        if not os.path.isdir(self.models):
            return out
        for name in sorted(os.listdir(self.models)):
            path = os.path.join(self.models, name)
            if FINAL.fullmatch(name) and os.path.isfile(path):
                out[path] = self.load(path)
        return out

    def load(self, path):
        try:
            with REAL.open(path, "rb") as f:
                return flat(self.torch.load(io.BytesIO(f.read()), map_location="cpu"))
        except Exception as e:  # noqa: BLE001
            return f"{type(e).__name__}: {e}"[:200]

    def newest(self, model):
        best = None
        for path, w in self.checkpoints().items():
            m = FINAL.fullmatch(os.path.basename(path))
            if m.group(1) == model and (best is None or int(m.group(2)) > best[0]):
                best = (int(m.group(2)), path, w)
        return best

    def logs(self):
        out = {}
        for name in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, name)
            if os.path.isfile(p):
                with REAL.open(p, "rb") as f:
                    out[name] = f.read()
        return out

    # -- one start
    def start(self, spec):
        torch, fs = self.torch, self.fs
        st = Start()
        st.spec = spec
        st.model, st.n = spec["model"], spec["n"]
        st.newest = self.newest(st.model)
        st.logs_before = self.logs()
        rec = st.rec = Recorder(self.source_of, self.plan["size"])
        st.lines = []           # (lowest clock, highest clock, text) of time-stamped lines
        st.late = []            # lines that were not in the log in time
        st.stray = []
        partial = [""]
        watch = {"bounds": None}

        def listen(event, path):
            if event == "out":
                partial[0] += fs.out[-1][1]
                while "\n" in partial[0]:
                    line, partial[0] = partial[0].split("\n", 1)
                    if STAMP.fullmatch(line):
                        if watch["live"]:
                            self.behind(st)
                        st.lines.append((fs.low, fs.high, line))
                        fs.low = fs.high = fs.clock
                        rec.events.append(("out", line))
                        if re.search(r"\bsaved\b", line, re.I) and rec.model is not None:
                            for name in re.findall(r"model_\w+_checkpoint_iter_\d+\.pt\b", line):
                                p = os.path.join(self.models, name)
                                self.announced.add(p)
                                self.accept[p] = [rec.weights()]
                    else:
                        st.stray.append(line)
            elif event in ("name", "unlink") and os.path.dirname(path) == self.models:
                m = FINAL.fullmatch(os.path.basename(path))
                if m and event == "name" and rec.model is not None:
                    w = rec.weights()
                    self.accept.setdefault(path, []).append(w)
                    rec.events.append(("save", path, m.group(1), int(m.group(2)), w,
                                       None if rec.ref is None else rec.ref.w))

        watch["live"] = self.plan.get("watch_log", False)
        fs.listeners = [listen]
        fs.jumps = {int(k): v for k, v in spec.get("jumps", {}).items()}
        D.cache_code()
        path0 = list(sys.path)
        state = random.getstate(), np.random.get_state()
        random.seed(self.plan["torch"])
        np.random.seed(self.plan["torch"])
        torch.manual_seed(self.plan["torch"] + len(self.starts))
        st.end, st.error = "ok", None
        base = torch.optim.lr_scheduler.LRScheduler
        real_init = base.__init__

        def init(self, *a, **kw):
            rec.schedulers.append(self)
            real_init(self, *a, **kw)
        base.__init__ = init
        try:
            with fs.process(spec["faults"], ["supervised_learning.py", st.model, str(st.n)]):
                for name in [n for n in sys.modules if n == "MahjongAI" or n.startswith("MahjongAI.")]:
                    del sys.modules[name]
                if self.plan.get("stub"):
                    px = importlib.import_module("MahjongAI.process_xml")
                    px.process = stub_process
                for mod, cls, tag in CLASSES:
                    mod = importlib.import_module("MahjongAI.agents." + mod)
                    setattr(mod, cls, make_real(rec, getattr(mod, cls)) if self.plan.get("real")
                            else make_class(rec, tag))
                runpy.run_path(os.path.join(REPO, "MahjongAI", "supervised_learning.py"), run_name="__main__")
        except SimCrash:
            st.end = "power" if fs.power_lost else "kill"
        except Stuck:
            st.end, st.error = "stuck", f"no end after {fs.step_limit} operations"
        except (Exception, SystemExit) as e:  # noqa: BLE001
            st.end = "error"
            tb = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + os.sep)]
            if not tb:
                raise
            st.error = f"{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        finally:
            base.__init__ = real_init
            sys.path[:] = path0
            random.setstate(state[0])
            np.random.set_state(state[1])
            fs.jumps = {}
        st.hits = list(fs.hits)
        st.struck = bool(st.hits)
        st.dead = fs.dead
        st.final = None if rec.model is None else rec.weights()
        st.logs_after = self.logs()
        if fs.power_lost or spec.get("then") == "power":
            if not fs.power_lost:
                self.stats.fault("power-after-run")
            st.power = True
            fs.recover()
        else:
            st.power = False
        st.disk = self.checkpoints()
        st.announced, st.accept = set(self.announced), copy.copy(self.accept)
        self.stats.probe("end-" + st.end)
        self.starts.append(st)
        return st

    def behind(self, st):
        """Every line reported before this one must be in the file by now."""
        body = self.grown(st)
        have = stamped(body)
        want = [x[2] for x in st.lines]
        if have[:len(want)] != want and not st.late:
            st.late.append(f"reported so far {want[-3:]}, but the log ends with {have[-3:]}")

    def grown(self, st):
        """What the log files gained since the start of this process."""
        out = b""
        for name, data in self.logs().items():
            old = st.logs_before.get(name, b"")
            if data != old:
                out += data[len(old):]
        return out


def stamped(body):
    """The complete time-stamped lines."""
    return [x for x in body.decode("utf-8", "replace").split("\n")[:-1] if STAMP.fullmatch(x)]


def n_layers(model):
    t = {"transformer": (0, 0), "transformer_conv": (1, 0), "transformer_conv_large": (2, 2),
         "transformer_conv_large_3": (2, 3), "transformer_conv_ordered": (3, 1)}
    if model in t:
        return t[model]
    return 3, int(model.rsplit("_", 1)[1])


def initial_state(model, size, x, torch):
    tag, layers = n_layers(model)
    g = torch.Generator().manual_seed(int(x * 1e6) + 17)
    n = size + 8 * tag + 64 * layers
    return collections.OrderedDict(
        head=torch.randn(n, dtype=torch.float64, generator=g),
        tail=torch.randn(3, 5, dtype=torch.float64, generator=g),
        layers=torch.tensor([tag, layers], dtype=torch.float64))


def pickled(torch, size):
    b = io.BytesIO()
    torch.save({"head": torch.zeros(size)}, b)
    return b.getvalue()


def stub_process(path, verbose=False):
    """Stands in for the log processing in very long runs: the file says which game it is."""
    with open(path, "rb") as f:
        k = int(f.read())
    return [f"stub-{k}"], [f"stub-{k}"]


# ---------------------------------------------------------------- plans
def draw_dirs(rng, numbers, per_year, val, bad, kinds):
    dirs = {str(y): D.draw_files(rng, numbers, rng.choice(per_year), bad, kinds) for y in YEARS}
    dirs[str(VAL)] = D.draw_files(rng, numbers, rng.choice(val), bad, kinds)
    return dirs


SAVE_FAULTS = (("tmp", "open_w"), ("tmp", "write"), ("tmp", "write"), ("tmp", "fsync"), ("ckpt", "replace"),
               ("ckpt", "open_w"), ("ckpt", "write"), ("ckpt", "fsync"), ("dir", "fsync"), ("dir", "open_r"),
               ("tmp", "*"), ("ckpt", "*"), ("dir", "*"), ("dir", "list"), ("ckpt", "open_r"), ("ckpt", "read"),
               ("tmp", "unlink"), ("ckpt", "unlink"))


def save_fault(rng, power=0.45):
    """A fault in or around saving a checkpoint."""
    kind = "power" if rng.random() < power else rng.choice(["kill", "kill", "ENOSPC", "EIO", "EIO", "short"])
    r = rng.random()
    if r < 0.75:
        cls, op = rng.choice(SAVE_FAULTS)
        if kind == "short":
            op = "write"
        n = rng.choice([0, 0, 0, 1, 1, 2, 3, rng.randrange(8), rng.randrange(25)])
    elif r < 0.9:
        cls, op, n = "log", rng.choice(["*", "write", "open_w"]), rng.randrange(rng.choice([6, 20, 60]))
    else:
        cls, op, n = "*", "*", rng.randrange(rng.choice([30, 100, 400]))
    ln = 1
    if kind in ("ENOSPC", "EIO"):
        ln = rng.choice([1, 1, 2, 10 ** 6])
    return {"cls": cls, "op": op, "n": n, "kind": kind, "x": round(rng.random(), 3), "len": ln}


def game_fault(rng):
    op, kind = rng.choice([("open_r", "EIO"), ("open_r", "EACCES"), ("open_r", "EMFILE"), ("read", "EIO"),
                           ("read", "EIO"), ("open_r", "vanish"), ("open_r", "isdir"), ("read", "ENOMEM")])
    return {"cls": "game", "op": op, "n": rng.randrange(rng.choice([3, 12, 40])), "kind": kind,
            "len": rng.choice([1, 1, 2, 4])}


def distractors(rng, model, others, present):
    """Names around the checkpoints that are none, and checkpoints of the models with similar names."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 4])):
        i = rng.choice([0, 3, 12, 99, 100, 1000])
        name = rng.choice([
            f"model_{model}_checkpoint_iter_{i}.pt.tmp", f"model_{model}_checkpoint_iter_{i}.pt.bak",
            f"model_{model}_checkpoint_iter_{i}.pt.bak.pt", f"model_{model}_checkpoint_iter_best.pt",
            f"model_{model}_checkpoint_iter_.pt", f"old_model_{model}_checkpoint_iter_{i}.pt",
            f"model_{model}_checkpoint_iter_{i}_best.pt", f"model_{model}_checkpoint_iter_-{i}.pt",
            f"model_{model}_checkpoint_iter_{i}.pth", f"model_{model}_{i}.pt", "notes.txt",
            f"model_{model}_checkpoint_iter_{i}.5.pt", f"xmodel_{model}_checkpoint_iter_{i}.pt"])
        out.append([name, rng.choice(["text", "torch"]), round(rng.random(), 6)])
    for m in others:
        for i in rng.sample([0, 1, 2, 7, 9, 10, 11, 12, 30, 99], rng.choice([0, 1, 2, 3])):
            out.append([f"model_{m}_checkpoint_iter_{i}.pt", "ckpt", round(rng.random(), 6)])
    for i in present:
        out.append([f"model_{model}_checkpoint_iter_{i}.pt", "ckpt", round(rng.random(), 6)])
    seen = {}
    for f in out:
        seen[f[0]] = f
    return [seen[k] for k in sorted(seen)]


NEIGHBOURS = {m: [o for o in MODELS if o != m and (o.startswith(m) or m.startswith(o))] for m in MODELS}


class TrainerProp(Prop):
    level = "exploration"
    measure = "distinct (files per directory, starts with model, iterations and end, faults that struck)"
    components = {
        "real": ["supervised_learning.py as __main__", "DataLoader", "process_xml.process", "torch.optim.AdamW",
                 "LambdaLR", "torch.save/torch.load", "autograd"],
        "stub": ["the four networks: one small model with a known gradient",
                 "storage calls, directory order, clock: simulated machine over a scratch directory",
                 "players and wall: pool of games from the table simulator"]}
    assumptions = [
        "a power loss keeps per file what was fsynced and a prefix (the last write possibly torn) of the rest, and a "
        "prefix of the name changes not yet committed by an fsync of the directory or of a file (journalled metadata)",
        "a new directory is durable as soon as mkdir returns",
        "log processing is replaced by a stub in the runs of more than 1000 updates (the games are numbered files)",
    ]

    def run(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-")
        try:
            m = Machine(plan, stats, root)
            self.simulate(m, plan, stats)
            stats.sig([[[f[1] for f in fs] for fs in plan["dirs"].values()], len(plan["present"]),
                       [(s.model, s.n, s.end, s.power, s.hits and sorted({h[:2] for h in s.hits}))
                        for s in m.starts]])
        finally:
            rmtree(root)

    def simulate(self, m, plan, stats):
        for spec in plan["starts"]:
            st = m.start(spec)
            self.judge(m, st, stats)
            if st.end == "stuck":
                raise Violation("no-progress", st.error)

    def judge(self, m, st, stats):
        pass

    def shrink(self, plan):
        starts = plan["starts"]
        if len(starts) > 1:
            for i in range(len(starts)):
                yield dict(plan, starts=starts[:i] + starts[i + 1:])
        for i, s in enumerate(starts):
            def with_(**kw):
                return dict(plan, starts=starts[:i] + [dict(s, **kw)] + starts[i + 1:])
            for j in range(len(s["faults"])):
                yield with_(faults=s["faults"][:j] + s["faults"][j + 1:])
            if s.get("jumps"):
                yield with_(jumps={})
            if s.get("then"):
                yield with_(then=None)
            if s["n"] > 1:
                yield with_(n=1)
                yield with_(n=s["n"] - 1)
            for j, f in enumerate(s["faults"]):
                if f["n"] > 0:
                    for n in (0, f["n"] // 2, f["n"] - 1):
                        yield with_(faults=s["faults"][:j] + [dict(f, n=n)] + s["faults"][j + 1:])
        if plan["present"]:
            yield dict(plan, present=[])
            for i in range(len(plan["present"])):
                yield dict(plan, present=plan["present"][:i] + plan["present"][i + 1:])
        if any(plan["dirs"].values()):
            for y, files in plan["dirs"].items():
                if files:
                    yield dict(plan, dirs=dict(plan["dirs"], **{y: []}))
            for y, files in plan["dirs"].items():
                if len(files) > 1:
                    for n in (len(files) // 2, 1):
                        yield dict(plan, dirs=dict(plan["dirs"], **{y: files[n:]}))
                        yield dict(plan, dirs=dict(plan["dirs"], **{y: files[:-n]}))

    def describe(self, plan, stats):
        d = {y: [f[1] for f in fs] for y, fs in plan["dirs"].items() if fs}
        return f"files {d} present {[p[0] for p in plan['present']]} starts {plan['starts']}"[:1200]

    def base(self, rng, **kw):
        plan = {"fs": rng.getrandbits(30), "torch": rng.getrandbits(30), "clock": rng.randrange(10 ** 8),
                "size": rng.choice([8, 40, 40]), "present": [], "out": rng.choice(["utf-8", "utf-8", "ascii", "cp932"])}
        plan.update(kw)
        return plan

    def real(self, rng, plan):
        """The same with the real networks: few, small games, no foreign weights."""
        plan["real"] = True
        plan["present"] = [p for p in plan["present"] if not FINAL.fullmatch(p[0])]
        for s in plan["starts"]:
            s["n"] = min(s["n"], 2)
        for y, files in plan["dirs"].items():
            plan["dirs"][y] = [f for f in files if len(D.text(f[2])) < 5000][:5 if y != str(VAL) else 8]
        return plan

    @staticmethod
    def start(model, n, faults=(), **kw):
        return dict({"model": model, "n": n, "faults": list(faults)}, **kw)


def judge_saved(m, st):
    """C01: what the checkpoint names hold after the end of a process."""
    for path in st.announced:
        require(path in st.disk, "announced-checkpoint-lost",
                lambda: f"{os.path.basename(path)} was reported as saved and is gone after {st.end} (hits {st.hits})")
    for path, w in st.disk.items():
        name = os.path.basename(path)
        require(not isinstance(w, str), "torn-checkpoint", lambda: f"{name} after {st.end} (hits {st.hits}): {w}")
        ok = st.accept.get(path, [])
        require(any(w.shape == a.shape and np.array_equal(w, a) for a in ok), "wrong-checkpoint",
                lambda: f"{name} after {st.end} (hits {st.hits}) holds none of the weights saved under that name")


def judge_moment(st):
    """C01: a checkpoint is written when its iteration has finished and before the next one begins."""
    years = set()
    for e in st.rec.events:
        if e[0] in ("train", "other"):
            years |= {x[0] for x in e[1]["source"] if x is not None}
        elif e[0] == "save":
            require(years <= {2012 + e[3] % 8, VAL}, "wrong-moment",
                    lambda: f"the checkpoint of iteration {e[3]} was written after training on years {sorted(years)}")
            years = set()


class C01(TrainerProp):
    id = "C01"
    level = "fault_enumeration"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("one case is one sequence of starts of the trainer with kills, power losses and disk faults placed at "
            "storage operations, every checkpoint file being loaded after each of them; counted per distinct "
            "(files, starts, ends, faults that struck)")
    required_probes = ("kill", "power", "ENOSPC", "EIO", "partial-write", "short-write", "torn-write", "lost-write",
                       "lost-name-change", "power-after-run", "resumed", "save-replaced", "many-checkpoints")

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        model = rng.choice(list(MODELS))
        dirs = draw_dirs(rng, numbers, [0, 1, 1, 2], [0, 1], 0.1, D.UNWANTED)
        starts = []
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            mo = model if rng.random() < 0.85 else rng.choice(list(MODELS))
            starts.append(self.start(mo, rng.choice([1, 1, 2, 3]),
                                     [save_fault(rng) for _ in range(rng.choice([0, 1, 1, 1, 2]))],
                                     then=rng.choice([None, None, "power"])))
        starts.append(self.start(model, 1))
        present = distractors(rng, model, rng.sample(NEIGHBOURS[model], min(1, len(NEIGHBOURS[model]))),
                              rng.choice([[], [], [0], [8, 9, 10]]))
        if index % 12 == 3:     # many checkpoints
            for y in dirs:
                dirs[y] = dirs[y][:1] if rng.random() < 0.2 else []
            present = distractors(rng, model, [], rng.choice([[], range(25), range(0, 110, 5), range(95, 105)]))
            starts[0]["n"] = rng.choice([6, 12, 25])
        plan = self.base(rng, dirs=dirs, starts=starts, present=present, size=rng.choice([40, 40, 1500, 6000]))
        return self.real(rng, plan) if index % 15 == 8 else plan

    def judge(self, m, st, stats):
        if st.newest is not None:
            stats.probe("resumed")
        if len(st.disk) > 20:
            stats.probe("many-checkpoints")
        if sum(len(v) > 1 for v in st.accept.values()):
            stats.probe("save-replaced")
        judge_saved(m, st)
        if not st.hits:
            judge_moment(st)
        if st.end == "error" and not st.struck:
            raise Violation("start-failed", f"start without faults after {[s.end for s in m.starts]}: {st.error}")


class C02(TrainerProp):
    id = "C02"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("one case is one history of starts of one to three models on one directory with crashes and faults in "
            "between and misleading files in the checkpoint directory, the last start being free of faults; counted "
            "per distinct (files, starts, ends, faults that struck)")
    required_probes = ("fresh-start", "resumed", "resumed-two-digits", "distractor", "other-models-checkpoint", "kill",
                       "power", "ENOSPC", "rotation-wrapped", "zero-iterations", "iteration-without-games")

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        model = rng.choice(list(MODELS))
        others = rng.sample(NEIGHBOURS[model], min(len(NEIGHBOURS[model]), rng.choice([0, 1, 2])))
        dirs = draw_dirs(rng, numbers, [0, 1, 1, 2, 3], [0, 1], 0.15, D.UNWANTED)
        starts = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            mo = model if rng.random() < 0.7 or not others else rng.choice(others)
            f = []
            if rng.random() < 0.5:
                f = [save_fault(rng, 0.3) for _ in range(rng.choice([1, 1, 2]))]
            starts.append(self.start(mo, rng.choice([0, 1, 1, 2, 3, rng.choice([9, 11])]), f,
                                     then=rng.choice([None, None, None, "power"])))
        starts.append(self.start(model, rng.choice([1, 1, 2, 3])))
        present = distractors(rng, model, others, rng.choice([[], [], [0], [2], [7], [8, 9, 10], [9, 10], [2, 11, 100],
                                                              [99, 100], [15, 3, 14], [998, 1000, 999]]))
        return self.base(rng, dirs=dirs, starts=starts, present=present)

    def judge(self, m, st, stats):
        rec = st.rec
        name = st.model
        if st.newest is None:
            first, expected = 0, rec.init
            stats.probe("fresh-start")
        else:
            first, expected = st.newest[0] + 1, st.newest[2]
            stats.probe("resumed")
            if first >= 10:
                stats.probe("resumed-two-digits")
            if isinstance(expected, str):
                expected = None     # torn: C01's business
        for p in m.plan["present"]:
            mm = FINAL.fullmatch(p[0])
            if not mm:
                stats.probe("distractor")
            elif mm.group(1) != name:
                stats.probe("other-models-checkpoint")
        what = f"start {len(m.starts) - 1} of {name} for {st.n} (newest checkpoint {st.newest and st.newest[0]})"
        got = rec.started if rec.started is not None else st.final if st.end == "ok" else None
        if got is not None and expected is not None:
            require(got.shape == expected.shape and np.array_equal(got, expected), "wrong-start-weights",
                    lambda: f"{what}: training started from other weights than those of the "
                            f"{'newest checkpoint' if st.newest else 'fresh model'}; files "
                            f"{sorted(os.listdir(m.models)) if os.path.isdir(m.models) else []}")
        if not st.struck:
            require(st.end == "ok", "did-not-complete", lambda: f"{what}: {st.error}")
        saves = [e for e in rec.events if e[0] == "save"]
        nums = []
        for e in saves:
            require(e[2] == name, "wrong-checkpoint-name", f"{what}: wrote {os.path.basename(e[1])}")
            if not nums or nums[-1] != e[3]:
                nums.append(e[3])
        want = list(range(first, first + st.n))
        require(nums == want[:len(nums)] and (st.end != "ok" or nums == want), "iterations",
                lambda: f"{what}: iterations saved {nums}, expected {want}")
        if st.end == "ok":
            for i in want:
                p = os.path.join(m.models, f"model_{name}_checkpoint_iter_{i}.pt")
                require(p in st.disk or st.power, "checkpoint-missing", lambda: f"{what}: none for iteration {i}")
        if st.n == 0:
            stats.probe("zero-iterations")
        # the games of every iteration are those of its year
        i = first
        used = 0
        for e in rec.events:
            if e[0] == "save":
                i = e[3] + 1
                if not used:
                    stats.probe("iteration-without-games")
                used = 0
            elif e[0] in ("train", "other"):
                used += 1
                year = 2012 + i % 8
                if i >= 8:
                    stats.probe("rotation-wrapped")
                bad = [s for s in e[1]["source"] if s is None or s[0] != year]
                require(not bad, "wrong-year", lambda: f"{what}: iteration {i} trained on {e[1]['source']}")


def passes(st):
    """[(iteration saved or None, [train events])]: training between saves."""
    out, cur, last = [], [], None
    for e in st.rec.events:
        if e[0] == "save":
            if e[1] != last:
                out.append((e, cur))
                cur = []
            last = e[1]
        elif e[0] in ("train", "other"):
            cur.append(e[1])
            last = None
    out.append((None, cur))
    return out


class C07(TrainerProp):
    id = "C07"
    runs = {"quick": 700, "thorough": 25000}
    rule = ("one case is one history of starts followed update by update by the reference trainer, every checkpoint "
            "compared; counted per distinct (files, starts, ends, faults that struck); a fixed share of the cases runs "
            "past the 1000 warm-up updates")
    required_probes = ("updates", "checkpoint-compared", "whole-pass", "past-warm-up", "resumed", "twin",
                       "game-fault-survived", "short-write", "schedule-asked", "past-10000", "real-updates",
                       "year-repeated")

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        model = rng.choice(list(MODELS))
        if index % 25 == 7:
            return self.long(rng, model, index % 600 == 32)
        dirs = draw_dirs(rng, numbers, [0, 1, 2, 4, 7], [0, 1, 3], 0.2, D.UNWANTED + ("truncated", "garbage"))
        if index % 20 == 13:    # every year comes round again
            few = rng.choice([[0, 1], [1, 2, 3], [0, 3, 6]])
            dirs = draw_dirs(rng, numbers, few, [0, 1], 0.1, D.UNWANTED + ("truncated",))
            return self.base(rng, dirs=dirs, twin=False, present=distractors(rng, model, [], rng.choice([[], [9, 10]])),
                             starts=[self.start(model, rng.choice([9, 11, 18]), [game_fault(rng)][:rng.choice([0, 0, 1])])])
        starts = []
        for _ in range(rng.choice([1, 1, 2])):
            f = []
            if rng.random() < 0.3:
                f.append(save_fault(rng))
            for _ in range(rng.choice([0, 0, 1, 2])):
                f.append(game_fault(rng))
            if rng.random() < 0.3:
                f.append({"cls": rng.choice(["tmp", "log"]), "op": "write", "n": rng.randrange(4), "kind": "short",
                          "x": 0.4, "len": 3})
            starts.append(self.start(model, rng.choice([1, 2, 3]), f, then=rng.choice([None, None, "power"])))
        plan = self.base(rng, dirs=dirs, starts=starts, twin=rng.random() < 0.3,
                         present=distractors(rng, model, [], rng.choice([[], [], [0], [9, 10]])))
        if index % 10 == 4:
            for x in starts:
                x["faults"] = [f for f in x["faults"] if f["cls"] == "game" or f["kind"] == "short"]
            return self.real(rng, plan)
        return plan

    def long(self, rng, model, very):
        if very:
            model = rng.choice([m for m in MODELS if MODELS[m] == 1])
        bs = MODELS[model]
        n = rng.choice([520, 620, 700]) * bs
        if bs > 2:
            n = 620 * bs
        if very:
            n = 5200
        dirs = {str(y): [] for y in YEARS + [VAL]}
        for j in range(2):
            dirs[str(2012 + j)] = [[f"g{k}", "stub", k + 10 ** 6 * j, 0] for k in range(n // 2)]
        dirs[str(VAL)] = [[f"g{k}", "stub", k + 5 * 10 ** 6, 0] for k in range(rng.choice([0, 3]))]
        return self.base(rng, dirs=dirs, starts=[self.start(model, 2)], size=8, stub=True, twin=False)

    def simulate(self, m, plan, stats):
        super().simulate(m, plan, stats)
        if plan.get("twin") and not any(s.hits for s in m.starts[:1]):
            # the same start at another time, with faults that do no harm
            other = dict(plan, clock=plan["clock"] + 10 ** 7 + 12345, starts=[dict(
                plan["starts"][0], then=None,
                faults=[{"cls": "tmp", "op": "write", "n": 0, "kind": "short", "x": 0.5, "len": 2}])])
            root = tempfile.mkdtemp(prefix="dst-")
            try:
                t = Machine(other, stats, root)
                st = t.start(other["starts"][0])
            finally:
                rmtree(root)
            stats.probe("twin")
            a, b = m.starts[0], st
            if a.end == "ok" and b.end == "ok":
                require(np.array_equal(a.final, b.final), "depends-on-clock-or-faults",
                        "the same start at another time of day, with short writes, ends with other weights")

    def judge(self, m, st, stats):
        rec = st.rec
        what = f"start {len(m.starts) - 1} of {st.model} for {st.n}"
        if st.newest is not None:
            stats.probe("resumed")
        if any(c in ("EIO", "EACCES", "EMFILE", "ENOMEM", "vanish", "isdir") and p.startswith("data/")
               for c, _, p in st.hits) and st.end == "ok":
            stats.probe("game-fault-survived")
        require(not rec.live_errors, "weights", lambda: f"{what}: {rec.live_errors[0]}")
        if rec.made is not None and st.end == "ok":
            self.follow(m, st, what, stats)
        if rec.ref is not None:
            stats.probe("updates", rec.ref.t)
            if rec.ref.t > 1000:
                stats.probe("past-warm-up")
                self.schedule(rec, what, stats)
            if rec.ref.t > 10000:
                stats.probe("past-10000")
            if st.end == "ok":
                d = float(np.max(np.abs(st.final - rec.ref.w)))
                require(d <= 1e-9, "weights", lambda: f"{what}: at the end the weights differ by {d:.3g} from exactly "
                                                      f"one update per training loss ({rec.ref.t} losses)")
        for e in rec.events:
            if e[0] == "save" and rec.made is None:
                ref = e[5] if e[5] is not None else rec.started if rec.started is not None else rec.init \
                    if st.newest is None else st.newest[2]
                w = st.disk.get(e[1])
                if not st.power and st.end in ("ok",) and isinstance(w, np.ndarray) and not isinstance(ref, str):
                    stats.probe("checkpoint-compared")
                    require(w.shape == ref.shape and float(np.max(np.abs(w - ref))) <= 1e-9, "checkpoint",
                            lambda: f"{what}: {os.path.basename(e[1])} does not hold the weights after the last "
                                    f"update of its iteration")
        data_hit = any(p.startswith("data/") for _, _, p in st.hits)
        seen = set()
        for e, train in passes(st):
            if e is None:
                if st.end == "ok":
                    require(not train, "training-after-last-checkpoint", what)
                continue
            for info in train:
                require(info["lengths"][0] == info["lengths"][1], "mixed", what)
            year = 2012 + e[3] % 8
            got = collections.Counter(x for info in train for x in info["games"])
            files = m.files[year]
            require(all(v == 1 for v in got.values()), "trained-twice",
                    lambda: f"{what}: iteration {e[3]}: a game was trained on more than once")
            if not data_hit and not any(any(p.startswith("data/") for _, _, p in s.hits) for s in m.starts):
                missing = [n for d, n in files.required.items() if d not in got]
                require(not missing, "checkpoint-before-end-of-pass",
                        lambda: f"{what}: the checkpoint of iteration {e[3]} was saved without {missing}")
                if train:
                    stats.probe("whole-pass")
                    if year in seen:
                        stats.probe("year-repeated")
                    seen.add(year)


    @staticmethod
    def schedule(rec, what, stats):
        """The rest of the schedule, which no simulated run can reach: asked of the scheduler itself, if it is one
        that can be asked."""
        if len(rec.schedulers) != 1 or type(rec.schedulers[0]).__name__ != "LambdaLR" or \
                len(rec.schedulers[0].lr_lambdas) != 1:
            return
        s = rec.schedulers[0]
        rng = random.Random(rec.ref.t)
        steps = list(range(990, 1010)) + [rng.randrange(10 ** 6) for _ in range(300)] + \
            [2000, 5000, 9999, 10000, 10001, 99999, 100000, 500000, 999000, 999999, 1000000]
        for t in steps:
            got = s.base_lrs[0] * s.lr_lambdas[0](t)
            require(abs(got - learning_rate(t)) <= 1e-9, "schedule",
                    lambda: f"{what}: learning rate {got} at step {t} instead of {learning_rate(t)}")
        stats.probe("schedule-asked")

    def follow(self, m, st, what, stats):
        """The same batches through a second copy of the real network, trained by a plain loop."""
        torch, rec = m.torch, st.rec
        if rec.start_state is None:
            return
        state = torch.get_rng_state()
        cls, a, kw = rec.made
        net = cls(*a, **kw)
        net.load_state_dict(rec.start_state)
        net.train()
        opt = torch.optim.AdamW(net.parameters(), lr=1e-3)
        t, i = 0, 0
        for e in rec.events:
            if e[0] in ("train", "other"):
                h, k, pa, pk, rng = rec.batches[i]
                i += 1
                torch.set_rng_state(rng)
                with contextlib.redirect_stdout(io.StringIO()):
                    for logits, loss in net(h, k, *pa, **pk):
                        opt.zero_grad()
                        loss.backward()
                        for g in opt.param_groups:
                            g["lr"] = learning_rate(t)
                        opt.step()
                        t += 1
            elif e[0] == "save":
                self.same(flat(net.state_dict()), e[4], what + f", checkpoint {e[3]}", t)
                w = st.disk.get(e[1])
                if not st.power and isinstance(w, np.ndarray):
                    stats.probe("checkpoint-compared")
                    self.same(flat(net.state_dict()), w, what + f", file of checkpoint {e[3]}", t)
        self.same(flat(net.state_dict()), st.final, what, t)
        stats.probe("real-updates", t)
        torch.set_rng_state(state)

    @staticmethod
    def same(a, b, what, t):
        if b is None:
            return
        d = float(np.max(np.abs(a - b))) if a.shape == b.shape else math.inf
        require(d <= 3e-7, "weights", lambda: f"{what}: the real network's weights differ by {d:.3g} from those of a plain "
                                              f"training loop over the same batches ({t} losses)")


class C05(TrainerProp):
    id = "C05"
    runs = {"quick": 700, "thorough": 25000}
    rule = ("one case is one training run, its twin without usable validation games, and the comparison of every "
            "training step of the two; counted per distinct (files, starts, ends, faults that struck)")
    required_probes = ("validation", "validation-without-games", "more-than-20-games", "several-validations",
                       "second-validation-in-iteration", "val-fault", "resumed", "validation-between-steps")

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        model = rng.choice(list(MODELS))
        present = distractors(rng, model, [], rng.choice([[], [], [3]]))
        if index % 25 == 3:
            dirs = {str(y): [] for y in YEARS + [VAL]}
            dirs["2012"] = [[f"g{k}", "stub", k, 0] for k in range(rng.choice([1004, 1013]))]
            dirs[str(VAL)] = [[f"g{k}", "stub", k + 5 * 10 ** 6, 0] for k in range(rng.choice([1, 8, 30]))]
            return self.base(rng, dirs=dirs, starts=[self.start(model, 1)], size=8, stub=True, void="empty")
        dirs = draw_dirs(rng, numbers, [1, 1, 2, 4], [0, 1, 2, 5, 9, 19, 20, 21, 22, 26, 31],
                         rng.choice([0, 0.2, 0.5, 1.0]), D.UNWANTED + D.DAMAGE)
        for y in YEARS:     # training files good
            dirs[str(y)] = [[f[0], D.GOOD, f[2], f[3]] for f in dirs[str(y)]]
        plan = self.base(rng, dirs=dirs, starts=[self.start(model, rng.choice([1, 2, 3]))], present=present,
                         void=rng.choice(["empty", "bad"]))
        return self.real(rng, plan) if index % 10 == 6 else plan

    def simulate(self, m, plan, stats):
        spec = plan["starts"][0]
        st = m.start(spec)
        require(st.end == "ok", "run-failed", lambda: f"{st.error}")
        if st.newest is not None:
            stats.probe("resumed")
        self.judge_val(m, st, stats)
        self.judge_train(st)
        self.judge_between(st, stats)
        val = plan["dirs"][str(VAL)]
        twin = dict(plan, dirs=dict(plan["dirs"], **{str(VAL): [] if plan["void"] == "empty" else [
            [f[0], "empty" if f[1] != "stub" else "empty", f[2], f[3]] for f in val]}))
        root = tempfile.mkdtemp(prefix="dst-")
        try:
            t = Machine(twin, stats, root)
            tw = t.start(spec)
        finally:
            rmtree(root)
        require(tw.end == "ok", "run-failed", lambda: f"without a usable validation game: {tw.error}")
        self.judge_val(t, tw, stats)
        a = [e[1] for e in st.rec.events if e[0] in ("train", "other")]
        b = [e[1] for e in tw.rec.events if e[0] in ("train", "other")]
        for i, (x, y) in enumerate(zip(a, b)):
            for key, what in (("games", "the games"), ("rng", "the random state"), ("training", "the mode"),
                              ("sample", "subsampling"), ("losses", "the losses")):
                require(x[key] == y[key], "validation-influences-training",
                        lambda: f"training step {i}: {what} differ between the run with {len(val)} validation files "
                                f"and the run without usable ones")
        require(len(a) == len(b), "validation-influences-training", f"{len(a)} training steps with, {len(b)} without")
        require(np.array_equal(st.final, tw.final), "validation-influences-training", "final weights differ")

    @staticmethod
    def judge_between(st, stats):
        """From the end of one training call to the start of the next one of the same pass: what is the same when no
        validation lies in between must be the same when one does."""
        last, vals, steps = None, 0, []
        for e in st.rec.events:
            if e[0] == "save":
                last, vals = None, 0
            elif e[0] == "val":
                vals += 1
            elif e[0] in ("train", "other"):
                if last is not None and "end" in last:
                    steps.append((vals, last["end"][0] == e[1]["rng"], np.array_equal(last["end"][1], e[1]["weights"])))
                last, vals = e[1], 0
        for k, what in ((1, "the random state"), (2, "the weights")):
            if all(x[k] for x in steps if not x[0]):
                require(all(x[k] for x in steps if x[0]), "validation-influences-training",
                        lambda: f"{what} of the training differ before and after a validation")
        stats.probe("validation-between-steps", sum(bool(x[0]) for x in steps))
        last = None
        for e in st.rec.events:     # the weights of a checkpoint are those after the last training call
            if e[0] == "save" and last is not None and "end" in last:
                require(np.array_equal(e[4], last["end"][1]), "validation-influences-training",
                        lambda: f"the weights saved for iteration {e[3]} are not those after its last training step")
            elif e[0] in ("train", "other"):
                last = e[1]

    def judge_train(self, st):
        for e in st.rec.events:
            if e[0] in ("train", "other"):
                require(e[1]["training"], "mode", "a training step ran in evaluation mode")
                require(e[0] == "train", "wrong-data", f"trained on {e[1]['source']}")

    def judge_val(self, m, st, stats):
        files = m.files[VAL]
        total = len(files.required)
        allowed = len(files.allowed)
        group, reported, in_iter, first = [], 0, 0, None
        weights = None
        for e in st.rec.events + [("end",)]:
            if e[0] == "val":
                info = e[1]
                require(not info["training"], "mode", "validation ran in training mode (dropout on)")
                require(not info["sample"], "subsampling", "validation subsampled")
                group.append(info)
            elif e[0] == "save":
                in_iter = 0
            elif e[0] == "out":
                v = re.search(r"val\w*[ _]loss[\s:=]*(nan|-?[\d.]+(?:e[-+]?\d+)?)", e[1], re.I)
                if not v:
                    continue
                reported += 1
                in_iter += 1
                if in_iter > 1:
                    stats.probe("second-validation-in-iteration")
                stats.probe("validation")
                value = float(v.group(1))
                losses = [x for info in group for x in info["losses"]]
                if not losses:
                    require(math.isnan(value), "value", f"reported {value} without any validation game")
                    stats.probe("validation-without-games")
                    require(total == 0, "too-few-games", f"no validation game was looked at, {total} are usable")
                else:
                    for k, name in ((0, "losses"), (1, "reference losses")):
                        mean = sum(x[k] for x in losses) / len(losses)
                        require(abs(mean - value) <= 1e-6 * (1 + abs(mean)), "value",
                                lambda: f"reported {value}, the mean of the {len(losses)} {name} is {mean}")
                    seq = [x for info in group for x in info["games"]]
                    n = len(seq)
                    require(len(set(seq)) == n, "twice", "a validation game was used twice in one validation")
                    require(n >= min(20, total), "too-few-games",
                            f"{n} games looked at, {total} are usable")
                    if n > 20 or n < allowed:
                        stats.probe("more-than-20-games")
                    bad = [s for info in group for s in info["source"] if s is None or s[0] != VAL]
                    require(not bad, "wrong-data", f"validated on {bad}")
                    if first is None:
                        first = seq
                    else:
                        stats.probe("several-validations")
                        k = min(len(first), n)
                        require(first[:k] == seq[:k], "not-from-the-start",
                                "a later validation does not start with the same games as the first")
                group = []
            elif e[0] in ("train", "other", "end") and group:
                raise Violation("not-reported", "validation batches were evaluated, but no value was reported")
        if any(e[0] == "train" for e in st.rec.events):
            require(reported, "not-reported", "no validation value was reported")
        for k in files.kind.values():
            if k in D.DAMAGE:
                stats.probe("val-fault")


class C06(TrainerProp):
    id = "C06"
    runs = {"quick": 1200, "thorough": 40000}
    rule = ("one case is one sequence of starts with clock jumps, starts within one second, kills and log write faults; "
            "counted per distinct (files, starts, ends, faults that struck)")
    required_probes = ("clock-jump-forward", "clock-jump-back", "same-second", "kill", "partial-write", "short-write",
                       "completed", "resumed", "lines", "other-time-zone", "long-log")

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        model = rng.choice(list(MODELS))
        if index % 400 == 210:
            return self.long(rng, tier)
        dirs = draw_dirs(rng, numbers, [0, 1, 2], [0, 1, 3], 0.2, D.UNWANTED + ("truncated",))
        starts = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            f = []
            r = rng.random()
            if r < 0.35:
                f.append({"cls": rng.choice(["log", "log", "log", "*", "tmp", "game"]),
                          "op": rng.choice(["*", "write", "open_w"]),
                          "n": rng.randrange(rng.choice([4, 15, 40])), "kind": "kill", "x": round(rng.random(), 3)})
                if f[0]["cls"] in ("*", "game"):
                    f[0]["op"] = "*"
            elif r < 0.45:
                f.append({"cls": "log", "op": rng.choice(["write", "open_w"]), "n": rng.randrange(12),
                          "kind": rng.choice(["ENOSPC", "EIO"]), "x": round(rng.random(), 3),
                          "len": rng.choice([1, 2, 10 ** 6])})
            if rng.random() < 0.3:
                f.append({"cls": "log", "op": "write", "n": rng.randrange(12), "kind": "short",
                          "x": round(rng.random(), 3), "len": rng.choice([1, 5, 50])})
            jumps = {}
            for _ in range(rng.choice([0, 0, 1, 2])):
                jumps[str(rng.randrange(1, rng.choice([10, 60, 200])))] = rng.choice(
                    [-1, -1, 1]) * rng.choice([1, 5, 60, 3600, 86400, 40 * 86400])
            starts.append(self.start(model, rng.choice([0, 1, 1, 2]), f, jumps=jumps,
                                     back=rng.choice([None, None, "same-second", "same-second", -3600])))
        return self.base(rng, dirs=dirs, starts=starts, size=8, watch_log=True,
                         zone=rng.choice(["UTC", "JST-9", "NST3:30", "XXX+11"]),
                         present=distractors(rng, model, [], rng.choice([[], [], [0], [9, 10]])))

    def long(self, rng, tier):
        """A run with a log of many thousand lines."""
        model = rng.choice([m for m in MODELS if MODELS[m] == 1])
        n = rng.choice([5000, 6000]) if tier == "quick" else rng.choice([6000, 12500])
        dirs = {str(y): [] for y in YEARS + [VAL]}
        for j in range(2):
            dirs[str(2012 + j)] = [[f"g{k}", "stub", k + 10 ** 6 * j, 0] for k in range(n // 2)]
        return self.base(rng, dirs=dirs, starts=[self.start(model, 2, jumps={}, back=None), self.start(model, 1, jumps={}, back="same-second")],
                         size=8, stub=True, watch_log=False, zone="UTC")

    def simulate(self, m, plan, stats):
        zone = os.environ.get("TZ")
        os.environ["TZ"] = plan.get("zone", "UTC")      # the wall clock is that of the machine's place
        time.tzset()
        if os.environ["TZ"] != "UTC":
            stats.probe("other-time-zone")
        try:
            self.several(m, plan, stats)
        finally:
            if zone is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = zone
            time.tzset()

    def several(self, m, plan, stats):
        for spec in plan["starts"]:
            if spec.get("back") == "same-second" and m.starts:
                m.fs.clock = m.born      # the machine's clock was set back: the same second again
                stats.probe("same-second")
            elif spec.get("back") == -3600:
                m.fs.clock -= 3600
                stats.fault("clock-jump-back")
            m.born = math.floor(m.fs.clock) + 0.25
            m.fs.clock = m.born
            st = m.start(spec)
            self.judge(m, st, stats)
            if st.end == "stuck":
                raise Violation("no-progress", st.error)

    def judge(self, m, st, stats):
        what = f"start {len(m.starts) - 1} of {st.model} for {st.n} ({st.end}, hits {st.hits})"
        if st.newest is not None:
            stats.probe("resumed")
        write_error = any(k in ("ENOSPC", "EIO") for k, _, _ in st.hits)
        for name, old in st.logs_before.items():
            new = st.logs_after.get(name)
            require(new is not None, "log-removed", lambda: f"{what}: {name}")
            require(new.startswith(old), "log-rewritten",
                    lambda: f"{what}: {name} held {old[-200:]!r} and now holds {new[:200]!r}")
        changed = [n for n, d in st.logs_after.items() if d != st.logs_before.get(n, b"")]
        require(len(changed) <= 1, "several-logs", lambda: f"{what}: {changed}")
        body = m.grown(st)
        have = stamped(body)
        said = [x[2] for x in st.lines]
        stats.probe("lines", len(have))
        if len(have) > 5000:
            stats.probe("long-log")
        if not write_error:
            require(not st.late, "late", lambda: f"{what}: {st.late[0]}")
            if st.end == "ok":
                require(have == said, "log-differs-from-report", lambda: diff(what, have, said))
            else:
                a, b = sorted((have, said), key=len)
                require(b[:len(a)] == a and len(b) - len(a) <= 1, "log-differs-from-report",
                        lambda: diff(what, have, said))
        else:
            # lines may be missing or torn where the disk refused them
            it = iter(said)
            torn = [x for x in have if x not in said]
            require(all(any(x == y for y in it) for x in have if x in said) and len(torn) <= len(st.hits),
                    "log-differs-from-report", lambda: diff(what, have, said))
        for low, high, line in st.lines:
            t = _dt.datetime.strptime(STAMP.fullmatch(line).group(1), "%Y-%m-%d %H:%M:%S")
            lo, hi = (_dt.datetime.fromtimestamp(x) for x in (low, high))
            one = _dt.timedelta(seconds=1.01)
            require(lo - one <= t <= hi + one, "timestamp", lambda: f"{what}: {line!r} reported between {lo} and {hi}")
        if st.end == "ok":
            stats.probe("completed")
            self.required(m, st, what, body.decode("utf-8", "replace"))

    def required(self, m, st, what, text):
        first = 0 if st.newest is None else st.newest[0] + 1
        msgs = [STAMP.fullmatch(x).group(2) for x in stamped(text.encode())]

        def need(kind, pattern, times=1):
            n = sum(bool(re.search(pattern, x, re.I)) for x in msgs)
            require(n >= times, "not-recorded", lambda: f"{what}: {kind}: {n} of {times} lines in {msgs}")
        need("start", rf"train.*\b{re.escape(st.model)}\b.*\b{st.n}\b")
        if st.newest is None:
            need("resume point", r"\b(no|not|without|fresh|scratch)\b.*checkpoint|\b(from|at|iter\w*) 0\b")
        else:
            need("resume point", rf"{re.escape(os.path.basename(st.newest[1]))}.*|\b{first}\b.*checkpoint")
        for i in range(first, first + st.n):
            need(f"iteration {i}", rf"iter\w*\W*\b{i}\b")
            need(f"checkpoint {i}", rf"saved.*model_{re.escape(st.model)}_checkpoint_iter_{i}\.pt")
        vals = 0
        seen = False
        for e in st.rec.events:     # a pass that trains validates at least once
            if e[0] == "train":
                seen = True
            elif e[0] == "save":
                vals += seen
                seen = False
        if vals:
            need("validation", r"val\w*[ _]loss", vals)
        need("completion", r"complete|finish|done")


def diff(what, have, said):
    i = next((k for k, (a, b) in enumerate(zip(have, said)) if a != b), min(len(have), len(said)))
    return f"{what}: line {i}: the log has {have[i:i + 2]}, reported was {said[i:i + 2]} ({len(have)}/{len(said)} lines)"


class DamagedRun(TrainerProp):
    """Part of C04: whole training runs over directories with damaged logs and read faults."""
    id = "C04"

    def generate(self, rng, tier, index):
        numbers = D.pool_numbers(rng)
        model = rng.choice(list(MODELS))
        dirs = draw_dirs(rng, numbers, [0, 1, 2, 4, 6], [0, 1, 4], rng.choice([0.3, 0.6, 1.0]),
                         D.DAMAGE + ("truncated",) * 4 + D.UNWANTED)
        faults = [game_fault(rng) for _ in range(rng.choice([0, 1, 2, 4]))]
        plan = self.base(rng, dirs=dirs, size=8, starts=[self.start(model, rng.choice([1, 2, 3, 9]), faults)])
        return self.real(rng, plan) if index % 12 == 5 else plan

    def judge(self, m, st, stats):
        stats.probe("training-run")
        require(st.end == "ok", "run-ended", lambda: f"training over {self.kinds(m)} with hits {st.hits}: {st.error}")
        nums = [e[3] for e in st.rec.events if e[0] == "save"]
        require(len(set(nums)) == st.n, "run-ended", lambda: f"{len(set(nums))} of {st.n} iterations")
        spared = {p.split("/")[3] for _, _, p in st.hits if p.startswith("data/processed/") and p.count("/") >= 3}
        for k in {k for f in m.files.values() for k in f.kind.values()} - {D.GOOD} - set(D.UNWANTED):
            stats.fault("damaged:" + k)
        for e, train in passes(st):
            if e is None:
                continue
            files = m.files[2012 + e[3] % 8]
            games = [x for info in train for x in info["games"]]
            for x in games:
                require(x in files.allowed, "not-a-whole-game",
                        lambda: f"iteration {e[3]} over {files.kind}: trained on something that is no usable game of it")
            require(len(set(games)) == len(games), "delivered-twice", f"iteration {e[3]} over {files.kind}")
            missing = [n for d, n in files.required.items() if d not in games and n not in spared]
            require(not missing, "game-not-delivered", lambda: f"iteration {e[3]} over {files.kind}: {missing}")

    @staticmethod
    def kinds(m):
        return {y: list(f.kind.values()) for y, f in m.files.items() if f.kind}
