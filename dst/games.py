"""Simulations of the table whose logs the real processing and the real models consume
(C10 to C19)."""
import collections
import contextlib
import copy
import hashlib
import io
import os
import random
import re
import shutil
import sys
import tempfile
import threading

import numpy as np

from dst import gamecheck as g
from dst import table, truth
from dst.core import Prop, Violation, require


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="dst-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


@contextlib.contextmanager
def judging():
    """A result whose parts are not what every user of it expects (too few entries, swapped kinds)."""
    try:
        yield
    except (IndexError, AttributeError, TypeError, KeyError, ValueError, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("malformed-result", f"{type(e).__name__}: {e} at {tb.filename.split('/')[-1]}:{tb.lineno}")


def shape(events):
    """Signature of a round: who did what in which order, without tile identities."""
    out = []
    for tag, a in events:
        if tag == "N":
            d = truth.decode(int(a["m"]))
            out.append((a["who"], d["type"]))
        elif tag[0] in "TUVWDEFG":
            out.append(tag[0])
        else:
            out.append((tag, a.get("who"), a.get("step"), a.get("type"), a.get("fromWho")))
    return tuple(out)


def nontrivial(events):
    return any(tag in ("N", "REACH", "AGARI") for tag, _ in events)


def count_probes(r, stats):
    for tag, a in r.results:
        if tag == "AGARI":
            stats.probe("win-by-draw" if a["who"] == a["fromWho"] else "win-by-discard")
        else:
            stats.probe("draw-" + (a.get("type") or "exhaustive"))
    if len(r.results) > 1:
        stats.probe("two-winners")
    if any(r.double):
        stats.probe("double-riichi", sum(r.double))
    stats.probe("riichi", sum(r.riichi))
    reds = 0
    for ms in r.melds:
        for m in ms:
            stats.probe("meld-" + m.type)
            reds += any(t in (16, 52, 88) for t in m.d["ids"])
    if reds:
        stats.probe("meld-with-red-five", reds)
    if any(d in (16, 52, 88) for d in r.doras):
        stats.probe("red-five-indicator")
    if len(r.doras) > 1:
        stats.probe("extra-indicator", len(r.doras) - 1)
    if r.n_rounds - r.round < 0:
        stats.probe("extra-round")
    for what in r.only:
        stats.probe(what + "-alone")
    for e in r.turns:
        if e["type"] == truth.DURING and e["state"]["remaining"] <= 1 and not any(r.riichi):
            c = {t // 4 for m in r.melds[e["player"]] if m.type in ("pon", "kakan") for t in m.d["ids"]}
            if any(n == 4 or n and k in c for k, n in enumerate(e["state"]["hand"][:34])):
                stats.probe(f"kan-shape-on-last-draw-{e['state']['remaining']}")
        if e["type"] == truth.POST:
            n = sum(1 for o in e["offers"] if o and o["win"])
            if n:
                stats.probe("robbed-kan-offer" if e["chankan"] else
                            "last-discard-offer" if e["last"] else "ron-offer")
            if n > 1:
                stats.probe("several-ron-offers")
        elif e["type"] == truth.DURING:
            if e["offers"]["win"]:
                stats.probe("replacement-tile-offer" if e["rinshan"] else
                            "last-tile-offer" if e["state"]["remaining"] == 0 else
                            "first-turns-offer" if e["draws"] <= 4 else "tsumo-offer")


def cut(events, k):
    """The first k events of a round, closed as a drawn round."""
    if k >= len(events):
        return events
    return events[:k] + [["RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}]]


def shrink_rounds(rounds):
    if len(rounds) > 1:
        for i in range(len(rounds)):
            yield [rounds[i]]
        for i in range(len(rounds)):
            yield rounds[:i] + rounds[i + 1:]
    for i, ev in enumerate(rounds):
        n = len(ev)
        seen = set()
        for k in (2, n // 4, n // 2, 3 * n // 4, n - 8, n - 4, n - 2, n - 1):
            if 1 <= k < n - 1 and k not in seen:
                seen.add(k)
                yield rounds[:i] + [cut(ev, k)] + rounds[i + 1:]


GAME_ASSUMPTIONS = [
    "logs follow the element order and the meld codes of real Tenhou logs (the two logs shipped "
    "with the repository were replayed through the reference model)",
    "the installed mahjong library decides whether a complete hand has a yaku",
]
GAME_COMPONENTS = {
    "real": ["process_xml.process and everything it calls", "the file it reads"],
    "stub": ["the four players and the wall: the table simulator"],
}
GAME_PROBES = ("two-winners", "double-riichi", "riichi", "meld-chi", "meld-pon", "meld-minkan", "meld-ankan",
               "meld-kakan", "meld-with-red-five", "red-five-indicator", "extra-indicator", "robbed-kan-offer",
               "last-discard-offer", "replacement-tile-offer", "last-tile-offer", "first-turns-offer",
               "several-ron-offers", "draw-exhaustive", "draw-ron3", "draw-yao9", "draw-reach4", "draw-kan4",
               "extra-round", "rinshan-alone", "chankan-alone", "kan-shape-on-last-draw-0",
               "kan-shape-on-last-draw-1")


class GameProp(Prop):
    level = "exploration"
    runs = {"quick": 1500, "thorough": 15000}
    per_game = 4
    agents = False
    rule = ("one case is one simulated round of mahjong processed by the real code; it is counted when at "
            "least one call, riichi or win happened and its sequence of actions was not seen before")
    measure = "distinct sequences of (player, action) per round, tile identities left out"
    components = GAME_COMPONENTS
    assumptions = GAME_ASSUMPTIONS
    required_probes = GAME_PROBES

    def generate(self, rng, tier, index):
        rounds, go = table.play_game(rng, self.per_game)
        n = sum(map(len, rounds))
        extra = []
        if rng.random() < 0.3:   # a player reconnects while the game is running
            for _ in range(rng.choice([1, 3])):
                p = rng.randrange(4)
                extra.append([rng.randrange(1, n), "UN", {f"n{p}": "%41"}])
        return {"go": go, "rounds": rounds, "extra": extra}

    def run(self, plan, stats):
        truths = truth.replay(plan["rounds"], plan["go"])
        for r, ev in zip(truths, plan["rounds"]):
            stats.events += len(ev)
            count_probes(r, stats)
            if nontrivial(ev):
                stats.sig(shape(ev))
        for _ in plan.get("extra", ()):
            stats.fault("reconnect-element")
        px = g.fresh_modules(self.agents)
        with scratch() as d:
            path = os.path.join(d, "game.log")
            with open(path, "w") as f:
                f.write(truth.to_xml(plan["rounds"], plan["go"], [tuple(x) for x in plan.get("extra", ())]))
            H, T = g.process(px, path)
        require(len(H) == len(truths) and len(T) == len(truths), "rounds",
                f"{len(H)}/{len(T)} rounds recorded, {len(truths)} played")
        for i, (h, t, r) in enumerate(zip(H, T, truths)):
            with judging():
                self.judge(px, h, t, r, f"round {i}", stats)

    def judge(self, px, h, t, r, where, stats):
        pass

    def shrink(self, plan):
        if plan.get("extra"):
            yield dict(plan, extra=[])
        for rounds in shrink_rounds(plan["rounds"]):
            yield dict(plan, rounds=rounds, extra=[])

    def describe(self, plan, stats):
        ev = plan["rounds"][0]
        s = "".join(tag if tag[0] in "TUVWDEFG" and tag != "DORA" else
                    f" <{tag} " + ",".join(f"{k}={v}" for k, v in a.items()) + "> " for tag, a in ev[1:])
        return f"go={plan['go']} round of {len(ev)} events: seed={ev[0][1]['seed']} {s}"[:900]


class C11(GameProp):
    id = "C11"

    def judge(self, px, h, t, r, where, stats):
        g.align(h, r, where)
        g.compare_states(h, r, {**g.TABLE_FIELDS, **{k: g.FLAG_FIELDS[k] for k in ("riichi", "closed")}}, where)


class C12(GameProp):
    id = "C12"

    def judge(self, px, h, t, r, where, stats):
        g.align(h, r, where)
        g.compare_states(h, r, g.UNSEEN_FIELDS, where)


class C13(GameProp):
    id = "C13"

    def judge(self, px, h, t, r, where, stats):
        g.align(h, r, where)
        g.compare_states(h, r, g.FLAG_FIELDS, where)


class C14(GameProp):
    id = "C14"

    def judge(self, px, h, t, r, where, stats):
        g.align(h, r, where)
        g.compare_tokens(h, t, r, where)


class C15(GameProp):
    id = "C15"

    def judge(self, px, h, t, r, where, stats):
        g.align(h, r, where)
        stats.probe("calls-possible", g.compare_calls(h, r, where))


class C16(GameProp):
    id = "C16"
    required_probes = GAME_PROBES + ("haitei-alone", "houtei-alone")
    runs = {"quick": 2500, "thorough": 20000}

    def judge(self, px, h, t, r, where, stats):
        g.align(h, r, where)
        g.compare_wins(h, r, where)


# ---- C17 -----------------------------------------------------------------------------------

def processors():
    out = {}
    for name in g.PROCESSORS:
        mod = sys.modules["MahjongAI.agents." + name]
        out[name] = mod.TransformerTensorProcessor()
    return out


def batches(proc, halfturns_list, tokens_list):
    import torch
    with torch.no_grad(), quiet():
        try:
            return proc.prepare_batches(halfturns_list, tokens_list)
        except Exception as e:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("batch-preparation-failed",
                            f"{type(e).__name__}: {e} at {tb.filename.split('/')[-1]}:{tb.lineno}")


class C17(GameProp):
    id = "C17"
    agents = True
    runs = {"quick": 300, "thorough": 5000}
    rule = ("one case is one batch of simulated games turned into examples by the four real processors; counted "
            "per round with a call, riichi or win whose sequence of actions was not seen before")
    components = {"real": ["process_xml.process", "prepare_batches of the four agents"],
                  "stub": ["players and wall"]}

    def generate(self, rng, tier, index):
        games = []
        for _ in range(rng.choice([1, 2, 3])):
            rounds, go = table.play_game(rng, rng.choice([1, 2]))
            games.append({"go": go, "rounds": rounds})
        return {"games": games}

    def run(self, plan, stats):
        px = g.fresh_modules(True)
        HL, TL, RL = [], [], []
        with scratch() as d:
            for i, game in enumerate(plan["games"]):
                path = os.path.join(d, f"{i}.log")
                with open(path, "w") as f:
                    f.write(truth.to_xml(game["rounds"], game["go"]))
                h, t = g.process(px, path)
                rs = truth.replay(game["rounds"], game["go"])
                for r, ev in zip(rs, game["rounds"]):
                    stats.events += len(ev)
                    count_probes(r, stats)
                    if nontrivial(ev):
                        stats.sig(shape(ev))
                HL.append(h)
                TL.append(t)
                RL.append(rs)
                with judging():
                    for n, (hh, r) in enumerate(zip(h, rs)):
                        g.align(hh, r, f"game {i} round {n}")
        for name, proc in processors().items():
            got = batches(proc, HL, TL)
            require(len(got) == 3, "batch-parts", f"{name}: {len(got)}")
            for kind, tensors in zip(g.KINDS, got):
                with judging():
                    self.compare(name, kind, tensors, HL, RL, stats)

    def compare(self, name, kind, tensors, HL, RL, stats):
        rows = g.actual_rows(tensors)
        have = collections.Counter(rows)
        n = 0
        for gi, (h, rs) in enumerate(zip(HL, RL)):
            for ri, (turns, r) in enumerate(zip(h, rs)):
                for i, q, hist, states, allowed, y in g.expected_rows(r, kind):
                    t = turns[i]
                    if kind == truth.DURING:
                        must, opt = allowed
                        allowed = must | (opt - must if len(t.decisions[1]) else frozenset())
                        if not allowed:
                            continue
                        allowed = allowed | {0}
                    n += 1
                    keys = []
                    for s in states:
                        real = t.responderStateObjs[q] if kind == truth.POST else t.stateObj
                        if s["dealer_rounds"] is None and real is not None:
                            s = dict(s, rounds=int(real.rounds_remaining),
                                     dealer_rounds=g.num(real.parent_rounds_remaining))
                        mask = tuple(1.0 if j in allowed else 0.0 for j in range(g.DIM[kind]))
                        keys.append((hist, g.features(name, s), mask, y,
                                     q if name == "transformer_conv_ordered" else None))
                    key = next((k for k in keys if have[k]), None)
                    if key is None:
                        raise Violation("example-" + kind, self.explain(name, gi, ri, i, q, keys[0], have))
                    have[key] -= 1
        left = sum(have.values())
        require(left == 0, "example-extra-" + kind,
                lambda: f"{name}: {left} examples too many, e.g. "
                        f"{[brief(k) for k, c in have.items() if c][:1]}")
        stats.probe("examples", n)

    def explain(self, name, gi, ri, i, q, key, have):
        """Name the part of the closest recorded example that differs."""
        best, parts = None, None
        for k, c in have.items():
            if not c:
                continue
            d = [lab for lab, a, b in zip(("history", "table", "mask", "action", "player"), k, key) if a != b]
            if best is None or len(d) < best:
                best, parts = len(d), (d, k)
        if parts is None:
            return f"{name}: game {gi} round {ri} turn {i} player {q}: no example"
        return (f"{name}: game {gi} round {ri} turn {i} player {q}: no such example; closest differs in {parts[0]}: "
                f"{brief(parts[1])} instead of {brief(key)}")

    def shrink(self, plan):
        gs = plan["games"]
        if len(gs) > 1:
            for i in range(len(gs)):
                yield {"games": [gs[i]]}
            for i in range(len(gs)):
                yield {"games": gs[:i] + gs[i + 1:]}
        for i, game in enumerate(gs):
            for rounds in shrink_rounds(game["rounds"]):
                yield {"games": gs[:i] + [dict(game, rounds=rounds)] + gs[i + 1:]}

    def describe(self, plan, stats):
        return f"{len(plan['games'])} games, " + GameProp.describe(self, plan["games"][0], stats)


def brief(key):
    hist, feats, mask, y, player = key
    return dict(history=[int(x) for x in hist if x][-6:], permitted=[i for i, m in enumerate(mask) if m],
                action=y, player=player, x2=[float(x) for x in feats[1]], x3=[float(x) for x in feats[2]])


# ---- C18 -----------------------------------------------------------------------------------

def hidden_swap(rng, events, k, p):
    """Exchange tiles that player p cannot have seen after k events; None if there are none."""
    go = 169
    r = truth.replay([events[:k]], go)[0]
    held = sorted(t for q in range(4) if q != p for t in r.hands[q])
    wall = sorted(set(range(136)) - r.gone)
    hidden = held + wall
    where = {t: q for q in range(4) for t in r.hands[q]}
    m = {}
    for _ in range(rng.choice([1, 2, 4, 8, 20])):
        a, b = rng.choice(held), rng.choice(hidden)
        if where.get(a) != where.get(b) and a not in m and b not in m:
            m[a], m[b] = b, a
    if not m:
        return None
    out = []
    for tag, a in events[:k]:
        if tag == "INIT":
            a = dict(a)
            for q in range(4):
                if q != p:
                    a[f"hai{q}"] = ",".join(map(str, sorted(m.get(int(t), int(t))
                                                            for t in a[f"hai{q}"].split(","))))
        elif tag[0] in "TUVW":
            t = int(tag[1:])
            tag = tag[0] + str(m.get(t, t))
        out.append([tag, a])
    return out, len(m) // 2


class C18(GameProp):
    id = "C18"
    agents = True
    runs = {"quick": 600, "thorough": 8000}
    rule = ("one case is a pair of simulated rounds that agree on what one player could know up to an event: the "
            "other hands or the wall differ, or everything after it; counted when the shared part holds a call, "
            "riichi or win offer and was not seen before")
    measure = "distinct (mode, sequence of actions of the shared part)"
    components = {"real": ["process_xml.process", "prepare_batches of the four agents"],
                  "stub": ["players and wall"]}
    required_probes = ("future-pairs", "hidden-pairs", "inputs-compared", "meld-pon", "meld-kakan", "riichi")

    def generate(self, rng, tier, index):
        while True:
            seed = rng.getrandbits(40)
            go = rng.choice(table.GO_TYPES)
            par = (rng.randrange(8 if go & 8 else 4), rng.choice([0, 1]), rng.choice([0, 1]), [250] * 4, go)
            a = table.play_round(random.Random(seed), *par).events
            if len(a) < 6:
                continue
            k = rng.randrange(3, len(a))
            if rng.random() < 0.5:
                b = table.play_round(random.Random(seed), *par, fork=(k, rng.getrandbits(40))).events
                if a[:k] != b[:k]:
                    raise RuntimeError("fork changed the shared part")
                return {"mode": "future", "go": go, "k": k, "a": a, "b": b, "player": None}
            if a[k - 1][0] in ("AGARI", "RYUUKYOKU"):
                continue
            p = rng.randrange(4)
            sw = hidden_swap(rng, a, k, p)
            if sw is None:
                continue
            return {"mode": "hidden", "go": go, "k": k, "a": cut(a, k), "b": cut(sw[0] + [None], k), "player": p}

    def run(self, plan, stats):
        px = g.fresh_modules(True)
        k = plan["k"]
        stats.events += len(plan["a"]) + len(plan["b"])
        r = truth.replay([plan["a"][:k]], plan["go"])[0]
        truth.replay([plan["b"][:k]], plan["go"])
        count_probes(r, stats)
        stats.probe(plan["mode"] + "-pairs")
        if nontrivial(plan["a"][:k]):
            stats.sig((plan["mode"], shape(plan["a"][:k])))
        res = []
        with scratch() as d:
            for name in "ab":
                path = os.path.join(d, name + ".log")
                with open(path, "w") as f:
                    f.write(truth.to_xml([plan[name]], plan["go"]))
                h, t = g.process(px, path)
                res.append((h[0], t[0]))
        # turns that exist after k events; a turn's inputs must be the same on both sides
        n = len(r.turns)
        (ha, ta), (hb, tb) = res
        require(len(ha) >= n and len(hb) >= n, "turns-recorded", f"{len(ha)}, {len(hb)}, expected {n}")
        procs = processors()
        who = range(4) if plan["player"] is None else [plan["player"]]
        last = max(0, n - 24)
        for i in range(n):
            e = r.turns[i]
            for q in who:
                if (q == e["player"]) != (e["type"] != truth.POST):
                    continue
                for name, proc in procs.items():
                    if i < last and (i + q) % 7:
                        continue
                    x = self.inputs(proc, ha[i], ta, q)
                    y = self.inputs(proc, hb[i], tb, q)
                    stats.probe("inputs-compared", len(x))
                    for part, u, v in zip(("count", "history", "table", "permitted", "player"),
                                          (len(x),) + tuple(zip(*x)), (len(y),) + tuple(zip(*y))):
                        require(u == v, "leak-" + part,
                                lambda: f"{name}: input of player {q} at turn {i} ({e['type']}, event {e['event']} of "
                                        f"{k} shared) depends on {plan['mode']} tiles: {show(u, v)}")

    def inputs(self, proc, turn, tokens, q):
        """What the processor presents to player q for this turn."""
        turn = copy.copy(turn)
        if type(turn).__name__ == "PostTurn":
            turn.decisions = [[[unmarked(d) for d in lst] for lst in turn.decisions[p]] if p == q
                              else [[], [], []] for p in range(4)]
        got = batches(proc, [[[turn]]], [[tokens]])
        kind = g.WHICH[type(turn).__name__]
        rows = g.actual_rows(got[g.KINDS.index(kind)])
        return [(h, s, m, p) for h, s, m, y, p in rows]

    def shrink(self, plan):
        if plan["mode"] == "future":
            k = plan["k"]
            for n in (k + 1, k + 3, k + 8):
                for side in "ab":
                    if n < len(plan[side]) - 1:
                        yield dict(plan, **{side: cut(plan[side], n)})
        k = plan["k"]
        for j in (3, k // 2, 3 * k // 4, k - 2, k - 1):
            if 3 <= j < k:
                if plan["mode"] == "hidden":
                    yield dict(plan, k=j, a=cut(plan["a"], j), b=cut(plan["b"], j))
                else:
                    yield dict(plan, k=j)

    def describe(self, plan, stats):
        return (f"{plan['mode']} pair, shared events {plan['k']}, player {plan['player']}: " +
                GameProp.describe(self, {"go": plan["go"], "rounds": [plan["a"]]}, stats))


def unmarked(d):
    d = copy.copy(d)
    d.executed = False
    return d


def show(u, v):
    a, b = np.asarray(u, dtype=object).ravel(), np.asarray(v, dtype=object).ravel()
    try:
        fu, fv = flat(u), flat(v)
        idx = [i for i, (x, y) in enumerate(zip(fu, fv)) if x != y][:8]
        return f"positions {idx}: {[fu[i] for i in idx]} / {[fv[i] for i in idx]}"
    except Exception:  # noqa: BLE001
        return f"{a[:8]} / {b[:8]}"


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x]


# ---- C19 -----------------------------------------------------------------------------------

MODELS = (("transformer", "TransformerModel", ()), ("transformer_conv", "TransformerConvModel", ()),
          ("transformer_conv_large", "TransformerConvLargeModel", (2,)),
          ("transformer_conv_large", "TransformerConvLargeModel", (3,)),
          ("transformer_conv_ordered", "TransformerConvOrderedModel", (1,)),
          ("transformer_conv_ordered", "TransformerConvOrderedModel", (2,)))


class C19(GameProp):
    id = "C19"
    agents = True
    runs = {"quick": 120, "thorough": 1500}
    rule = ("one case is one batch of simulated games given to one randomly initialised real model: whole, in "
            "parts, and subsampled; counted per round as in the other table simulations")
    components = {"real": ["process_xml.process", "the four agents: batch preparation, networks and losses"],
                  "stub": ["players and wall", "weights: random"]}
    required_probes = ("rows", "subsampled", "rows-matched", "batch-independence-rows")

    def generate(self, rng, tier, index):
        games = []
        for _ in range(rng.choice([2, 2, 3])):
            rounds, go = table.play_game(rng, 1)
            while sum(map(len, rounds)) > 400:
                rounds, go = table.play_game(rng, 1)
            games.append({"go": go, "rounds": [cut(r, rng.choice([20, 60, 400])) for r in rounds]})
        return {"games": games, "model": index % len(MODELS), "seed": rng.getrandbits(30),
                "scale": rng.choice([1, 4, 8]), "size": rng.choice([2, 5, 11, 30])}

    def run(self, plan, stats):
        import torch
        torch.set_num_threads(1)
        px = g.fresh_modules(True)
        HL, TL = [], []
        with scratch() as d:
            for i, game in enumerate(plan["games"]):
                path = os.path.join(d, f"{i}.log")
                with open(path, "w") as f:
                    f.write(truth.to_xml(game["rounds"], game["go"]))
                h, t = g.process(px, path)
                HL.append(h)
                TL.append(t)
                for r, ev in zip(truth.replay(game["rounds"], game["go"]), game["rounds"]):
                    stats.events += len(ev)
                    count_probes(r, stats)
                    if nontrivial(ev):
                        stats.sig((plan["model"], shape(ev)))
        modname, cls, args = MODELS[plan["model"]]
        mod = sys.modules["MahjongAI.agents." + modname]
        torch.manual_seed(plan["seed"])
        model = getattr(mod, cls)(*args)
        with torch.no_grad():
            for p in model.parameters():
                if p.dim() > 1:
                    p.mul_(plan["scale"])
                else:
                    p.add_(torch.randn_like(p) * 0.1)
        proc = mod.TransformerTensorProcessor()
        model.eval()
        whole, wrows = self.evaluate(model, proc, HL, TL, cls, stats)
        # the same games one by one
        single = collections.defaultdict(list)
        for h, t in zip(HL, TL):
            outs, rows = self.evaluate(model, proc, [h], [t], cls, stats)
            for part, (lg, rr) in enumerate(zip(outs, rows)):
                for row, key in zip(lg, rr):
                    single[part, key[:3] + (key[4],)].append(row)
        for part, (lg, rr) in enumerate(zip(whole, wrows)):
            for row, key in zip(lg, rr):
                cands = single.get((part, key[:3] + (key[4],)), [])
                require(cands, "rows-changed", f"{cls}: an example of the batch is missing when its game is alone")
                d = min(dist(row, c) for c in cands)
                stats.probe("batch-independence-rows")
                require(d < 2e-3, "row-depends-on-batch",
                        lambda: f"{cls} part {g.KINDS[part]}: output differs by {d:.3g} when the other games are absent")
        self.subsample(model, HL, TL, plan, whole, wrows, cls, stats)
        # training mode: dropout, still legal and finite
        model.train()
        torch.manual_seed(plan["seed"] + 1)
        self.evaluate(model, proc, HL, TL, cls, stats, training=True)

    def forward(self, model, HL, TL, cls, **kw):
        import torch
        with torch.no_grad(), quiet():
            try:
                return [(lg.detach().double().numpy(), float(loss)) for lg, loss in model(HL, TL, **kw)]
            except Exception as e:  # noqa: BLE001
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation("model-failed", f"{cls}: {type(e).__name__}: {e} at "
                                                f"{tb.filename.split('/')[-1]}:{tb.lineno}")

    def evaluate(self, model, proc, HL, TL, cls, stats, training=False):
        """Run the model on everything; returns per part the outputs and the rows, checked."""
        parts = [g.actual_rows(t) for t in batches(proc, HL, TL)]
        outs = self.forward(model, HL, TL, cls, sample=False)
        filled = [p for p in parts if p]
        require(len(outs) == len(filled), "loss-count", f"{cls}: {len(outs)} losses for {len(filled)} kinds of decisions")
        res, it = [], iter(outs)
        for part, rows in zip(g.KINDS, parts):
            if not rows:
                res.append(np.zeros((0, g.DIM[part])))
                continue
            lg, loss = next(it)
            require(lg.shape == (len(rows), g.DIM[part]), "output-shape", f"{cls} {part}: {lg.shape}, {len(rows)} rows")
            mask = np.array([k[2] for k in rows]) > 0
            check_rows(lg, loss, mask, np.array([k[3] for k in rows]), f"{cls} {part}")
            stats.probe("rows", len(rows))
            res.append(lg)
        return res, parts

    def subsample(self, model, HL, TL, plan, whole, wrows, cls, stats):
        import torch
        torch.manual_seed(plan["seed"] + 2)
        size = plan["size"]
        outs = self.forward(model, HL, TL, cls, sample=True, sample_size=size)
        filled = [(part, lg, rows) for part, lg, rows in zip(g.KINDS, whole, wrows) if rows]
        require(len(outs) == len(filled), "loss-count", f"{cls}: {len(outs)} losses when subsampling")
        for (part, full, rows), (lg, loss) in zip(filled, outs):
            n = min(size, len(rows))
            if n < len(rows):
                stats.probe("subsampled")
            require(lg.shape[0] == n, "subsample-size", f"{cls} {part}: {lg.shape[0]} of {len(rows)} rows, asked for {size}")
            self.match(full, rows, lg, loss, f"{cls} {part}", stats)

    def match(self, full, rows, lg, loss, ctx, stats):
        """Every subsampled row is a different row of the batch, with its own recorded action."""
        tol = 2e-4
        ce = np.array([-logp(full[i], np.array(rows[i][2]) > 0)[rows[i][3]] for i in range(len(rows))])
        cands = []
        for row in lg:
            d = np.array([dist(row, f) for f in full])
            c = np.flatnonzero(d < tol)
            require(len(c) > 0, "subsample-mixed",
                    lambda: f"{ctx}: a subsampled row has an output no row of the batch has (closest {d.min():.3g})")
            cands.append(set(int(x) for x in c))
        # maximum matching: rows must be distinct
        owner = {}

        def assign(i, seen):
            for c in cands[i]:
                if c in seen:
                    continue
                seen.add(c)
                if c not in owner or assign(owner[c], seen):
                    owner[c] = i
                    return True
            return False
        for i in range(len(cands)):
            require(assign(i, set()), "subsample-repeats", f"{ctx}: a row was sampled more than once")
        lo = sum(min(ce[c] for c in cs) for cs in cands) / len(cands)
        hi = sum(max(ce[c] for c in cs) for cs in cands) / len(cands)
        eps = 2e-3 * (1 + abs(hi))
        stats.probe("rows-matched", len(cands))
        require(lo - eps <= loss <= hi + eps, "subsample-labels",
                f"{ctx}: loss {loss:.6g} of the sampled rows, their own actions give {lo:.6g}..{hi:.6g}")

    def shrink(self, plan):
        gs = plan["games"]
        if len(gs) > 1:
            for i in range(len(gs)):
                yield dict(plan, games=gs[:i] + gs[i + 1:])
        for i, game in enumerate(gs):
            for rounds in shrink_rounds(game["rounds"]):
                yield dict(plan, games=gs[:i] + [dict(game, rounds=rounds)] + gs[i + 1:])

    def describe(self, plan, stats):
        return (f"{MODELS[plan['model']][1]}{MODELS[plan['model']][2]} weights x{plan['scale']}, subsample "
                f"{plan['size']}, {len(plan['games'])} games: " + GameProp.describe(self, plan["games"][0], stats))


def dist(a, b):
    big = (a < -1e8) | (b < -1e8)
    if ((a < -1e8) != (b < -1e8)).any():
        return float("inf")
    d = np.abs(a - b)[~big]
    return float(d.max()) / (1 + float(np.abs(a[~big]).max())) if d.size else 0.0


def logp(lg, mask):
    x = lg - lg[mask].max()
    return x - np.log(np.exp(x).sum())


def check_rows(lg, loss, mask, y, ctx):
    require(np.isfinite(loss), "loss-not-finite", f"{ctx}: {loss}")
    require(not np.isnan(lg).any(), "output-not-finite", ctx)
    require(mask[np.arange(len(y)), y].all(), "action-not-permitted", ctx)
    m = np.where(np.isfinite(lg), lg, -1e30)
    p = np.exp((m - m.max(axis=1, keepdims=True)).astype(np.float32))
    p = p / p.sum(axis=1, keepdims=True)
    bad = np.argwhere((p > 0) & ~mask)
    require(not len(bad), "illegal-action-probability",
            lambda: f"{ctx}: row {bad[0][0]} action {bad[0][1]} probability {p[tuple(bad[0])]:.3g}")
    q = m - m.max(axis=1, keepdims=True)
    ce = np.log(np.exp(q).sum(axis=1)) - q[np.arange(len(y)), y]
    require(abs(ce.mean() - loss) <= 1e-3 * (1 + abs(loss)), "loss-value",
            f"{ctx}: loss {loss:.6g}, mean cross-entropy {ce.mean():.6g}")


# ---- C22 -----------------------------------------------------------------------------------

def make_model(plan):
    import torch
    torch.set_num_threads(1)
    modname, cls, args = MODELS[plan["model"]]
    mod = sys.modules["MahjongAI.agents." + modname]
    torch.manual_seed(plan["seed"])
    model = getattr(mod, cls)(*args)
    weigh(model, plan["scale"])
    model.eval()
    return model, mod.TransformerTensorProcessor(), cls


def weigh(model, scale):
    import torch
    with torch.no_grad():
        for p in model.parameters():
            if p.dim() > 1:
                p.mul_(scale)
            else:
                p.add_(torch.randn_like(p) * 0.1)


def other(rng, value, lo, hi):
    """Another value of lo..hi, often a neighbour or one of the ends."""
    c = [v for v in (rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1), value - 1, value + 1, lo, hi)
         if lo <= v <= hi and v != value]
    return rng.choice(c) if c else value


def change_token(rng, x):
    """(what changed, another event of the same kind)"""
    b = g.bits(x)
    what = []
    if b["event"] == 1:
        what = ["tile", "player", "drawn"]
    elif b["event"] == 2:
        what = ["call", "call", "player"]
    elif b["event"] == 3:
        what = ["player"]
    elif b["event"] == 4:
        what = ["tile"]
    w = rng.choice(what)
    if w == "tile":
        k = other(rng, b["value"] & 0x7f, 0, 33)
        y = x & ~0x7f | k
    elif w == "player":
        y = x & ~0x300 | other(rng, b["player"], 0, 3) << 8
    elif w == "drawn":
        y = x ^ 0x80
    else:
        lo, hi = (3, 70) if b["place"] == 2 else (2, 153)
        y = x & ~0xff | other(rng, x & 0xff, lo, hi)
    return ("discard", "call", "riichi", "indicator")[b["event"] - 1] + "-" + w, y


def change_state(rng, s):
    """(what changed, copy of the state with one fact changed)"""
    s = copy.deepcopy(s)
    w = rng.choice(["hand", "unseen", "river", "score", "deposit", "honba", "riichi", "double", "ippatsu", "closed",
                    "draws-left", "rounds-left", "dealer", "dealer-rounds"])

    def bump(vec, lo=0, hi=4):
        i = rng.randrange(len(vec))
        vec[i] = other(rng, int(vec[i]), lo, hi)
    if w == "hand":
        have = [i for i in range(37) if s.hand_tensor[i] > 0]
        i = rng.choice(have)
        s.hand_tensor[i] = other(rng, int(s.hand_tensor[i]), 1, 4)
    elif w == "unseen":
        bump(s.remaining_tiles_pov)
    elif w == "river":
        bump(s.sutehai_tensors[rng.choice([s.player, s.player, rng.randrange(4)])])
    elif w == "score":
        s.scores = list(s.scores)
        i = rng.randrange(4)
        s.scores[i] += rng.choice([10, -10, 80])
    elif w == "deposit":
        s.kyotaku += 1
    elif w == "honba":
        s.honba += 1
    elif w == "draws-left":
        s.remaining_tsumo = other(rng, int(s.remaining_tsumo), 0, 69)
        if hasattr(s, "remaining_turns"):
            s.remaining_turns = s.remaining_tsumo
    elif w == "rounds-left":
        s.rounds_remaining = other(rng, int(s.rounds_remaining), 0, 7)
    elif w == "dealer":
        v = [0] * 4
        v[other(rng, g.num(s.parent_tensor).index(1), 0, 3)] = 1
        s.parent_tensor = np.array(v, dtype=float)
    elif w == "dealer-rounds":
        s.parent_rounds_remaining = list(s.parent_rounds_remaining)
        bump(s.parent_rounds_remaining, 0, 3)
    else:
        name = {"riichi": "reaches", "double": "double_reaches", "ippatsu": "ippatsu", "closed": "is_menzen"}[w]
        v = [int(x) for x in getattr(s, name)]
        i = rng.randrange(4)
        v[i] = 1 - v[i]
        setattr(s, name, v)
    return w, s


class C22(GameProp):
    id = "C22"
    agents = True
    runs = {"quick": 800, "thorough": 20000}
    rule = ("one case is one simulated round of which decisions are shown to one randomly initialised real model, "
            "as they were and with one fact changed; counted per round as in the other table simulations")
    measure = "distinct (model, sequence of actions of the round)"
    components = {"real": ["process_xml.process", "the four agents: batch preparation and networks"],
                  "stub": ["players and wall", "weights: random"]}
    required_probes = tuple("changed-" + x for x in (
        "discard-tile", "discard-player", "discard-drawn", "call-call", "call-player", "riichi-player",
        "indicator-tile", "order", "missing-event", "hand", "unseen", "river", "score", "deposit", "honba", "riichi",
        "double", "ippatsu", "closed", "draws-left", "rounds-left", "dealer", "dealer-rounds")) + ("label-changed",)

    def generate(self, rng, tier, index):
        while True:
            rounds, go = table.play_game(rng, 1)
            if nontrivial(rounds[0]) or rng.random() < 0.2:
                break
        return {"go": go, "rounds": rounds, "model": index % len(MODELS), "seed": rng.getrandbits(30),
                "scale": rng.choice([2, 4, 6]), "picks": rng.getrandbits(40), "changes": 40}

    def run(self, plan, stats):
        px = g.fresh_modules(True)
        r = truth.replay(plan["rounds"], plan["go"])[0]
        stats.events += len(plan["rounds"][0])
        count_probes(r, stats)
        if nontrivial(plan["rounds"][0]):
            stats.sig((plan["model"], shape(plan["rounds"][0])))
        with scratch() as d:
            path = os.path.join(d, "game.log")
            with open(path, "w") as f:
                f.write(truth.to_xml(plan["rounds"], plan["go"]))
            h, t = g.process(px, path)
        with judging():
            self.compare(plan, h[0], [int(x) for x in t[0]], stats)

    def compare(self, plan, turns, tokens, stats):
        rng = random.Random(plan["picks"])
        model, proc, cls = make_model(plan)
        for n in range(plan["changes"]):
            i = rng.choice([rng.randrange(len(turns)), len(turns) - 1 - int(rng.expovariate(0.1))])
            i = min(max(i, 0), len(turns) - 1)
            turn = turns[i]
            kind = g.WHICH[type(turn).__name__]
            q = turn.player
            if kind == truth.POST:
                can = [p for p in range(4) if p != q and any(len(x) for x in turn.decisions[p])]
                if not can:
                    continue
                q = rng.choice(can)
                turn = copy.copy(turn)
                turn.decisions = [turn.decisions[p] if p == q else [[], [], []] for p in range(4)]
            what, turn2, tokens2 = self.vary(rng, turn, tokens, q, kind)
            if what is None:
                continue
            u, v = self.row(proc, turn, tokens, kind), self.row(proc, turn2, tokens2, kind)
            if u is None or v is None:
                continue
            if what == "label":
                if u[:3] != v[:3] or u[3] == v[3]:
                    continue
                stats.probe("label-changed")
                a, b = self.logits(model, turn, tokens), self.logits(model, turn2, tokens2)
                require((a == b).all(), "output-knows-the-answer",
                        lambda: f"{cls}: the output for player {q} at turn {i} ({kind}) changes with the recorded action")
                continue
            if u[2] != v[2] or (u[:2] == v[:2] and u[4] == v[4]):
                continue                 # not presented by this model, or another set of actions
            stats.probe("changed-" + what)
            for attempt in range(4):
                if attempt:
                    model, _, _ = make_model(dict(plan, seed=plan["seed"] + attempt, scale=(3, 1, 2)[attempt - 1]))
                if (self.logits(model, turn, tokens) != self.logits(model, turn2, tokens2)).any():
                    break
            else:
                raise Violation("network-blind", f"{cls}: the output for player {q} at turn {i} ({kind}) is the same "
                                f"when this is changed: {what} {self.difference(u, v)}")
            if attempt:
                model, _, _ = make_model(plan)

    def vary(self, rng, turn, tokens, q, kind):
        turn2, tokens2 = copy.copy(turn), list(tokens)
        n = int(turn.encoding_idx)
        o = rng.random()
        if o < 0.05:
            return self.other_action(rng, turn, turn2, tokens2, kind)
        if o < 0.45 and n:
            special = [j for j in range(n) if g.bits(tokens[j])["event"] != 1]
            j = rng.choice(special) if special and rng.random() < 0.6 else rng.choice([rng.randrange(n), n - 1, 0])
            what, tokens2[j] = change_token(rng, tokens[j])
            return what, turn2, tokens2
        if o < 0.52 and n > 1:
            j = rng.choice([rng.randrange(n - 1), n - 2])
            tokens2[j], tokens2[j + 1] = tokens2[j + 1], tokens2[j]
            return "order", turn2, tokens2
        if o < 0.56 and n:
            turn2.encoding_idx = n - 1
            return "missing-event", turn2, tokens2
        s = turn.responderStateObjs[q] if kind == truth.POST else turn.stateObj
        what, s = change_state(rng, s)
        if kind == truth.POST:
            turn2.responderStateObjs = [s if p == q else x for p, x in enumerate(turn.responderStateObjs)]
        else:
            turn2.stateObj = s
        return what, turn2, tokens2

    def other_action(self, rng, turn, turn2, tokens2, kind):
        """The same decision, decided differently."""
        if kind == truth.DISCARD:
            have = [i for i in range(34) if turn.stateObj.hand_tensor[i]]
            turn2.discarded_tile = rng.choice(have) * 4 + 1
            return "label", turn2, tokens2
        lists = [turn.decisions] if kind == truth.DURING else list(turn.decisions)
        lists = [[[unmarked(d) for d in x] for x in p] for p in lists]
        ds = [d for p in lists for x in p for d in x]
        if not ds:
            return None, turn2, tokens2
        if rng.random() < 0.8:
            rng.choice(ds).executed = True
        turn2.decisions = lists[0] if kind == truth.DURING else lists
        return "label", turn2, tokens2

    def row(self, proc, turn, tokens, kind):
        rows = g.actual_rows(batches(proc, [[[turn]]], [[tokens]])[g.KINDS.index(kind)])
        return rows[0] if len(rows) == 1 else None

    def logits(self, model, turn, tokens):
        import torch
        with torch.no_grad(), quiet():
            out = list(model([[[turn]]], [[tokens]], sample=False))
        require(len(out) == 1, "loss-count", f"{len(out)} losses for one decision")
        return out[0][0].detach().numpy()[0]

    def difference(self, u, v):
        hist = [(j, int(a), int(b)) for j, (a, b) in enumerate(zip(u[0], v[0])) if a != b]
        tab = [(p, j, a, b) for p in range(3) for j, (a, b) in enumerate(zip(u[1][p], v[1][p])) if a != b]
        return (f"(event, as presented, as changed) {[(j, g.bits(a), g.bits(b)) for j, a, b in hist][:2]}" if hist else
                f"(part, position, as presented, as changed) {tab[:4]}")

    def shrink(self, plan):
        for rounds in shrink_rounds(plan["rounds"]):
            yield dict(plan, rounds=rounds)
        if plan["changes"] > 1:
            yield dict(plan, changes=plan["changes"] // 2)
            yield dict(plan, changes=plan["changes"] - 1)

    def describe(self, plan, stats):
        return (f"{MODELS[plan['model']][1]}{MODELS[plan['model']][2]} weights x{plan['scale']}: " +
                GameProp.describe(self, plan, stats))


# ---- C10 -----------------------------------------------------------------------------------

def digest(obj):
    h = hashlib.blake2b(digest_size=12)
    feed(h, obj, 0)
    return h.hexdigest()


def feed(h, o, depth):
    if depth > 40:
        raise RuntimeError("too deep")
    if isinstance(o, np.ndarray):
        h.update(("A%s" % (o.shape,)).encode())
        feed(h, o.tolist(), depth + 1)
    elif isinstance(o, np.generic):
        feed(h, o.item(), depth + 1)
    elif isinstance(o, bool):
        h.update(b"b%d" % o)
    elif isinstance(o, (int, float)):
        h.update(("n%r" % float(o)).encode())
    elif o is None or isinstance(o, (str, bytes)):
        h.update(("s%r" % (o,)).encode())
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for x in o:
            feed(h, x, depth + 1)
        h.update(b"]")
    elif isinstance(o, dict):
        for k in sorted(o):
            feed(h, k, depth + 1)
            feed(h, o[k], depth + 1)
    elif hasattr(o, "__dict__"):
        h.update(type(o).__name__.encode())
        feed(h, vars(o), depth + 1)
    else:
        h.update(repr(type(o)).encode())


class Lockstep:
    """Runs functions in real threads of which exactly one is running at any time; the running
    one changes at seeded numbers of executed lines of the code under test."""

    def __init__(self, rng, root):
        self.rng, self.root = rng, root
        self.turn, self.live = None, []
        self.cond = threading.Condition()
        self.switches = 0
        self.left = 0

    def choose(self):
        self.turn = self.rng.choice(self.live) if self.live else None
        self.left = int(self.rng.expovariate(1 / 300)) + 1

    def trace(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    with self.cond:
                        self.choose()
                        if self.turn != me:
                            self.switches += 1
                            self.cond.notify_all()
                            while self.turn != me:
                                self.cond.wait()
            return local

        def outer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        return outer

    def run(self, fns):
        results = [None] * len(fns)
        self.live = list(range(len(fns)))

        def body(i):
            with self.cond:
                while self.turn != i:
                    self.cond.wait()
            sys.settrace(self.trace(i))
            try:
                results[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa: BLE001
                results[i] = ("error", e)
            finally:
                sys.settrace(None)
                with self.cond:
                    self.live.remove(i)
                    self.choose()
                    self.cond.notify_all()
        threads = [threading.Thread(target=body, args=(i,)) for i in range(len(fns))]
        for t in threads:
            t.start()
        with self.cond:
            self.choose()
            self.cond.notify_all()
        for t in threads:
            t.join()
        return results


class C10(GameProp):
    id = "C10"
    agents = True
    runs = {"quick": 220, "thorough": 6000}
    rule = ("one case is a history of processing calls in one process: good logs, failing logs, failures injected "
            "into a call, calls interleaved line by line, results changed by their owner, files replaced; counted "
            "per distinct history")
    measure = "distinct sequences of (operation, game) in a history"
    components = {"real": ["process_xml.process", "the files it reads", "prepare_batches of the agents"],
                  "stub": ["players and wall", "thread scheduler: seeded, one thread runs at a time"]}
    required_probes = ("fault:truncated", "fault:garbage", "fault:memory", "fault:interrupt", "interleaved",
                       "mutated", "file-replaced", "files-alike", "rounds-reordered", "examples-made")

    def generate(self, rng, tier, index):
        games = []
        for _ in range(3):
            rounds, go = table.play_game(rng, rng.choice([1, 1, 2]))
            games.append({"go": go, "rounds": rounds})
        how = None
        if index % 2:       # games that could be taken for each other
            how = rng.choice(table.TWINS)
            one, two, go1, go2 = table.twin_game(rng, rng.choice([1, 2, 4]), how)
            games[0], games[1] = {"go": go1, "rounds": one}, {"go": go2, "rounds": two}
            if rng.random() < 0.5:
                games[2] = {"go": go1, "rounds": [rng.choice(one), rng.choice(two)]}
        ops = []
        for _ in range(rng.randrange(4, 10)):
            o = rng.random()
            i = rng.randrange(3)
            if o < 0.3:
                ops.append(["process", i, rng.random() < 0.15])
            elif o < 0.5:
                ops.append(["fail", rng.choice(["truncated", "garbage", "bye", "robots", "missing", "impossible"]),
                            i, rng.random()])
            elif o < 0.65:
                ops.append(["inject", rng.choice(["memory", "interrupt"]), i, rng.random()])
            elif o < 0.72:
                ops.append(["threads", [rng.randrange(3) for _ in range(2)], rng.getrandbits(30)])
            elif o < 0.84:
                ops.append(["mutate", i, rng.getrandbits(30)])
            elif o < 0.92:
                ops.append(["replace", i, rng.randrange(3)])
            else:
                ops.append(["examples", i])
        ops.append(["process", rng.randrange(3), False])
        # files of the same name in different directories, of the same length, with the same times
        return {"games": games, "ops": ops, "order": rng.sample(range(3), 3), "alike": rng.random() < 0.7,
                "twins": how}

    def run(self, plan, stats):
        games = plan["games"]
        texts = [truth.to_xml(x["rounds"], x["go"]) for x in games]
        stats.sig([o[:2] for o in plan["ops"]])
        if plan.get("twins"):
            stats.probe("twins:" + plan["twins"])
        if plan.get("alike"):
            size = max(map(len, texts)) + 8
            texts = [x + "\n" * (size - len(x)) for x in texts]
            stats.probe("files-alike")
        with scratch() as d:
            # what each game gives in a process that did nothing else
            fresh, per_round = [], []
            for i, text in enumerate(texts):
                px = g.fresh_modules()
                res = g.process(px, self.put(d, "fresh/game.log", text))
                fresh.append(digest(res))
                per_round.append([digest((h, t)) for h, t in zip(*res)])
                stats.events += sum(map(len, games[i]["rounds"]))
            px = g.fresh_modules(True)
            procs = None
            paths = [self.put(d, f"{i}/game.log", t) for i, t in enumerate(texts)]
            content = dict(zip(range(3), range(3)))     # file -> game in it
            kept = []                                   # (result, digest, owner changed it)

            def check(res, i, what):
                got = digest(res)
                require(got == fresh[i], "history-dependent",
                        lambda: f"{what}: processing game {i} gives another result than in a fresh process; "
                                f"{where_differs(res, texts[i], d)}")
                kept.append([res, got])

            for n, op in enumerate(plan["ops"]):
                what = f"operation {n} {op}"
                if op[0] == "process":
                    i = content[op[1]]
                    if op[2]:
                        with quiet():
                            res = px.process(paths[op[1]], True)
                        stats.probe("verbose")
                    else:
                        res = g.process(px, paths[op[1]])
                    check(res, i, what)
                    stats.probe("processed")
                elif op[0] == "fail":
                    self.fail(px, d, op, texts, stats)
                elif op[0] == "inject":
                    self.inject(px, paths[op[2]], op, stats)
                elif op[0] == "threads":
                    ls = Lockstep(random.Random(op[2]), os.path.dirname(os.path.dirname(px.__file__)))
                    with quiet():
                        rs = ls.run([lambda p=paths[j]: px.process(p) for j in op[1]])
                    stats.probe("interleaved")
                    stats.probe("thread-switches", ls.switches)
                    for j, (tag, res) in zip(op[1], rs):
                        require(tag == "ok", "history-dependent", f"{what}: interleaved processing failed: {res!r}")
                        check(res, content[j], what)
                elif op[0] == "mutate":
                    if kept:
                        k = kept.pop(op[2] % len(kept))
                        spoil(k[0], random.Random(op[2]))
                        stats.probe("mutated")
                elif op[0] == "replace":
                    self.put(d, f"{op[1]}/game.log", texts[op[2]])
                    content[op[1]] = op[2]
                    stats.probe("file-replaced")
                elif op[0] == "examples":
                    if kept:
                        procs = procs or processors()
                        res = kept[-1][0]
                        for p in procs.values():
                            batches(p, [res[0]], [res[1]])
                        stats.probe("examples-made")
                for res, dig in kept:
                    require(digest(res) == dig, "returned-result-changed",
                            f"a result returned earlier was changed by {what}")
                for f, i in content.items():
                    with open(paths[f]) as fh:
                        require(fh.read() == texts[i], "input-modified", what)
            # a round's result does not depend on the rounds around it
            for i in plan["order"]:
                rounds = games[i]["rounds"]
                if len(rounds) > 1:
                    flipped = g.process(px, self.put(d, "r/game.log", truth.to_xml(rounds[::-1], games[i]["go"])))
                    got = [digest((h, t)) for h, t in zip(*flipped)]
                    stats.probe("rounds-reordered")
                    require(got == per_round[i][::-1], "round-depends-on-others",
                            f"game {i}: rounds in reverse order give other results")
                    alone = g.process(px, self.put(d, "r/game.log", truth.to_xml(rounds[-1:], games[i]["go"])))
                    require([digest((h, t)) for h, t in zip(*alone)] == per_round[i][-1:], "round-depends-on-others",
                            f"game {i}: its last round alone gives another result")

    @staticmethod
    def put(d, name, text):
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
        os.utime(path, (1.6e9, 1.6e9))
        return path

    def fail(self, px, d, op, texts, stats):
        text = texts[op[2]]
        cut_at = max(1, int(op[3] * len(text)))
        if op[1] == "truncated":
            text = text[:cut_at]
        elif op[1] == "garbage":
            text = text[:cut_at] + "<&\x00>" + text[cut_at + 5:]
        elif op[1] == "bye":
            j = text.find("/>", cut_at)
            text = text[:j + 2] + '<BYE who="1"/>' + text[j + 2:] if j > 0 else text[:cut_at]
        elif op[1] == "robots":
            text = re.sub(r'<GO type="\d+"', '<GO type="168"', text)
        elif op[1] == "impossible":
            # the same draw twice
            evs = [m for m in ("<T", "<U", "<V", "<W") if m in text]
            if evs:
                j = text.find(evs[0], cut_at)
                j = text.find(evs[0]) if j < 0 else j
                k = text.find("/>", j) + 2
                text = text[:k] + text[j:k] + text[k:]
        path = os.path.join(d, "absent/game.log") if op[1] == "missing" else self.put(d, "bad/game.log", text)
        try:
            with quiet():
                px.process(path)
        except Exception:  # noqa: BLE001
            pass
        stats.probe("fault:" + op[1])
        stats.fault("bad-log-" + op[1])

    def inject(self, px, path, op, stats):
        """An allocation fails, or the call is interrupted, at some line of the code under test."""
        exc = MemoryError if op[1] == "memory" else KeyboardInterrupt
        root = os.path.dirname(os.path.dirname(px.__file__))
        left = [int(20000 * op[3] ** 2) + 1]

        def local(frame, event, arg):
            if event == "line":
                left[0] -= 1
                if left[0] == 0:
                    raise exc()
            return local

        def outer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None
        try:
            sys.settrace(outer)
            with quiet():
                px.process(path)
        except (MemoryError, KeyboardInterrupt):
            stats.fault("injected-" + op[1])
        except Exception as e:  # noqa: BLE001
            sys.settrace(None)
            if left[0] > 0:     # the failure was not injected yet
                raise Violation("legal-log-rejected", repr(e))
            stats.fault(f"injected-{op[1]}-became-another-error")
        finally:
            sys.settrace(None)
        stats.probe("fault:" + op[1])

    def shrink(self, plan):
        ops = plan["ops"]
        for i in range(len(ops)):
            yield dict(plan, ops=ops[:i] + ops[i + 1:])
        for i, game in enumerate(plan["games"]):
            for rounds in shrink_rounds(game["rounds"]):
                yield dict(plan, games=plan["games"][:i] + [dict(game, rounds=rounds)] + plan["games"][i + 1:])

    def describe(self, plan, stats):
        return f"operations {plan['ops']}"[:900]


def where_differs(res, text, d):
    """First turn that differs from a fresh computation (for the report only)."""
    try:
        px = g.fresh_modules()
        path = C10.put(d, "w/game.log", text)
        with quiet():
            ref = px.process(path)
        for i, (a, b) in enumerate(zip(res[0], ref[0])):
            for j, (x, y) in enumerate(zip(a, b)):
                if digest(x) != digest(y):
                    return f"first at round {i} turn {j}"
        return "in the history"
    except Exception as e:  # noqa: BLE001
        return repr(e)


def flat_decisions(x):
    if isinstance(x, (list, tuple)):
        return [d for y in x for d in flat_decisions(y)]
    return [] if x is None else [x]


def spoil(res, rng):
    """The owner of a result changes it."""
    for turns in res[0]:
        for t in turns:
            objs = [t.stateObj] + [s for s in (getattr(t, "responderStateObjs", None) or []) if s is not None]
            for s in objs:
                for k, v in vars(s).items():
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v += rng.choice([1, -1])
                    elif isinstance(v, list) and v:
                        if isinstance(v[0], list):
                            for x in v:
                                x.clear()
                        else:
                            v[rng.randrange(len(v))] = 99
            dec = getattr(t, "decisions", None)
            if dec is not None:
                for d in flat_decisions(dec):
                    d.executed = not d.executed
                    d.player = 3 - d.player
                for lst in dec:
                    for x in lst:
                        if isinstance(x, list):
                            x.clear()
                    lst.clear()
        turns.clear()
    for t in res[1]:
        t.clear()
