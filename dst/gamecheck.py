"""Compare what the real code records about a game with the reference model.

Every comparison is at the level of values: vectors by tile, action numbers, flags.
"""
import contextlib
import importlib
import io
import sys

import numpy as np

from dst import rules, truth
from dst.core import Violation, require

WHICH = {"DuringTurn": truth.DURING, "DiscardTurn": truth.DISCARD, "PostTurn": truth.POST}


def fresh_modules(agents=False):
    """Import the code under test anew, as a new process would."""
    for name in [n for n in sys.modules if n == "MahjongAI" or n.startswith("MahjongAI.")]:
        del sys.modules[name]
    with contextlib.redirect_stdout(io.StringIO()):
        px = importlib.import_module("MahjongAI.process_xml")
        if agents:
            for m in ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_ordered"):
                importlib.import_module("MahjongAI.agents." + m)
    return px


def process(px, path):
    """Real processing of a legal log: any exception is a violation."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            halfturns, tokens = px.process(path)
    except Exception as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("legal-log-rejected", f"{type(e).__name__}: {e} at {tb.filename.split('/')[-1]}:{tb.lineno}")
    return halfturns, tokens


def num(x):
    return [int(v) if float(v) == int(v) else float(v) for v in np.asarray(x, dtype=float).ravel()]


def align(halfturns, r, where=""):
    """The turns recorded are exactly those that occurred."""
    got = [(WHICH.get(type(t).__name__, "?"), int(t.player)) for t in halfturns]
    exp = [(t["type"], t["player"]) for t in r.turns]
    if got != exp:
        n = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        raise Violation("turns-recorded", f"{where} turn {n}: recorded {got[n:n + 2]}, happened {exp[n:n + 2]}"
                        f" ({len(got)} recorded, {len(exp)} happened)")


def views(halfturns, r):
    """(turn number, real turn, expected turn, deciding player, real state, expected states)"""
    for i, (t, e) in enumerate(zip(halfturns, r.turns)):
        if e["type"] == truth.DURING:
            yield i, t, e, e["player"], t.stateObj, [e["state"]]
        elif e["type"] == truth.DISCARD:
            yield i, t, e, e["player"], t.stateObj, [e["state"], e["alt_state"]]
        else:
            for q in range(4):
                if q != e["player"] and (has_choice(e["offers"][q]) or
                                         any(len(x) for x in t.decisions[q])):
                    yield i, t, e, q, t.responderStateObjs[q], [e["states"][q]]


def has_choice(o):
    return o is not None and (o["win"] or bool(o["calls"]))


def dealer_vec(s):
    return [1 if i == s["dealer"] else 0 for i in range(4)]



TABLE_FIELDS = {
    "hand": lambda s: num(s.hand_tensor),
    "river": lambda s: [num(x) for x in s.sutehai_tensors],
    "melds": lambda s: [sorted(int(m.naki_code) for m in ms) for ms in s.melds],
    "scores": lambda s: num(s.scores),
    "kyotaku": lambda s: int(s.kyotaku),
    "honba": lambda s: int(s.honba),
    "doras": lambda s: [int(d) for d in s.dora],
    "remaining": lambda s: int(s.remaining_tsumo),
    "player": lambda s: int(s.player),
    "dealer": lambda s: num(s.parent_tensor).index(1) if sorted(num(s.parent_tensor)) == [0, 0, 0, 1] else None,
    "rounds": lambda s: int(s.rounds_remaining),
    "dealer_rounds": lambda s: num(s.parent_rounds_remaining),
}
UNSEEN_FIELDS = {
    "unseen": lambda s: num(s.remaining_tiles_pov),
    "wall": lambda s: num(s.remaining_tiles),
}
FLAG_FIELDS = {
    "riichi": lambda s: num(s.reaches),
    "double": lambda s: num(s.double_reaches),
    "ippatsu": lambda s: num(s.ippatsu),
    "closed": lambda s: num(s.is_menzen),
    "scores": TABLE_FIELDS["scores"],
    "kyotaku": TABLE_FIELDS["kyotaku"],
    "remaining": TABLE_FIELDS["remaining"],
    "remaining_turns": lambda s: int(getattr(s, "remaining_turns", s.remaining_tsumo)),     # recorded twice
}


def compare_states(halfturns, r, fields, where):
    n = 0
    for i, t, e, q, s, exps in views(halfturns, r):
        require(s is not None, "state-missing", f"{where} turn {i}: no state for player {q}")
        for name, get in fields.items():
            got = get(s)
            want = [x["remaining" if name == "remaining_turns" else name] for x in exps]
            if want[0] is None:
                continue
            if name in ("rounds",) and want[0] < 0:
                continue
            n += 1
            if got not in want:
                raise Violation("state-" + name, f"{where} {e['type']} turn {i} (event {e['event']}), "
                                f"player {q}: recorded {diff(got, want[0])}")
    return n


def diff(got, want):
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want) and len(got) > 8:
        d = {i: (g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w}
        return f"differences {{index: (recorded, true)}} {d}"
    return f"{got}, true {want}"


def action_of(naki, during):
    return int(naki.get_during_turn_filter_idx() if during else naki.get_post_turn_filter_idx())


def call_lists(t, e):
    """[(player, real call decisions, offered call descriptions, executed actions, during?)]"""
    if e["type"] == truth.DURING:
        d = t.decisions[2]
        return [(e["player"], d, e["offers"]["kans"], {a for a in e["done"] if isinstance(a, int)}, True)]
    if e["type"] == truth.POST:
        out = []
        for q in range(4):
            calls = e["offers"][q]["calls"] if q != e["player"] else []
            done = {e["done"][q]} - {None, 1}
            out.append((q, t.decisions[q][2], calls, done, False))
        return out
    return []


def compare_calls(halfturns, r, where):
    n = 0
    for i, (t, e) in enumerate(zip(halfturns, r.turns)):
        for q, decs, offers, done, during in call_lists(t, e):
            ctx = f"{where} {e['type']} turn {i} (event {e['event']}), player {q}"
            got = sorted(action_of(d.naki, during) for d in decs)
            want = sorted(truth.action(o) for o in offers)
            n += len(want)
            require(got == want, "calls-offered", lambda: f"{ctx}: offered {got}, possible {want}")
            require(len(set(got)) == len(got), "calls-distinct", lambda: f"{ctx}: offered {got}")
            marked = {action_of(d.naki, during) for d in decs if d.executed}
            require(marked == done, "call-marked", lambda: f"{ctx}: marked {sorted(marked)}, made {sorted(done)}")
            for d in decs:
                require(int(d.player) == q, "call-player", lambda: f"{ctx}: decision of player {d.player}")
        if e["type"] == truth.POST:
            require(len(t.decisions) == 4, "calls-offered", f"{where} turn {i}: players {len(t.decisions)}")
    return n


def compare_wins(halfturns, r, where, stats=None):
    """Win and riichi offers, and their marks."""
    n = 0
    for i, (t, e) in enumerate(zip(halfturns, r.turns)):
        if e["type"] == truth.DISCARD:
            continue
        if e["type"] == truth.DURING:
            cases = [(e["player"], t.decisions[0], e["offers"]["win"], "win" in e["done"])]
            rd = t.decisions[1]
            strict, loose = e["offers"]["riichi"]
            ctx = f"{where} draw turn {i} (event {e['event']}), player {e['player']}"
            require(len(rd) <= 1, "riichi-offered", f"{ctx}: offered {len(rd)} times")
            require(not strict or rd, "riichi-offered", f"{ctx}: closed ready hand, riichi not offered")
            require(loose or not rd, "riichi-offered", f"{ctx}: riichi offered without a closed ready hand")
            marked = any(d.executed for d in rd)
            require(marked == ("riichi" in e["done"]), "riichi-marked",
                    f"{ctx}: marked {marked}, declared {'riichi' in e['done']}")
        else:
            cases = [(q, t.decisions[q][0], q != e["player"] and e["offers"][q]["win"],
                      e["done"][q] == 1) for q in range(4)]
            for q in range(4):
                require(not t.decisions[q][1], "riichi-offered", f"{where} response turn {i}: riichi offered")
        for q, decs, offered, won in cases:
            n += 1
            ctx = f"{where} {e['type']} turn {i} (event {e['event']}), player {q}"
            require(len(decs) <= 1, "win-offered", f"{ctx}: offered {len(decs)} times")
            require(bool(decs) == bool(offered), "win-offered",
                    lambda: f"{ctx}: recorded {bool(decs)}, possible by the rules {bool(offered)}")
            marked = any(d.executed for d in decs)
            require(marked == won, "win-marked", lambda: f"{ctx}: marked {marked}, happened {won}")
            for d in decs:
                require(int(d.player) == q, "win-player", f"{ctx}: decision of player {d.player}")
    return n


def compare_tokens(halfturns, tokens, r, where):
    got = [int(x) for x in tokens]
    if got != r.tokens:
        n = next((i for i, (a, b) in enumerate(zip(got, r.tokens)) if a != b), min(len(got), len(r.tokens)))
        raise Violation("history", f"{where}: entry {n} is {[bits(x) for x in got[n:n + 1]]}, happened "
                        f"{[bits(x) for x in r.tokens[n:n + 1]]} ({len(got)} recorded, {len(r.tokens)} happened)")
    for i, (t, e) in enumerate(zip(halfturns, r.turns)):
        require(int(t.encoding_idx) == e["prefix"], "history-position",
                lambda: f"{where} {e['type']} turn {i} (event {e['event']}): position {t.encoding_idx}, "
                        f"{e['prefix']} events were visible")
    return len(got)


def bits(x):
    return dict(place=x >> 13, event=x >> 10 & 7, player=x >> 8 & 3, drawn=x >> 7 & 1, value=x & 0xff)


# ---- rows of training examples -------------------------------------------------------------

KINDS = (truth.DURING, truth.DISCARD, truth.POST)
PROCESSORS = ("transformer", "transformer_conv", "transformer_conv_large", "transformer_conv_ordered")
DIM = {truth.DURING: 71, truth.DISCARD: 37, truth.POST: 154}


def thermo(v):
    return [[1 if i < x else 0 for i in range(4)] for x in v]


def features(name, s):
    """The numbers a processor presents for one expected state."""
    if name == "transformer":
        x1 = [s["hand"], s["unseen"], s["river"][s["player"]]]
    elif name == "transformer_conv_ordered":
        x1 = [thermo(s["hand"]), thermo(s["unseen"])] + \
             [thermo(s["river"][(s["player"] + i) % 4]) for i in range(4)]
    else:
        x1 = [thermo(s["hand"]), thermo(s["unseen"]), thermo(s["river"][s["player"]])]
    x2 = [s["scores"], dealer_vec(s), s["dealer_rounds"], s["double"], s["riichi"], s["ippatsu"], s["closed"]]
    x3 = [s["remaining"], s["kyotaku"], s["honba"], s["rounds"]]
    return tuple(map(tup, (x1, x2, x3)))


def tup(x):
    return tuple(np.asarray(x, dtype=np.float64).ravel())


def expected_rows(r, kind):
    """[(turn number, player, history, states accepted, permitted actions, action)] per processor-independent"""
    rows = []
    for i, e in enumerate(r.turns):
        if e["type"] != kind:
            continue
        hist = tup(r.tokens[:e["prefix"]] + [0] * (150 - e["prefix"]))
        if kind == truth.DISCARD:
            st = e["state"]
            allowed = frozenset(j for j in range(37) if st["hand"][j])
            rows.append((i, e["player"], hist, [e["state"], e["alt_state"]], allowed, e["tile"] // 4))
        elif kind == truth.DURING:
            o = e["offers"]
            # riichi is compared with what was recorded as offered when the rules leave it open
            allowed = {truth.action(k) for k in o["kans"]} | ({1} if o["win"] else set())
            opt = {2} if o["riichi"][1] else set()
            must = {2} if o["riichi"][0] else set()
            y = 0
            for a in e["done"]:
                y = {"win": 1, "riichi": 2}.get(a, a)
            rows.append((i, e["player"], hist, [e["state"]], (frozenset(allowed | must), frozenset(opt)), y))
        else:
            order = [(e["player"] + k) % 4 for k in (1, 2, 3)]
            order = list(range(e["player"] + 1, 4)) + list(range(e["player"]))
            for q in order:
                o = e["offers"][q]
                if not has_choice(o):
                    continue
                allowed = frozenset({truth.action(c) for c in o["calls"]} | ({1} if o["win"] else set()) | {0})
                y = e["done"][q]
                rows.append((i, q, hist, [e["states"][q]], allowed, 0 if y is None else y))
                if y is not None:
                    break
    return rows


def actual_rows(tensors):
    """One processor's tensors for one kind -> [(history, (x1,x2,x3), mask, action, player or None)]"""
    hist, st, mask, y = tensors[:4]
    player = tensors[4] if len(tensors) > 4 else None
    n = len(y)
    require(hist.shape[0] == n and all(x.shape[0] == n for x in st) and mask.shape[0] == n
            and (player is None or player.shape[0] == n), "row-shapes",
            lambda: f"{hist.shape} {[x.shape for x in st]} {mask.shape} {y.shape}")
    H, X, M = hist.cpu().numpy(), [x.cpu().numpy() for x in st], mask.cpu().numpy()
    return [(tup(H[i]), tuple(tup(x[i]) for x in X), tup(M[i]), int(y[i]),
             None if player is None else int(player[i])) for i in range(n)]


