"""Simulator of a four-player mahjong table: produces legal games as event lists.

All choices (wall, hands, every player's behaviour) come from one seeded PRNG.  The walls are
stacked towards chosen hands and the players' temperaments vary, so that rare situations
(several winners, robbed kans, last-tile and replacement-tile wins, red fives in calls and
dora indicators, double riichi, first-turn wins, abortive draws) occur often.
"""
import random

from dst import rules, truth
from dst.rules import counts

RED = rules.RED_IDS
STYLES = ("random", "tanyao", "yakuhai", "chiitoi", "kokushi", "toitoi", "kans", "red", "flush", "wait", "dora")


def pick_sets(rng, avail, n, sets, pair, honors_ok=True, kinds=None):
    """Greedy: choose n sets (run/triplet by weight) and a pair out of the available ids."""
    out = []

    def take(ks):
        ids = []
        for k in ks:
            have = [t for t in (4 * k, 4 * k + 1, 4 * k + 2, 4 * k + 3) if t in avail and t not in ids]
            if not have:
                return None
            red = [t for t in have if t in RED]
            ids.append(red[0] if red and rng.random() < 0.5 else rng.choice(have))
        return ids
    tries = 0
    while len(out) < n and tries < 60:
        tries += 1
        if rng.random() < sets:
            k = rng.choice(kinds or range(34 if honors_ok else 27))
            g = take([k] * 3)
        else:
            ks = [k for k in (kinds or range(27)) if k < 27 and k % 9 <= 6]
            if not ks:
                continue
            k = rng.choice(ks)
            g = take([k, k + 1, k + 2])
        if g:
            out.append(g)
            avail -= set(g)
    while pair and tries < 200:
        tries += 1
        g = take([rng.choice(kinds or range(34 if honors_ok else 27))] * 2)
        if g:
            out.append(g)
            avail -= set(g)
            break
    return [t for g in out for t in g]


def target(rng, style, avail, seat, dealer, rnd):
    """Choose a 14-tile hand for one seat out of avail (removed from it)."""
    if style == "random":
        return []
    if style == "tanyao":
        kinds = [k for k in range(27) if 1 <= k % 9 <= 7]
        return pick_sets(rng, avail, 4, 0.3, True, kinds=kinds)
    if style == "yakuhai":
        wind = 27 + (seat - dealer) % 4
        k = rng.choice([wind, 27 + rnd % 4, 31, 32, 33])
        ids = [t for t in range(4 * k, 4 * k + 4) if t in avail][:3]
        avail -= set(ids)
        return ids + pick_sets(rng, avail, 3, 0.3, True)
    if style == "chiitoi":
        out = []
        for k in rng.sample(range(34), 34):
            have = [t for t in range(4 * k, 4 * k + 4) if t in avail]
            if len(have) >= 2:
                out += have[:2]
            if len(out) == 14:
                break
        avail -= set(out)
        return out
    if style == "kokushi":
        yao = [0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]
        out = []
        for k in yao + [rng.choice(yao)]:
            have = [t for t in range(4 * k, 4 * k + 4) if t in avail and t not in out]
            if have:
                out.append(rng.choice(have))
        avail -= set(out)
        return out
    if style == "toitoi":
        return pick_sets(rng, avail, 4, 1.0, True)
    if style == "kans":
        out = []
        for k in rng.sample(range(34), 34):
            have = [t for t in range(4 * k, 4 * k + 4) if t in avail]
            if len(have) == 4:
                out += have
            if len(out) >= 12:
                break
        avail -= set(out)
        return out
    if style == "red":
        out = [t for t in RED if t in avail]
        avail -= set(out)
        kinds = [k for k in range(27) if 2 <= k % 9 <= 6]
        return out + pick_sets(rng, avail, 3, 0.4, True, kinds=kinds)
    if style == "flush":
        c = rng.randrange(3)
        kinds = list(range(9 * c, 9 * c + 9))
        if rng.random() < 0.5:
            kinds += list(range(27, 34))
        return pick_sets(rng, avail, 4, 0.3, True, kinds=kinds)
    if style == "wait":   # closed run hand without yaku: wins need riichi or circumstance
        return pick_sets(rng, avail, 4, 0.25, True)
    if style == "dora":
        return pick_sets(rng, avail, 4, 0.4, True)
    raise ValueError(style)


def stack_wall(rng, dealer, rnd, styles, depth, shared=False, script=None):
    """(hands, live wall, replacement tiles, indicators): disjoint, 136 tiles in all."""
    avail = set(range(136))
    full, hot = share_wait(rng, avail) if shared and not script else ({}, [])
    if script:
        full, shared = script["hands"], True
        avail -= {t for h in full.values() for t in h}
        avail -= set(script["live"].values()) | set(script["dead"].values())
    order = list(range(4))
    rng.shuffle(order)
    tg = [None] * 4
    for p in order:
        if shared:
            tg[p] = full.get(p, [])
            continue
        tg[p] = target(rng, styles[p], avail, p, dealer, rnd)
        rng.shuffle(tg[p])
    rest = sorted(avail)
    rng.shuffle(rest)
    hands, later = [], []
    for p in range(4):
        n = min(len(tg[p]), rng.choice([13, 13, 12, 12, 11, 10, 9]) if depth and not shared else 13)
        hands.append(tg[p][:n])
        later.append(tg[p][n:])
        if len(hands[p]) > 13:
            later[p] += hands[p][13:]
            hands[p] = hands[p][:13]
    for p in range(4):
        while len(hands[p]) < 13:
            hands[p].append(rest.pop())
    live = [None] * 70
    dead = [None] * 14
    if script:
        for i, t in script["live"].items():
            live[i] = t
        for i, t in script["dead"].items():
            dead[i] = t
    for p in range(4):
        for t in later[p]:
            r = rng.random()
            if r < 0.55:       # own draw
                idx = [i for i in range(70) if i % 4 == (p - dealer) % 4 and live[i] is None]
                i = idx[min(len(idx) - 1, int(rng.expovariate(0.4)))] if idx else None
            elif r < 0.85:     # somebody else draws it
                idx = [i for i in range(70) if i % 4 != (p - dealer) % 4 and live[i] is None]
                i = rng.choice(idx[:rng.choice([6, 20, 60])]) if idx else None
            elif r < 0.93:     # at the end of the wall
                idx = [i for i in range(60, 70) if live[i] is None]
                i = rng.choice(idx) if idx else None
            else:
                i = None
                free = [j for j in range(4) if dead[j] is None]
                if free:
                    dead[rng.choice(free)] = t
                    continue
            if i is None:
                rest.append(t)
            else:
                live[i] = t
    free = [i for i in range(12) if live[i] is None]
    for t in hot:
        live[free.pop(rng.randrange(len(free)))] = t
    if rng.random() < 0.4:   # red fives as indicators
        reds = [t for t in rest if t in RED]
        for t in reds:
            j = rng.choice([4, 5, 6])
            if dead[j] is None:
                dead[j] = t
                rest.remove(t)
    rng.shuffle(rest)
    for lst in (live, dead):
        for i, t in enumerate(lst):
            if t is None:
                lst[i] = rest.pop()
    assert not rest
    assert sorted(live + dead + [t for h in hands for t in h]) == list(range(136))
    return hands, live, dead[:4], dead[4:9]


class Temper:
    """How one player behaves."""

    def __init__(self, rng):
        self.call = rng.choice([0, 0.1, 0.5, 0.9, 1])
        self.win = rng.choice([1, 1, 1, 1, 0.5, 0])
        self.riichi = rng.choice([0, 0.5, 1, 1])
        self.kan = rng.choice([0.2, 0.9, 1])
        self.chaos = rng.choice([0, 0, 0.1, 1])
        self.dealin = rng.choice([0, 0, 0.3])   # likes to discard what others wait for
        self.hold = frozenset()          # kinds not discarded while anything else is there
        self.drop = frozenset()          # tiles discarded as soon as they are drawn
        self.pons = None                 # the only kinds called, if not None


class Engine:
    def __init__(self, rng, rnd, honba, kyotaku, scores, go, hands, live, rinshan, indicators,
                 tempers, dealer=None, long_game=False, fork=None):
        self.rng = rng
        self.fork = fork                 # (event count, seed): another future from there on
        self.go = go
        self.live, self.rinshan, self.indicators = list(live), list(rinshan), list(indicators)
        self.tempers = tempers
        dealer = rnd % 4 if dealer is None else dealer
        init = {"seed": f"{rnd},{honba},{kyotaku},{rng.randrange(6)},{rng.randrange(6)},{self.indicators.pop(0)}",
                "ten": ",".join(map(str, scores)), "oya": str(dealer)}
        for p in range(4):
            init[f"hai{p}"] = ",".join(map(str, sorted(hands[p])))
        self.r = truth.Round(init, go)
        self.events = [("INIT", init)]
        self.long_game = long_game
        self.missed = [False] * 4        # temporary or riichi furiten
        self.forbid = set()
        self.first_discards = []
        self.pending_dora = 0
        self.kan_by = set()
        self.from_rinshan = False
        self.done = False

    def emit(self, tag, a=None):
        ev = (tag, a or {})
        self.r.apply(tag, ev[1])
        self.events.append(ev)
        if self.fork and len(self.events) == self.fork[0]:
            self.rng = random.Random(self.fork[1])
            hidden = self.live + self.rinshan + self.indicators
            if len(self.fork) < 3:
                self.rng.shuffle(hidden)
            n, m = len(self.live), len(self.rinshan)
            self.live[:], self.rinshan[:], self.indicators[:] = hidden[:n], hidden[n:n + m], hidden[n + m:]
            self.tempers = [Temper(self.rng) for _ in range(4)]
            self.long_game = False

    def sc(self, delta):
        s = self.r.scores
        return ",".join(f"{s[i]},{delta[i]}" for i in range(4))

    def end_draw(self, why=None):
        a = {"ba": f"{self.r.honba},{self.r.kyotaku}", "sc": self.sc([0] * 4)}
        if why:
            a = {"type": why, **a}
        self.emit("RYUUKYOKU", a)
        self.done = True

    def end_win(self, winners, frm):
        for w in winners:
            pts = self.rng.choice([10, 13, 20, 26, 39, 52, 80])
            delta = [0] * 4
            if w == frm:
                for i in range(4):
                    delta[i] = 3 * pts if i == w else -pts
            else:
                delta[w], delta[frm] = pts, -pts
            hand = sorted(self.r.hands[w])
            tile = self.r.drawn if w == frm else self.r.turns[-1]["tile"]
            if w != frm:
                hand = sorted(hand + [tile])
            a = {"ba": f"{self.r.honba},{self.r.kyotaku}", "hai": ",".join(map(str, hand)),
                 "machi": str(tile), "ten": f"30,{pts * 100},0", "yaku": "1,1",
                 "doraHai": ",".join(map(str, self.r.doras)), "who": str(w), "fromWho": str(frm),
                 "sc": self.sc(delta)}
            if self.r.melds[w]:
                a["m"] = ",".join(str(m.m) for m in self.r.melds[w])
            self.emit("AGARI", a)
        self.done = True

    def furiten(self, p):
        w = rules.waits(counts(self.r.hands[p]))
        return self.missed[p] or any(t // 4 in w for t in self.r.river[p])

    def wants_win(self, p):
        t = self.tempers[p]
        if self.long_game and self.r.remaining() > 1:
            return False
        if self.long_game:
            return True
        return self.rng.random() < t.win

    # -- one full round
    def play(self):
        p = self.r.dealer
        while not self.done:
            if self.r.remaining() == 0:
                nm = self.rng.random() < 0.1
                self.end_draw("nm" if nm else None)
                break
            p = self.turn(p)

    def reveal(self):
        while self.pending_dora and self.indicators:
            self.pending_dora -= 1
            self.emit("DORA", {"hai": str(self.indicators.pop(0))})
        self.pending_dora = 0

    def turn(self, p):
        """p draws; returns who draws next (or anything when done)."""
        r, rng = self.r, self.rng
        replacement = r.rinshan
        t = self.rinshan.pop(0) if replacement else self.live.pop(0)
        if not r.riichi[p]:
            self.missed[p] = False
        self.emit("TUVW"[p] + str(t))
        o = r.turns[-1]["offers"]
        first = r.calls == 0 and r.own_draws[p] == 1
        if o["win"] and self.wants_win(p):
            self.end_win([p], p)
            return p
        if first and len({i // 4 for i in r.hands[p] if i // 4 >= 27 or i // 4 % 9 in (0, 8)}) >= 9 \
                and rng.random() < 0.15:
            self.end_draw("yao9")
            return p
        self.reveal()   # indicator of a minkan or kakan is shown after the replacement draw
        kans = [k for k in o["kans"] if self.kan_allowed(p, k)]
        if kans and rng.random() < self.tempers[p].kan and r.kans < 4 and self.rinshan:
            k = rng.choice(kans)
            return self.declare_kan(p, k)
        self.forbid = set()
        tile = self.choose_discard(p, o)
        return self.discard(p, tile)

    def kan_allowed(self, p, k):
        r = self.r
        if r.riichi[p]:
            if k["type"] != "ankan" or r.drawn // 4 != k["kind"]:
                return False
            before = counts(r.hands[p] - {r.drawn})
            after = counts([t for t in r.hands[p] if t // 4 != k["kind"]])
            return rules.waits(before) == rules.waits(after)
        return True

    def declare_kan(self, p, k):
        r, rng = self.r, self.rng
        self.kan_by.add(p)
        if k["type"] == "ankan":
            self.emit("N", {"who": str(p), "m": str(truth.encode_ankan(k["kind"] * 4 + rng.randrange(4)))})
            self.pending_dora += 1
            self.reveal()
            return p
        self.emit("N", {"who": str(p), "m": str(truth.encode_kakan(k["pon_m"]))})
        self.pending_dora += 1
        t = r.turns[-1]
        robbers = [q for q in range(4) if t["offers"][q] and t["offers"][q]["win"] and not self.furiten(q)
                   and self.wants_win(q)]
        self.note_missed(p, t["tile"], robbers)
        if robbers:
            self.win_by_discard(robbers, p)
        return p

    def note_missed(self, p, tile, winners):
        for q in range(4):
            if q != p and q not in winners and tile // 4 in rules.waits(counts(self.r.hands[q])):
                self.missed[q] = True

    def win_by_discard(self, winners, frm):
        order = [(frm + k) % 4 for k in (1, 2, 3)]
        winners = [q for q in order if q in winners]
        if len(winners) == 3:
            self.end_draw("ron3")
            return
        self.end_win(winners, frm)

    def choose_discard(self, p, o):
        r, rng, tm = self.r, self.rng, self.tempers[p]
        hand = sorted(r.hands[p])
        if r.riichi[p]:
            return r.drawn
        can = [t for t in hand if t // 4 not in self.forbid]
        can = [t for t in can if t in tm.drop] or [t for t in can if t // 4 not in tm.hold] or can
        if o and o["riichi"][0] and r.remaining() >= 4 and r.scores[p] >= 10 and rng.random() < tm.riichi:
            rd = rules.ready_discards(counts(hand))
            good = [t for t in hand if t // 4 in rd]
            t = rng.choice(good)
            self.emit("REACH", {"who": str(p), "step": "1"})
            return t
        if rng.random() < tm.chaos:
            return rng.choice(can)
        if rng.random() < tm.dealin:
            w = set()
            for q in range(4):
                if q != p:
                    w |= set(rules.waits(counts(r.hands[q])))
            hot = [t for t in can if t // 4 in w]
            if hot:
                return rng.choice(hot)
        c = counts(hand)
        # usefulness: neighbours and copies, plus the ready discard if there is one
        rd = rules.ready_discards(c) if rng.random() < 0.8 else {}
        good = [t for t in can if t // 4 in rd]
        if good:
            return max(good, key=lambda t: (len(rd[t // 4]), rng.random()))

        def score(t):
            k = t // 4
            s = 3 * (c[k] - 1)
            if k < 27:
                for d, wgt in ((1, 2), (2, 1)):
                    if k % 9 - d >= 0:
                        s += wgt * min(c[k - d], 1)
                    if k % 9 + d <= 8:
                        s += wgt * min(c[k + d], 1)
            if t in RED:
                s += 2
            return s
        best = min(score(t) for t in can)
        pool = [t for t in can if score(t) <= best + rng.choice([0, 0, 1])]
        return r.drawn if r.drawn in pool and rng.random() < 0.3 else rng.choice(pool)

    def discard(self, p, tile):
        """p discards; resolves claims; returns who draws next."""
        r, rng = self.r, self.rng
        self.emit("DEFG"[p] + str(tile))
        t = r.turns[-1]
        if r.calls == 0 and len(self.first_discards) < 4:
            self.first_discards.append(tile // 4)
        winners = [q for q in range(4) if t["offers"][q] and t["offers"][q]["win"]
                   and not self.furiten(q) and self.wants_win(q)]
        self.note_missed(p, tile, winners)
        if winners:
            self.win_by_discard(winners, p)
            return p
        if r.declared == p:
            self.emit("REACH", {"who": str(p), "step": "2", "ten": ",".join(
                str(s - (10 if i == p else 0)) for i, s in enumerate(r.scores))})
            if sum(r.riichi) == 4:
                self.end_draw("reach4")
                return p
        if r.calls == 0 and len(self.first_discards) == 4 and sum(r.own_draws) == 4 \
                and len(set(self.first_discards)) == 1 and self.first_discards[0] >= 27 \
                and self.first_discards[0] <= 30:
            self.end_draw("kaze4")
            return p
        if r.kans == 4 and len(self.kan_by) > 1:
            self.end_draw("kan4")
            return p
        # calls: pon/kan before chi
        claims = []
        for q in range(4):
            if q == p or not t["offers"][q]:
                continue
            for c in t["offers"][q]["calls"]:
                if c["type"] == "minkan" and (r.kans >= 4 or not self.rinshan):
                    continue
                rate = self.tempers[q].kan if c["type"] == "minkan" else self.tempers[q].call
                if self.tempers[q].pons is not None and (c["kind"] not in self.tempers[q].pons or
                                                         c["type"] == "chi"):
                    continue
                if rng.random() < rate:
                    claims.append((q, c))
        for want in (("pon", "minkan"), ("chi",)):
            cs = [(q, c) for q, c in claims if c["type"] in want]
            rng.shuffle(cs)
            for q, c in cs:
                forbid = {tile // 4}
                if c["type"] == "chi":
                    ks = sorted(i // 4 for i in c["ids"])
                    k = tile // 4
                    if k == ks[0] and k % 9 + 3 <= 8:
                        forbid.add(k + 3)
                    if k == ks[2] and k % 9 - 3 >= 0:
                        forbid.add(k - 3)
                left = r.hands[q] - set(c["own"])
                if c["type"] != "minkan" and not any(i // 4 not in forbid for i in left):
                    continue
                self.emit("N", {"who": str(q), "m": str(c["m"])})
                if c["type"] == "minkan":
                    self.kan_by.add(q)
                    self.pending_dora += 1
                    return q
                self.forbid = forbid
                d = self.choose_discard(q, None)
                self.forbid = set()
                return self.discard(q, d)
        return (p + 1) % 4


def play_round(rng, rnd, honba, kyotaku, scores, go, fork=None, scripted=False):
    dealer = rnd % 4
    mode = rng.random()
    if mode < 0.2:
        styles = ["random"] * 4
    elif mode < 0.6:
        styles = [rng.choice(STYLES) for _ in range(4)]
    else:
        s = rng.choice(STYLES[1:])
        styles = [s if rng.random() < 0.6 else rng.choice(STYLES) for _ in range(4)]
    script = make_script(rng, dealer, scripted) if rng.random() < 0.15 or scripted else None
    hands, live, rin, ind = stack_wall(rng, dealer, rnd // 4, styles, depth=rng.random() < 0.9,
                                        shared=rng.random() < 0.12, script=script)
    e = Engine(rng, rnd, honba, kyotaku, scores, go, hands, live, rin, ind,
               [Temper(rng) for _ in range(4)], long_game=rng.random() < 0.15, fork=fork)
    if script:
        e.tempers, e.long_game = script["tempers"], script["long"]
    elif rng.random() < 0.1:
        for t in e.tempers:
            t.riichi, t.win, t.chaos = 1, 0.05, 0.0
    e.play()
    return e


def make_script(rng, dealer, wanted=None):
    """A situation that ordinary play hardly reaches, led up to by the wall and the players' habits:
    hands whose only value is the circumstance of the win, kans declared or possible on the
    last draws.  Nothing is forced: calls and draws may still go elsewhere."""
    pool = set(range(136))
    tempers = []

    def take(kind, n):
        have = [t for t in range(4 * kind, 4 * kind + 4) if t in pool]
        got = rng.sample(have, n) if len(have) >= n else None
        if got is None:
            raise LookupError
        pool.difference_update(got)
        return got

    def worthless(waited=None):
        """Two runs, a pair and a two-tile wait (10 tiles) without a yaku of their own; the waited kind."""
        suits = rng.sample(range(3), 3)
        runs = [9 * suits[0] + rng.choice([0, 6]), 9 * suits[1] + rng.choice([1, 2, 3, 4, 5])]
        out = [take(k + i, 1)[0] for k in runs for i in range(3)]
        if waited is None:
            waited = 9 * suits[2] + rng.choice([2, 3, 4, 5, 6])
        out += take(waited - 1, 1) + take(waited + 1, 1)
        out += take(9 * suits[1] + rng.choice([0, 8]), 2)
        return out, waited

    for _ in range(40):
        try:
            pool = set(range(136))
            tempers[:] = [Temper(rng) for _ in range(4)]
            for t in tempers:
                t.call, t.win, t.riichi, t.dealin, t.pons, t.kan = 0, 1, 0, 0, frozenset(), 0.9
            what = rng.choice(["minkan", "kakan", "ankan", "rob", "lastkan", "lastkan", "lastpon", "lastcall",
                               "lasttile", "wind", "drawn", "chi"])
            what = wanted if isinstance(wanted, str) else what
            a = rng.randrange(4)
            x = (a + rng.choice([1, 2, 3])) % 4
            i = (x - dealer) % 4 + rng.choice([0, 0, 4])     # x draws live[i] as long as nobody calls
            hands, live, dead, long_ = {}, {}, {}, False
            k = rng.choice([0, 8, 9, 17, 18, 26, 3, 13, 23, 30, 33])
            if what == "minkan":
                body, w = worthless()
                hands[a] = body + take(k, 3)
                live[i] = take(k, 1)[0]
                dead[0] = take(w, 1)[0]
                tempers[x].drop = frozenset([live[i]])
                tempers[a].pons, tempers[a].hold = frozenset([k]), frozenset(t // 4 for t in hands[a])
                tempers[a].kan = 1
            elif what in ("kakan", "lasttile"):
                body, w = worthless()
                hands[a] = body + take(k, 2) + take(rng.choice([27, 28, 29]), 1)
                live[i] = take(k, 1)[0]
                tempers[x].drop = frozenset([live[i]])
                tempers[a].pons, tempers[a].hold = frozenset([k]), frozenset(t // 4 for t in body) | {k}
                tempers[a].call = 1
                if what == "kakan":
                    live[i + 4] = take(k, 1)[0]
                    dead[0] = take(w, 1)[0]
                else:
                    long_ = True
                    z = (a + 69 - i) % 4     # draws the last tile, when a has called once
                    live[69] = take(w, 1)[0]
                    tempers[z].drop |= {live[69]} if z != a else set()
                    for t in tempers:
                        t.kan = 0
            elif what == "ankan":
                body, w = worthless()
                body = body[3:]
                hands[a] = body + take(k, 3) + take(27, 2) + take(28, 1)
                live[i], live[i + 4] = take(27, 1)[0], take(k, 1)[0]
                dead[0] = take(w, 1)[0]
                tempers[x].drop = frozenset([live[i]])
                tempers[a].pons = frozenset([27])
                tempers[a].hold = frozenset(t // 4 for t in body) | {k, 27}
                tempers[a].call = 1
            elif what == "rob":
                w = rng.choice([j for j in range(27) if 2 <= j % 9 <= 6])
                body, w = worthless(w)
                b = rng.choice([q for q in range(4) if q not in (a, x)])
                hands[a] = body + [take(j, 1)[0] for j in rng.choice([(0, 1, 2), (15, 16, 17), (18, 19, 20)])]
                hands[b] = take(w, 2)
                live[i], live[i + 4] = take(w, 1)[0], take(w, 1)[0]
                hands[b] += rng.sample(sorted(t for t in pool if t // 4 >= 27), 11)
                pool -= set(hands[b])
                tempers[x].drop = frozenset([live[i]])
                tempers[b].pons, tempers[b].call, tempers[b].kan = frozenset([w]), 1, 1
                tempers[a].hold = frozenset(t // 4 for t in hands[a])
            elif what in ("lastkan", "lastcall"):
                long_ = True
                n = rng.choice([3, 3, 2])
                kinds = rng.sample(range(34), 4)
                hands[a] = [t for kk in kinds for t in take(kk, 3)]
                hands[a] += take(rng.choice([kk for kk in range(34) if kk not in kinds]), 1)
                for last in (68, 69, 67, 66):
                    z = (dealer + last) % 4
                    if what == "lastkan" and z != a or what == "lastcall" and z == a:
                        continue
                    live[last] = take(rng.choice(kinds[:n]), 1)[0]
                    if z != a:
                        tempers[z].drop |= {live[last]}
                tempers[a].hold = frozenset(kinds)
                for t in tempers:
                    t.kan = rng.choice([0, 0, 1])
            elif what == "wind":         # worth something for some winds only
                body, w = worthless()
                hands[a] = body + take(rng.choice([27, 28, 29, 30]), 3)
                live[i] = take(w, 1)[0]
                tempers[x].drop = frozenset([live[i]])
                tempers[a].hold = frozenset(t // 4 for t in hands[a])
            elif what in ("drawn", "chi"):      # the same runs, worth something as long as they are concealed
                suits = rng.sample(range(3), 3)
                body = [take(9 * suits[j] + b + n, 1)[0] for j, b in ((0, 0), (1, rng.choice([2, 3, 4])))
                        for n in range(3)]
                parts = rng.sample(range(1, 6), 2)
                body += [take(9 * suits[z] + parts[z] + n, 1)[0] for z in range(2) for n in range(2)]
                body += take(9 * suits[2] + rng.randrange(9), 2)
                wait = [9 * suits[z] + parts[z] + rng.choice([-1, 2]) for z in range(2)]
                first, last = take(wait[0], 1)[0], take(wait[1], 1)[0]
                hands[a] = body + take(rng.choice([27, 28, 29]), 1)
                i = (a - 1 - dealer) % 4
                live[i + (what == "drawn")] = first
                live[i + (what == "drawn") + 1] = last
                tempers[(a + 3) % 4].drop = frozenset([first])
                tempers[(a + 1) % 4].drop = frozenset([last])
                tempers[a].hold = frozenset(t // 4 for t in body) | {wait[0]}
                tempers[a].call, tempers[a].pons = 1, None
            elif what == "lastpon":
                long_ = True
                k = rng.randrange(34)
                hands[a] = take(k, 2) + [take(kk, 1)[0] for kk in rng.sample([j for j in range(34) if j != k], 11)]
                live[i] = take(k, 1)[0]
                last = [j for j in (66, 67, 68, 69) if (j - i) % 4 == 0][0]
                live[last] = take(k, 1)[0]
                tempers[x].drop = frozenset([live[i]])
                tempers[a].pons, tempers[a].call = frozenset([k]), 1
                tempers[a].hold = frozenset([k])
                for t in tempers:
                    t.kan = 0
            return dict(hands=hands, live=live, dead=dead, tempers=tempers, long=long_, what=what)
        except LookupError:
            continue
    return None


def share_wait(rng, avail):
    """{seat: 13 ids}, [shared tiles]: two or three hands without terminals that wait for one kind."""
    k = rng.choice([i for i in range(27) if 2 <= i % 9 <= 6])
    pool = set(avail)
    shared = rng.sample(range(4 * k, 4 * k + 4), 2)
    pool -= set(shared)
    around = [[k - 1, k + 1]]
    if k % 9 > 2:
        around.append([k - 2, k - 1])
    if k % 9 < 6:
        around.append([k + 1, k + 2])
    kinds = [9 * d + j for d in range(3) if d != k // 9 for j in range(1, 8)]
    hands = {}
    for seat in rng.sample(range(4), rng.choice([2, 3, 3])):
        ids = []
        for kk in rng.choice(around):
            have = [t for t in range(4 * kk, 4 * kk + 4) if t in pool]
            if have:
                ids.append(have[0])
                pool.discard(have[0])
        rest = pick_sets(rng, pool, 3, 0.2, True, kinds=kinds)
        if len(ids) + len(rest) == 13:
            hands[seat] = ids + rest
    others = [p for p in range(4) if p not in hands]
    if others and rng.random() < 0.6:   # an added kan of the shared kind may get robbed
        hands[rng.choice(others)] = [t for t in range(4 * k, 4 * k + 4) if t not in shared]
    for h in hands.values():
        avail -= set(h)
    avail -= set(shared)
    return hands, shared


GO_TYPES = (169, 161, 137, 129, 233, 225, 9, 1, 41, 33)   # four players, red fives, open tanyao


def play_game(rng, n_rounds, go=None, consecutive=False):
    """[[events], ...] of n_rounds rounds (possibly a slice of a game), and the go type."""
    go = rng.choice(GO_TYPES) if go is None else go
    top = 12 if go & 8 else 8       # west rounds happen
    rounds = []
    rnd = rng.randrange(top)
    scores = [250] * 4
    for _ in range(n_rounds):
        if not consecutive:
            rnd = rng.choice([rng.randrange(top), rng.randrange(4), rng.randrange(top)])
        scores = [rng.choice([250, 250, rng.randrange(0, 700), rng.randrange(0, 30)]) for _ in range(4)]
        e = play_round(rng, rnd, rng.choice([0, 0, 1, 2, 7]), rng.choice([0, 0, 1, 2, 3]), scores, go)
        rounds.append(e.events)
        rnd = min(rnd + 1, top - 1)
    return rounds, go


TWINS = ("other-play", "other-play", "winds", "no-riichi", "indicators", "counters", "type", "seats", "cut", "copies",
         "called", "mixed", "mixed", "mixed")


def twin_game(rng, n_rounds, how):
    """A game and one much like it (same deal, one circumstance different), for what might be confused with it.
    A twin is processable, but it need not be a game that could have happened."""
    go = rng.choice([x for x in GO_TYPES if x & 8])
    top = 8
    one, two = [], []
    for _ in range(n_rounds):
        par = (rng.randrange(top), rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), [250] * 4, go)
        seed, scripted = rng.getrandbits(40), rng.random() < 0.3
        h = rng.choice(TWINS) if how == "mixed" else how
        if h == "winds" and rng.random() < 0.5:
            scripted = "wind"
        a = play_round(random.Random(seed), *par, scripted=scripted).events
        one.append(a)
        if h == "called":
            one[-1] = play_round(random.Random(seed), *par, scripted="drawn").events
            two.append(play_round(random.Random(seed), *par, scripted="chi").events)
        elif h == "other-play":
            k = min(rng.choice([1, 1, rng.randrange(1, len(a) + 1)]), len(a) - 2)
            two.append(play_round(random.Random(seed), *par, fork=(max(1, k), rng.getrandbits(40), True),
                                  scripted=scripted).events)
        else:
            two.append(twin_round(rng, a, h))
    return one, two, go, (go ^ 8 if how == "type" else go)


def twin_round(rng, events, how):
    out = [(t, dict(a)) for t, a in events]
    init = out[0][1]
    seed = init["seed"].split(",")
    if how == "winds":
        seed[0] = str((int(seed[0]) + rng.choice([1, 2, 3, 4, 4])) % 8)
    elif how == "counters":
        seed[1], seed[2] = str(int(seed[1]) + 1), str(int(seed[2]) + 2)
        init["ten"] = ",".join(str(int(x) + 10) for x in init["ten"].split(","))
    elif how == "no-riichi":
        out = [x for x in out if x[0] != "REACH"]
    elif how == "indicators":
        used = {int(seed[5])} | {int(x) for p in range(4) for x in init[f"hai{p}"].split(",")}
        for t, a in out[1:]:
            if t[0] in "TUVW" and t[1:].isdigit():
                used.add(int(t[1:]))
            elif t == "DORA":
                used.add(int(a["hai"]))
        free = sorted(set(range(136)) - used)
        if free:
            seed[5] = str(rng.choice(free))
    elif how == "seats":
        by = rng.choice([1, 2, 3])
        for i, (t, a) in enumerate(out):
            for key in ("who", "fromWho", "oya"):
                if key in a:
                    a[key] = str((int(a[key]) + by) % 4)
            if t[0] in "TUVWDEFG" and t[1:].isdigit():
                row = "TUVW" if t[0] in "TUVW" else "DEFG"
                out[i] = (row[(row.index(t[0]) + by) % 4] + t[1:], a)
        hands = [init[f"hai{p}"] for p in range(4)]
        for p in range(4):
            init[f"hai{(p + by) % 4}"] = hands[p]
    elif how == "cut":
        k = rng.randrange(1, len(out))
        while out[k - 1][0] in ("REACH", "N"):
            k -= 1
        out = out[:max(1, k)] + [("RYUUKYOKU", dict(ba="0,0", sc="250,0,250,0,250,0,250,0"))]
    elif how == "copies":
        called = {t // 4 for k, a in out if k == "N" for t in truth.decode(int(a["m"]))["ids"]}
        swap = {}
        for red in RED:
            if red // 4 not in called:
                b = red + rng.choice([1, 2, 3])
                swap.update({red: b, b: red})
        for p in range(4):
            init[f"hai{p}"] = ",".join(str(swap.get(int(x), int(x))) for x in init[f"hai{p}"].split(","))
        seed[5] = str(swap.get(int(seed[5]), int(seed[5])))
        for i, (t, a) in enumerate(out):
            if t[0] in "TUVWDEFG" and t[1:].isdigit():
                out[i] = (t[0] + str(swap.get(int(t[1:]), int(t[1:]))), a)
            elif t == "DORA":
                a["hai"] = str(swap.get(int(a["hai"]), int(a["hai"])))
    init["seed"] = ",".join(seed)
    return out
