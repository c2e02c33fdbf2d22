"""Reference model of one round: replays public and private events by the rules of the game.

It is the oracle for everything the log processing records, and the rule engine the table
simulator asks which actions are open to whom.
"""
from dst import rules
from dst.rules import vec, counts, slots

DURING, DISCARD, POST = "during", "discard", "post"


# ---- calls ------------------------------------------------------------------------------

def encode_chi(ids3, called):
    ids = sorted(ids3)
    k = ids[0] // 4
    which = ids.index(called)
    pattern = (k // 9 * 7 + k % 9) * 3 + which
    return pattern << 10 | (ids[2] % 4) << 7 | (ids[1] % 4) << 5 | (ids[0] % 4) << 3 | 0x4 | 3


def encode_pon(k, called, used2, frm):
    ids = sorted([called] + list(used2))
    unused = ({0, 1, 2, 3} - {i % 4 for i in ids}).pop()
    return (k * 3 + ids.index(called)) << 9 | unused << 5 | 0x8 | frm


def encode_kakan(pon_m):
    return (pon_m & ~0x8) | 0x10


def encode_minkan(called, frm):
    return called << 8 | frm


def encode_ankan(tile):
    return tile << 8


def decode(m):
    """Tenhou meld code -> dict(type, kind/start, ids, called, own, from)"""
    if m & 0x4:
        p = m >> 10
        which, p = p % 3, p // 3
        start = p // 7 * 9 + p % 7
        ids = [(start + i) * 4 + ((m >> s) & 3) for i, s in enumerate((3, 5, 7))]
        return dict(type="chi", kind=start, ids=ids, called=ids[which], which=which,
                    own=[x for i, x in enumerate(ids) if i != which], frm=m & 3)
    if m & 0x18:
        p = m >> 9
        which, k = p % 3, p // 3
        odd = k * 4 + ((m >> 5) & 3)
        ids = [k * 4 + i for i in range(4) if k * 4 + i != odd]
        if m & 0x8:
            return dict(type="pon", kind=k, ids=ids, called=ids[which],
                        own=[x for i, x in enumerate(ids) if i != which], frm=m & 3)
        return dict(type="kakan", kind=k, ids=ids + [odd], called=None, own=[odd],
                    pon_ids=ids, frm=m & 3)
    t = m >> 8
    k = t // 4
    ids = [k * 4 + i for i in range(4)]
    if m & 3:
        return dict(type="minkan", kind=k, ids=ids, called=t, own=[x for x in ids if x != t], frm=m & 3)
    return dict(type="ankan", kind=k, ids=ids, called=None, own=ids, frm=0)


def action(d):
    """Action number of a call (layout: see DESIGN.md).  chi/pon/minkan: answers to a discard,
    0 pass, 1 win; ankan/kakan: own draw, 0 pass, 1 win, 2 riichi."""
    k = d["kind"]
    if d["type"] == "chi":
        start = d["ids"][0] // 4
        color, n = start // 9, start % 9
        which = d["which"]
        if any(i in rules.RED_IDS for i in d["own"]):
            red_pos = 4 - n
            return 2 + 63 + color * 6 + (n - 2) * 2 + [w for w in range(3) if w != red_pos].index(which)
        return 2 + color * 21 + n * 3 + which
    if d["type"] == "pon":
        if any(i in rules.RED_IDS for i in d["own"]):
            return 83 + 27 + k // 9
        return 83 + k if k < 27 else 83 + 30 + (k - 27)
    if d["type"] == "minkan":
        return 120 + k
    if d["type"] == "ankan":
        return 3 + k
    return 37 + k


class Meld:
    def __init__(self, m):
        self.m = m
        self.d = decode(m)

    @property
    def type(self):
        return self.d["type"]


class IllegalLog(Exception):
    pass


def need(c, msg=""):
    if not c:
        raise IllegalLog(msg)


class Round:
    """State after any prefix of a round's events."""

    def __init__(self, init, go):
        seed = [int(x) for x in init["seed"].split(",")]
        self.round, self.honba, self.kyotaku = seed[:3]
        self.doras = [seed[5]]
        self.scores = [int(x) for x in init["ten"].split(",")]
        self.dealer = int(init["oya"])
        self.n_rounds = 8 if go & 8 else 4
        self.hands = [set(int(x) for x in init[f"hai{p}"].split(",")) for p in range(4)]
        self.melds = [[] for _ in range(4)]
        self.river = [set() for _ in range(4)]        # ids discarded
        self.public = {self.doras[0]}                 # ids everyone has seen
        self.gone = set(self.doras).union(*self.hands)  # ids that left the wall
        need(len(self.gone) == 53, "deal")
        self.open = [0] * 4
        self.riichi = [0] * 4
        self.double = [0] * 4
        self.ippatsu = [0] * 4
        self.draws = 0
        self.calls = 0
        self.kans = 0
        self.rinshan = False
        self.declared = None       # player who declared riichi, not yet accepted
        self.declared_first = False
        self.to_discard = None     # player who has to discard
        self.drawn = None
        self.last_discard = None   # (player, tile) that can be claimed
        self.tokens = []
        self.turns = []
        self.decision_state = None
        self.results = []
        self.own_draws = [0] * 4
        self.log = []
        self.only = []             # wins offered that had no value but their circumstance

    # -- views
    def remaining(self):
        return 70 - self.draws

    def unseen(self, p):
        return vec([t for t in range(136) if t not in self.public and t not in self.hands[p]])

    def wall(self):
        return vec([t for t in range(136) if t not in self.gone])

    def snap(self, p):
        rr = self.n_rounds - self.round
        return dict(
            player=p, hand=vec(self.hands[p]), unseen=self.unseen(p), wall=self.wall(),
            river=[[1 if x else 0 for x in vec(r)] for r in self.river],
            closed=[1 - o for o in self.open], riichi=list(self.riichi), double=list(self.double),
            ippatsu=list(self.ippatsu), melds=[sorted(m.m for m in ms) for ms in self.melds],
            scores=list(self.scores), kyotaku=self.kyotaku, honba=self.honba,
            doras=list(self.doras), dealer=self.dealer, remaining=self.remaining(),
            rounds=rr,
            dealer_rounds=[sum(1 for r in range(self.round, self.n_rounds) if r % 4 == i) for i in range(4)]
            if rr >= 0 else None)

    def melds_for_value(self, p):
        return [(m.type, m.d["ids"]) for m in self.melds[p]]

    def win_ok(self, p, tile, tsumo, chankan=False):
        """complete hand with a yaku (no furiten)"""
        con = self.hands[p] | {tile}
        if not rules.complete(counts(con)):
            return False
        first = self.calls == 0
        special = dict(
            rinshan=tsumo and self.rinshan, chankan=chankan,
            haitei=tsumo and self.remaining() == 0 and not self.rinshan,
            houtei=(not tsumo) and self.remaining() == 0 and not chankan)

        def judge(special):
            return rules.has_yaku(
                con, self.melds_for_value(p), tile, tsumo=tsumo, riichi=self.riichi[p],
                double=self.double[p], ippatsu=self.ippatsu[p],
                tenhou=tsumo and first and self.draws == 1,
                chiihou=tsumo and first and 2 <= self.draws <= 4,
                seat=(p - self.dealer) % 4, rnd=self.round // 4, doras=self.doras, **special)
        ok = judge(special)
        if ok and any(special.values()) and not judge({}):
            self.only.append(next(k for k, v in special.items() if v))
        return ok

    def in_river(self, p, tile):
        return any(t // 4 == tile // 4 for t in self.river[p])

    # -- offers
    def draw_offers(self, p):
        o = dict(win=self.win_ok(p, self.drawn, True), riichi=(False, False), kans=[])
        if not self.riichi[p] and not self.open[p]:
            melded = [0] * 34
            for m in self.melds[p]:
                for i in m.d["ids"]:
                    melded[i // 4] += 1
            o["riichi"] = rules.ready(counts(self.hands[p]), melded)
        if self.remaining() > 0:
            c = counts(self.hands[p])
            for k in range(34):
                if c[k] == 4:
                    o["kans"].append(dict(type="ankan", kind=k, ids=[k * 4 + i for i in range(4)],
                                          own=[k * 4 + i for i in range(4)], called=None))
            for m in self.melds[p]:
                if m.type == "pon" and c[m.d["kind"]]:
                    odd = [i for i in self.hands[p] if i // 4 == m.d["kind"]]
                    o["kans"].append(dict(type="kakan", kind=m.d["kind"], ids=m.d["ids"] + odd,
                                          own=odd, called=None, pon_m=m.m))
        return o

    def discard_calls(self, p, frm, tile):
        """All calls player p could make on a discard, with every distinguishable choice of tiles."""
        if self.riichi[p] or self.remaining() == 0:
            return []
        k = tile // 4
        rel = (frm - p) % 4
        by = {}
        for t in sorted(self.hands[p]):
            by.setdefault(t // 4, []).append(t)

        def variants(kinds):
            """choices of one tile per kind up to the red distinction; list of id lists"""
            res = [[]]
            for kk in kinds:
                have = by.get(kk, [])
                reds = [t for t in have if t in rules.RED_IDS]
                blacks = [t for t in have if t not in rules.RED_IDS]
                res = [r + [c] for r in res for c in reds[:1] + blacks[:1]]
            return res
        out = []
        if (p - frm) % 4 == 1 and k < 27:
            for start in (k - 2, k - 1, k):
                if start < 0 or start // 9 != k // 9 or (start + 2) // 9 != k // 9:
                    continue
                others = [x for x in (start, start + 1, start + 2) if x != k]
                for own in variants(others):
                    ids = sorted(own + [tile])
                    out.append(dict(type="chi", kind=start, ids=ids, own=own, called=tile,
                                    which=ids.index(tile), m=encode_chi(ids, tile)))
        have = by.get(k, [])
        reds = [t for t in have if t in rules.RED_IDS]
        blacks = [t for t in have if t not in rules.RED_IDS]
        if reds and blacks:
            own = [reds[0], blacks[0]]
            out.append(dict(type="pon", kind=k, own=own, called=tile, ids=sorted(own + [tile]),
                            m=encode_pon(k, tile, own, rel)))
        if len(blacks) >= 2:
            own = blacks[:2]
            out.append(dict(type="pon", kind=k, own=own, called=tile, ids=sorted(own + [tile]),
                            m=encode_pon(k, tile, own, rel)))
        if len(have) == 3:
            out.append(dict(type="minkan", kind=k, own=list(have), called=tile,
                            ids=sorted(have + [tile]), m=encode_minkan(tile, rel)))
        return out

    # -- events
    def apply(self, tag, a):
        self.log.append((tag, a))
        if tag == "DORA":
            t = int(a["hai"])
            need(t not in self.gone, "dora")
            self.doras = self.doras + [t]
            self.public.add(t)
            self.gone.add(t)
            self.tokens.append(4 << 13 | 4 << 10 | t // 4)
        elif tag == "REACH":
            p = int(a["who"])
            if a["step"] == "1":
                need(self.to_discard == p and self.drawn is not None and not self.riichi[p], "reach1")
                self.declared = p
                self.declared_first = self.calls == 0 and self.own_draws[p] == 1
                self.turns[-1]["done"].add("riichi")
            else:
                need(self.declared == p and self.last_discard and self.last_discard[0] == p, "reach2")
                self.declared = None
                self.riichi[p] = 1
                self.double[p] = int(self.declared_first)
                self.ippatsu[p] = 1
                self.kyotaku += 1
                self.scores[p] -= 10
                self.tokens.append(2 << 13 | 3 << 10 | p << 8 | 2)
        elif tag == "N":
            self._call(int(a["who"]), int(a["m"]))
        elif tag in ("AGARI", "RYUUKYOKU"):
            self._end(tag, a)
        elif tag[0] in "TUVW":
            self._draw("TUVW".index(tag[0]), int(tag[1:]))
        elif tag[0] in "DEFG":
            self._discard("DEFG".index(tag[0]), int(tag[1:]))
        else:
            raise IllegalLog(tag)

    def _draw(self, p, t):
        need(self.to_discard is None and t not in self.gone and self.remaining() > 0, "draw")
        self.draws += 1
        self.own_draws[p] += 1
        self.gone.add(t)
        self.hands[p].add(t)
        self.drawn = t
        self.to_discard = p
        self.last_discard = None
        need(len(self.hands[p]) % 3 == 2, "hand size")
        offers = self.draw_offers(p)
        self.rinshan_now = self.rinshan
        self.rinshan = False
        self.decision_state = self.snap(p)
        self.turns.append(dict(type=DURING, player=p, prefix=len(self.tokens), offers=offers,
                               state=self.decision_state, done=set(), draws=self.draws,
                               rinshan=self.rinshan_now, event=len(self.log)))

    def _discard(self, p, t):
        need(self.to_discard == p and t in self.hands[p], "discard")
        alt = dict(self.decision_state)
        now = self.snap(p)
        for f in ("doras", "unseen", "wall"):
            alt[f] = now[f]  # a dora revealed since the draw may or may not be shown
        self.turns.append(dict(type=DISCARD, player=p, prefix=len(self.tokens), tile=t,
                               state=self.decision_state, alt_state=alt, event=len(self.log)))
        self.hands[p].discard(t)
        self.river[p].add(t)
        self.public.add(t)
        self.ippatsu[p] = 0
        self.tokens.append(1 << 13 | 1 << 10 | p << 8 | int(t == self.drawn) << 7 | t // 4)
        self.drawn = None
        self.to_discard = None
        self.last_discard = (p, t)
        offers = [None] * 4
        for q in range(4):
            if q != p:
                win = not self.in_river(q, t) and self.win_ok(q, t, False)
                offers[q] = dict(win=win, calls=self.discard_calls(q, p, t),
                                 furiten_block=self.in_river(q, t))
        self.turns.append(dict(type=POST, player=p, prefix=len(self.tokens), tile=t, offers=offers,
                               states=[self.snap(q) if q != p else None for q in range(4)],
                               done=[None] * 4, last=self.remaining() == 0, chankan=False,
                               event=len(self.log)))

    def _call(self, p, m):
        meld = Meld(m)
        d = meld.d
        need(set(d["own"]) <= self.hands[p], "call tiles")
        self.calls += 1
        self.ippatsu = [0] * 4
        if d["type"] in ("chi", "pon", "minkan"):
            need(self.last_discard is not None and self.declared is None, "claim")
            frm, tile = self.last_discard
            need(tile == d["called"] and (frm - p) % 4 == d["frm"] and frm != p, "claimed tile")
            self.turns[-1]["done"][p] = action(d)
            self.open[p] = 1
            self.tokens.append(3 << 13 | 2 << 10 | p << 8 | action(d))
        else:
            need(self.to_discard == p and self.drawn is not None, "kan turn")
            self.turns[-1]["done"].add(action(d))
            self.tokens.append(2 << 13 | 2 << 10 | p << 8 | action(d))
        for t in d["own"]:
            self.hands[p].discard(t)
            self.public.add(t)
        if d["type"] == "kakan":
            old = [x for x in self.melds[p] if x.type == "pon" and x.d["kind"] == d["kind"]]
            need(len(old) == 1 and set(old[0].d["ids"]) == set(d["pon_ids"]), "kakan pon")
            self.melds[p].remove(old[0])
        self.melds[p].append(meld)
        self.drawn = None
        self.last_discard = None
        self.to_discard = p if d["type"] in ("chi", "pon") else None
        self.decision_state = self.snap(p)
        if d["type"] in ("minkan", "ankan", "kakan"):
            self.kans += 1
            self.rinshan = True
        if d["type"] == "kakan":
            tile = d["own"][0]
            offers = [None] * 4
            for q in range(4):
                if q != p:
                    win = not self.in_river(q, tile) and self.win_ok(q, tile, False, chankan=True)
                    offers[q] = dict(win=win, calls=[], furiten_block=self.in_river(q, tile))
            self.turns.append(dict(type=POST, player=p, prefix=len(self.tokens), tile=tile,
                                   offers=offers,
                                   states=[self.snap(q) if q != p else None for q in range(4)],
                                   done=[None] * 4, last=False, chankan=True, event=len(self.log)))

    def _end(self, tag, a):
        if tag == "AGARI":
            w, f = int(a["who"]), int(a["fromWho"])
            t = self.turns[-1]
            if w == f:
                need(t["type"] == DURING and t["player"] == w, "tsumo")
                t["done"].add("win")
            elif t["type"] == POST:
                need(t["player"] == f, "ron")
                t["done"][w] = 1
        self.results.append((tag, a))


def replay(rounds, go):
    """rounds: [[(tag, attrs), ...], ...] -> [Round]"""
    out = []
    for evs in rounds:
        need(evs[0][0] == "INIT", "init")
        r = Round(evs[0][1], go)
        for tag, a in evs[1:]:
            r.apply(tag, a)
        out.append(r)
    return out


# ---- log text -----------------------------------------------------------------------------

def to_xml(rounds, go, extra=()):
    """A Tenhou-style log.  extra: [(position, tag, attrs)] raw elements placed before that event."""
    parts = ['<mjloggm ver="2.3">', '<SHUFFLE seed="mt19937ar-sha512-n288-base64,x" ref=""/>',
             f'<GO type="{go}" lobby="0"/>',
             '<UN n0="%41" n1="%42" n2="%43" n3="%44" dan="16,16,16,16" rate="2000.0,2000.0,2000.0,2000.0" sx="M,M,M,M"/>',
             '<TAIKYOKU oya="0"/>']
    n = 0
    for evs in rounds:
        for tag, a in evs:
            for pos, t2, a2 in extra:
                if pos == n:
                    parts.append("<" + t2 + "".join(f' {k}="{v}"' for k, v in a2.items()) + "/>")
            parts.append("<" + tag + "".join(f' {k}="{v}"' for k, v in a.items()) + "/>")
            n += 1
    parts.append("</mjloggm>")
    return "".join(parts)


def from_xml(path):
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    go = int(root.find("GO").attrib["type"])
    rounds = []
    for el in root:
        if el.tag == "INIT":
            rounds.append([("INIT", dict(el.attrib))])
        elif rounds and el.tag not in ("UN", "BYE", "SHUFFLE", "GO", "TAIKYOKU"):
            rounds[-1].append((el.tag, dict(el.attrib)))
    return rounds, go
