"""Mahjong rules used by the reference model.  Written from the rules, not from /repo.

Tiles are ids 0-135; id // 4 is the kind 0-33; ids 16, 52, 88 are the red fives.
Whether a complete hand has a yaku is decided by the installed `mahjong` library (trusted),
called with the real tile ids, winds and situation flags; completeness and readiness are
decided here.
"""
from functools import lru_cache

RED_IDS = (16, 52, 88)


def kind(t):
    return t // 4


def slots(t):
    """Indices of a tile in a 37-vector: its kind, and its red slot."""
    return [t // 4] + ([34 + RED_IDS.index(t)] if t in RED_IDS else [])


def vec(tiles):
    v = [0] * 37
    for t in tiles:
        v[t // 4] += 1
        if t == 16 or t == 52 or t == 88:
            v[34 + RED_IDS.index(t)] += 1
    return v


def counts(tiles):
    c = [0] * 34
    for t in tiles:
        c[t // 4] += 1
    return c


@lru_cache(maxsize=None)
def _sets_only(c, honors):
    """Can the counts be split into triplets and (in suits) runs?"""
    for i, n in enumerate(c):
        if n:
            break
    else:
        return True
    l = list(c)
    if n >= 3:
        l[i] -= 3
        if _sets_only(tuple(l), honors):
            return True
        l[i] += 3
    if not honors and i <= 6 and c[i + 1] and c[i + 2]:
        l[i] -= 1
        l[i + 1] -= 1
        l[i + 2] -= 1
        if _sets_only(tuple(l), honors):
            return True
    return False


@lru_cache(maxsize=None)
def _suit(c, honors):
    """(splits into sets, splits into sets plus one pair)"""
    s = sum(c) % 3
    if s == 0:
        return _sets_only(c, honors), False
    if s == 2:
        for i, n in enumerate(c):
            if n >= 2:
                l = list(c)
                l[i] -= 2
                if _sets_only(tuple(l), honors):
                    return False, True
    return False, False


def complete(c):
    """Complete hand: concealed counts (14, 11, 8, 5 or 2 tiles)."""
    pairs = 0
    ok = True
    for lo, hi, h in ((0, 9, False), (9, 18, False), (18, 27, False), (27, 34, True)):
        s, p = _suit(tuple(c[lo:hi]), h)
        if p:
            pairs += 1
        elif not s:
            ok = False
            break
    if ok and pairs == 1:
        return True
    if sum(c) == 14:
        if sum(1 for n in c if n == 2) == 7:
            return True
        yao = [0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]
        if all(c[i] >= 1 for i in yao) and sum(c[i] for i in yao) == 14:
            return True
    return False


@lru_cache(maxsize=None)
def _adds(c, honors):
    """(kinds that make sets of the counts, kinds that make sets and a pair of them)"""
    sets, pairs = [], []
    l = list(c)
    for k in range(len(c)):
        l[k] += 1
        x, y = _suit(tuple(l), honors)
        if x:
            sets.append(k)
        if y:
            pairs.append(k)
        l[k] -= 1
    return sets, pairs


YAO = (0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33)


def waits(c):
    """Kinds that complete 13 (10, 7 ...) concealed tiles, own copies not excluded."""
    c = tuple(c)
    parts = ((0, c[0:9], False), (9, c[9:18], False), (18, c[18:27], False), (27, c[27:34], True))
    have = [_suit(x, h) for _, x, h in parts]
    bad = [i for i in range(4) if not (have[i][0] or have[i][1])]
    res = []
    if len(bad) <= 1:
        for i in bad or range(4):
            others = sum(1 for j in range(4) if j != i and have[j][1])
            if others > 1:
                continue
            lo, x, h = parts[i]
            sets, pairs = _adds(x, h)
            res += [lo + k for k in (sets if others else pairs)]
    if sum(c) == 13:
        if c.count(2) == 6 and c.count(1) == 1:
            res.append(c.index(1))
        if sum(c[i] for i in YAO) == 13:
            missing = [i for i in YAO if not c[i]]
            if len(missing) <= 1:
                res += missing or YAO
    return sorted(set(res))


def ready_discards(c, held=None):
    """For 14 tiles: {kind discarded: waits} where the rest is ready (waits may be held out)."""
    c = list(c)
    res = {}
    for d in range(34):
        if c[d]:
            c[d] -= 1
            w = waits(c)
            if w:
                res[d] = w
            c[d] += 1
    return res


def ready(c, melded=None):
    """(strict, loose): can some discard leave a ready hand; strict excludes waits for tiles
    of which the player already holds all four."""
    m = melded or [0] * 34
    rd = ready_discards(c)
    loose = bool(rd)
    strict = any(any(c[w] - (1 if w == d else 0) + m[w] < 4 for w in ws) for d, ws in rd.items())
    return strict, loose


_calc = None


def _library():
    global _calc
    if _calc is None:
        from mahjong.hand_calculating.hand import HandCalculator
        from mahjong.hand_calculating.hand_config import HandConfig, OptionalRules
        from mahjong.meld import Meld
        _calc = (HandCalculator(), HandConfig, OptionalRules(has_open_tanyao=True, has_aka_dora=True), Meld)
    return _calc


def has_yaku(concealed, melds, win, *, tsumo, riichi=False, double=False, ippatsu=False,
             rinshan=False, chankan=False, haitei=False, houtei=False, tenhou=False,
             chiihou=False, seat=0, rnd=0, doras=()):
    """concealed: ids including the winning tile; melds: [(type, ids)]; seat/rnd: 0-3 east.."""
    calc, HandConfig, options, Meld = _library()
    types = {"chi": Meld.CHI, "pon": Meld.PON, "minkan": Meld.KAN, "ankan": Meld.KAN,
             "kakan": Meld.SHOUMINKAN}
    ms = [Meld(types[t], tiles=sorted(ids), opened=(t != "ankan")) for t, ids in melds]
    tiles = sorted(list(concealed) + [i for _, ids in melds for i in ids])
    cfg = HandConfig(is_tsumo=tsumo, is_riichi=bool(riichi), is_daburu_riichi=bool(double),
                     is_ippatsu=bool(ippatsu), is_rinshan=rinshan, is_chankan=chankan,
                     is_haitei=haitei, is_houtei=houtei, is_tenhou=tenhou, is_chiihou=chiihou,
                     player_wind=27 + seat, round_wind=27 + rnd, options=options)
    return calc.estimate_hand_value(tiles, win, melds=ms, dora_indicators=list(doras), config=cfg).error is None
