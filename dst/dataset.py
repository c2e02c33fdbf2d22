"""Game logs on the simulated disk: a pool of whole small games and the ways a log can be bad.

A pool game is a function of its number only.  What processing it alone gives (its identity as
far as the loader and the trainer are concerned) is computed once per worker with the real code.
"""
import contextlib
import hashlib
import importlib.machinery
import io
import os
import re
import sys
import tempfile
import zlib
import xml.etree.ElementTree as ET

import numpy as np

from dst import core, gamecheck, table, truth

POOL = 400
_texts, _ids = [], {}


def cache_code():
    """Compile every module of the code under test once per worker; each import still runs it anew."""
    cls = importlib.machinery.SourceFileLoader
    if hasattr(cls, "_dst_cache"):
        return
    cls._dst_cache = {}
    real = cls.get_code

    def get_code(self, fullname):
        if not fullname.startswith("MahjongAI"):
            return real(self, fullname)
        c = cls._dst_cache.get(self.path)
        if c is None:
            c = cls._dst_cache[self.path] = real(self, fullname)
        return c
    cls.get_code = get_code


def events_of(k):
    rng = core.rng_for("pool", k)
    while True:
        rounds, go = table.play_game(rng, 1 if k % 3 else 2)
        if k % 16:
            rounds = [trim(ev, rng.randrange(4, 36)) for ev in rounds]
        if all(map(discards, rounds)):
            return rounds, go


def discards(events):
    return any(tag[0] in "DEFG" and tag[1:].isdigit() for tag, _ in events)


def trim(events, n):
    """The first n events, with a discard among them, closed as a drawn round."""
    if n >= len(events):
        return events
    if discards(events[:n]):
        return events[:n] + [["RYUUKYOKU", {"ba": "0,0", "sc": "250,0,250,0,250,0,250,0"}]]
    return trim(events, n + 1)


def text(k):
    """Pool game k; the pool is generated by the table simulator and committed (python -m dst.dataset)."""
    if not _texts:
        with io.open(os.path.join(core.VERIF, "dst", "pool.txt"), "rb") as f:
            _texts.extend(f.read().splitlines())
    return _texts[k]


def game_digest(halfturns, tokens):
    """Identity of a game as delivered.  Cheap: everything that identifies a turn of the game."""
    if halfturns and isinstance(halfturns[0], str):
        return halfturns[0]     # a stub (very long training runs only)
    h = hashlib.blake2b(digest_size=12)
    for turns, tok in zip(halfturns, tokens):
        h.update(repr([int(t) for t in tok]).encode())
        for t in turns:
            s = t.stateObj
            h.update(("%s%d" % (type(t).__name__, t.player)).encode())
            if s is not None:
                h.update(np.asarray(s.hand_tensor, dtype=np.float32).tobytes())
                h.update(np.asarray(s.remaining_tiles, dtype=np.float32).tobytes())
            h.update(repr(len(getattr(t, "encoding_tokens", None) or ())).encode())
        h.update(b"|%d" % len(turns))
    h.update(b"#%d,%d" % (len(halfturns), len(tokens)))
    return h.hexdigest()


_px = []


def alone(data):
    """What processing these bytes alone gives: a digest, or None if they are rejected."""
    key = hashlib.blake2b(data, digest_size=16).digest()
    if key not in _ids:
        if not _px:
            _px.append(gamecheck.fresh_modules())
        fd, path = tempfile.mkstemp(prefix="dst-", suffix=".log")
        try:
            with os.fdopen(fd, "wb") as f:
                f.write(data)
            with contextlib.redirect_stdout(io.StringIO()):
                h, t = _px[0].process(path)
            _ids[key] = game_digest(h, t) if h else None
        except Exception:  # noqa: BLE001
            _ids[key] = None
        finally:
            os.unlink(path)
    return _ids[key]


GOOD = "good"
# kinds that are not delivered on purpose
UNWANTED = ("bye", "robots", "nored", "kuinashi", "three", "norounds")
# damage
DAMAGE = ("truncated", "garbage", "empty", "dir", "redraw", "nodiscard", "blocks", "zeros", "nul", "text",
          "foreign", "foreign", "spliced", "packed", "huge", "deep", "twice", "attribute")


def reset_go(data, f):
    return re.sub(rb'<GO type="(\d+)"', lambda m: b'<GO type="%d"' % f(int(m.group(1))), data)


def content(kind, k, x):
    """Bytes of a file (None: it is a directory)."""
    data = text(k)
    n = len(data)
    i = min(n - 1, max(1, int(x * n)))
    if kind == "good":
        return data
    if kind == "bye":
        j = data.index(b"/>", data.index(b"<TAIKYOKU"))
        e = data.find(b"/>", int(j + x * (n - j)))
        e = (e if e > 0 else j) + 2
        return data[:e] + b'<BYE who="%d"/>' % (k % 4) + data[e:]
    if kind == "robots":
        return reset_go(data, lambda t: t & ~1)
    if kind == "nored":
        return reset_go(data, lambda t: t | 2)
    if kind == "kuinashi":
        return reset_go(data, lambda t: t | (4 if x < 0.6 else 6))
    if kind == "three":
        return reset_go(data, lambda t: t | 16)
    if kind == "norounds":
        return data[:data.index(b"<INIT")] + b"</mjloggm>"
    if kind == "truncated":
        if x > 0.9:
            i = n - 1 - int((x - 0.9) * 300)
        return data[:i]
    if kind == "garbage":
        return data[:i] + b"\x00<&>" + data[i + 7:]
    if kind == "empty":
        return b""
    if kind == "dir":
        return None
    if kind in ("redraw", "nodiscard"):
        # a player draws a tile that is already in the hand / discards a tile another player holds
        tags = b"TUVW" if kind == "redraw" else b"DEFG"
        m = list(re.finditer(rb"<([%s])(\d+)/>" % tags, data))
        for j in range(int(x * len(m)), -1, -1):
            p = tags.index(m[j].group(1))
            q = p if kind == "redraw" else (p + 1) % 4
            tile = held(data[data.rindex(b"<INIT", 0, m[j].start()):m[j].start()], q)
            if tile is not None:
                return data[:m[j].start(2)] + tile + data[m[j].end(2):]
        raise ValueError("no place for " + kind)
    if kind == "blocks":        # a block was lost
        return data[:i] + data[i + 64:]
    if kind == "zeros":         # a block reads as zeros
        return data[:i] + bytes(min(64, n - i)) + data[i + 64:]
    if kind == "nul":
        return bytes(n)
    if kind == "text":          # one digit overwritten
        m = list(re.finditer(rb"\d", data))
        p = m[int(x * len(m))].start()
        return data[:p] + b"%d" % ((data[p] - 48 + 1 + k) % 10) + data[p + 1:]
    if kind == "foreign":       # a digit became a character of another script
        m = list(re.finditer(rb"\d", data))
        p = m[int(x * len(m))].start()
        c = ("\u5929", "\u0663", "\uff17", "\u00b2", "\u2163", "\U0001f004")[k % 6]
        return data[:p] + c.encode() + data[p + 1:]
    if kind == "spliced":       # the blocks of another log follow
        i = max(i, data.index(b"<INIT") + 250)
        return data[:i] + text((k + 7) % POOL)[i:]
    if kind == "twice":         # written again behind itself
        return data + data
    if kind == "packed":        # still compressed
        return zlib.compress(data)
    if kind == "huge":          # a number of many digits
        m = list(re.finditer(rb"\d+", data))
        p = m[int(x * len(m))]
        return data[:p.end()] + b"9" * (30 if k % 2 else 5000) + data[p.end():]
    if kind == "deep":          # endless nesting
        return data[:data.index(b"<INIT")] + b"<a>" * 3000 + b"</a>" * 3000 + data[data.index(b"<INIT"):]
    if kind == "attribute":     # an attribute is gone
        m = list(re.finditer(rb' \w+="[^"]*"', data))
        p = m[int(x * len(m))]
        return data[:p.start()] + data[p.end():]
    raise ValueError(kind)


def held(part, player):
    """A tile of the starting hand the player still holds concealed at the end of this part."""
    hai = re.search(rb'hai%d="([\d,]+)"' % player, part).group(1).split(b",")
    gone = set(re.findall(rb"<%c(\d+)/>" % b"DEFG"[player], part))
    for c in re.findall(rb'<N who="%d" m="(\d+)"' % player, part):
        gone |= {b"%d" % t for t in truth.decode(int(c))["ids"]}
    return next((h for h in hai if h not in gone), None)


STRICT_BAD = ("truncated", "empty", "dir", "redraw", "nodiscard", "nul", "twice", "packed")  # must not be delivered
LOOSE_BAD = ("garbage", "blocks", "zeros", "text", "foreign", "spliced", "huge", "deep", "attribute")   # as processing alone says, or not at all


def whole(kind, data):
    """A cut that only lost trailing blanks is still the whole log."""
    if kind != "truncated" or not data:
        return False
    try:
        ET.fromstring(data)
        return True
    except ET.ParseError:
        return False


class Files:
    """The planned files of one directory: [[name, kind, pool number, x], ...]"""

    def __init__(self, plan):
        self.required = {}      # digest -> name: must be delivered
        self.allowed = {}       # digest -> name: may be delivered
        self.kind = {}
        self.data = {}
        self.shape = {}         # name -> discards per round and number of rounds of a good game
        for name, kind, k, x in plan:
            if kind == "stub":
                self.kind[name], self.data[name] = kind, b"%d" % k
                self.required[f"stub-{k}"] = self.allowed[f"stub-{k}"] = name
                continue
            data = content(kind, k, x)
            self.kind[name] = kind
            self.data[name] = data
            if data is None:
                continue
            if kind == GOOD:
                d = alone(data)
                self.required[d] = name
                self.allowed[d] = name
                rounds = data.split(b"<INIT")[1:]
                self.shape[name] = [[len(re.findall(rb"<[DEFG]\d+", r)) for r in rounds], len(rounds)]
            elif kind in LOOSE_BAD:
                d = alone(data)
                if d is not None:
                    self.allowed[d] = name
        self.by_name = {v: d for d, v in self.allowed.items()}

    def write(self, directory):
        os.makedirs(directory, exist_ok=True)
        for name, data in self.data.items():
            p = os.path.join(directory, name)
            if data is None:
                os.makedirs(p, exist_ok=True)
            else:
                with io.open(p, "wb") as f:
                    f.write(data)


def draw_files(rng, numbers, n, bad=0.3, kinds=UNWANTED + DAMAGE):
    """Plan n files with pool numbers taken from the iterator `numbers`."""
    out = []
    for i in range(n):
        kind = GOOD if rng.random() >= bad else rng.choice(kinds)
        k = next(numbers)
        name = f"{2012 + k % 9}{rng.randrange(1, 13):02}{rng.randrange(1, 29):02}gm-00a9-0000-{k:08x}&tw={k % 4}"
        name += rng.choice(["", ".log", ".log", ".xml"])
        if rng.random() < 0.05:
            name = rng.choice(["\u724c\u8b5c", "\udcff", "caf\u00e9 ", "-", "a\n"]) + name
        out.append([name, kind, k, round(rng.random(), 6)])
    return out


def pool_numbers(rng):
    order = list(range(POOL))
    rng.shuffle(order)
    return iter(order)


def fresh_import(name):
    """Import a module of the code under test as a new process would."""
    for n in [n for n in sys.modules if n == "MahjongAI" or n.startswith("MahjongAI.")]:
        del sys.modules[n]
    return importlib.import_module(name)


if __name__ == "__main__":
    with io.open(os.path.join(core.VERIF, "dst", "pool.txt"), "wb") as f:
        for k in range(POOL):
            f.write(truth.to_xml(*events_of(k)).encode() + b"\n")
