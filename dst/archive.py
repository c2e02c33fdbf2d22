"""The archive filter: the real bash script with every tool it starts behind a seam (C09).

The script runs as an unprivileged user in a scratch directory.  On its PATH, the tools are
replaced by one stand-in that counts the calls, records the targets, refuses everything outside
the scratch directory, and lets the plan decide what happens to call number n: carried out,
fails, dies in the middle, or the whole script is killed before, in the middle of, or after it.
"""
import gzip
import os
import random
import signal
import stat
import subprocess
import tempfile

from dst.core import REPO, Prop, Violation, require
from dst.simfs import rmtree

SCRIPT = os.path.join(REPO, "MahjongAI", "data", "filter_raw.sh")
TOOLS = ("rm", "gunzip", "gzip", "zcat", "mv", "cp", "unlink", "ln", "truncate", "shred", "rmdir", "touch", "install",
         "dd", "tee", "pigz", "unpigz", "zgrep", "sync")
DIR = "raw/2021"

SHIM = r'''#!/bin/sh
REALPATH=/usr/sbin:/usr/bin:/sbin:/bin
tool=${0##*/}
read n < "$DST/n"
echo $((n + 1)) > "$DST/n"
kind=run x=0
while read -r pn pk px; do
    if [ "$pn" = "$n" ]; then kind=$pk x=$px; fi
done < "$DST/plan"
{ printf '%s\0' "$tool" "$@"; printf '\001\0'; } >> "$DST/log"
last=
for a in "$@"; do
    case $a in
        -*) ;;
        *..*) echo escape >> "$DST/escape"; exit 1 ;;
        /dev/*) ;;
        /*) case $a in "$ROOT"/*) ;; *) echo escape >> "$DST/escape"; exit 1 ;; esac ;;
    esac
    last=$a
done
die() { echo "$kind" >> "$DST/fired"; kill -9 "-$(cat "$DST/pid")"; sleep 5; }
real() { PATH=$REALPATH "$tool" "$@"; }
partial() {     # what the tool leaves behind when it dies in the middle
    case $tool in
        gunzip|gzip)
            case " $* " in
                *" -c"*|*" -dc"*|*" --stdout"*) real "$@" 2>/dev/null | PATH=$REALPATH head -c "$x" ;;
                *) out=${last%.gz}
                   if [ "$out" != "$last" ] && [ -f "$last" ]; then
                       PATH=$REALPATH gzip -dc < "$last" 2>/dev/null | PATH=$REALPATH head -c "$x" > "$out"
                   fi ;;
            esac ;;
        zcat) real "$@" 2>/dev/null | PATH=$REALPATH head -c "$x" ;;
    esac
}
case $kind in
    run) real "$@" ;;
    fail) echo fail >> "$DST/fired"; echo "$tool: Input/output error" >&2; exit 1 ;;
    before) die ;;
    after) real "$@"; die ;;
    middle) partial "$@"; die ;;
    tooldies) partial "$@"; echo tooldies >> "$DST/fired"; exit 137 ;;
    term) echo term >> "$DST/fired"; kill -15 "$(cat "$DST/pid")"; real "$@" ;;
esac
'''


def body(seed, n):
    r = random.Random(seed)
    return bytes(r.choice(b"abc <>/\n\xe7\x89\x8c") for _ in range(n))


class C09(Prop):
    id = "C09"
    level = "fault_enumeration"
    runs = {"quick": 1600, "thorough": 60000}
    rule = ("one case is one directory content with a sequence of interrupted runs of the script, an uninterrupted "
            "one and one more; counted per distinct (kinds of names, tool calls, faults that fired)")
    measure = "distinct (names by kind, number of tool calls, faults that fired) per history"
    components = {"real": ["filter_raw.sh under bash", "rm, gunzip, gzip"],
                  "stub": ["the moment each tool call is carried out, fails or dies: planned stand-ins on PATH"]}
    assumptions = ["a killed gunzip leaves the archive and a prefix of its contents (it unlinks the archive last)",
                   "hidden files and directories are not files the filter looks at"]
    required_probes = ("fail", "before", "after", "middle", "tooldies", "term", "corrupt-archive", "empty-directory",
                       "odd-name", "decoys", "rerun")

    def setup(self):
        """The script runs as a user that owns nothing but the scratch directory."""
        self.uid = 65534
        try:
            subprocess.run(["/bin/true"], user=self.uid, group=self.uid, extra_groups=[], check=True)
        except (PermissionError, subprocess.CalledProcessError):
            self.uid = os.getuid()      # cannot change user: the stand-ins still refuse targets outside

    def generate(self, rng, tier, index):
        files = {}
        stems = ["scc20210101", "scc2021010112", "scc", "scc ", "scc a b", "scc*", "scc[1]", "scc$x", "scc'q", "scc\"d",
                 "scc日本", "scc-", "scc;x", "scc\\b", "sccé", "scc&y"]
        unwanted = ["sca20210101.log.gz", "scb20210101.html.gz", "sc", "SCC1.gz", "xscc.gz", "a b.txt", "-rf", "-f.gz",
                    "*.gz", "s*", "readme", "日本.gz", "sccc"[:2] + "d.gz", "two\nlines", "$HOME", "~", "#x", "\\", "raw",
                    " scc.gz", "scd20210101.html", "--help", "scc"[::-1] + ".gz", "[s]cc.gz"]
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            stem = rng.choice(stems[:2] + stems if rng.random() < 0.5 else stems[:2]) + (
                f"{rng.randrange(100):02}" if rng.random() < 0.8 else "")
            ext = rng.choice([".html", ".html", ".log", ""])
            k = rng.random()
            size = rng.choice([0, 10, 500, 20000])
            kind = "gz" if k < 0.75 else "plain" if k < 0.87 else rng.choice(["cut", "junk"])
            name = stem + ext
            if name + ".gz" in files or name in files or name.endswith(".gz"):
                continue
            if kind == "plain":
                files[name] = ["plain", rng.getrandbits(30), size]
            else:
                files[name + ".gz"] = [kind, rng.getrandbits(30), size]
                if kind == "gz" and rng.random() < 0.12:
                    files[name] = ["leftover", 0, 0]    # of an extraction interrupted long ago
        for _ in range(rng.choice([0, 1, 2, 4])):
            files[rng.choice(unwanted)] = [rng.choice(["plain", "gz", "junk", "link"]), rng.getrandbits(30),
                                           rng.choice([0, 50])]
        if rng.random() < 0.1:
            files[rng.choice(["scc_dir", "dir", "dir.gz"])] = ["dir", 0, 0]
        if rng.random() < 0.1:
            files[rng.choice([".hidden", ".scc.gz"])] = ["plain", 1, 5]
        runs = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            f = []
            for _ in range(rng.choice([1, 1, 2])):
                f.append([rng.randrange(max(2, len(files) + 1)),
                          rng.choice(["fail", "before", "after", "middle", "middle", "tooldies", "term"]),
                          rng.choice([0, 1, rng.randrange(20000)])])
            runs.append(f)
        return {"files": files, "runs": runs, "locale": rng.choice(["C", "C.UTF-8"])}

    def run(self, plan, stats):
        root = tempfile.mkdtemp(prefix="dst-")
        try:
            os.chmod(root, 0o755)
            self.simulate(plan, stats, os.path.realpath(root))
        finally:
            for d, dirs, _ in os.walk(root):
                for x in dirs:
                    p = os.path.join(d, x)
                    if not os.path.islink(p):
                        os.chmod(p, 0o700)
            rmtree(root)

    def simulate(self, plan, stats, root):
        work, ctl, shims = (os.path.join(root, d) for d in ("w", "ctl", "shims"))
        for d in (work, ctl, shims):
            os.mkdir(d)
        target = os.path.join(work, DIR)
        os.makedirs(target)
        shim = os.path.join(shims, "rm")
        with open(shim, "w") as f:
            f.write(SHIM)
        os.chmod(shim, 0o755)
        for t in TOOLS[1:]:
            os.link(shim, os.path.join(shims, t))
        with open(SCRIPT, "rb") as f, open(os.path.join(ctl, "script.sh"), "wb") as o:
            o.write(f.read())
        # things around the directory that must stay as they are
        decoys = {"raw/2020/x.gz": b"1", "raw/2021x": b"2", "raw/x": b"3", "scc.gz": b"4", "a b.txt": b"5", "readme": b"6",
                  "raw/scc1.gz": gzip.compress(b"7"), "processed/2021/g.log": b"8", "2021/x": b"9", "b.txt": b"0"}
        for p, d in decoys.items():
            os.makedirs(os.path.dirname(os.path.join(work, p)), exist_ok=True)
            with open(os.path.join(work, p), "wb") as f:
                f.write(d)
        stats.probe("decoys", len(decoys))
        content, original = {}, {}
        for name, (kind, seed, size) in plan["files"].items():
            p = os.path.join(target, name)
            data = body(seed, size)
            if kind == "dir":
                os.mkdir(p)
                continue
            if kind == "link":
                os.symlink("../../readme", p)
                continue
            if kind in ("gz", "cut", "junk"):
                raw = gzip.compress(data, mtime=0)
                if kind == "cut":
                    raw = raw[:max(1, len(raw) - 1 - seed % len(raw))]
                if kind == "junk":
                    raw = b"no archive " + data
                if kind != "gz" and name.startswith("scc"):
                    stats.probe("corrupt-archive")
            elif kind == "leftover":
                k = plan["files"][name + ".gz"]
                raw = body(k[1], k[2])[:k[2] // 2]
            else:
                raw = data
            with open(p, "wb") as f:
                f.write(raw)
            original[name], content[name] = raw, data
            if not name.replace(".", "").isalnum():
                stats.probe("odd-name")
        if not plan["files"]:
            stats.probe("empty-directory")
        for d, dirs, fs in os.walk(root):
            os.chown(d, self.uid, self.uid)
            for x in fs:
                os.chown(os.path.join(d, x), self.uid, self.uid, follow_symlinks=False)
        outside = self.snapshot(work, outside=True)
        log = []
        for i, faults in enumerate(plan["runs"] + [[], []]):
            what = f"run {i} {faults}"
            before = self.snapshot(target)
            fired, calls, end = self.script(root, work, ctl, faults, plan["locale"], what, stats)
            log.append((end, calls, fired))
            require(not os.path.exists(os.path.join(ctl, "escape")), "touches-outside",
                    lambda: f"{what}: a tool was called on something outside the directory")
            now = self.snapshot(work, outside=True)
            require(now == outside, "touches-outside",
                    lambda: f"{what}: changed {sorted(k for k in set(now) | set(outside) if now.get(k) != outside.get(k))}")
            after = self.snapshot(target)
            self.judge(plan, original, content, before, after, fired, end, what,
                       clean=not faults, again=i == len(plan["runs"]) + 1)
        stats.probe("rerun", len(log) - 1)
        stats.events += sum(x[1] for x in log)
        stats.sig((sorted((n[:3] == "scc", n[-3:] == ".gz", k[0]) for n, k in plan["files"].items()), log))

    def judge(self, plan, original, content, before, after, fired, end, what, clean, again):
        for name, (kind, _, _) in plan["files"].items():
            if kind == "dir" or name.startswith("."):
                require(name in after, "deleted", lambda: f"{what}: {name!r} ({kind}) is gone")
                continue
            if not name.startswith("scc"):
                if clean:
                    require(name not in after, "not-deleted", lambda: f"{what}: {name!r} is still there")
                continue
            if kind == "leftover":
                continue
            if kind == "gz":
                out = name[:-3]
                have_gz = after.get(name) == original[name]
                have_out = after.get(out) == content[name]
                require(have_gz or have_out, "archive-lost",
                        lambda: f"{what}: {name!r} is neither whole (there: {name in after}) nor extracted "
                                f"({len(after.get(out) or b'')} of {len(content[name])} bytes)")
                if clean:
                    require(have_out, "not-extracted", lambda: f"{what}: {name!r}")
            else:
                require(after.get(name) == original[name], "file-changed",
                        lambda: f"{what}: {name!r} ({kind}) is {'changed' if name in after else 'gone'}")
        if clean:
            known = set(plan["files"]) | {n[:-3] for n in plan["files"] if n.endswith(".gz")}
            new = [n for n in after if n not in known]
            require(not new, "new-files", lambda: f"{what}: {new}")
        if again:
            require(before == after, "not-idempotent",
                    lambda: f"{what}: changed {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")

    @staticmethod
    def snapshot(top, outside=False):
        out = {}
        for d, dirs, fs in os.walk(top):
            if outside and os.path.relpath(d, top) == DIR:
                dirs[:] = []
                continue
            if not outside and d != top:
                out[os.path.relpath(d, top)] = None
            for x in fs:
                p = os.path.join(d, x)
                k = os.path.relpath(p, top)
                if os.path.islink(p):
                    out[k] = ("link", os.readlink(p))
                elif stat.S_ISREG(os.lstat(p).st_mode):
                    with open(p, "rb") as f:
                        out[k] = f.read()
        return out

    def script(self, root, work, ctl, faults, locale, what, stats):
        def put(name, text):
            p = os.path.join(ctl, name)
            with open(p, "w") as f:
                f.write(text)
            os.chown(p, self.uid, self.uid)
        put("n", "0\n")
        put("plan", "".join(f"{n} {k} {x}\n" for n, k, x in faults))
        put("fired", "")
        put("log", "")
        put("pid", "")
        env = {"PATH": os.path.join(root, "shims") + ":/usr/bin:/bin", "DST": ctl, "ROOT": work, "LC_ALL": locale,
               "HOME": work, "TMPDIR": ctl}
        cmd = ["/bin/sh", "-c", 'echo $$ > "$DST/pid"; exec /bin/bash "$DST/script.sh"']
        who = {} if self.uid == os.getuid() else {"user": self.uid, "group": self.uid, "extra_groups": []}
        p = subprocess.Popen(cmd, cwd=work, env=env, **who, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try:
            p.wait(timeout=60)
        except subprocess.TimeoutExpired:
            raise Violation("no-progress", f"{what}: the script does not end")
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        with open(os.path.join(ctl, "fired")) as f:
            fired = f.read().split()
        for k in fired:
            stats.fault(k)
        with open(os.path.join(ctl, "n")) as f:
            calls = int(f.read() or 0)
        return fired, calls, "killed" if p.returncode < 0 else "ended"

    def shrink(self, plan):
        for i in range(len(plan["runs"])):
            yield dict(plan, runs=plan["runs"][:i] + plan["runs"][i + 1:])
        for i, r in enumerate(plan["runs"]):
            for j in range(len(r)):
                if len(r) > 1:
                    yield dict(plan, runs=plan["runs"][:i] + [r[:j] + r[j + 1:]] + plan["runs"][i + 1:])
        for n in plan["files"]:
            files = {a: b for a, b in plan["files"].items() if a != n}
            if all(v[0] != "leftover" or k + ".gz" in files for k, v in files.items()):
                yield dict(plan, files=files)

    def describe(self, plan, stats):
        return f"files { {n: k[0] for n, k in plan['files'].items()} } faults {plan['runs']}"[:900]
