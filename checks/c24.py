"""C24: the reported version (spec/Version.tla)."""
import importlib.util
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from lib.common import REPO, cfg, guarded, MachineryError

INV = ["TypeOK", "ExactTag", "DirtyShows", "AtTag", "DistanceBound", "Emit"]
PROP = ["CommitGoesOn", "EditsKeepTag", "UntrackedIsClean"]
NAMES = ["0.4.1", "1.0rc1", "v2.0", "1.0+local", "rel-3-1", "0.2-5-gabcdef1", "1.1-dirty.2", "2-dirty"]
CLEARED = ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE", "GIT_OBJECT_DIRECTORY", "GIT_NAMESPACE")
ZONES = ["+0000", "+0130", "-0800"]


class Tree(object):
    """A working copy with the package's version module in a scratch directory."""

    def __init__(self, home, name, files=("_version.py",)):
        self.root = os.path.join(home, name)
        os.makedirs(os.path.join(self.root, "pyotf"))
        for f in files:
            shutil.copy(os.path.join(REPO, "pyotf", f), os.path.join(self.root, "pyotf", f))
        shutil.copy(os.path.join(REPO, ".gitattributes"), self.root)
        self.env = dict(os.environ)
        self.clock = 1500000000
        self.shas, self.dates = [], []
        self.n = 0

    def git(self, *args, check=True):
        p = subprocess.run(["git"] + list(args), cwd=self.root, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if check and p.returncode:
            raise MachineryError("git %s: %s" % (args, p.stdout.decode()))
        return p.stdout.decode().strip()

    def init(self):
        self.git("init", "-q", "-b", "main")

    def write(self, name):
        self.n += 1
        with open(os.path.join(self.root, name), "w") as f:
            f.write("%d\n" % self.n)

    def made(self):
        self.shas.append(self.git("rev-parse", "HEAD"))

    def stamp(self):
        self.clock += 3600
        zone = ZONES[len(self.shas) % 3]
        self.env["GIT_COMMITTER_DATE"] = "%d %s" % (self.clock, zone)
        # (written earlier, and elsewhere)
        self.env["GIT_AUTHOR_DATE"] = "%d %s" % (self.clock - 90000 * (1 + len(self.shas) % 2), ZONES[(len(self.shas) + 1) % 3])
        sign = -1 if zone[0] == "-" else 1
        local = self.clock + sign * (int(zone[1:3]) * 3600 + int(zone[3:]) * 60)
        import time
        self.dates.append(time.strftime("%Y-%m-%dT%H:%M:%S", time.gmtime(local)) + zone)

    def step(self, op, arg):
        if op == "commit":
            self.stamp()
            if not os.path.exists(os.path.join(self.root, "log")):
                self.write("log")
                self.write("other")
                self.git("add", "pyotf", ".gitattributes", "log", "other")
            else:
                self.write("log")
            self.git("commit", "-q", "-a", "-m", "c%d" % self.n)
            self.made()
        elif op == "merge":
            self.stamp()
            self.git("merge", "-q", "--no-ff", "-s", "ours", "-m", "m", self.shas[arg - 1])
            self.made()
        elif op == "tag":
            self.git("tag", arg)
        elif op == "annotate":
            self.git("tag", "-a", "-m", "release", arg)
        elif op == "untag":
            self.git("tag", "-d", arg)
        elif op == "touch":
            if arg == "new":
                self.write("untracked")
            else:
                self.write("log" if arg == "edited" else "other")
                if arg == "staged":
                    self.git("add", "other")
        elif op == "restore":
            self.git("reset", "-q", "--hard")
        elif op == "checkout":
            self.git("checkout", "-q", self.shas[arg - 1])
        else:
            raise MachineryError("unknown step %s" % op)

    def module(self, where=None):
        spec = importlib.util.spec_from_file_location("_version_under_test", os.path.join(where or self.root, "pyotf", "_version.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m


def written(parts, tag, dist, sha):
    """Does `got` read like the parts of the specification?  A regular expression for it."""
    hexes = "(?P<hex>[0-9a-f]{7,40})"
    return "".join(re.escape(tag) if p == "<tag>" else str(dist) if p == "<dist>" else hexes if p == "<hex>" else re.escape(p) for p in parts)


def matches(version, state, sha):
    for tag in (state["near"] or [None]):
        parts = list(state["version"])
        if tag and "+" in tag:
            parts = ["." if p == "+" else p for p in parts]
        m = re.fullmatch(written(parts, tag or "", state["dist"], sha), version)
        if m and ("hex" not in m.groupdict() or sha.startswith(m.group("hex"))):
            return True
    return False


WELL = re.compile(r"[A-Za-z0-9.+-]+(\.[0-9]+\.g[0-9a-f]+)?(\.dirty)?")


def replay(ck, home, k, hist, states):
    out = []
    t = Tree(home, "h%d" % k)
    t.init()
    link = os.path.join(home, "link%d" % k)
    os.symlink(t.root, link)
    for n in range(len(hist) + 1):
        if n:
            t.step(hist[n - 1]["op"], hist[n - 1]["arg"])
        state = states[json.dumps(hist[:n])]
        if state["head"] == 0 and k % 20:
            continue
        got = guarded(t.module(link if (k + n) % 3 == 0 else None).get_versions)
        case = dict(history=["%(op)s %(arg)s" % h for h in hist[:n]], expected=state, got=str(got))
        if state["head"] == 0:
            if got[0] != "ok" or got[1].get("version") != "0+unknown":
                out.append(("a tree without a commit has no version", case))
            continue
        sha = t.shas[state["head"] - 1]
        if got[0] != "ok" or not matches(got[1]["version"], state, sha):
            out.append(("the version does not describe the state of the tree", case))
            continue
        v = got[1]
        if v["full-revisionid"] != sha or bool(v["dirty"]) != state["dirty"] or v["error"] or v["date"] != t.dates[state["head"] - 1]:
            out.append(("commit, date or modifications are wrong", dict(case, sha=sha, date=t.dates[state["head"] - 1])))
    # what git archive makes of the last commit: its tag, without git
    names = t.git("tag", "--points-at", "HEAD").split() if t.shas else []
    if names:
        dest = os.path.join(home, "a%d" % k)
        os.makedirs(dest)
        p = subprocess.run("git archive HEAD | tar -x -C '%s'" % dest, shell=True, cwd=t.root, env=t.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise MachineryError(p.stdout.decode())
        head = t.git("rev-parse", "HEAD")
        got = guarded(t.module(dest).get_versions)
        if got[0] != "ok" or got[1]["version"] != names[0] or got[1]["full-revisionid"] != head or got[1]["dirty"] or got[1]["date"] != t.dates[t.shas.index(head)]:
            out.append(("an archive of a tagged commit does not report its tag", dict(tags=names, got=str(got))))
    shutil.rmtree(t.root)
    return out


def exact(ck):
    """The functions on the strings themselves."""
    m = Tree.module(None, REPO)
    r = ck.tlc("Version", cfg(init="SInit", next_="SNext", invariants=["SMarks", "SEmit"],
                              constants={"Names": "{}", "MaxLen": 0, "MaxCommits": 0, "Emitting": "TRUE"}))
    for e in r.emitted:
        c = e["c"]
        for tag, short in (("1.0", "abcdef0"), ("v0.3-1", "1234567890")):
            if c["plus"]:
                tag += "+x"
            pieces = {"closest-tag": tag if c["tagged"] else None, "distance": c["dist"], "dirty": c["dirty"], "short": short,
                      "long": short + "0" * (40 - len(short)), "error": None, "date": "2020-01-01T00:00:00+0000"}
            keep = dict(pieces)
            want = "".join(tag if p == "<tag>" else str(c["dist"]) if p == "<dist>" else short if p == "<hex>" else p for p in e["out"])
            got = guarded(m.render, pieces, c["style"] or None)
            ok = got[0] == "ok" and got[1] == {"version": want, "full-revisionid": keep["long"], "dirty": c["dirty"], "error": None, "date": keep["date"]}
            ck.expect(ok and pieces == keep, "the pieces are rendered wrongly", dict(case=c, got=str(got), want=want))
            ck.validated()
    got = guarded(m.render, {"error": "no", "long": "f" * 40}, "pep440")
    ck.expect(got[0] == "ok" and got[1]["version"] == "unknown" and got[1]["error"] == "no" and got[1]["full-revisionid"] == "f" * 40, "an error is lost", str(got))
    ck.expect(guarded(m.render, {"error": None, "long": "f", "closest-tag": "1", "distance": 0, "dirty": False, "short": "f"}, "no")[:2] == ("raise", "ValueError"),
              "an unknown style is accepted")
    # archives: every combination of references
    tags = ["1.0", "1.0rc1", "0.9", "rel", "v3"]
    heads = ["HEAD -> main", "main", "HEAD", "topic", "origin/main"]
    for n in range(0, 4):
        for tg in itertools.combinations(tags, n):
            for h in range(0, 3):
                for prefix in ("", "v"):
                    for old in (False, True):
                        refs = heads[:h] + ["%s%s" % ("" if old else "tag: ", t) for t in tg[::-1]]
                        kw = {"refnames": " (%s)" % ", ".join(refs), "full": "a" * 40, "date": "2019-02-03 04:05:06 -0700"}
                        got = guarded(m.git_versions_from_keywords, dict(kw), prefix, False)
                        cand = sorted(t[len(prefix):] for t in tg if t.startswith(prefix) and (not old or any(c.isdigit() for c in t)))
                        want = cand[0] if cand else "0+unknown"
                        ck.expect(got[0] == "ok" and got[1]["version"] == want and got[1]["full-revisionid"] == "a" * 40 and not got[1]["dirty"] and
                                  got[1]["date"] == ("2019-02-03T04:05:06-0700" if cand else None) and bool(got[1]["error"]) == (not cand),
                                  "the archive's references give the wrong version", dict(refs=refs, prefix=prefix, got=str(got), want=want))
                        ck.validated()
    for kw in ({}, {"refnames": "$Format:%d$", "full": "$Format:%H$", "date": "$Format:%ci$"}):
        got = guarded(m.git_versions_from_keywords, kw, "", False)
        ck.expect(got[:2] == ("raise", "NotThisMethod"), "keywords that were not filled in are used", str(got))
    # directories
    for root, prefix, want in (("/x/pyotf-1.2", "pyotf-", "1.2"), ("/x/pyotf-1.2/src", "pyotf-", "1.2"), ("/x/pyotf-1.2/a/b", "pyotf-", "1.2"),
                               ("/x/pyotf-1.2/a/b/c", "pyotf-", None), ("/x/other", "pyotf-", None), ("/pyotf-3/pyotf-1.2", "pyotf-", "1.2"),
                               ("/x/ypyotf-1", "pyotf-", None), ("/pyotf-", "pyotf-", "")):
        got = guarded(m.versions_from_parentdir, prefix, root, False)
        ok = got[:2] == ("raise", "NotThisMethod") if want is None else got[0] == "ok" and got[1]["version"] == want and not got[1]["dirty"] and not got[1]["error"]
        ck.expect(ok, "the directory's name gives the wrong version", dict(root=root, got=str(got), want=want))
        ck.validated()


def run(ck):
    home = tempfile.mkdtemp(prefix="version-")
    saved = dict(os.environ)
    try:
        for v in CLEARED:
            os.environ.pop(v, None)
        os.environ.update(HOME=home, GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES=home, GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a",
                          GIT_COMMITTER_EMAIL="a@b", XDG_CONFIG_HOME=home)
        inside(ck, home)
    finally:
        os.environ.clear()
        os.environ.update(saved)
        shutil.rmtree(home, ignore_errors=True)


def inside(ck, home):
    names = "{%s}" % ", ".join('"%s"' % n for n in NAMES)
    # the machine itself, exhaustively within small bounds
    ck.tlc("Version", cfg(constants={"Names": '{"a", "b"}', "MaxLen": 6 if ck.thorough else 5, "MaxCommits": 4, "Emitting": "FALSE"}, invariants=INV, properties=PROP))
    short = 3
    runs = [ck.tlc("Version", cfg(constants={"Names": '{"1.0"}', "MaxLen": short, "MaxCommits": 3, "Emitting": "TRUE"}, invariants=INV), workers=1),
            ck.tlc("Version", cfg(constants={"Names": names, "MaxLen": 11, "MaxCommits": 7, "Emitting": "TRUE"}, invariants=INV), simulate=400 if ck.thorough else 60,
                   depth=12, workers=1)]
    # histories with branches: every one with a merge, up to a length; a part of them in the quick tier
    n = 7 if ck.thorough else 6
    b = ck.tlc("Version", cfg(init="Init", next_="NextBranch", constants={"Names": '{"1.0"}', "MaxLen": n, "MaxCommits": 5, "Emitting": "TRUE"}, invariants=INV), workers=1)
    states = {json.dumps(e["hist"]): e["state"] for e in b.emitted}
    merged = [e["hist"] for e in b.emitted if len(e["hist"]) == n and any(h["op"] == "merge" for h in e["hist"])]
    rng = np.random.default_rng(ck.seed)
    rng.shuffle(merged)
    # (where the tag is not on the first line of the history first)
    far = [h for h in merged if h[-1]["op"] == "merge" and states[json.dumps(h)]["near"]]
    merged = far[:20] + [h for h in merged if h not in far[:20]]
    ck.count("histories_with_merges", len(merged))
    jobs = [(h, states) for h in merged[: 700 if ck.thorough else 50]]
    for r, full in zip(runs, (short, 11)):
        states = {json.dumps(e["hist"]): e["state"] for e in r.emitted}
        seen = set()
        ends = [e["hist"] for e in r.emitted if len(e["hist"]) == full]
        ends = ends if full == short else [h for i, h in enumerate(ends) if json.dumps(h[:-1]) not in seen and not seen.add(json.dumps(h[:-1]))]
        jobs += [(h, states) for h in ends]
    with ThreadPoolExecutor(8) as pool:
        for hist, out in zip((j[0] for j in jobs), pool.map(lambda a: replay(ck, home, a[0], *a[1]), enumerate(jobs))):
            for what, case in out:
                ck.violation(what, case)
            ck.validated(len(hist) + 1)
    ck.count("histories", len(jobs))
    ck.sample(jobs[-1][0])
    exact(ck)
    # no git at all: nothing under version control, no executable
    t = Tree(home, "plain", files=sorted(f for f in os.listdir(os.path.join(REPO, "pyotf")) if f.endswith(".py")))
    for path in (os.environ["PATH"], home):
        old, os.environ["PATH"] = os.environ["PATH"], path
        got = guarded(t.module().get_versions)
        os.environ["PATH"] = old
        ck.expect(got[0] == "ok" and got[1]["version"] == "0+unknown" and not got[1]["dirty"] and got[1]["error"] and got[1]["full-revisionid"] is None,
                  "a tree without git information", dict(got=str(got)))
        ck.validated()
    # the package says the same
    t.init()
    for op, arg in (("commit", 0), ("tag", "1.2.3"), ("commit", 0), ("touch", "edited")):
        t.step(op, arg)
    want = t.module().get_versions()["version"]
    p = subprocess.run([sys.executable, "-c", "import pyotf; print(pyotf.__version__)"], cwd=t.root, env=dict(t.env, PYTHONPATH=t.root, PYTHONDONTWRITEBYTECODE="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ck.expect(p.stdout.decode().strip() == want and want.startswith("1.2.3+1.g") and want.endswith(".dirty"), "the package reports another version",
              dict(out=p.stdout.decode(), err=p.stderr.decode()[-500:], want=want))
    ck.validated()
