"""Shared machinery: running TLC, recording violations, writing evidence."""

import faulthandler
import json
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"


class MachineryError(Exception):
    """The check itself failed (not the code under test)."""


def setup_repo_import():
    """Import pyotf from /repo's working tree, and from nowhere else."""
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy as np

    np.seterr(all="ignore")
    import pyotf

    where = os.path.dirname(os.path.realpath(pyotf.__file__))
    if where != os.path.join(REPO, "pyotf"):
        raise MachineryError("pyotf was imported from %s" % where)


class TLCResult(object):
    """What a TLC run reported."""

    def __init__(self):
        self.ok = False
        self.states = 0
        self.distinct = 0
        self.lines = []
        self.emitted = []
        self.wall = 0.0
        self.coverage = {}

    @property
    def tail(self):
        return "\n".join(self.lines[-40:])


def cfg(spec=None, init="Init", next_="Next", constants=None, invariants=(), properties=(),
        constraints=(), action_constraints=(), postcondition=None, view=None, symmetry=None):
    """Text of a TLC configuration file."""
    out = []
    if spec:
        out.append("SPECIFICATION %s" % spec)
    else:
        out += ["INIT %s" % init, "NEXT %s" % next_]
    if constants:
        out.append("CONSTANTS")
        for k, v in constants.items():
            out.append("  %s <- MC_%s" % (k, k))
            out.insert(0, "\\* MC_%s == %s" % (k, v))
    for i in invariants:
        out.append("INVARIANT %s" % i)
    for p in properties:
        out.append("PROPERTY %s" % p)
    for c in constraints:
        out.append("CONSTRAINT %s" % c)
    for c in action_constraints:
        out.append("ACTION_CONSTRAINT %s" % c)
    if postcondition:
        out.append("POSTCONDITION %s" % postcondition)
    if view:
        out.append("VIEW %s" % view)
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


def run_tlc(module, cfg_text, env=None, workers=8, simulate=None, depth=None, seed=1,
            timeout=600, coverage=False, expect_violation=False):
    """Run TLC on spec/<module>.tla; lines printed as "@@<json>" are decoded into .emitted."""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        # the constants are arbitrary TLA+ expressions: they go into a wrapper module
        defs = [ln[3:] for ln in cfg_text.splitlines() if ln.startswith("\\* MC_")]
        with open(os.path.join(tmp, "MC.tla"), "w") as f:
            f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n====\n" % (module, "\n".join(defs)))
        cfg_path = os.path.join(tmp, "MC.cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Djava.io.tmpdir=" + tmp, "-DTLA-Library=" + SPEC,
               "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", tmp,
               "-workers", str(workers), "-seed", str(seed), "-fp", "7"]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate]
        if depth is not None:
            cmd += ["-depth", str(depth)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd += ["-config", cfg_path, "MC.tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e.pop("JAVA_TOOL_OPTIONS", None)
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s" % module)
        r = TLCResult()
        r.wall = time.time() - t0
        for line in p.stdout.decode("utf-8", "replace").splitlines():
            if line.startswith('"@@'):
                r.emitted.append(json.loads(json.loads(line)[2:]))
            else:
                r.lines.append(line)
                m = re.search(r"(\d+) states generated(?:, (\d+) distinct)?", line)
                if m:
                    r.states = int(m.group(1))
                    if m.group(2):
                        r.distinct = int(m.group(2))
                m = re.search(r"The number of states generated: (\d+)", line)
                if m:
                    r.states = int(m.group(1))
                m = re.match(r"<(\w+) line .*>: (\d+):(\d+)", line)
                if m:
                    a = r.coverage.setdefault(m.group(1), [0, 0])
                    a[0] += int(m.group(2))
                    a[1] += int(m.group(3))
        r.ok = p.returncode == 0
        if not r.ok and not expect_violation:
            raise MachineryError("TLC failed on %s (exit %d):\n%s" % (module, p.returncode, r.tail))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_ndjson(path, records):
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")


def guarded(f, *a, **k):
    """Call the code under test: ("ok", value) or ("raise", exception class name, message)."""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:  # noqa: B902
        return ("raise", type(e).__name__, str(e))


class Check(object):
    """One run of one property's check."""

    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.tlc_runs = []
        self.replays = os.path.join(VERIF, "replays")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tlc(self, module, cfg_text, **kw):
        """Run TLC and add what it explored to the evidence."""
        kw.setdefault("seed", self.seed)
        r = run_tlc(module, cfg_text, **kw)
        if not kw.get("expect_violation"):
            self.states += r.distinct or r.states
            self.transitions += r.states
        self.tlc_runs.append(dict(
            module=module, states_generated=r.states, distinct=r.distinct, emitted=len(r.emitted),
            mode="simulate" if kw.get("simulate") else "exhaustive", wall_s=round(r.wall, 2)))
        # how often each operation occurs in the histories: what was exercised at all
        ops = {}
        for e in r.emitted:
            for h in (e.get("hist") or ()) if isinstance(e, dict) else ():
                if isinstance(h, dict) and "op" in h:
                    ops[str(h["op"])] = ops.get(str(h["op"]), 0) + 1
        if ops:
            self.tlc_runs[-1]["operations"] = ops
        return r

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def validated(self, n=1):
        self.traces += n

    def violation(self, what, case=None):
        """Record that the property does not hold on `case`."""
        if len(self.violations) < 20:
            self.violations.append(dict(what=what, case=case))
        else:
            self.count("further_violations")

    def expect(self, cond, what, case=None):
        if not cond:
            self.violation(what, case)
        return bool(cond)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   tlc_runs=self.tlc_runs, counts=self.counts)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            os.makedirs(self.replays, exist_ok=True)
            path = os.path.join(self.replays, "%s-%s-seed%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1, default=str)
            for v in self.violations[:5]:
                print("  %s: %s" % (self.prop, v["what"]))
                if v["case"] is not None:
                    print("     case: %s" % (json.dumps(v["case"], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held on everything explored (%d TLC states, %d behaviours checked against the "
              "code, %.1f s)" % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


PATIENCE = 240  # seconds for one call into the library (they take a few at most)


def watch(alive):
    """Note the time as long as no call into the library lasts too long (a thread of the check)."""
    inside = os.path.join(REPO, "pyotf") + os.sep
    since = {}
    while True:
        calls = {}
        for thread, frame in sys._current_frames().items():
            outer = None
            while frame is not None:
                if frame.f_code.co_filename.startswith(inside):
                    outer = frame
                frame = frame.f_back
            if outer is not None:
                calls[thread] = outer
        now = time.monotonic()
        since = {t: (f, since[t][1] if t in since and since[t][0] is f else now) for t, f in calls.items()}
        if all(now - s < PATIENCE for f, s in since.values()):
            alive[:8] = struct.pack("d", now)
        calls = outer = frame = None
        time.sleep(2)


def main(argv):
    """Run the check in a process of its own, so that calls that never come to an end are noticed."""
    if len(argv) < 2:
        print("usage: check.py CNN [quick|thorough]")
        return 2
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    alive = mmap.mmap(-1, 8)
    alive[:8] = struct.pack("d", time.monotonic())
    dump = tempfile.TemporaryFile()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 2
        try:
            faulthandler.register(signal.SIGUSR1, file=dump, all_threads=True)
            threading.Thread(target=watch, args=(alive,), daemon=True).start()
            code = work(prop, tier, seed)
        except BaseException:  # noqa: B902
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    try:
        while True:
            time.sleep(.1)
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                return os.waitstatus_to_exitcode(status) if os.WIFEXITED(status) else 2
            if time.monotonic() - struct.unpack("d", alive[:8])[0] > PATIENCE + 10:
                os.kill(pid, signal.SIGUSR1)
                time.sleep(2)
                dump.seek(0)
                stack = dump.read().decode("utf-8", "replace")
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                if os.path.join(REPO, "pyotf") + os.sep not in stack:
                    print("ERROR of the check: it does not come to an end\n" + stack)
                    return 2
                ck = Check(prop, tier, seed)
                ck.violation("a call into the library does not come to an end", stack)
                return ck.finish()
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        raise


def work(prop, tier, seed):
    import importlib

    ck = Check(prop, tier, seed)
    try:
        setup_repo_import()
        mod = importlib.import_module("checks." + prop.lower())
    except MachineryError as e:
        print("ERROR of the check: %s" % e)
        return 2
    try:
        mod.run(ck)
    except (MachineryError, MemoryError, OSError) as e:
        if not isinstance(e, MachineryError):
            traceback.print_exc()
        print("ERROR of the check: %s" % e)
        if not ck.violations:
            return 2
        # (what it could not do follows from what was seen before)
    except Exception as e:  # noqa: B902
        # the comparison itself blew up on what the code returned: on the unchanged tree no
        # comparison raises, so this is the code's behaviour, and it is reported with its origin
        tb = traceback.format_exc()
        print(tb)
        ck.violation("the code (or what it returned) raised %s: %s" % (type(e).__name__, e), tb[-2000:])
        ck.validated()
    if ck.traces == 0 and not ck.violations:
        print("ERROR of the check: nothing was checked against the implementation")
        return 2
    return ck.finish()


def close(a, b, tol=1e-9, floor=1e-300):
    """Same shape and equal to within tol of the largest magnitude (NaNs in the same places)."""
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    if na.all():
        return True
    scale = max(np.abs(b[~nb]).max(), floor)
    return bool(np.abs(a[~na] - b[~nb]).max() <= tol * scale)


def judge(ck, module, observations, constants=None, init="JInit", next_="JNext", emit="JEmit"):
    """Have TLC judge observations made on the code (code -> spec); returns the rejected ones."""
    fd, path = tempfile.mkstemp(prefix="obs-", suffix=".ndjson")
    os.close(fd)
    try:
        write_ndjson(path, observations)
        r = ck.tlc(module, cfg(init=init, next_=next_, constants=constants, invariants=[emit]),
                   env={"OBS": path})
        if r.distinct != 2 * len(observations):
            raise MachineryError("%s judged %d of %d observations" % (module, r.distinct // 2, len(observations)))
    finally:
        os.unlink(path)
    ck.count("observations_judged_by_TLC", len(observations))
    ck.validated(len(observations))
    for e in r.emitted:
        ck.violation("the specification rejects an observation of the code: %s" % e["verdict"], e)
    return r.emitted
