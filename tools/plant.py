"""Make the planted bugs of a list and try them out in scratch copies (never in /repo).

usage: plant.py LIST.py [id ...]        LIST.py defines SEEDS = [dict(id, prop, file, edits=[(old, new)], needs, breaks, demo)]

For each: the patch applies, the package still builds and passes its tests, the demonstration passes
without and fails with it; then the property's check is run against the patched copy.  Those for
which all but the last hold are written to /verif/seeded/<id>/.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORK = "/tmp/plant"
DEMO = '''#!/bin/bash
# exit 0 where the behaviour is right, 1 where it is not; run in the repository's root
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=900, **env):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **env), shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode("utf-8", "replace")


def try_seed(s):
    d = os.path.join(WORK, s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo, ver, seed = (os.path.join(d, n) for n in ("repo", "verif", "seed"))
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        edits = s["edits"] if isinstance(s["edits"][0], (tuple, list)) else [s["edits"]]
        for e in edits:
            path, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
            path = os.path.join(repo, path)
            text = open(path).read()
            if text.count(old) != 1:
                return s["id"], "the text occurs %d times: %r" % (text.count(old), old[:60])
            open(path, "w").write(text.replace(old, new))
        rc, diff = sh(["git", "diff"], repo)
        os.makedirs(seed)
        open(os.path.join(seed, "patch.diff"), "w").write(diff)
        open(os.path.join(seed, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(seed, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(seed, "demo.sh"), 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(seed, "meta.json"), "w"), indent=1)
        env = dict(PYTHONPATH=repo, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        rc, out = sh([os.path.join(seed, "demo.sh")], "/repo")
        if rc:
            return s["id"], "the demonstration fails on the unchanged tree:\n" + out[-800:]
        rc, out = sh([os.path.join(seed, "demo.sh")], repo)
        if not rc:
            return s["id"], "the demonstration passes with the change"
        shown = out[-200:]
        rc, out = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "pyotf/", "tests/"], repo, **env)
        if rc:
            return s["id"], "the tests notice it:\n" + out[-400:]
        dest = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(seed, dest)
        os.makedirs(ver)
        for n in ("checks", "lib", "spec", "tools"):
            shutil.copytree(os.path.join(VERIF, n), os.path.join(ver, n))
        shutil.copy(os.path.join(VERIF, "check.py"), ver)
        com = os.path.join(ver, "lib", "common.py")
        t = open(com).read()
        assert 'REPO = "/repo"' in t
        open(com, "w").write(t.replace('REPO = "/repo"', "REPO = %r" % repo))
        res = []
        for prop in [s["prop"]] + s.get("also", []):
            rc, out = sh([PY, "check.py", prop, os.environ.get("TIER", "quick")], ver, VERIF_SEED="1")
            res.append("%s: %s" % (prop, "caught" if rc == 1 and "VIOLATION property=%s" % prop in out else "MISSED (exit %d) %s" % (rc, out[-300:] if rc != 0 else "")))
            if rc == 1:
                res.append(out.strip().splitlines()[0][:150])
        return s["id"], "   ".join(res)
    except subprocess.TimeoutExpired:
        return s["id"], "timed out"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [s for s in m.SEEDS if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as pool:
        for ident, what in pool.map(try_seed, todo):
            print("%-28s %s" % (ident, what), flush=True)


main()
