"""Mechanical mutants of the package, tried out in scratch copies (never in /repo).

usage: mutate.py OUT.jsonl [file.py ...]      JOBS workers, at most MAX of each file; those the checks of the file do not notice go through the tests
"""
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORK = "/tmp/mut"
CHECKS = {
    "otf.py": "C04 C05 C06 C01 C02 C03 C07 C25 C22",
    "utils.py": "C08 C10 C12 C13 C09 C11 C27 C02 C20",
    "zernike.py": "C14 C15 C07 C18",
    "phaseretrieval.py": "C16 C17 C18 C26",
    "microscope.py": "C19 C20 C21 C25 C22 C02",
    "display.py": "C22 C27 C26",
    "labview.py": "C23",
    "_version.py": "C24",
}
# the check to begin with, by the function that is changed
FIRST = {
    "_calc_crop": "C09", "_calc_pad": "C09", "_padding_slices": "C09", "fft_pad": "C09", "slice_maker": "C10", "easy_fft": "C08", "easy_ifft": "C08", "cart2pol": "C27",
    "NumericProperty": "C02", "center_data": "C11", "remove_bg": "C11", "psqrt": "C27", "prep_data_for_PR": "C11", "bin_ndarray": "C12", "radial_profile": "C13",
    "noll2degrees": "C14", "degrees2noll": "C14", "zernike": "C15", "_radial_zernike": "C15", "_zernike": "C15", "retrieve_phase": "C16 C17", "PhaseRetrievalResult": "C18",
    "ZernikeDecomposition": "C18", "_plot_complex_pupil": "C26", "_fit_to_zerns": "C18", "_recon_from_zerns": "C18", "max_min": "C27", "fft_max_min": "C27", "z_squeeze": "C27",
    "psf_plot": "C22", "otf_plot": "C22", "_choose_model": "C19", "WidefieldMicroscope": "C19", "_disk_kernel": "C20", "ConfocalMicroscope": "C20", "ApotomeMicroscope": "C20",
    "BaseSIMMicroscope": "C20", "BasePSF": "C02 C01", "HanserPSF": "C04 C03", "SheppardPSF": "C05", "apply_aberration": "C07", "named_aberration_to_pcoefs": "C07", "apply_named_aberrations": "C07",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/", "*"], ast.Mod: ["//"], ast.Pow: ["*"], ast.MatMult: ["*"]}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}


def mutants(text):
    """(line, what, new text)."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    def put(n, new, what=None):
        a, b = span(n)
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return None
        return n.lineno, "%s -> %s" % (src(n)[:60].replace("\n", " "), new[:60].replace("\n", " ")), t

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in src(n.test):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and src(n.value).startswith(("logger.", "print(")):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.JoinedStr) or isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(m) for m in ast.walk(n))
    out = []
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), ()):
                out.append(put(n, "(%s %s %s)" % (src(n.left), o, src(n.comparators[0]))))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for o in BIN.get(type(n.op), ()):
                out.append(put(n, "((%s) %s (%s))" % (src(n.left), o, src(n.right))))
            out.append(put(n, "(%s)" % src(n.left)))
            out.append(put(n, "(%s)" % src(n.right)))
        elif isinstance(n, ast.AugAssign):
            out.append(put(n, "%s = %s" % (src(n.target), src(n.value))))
            out.append(put(n, "pass"))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                out.append(put(n, str(not v)))
            elif isinstance(v, int):
                out.append(put(n, str(v + 1)))
                if v:
                    out.append(put(n, str(v - 1)))
            elif isinstance(v, float):
                out.append(put(n, repr(v * 1.5 if v else 1.0)))
        elif isinstance(n, ast.UnaryOp):
            out.append(put(n, "(%s)" % src(n.operand)))
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            out.append(put(n, "(%s)" % o.join("(%s)" % src(v) for v in n.values)))
            for v in n.values:
                out.append(put(n, "(%s)" % src(v)))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.Delete, ast.Raise, ast.Assert)):
            out.append(put(n, "pass"))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append(put(n.test, "True"))
            out.append(put(n.test, "False"))
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg is None:
                    continue
                rest = [src(a) for a in n.args] + [("%s=%s" % (q.arg, src(q.value)) if q.arg else "**" + src(q.value)) for j, q in enumerate(n.keywords) if j != k]
                out.append(put(n, "%s(%s)" % (src(n.func), ", ".join(rest))))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a = [src(v) for v in n.args]
                a[0], a[1] = a[1], a[0]
                out.append(put(n, "%s(%s)" % (src(n.func), ", ".join(a + [("%s=%s" % (q.arg, src(q.value)) if q.arg else "**" + src(q.value)) for q in n.keywords]))))
            if n.args and not isinstance(n.args[0], ast.Starred):
                out.append(put(n, "(%s)" % src(n.args[0])))
            if isinstance(n.func, ast.Attribute) and not n.args:
                out.append(put(n, "(%s)" % src(n.func.value)))
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            e = [src(v) for v in n.elts]
            e[0], e[-1] = e[-1], e[0]
            out.append(put(n, "(%s)" % ", ".join(e)))
    seen, uniq = set(), []
    for m in out:
        if m and m[2] not in seen and m[2] != text:
            seen.add(m[2])
            uniq.append(m)
    return uniq


def sh(cmd, cwd, timeout, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **env))
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timed out"


def worker(k, todo, out, lock):
    d = os.path.join(WORK, "w%d" % k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    repo, ver = os.path.join(d, "repo"), os.path.join(d, "verif")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    os.makedirs(ver)
    for n in ("checks", "lib", "spec", "tools"):
        shutil.copytree(os.path.join(VERIF, n), os.path.join(ver, n))
    shutil.copy(os.path.join(VERIF, "check.py"), ver)
    com = os.path.join(ver, "lib", "common.py")
    t = open(com).read()
    open(com, "w").write(t.replace('REPO = "/repo"', "REPO = %r" % repo))
    env = dict(PYTHONPATH=repo, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    while True:
        try:
            f, line, what, text = todo.get_nowait()
        except queue.Empty:
            break
        path = os.path.join(repo, "pyotf", f)
        keep = open(path).read()
        open(path, "w").write(text)
        res = dict(file=f, line=line, what=what)
        try:
            top = [n for n in ast.parse(keep).body if n.lineno <= line <= n.end_lineno and hasattr(n, "name")]
            order = (FIRST.get(top[0].name, "") if top else "").split()
            for c in order + [c for c in CHECKS[f].split() if c not in order]:
                rc, o = sh([PY, "check.py", c, "quick"], ver, 600, VERIF_SEED="1")
                if rc:
                    res["by"] = c if rc == 1 else "%s (exit %d) %s" % (c, rc, o[-200:])
                    break
            else:
                rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--doctest-modules", "pyotf/", "tests/"], repo, 150, **env)
                res["by"] = "tests" if rc else None
        finally:
            open(path, "w").write(keep)
        with lock:
            out.write(json.dumps(res) + "\n")
            out.flush()
    shutil.rmtree(d, ignore_errors=True)


def main():
    todo, n = queue.Queue(), 0
    done = set()
    if os.path.exists(sys.argv[1]):
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(sys.argv[1]))}
    every = []
    for f in sys.argv[2:] or CHECKS:
        ms = mutants(open(os.path.join("/repo/pyotf", f)).read())
        random.Random(2).shuffle(ms)
        for line, what, text in ms[:int(os.environ.get("MAX", "10000"))]:
            if (f, line, what) not in done:
                every.append((f, line, what, text))
    random.Random(1).shuffle(every)
    for e in every:
        todo.put(e)
    print(len(every), "mutants", flush=True)
    if os.environ.get("COUNT"):
        return
    out, lock = open(sys.argv[1], "a"), threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, todo, out, lock)) for k in range(int(os.environ.get("JOBS", "5")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
