"""C01: results always reflect the current parameters (spec/PSFModel.tla, spec/PSFTrace.tla)."""
import itertools

import numpy as np

from lib.common import cfg, close, guarded, judge, MachineryError
from lib import models as M

DOM = {
    "Hanser": dict(
        start='[wl |-> 500, na |-> 110, ni |-> 133, res |-> 150, size |-> 8, zres |-> 230, zsize |-> 3, '
              'vec_corr |-> "none", condition |-> "sine"]',
        num='[wl |-> {500, 620}, na |-> {70, 110}, ni |-> {133, 150}, res |-> {150, 170}, size |-> {8, 9}, '
            'zres |-> {100, 230}, zsize |-> {3, 4}]'),
    "Sheppard": dict(
        start='[wl |-> 500, na |-> 105, ni |-> 133, res |-> 100, size |-> 16, zres |-> 90, zsize |-> 14, '
              'vec_corr |-> "none", condition |-> "sine", dual |-> FALSE]',
        num='[wl |-> {500, 540}, na |-> {105, 125}, ni |-> {133, 150}, res |-> {100, 110}, size |-> {16, 17}, '
            'zres |-> {90, 100}, zsize |-> {14, 15}]'),
}
INV = ["Coherent", "PupilKept", "TypesOK", "Lateral", "EmitFinal"]
PROP = ["RejectedIsNoop", "Independent", "PupilUntilChange"]


def consts(cls, maxlen, emit=True, small=False, copies='{"copy", "deepcopy", "pickle"}', reads=None):
    d = DOM[cls]
    return {"Class": '"%s"' % cls, "Start": d["start"], "NumDom": d["num"],
            "VecDom": '{"none", "total"}' if small else '{"none", "x", "y", "z", "total"}',
            "CondDom": '{"sine", "none"}' if small else '{"none", "sine", "herschel"}',
            "ZRanges": "{1, 2}" if cls == "Hanser" else "{}", "Pupils": "{1, 2}" if cls == "Hanser" else "{}",
            "BadKinds": "{}", "Unit": 100, "CopyKinds": copies,
            "ReadKinds": reads or '{"PSFa", "OTFa", "PSFi", "OTFi"}', "MaxLen": maxlen,
            "Emitting": "TRUE" if emit else "FALSE"}


def replay(ck, cls, beh, den, order):
    """Drive real objects along one behaviour and compare everything observable at every step."""
    start, U = beh["start"], den.unit
    m = {1: M.construct(cls, start, U)}
    st = {1: dict(par=dict(start), zr=0, pup=0)}
    case = dict(model=cls, history=["%s %s.%s=%s" % (e["op"], e["o"], e["p"], e["v"]) for e in beh["hist"]])
    for e in beh["hist"]:
        o = e["o"]
        if e["op"] == "copy":
            m[2], st[2] = M.COPY[e["p"]](m[1]), dict(st[1], par=dict(st[1]["par"]))
            continue
        if e["op"] == "drop":
            if o == 1:
                m[1], st[1] = m[2], st[2]
            del m[2], st[2]
            continue
        got = M.apply_op(m[o], e, U)
        if not ck.expect(got[0] == e["res"], "outcome of %s %s" % (e["op"], e["p"]),
                         dict(case, step=e, got=str(got)[:200])):
            return
        s = st[o]
        if e["res"] == "ok":
            if e["op"] == "set":
                s["par"][e["p"]] = e["v"]
                s["pup"] = 0
                if e["p"] in ("zsize", "zres"):
                    s["zr"] = 0
            elif e["op"] == "zrange":
                s["zr"], s["pup"] = e["v"], 0
            elif e["op"] == "pupil":
                s["pup"] = e["v"]
        if e["op"] == "read":
            w = den(s["par"], s["zr"], s["pup"])[e["p"]]
            if not ck.expect(close(got[1], w, 1e-9), "%s is not what the current parameters denote" % e["p"],
                             dict(case, step=e)):
                return
        for i in m:
            bad = M.readback(m[i], st[i]["par"], U)
            ck.expect(not bad, "parameters do not read back", dict(case, step=e, object=i, bad=str(bad)))
    for i in m:
        # the state the real run has reached is the specification's
        spec = beh["obj"][i - 1]
        if (spec["par"], spec["zr"], spec["pup"]) != (st[i]["par"], st[i]["zr"], st[i]["pup"]):
            raise MachineryError("replay bookkeeping disagrees with the specification")
        M.compare(m[i], den(st[i]["par"], st[i]["zr"], st[i]["pup"]), order, ck, "after the history, object %d" % i, case)
    ck.validated()


def random_traces(ck, n, steps):
    """Traces of real objects under a random driver over wide value ranges, for TLC to validate."""
    rng = np.random.default_rng(ck.seed + 77)
    traces = []
    for t in range(n):
        cls = "Hanser" if t % 3 else "Sheppard"
        U = M.Units(1000, 100)

        def val(p):
            if p == "vec_corr":
                return str(rng.choice(["none", "x", "y", "z", "total", "xy", "None"]))
            if p == "condition":
                return str(rng.choice(["none", "sine", "herschel", "cosine", "Sine"]))
            if p == "dual":
                return bool(rng.integers(2))
            if p not in ("size", "zsize") and rng.random() < .2:
                return cur["par"][p] + int(rng.choice([-1, 1]))      # the smallest possible change
            lo, hi = {"wl": (48000, 70000), "na": (900, 1250), "ni": (1300, 1550), "res": (-2000, 34000),
                      "zres": (-2000, 38000), "size": (8, 12) if cls == "Hanser" else (14, 18),
                      "zsize": (1, 6) if cls == "Hanser" else (12, 16)}[p]
            v = int(rng.integers(lo, hi))
            if p in ("wl", "na", "ni", "size", "zsize") and rng.random() < .08:
                v = -v
            return v
        start = dict(wl=52000, na=1100, ni=1330, res=13000 if cls == "Hanser" else 10000,
                     size=9 if cls == "Hanser" else 16, zres=15000 if cls == "Hanser" else 10000,
                     zsize=3 if cls == "Hanser" else 14, vec_corr="none", condition="sine")
        if cls == "Sheppard":
            start["dual"] = False
        m = M.construct(cls, start, U)
        cur = dict(par=dict(start), zr=0, pup=0)
        versions = [dict(cur, par=dict(start))]
        den = M.Denotations(cls, U)
        log = []
        for _ in range(steps):
            x = rng.random()
            if x < .5:
                p = str(rng.choice(sorted(start)))
                v = val(p)
                if p == "res" and v > 0 and v * 2 * cur["par"]["na"] == cur["par"]["wl"] * 1000:
                    continue
                if p == "zres" and v * 2 * cur["par"]["ni"] == cur["par"]["wl"] * 1000:
                    continue
                if v == cur["par"][p] and cur["pup"] and not (cur["zr"] and p in ("zsize", "zres")):
                    continue
                e = dict(op="set", p=p, v=v)
            elif x < .58 and cls == "Hanser":
                e = dict(op="zrange", p="", v=int(rng.integers(1, 7)))
                if e["v"] == cur["zr"] and cur["pup"]:
                    continue
            elif x < .68 and cls == "Hanser":
                e = dict(op="pupil", p="", v=int(rng.integers(1, 4)))
            else:
                e = dict(op="read", p=str(rng.choice(M.RESULTS)), v=0)
            got = M.apply_op(m, e, U)
            e["res"] = got[0]
            # what the object shows afterwards, back in the specification's units
            shown = {}
            for p in start:
                v = getattr(m, p)
                shown[p] = U.spec(p, v)
            e["par"] = shown
            if e["op"] == "read":
                e["same"] = [i + 1 for i, s in enumerate(versions)
                             if got[0] == "ok" and close(got[1], den(s["par"], s["zr"], s["pup"])[e["p"]], 1e-8)]
                e["planes"] = (len(np.atleast_1d(M.ZR[cur["zr"]])) if cur["zr"] else m.zsize) if got[0] != "ok" \
                    else int(got[1].shape[-3])
            elif got[0] == "ok":
                if e["op"] == "set":
                    cur = dict(par=dict(cur["par"], **{e["p"]: e["v"]}), pup=0,
                               zr=0 if e["p"] in ("zsize", "zres") else cur["zr"])
                elif e["op"] == "zrange":
                    cur = dict(par=cur["par"], zr=e["v"], pup=0)
                else:
                    cur = dict(par=cur["par"], zr=cur["zr"], pup=e["v"])
                versions.append(cur)
            if e["op"] == "zrange":
                # the specification counts planes: hand it the number of samples, versions keep the identity
                e["v"] = len(np.atleast_1d(M.ZR[e["v"]]))
            log.append(e)
        traces.append({"class": cls, "start": start, "steps": log})
    return traces


def run(ck):
    order = list(itertools.permutations(M.RESULTS))
    for cls in ("Hanser", "Sheppard"):
        den = M.Denotations(cls)
        # 1. the design: every reachable state up to a depth, memo coherence and the temporal properties
        depth = {"Hanser": 4, "Sheppard": 4}[cls] if ck.thorough else 3
        ck.tlc("PSFModel", cfg(spec="Spec", constants=consts(cls, depth, emit=False, small=True, copies='{"copy"}'),
                               invariants=INV, properties=PROP), timeout=800)
        # 2. every history of two or three operations, replayed
        L = 2
        r = ck.tlc("PSFModel", cfg(constants=consts(cls, L, copies='{"copy"}'), invariants=INV))
        beh = r.emitted
        if not ck.thorough:
            beh = beh[:: (1 if cls == "Hanser" else 2)]
        # 3. long random behaviours of the specification
        n, depth = ((700, 30) if cls == "Hanser" else (250, 30)) if ck.thorough else \
            ((230, 24) if cls == "Hanser" else (90, 24))
        r = ck.tlc("PSFModel", cfg(next_="SimNext", constants=consts(cls, depth), invariants=INV), simulate=4 * n, depth=depth + 1,
                   workers=1)
        # (those that come upon an assignment whose outcome is left open end early)
        r.emitted = r.emitted[:n]
        beh = beh + r.emitted
        if len(r.emitted) < n // 2:
            raise MachineryError("TLC simulation produced only %d behaviours" % len(r.emitted))
        start = parse_start(DOM[cls]["start"])
        for k, b in enumerate(beh):
            b["start"] = start
            replay(ck, cls, b, den, order[k % len(order)])
        ck.count("%s_histories" % cls, len(beh))
        # the same histories where the values of a parameter are all but equal
        near = M.Denotations(cls, M.Near(cls, 4e-6))
        for k, b in enumerate(beh[-(3 * len(r.emitted)) // 4:] if ck.thorough else beh[-min(len(beh), 60):]):
            replay(ck, cls, b, near, order[k % len(order)])
            ck.count("%s_histories_of_near_values" % cls)
        ck.sample(dict(model=cls, history=["%s %s=%s -> %s" % (e["op"], e["p"], e["v"], e["res"]) for e in beh[-1]["hist"]]))
    long_ranges(ck, 12 if ck.thorough else 3)
    # 4. code -> spec
    tr = random_traces(ck, 160 if ck.thorough else 40, 40)
    validate(ck, tr)


def long_ranges(ck, n):
    """Histories over explicit axial ranges so long that what tells them apart is never printed."""
    from pyotf.otf import HanserPSF
    from lib import denote

    rng = np.random.default_rng(ck.seed + 5)
    for k in range(n):
        par = dict(wl=520.0, na=1.1, ni=1.33, res=100.0, size=int(rng.integers(6, 10)), zres=200.0, zsize=3,
                   vec_corr="none", condition="sine")
        base = np.linspace(-500, 500, int(rng.integers(1003, 1300)))
        i, j = sorted(int(v) for v in rng.integers(10, len(base) - 10, 2))
        one, swapped, flipped = base.copy(), base.copy(), base.copy()
        one[i] += 177.0
        swapped[[i, j + 3]] = swapped[[j + 3, i]]
        flipped[20:-20] = flipped[20:-20][::-1]
        pool = {"even": base, "one moved": one, "two swapped": swapped, "flipped inside": flipped}
        names = [str(v) for v in rng.choice(sorted(pool), 6)]
        m, hist = HanserPSF(**par), []
        for name in names:
            m.zrange = pool[name]
            hist.append(name)
            want = denote.hanser(par, pool[name])
            ck.expect(np.array_equal(m.zrange, pool[name]), "the axial range does not read back", dict(history=hist))
            for what, w in (("PSFa", want), ("PSFi", (np.abs(want) ** 2).sum(0))):
                got = guarded(getattr, m, what)
                ck.expect(got[0] == "ok" and close(got[1], w, 1e-9), "%s is not what the current parameters denote" % what,
                          dict(history=hist, positions=len(base), i=i, j=j))
        ck.count("histories_of_long_ranges")
        ck.validated()


def parse_start(text):
    out = {}
    for part in text.strip("[]").split(","):
        k, v = [x.strip() for x in part.split("|->")]
        out[k] = {"TRUE": True, "FALSE": False}.get(v, v.strip('"') if '"' in v else None)
        if out[k] is None:
            out[k] = int(v)
    return out


def validate(ck, traces):
    import os
    import tempfile
    from lib.common import write_ndjson

    fd, path = tempfile.mkstemp(suffix=".ndjson")
    os.close(fd)
    try:
        write_ndjson(path, traces)
        r = ck.tlc("PSFTrace", cfg(init="JInit", next_="JNext", invariants=["JEmit", "JDone"]), env={"OBS": path})
    finally:
        os.unlink(path)
    done = {e["finished"] for e in r.emitted if "finished" in e}
    bad = [e for e in r.emitted if "verdict" in e]
    for e in bad:
        ck.violation("trace rejected by the specification: %s" % e["verdict"], e)
    if len(done) + len(bad) != len(traces):
        raise MachineryError("TLC did not finish every trace (%d + %d of %d)" % (len(done), len(bad), len(traces)))
    ck.count("recorded_traces", len(traces))
    ck.count("recorded_steps", sum(len(t["steps"]) for t in traces))
    ck.validated(len(traces))
