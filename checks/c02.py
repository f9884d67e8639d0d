"""C02: invalid parameters are refused and change nothing (spec/PSFModel.tla, spec/PSFConstruct.tla)."""
import itertools

from lib import models as M
from lib.common import cfg, guarded, MachineryError
from checks.c01 import INV, PROP, parse_start

U = M.Units(64)
BASE = {
    "Hanser": '[wl |-> 512, na |-> 64, ni |-> 96, res |-> 200, size |-> 6, zres |-> 128, zsize |-> 3]',
    "Sheppard": '[wl |-> 512, na |-> 80, ni |-> 96, res |-> 100, size |-> 12, zres |-> 96, zsize |-> 10]',
}
VEC = '{"none", "x", "y", "z", "total", "xy", "X", "", "None", "totals"}'
COND = '{"none", "sine", "herschel", "cosine", "Sine", ""}'
NUM = {
    "Hanser": '[wl |-> {512, 640, -512, -1}, na |-> {64, 80, 32, -64}, ni |-> {96, 80, -96}, '
              'res |-> {200, 255, 256, 257, 0, -1, -200, 511, 512, 600, 1}, size |-> {6, 7, -6, -1}, '
              'zres |-> {128, 300, 5000, 0, -1, -128}, zsize |-> {3, 4, 1, -1, -3}]',
    "Sheppard": '[wl |-> {512, 640, -512}, na |-> {80, 64, -80}, ni |-> {96, 80, -96}, '
                'res |-> {100, 96, 255, 256, 257, 0, -1, 511, 600}, size |-> {12, 13, -6}, '
                'zres |-> {96, 90, 170, 171, 255, 256, 257, 204, 205, 5000, 0, -1, -96}, zsize |-> {10, 11, -1}]',
}


def inexact_tie(cls, par, p, v):
    """Exactly on a limit that floating point cannot represent: unspecified."""
    k = {"res": "na", "zres": "ni"}.get(p)
    if k is None or (p == "zres" and cls == "Hanser"):
        return False
    if not isinstance(v, int) or v * 2 * par[k] != par["wl"] * 64:
        return False
    return v not in (256, 512)


def run(ck):
    for cls in ("Hanser", "Sheppard"):
        base = BASE[cls][:-1] + ', vec_corr |-> "none", condition |-> "sine"' + \
            (", dual |-> FALSE]" if cls == "Sheppard" else "]")
        bad = '{"none", "text", "list", "complex", "object", "fraction", "one", "nan", "inf"}'
        consts = {"Class": '"%s"' % cls, "Start": base, "NumDom": NUM[cls], "VecDom": VEC, "CondDom": COND,
                  "ZRanges": "{1}" if cls == "Hanser" else "{}", "Pupils": "{1}" if cls == "Hanser" else "{}",
                  "BadKinds": bad, "Unit": 64, "CopyKinds": "{}", "ReadKinds": '{"OTFi"}', "MaxLen": 2,
                  "Emitting": "TRUE"}
        r = ck.tlc("PSFModel", cfg(spec="Spec", constants=consts, invariants=INV, properties=PROP))
        start = parse_start(base)
        den = M.Denotations(cls, U)
        beh = r.emitted
        if not ck.thorough:
            # a rejected step is in every history kept
            beh = [b for b in beh if any(e["res"] == "raise" for e in b["hist"])][::(3 if cls == "Hanser" else 5)]
        replay_all(ck, cls, beh, start, den)
        if ck.thorough:
            n = 400 if cls == "Hanser" else 150
            consts["MaxLen"] = 15
            r = ck.tlc("PSFModel", cfg(constants=consts, invariants=INV), simulate=n, depth=16, workers=1)
            replay_all(ck, cls, r.emitted, start, den)
        construct(ck, cls)


def replay_all(ck, cls, beh, start, den):
    first = {}
    for b in beh:
        m = M.construct(cls, start, U)
        par, zr, pup = dict(start), 0, 0
        case = dict(model=cls, history=["set %s=%s" % (e["p"], e["v"]) for e in b["hist"]])
        skip = False
        for n, e in enumerate(b["hist"]):
            if e["op"] == "set" and inexact_tie(cls, par, e["p"], e["v"]):
                skip = True
                break
            if n == 1 and e["res"] == "raise":
                m.OTFi          # what was computed before must survive the rejected step
            got = M.apply_op(m, e, U)
            if not ck.expect(got[0] == e["res"], "an %s assignment" %
                             ("invalid value is accepted in" if e["res"] == "raise" else "acceptable value is refused in"),
                             dict(case, step=e, got=str(got)[:200])):
                skip = True
                break
            if e["res"] == "raise":
                ck.expect(got[1] in ("TypeError", "ValueError"), "rejected with neither TypeError nor ValueError",
                          dict(case, step=e, got=str(got)[:200]))
                ck.count("rejected_assignments")
            elif e["op"] == "set":
                par[e["p"]], pup = e["v"], 0
                zr = 0 if e["p"] in ("zsize", "zres") else zr
            elif e["op"] == "zrange":
                zr, pup = e["v"], 0
            elif e["op"] == "pupil":
                pup = e["v"]
            back = M.readback(m, par, U)
            ck.expect(not back, "parameters do not read back", dict(case, step=e, bad=str(back)))
        if skip:
            continue
        if par["ni"] <= par["na"]:
            continue           # no light cone: results are not compared
        # results, now and then all four
        key = tuple(sorted((k, str(v)) for k, v in par.items())) + (zr, pup)
        n = first.setdefault(key, 0)
        first[key] += 1
        order = M.RESULTS if n % 8 == 0 else (M.RESULTS[n % 4],)
        M.compare(m, den(par, zr, pup), order, ck, "after the history", case)
        ck.validated()
        ck.sample(case)


def construct(ck, cls):
    consts = {"Class": '"%s"' % cls, "Base": BASE[cls], "Cand": NUM[cls], "Vecs": VEC, "Conds": COND, "Unit": 64,
              "Emitting": "TRUE"}
    r = ck.tlc("PSFConstruct", cfg(init="Init", next_="Step", constants=consts,
                                   invariants=["ReadsBack", "AllValid", "SomethingWrong", "Emit"]))
    from pyotf import otf

    C = getattr(otf, cls + "PSF")
    for t, e in enumerate(r.emitted):
        a = e["a"]
        if any(inexact_tie(cls, a, p, a[p]) for p in ("res", "zres")):
            continue
        kw = M.real_par(a, U)
        for p in e["omit"]:
            del kw[p]
        case = dict(model=cls, args=str(kw))
        if t % 3 == 0:
            pos = [kw.pop(p) for p in ("wl", "na", "ni", "res", "size")]
            got = guarded(C, *pos, **kw)
        else:
            got = guarded(C, **kw)
        if e["verdict"] == "ok":
            if ck.expect(got[0] == "ok", "acceptable arguments are refused", dict(case, got=str(got)[:200])):
                back = M.readback(got[1], a, U)
                ck.expect(not back, "arguments do not read back", dict(case, bad=str(back)))
        else:
            ck.expect(got[0] == "raise" and got[1] in ("TypeError", "ValueError"),
                      "invalid arguments are accepted (%s)" % e["at"], dict(case, got=str(got)[:200]))
        ck.validated()
    base = M.real_par(parse_start(BASE[cls]), U)
    for p in base:
        for k, v in M.BAD.items():
            if k in ("one",) or (k in ("fraction", "nan", "inf") and p not in ("size", "zsize")):
                continue
            if v is None and p in ("zres", "zsize"):
                continue
            ck.expect(guarded(C, **dict(base, **{p: v}))[0] == "raise", "constructor accepts a wrong type",
                      dict(model=cls, p=p, kind=k))
        if p not in ("zres", "zsize"):
            kw = dict(base)
            del kw[p]
            ck.expect(guarded(C, **kw)[0] == "raise", "constructor works without %s" % p)
    if cls == "Sheppard":
        for v in (1, 0, None, "yes", 1.0):
            ck.expect(guarded(C, dual=v, **base)[0] == "raise", "dual accepts %r" % (v,))
        for v in (True, False):
            ck.expect(guarded(lambda: C(dual=v, **base).dual)[1] is v, "dual does not read back")
        ck.expect(C(**base).dual is False, "dual defaults to False")
    m = C(**{k: v for k, v in base.items() if k not in ("zres", "zsize")}) if cls == "Hanser" else C(**base)
    ck.expect(m.vec_corr == "none" and m.condition == "sine", "the documented defaults")
