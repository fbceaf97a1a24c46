"""D05: a compound device's weight is always the reduction of its parts; pulses reach the selected parts only."""
import itertools

import numpy as np
import torch

import d02 as D
import mcconf as Z
import mcdev as V
import mclib as L
import mcrng
import mcrt
from aihwkit.simulator.configs import (
    IOParameters, OneSidedUnitCell, PulseType, ReferenceUnitCell, UpdateParameters, VectorUnitCell,
    VectorUnitCellUpdatePolicy,
)
from aihwkit.simulator.parameters.enums import WeightClipType

RULE = ("parts: unit cell x devices in it x pulse type x weighting; one history containing every word over the "
        "operations (set, up, down, mixed, batched updates of different size, decay, diffusion, reset, clip, change of "
        "the update index) to the depth bound; after every operation every hidden device equals a plain tile with the "
        "same device that received the operation if and only if the policy selects it, and the visible weight equals "
        "the weighted sum. reduce: the same for the transfer compounds, visible weight only. invert: response of the "
        "inverted copy from every weight of a grid. refresh: all words of update batches, period x unit x thresholds. A "
        "state is (case, hidden and visible weights)")
BOUNDS = {"quick": "every word of 3 operations", "thorough": "every word of 4 operations (3 for the rarer settings)"}
ASSUMPTIONS = ["pulses certain or absent; no cycle-to-cycle noise", "the first device of the sequential policy is not "
               "prescribed", "rewriting after a refresh is judged to two pulses"]

DEVS = {
    "C": lambda: D.device("ConstantStep", "nominal"), "S": lambda: D.device("SoftBounds", "nominal"),
    "L": lambda: D.device("LinearStep", "own0"), "E": lambda: D.device("ExpStep", "move"),
    "P": lambda: D.device("PowStep", "nominal"), "W": lambda: D.device("PiecewiseStep", "skew"),
    "M": lambda: D.device("ConstantStep", "move"), "K": lambda: D.device("SoftBounds", "stuck"),
    "R": lambda: D.device("SoftBoundsReference", "own0"), "Q": lambda: D.device("PowStepReference", "own0"),
    "X": lambda: D.device("SoftBoundsPmax", "own0"), "Lm": lambda: D.device("LinearStep", "move"),
}
CELLS = ("ALL", "FIXED0", "FIXED1", "SEQ", "RANDOM", "Reference", "OneSided", "OneSided-inv")
SETS = ("CSL", "SE", "PM", "WKC", "LmS", "XE")
PTS = ("STOCHASTIC_COMPRESSED", "DETERMINISTIC_IMPLICIT", "MEAN_COUNT", "NONE_WITH_DEVICE")
ONE = (("C",), ("S",), ("L",), ("E",), ("M",), ("K",), ("P",), ("W",))
TRANSFER = ("Transfer", "Transfer-3", "Transfer-row", "Buffered", "Buffered-3", "Chopped", "Chopped-auto", "Dynamic",
            "Dynamic-corr", "Chopped-R", "Dynamic-R", "Buffered-R")


def split(s):
    out = []
    for ch in s:
        if ch.islower():
            out[-1] += ch
        else:
            out.append(ch)
    return out


def cases(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    for cell in CELLS:
        for devs in ONE if cell.startswith("OneSided") else [split(s) for s in SETS]:
            if cell == "Reference":
                devs = devs[:2]
            for pt in PTS[:3]:
                for gam in ((False, True) if cell in ("ALL", "SEQ", "RANDOM", "FIXED0") else (False,)):
                    if not deep and gam and pt != PTS[0]:
                        continue
                    yield dict(kind="parts", cell=cell, devs=list(devs), pt=pt, gam=gam,
                               n=n if pt == PTS[0] and not gam else min(n, 3))
    for name in TRANSFER:
        for gam in (0.0, 0.3, 1.0):
            for every in (1, 3):
                yield dict(kind="reduce", cell=name, gamma=gam, every=every, n=n)
    for d in ("C", "S", "L", "E", "M", "P", "W", "K", "Lm", "X", "R", "Q"):
        yield dict(kind="invert", dev=d)
    for every, units, up, lo in itertools.product((1, 2, 3), (False, True), (0.1, 0.4), (0.0, 0.15)):
        yield dict(kind="refresh", every=every, units=units, up=up, lo=lo, n=n + 1)


def cell_of(case):
    devs = [DEVS[d]() for d in case["devs"]]
    c = case["cell"]
    if c == "Reference":
        return ReferenceUnitCell(unit_cell_devices=devs)
    if c.startswith("OneSided"):
        return OneSidedUnitCell(unit_cell_devices=devs, copy_inverted=c.endswith("inv"))
    pol = {"ALL": "ALL", "FIXED0": "SINGLE_FIXED", "FIXED1": "SINGLE_FIXED", "SEQ": "SINGLE_SEQUENTIAL",
           "RANDOM": "SINGLE_RANDOM"}[c]
    return VectorUnitCell(unit_cell_devices=devs, update_policy=VectorUnitCellUpdatePolicy[pol],
                          first_update_idx=1 if c == "FIXED1" else 0,
                          gamma_vec=[0.7, -0.4, 0.25][:len(devs)] if case["gam"] else [])


def keep(cfg):
    """no noise from step to step (the draws that remain are constants)"""
    devs = cfg.device.unit_cell_devices if hasattr(cfg.device, "unit_cell_devices") else [cfg.device]
    for d in devs:
        d.dw_min_std = 0.0
        if hasattr(d, "reset_std"):
            d.reset_std = 0.0
    return cfg


def twin(dev, params, pt, bl):
    """a plain tile holding one hidden device"""
    t = V.make(keep(Z.single(dev)), pt, bl=bl)
    vals = t.tile.get_hidden_parameters().clone()
    for n, i in V.names(t).items():
        vals[i] = torch.tensor(params[n].reshape(vals[i].shape), dtype=torch.float32)
    t.tile.set_hidden_parameters(vals)
    t.decays = bool(getattr(dev, "lifetime", 0))
    return t


def on(t, w, f):
    t.tile.set_weights(torch.tensor(w, dtype=torch.float32))
    f(t)
    return V.visible(t)


def one_sided_pulses(t, w, cells):
    def f(t):
        for i, j in cells:
            x, d = np.zeros((1, V.NX)), np.zeros((1, V.ND))
            x[0, j], d[0, i] = 1.0, -1.0
            V.update(t, x, d)
    return on(t, w, f)


ROWS = {"up": [([1, 1, 1], [-1, -1])], "down": [([1, 1, 1], [1, 1])], "mix": [([1, -1, 0], [1, -1])],
        "cell": [([0, 1, 0], [0, -1])], "none": [([0, 0, 0], [1, -1])],
        "batch2": [([1, 0, -1], [1, -1]), ([0, 1, 1], [-1, 0])],
        "batch3": [([1, 1, 0], [-1, 1]), ([-1, 0, 1], [0, 1]), ([1, -1, 1], [1, 1])]}
OTHER = {"set": lambda t: t.tile.set_weights(D.MID.clone()), "set-": lambda t: t.tile.set_weights(-0.5 * D.MID),
         "decay": lambda t: t.tile.decay_weights(1.0), "diffuse": lambda t: t.tile.diffuse_weights(),
         "reset": lambda t: t.tile.reset_columns(2, 2, 1.0), "reset1": lambda t: t.tile.reset_columns(1, 1, 1.0),
         "clip": D.OPS["clip"]}
SETS_TO = {"set": D.MID.numpy().astype(np.float64), "set-": -0.5 * D.MID.numpy().astype(np.float64)}


def near(a, b):
    return np.allclose(a, b, rtol=2e-6, atol=2e-6)


def batch(op):
    return [list(map(float, x)) for x, _ in ROWS[op]], [list(map(float, d)) for _, d in ROWS[op]]


def hidden_weights(t, n):
    hp = V.hidden(t)
    return [hp["hidden_weights_%d" % k] for k in range(n)]


def parts(case, rec):
    cell = cell_of(case)
    pt = case["pt"]
    t = V.make(keep(Z.unit(cell)), pt, bl=2)
    mcrng.const(30)
    tag = "%s:%s:%s" % (case["cell"], "".join(case["devs"]), pt)
    c = V.coefs(cell)
    n = len(c)
    hp = V.hidden(t)
    one = case["cell"].startswith("OneSided")
    tw = []
    for k in range(n):
        dev = DEVS[case["devs"][0 if one else k]]()
        par = {m: hp[m + "_%d" % k] for m in ("max_bound", "min_bound", "dwmin_up", "dwmin_down", "decay_scales",
                                              "diffusion_rates", "reset_bias", "drift_nu", "slope_up", "slope_down",
                                              "gamma_up", "gamma_down", "reference") if m + "_%d" % k in hp}
        tw.append(twin(dev, par, pt, 2))
    # parts that no operation keeps within their bounds at the start (never programmed) are programmed first
    fixed = case["cell"] in ("FIXED0", "FIXED1", "Reference")
    idx = {1} if case["cell"] == "FIXED1" else {0} if fixed else set(range(n))
    mcrng.const(30)
    t.tile.set_weights(D.MID.clone())
    now = [w.copy() for w in hidden_weights(t, n)]
    ops = list(ROWS) + list(OTHER)
    if case["cell"] == "RANDOM":
        ops = [o for o in ops if not o.startswith("batch")]
    if fixed:
        ops += ["idx0", "idx1"]
    hist = []

    def select(k, cur):
        """is part k updated if the index before was cur, and the index after"""
        if case["cell"] == "ALL" or one:
            return True
        return k == cur

    for o in D.de_bruijn(ops, case["n"]):
        hist.append(o)
        before = now
        if o.startswith("idx"):
            t.tile.set_hidden_update_index(int(o[3:]))
            idx = {int(o[3:])}
            cand = [(int(o[3:]), before)]
        elif o in ROWS:
            V.update(t, *batch(o))
            cand = [(i, before) for i in idx]
            for x, d in ROWS[o]:
                nxt = []
                for i, ws in cand:
                    nis = [(i + 1) % n] if case["cell"] == "SEQ" else range(n) if case["cell"] == "RANDOM" else [i]
                    for ni in nis:
                        if one:
                            sgn = np.outer(d, x)
                            up = [tuple(p) for p in np.argwhere(sgn < 0)]
                            dn = [tuple(p) for p in np.argwhere(sgn > 0)]
                            new = [one_sided_pulses(tw[0], ws[0], dn) if dn else ws[0],
                                   one_sided_pulses(tw[1], ws[1], up) if up else ws[1]]
                        else:
                            new = [on(tw[k], ws[k], lambda a: V.update(a, [x], [d])) if select(k, ni) else ws[k]
                                   for k in range(n)]
                        nxt.append((ni, new))
                cand = nxt
        else:
            OTHER[o](t)
            if o in SETS_TO:
                w = SETS_TO[o]
                tgt = [np.maximum(-w, 0), np.maximum(w, 0)] if one else [w] * n
                cand = []
                for i in idx:
                    cand.append((i, [on(tw[k], tgt[k], lambda a: None) if not fixed or k == i else before[k]
                                     for k in range(n)]))
                if not fixed:
                    cand = [(i, cand[0][1]) for i in range(n)]
            else:
                cand = [(i, [on(tw[k], before[k], OTHER[o]) for k in range(n)]) for i in idx]
        rec.step()
        now = [w.copy() for w in hidden_weights(t, n)]
        v = V.visible(t)
        rec.state(tag, case["gam"], v.tobytes(), *[w.tobytes() for w in now])
        good = {i for i, ws in cand if all(near(a, b) for a, b in zip(ws, now))}
        if not rec.check(bool(good), "%s:%s:parts" % (tag, o),
                         lambda: "history %s: hidden weights %s expected one of %s (before %s)" % (
                             hist[-5:], now, [ws for _, ws in cand], before)):
            return
        idx = good
        want = sum(c[k] * now[k] for k in range(n))
        if not rec.check(near(v, want), "%s:%s:reduction" % (tag, o),
                         lambda: "history %s: visible %s but the parts give %s" % (hist[-5:], v, want)):
            return
    rec.trace()


def chopper(t, dev):
    """sign of every cell of the fast device"""
    if not hasattr(dev, "in_chop_prob"):
        return 1.0
    e = t.tile.dump_extra()
    ic, oc = [np.array([e[k] for k in e if k.endswith("." + m)][0], bool) for m in ("in_chopper", "out_chopper")]
    s = np.where(ic[None, :] != oc[:, None], -1.0, 1.0)
    return s if dev.transfer_columns else s.T


def reduce(case, rec):
    cfg = Z.zoo()[case["cell"].replace("-R", "")]()
    dev = cfg.device
    dev.gamma = case["gamma"]
    if case["cell"].endswith("-R"):
        dev.transfer_columns = False
    if hasattr(dev, "out_chop_prob") and case["every"] == 3:
        dev.out_chop_prob = 1.0
    dev.transfer_every = case["every"]
    t = V.make(cfg, bl=2)
    n = len(dev.unit_cell_devices)
    c = V.coefs(dev)
    tag = "%s:%s:%s" % (case["cell"], case["gamma"], case["every"])
    hist = []
    ops = [o for o in ROWS] + [o for o in OTHER] + ["hidden"]
    for o in D.de_bruijn(ops, case["n"]):
        hist.append(o)
        if o in ROWS:
            V.update(t, *batch(o))
        elif o == "hidden":
            vals = t.tile.get_hidden_parameters().clone()
            for m, i in V.names(t).items():
                if m.startswith("hidden_weights"):
                    vals[i] = 0.6 * vals[i] + 0.01
            t.tile.set_hidden_parameters(vals)
        else:
            OTHER[o](t)
        rec.step()
        ws = hidden_weights(t, n)
        v = V.visible(t)
        rec.state(tag, v.tobytes(), *[w.tobytes() for w in ws])
        want = c[0] * ws[0] * chopper(t, dev) + sum(c[k] * ws[k] for k in range(1, n))
        if not rec.check(near(v, want), "%s:%s:reduction" % (tag, o),
                         lambda: "history %s: visible %s but the parts %s give %s" % (hist[-5:], v, ws, want)):
            return
    rec.trace()


def invert(case, rec):
    """the inverted copy answers up pulses as the original answers down pulses, mirrored"""
    cell = OneSidedUnitCell(unit_cell_devices=[DEVS[case["dev"]]()], copy_inverted=True)
    t = V.make(keep(Z.unit(cell)), bl=1)
    hp = V.hidden(t)
    par = {m[:-2]: w for m, w in hp.items() if m.endswith("_0") and not m.startswith("hidden")}
    inv = {m[:-2]: w for m, w in hp.items() if m.endswith("_1") and not m.startswith("hidden")}
    a = twin(DEVS[case["dev"]](), par, "STOCHASTIC_COMPRESSED", 1)
    b = twin(DEVS[case["dev"]](), inv, "STOCHASTIC_COMPRESSED", 1)
    for w in np.linspace(-1, 1, 41):
        for (x, d) in (ROWS["up"][0], ROWS["down"][0]):
            ws = np.full((V.ND, V.NX), w)
            start = on(a, ws, lambda t: None)
            ya = on(a, start, lambda t: V.update(t, [x], [d]))
            startb = on(b, -start, lambda t: None)
            rec.step(3)
            if not rec.check(near(startb, -start), "invert:%s:bounds" % case["dev"],
                             lambda: "bounds not mirrored: %s %s" % (start, startb)):
                return
            yb = on(b, -start, lambda t: V.update(t, [x], [[-z for z in d]]))
            rec.state(case["dev"], w, ya.tobytes(), yb.tobytes())
            rec.trace()
            if not rec.check(near(ya, -yb), "invert:%s:pulse" % case["dev"],
                             lambda: "from %s: %s but the inverted copy from %s: %s" % (start, ya, -start, yb)):
                return


def refresh(case, rec):
    dw, wmax = 0.02, 0.6
    dev = D.device("ConstantStep", "nominal")
    for f in ("w_max_dtod", "w_min_dtod", "dw_min_dtod", "up_down_dtod", "dw_min_std", "reset_std"):
        setattr(dev, f, 0.0)
    dev.dw_min, dev.w_max, dev.w_min = dw, wmax, -0.6
    cell = OneSidedUnitCell(unit_cell_devices=[dev], refresh_every=case["every"], units_in_mbatch=case["units"],
                            refresh_upper_thres=case["up"], refresh_lower_thres=case["lo"],
                            refresh_forward=IOParameters(is_perfect=True),
                            refresh_update=UpdateParameters(desired_bl=31, pulse_type=PulseType.DETERMINISTIC_IMPLICIT))
    t = V.make(Z.unit(cell), bl=4)
    t.tile.set_weights(torch.zeros(V.ND, V.NX))
    count = 0
    m, p = [w.copy() for w in hidden_weights(t, 2)]
    tag = "refresh:%(every)s:%(units)s:%(up)s:%(lo)s" % case
    hist = []
    for o in D.de_bruijn([r for r in ROWS], case["n"]):
        hist.append(o)
        V.update(t, *batch(o))
        rec.step()
        period = case["every"] * (len(ROWS[o]) if case["units"] else 1)
        lo_m, hi_m, lo_p, hi_p = m, m, p, p  # intervals: a refresh rewrites to two pulses
        for x, d in ROWS[o]:
            sgn = np.outer(d, x)
            step_m, step_p = 4 * dw * (sgn > 0), 4 * dw * (sgn < 0)
            lo_m, hi_m, lo_p, hi_p = [np.minimum(a + s, wmax) for a, s in
                                      ((lo_m, step_m), (hi_m, step_m), (lo_p, step_p), (hi_p, step_p))]
            count += 1
            if count % period == 0:
                lo_m, hi_m, lo_p, hi_p = rewrite(case, lo_m, hi_m, lo_p, hi_p, wmax, 2 * dw)
        m, p = [w.copy() for w in hidden_weights(t, 2)]
        rec.state(tag, count % 12, m.tobytes(), p.tobytes())
        e = 1e-5
        ok = (m >= lo_m - e) & (m <= hi_m + e) & (p >= lo_p - e) & (p <= hi_p + e)
        if not rec.check(ok.all(), tag + ":" + o,
                         lambda: "history %s: minus %s expected [%s, %s], plus %s expected [%s, %s]" % (
                             hist[-5:], m, lo_m, hi_m, p, lo_p, hi_p)):
            return
        v = V.visible(t)
        rec.check(near(v, p - m), tag + ":reduction", lambda: "visible %s parts %s %s" % (v, p, m))
    rec.trace()


def rewrite(case, lo_m, hi_m, lo_p, hi_p, wmax, tol):
    """intervals after a refresh"""
    out = [x.copy() for x in (lo_m, hi_m, lo_p, hi_p)]
    e = 1e-5
    for i in np.ndindex(lo_m.shape):
        verdicts = set()
        pts = set()
        for mm, pp in itertools.product((lo_m[i], hi_m[i]), (lo_p[i], hi_p[i])):
            for s in (-e, e):
                big, small = max(mm, pp), min(mm, pp)
                verdicts.add(big / wmax > case["up"] + s and small / wmax > case["lo"] + s)
            pts.add((mm, pp))
        boxes = []
        if False in verdicts:
            boxes.append((lo_m[i], hi_m[i], lo_p[i], hi_p[i]))
        if True in verdicts:
            for mm, pp in pts:
                dm, dp = max(mm - pp, 0), max(pp - mm, 0)
                boxes.append((max(dm - tol, 0) if dm > e else 0, dm + tol if dm > e else 0,
                              max(dp - tol, 0) if dp > e else 0, dp + tol if dp > e else 0))
        a = np.array(boxes)
        out[0][i], out[1][i], out[2][i], out[3][i] = a[:, 0].min(), a[:, 1].max(), a[:, 2].min(), a[:, 3].max()
    return out


def run(case, rec):
    return globals()[case["kind"]](case, rec)
