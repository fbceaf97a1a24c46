"""D02: device weights never leave their bounds."""
import itertools

import numpy as np
import torch

import mcconf as Z
import mcdev as V
import mclib as L
import mcrng
import mcrt
from aihwkit.simulator.configs import (
    BufferedTransferCompound, ChoppedTransferCompound, DigitalRankUpdateRPUConfig, DynamicTransferCompound,
    MixedPrecisionCompound, OneSidedUnitCell, ReferenceUnitCell, TransferCompound, VectorUnitCell,
    VectorUnitCellUpdatePolicy,
)
from aihwkit.simulator.parameters.enums import WeightClipType
from aihwkit.simulator.parameters.helpers import parameters_to_bindings
from aihwkit.simulator.parameters.inference import DriftParameter, WeightClipParameter

RULE = ("case = device model x parameter variant (variation of bounds and steps, asymmetric bounds, strong noise, write "
        "noise, stuck devices, references, drift) or compound of them x pulse type x draw (stream or constant); below "
        "it all words over the operations (far set in both directions, set inside, up, down, mixed and batched updates, "
        "tiny updates, decay, diffusion, reset, clip, drift, post-update, hidden bounds shrunk) to the depth bound, and "
        "then one long history containing every word of one operation more. After every operation each stored weight of "
        "each device is compared with the bounds of that device, and the visible weights with the range they imply. A "
        "state is (case, weights)")
BOUNDS = {"quick": "single operations from the initial state, all words of 3 operations within one long history",
          "thorough": "words of 2 from the initial state, all words of 3 (some: 4) within a long history"}
ASSUMPTIONS = ["2x3 tiles; update pulses certain or absent", "write noise: the persistent weight is the stored weight"]

WN = ("LinearStep", "SoftBounds", "ExpStep", "PowStep", "PiecewiseStep", "SoftBoundsReference")
COMMON = {
    "nominal": dict(w_max_dtod=0.3, w_min_dtod=0.3, dw_min_dtod=0.3, up_down_dtod=0.05),
    "wild": dict(w_max_dtod=1.5, w_min_dtod=1.5, dw_min_dtod=1.5, up_down_dtod=1.0, dw_min_std=5.0, up_down=0.3),
    "skew": dict(w_max=0.6, w_min=-0.05, w_max_dtod=0.1, w_min_dtod=0.1, reset=0.5, reset_dtod=0.3, reset_std=0.5),
    "zero": dict(w_max=0.5, w_min=0.0, reset=-0.3),
    "stuck": dict(corrupt_devices_prob=0.5, corrupt_devices_range=0.3),
    "move": dict(lifetime=3.0, lifetime_dtod=0.9, diffusion=0.5, diffusion_dtod=0.5, reset_std=1.0, reset=0.2),
    "drift": dict(drift=dict(nu=0.5, nu_dtod=0.5, nu_std=1.0, t_0=1.0, wg_ratio=1.0, w_offset=0.3, reset_tol=1e-7)),
}
OWN = {
    "LinearStep": [dict(gamma_up=0.3, gamma_down=0.5), dict(gamma_up=-0.4, gamma_down=-0.3, allow_increasing=True),
                   dict(gamma_up=2.0, gamma_up_dtod=1.0, gamma_down_dtod=1.0, mult_noise=False, dw_min_std=5.0)],
    "SoftBounds": [dict(mult_noise=False, dw_min_std=5.0)],
    "SoftBoundsPmax": [dict(p_max=10, alpha=0.03, dw_min_std=2.0)],
    "SoftBoundsReference": [dict(reference_mean=0.2, reference_std=0.1), dict(slope_up_dtod=1.0, slope_down_dtod=1.0),
                            dict(reference_std=0.3, subtract_symmetry_point=True, up_down=0.3, reset_std=0.5)],
    "ExpStep": [dict(A_up=0.2, gamma_up=2.0, A_down=-0.3, gamma_down=-1.5, a=0.5, b=0.1),
                dict(dw_min_std_add=2.0, dw_min_std_slope=3.0, dw_min_std=5.0)],
    "PowStep": [dict(pow_gamma=2.0, pow_up_down=0.5, pow_up_down_dtod=0.5, pow_gamma_dtod=0.5, dw_min_std=5.0)],
    "PowStepReference": [dict(reference_mean=0.2), dict(pow_gamma=1.5, reference_std=0.2, dw_min_std=5.0)],
    "PiecewiseStep": [dict(piecewise_up=[1.5, 0.0, 9.5, 0.2], piecewise_down=[8.0, 0.8, 1.0, 1.4], dw_min_std=5.0)],
    "ConstantStep": [dict(dw_min=5.0)],
}
CLIP = WeightClipParameter(type=WeightClipType.FIXED_VALUE, fixed_value=0.25)
PTS = ("STOCHASTIC_COMPRESSED", "DETERMINISTIC_IMPLICIT", "MEAN_COUNT")
BIG = torch.full((V.ND, V.NX), 9.0)
MID = torch.tensor([[0.2, -0.3, 0.05], [-0.1, 0.4, -0.02]])
UP, DOWN = ([[1.0, 1.0, 1.0]], [[-1.0, -1.0]]), ([[1.0, 1.0, 1.0]], [[1.0, 1.0]])
MIX = ([[1.0, -1.0, 0.0]], [[1.0, -1.0]])


def variants(dev):
    obj = L.SIMPLE_DEVICES[dev]()
    out = {}
    allv = dict(COMMON)
    for i, kw in enumerate(OWN.get(dev, ())):
        allv["own%d" % i] = kw
    if dev in WN:
        allv["write"] = dict(write_noise_std=0.7, reset_std=0.3, w_max_dtod=0.3)
        allv["write-move"] = dict(write_noise_std=0.7, lifetime=3.0, diffusion=0.5, apply_write_noise_on_set=False)
    for n, kw in allv.items():
        if all(hasattr(obj, k) for k in kw):
            out[n] = kw
    return out


def device(dev, v):
    obj = L.SIMPLE_DEVICES[dev](construction_seed=5)
    if dev != "SoftBoundsPmax":
        obj.dw_min, obj.w_max, obj.w_min = 0.05, 0.6, -0.5
    for k, x in variants(dev)[v].items():
        setattr(obj, k, DriftParameter(**x) if k == "drift" else x)
    return obj


def compounds():
    c = {}
    for pol in ("ALL", "SINGLE_SEQUENTIAL", "SINGLE_FIXED"):
        c["Vector-" + pol] = lambda a, b, pol=pol: VectorUnitCell(
            unit_cell_devices=[a, b], update_policy=VectorUnitCellUpdatePolicy[pol], gamma_vec=[0.7, -0.4])
    c["Reference"] = lambda a, b: ReferenceUnitCell(unit_cell_devices=[a, b])
    c["OneSided"] = lambda a, b: OneSidedUnitCell(unit_cell_devices=[a])
    c["OneSided-inv"] = lambda a, b: OneSidedUnitCell(unit_cell_devices=[a], copy_inverted=True)
    c["OneSided-refresh"] = lambda a, b: OneSidedUnitCell(
        unit_cell_devices=[a], refresh_every=2, units_in_mbatch=False, refresh_upper_thres=0.1, refresh_lower_thres=0.0)
    c["Transfer"] = lambda a, b: TransferCompound(unit_cell_devices=[a, b], transfer_every=1, units_in_mbatch=False)
    c["Transfer-vis"] = lambda a, b: TransferCompound(unit_cell_devices=[a, b], transfer_every=2, gamma=0.4,
                                                      units_in_mbatch=False, with_reset_prob=1.0)
    c["Buffered"] = lambda a, b: BufferedTransferCompound(unit_cell_devices=[a, b], transfer_every=1,
                                                          units_in_mbatch=False, gamma=0.4)
    c["Chopped"] = lambda a, b: ChoppedTransferCompound(unit_cell_devices=[a, b], transfer_every=1, in_chop_prob=0.5)
    c["Dynamic"] = lambda a, b: DynamicTransferCompound(unit_cell_devices=[a, b], transfer_every=1, in_chop_prob=0.5)
    c["MixedPrec"] = lambda a, b: MixedPrecisionCompound(device=a, transfer_every=1)
    return c


PAIRS = [(("SoftBounds", "nominal"), ("LinearStep", "wild")), (("ConstantStep", "stuck"), ("ExpStep", "move")),
         (("SoftBounds", "write"), ("PowStep", "skew")), (("PiecewiseStep", "drift"), ("SoftBounds", "write-move")),
         (("SoftBounds", "stuck"), ("SoftBoundsReference", "own0"))]


def draws(deep):
    return [None, 30, 200] + ([77, 350] if deep else [])


def cases(tier):
    deep = tier == "thorough"
    for dev in L.SIMPLE_DEVICES:
        for v in variants(dev):
            for i, (pt, dr) in enumerate(itertools.product(PTS, draws(deep))):
                if not deep and pt != PTS[0] and dr != 200:
                    continue
                yield dict(kind="single", dev=dev, v=v, pt=pt, draw=dr, depth=2 if deep else 1,
                           long=4 if deep and v in ("nominal", "wild") and pt == PTS[0] else 3)
    for name in compounds():
        for i, pair in enumerate(PAIRS):
            if name.startswith(("OneSided", "MixedPrec")):
                pair = (pair[0], pair[0])
                if name == "OneSided-refresh" and pair[0][1].startswith("write"):
                    continue  # documented: no resets of single devices with write noise
            for pt, dr in itertools.product(PTS[:3 if deep else 2], draws(deep)):
                if not deep and (pt != PTS[0]) == (dr is not None):
                    continue
                yield dict(kind="cell", cell=name, pair=[list(p) for p in pair], pt=pt, draw=dr,
                           depth=2 if deep else 1, long=3)


def build(case):
    if case["kind"] == "single":
        dev = device(case["dev"], case["v"])
        cfg = Z.single(dev)
    else:
        a, b = [device(*p) for p in case["pair"]]
        dev = compounds()[case["cell"]](a, b)
        cfg = DigitalRankUpdateRPUConfig(device=dev) if case["cell"] == "MixedPrec" else Z.unit(dev)
    t = V.make(cfg, case["pt"], bl=3)
    return t, dev, cfg


# ------------------------------------------------------------------ operations
def shrink(t):
    t.tile.set_hidden_parameters(_scaled(t, 0.5))


def _scaled(t, f):
    vals = t.tile.get_hidden_parameters().clone()
    for i, n in enumerate(t.tile.get_hidden_parameter_names()):
        if n.startswith(("max_bound", "min_bound")):
            vals[i] *= f
    return vals


def up_many(x, d, n):
    def f(t):
        for _ in range(n):
            V.update(t, x, d)
    return f


def tiny(t):
    t.tile.set_learning_rate(0.004)
    V.update(t, [[0.3, -0.2, 1.0]], [[-0.5, 0.1]])
    t.tile.set_learning_rate(20.0)


OPS = {
    "set+": lambda t: t.tile.set_weights(BIG.clone()), "set-": lambda t: t.tile.set_weights(-BIG),
    "set0": lambda t: t.tile.set_weights(MID.clone()),
    "up": up_many(*UP, 8), "down": up_many(*DOWN, 8), "mix": up_many(*MIX, 2),
    "batch": lambda t: V.update(t, [[1.0, 0.0, -1.0], [0.0, 1.0, 1.0], [-1.0, -1.0, 1.0]], [[1.0, -1.0], [-1.0, 0.0], [1.0, 1.0]]),
    "tiny": tiny, "decay": lambda t: t.tile.decay_weights(1.0), "decay9": lambda t: t.tile.decay_weights(9.0),
    "diffuse": lambda t: t.tile.diffuse_weights(), "reset": lambda t: t.tile.reset_columns(2, 2, 1.0),
    "clip": lambda t: t.tile.clip_weights(parameters_to_bindings(CLIP, t.get_data_type())), "drift": lambda t: t.tile.drift_weights(5.0),
    "shrink": shrink,
}
def de_bruijn(ops, n):
    """a cyclic word containing every word of length n"""
    k = len(ops)
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return [ops[i] for i in seq + seq[:n - 1]]


def bounds_ok(rec, case, tag, t, dev, word):
    """every stored weight within its own bounds; visible weights within the range implied"""
    op = word[-1] if word else "init"
    lo_v = hi_v = 0.0
    eps = 1e-6
    ok = True
    target = dev.device if type(dev).__name__ == "MixedPrecisionCompound" else dev
    c = V.coefs(target)
    noisy = False
    v = V.visible(t)
    for k, (w, lo, hi, ref, s) in enumerate(V.parts(t, target)):
        if not rec.check((lo <= hi).all(), "%s:order" % tag,
                         lambda: "%s: lower bound above upper bound: %s %s" % (word, lo, hi)):
            return False
        if not rec.check(np.isfinite(w).all(), "%s:%s:finite" % (tag, op), lambda: "%s: %s" % (word, w)):
            return False
        r = ref if ref is not None and (ref != 0).any() else None
        inside = (w >= lo - eps) & (w <= hi + eps)
        text = lambda: "%s: part %d: w %s (reference %s) not within [%s, %s]" % (word, k, w, r, lo, hi)
        if r is None:
            ok = rec.check(inside.all(), "%s:%s:bounds" % (tag, op), text) and ok
        else:
            # the device is w + reference; everything but the pulses applies the bounds to w (known finding)
            real = (w + r >= lo - eps) & (w + r <= hi + eps)
            pulsed = pulsed_at(op) if case["kind"] == "single" else False
            ok = rec.check((real | (inside & ~np.asarray(pulsed))).all(), "%s:%s:bounds" % (tag, op), text) and ok
            rec.check(real.all(), "reference-bounds:%s" % device_of(target, k), text)
            lo, hi = np.minimum(lo, lo - r), np.maximum(hi, hi - r)
        g = c[k] if c else 1.0
        lo_v = lo_v + np.minimum(g * lo, g * hi)
        hi_v = hi_v + np.maximum(g * lo, g * hi)
        noisy = noisy or "persistent_weights" + s in V.names(t)
    if not noisy:
        ok = rec.check(((v >= lo_v - 1e-5) & (v <= hi_v + 1e-5)).all(), "%s:%s:visible" % (tag, op),
                       lambda: "%s: visible %s outside [%s, %s]" % (word, v, lo_v, hi_v)) and ok
    rec.state(tag, case["pt"], case["draw"], v.tobytes())
    return ok


def pulsed_at(op):
    """where the last operation certainly pulsed"""
    m = np.zeros((V.ND, V.NX), dtype=bool)
    if op in ("up", "down", "mix", "batch"):
        m[:] = True
    if op == "mix":
        m[:, 2] = False
    return m


def device_of(dev, k):
    d = dev
    if hasattr(dev, "unit_cell_devices"):
        d = dev.unit_cell_devices[min(k, len(dev.unit_cell_devices) - 1)]
    return type(d).__name__.replace("Device", "")


def run(case, rec):
    t, dev, _ = build(case)
    tag = "%s:%s" % (case["dev"], case["v"]) if case["kind"] == "single" else \
        "%s:%s" % (case["cell"], "+".join("-".join(p) for p in case["pair"]))
    if case["draw"] is not None:
        mcrng.const(case["draw"])
    if not bounds_ok(rec, case, tag, t, dev, ()):
        return
    ops = list(OPS)

    def rec_words(t0, word):
        if len(word) >= case["depth"] or len(rec.fails) > 3:
            return
        for o in ops:
            t1 = V.clone(t0)
            OPS[o](t1)
            rec.step()
            w = word + (o,)
            rec.trace()
            if bounds_ok(rec, case, tag, t1, dev, w):
                rec_words(t1, w)
    rec_words(t, ())
    if rec.fails:
        return
    hist = []
    for o in (de_bruijn([o for o in ops if o != "shrink"], case["long"])):
        hist.append(o)
        OPS[o](t)
        rec.step()
        if not bounds_ok(rec, case, tag, t, dev, hist[-6:]):
            return
    rec.trace()
