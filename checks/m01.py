"""M01: the analog product equals the converter model (scale, clip, DAC grid, product, ADC) of its configuration."""
import itertools

import numpy as np
import torch

import mclib as L
import mcrng
import mcrt
from aihwkit.simulator.configs import (InferenceRPUConfig, TorchInferenceRPUConfig, SingleRPUConfig, IOParameters,
                                       BoundManagementType as B, NoiseManagementType as N)
from aihwkit.simulator.configs.devices import IdealDevice
from aihwkit.simulator.parameters.enums import AnalogMVType as MV
from aihwkit.simulator.tiles.analog import AnalogTile
from aihwkit.simulator.tiles.inference import InferenceTile
from aihwkit.simulator.tiles.inference_torch import TorchInferenceTile

RULE = ("case = tile (core training tile, core inference tile, torch tile) x direction x kind of product x noise "
        "management x threshold x bound management; below it the product of DAC resolution x DAC bound x ADC resolution "
        "x ADC bound x output scale x iteration limits x weight matrix, and every input vector over the alphabet "
        "(zeros, clipping values, grid borders), once one by one, once as a batch in three memory layouts, in training "
        "and in test mode. The model is scale / clip / round / product / round / clip per row in NumPy. A state is "
        "(settings, input, output); inputs within 1e-4 of a rounding or bound decision are compared for batch/row "
        "agreement only")
BOUNDS = {"quick": "2x3 matrices, all 3-vectors over 7 values (343), 4 DAC x 4 ADC settings",
          "thorough": "2x3 and 3x3 matrices, all 3-vectors over 9 values, 6 DAC x 8 ADC settings x 3 matrices x limits"}
ASSUMPTIONS = ["all noise, asymmetry, IR drop and non-linearity settings off (M02)",
               "is_perfect together with out_scale, and worst case bound management that needs a third pass or is not "
               "based on the AbsMax noise management, are not documented unambiguously and not judged"]

VALUES = (0.0, 1.0, -1.0, 0.3, -0.62, 1.7, -0.045)
MORE = VALUES + (0.5, -2.6)
W1 = [[0.4137, -0.2311, 0.5719], [-0.3193, 0.5971, 0.1229]]
W2 = [[0.9871, 0.9137, 0.8291], [-0.7111, -0.9931, 0.6173]]
W3 = [[0.0571, 0.0, -0.5993], [0.5839, 0.5791, 0.5717], [-0.3719, 0.2087, 0.1163]]
WMAX = 0.6


def cases(tier):
    for tile in ("single", "inference", "torch"):
        for mv in ("ONE_PASS", "POS_NEG_SEPARATE", "POS_NEG_SEPARATE_DIGITAL_SUM", "IDEAL"):
            if tile == "torch" and mv != "ONE_PASS":
                continue
            for nm in ("NONE", "ABS_MAX", "MAX", "CONSTANT", "ABS_MAX_NP_SUM", "AVERAGE_ABS_MAX"):
                if tile == "torch" and nm in ("ABS_MAX_NP_SUM", "AVERAGE_ABS_MAX"):
                    continue
                for th in ((0.0, 0.7) if nm in ("ABS_MAX", "MAX", "CONSTANT") else (0.0,)):
                    for bm in ("NONE", "ITERATIVE", "ITERATIVE_WORST_CASE"):
                        if bm == "ITERATIVE_WORST_CASE" and (tile == "torch" or nm not in ("ABS_MAX", "ABS_MAX_NP_SUM")):
                            continue
                        yield dict(tile=tile, dir="fwd", mv=mv, nm=nm, th=th, bm=bm, deep=tier == "thorough")
                    if tile == "single":
                        yield dict(tile=tile, dir="bwd", mv=mv, nm=nm, th=th, bm="ITERATIVE",
                                   deep=tier == "thorough")
    for tile in ("single", "inference", "torch"):
        yield dict(tile=tile, dir="layers", deep=tier == "thorough")


def io_of(**kw):
    io = IOParameters(inp_noise=0.0, out_noise=0.0)
    for k, v in kw.items():
        assert hasattr(io, k), k
        setattr(io, k, v)
    return io


def make(tile, w, fwd=None, bwd=None):
    out, inp = len(w), len(w[0])
    perfect = IOParameters(is_perfect=True)
    if tile == "single":
        c = SingleRPUConfig(device=IdealDevice(), forward=fwd or perfect, backward=bwd or perfect)
        cls = AnalogTile
    elif tile == "inference":
        c = InferenceRPUConfig(forward=fwd or perfect)
        c.drift_compensation = None
        cls = InferenceTile
    else:
        c = TorchInferenceRPUConfig(forward=fwd or perfect)
        c.drift_compensation = None
        cls = TorchInferenceTile
    L.plain_mapping(c)
    t = cls(out, inp, c)
    t.set_weights(torch.tensor(w))
    return t


# ---------------------------------------------------------------- the model
def quant(v, step):
    """returns rounded values and which roundings are too close to call"""
    if step <= 0:
        return v, np.zeros(v.shape, bool)
    q = v / step
    near = np.abs(np.abs(q - np.floor(q)) - 0.5) < 2e-4 * np.maximum(1.0, np.abs(q) * 0.05)
    return np.round(q) * step, near


def step_of(res, bound):
    if res <= 0:
        return 0.0
    return (1.0 / res if res > 1.0 else res) * 2.0 * bound


def bound_of(b):
    return b if b > 0 else np.inf


def dyadic(v):
    return v * 4096 == int(v * 4096)


def rows_mv(w, x, io):
    """product of already scaled rows; returns (y, row not clipped, row too close to call)"""
    ib, ob = bound_of(io["inp_bound"]), bound_of(io["out_bound"])
    x, near = quant(x, step_of(io["inp_res"], io["inp_bound"]))
    x = np.clip(x, -ib, ib)
    amb = near.any(axis=1)
    step = step_of(io["out_res"], io["out_bound"])
    fuzzy = io["bm"] != "NONE" and ob < np.inf and not (step > 0 and dyadic(step) and dyadic(ob))

    def adc(y):
        nonlocal amb
        y, nr = quant(y, step)
        amb = amb | nr.any(axis=1)
        if fuzzy:
            amb = amb | (np.abs(np.abs(y) - ob) < 1e-4 * ob).any(axis=1)
        hit = y > ob
        if io["neg"]:
            hit = hit | (y < -ob)
        return np.clip(y, -ob, ob), ~hit.any(axis=1)

    if io["mv"] == "ONE_PASS":
        y, ok = adc(x @ w.T)
        return y, ok, amb
    neg, pos = np.minimum(x, 0) @ w.T, np.maximum(x, 0) @ w.T
    if io["mv"] == "POS_NEG_SEPARATE":
        y, ok = adc(neg + pos)
        return y, ok, amb
    a, ok1 = adc(neg)
    b, ok2 = adc(pos)
    return a + b, ok1 & ok2, amb


def npsum(x, io):
    am = np.abs(x).max(axis=1)
    bound = io["out_bound"] if io["out_bound"] > 0 else 1.0
    am = np.minimum(am, io["th"]) if io["th"] > 0 else am
    s = np.maximum(np.maximum(x, 0).sum(axis=1), -np.minimum(x, 0).sum(axis=1)) * WMAX / bound
    step = step_of(io["inp_res"], io["inp_bound"])
    if step > 0:
        s = np.minimum(am / step * io["max_bm_res"], s)
    return np.maximum(am, s)


def alphas(x, io):
    nm, th = io["nm"], io["th"]
    amax = np.abs(x).max(axis=1)
    if nm == "NONE":
        return np.ones(len(x))
    if nm == "CONSTANT":
        return np.full(len(x), th if th > 0 else 1.0)
    if nm == "ABS_MAX_NP_SUM":
        a = npsum(x, io)
    elif nm == "AVERAGE_ABS_MAX":
        a, v = np.zeros(len(x)), None
        for i, m in enumerate(amax):
            v = m if v is None else v * (1 - 1e-3) + 1e-3 * m
            a[i] = v
    else:
        a = x.max(axis=1) if nm == "MAX" else amax
        a = np.minimum(a, th) if th > 0 else a
    return np.where(a <= 0, 1.0, a)


def model(w, x, io):
    """returns outputs and the rows that are judged"""
    n = len(x)
    a = alphas(x, io)
    red = np.ones(n)
    rounds = np.zeros(n, int)
    out = np.zeros((n, w.shape[0]))
    judged = np.ones(n, bool)
    live = np.ones(n, bool)
    step = step_of(io["inp_res"], io["inp_bound"])
    bm = io["bm"] != "NONE"
    lim = io["max_bm_res"] / step if step > 0 else np.inf
    while live.any():
        i = np.nonzero(live)[0]
        rounds[i] += 1
        s = 1.0 / a[i] / (red[i] if bm else 1.0)
        y, ok, amb = rows_mv(w, x[i] * s[:, None], io)
        out[i] = y * (io["out_scale"] / s)[:, None]
        judged[i[amb]] = False
        done = amb | ok | (not bm) | (np.floor(red[i]) > io["max_bm_factor"]) | (red[i] > lim)
        close = ~done & (np.abs(red[i] - lim) < 1e-4 * red[i])
        judged[i[close]] = False
        done |= close
        live[i[done]] = False
        j = np.nonzero(live)[0]
        if io["bm"] == "ITERATIVE_WORST_CASE" and io["nm"] != "ABS_MAX_NP_SUM":
            k = j[rounds[j] == 1]
            a[k] = npsum(x[k], io)
            late = j[rounds[j] > 1]
            judged[late] = False
            live[late] = False
        else:
            red[j] *= 2.0
    return out, judged


# ---------------------------------------------------------------- runs
def settings(case):
    deep = case["deep"]
    dac = [(-1.0, 1.0), (0.25, 1.0), (1 / 126 if case["bm"] == "NONE" else 1 / 128, 1.0), (6.0, 1.0)]
    if case["nm"] == "NONE" or case["tile"] == "torch":
        dac += [(-1.0, 0.5), (10.0, 0.8)]
    if case["nm"] == "NONE":
        dac += [(-1.0, 0.0)]
    adc = [(-1.0, 0.6), (0.125, 1.0), (1 / 510, 12.0), (-1.0, 0.0), (14.0, 0.3)]
    if deep:
        adc += [(1 / 30, 0.55), (-1.0, 12.0), (0.125, 0.2)]
        dac += [(15.0, 1.0)]
    ws = [W1, W2] + ([W3] if deep else [])
    lim = [dict(max_bm_factor=1000, max_bm_res=0.25)]
    if case["bm"] != "NONE" and case["dir"] == "fwd":
        lim += [dict(max_bm_factor=1, max_bm_res=0.25), dict(max_bm_factor=1000, max_bm_res=0.9)]
        if deep:
            lim += [dict(max_bm_factor=3, max_bm_res=0.9), dict(max_bm_factor=1000, max_bm_res=0.02)]
    for (ir, ib), (orr, ob), w, l in itertools.product(dac, adc, ws, lim):
        scales = (1.0, 0.5) if orr == 0.125 or deep else (1.0,)
        negs = (True, False) if case["bm"] != "NONE" and case["tile"] != "torch" and case["dir"] == "fwd" else (True,)
        for sc, neg in itertools.product(scales, negs):
            yield w, dict(inp_res=ir, inp_bound=ib, out_res=orr, out_bound=ob, out_scale=sc, neg=neg, mv=case["mv"],
                          nm=case["nm"], th=case["th"] if case["nm"] != "NONE" else 0.0, bm=case["bm"], **l)


def io_params(io):
    return io_of(inp_res=io["inp_res"], inp_bound=io["inp_bound"], out_res=io["out_res"], out_bound=io["out_bound"],
                 out_scale=io["out_scale"], bm_test_negative_bound=io["neg"], mv_type=MV[io["mv"]],
                 noise_management=N[io["nm"]], nm_thres=io["th"], bound_management=B[io["bm"]],
                 max_bm_factor=io["max_bm_factor"], max_bm_res=io["max_bm_res"])


def run(case, rec):
    mcrng.reset(3)
    if case["dir"] == "layers":
        return layers(case, rec)
    alphabet = MORE if case["deep"] else VALUES
    bwd = case["dir"] == "bwd"
    total = known = 0
    tag = "%s:%s:%s:%s" % (case["tile"], case["dir"], case["mv"], case["nm"])
    for w, io in settings(case):
        if io["mv"] == "IDEAL" and io["out_scale"] != 1.0:
            continue
        arr = np.array(w)
        m = arr.T if bwd else arr
        par = io_params(io)

        def fresh():
            return make(case["tile"], w, fwd=None if bwd else par, bwd=par if bwd else None)

        t = fresh()
        x = np.array(list(itertools.product(alphabet, repeat=m.shape[1])), dtype=np.float32)
        xt = torch.tensor(x)
        f = (lambda tile, v, **k: tile.backward(v)) if bwd else (lambda tile, v, **k: tile.joint_forward(v, **k))
        with torch.no_grad():
            batch = f(t, xt.clone()).numpy()
        rec.step()
        mio = dict(io, bm="NONE") if bwd else io
        exact = x.astype(np.float64) @ m.T
        limit = bound_of(io["out_bound"])
        xd = x.astype(np.float64)
        y, sure = (exact, np.ones(len(x), bool)) if io["mv"] == "IDEAL" else model(m, xd, mio)
        d = np.abs(batch - y).max(axis=1) / (1e-5 + 2e-5 * np.abs(exact).max(axis=1) + 2e-5 * np.abs(y).max(axis=1))
        d = np.where(sure, np.where(np.isfinite(d), d, 1e9), 0.0)
        where, worst, judged = int(d.argmax()), d.max(), int(sure.sum())
        rec.step(len(x))
        rec.note("%d of %d rows judged for %s" % (judged, len(x), io))
        rec.state(case["tile"], case["dir"], tuple(sorted(io.items())), w, batch.tobytes())
        rec.check(worst < 1.0, tag + ":value" + (":bm" if io["bm"] != "NONE" and not bwd else ""),
                  lambda: "x=%s w=%s %s: got %s expected %s" % (x[where], w, io, batch[where], y[where]))
        total, known = total + len(x), known + judged
        if io["bm"] == "NONE" and io["nm"] == "NONE" and io["mv"] not in ("IDEAL",) and limit < np.inf:
            two = 2.0 if io["mv"] == "POS_NEG_SEPARATE_DIGITAL_SUM" else 1.0
            rec.check(np.abs(batch).max() <= two * limit * io["out_scale"] * (1 + 1e-5), tag + ":range",
                      lambda: "output %s beyond the ADC range for %s" % (np.abs(batch).max(), io))
        # rows one by one, other layouts, other mode
        avg = io["nm"] == "AVERAGE_ABS_MAX"
        every = 1 if avg else 5 if case["deep"] else 19
        rec.trace()
        with torch.no_grad():
            t2 = fresh() if avg else t
            rows = np.stack([f(t2, xt[i:i + 1].clone()).numpy()[0] for i in range(0, len(x), every)])
            rec.step(len(rows))
            ref = batch[::every]
            rec.check(np.allclose(rows, ref, rtol=1e-5, atol=1e-6), tag + ":rows",
                      lambda: "rows one by one differ from the batch for %s: %s" % (io, diff(x[::every], rows, ref)))
            for name, v in (("strided", torch.tensor(np.repeat(x, 2, axis=1))[:, ::2]),
                            ("columns", torch.tensor(np.ascontiguousarray(x.T)).T)):
                t2 = fresh() if avg else t
                y = f(t2, v).numpy()
                rec.step()
                rec.check(np.allclose(y, batch, rtol=1e-5, atol=1e-6), tag + ":" + name,
                          lambda: "layout %s differs for %s: %s" % (name, io, diff(x, y, batch)))
            if not bwd:
                t2 = fresh() if avg else t
                y = f(t2, xt.clone(), is_test=True).numpy()
                rec.step()
                rec.check(np.allclose(y, batch, rtol=1e-5, atol=1e-6), tag + ":test-mode",
                          lambda: "test mode differs for %s: %s" % (io, diff(x, y, batch)))
            if case["tile"] != "torch":
                t2 = fresh() if avg else t
                kw = dict(in_trans=True, out_trans=True)
                y = (t2.tile.backward(xt.t().contiguous(), False, True, True) if bwd else
                     t2.tile.forward(xt.t().contiguous(), False, True, True, False)).t().numpy()
                rec.step()
                rec.check(np.allclose(y, batch, rtol=1e-5, atol=1e-6), tag + ":transposed",
                          lambda: "transposed layout differs for %s: %s" % (io, diff(x, y, batch)))
            if case["tile"] == "torch":
                y = f(t, torch.tensor(x).reshape(7 if not case["deep"] else 9, -1, x.shape[1])).reshape(batch.shape).numpy()
                rec.step()
                rec.check(np.allclose(y, batch, rtol=1e-5, atol=1e-6), tag + ":rank3",
                          lambda: "3-D input differs for %s: %s" % (io, diff(x, y, batch)))


    rec.check(known * 2 >= total or case["bm"] == "ITERATIVE_WORST_CASE", tag + ":coverage",
              "only %d of %d rows judged" % (known, total))


def diff(x, a, b):
    if a.shape != b.shape:
        return "shapes %s %s" % (a.shape, b.shape)
    i = int(np.abs(a - b).max(axis=1).argmax())
    return "x=%s: %s instead of %s" % (x[i], a[i], b[i])


def layers(case, rec):
    """the same products through analog linear, conv1d and conv2d layers (batched, indexed and unfolded paths)"""
    from aihwkit.nn import AnalogLinear, AnalogConv1d, AnalogConv2d
    tile = case["tile"]
    ios = []
    for nm, bm, (ir, ib), (orr, ob) in itertools.product(
            ("NONE", "ABS_MAX", "CONSTANT"), ("NONE", "ITERATIVE"), ((-1.0, 1.0), (0.25, 1.0)),
            ((-1.0, 0.6), (0.125, 1.0))):
        ios.append(dict(inp_res=ir, inp_bound=ib, out_res=orr, out_bound=ob, out_scale=1.0, neg=True, mv="ONE_PASS",
                        nm=nm, th=0.7 if nm == "CONSTANT" else 0.0, bm=bm, max_bm_factor=1000, max_bm_res=0.25))
    w4 = np.array([[0.41, -0.23, 0.57, 0.8], [-0.31, 0.6, 0.12, -0.75]])
    sig = L.grid(2, 1, 6, k=5, lo=-1.6, hi=1.6)
    img = L.grid(2, 1, 3, 4, k=7, lo=-1.6, hi=1.6)
    for io in ios:
        par = io_params(io)
        base = {"single": SingleRPUConfig(device=IdealDevice()), "inference": InferenceRPUConfig(),
                "torch": TorchInferenceRPUConfig()}[tile]
        base.forward = par
        if tile != "single":
            base.drift_compensation = None
        for idx in (False, True):
            for kind in ("linear", "conv1d", "conv2d"):
                if io["bm"] != "NONE" and io["nm"] == "CONSTANT" or kind == "conv1d" and tile == "torch":
                    continue
                if idx and (kind != "conv2d" or tile == "torch"):
                    continue
                L.plain_mapping(base)
                if kind == "linear":
                    m = AnalogLinear(4, 2, bias=False, rpu_config=base)
                    xin = sig.reshape(3, 4)
                    cols = xin.reshape(-1, 4)
                    shape = lambda y: y.reshape(-1, 2)
                    m.set_weights(torch.tensor(w4, dtype=torch.float32))
                elif kind == "conv1d":
                    m = AnalogConv1d(1, 2, 4, padding=1, bias=False, rpu_config=base)
                    xin = sig
                    cols = torch.nn.functional.unfold(sig[:, :, None, :], (1, 4), padding=(0, 1)).transpose(1, 2).reshape(-1, 4)
                    shape = lambda y: y.transpose(1, 2).reshape(-1, 2)
                    m.set_weights(torch.tensor(w4, dtype=torch.float32).reshape(2, 1, 4))
                else:
                    m = AnalogConv2d(1, 2, 2, bias=False, rpu_config=base, use_indexed=idx or None)
                    xin = img
                    cols = torch.nn.functional.unfold(img, 2).transpose(1, 2).reshape(-1, 4)
                    shape = lambda y: y.flatten(2).transpose(1, 2).reshape(-1, 2)
                    m.set_weights(torch.tensor(w4, dtype=torch.float32).reshape(2, 1, 2, 2))
                for train in (True, False):
                    m.train(train)
                    with torch.no_grad():
                        y = shape(m(xin)).numpy()
                    rec.step()
                    rec.trace()
                    rec.state(kind, idx, train, tuple(sorted(io.items())), y.tobytes())
                    want, sure = model(w4, cols.numpy().astype(np.float64), io)
                    for i in np.nonzero(sure)[0]:
                        e = want[i]
                        ok = np.abs(y[i] - e).max() <= 1e-5 + 2e-5 * np.abs(e).max()
                        if not rec.check(ok, "layers:%s:%s%s:%s" % (tile, kind, ":indexed" if idx else "", io["nm"] + "/" + io["bm"]),
                                         lambda: "x=%s %s: got %s expected %s" % (cols[i], io, y[i], e)):
                            break
