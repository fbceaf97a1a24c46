"""Q01: quantizers map to the nearest grid point, range estimators follow the data only while estimating."""
import copy
import itertools

import numpy as np
import torch

import mclib as L
import mcrt
from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
from aihwkit.simulator.digital_low_precision.quantizers import (AsymmetricUniformQuantizer, SymmetricUniformQuantizer,
                                                                QMethods)
from aihwkit.simulator.digital_low_precision.range_estimators import OptMethod, RangeEstimators
from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedActivation
from aihwkit.nn.low_precision_modules.quantized_base_modules import QuantLinear

RULE = ("grid cases: every quantizer x bit width x scale domain x range, applied to a dense value grid and compared with the "
        "nearest point of an independently computed grid; history cases: all words over {see data in training or "
        "evaluation mode, estimate, fix, learn, reset, save and load} in lock step with a model of the range and state; a state "
        "is (case, range, mode)")
BOUNDS = {"quick": "bits 2..8, 9 ranges, words of length 3 (5 data sets of one shape)",
          "thorough": "bits 2..10, 13 ranges, words of length 4"}
ASSUMPTIONS = ["CPU, float32", "at least 2 bits", "ties may round either way", "percentile options are not covered"]
RANGES = ((-1.0, 1.03), (0.0, 2.0), (-0.3, 1.7), (-2.0, 0.5), (-1.5, 0.0), (0.2, 0.9), (-1e-3, 1.1e-3), (-300.0, 1.0), (0.0, 0.0),
          (-5.0, -4.0), (1e-5, 3.0), (-0.1, 0.13), (-7.0, 90.0))


def cases(tier):
    deep = tier == "thorough"
    for method in ("sym", "asym"):
        for bits in range(2, 11 if deep else 9):
            for dom in ("linear", "log"):
                for mode in ("tensor", "channel", "axis"):
                    for r in (RANGES if deep else RANGES[:9]):
                        yield dict(part="grid", method=method, bits=bits, dom=dom, mode=mode, range=r)
    for method in ("sym", "asym"):
        for est in ("current", "all", "running"):
            for mode in ("tensor", "channel", "axis"):
                if mode == "axis" and est == "all":
                    continue
                for first in OPS:
                    yield dict(part="words", method=method, est=est, mode=mode, first=first, depth=4 if deep else 3, bits=3)
        for est in ("mse",):
            for mode in ("tensor", "channel"):
                for bits in (2, 3, 4):
                    for data in DATA:
                        yield dict(part="mse", method=method, mode=mode, bits=bits, data=data)
        for per in (False, True):
            for bits in (2, 4):
                yield dict(part="layer", method=method, per=per, bits=bits, depth=5 if deep else 4)


# ------------------------------------------------------------------ reference
def ref_range(method, lo, hi, bits, eps=1e-8, floor=1e-8):
    """(scale, lowest integer, highest integer) of the documented grid, zero at integer 0."""
    lo = np.minimum(np.asarray(lo, dtype=np.float64), 0.0)
    hi = np.maximum(np.asarray(hi, dtype=np.float64), eps)
    if method == "asym":
        scale = np.maximum((hi - lo) / (2 ** bits - 1), floor)
        zp = np.clip(np.rint(-lo / ((hi - lo) / (2 ** bits - 1))), 0, 2 ** bits - 1)
        return scale, -zp, 2 ** bits - 1 - zp
    signed = bool((lo < 0).any())
    imax = 2 ** (bits - signed) - 1
    scale = np.maximum(np.maximum(-lo, hi) / imax, floor)
    return scale, np.full_like(scale, -(2 ** (bits - 1)) if signed else 0), np.full_like(scale, imax)


def verify(rec, key, where, x, y, scale, imin, imax):
    """y is x rounded to the nearest point of scale * {imin..imax} (arrays broadcast to x)."""
    x, y = x.detach().double().numpy(), y.detach().double().numpy()
    k = y / scale
    eps = 1e-3
    near = np.clip(x / scale, imin, imax)
    ok = (rec.check(bool((np.abs(k - np.rint(k)) < eps).all()), key + ":grid", lambda: "%s: %s is not on the grid of step %s" % (
              where, y.tolist(), scale))
          and rec.check(bool((k >= imin - eps).all() and (k <= imax + eps).all()), key + ":levels", lambda: "%s: %s outside the %s levels" % (
              where, y.tolist(), (imin, imax)))
          and rec.check(bool((np.abs(k - near) <= 0.5 + eps).all()), key + ":nearest", lambda: "%s: %s is mapped to %s, step %s" % (
              where, x.tolist(), y.tolist(), scale)))
    return ok


def values(lo, hi):
    w = max(abs(lo), abs(hi), 1e-3)
    return torch.cat([torch.linspace(-2.2 * w, 2.2 * w, 1201), torch.linspace(lo, hi, 799), torch.zeros(1)]).float()


def make(method, bits, dom="linear", mode="tensor"):
    cls = AsymmetricUniformQuantizer if method == "asym" else SymmetricUniformQuantizer
    return cls(bits, scale_domain=dom, per_channel=mode == "channel", axis=1 if mode == "axis" else None)


def run_grid(case, rec):
    method, bits, mode = case["method"], case["bits"], case["mode"]
    key = "grid:%s:%s:%s" % (method, case["dom"], mode)
    q = make(method, bits, case["dom"], mode)
    rec.check(not q.is_initialized, key + ":init", "a fresh quantizer claims to have a range")
    lo, hi = case["range"]
    v = values(lo, hi)
    if mode == "tensor":
        los, his, x = lo, hi, v
        q.set_quant_range(lo, hi)
        shape = (1,)
    else:
        los, his = np.array([lo, 0.0, 2 * lo]), np.array([hi, 1.0, 0.5 * hi])
        q.set_quant_range(torch.tensor(los).float(), torch.tensor(his).float())
        x = torch.stack([v, v, v], 0 if mode == "channel" else 1)
        shape = (3, 1) if mode == "channel" else (1, 3)
    scale, imin, imax = (np.asarray(a, dtype=np.float64).reshape(shape) for a in ref_range(method, los, his, bits, floor=1e-8 if case["dom"] == "linear" else 0.0))
    x0 = x.clone()
    y = q(x)
    where = "%s, %d bits, range %s" % (key, bits, case["range"])
    rec.check(torch.equal(x, x0), key + ":input", where)
    verify(rec, key, where, x, y, scale, imin, imax)
    yy = q(y.detach())
    rec.check(mcrt.close(y, yy, 1e-5, 0), key + ":twice", lambda: "%s: quantizing again moves %s" % (where, (y - yy).abs().max()))
    cols = [x] if mode == "tensor" else list(x.unbind(0 if mode == "channel" else 1))
    outs = [y] if mode == "tensor" else list(y.unbind(0 if mode == "channel" else 1))
    levels = {int(n) for n in np.rint(imax - imin + 1).flatten()}
    for a, b in zip(cols, outs):
        order = a.argsort()
        rec.check(bool((b[order].diff() >= -1e-6 * float(b.abs().max())).all()), key + ":monotone", where)
    if mode == "tensor" and 1e-4 < float(scale.min()):
        n = len(np.unique(np.rint(outs[0].detach().double().numpy() / scale)))
        dense = 2 ** bits < 400 and -imin[0] * scale[0] < 2.1 * max(abs(lo), abs(hi)) and imax[0] * scale[0] < 2.1 * max(abs(lo), abs(hi))
        rec.check(not dense or n == 2 ** bits, key + ":count", lambda: "%s: %d levels instead of %d" % (where, n, 2 ** bits))
        rec.check(levels == {2 ** bits}, key + ":ref", where)
    for t, r, nm in ((q.x_min, scale * imin, "x_min"), (q.x_max, scale * imax, "x_max")):
        rec.check(mcrt.close(torch.as_tensor(t).detach().double().flatten(), torch.tensor(r).flatten(), 1e-4, 1e-9), key + ":" + nm,
                  lambda: "%s: %s is %s, not %s" % (where, nm, t, r))
    # straight-through gradient inside the range
    x = x.clone().requires_grad_(True)
    q(x).sum().backward()
    inside = (x.detach().double().numpy() / scale > imin + 0.6) & (x.detach().double().numpy() / scale < imax - 0.6)
    rec.check(bool((x.grad.numpy()[inside] == 1).all()), key + ":gradient", where)
    rec.state(key, where, y)
    rec.step()


# ------------------------------------------------------------------ histories of the manager
G = L.grid(3, 4, k=5, lo=-1, hi=1)
DATA = {"a": G, "b": (G * 3).roll(2, 1), "pos": G.abs() + 0.1, "0": torch.zeros(3, 4), "c": G * torch.tensor([[0.1], [-2.0], [0.5]])}
OPS = ("t:a", "t:b", "t:pos", "t:0", "e:a", "e:c", "est", "fix", "learn", "esttrain", "reset", "save", "load")
EST = {"current": RangeEstimators.current_minmax, "all": RangeEstimators.allminmax, "running": RangeEstimators.running_minmax}


def manager(case):
    return QuantizationManager(qmethod=QMethods.asymmetric_uniform if case["method"] == "asym" else QMethods.symmetric_uniform,
                               init=EST[case["est"]], per_channel=case["mode"] == "channel",
                               axis=1 if case["mode"] == "axis" else None, qparams={"n_bits": case["bits"]})


def minmax(x, mode):
    x = x.double().numpy()
    if mode == "tensor":
        return x.min(), x.max()
    ax = 1 if mode == "channel" else 0
    return x.min(ax), x.max(ax)


def run_words(case, rec):
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        word = (case["first"],) + rest
        if not any(w[1] == ":" for w in word):
            continue
        if not walk(case, word, rec):
            return


def walk(case, word, rec):
    m = manager(case)
    mode = case["mode"]
    key = "words:%s:%s:%s" % (case["method"], case["est"], mode)
    state, est, rng = "T", None, None
    shape = {"tensor": (1,), "channel": (3, 1), "axis": (1, 4)}[mode]
    for n, op in enumerate(word):
        where = lambda: "%s of %s" % (op, word[:n + 1])
        name, _, d = op.partition(":")
        rec.step()
        if name in ("t", "e"):
            m.train(name == "t")
            x = DATA[d].clone()
            if state == "E" or state == "T" and name == "t":
                lo, hi = minmax(x, mode)
                if est is None or case["est"] == "current":
                    est = (lo, hi)
                elif case["est"] == "all":
                    est = (np.minimum(est[0], lo), np.maximum(est[1], hi))
                else:
                    est = (0.9 * est[0] + 0.1 * lo, 0.9 * est[1] + 0.1 * hi)
                rng = est
            try:
                y = m(x)
            except Exception as e:  # pylint: disable=broad-except
                if not rec.check(rng is None, key + ":raises", lambda: "%s: %s" % (where(), repr(e))):
                    return False
                continue
            if not rec.check(rng is not None, key + ":uninitialised", lambda: where() + ": output without a range"):
                return False
            rec.check(torch.equal(x, DATA[d]), key + ":input", where)
            grid = [np.asarray(a, dtype=np.float64).reshape(shape) for a in ref_range(case["method"], rng[0], rng[1], case["bits"])]
            verify(rec, key, where(), x, y, *grid)
            if float(DATA[d].abs().max()) > 0:
                yy = m.quantizer(y.detach())
                rec.check(mcrt.close(y, yy, 1e-5, 1e-12), key + ":twice", where)
        elif name == "est":
            m.estimate_ranges()
            state = "E"
        elif name == "esttrain":
            m.estimate_ranges_train()
            state = "T"
        elif name == "fix":
            try:
                m.fix_ranges()
                if not rec.check(rng is not None, key + ":fix", lambda: where() + ": fixed without a range"):
                    return False
                state = "F"
            except Exception as e:  # pylint: disable=broad-except
                if not rec.check(rng is None, key + ":fix", lambda: "%s: %s" % (where(), repr(e))):
                    return False
        elif name == "learn":
            if rng is None:
                return True  # nothing to learn yet
            m.learn_ranges()
            state = "L"
        elif name == "reset":
            m.reset_ranges()
            state, est, rng = "T", None, None
        elif name == "save":
            new = manager(case)
            # the mode is not part of the saved parameters
            sd = copy.deepcopy(m.state_dict())
            new.load_state_dict(sd)
            new.state = m.state
            if state == "L":
                new.learn_ranges()
            m = new
        elif name == "load":
            m.load_state_dict(copy.deepcopy(m.state_dict()))
        rec.check(m.quantizer.is_initialized == (rng is not None), key + ":initialised", where)
        if rng is not None:
            lo = torch.as_tensor(m.quantizer.x_max).detach().double().flatten()
            g = [np.asarray(a, dtype=np.float64) for a in ref_range(case["method"], rng[0], rng[1], case["bits"])]
            rec.check(mcrt.close(lo, torch.tensor(g[0] * g[2]).flatten().expand(lo.shape), 1e-3, 1e-6), key + ":range",
                      lambda: "%s: upper end of the range is %s instead of %s" % (where(), lo, g[0] * g[2]))
        rec.state(key, state, None if rng is None else [np.asarray(r).round(5).tolist() for r in rng])
        if rec.fails:
            return False
    rec.trace()
    return True


# ------------------------------------------------------------------ error-minimising ranges
def run_mse(case, rec):
    key = "mse:%s:%s" % (case["method"], case["mode"])
    per = case["mode"] == "channel"
    bits, cand = case["bits"], 12
    m = QuantizationManager(qmethod=QMethods.asymmetric_uniform if case["method"] == "asym" else QMethods.symmetric_uniform,
                            init=RangeEstimators.MSE, per_channel=per, qparams={"n_bits": bits},
                            init_params=dict(num_candidates=cand, opt_method=OptMethod.grid, range_margin=0.5))
    x = DATA[case["data"]].clone()
    m.train()
    y = m(x)
    rows = list(zip(x, y)) if per else [(x, y)]
    one_sided = float(x.min()) >= 0
    if case["method"] == "asym" and not one_sided:
        top = max(abs(float(x.max()) + 0.5), abs(float(x.min()) - 0.5))
        cands = []
        for c in range(1, cand + 1):
            half = top / cand * c
            delta = 2 * half / (2 ** bits - 1)
            for s in range(2 ** bits // 4):
                for sg in (1, -1):
                    cands.append((max(-half + sg * s * delta, float(x.min()) - 0.5), min(half + sg * s * delta, float(x.max()) + 0.5)))
    else:
        top = max(abs(float(x.min())), float(x.max())) + 0.5
        cands = [(0.0 if one_sided else -top / cand * c, top / cand * c) for c in range(1, cand + 1)]
    for r, (a, b) in enumerate(rows):
        loss = float(((a - b) ** 2).sum())
        best = min(float(((a.double().numpy() - np.clip(np.rint(a.double().numpy() / s), i0, i1) * s) ** 2).sum())
                   for s, i0, i1 in (ref_range(case["method"], lo, hi, bits) for lo, hi in cands))
        rec.check(loss <= best * (1 + 1e-3) + 1e-6, key + ":best", lambda: "data %s row %d: error %s, but a candidate range has %s" % (
            case["data"], r, loss, best))
        rec.step(len(cands))
    m.eval()
    z = m(x * 2)
    m.fix_ranges()
    m.train()
    rec.check(torch.equal(z, m(x * 2)), key + ":fixed", "range changes although it is fixed")
    rec.state(key, case["data"], bits, y)


# ------------------------------------------------------------------ quantized layer: weights are those of now
LOPS = ("train", "eval", "step", "fp", "qw", "fix", "load")


def run_layer(case, rec):
    key = "layer:%s" % case["method"]
    for word in itertools.product(LOPS, repeat=case["depth"]):
        if not layer_walk(case, word, key, rec):
            return


def layer_walk(case, word, key, rec):
    torch.manual_seed(1)
    lay = QuantLinear(4, 3, method=QMethods.asymmetric_uniform if case["method"] == "asym" else QMethods.symmetric_uniform,
                      n_bits=case["bits"], per_channel_weights=case["per"])
    with torch.no_grad():
        lay.weight.copy_(L.grid(3, 4, k=3))
        lay.bias.copy_(L.grid(3, k=4))
    lay.quantized_weights()
    lay.train()
    quant, state, rng, fresh = True, "T", None, True
    x = L.grid(2, 4, k=8)
    for n, op in enumerate(word):
        rec.step()
        where = lambda: "%s of %s" % (op, word[:n + 1])
        if op in ("step", "load"):
            if not lay.training:
                lay.train()
            with torch.no_grad():
                lay.weight.mul_(-1.5).add_(0.1)
            if op == "load":
                other = copy.deepcopy(lay)
                other.load_state_dict(lay.state_dict())
                lay = other
            continue
        if op == "fp":
            lay.full_precision_weights()
            quant = False
        elif op == "qw":
            lay.quantized_weights()
            quant = True
        elif op == "fix":
            lay.fix_ranges()
            if rng is not None:
                state = "F"
        else:
            lay.train(op == "train")
        w = lay.weight.detach().clone()
        if quant and state == "T" and lay.training:
            rng = minmax(w, "channel" if case["per"] else "tensor")
        if quant and rng is None:
            return True
        y = lay(x)
        if quant:
            g = [np.asarray(a, dtype=np.float64).reshape((3, 1) if case["per"] else (1, 1))
                 for a in ref_range(case["method"], rng[0], rng[1], case["bits"])]
            w = torch.tensor(np.clip(np.rint(w.double().numpy() / g[0]), g[1], g[2]) * g[0]).float()
        ref = x @ w.T + lay.bias.detach()
        tol = 1e-4
        if quant:  # ties may round either way
            k = lay.weight.detach().double().numpy() / g[0]
            if (np.abs(np.abs(k - np.floor(k)) - 0.5) < 1e-4).any():
                return True
        rec.check(mcrt.close(y.detach(), ref, tol, tol), key + ":output", lambda: "%s: %s instead of %s" % (where(), y.tolist(), ref.tolist()))
        rec.state(key, word[:n + 1], y)
        if rec.fails:
            return False
    rec.trace()
    return True


def run(case, rec):
    {"grid": run_grid, "words": run_words, "mse": run_mse, "layer": run_layer}[case["part"]](case, rec)
