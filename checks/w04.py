"""W04: what the training passes, the evaluation passes and the store see, along every history of
modification, clipping, decay and diffusion."""
import math

import torch

import mclib as L
import mcrng
import mcrt
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import FloatingPointRPUConfig, SingleRPUConfig
from aihwkit.simulator.configs.devices import FloatingPointDevice, IdealDevice
from aihwkit.simulator.parameters.enums import WeightModifierType as MT, WeightClipType as CT

RULE = ("modifier: case = tile (C++ inference, torch) x modifier type x parameter combination x weight "
        "matrix; below it every word over {train forward+backward, eval forward, post-update step, "
        "optimizer step with a known gradient, set_weights}; a state is (case, prefix); both effective "
        "matrices (forward, backward) are read out exactly through the layer and the noise is known from "
        "a twin with unit noise under the same seed. clip: type x sigma x fixed value x matrices x "
        "repetitions. decay / diffusion: device x rate x every word over {step without gradient, with "
        "zero gradient, with gradient}")
BOUNDS = {"quick": "words of length 3 (modifier), 3 (decay)", "thorough": "words of length 4 / 5, all "
          "parameter products"}
ASSUMPTIONS = ["perfect periphery, CPU", "distribution cases: 16384 weights, fixed seeds, 6-sigma "
               "acceptance", "float32, 1e-5"]

W = {"generic": [[0.31, -0.42, 0.13], [-0.27, 0.05, 0.22]],
     "edges": [[0.4, -0.4, 0.0], [0.1, -0.1, 0.2]],
     "zero": [[0.0, 0.0, 0.0], [0.0, 0.0, 0.0]],
     "row0": [[0.0, 0.0, 0.0], [0.7, -0.6, 0.4]],
     "big": [[1.7, -2.0, 0.6], [-0.3, 0.9, -1.1]]}
W2 = [[-0.11, 0.37, 0.21], [0.49, -0.33, -0.07]]
BIAS, BIAS2 = [0.83, -0.16], [-0.24, 0.61]
COEFFS = [0.1, -0.3, 0.7]


def mods(tier):
    """(type, parameters) per tile."""
    deep = tier == "thorough"
    ref = [dict(rel_to_actual_wmax=True), dict(rel_to_actual_wmax=False, assumed_wmax=0.8)]
    if deep:
        ref.append(dict(rel_to_actual_wmax=False, assumed_wmax=2.0))
    cpp, tor = [], []
    for r in ref:
        for std in (0.3,) + ((1.5,) if deep else ()):
            for t in ("MULT_NORMAL", "ADD_NORMAL"):
                cpp.append((t, dict(r, std_dev=std)))
                tor.append((t, dict(r, std_dev=std)))
            cpp.append(("POLY", dict(r, std_dev=std, coeffs=COEFFS)))
            cpp.append(("PROG_NOISE", dict(r, std_dev=40 * std, coeffs=COEFFS, g_max=20.0)))
            cpp.append(("DISCRETIZE_ADD_NORMAL", dict(r, std_dev=std, res=0.25)))
            cpp.append(("DISCRETIZE_ADD_NORMAL", dict(r, std_dev=std, res=0.0)))
        for res in (0.25,) + ((0.1, 0.5) if deep else ()):
            cpp.append(("DISCRETIZE", dict(r, res=res)))
            tor.append(("DISCRETIZE", dict(r, res=res)))
            for clip in (0.6, 1.1) if deep else (0.6,):
                cpp.append(("DOREFA", dict(r, res=res, dorefa_clip=clip)))
    cpp.append(("COPY", {}))
    cpp.append(("NONE", {}))
    tor.append(("NONE", {}))
    cpp.append(("DROP_CONNECT", dict(pdrop=0.4)))
    cpp.append(("COPY", dict(pdrop=0.4)))
    cpp.append(("DROP_CONNECT", dict(pdrop=1.0)))
    cpp.append(("ADD_NORMAL", dict(std_dev=0.3, pdrop=0.4)))
    cpp.append(("DISCRETIZE", dict(res=0.25, pdrop=0.4)))
    cpp.append(("ADD_NORMAL", dict(std_dev=0.0)))
    cpp.append(("DISCRETIZE", dict(res=0.0)))
    out = [("inference", t, p) for t, p in cpp]
    for t, p in cpp:
        if t not in ("NONE", "COPY") or p:
            out.append(("inference", t, dict(p, enable_during_test=True)))
    for t, p in cpp:
        if t in ("ADD_NORMAL", "MULT_NORMAL", "DISCRETIZE", "DROP_CONNECT", "POLY", "DOREFA"):
            out.append(("inference", t, dict(p, copy_last_column=True, bias=True)))
            if deep:
                out.append(("inference", t, dict(p, bias=True)))
                out.append(("inference", t, dict(p, copy_last_column=True, bias=True,
                                                 enable_during_test=True)))
    out.append(("inference", "ADD_NORMAL", dict(std_dev=0.3, bias=True)))
    for t, p in tor:
        out.append(("torch", t, p))
        if t != "NONE":
            out.append(("torch", t, dict(p, per_batch_sample=True)))
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for tile, t, p in mods(tier):
        for w in (tuple(W) if deep else ("generic", "edges", "zero")):
            out.append(dict(kind="mod", tile=tile, type=t, par=p, w=w, depth=4 if deep else 3))
    for tile, t, p in mods("quick"):
        if p.get("pdrop") or p.get("std_dev") or p.get("res"):
            if not p.get("bias") and not p.get("enable_during_test"):
                out.append(dict(kind="stat", tile=tile, type=t, par=p))
                if t in ("DISCRETIZE", "DOREFA"):
                    out.append(dict(kind="stat", tile=tile, type=t, par=dict(p, sto_round=True)))
    for tile in ("inference", "torch"):
        for res in (0.5, 0.25, 0.125):
            out.append(dict(kind="grid", tile=tile, type="DISCRETIZE",
                            par=dict(res=res, rel_to_actual_wmax=False, assumed_wmax=1.0)))
    for nd in (1, 2, 3):
        for pbs in (False, True):
            for t, p in (("ADD_NORMAL", dict(std_dev=0.2)), ("DISCRETIZE", dict(res=0.25)),
                         ("MULT_NORMAL", dict(std_dev=0.2))):
                out.append(dict(kind="dims", type=t, par=dict(p, per_batch_sample=pbs), nd=nd))
    for tile in ("inference", "torch"):
        for t in ("FIXED_VALUE", "LAYER_GAUSSIAN", "AVERAGE_CHANNEL_MAX", "NONE"):
            if tile == "torch" and t == "AVERAGE_CHANNEL_MAX":
                continue
            for fixed in (-1.0, 0.0, 0.2, 0.4, 1.0):
                for sigma in ((0.5, 1.0, 2.5) if t == "LAYER_GAUSSIAN" else (2.5,)):
                    for w in W:
                        out.append(dict(kind="clip", tile=tile, type=t, fixed=fixed, sigma=sigma,
                                        w=w))
                    out.append(dict(kind="clip", tile=tile, type=t, fixed=fixed, sigma=sigma,
                                    w="1x1"))
                    if t != "LAYER_GAUSSIAN":  # undefined for zero deviation
                        out.append(dict(kind="clip", tile=tile, type=t, fixed=fixed, sigma=sigma,
                                        w="const"))
    for dev in ("fp", "ideal") + tuple(L.SIMPLE_DEVICES):
        for life in (0.0, 1.0, 2.0, 10.0, 1000.0):
            out.append(dict(kind="decay", dev=dev, life=life, depth=5 if deep else 3))
        for rate in (0.0, 0.01, 0.1):
            out.append(dict(kind="diff", dev=dev, rate=rate))
    return out


# ------------------------------------------------------------------ modifier
def layer_for(case, w, bias=None):
    cfg = {"inference": L.cfg_inference, "torch": L.cfg_torch}[case["tile"]]()
    L.plain_mapping(cfg, digital_bias=bias is None)
    m = cfg.modifier
    m.type = MT[case["type"]]
    for k, v in case["par"].items():
        if k != "bias":
            assert hasattr(m, k), k
            setattr(m, k, v)
    lay = AnalogLinear(len(w[0]), len(w), bias=bias is not None, rpu_config=cfg)
    put(lay, w, bias)
    return lay


def put(lay, w, bias):
    lay.set_weights(torch.tensor(w), None if bias is None else torch.tensor(bias))


def full(w, bias):
    w = torch.as_tensor(w, dtype=torch.float32)
    return w if bias is None else torch.cat([w, torch.as_tensor(bias)[:, None]], 1)


def read(lay, o, i, pbs=False):
    """(forward matrix, backward matrix) the layer uses in its present mode in one pass."""
    x = torch.cat([torch.eye(i), torch.zeros(o, i)]).requires_grad_(lay.training)
    y = lay(x)
    d = y.detach()
    has_bias = getattr(next(iter(lay.analog_tiles())), "analog_bias", False)
    base = d[-1] if has_bias else torch.zeros(o)
    fwd = (d[:i] - base).T
    if has_bias:
        fwd = torch.cat([fwd, base[:, None]], 1)
    bwd = None
    if lay.training:
        y.backward(torch.cat([torch.zeros(i, o), torch.eye(o)]))
        bwd = x.grad[i:]
    return fwd, bwd


def grid_step(case, amax):
    r = case["par"].get("res", 0.0)
    return 2 * amax * r if case["tile"] == "torch" else amax * r


def amax_of(case, w, bias):
    p = case["par"]
    if not p.get("rel_to_actual_wmax", True):
        return p.get("assumed_wmax", 1.0)
    src = w if p.get("copy_last_column") else full(w, bias)
    a = float(torch.as_tensor(src).abs().max())
    return a if a > 0 or case["tile"] == "torch" else 1.0


class Modified:
    """The modified matrix as a predicate: value known exactly or known up to the rounding rule."""

    def __init__(self, case, w, bias, g):
        self.case, self.p = case, case["par"]
        wf = full(w, bias).double()
        t, p = case["type"], self.p
        a = amax_of(case, torch.as_tensor(w), bias)
        std = p.get("std_dev", 0.0)
        g = torch.as_tensor(g).double() if g is not None else torch.ones_like(wf)
        self.drop = (g == 0) if p.get("pdrop") else torch.zeros_like(wf, dtype=torch.bool)
        self.step, self.noise, self.target = 0.0, torch.zeros_like(wf), wf
        if t == "ADD_NORMAL":
            self.target = wf + a * std * g
        elif t == "MULT_NORMAL":
            self.target = wf + wf * std * g * (a if case["tile"] == "inference" else 1.0)
        elif t in ("POLY", "PROG_NOISE"):
            s = sum(c * (wf.abs() / a) ** j for j, c in enumerate(p["coeffs"])) * a * std
            if t == "POLY":
                self.target = wf + s * g
            else:
                v = (wf + s / p["g_max"] * g).abs()
                self.target = torch.where(wf < 0, -v, v)
        elif t in ("DISCRETIZE", "DISCRETIZE_ADD_NORMAL"):
            self.step = grid_step(case, a)
            self.noise = a * std * g if t == "DISCRETIZE_ADD_NORMAL" else self.noise
        elif t == "DOREFA":
            self.step = p["res"]
            self.target = torch.tanh(wf) * abs(p["dorefa_clip"] / math.tanh(a))
        self.keep = torch.zeros_like(wf, dtype=torch.bool)
        if p.get("copy_last_column"):
            self.keep[:, -1] = True
        self.orig = wf

    def bad(self, m, cols=None):
        """Text of the first entry of matrix `m` that is not as configured (or None)."""
        m = m.double()
        for r in range(m.shape[0]):
            for c in range(m.shape[1]):
                v, o = float(m[r, c]), float(self.orig[r, c])
                if self.keep[r, c]:
                    ok, e = abs(v - o) < 1e-5, o
                elif self.drop[r, c]:
                    ok, e = v == 0.0, 0.0
                elif self.step > 0:
                    e = float(self.target[r, c])
                    q = (v - float(self.noise[r, c])) / self.step
                    ok = abs(q - round(q)) < 2e-4 and abs(q * self.step - e) <= self.step * .5 + 2e-4
                else:
                    e = float(self.target[r, c] + self.noise[r, c])
                    ok = abs(v - e) < 1e-5 + 1e-5 * abs(e)
                if not ok:
                    return "entry (%d,%d): stored %.5f, expected %.5f (step %.4f, noise %.5f), used " \
                           "%.5f" % (r, c, o, e, self.step, float(self.noise[r, c]), v)
        return None


GAUSS = ("ADD_NORMAL", "MULT_NORMAL", "POLY", "PROG_NOISE", "DISCRETIZE_ADD_NORMAL")


def unit_noise(case, shape, n, seed):
    """Raw noise matrices of the first n modifications of the C++ tile under `seed`."""
    p = case["par"]
    gauss = case["type"] in GAUSS and p.get("std_dev", 0.0) > 0
    twin = dict(tile="inference", type="ADD_NORMAL" if gauss else "DROP_CONNECT",
                par=dict(std_dev=1.0, rel_to_actual_wmax=False, assumed_wmax=1.0,
                         pdrop=p.get("pdrop", 0.0)))
    fill = 0.0 if gauss else 1.0
    lay = layer_for(twin, [[fill] * shape[1]] * shape[0])
    lay.train()
    tile = next(iter(lay.analog_tiles()))
    out = []
    mcrng.reset(seed)
    for _ in range(n):
        tile.post_update_step()
        out.append(read(lay, *shape)[0])
    return out


def torch_noise(case, shape, batch, seed):
    torch.manual_seed(seed)
    p = case["par"]
    return torch.randn((batch,) + shape if p.get("per_batch_sample") else shape)


def run_mod(case, rec):
    p = case["par"]
    bias = BIAS if p.get("bias") else None
    w0 = W[case["w"]]
    o, i = len(w0), len(w0[0])
    cpp = case["tile"] == "inference"
    noise = unit_noise(case, (o, i + (bias is not None)), case["depth"], 3) if cpp else None
    active = case["type"] != "NONE" and not (case["type"] == "COPY" and not p.get("pdrop"))
    key0 = "%s:%s%s" % (case["tile"], case["type"], "".join(
        ":" + k for k in ("copy_last_column", "per_batch_sample", "enable_during_test") if p.get(k)))
    seen = set()
    for word in L.words("TEPUS", case["depth"]):
        mcrng.reset(3)
        lay = layer_for(case, w0, bias)
        tile = next(iter(lay.analog_tiles()))
        opt = AnalogSGD(lay.parameters(), lr=0.1)
        opt.regroup_param_groups()
        mcrng.reset(3)
        w, b = torch.tensor(w0), None if bias is None else torch.tensor(bias)
        nmod, cur = 0, None           # number of modifications so far, current modified matrix
        hist = ""
        for op in word:
            hist += op
            new = hist not in seen
            seen.add(hist)
            if op == "S":
                w, b = torch.tensor(W2), None if bias is None else torch.tensor(BIAS2)
                put(lay, W2, None if bias is None else BIAS2)
                cur = None
            elif op == "P":
                tile.post_update_step()
                if active and cpp:
                    cur = Modified(case, w, b, noise[nmod])
                    nmod += 1
            elif op == "U":
                lay.train()
                opt.zero_grad()
                x = torch.tensor([[0.3, -0.2, 0.5]])
                g = torch.tensor([[0.4, -0.6]])
                y = lay(x)
                y.backward(g)
                opt.step()
                opt.zero_grad()
                w = w - 0.1 * g.T @ x
                b = None if b is None else b - 0.1 * g[0]
                if active and cpp:
                    cur = Modified(case, w, b, noise[nmod])
                    nmod += 1
            elif op in "TE":
                (lay.train if op == "T" else lay.eval)()
                if cpp:
                    exp = cur if op == "T" or p.get("enable_during_test") else None
                    f, bw = read(lay, o, i)
                    exps = (exp, exp)
                    if exp is None:
                        exps = (Modified(dict(case, type="NONE", par={}), w, b, None),) * 2
                    mf, mb = f, bw
                elif op == "E" or not active:
                    f, bw = read(lay, o, i)
                    exps = (Modified(dict(case, type="NONE", par={}), w, b, None),) * 2
                    mf, mb = f, bw
                else:
                    g = torch_noise(case, (o, i), o + i, 77 + len(hist))
                    torch.manual_seed(77 + len(hist))
                    f, bw = read(lay, o, i)
                    if p.get("per_batch_sample"):
                        gf = torch.stack([g[k][:, k] for k in range(i)], 1)
                        gb = torch.stack([g[i + k][k] for k in range(o)])
                        exps = (Modified(case, w, b, gf), Modified(case, w, b, gb))
                    else:
                        exps = (Modified(case, w, b, g),) * 2
                    mf, mb = f, bw
                opt.zero_grad()
                rec.step(1)
                if new:
                    why = exps[0].bad(mf)
                    what = "train" if op == "T" else "eval"
                    after = "after-set" if "S" in hist and not hist[hist.rfind("S"):].count("P") \
                        and not hist[hist.rfind("S"):].count("U") else "plain"
                    rec.check(why is None, "%s:%s-forward:%s" % (key0, what, after),
                              lambda: "history %s: %s" % (hist, why))
                    if op == "T":
                        why2 = exps[1].bad(mb) if bias is None else None
                        if bias is not None:
                            e = exps[1]
                            full_b = torch.cat([mb, mf[:, -1:]], 1)
                            why2 = e.bad(full_b)
                        rec.check(why2 is None, "%s:train-backward:%s" % (key0, after),
                                  lambda: "history %s: %s" % (hist, why2))
            if new:
                gw, gb_ = lay.get_weights()
                rec.check(mcrt.close(gw, w, 1e-5, 1e-6), "%s:stored" % key0,
                          lambda: "history %s: stored weights %s, expected %s" % (
                              hist, gw.tolist(), w.tolist()))
                if b is not None:
                    rec.check(mcrt.close(gb_, b, 1e-5, 1e-6), "%s:stored-bias" % key0,
                              lambda: "history %s: stored bias %s, expected %s" % (
                                  hist, gb_.tolist(), b.tolist()))
                rec.state("mod", str(case), hist)
            if rec.fails:
                return
        rec.trace()


def run_grid(case, rec):
    """Documentation: the inverse of res is the number of equal steps over [-amax, amax]."""
    w = torch.linspace(-1, 1, 401)[None, :]
    lay = layer_for(case, w.tolist())
    lay.train()
    next(iter(lay.analog_tiles())).post_update_step()
    with torch.no_grad():
        m = lay(torch.eye(401)).T
    vals = sorted(set(round(v, 4) for v in m.flatten().tolist()))
    rec.step(1)
    rec.state("grid", str(case))
    gaps = [b - a for a, b in zip(vals, vals[1:])]
    rec.check(max(gaps) - min(gaps) < 1e-3, "step-equal:" + case["tile"], lambda: str(vals))
    n = round((vals[-1] - vals[0]) / max(gaps))
    rec.check(n == round(1 / case["par"]["res"]), "step-doc:" + case["tile"],
              lambda: "res=%g gives %d equal steps over the weight range, documented are 1/res = %d"
              % (case["par"]["res"], n, round(1 / case["par"]["res"])))
    rec.trace()


def run_dims(case, rec):
    """Inputs of any dimension: each output row comes from an admissible modified matrix."""
    case = dict(case, tile="torch", w="generic")
    w = W["generic"]
    lay = layer_for(case, w)
    lay.train()
    x = L.grid(*{1: (3,), 2: (4, 3), 3: (2, 5, 3)}[case["nd"]], k=2)
    torch.manual_seed(5)
    y = lay(x)
    rec.step(1)
    rec.check(tuple(y.shape) == tuple(x.shape[:-1]) + (2,), "dims:shape:%s" % case["type"],
              lambda: "input %s gives output %s" % (tuple(x.shape), tuple(y.shape)))
    if case["type"] == "DISCRETIZE":
        a = amax_of(case, torch.tensor(w), None)
        s = grid_step(case, a)
        q = torch.round(torch.tensor(w) / s) * s
        rec.check(mcrt.close(y.detach(), x @ q.T, 1e-5, 1e-5), "dims:value:%s" % case["type"],
                  lambda: "%s expected %s" % (y.tolist(), (x @ q.T).tolist()))
    else:
        pbs, nd = case["par"]["per_batch_sample"], case["nd"]
        d = (y.detach() - x @ torch.tensor(w).T)
        rec.check(float(d.abs().max()) > 1e-4, "dims:noise:%s" % case["type"], "no noise at all")
        if pbs and nd > 1:
            # same input in different samples -> different noise; without it -> the same
            x2 = x.clone()
            x2[1] = x2[0]
            y2 = lay(x2)
            rec.check(not mcrt.close(y2[0].detach(), y2[1].detach(), 1e-5, 1e-6),
                      "dims:per-sample:%s" % case["type"], "two samples got the same noise")
        if not pbs and nd > 1:
            x2 = x.clone()
            x2[1] = x2[0]
            y2 = lay(x2)
            rec.check(mcrt.close(y2[0].detach(), y2[1].detach(), 1e-5, 1e-6),
                      "dims:one-matrix:%s" % case["type"], "two samples saw different weights")
    y.sum().backward()
    rec.state("dims", str(case))
    rec.trace()


def run_stat(case, rec):
    """Distribution of the modification over 16384 weights."""
    n = 128
    p = case["par"]
    if p.get("per_batch_sample"):
        raise mcrt.Skip("distribution of one matrix")
    levels = torch.tensor([-0.37, -0.11, 0.03, 0.29])
    w = levels[torch.arange(n * n) % 4].reshape(n, n)
    w[0, 0] = 0.4
    case = dict(case, w="stat")
    mcrng.reset(9)
    lay = layer_for(case, w.tolist())
    lay.train()
    tile = next(iter(lay.analog_tiles()))
    mcrng.reset(9)
    tile.post_update_step()
    with torch.no_grad():
        m1 = (lay(torch.eye(n))).T.clone()
        m1b = lay(torch.eye(n)).T.clone()
    tile.post_update_step()
    with torch.no_grad():
        m2 = lay(torch.eye(n)).T.clone()
    rec.step(3)
    rec.state("stat", str(case))
    key = "stat:%s:%s%s" % (case["tile"], case["type"], ":sto" if p.get("sto_round") else "")
    if case["tile"] == "inference":
        rec.check(mcrt.close(m1, m1b, 1e-6, 1e-6), key + ":stable", "weights change between passes")
    rand = p.get("std_dev", 0) > 0 or 0 < p.get("pdrop", 0) < 1 or p.get("sto_round")
    rec.check(mcrt.close(m1, m2, 1e-6, 1e-6) != bool(rand), key + ":resampled",
              "a second modification %s" % ("repeats the first" if rand else "differs"))
    a = amax_of(case, w, None)
    std = p.get("std_dev", 0.0)
    pd = p.get("pdrop", 0.0)
    if pd:
        # weights that are not rounded to zero anyway
        big = (w.abs() > 0.2) if p.get("res") else w.abs() > 0
        f = float((m1[big] == 0).double().mean())
        rec.check(abs(f - pd) < 9 * math.sqrt(pd * (1 - pd) / n / n) + 1e-9 and
                  (pd < 1 or f == 1), key + ":drop",
                  lambda: "dropped fraction %.4f, configured %.4f" % (f, pd))
    for lv in levels.tolist():
        sel = (w == torch.tensor(lv)).clone()
        sel[0, 0] = False
        if pd:
            if p.get("res") and abs(lv) < 0.2:
                continue
            sel &= m1 != 0
        v = m1[sel].double()
        k = len(v)
        if k < 100:
            continue
        ref = mean = lv
        if case["type"] == "ADD_NORMAL":
            s = a * std
        elif case["type"] == "MULT_NORMAL":
            s = abs(lv) * std * (a if case["tile"] == "inference" else 1)
        elif case["type"] in ("POLY", "PROG_NOISE"):
            s = abs(sum(c * (abs(lv) / a) ** j for j, c in enumerate(p["coeffs"]))) * a * std
            if case["type"] == "PROG_NOISE":
                s /= p["g_max"]
                rec.check(bool((v * (1 if lv > 0 else -1) >= 0).all()), key + ":sign",
                          "a modified weight changes its sign")
                # folded normal
                z = abs(lv) / s
                phi = .5 * (1 + math.erf(z / math.sqrt(2)))
                mu = s * math.sqrt(2 / math.pi) * math.exp(-z * z / 2) + abs(lv) * (2 * phi - 1)
                s2 = lv * lv + s * s - mu * mu
                mean, s = math.copysign(mu, lv), math.sqrt(max(s2, 0))
        else:
            st = grid_step(case, a) if case["type"] != "DOREFA" else p["res"]
            if case["type"] == "DOREFA":
                ref = math.tanh(lv) * abs(p["dorefa_clip"] / math.tanh(a))
            mean = ref
            if st > 0 and p.get("sto_round"):
                fr = ref / st - math.floor(ref / st)
                s = st * math.sqrt(fr * (1 - fr))
                rec.check(bool(((v - ref).abs() <= st * 1.0001).all()) and
                          bool(((v / st - (v / st).round()).abs() < 1e-3).all()),
                          key + ":neighbours", lambda: "level %g rounds to %s (step %g)" % (
                              ref, sorted(set(v.tolist()))[:6], st))
            elif st > 0:
                q = round(ref / st) * st
                mean, s = q, 0.0
            else:
                s = 0.0
            s = math.hypot(s, a * std)
        rec.check(abs(float(v.mean()) - mean) < 6 * s / math.sqrt(k) + 1e-4, key + ":mean",
                  lambda: "level %g: mean %.5f, expected %.5f" % (lv, float(v.mean()), mean))
        rec.check(abs(float(v.std()) - s) < 6 * s / math.sqrt(k) + 1e-4, key + ":std",
                  lambda: "level %g: std %.5f, expected %.5f" % (lv, float(v.std()), s))
    rec.trace()


# ------------------------------------------------------------------ clip
def clip_value(t, w, fixed, sigma):
    if t == "NONE":
        return None
    if t == "FIXED_VALUE":
        return fixed if fixed >= 0 else None
    elif t == "LAYER_GAUSSIAN":
        if w.numel() < 2:
            return fixed if fixed > 0 else None
        v = float(w.double().std()) * sigma
    else:
        v = float(w.abs().max(1)[0].mean())
    if t != "FIXED_VALUE" and fixed > 0:
        v = min(v, fixed)
    return v if v > 0 else None


def run_clip(case, rec):
    w = [[0.6]] if case["w"] == "1x1" else [[0.3] * 3] * 2 if case["w"] == "const" else W[case["w"]]
    cfg = {"inference": L.cfg_inference, "torch": L.cfg_torch}[case["tile"]]()
    L.plain_mapping(cfg)
    cfg.clip.type = CT[case["type"]]
    cfg.clip.fixed_value = case["fixed"]
    cfg.clip.sigma = case["sigma"]
    lay = AnalogLinear(len(w[0]), len(w), bias=False, rpu_config=cfg)
    put(lay, w, None)
    opt = AnalogSGD(lay.parameters(), lr=0.1)
    opt.regroup_param_groups()
    cur = torch.tensor(w)
    tile = next(iter(lay.analog_tiles()))
    for n, op in enumerate("PPUPUU"):
        if op == "U":
            x, g = torch.full((1, cur.shape[1]), 0.9), torch.full((1, cur.shape[0]), -0.8)
            x[0, 0] = -0.5
            opt.zero_grad()
            lay.train()
            lay(x).backward(g)
            opt.step()
            cur = cur - 0.1 * g.T @ x
        else:
            tile.post_update_step()
        rec.step(1)
        c = clip_value(case["type"], cur, case["fixed"], case["sigma"])
        exp = cur if c is None else cur.clamp(-c, c)
        got = lay.get_weights()[0]
        key = "clip:%s:%s" % (case["tile"], case["type"])
        if not rec.check(mcrt.close(got, exp, 1e-5, 1e-6), key,
                         lambda: "step %d (%s): weights %s bound %s -> %s" % (
                             n, op, cur.tolist(), c, got.tolist())):
            return
        rec.state("clip", str(case), n)
        lay.eval()
        y = lay(torch.eye(cur.shape[1])).T.detach()
        rec.check(mcrt.close(y, exp, 1e-5, 1e-6), key + ":used", "the forward pass uses other weights")
        cur = got.clone()
    rec.trace()


# ------------------------------------------------------------------ decay, diffusion
def dev_cfg(dev, **kw):
    if dev == "fp":
        d = FloatingPointDevice()
        cfg = FloatingPointRPUConfig(device=d)
    elif dev == "ideal":
        d = IdealDevice()
        cfg = SingleRPUConfig(device=d)
    else:
        d = L.quiet(L.SIMPLE_DEVICES[dev](construction_seed=7))
        cfg = SingleRPUConfig(device=d)
    for k, v in kw.items():
        assert hasattr(d, k), (dev, k)
        setattr(d, k, v)
    L.plain_mapping(cfg)
    if dev != "fp":
        cfg.forward.is_perfect = True
        cfg.backward.is_perfect = True
    return cfg


def run_decay(case, rec):
    dev, life = case["dev"], case["life"]
    scale = 1 - 1 / life if life > 1 else 1.0
    pulsed = dev not in ("fp", "ideal")
    ops = "NZ" if pulsed else "NZG"
    w0 = [[0.31, -0.42, 0.13], [-0.27, 0.05, 0.22]]
    for word in L.words(ops, case["depth"]):
        mcrng.reset(4)
        lay = AnalogLinear(3, 2, bias=False, rpu_config=dev_cfg(dev, lifetime=life))
        put(lay, w0, None)
        opt = AnalogSGD(lay.parameters(), lr=0.1)
        opt.regroup_param_groups()
        cur = lay.get_weights()[0]
        lo = hi = b = None
        if pulsed:
            hp = next(iter(lay.analog_tiles())).get_hidden_parameters()
            b, lo, hi = hp.get("reset_bias"), hp["min_bound"], hp["max_bound"]
            if life == 1.0:
                # the weight forgets everything within one step
                scale = 0.0 if float(hp["decay_scales"].max()) == 0.0 else 1.0
        for n, op in enumerate(word):
            opt.zero_grad()
            upd = torch.zeros(2, 3)
            if op != "N":
                lay.train()
                x, g = torch.tensor([[0.3, -0.2, 0.5]]), torch.tensor([[0.4, -0.6]])
                if op == "Z":
                    g = g * 0
                lay(x).backward(g)
                upd = -0.1 * g.T @ x
            opt.step()
            rec.step(1)
            bb = torch.zeros(2, 3) if b is None else b
            exps = [(cur + upd - bb) * scale + bb, (cur - bb) * scale + bb + upd]
            if lo is not None:
                exps = [torch.minimum(torch.maximum(e, lo), hi) for e in exps]
            got = lay.get_weights()[0]
            if not rec.check(any(mcrt.close(got, e, 1e-5, 1e-6) for e in exps), "decay:" + dev,
                             lambda: "lifetime %g, %s: %s -> %s, expected %s" % (
                                 life, word[:n + 1], cur.tolist(), got.tolist(), exps[0].tolist())):
                return
            rec.state("decay", str(case), word[:n + 1])
            cur = got
        rec.trace()


def run_diff(case, rec):
    dev, rate = case["dev"], case["rate"]
    n = 64

    def go(r, seed, w):
        mcrng.reset(seed)
        lay = AnalogLinear(n, n, bias=False, rpu_config=dev_cfg(dev, diffusion=r))
        lay.set_weights(torch.full((n, n), w))
        opt = AnalogSGD(lay.parameters(), lr=0.1)
        opt.regroup_param_groups()
        out = [lay.get_weights()[0].clone()]
        for _ in range(3):
            opt.step()
            out.append(lay.get_weights()[0].clone())
        rec.step(3)
        return [b - a for a, b in zip(out, out[1:])]

    d1, d2, dw = go(rate, 5, 0.0), go(2 * rate, 5, 0.0), go(rate, 5, 0.05)
    rec.state("diff", str(case))
    key = "diffusion:" + dev
    if rate == 0:
        rec.check(all(float(d.abs().max()) == 0 for d in d1 + dw), key + ":off", "weights move")
        return
    free = [(d.abs() < 1e9) for d in d1]
    for k in range(3):
        s = float(d1[k].double().std())
        m = float(d1[k].double().mean())
        if rate <= 0.01:
            rec.check(mcrt.close(2 * d1[k], d2[k], 1e-3, 1e-5), key + ":linear",
                      "twice the rate does not give twice the step")
            rec.check(mcrt.close(d1[k], dw[k], 1e-3, 1e-5), key + ":additive",
                      "the step depends on the weight")
            rec.check(abs(s - rate) < 6 * rate / n and abs(m) < 6 * rate / n, key + ":size",
                      lambda: "step %d: mean %.5f std %.5f, configured %g" % (k, m, s, rate))
        if k:
            rec.check(not mcrt.close(d1[k], d1[0], 1e-3, 1e-5), key + ":fresh",
                      "two steps use the same numbers")
    rec.trace()


def run(case, rec):
    {"mod": run_mod, "dims": run_dims, "stat": run_stat, "clip": run_clip, "decay": run_decay,
     "diff": run_diff, "grid": run_grid}[case["kind"]](case, rec)
