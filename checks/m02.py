"""M02: every noise source of the analog product adds its documented term with its configured strength."""
import itertools

import numpy as np
import torch

import mcrng
import mcrt
import m01 as M
from aihwkit.simulator.configs import BoundManagementType as B, NoiseManagementType as N
from aihwkit.simulator.parameters.enums import AnalogMVType as MV, WeightNoiseType as WN

RULE = ("case = tile and direction x kind of product x one noise source or a pair of sources; below it all strengths x "
        "noise management x output scale x ADC bound x enumerated values of the normal draw at construction and at run "
        "time (constant draws, so that every term is a closed formula) x inputs, in a batch and one by one; then "
        "user-set per-output parameters, then the actual stream of draws: independence between outputs, rows and calls "
        "and the moments of 16384 draws; stochastic rounding with all values of the uniform draw. A state is (settings, "
        "draws, outputs)")
BOUNDS = {"quick": "all single sources, pairs of sources with one strength; 3 construction draws x 4 run-time draws",
          "thorough": "all pairs of sources x 2 strengths each; 4 construction draws x 8 run-time draws"}
ASSUMPTIONS = ["converters off except for stochastic rounding (M01)", "the IR drop formula is taken from the code's "
               "comment; which end of the column is far away is not judged",
               "inp_asymmetry is only judged for the separate-pass products it is documented for"]

X = [[0.3, -0.7, 1.0], [-0.4, 0.2, -0.1], [1.3, 0.9, 0.05], [0.0, 0.0, 0.6], [-1.0, -0.5, -0.25], [0.0, 0.0, 0.0]]
W = [[0.41, -0.23, 0.57], [-0.31, 0.6, 0.12]]

# name -> list of strengths (fields)
SOURCES = {
    "out_noise": [dict(out_noise=0.3), dict(out_noise=0.06)],
    "out_noise_std": [dict(out_noise=0.2, out_noise_std=0.4), dict(out_noise=0.2, out_noise_std=0.1)],
    "inp_noise": [dict(inp_noise=0.2), dict(inp_noise=0.03)],
    "w_noise_add": [dict(w_noise=0.15, w_noise_type=WN.ADDITIVE_CONSTANT), dict(w_noise=0.02, w_noise_type=WN.ADDITIVE_CONSTANT)],
    "w_noise_pcm": [dict(w_noise=0.15, w_noise_type=WN.PCM_READ), dict(w_noise=0.02, w_noise_type=WN.PCM_READ)],
    "nonlinearity": [dict(out_nonlinearity=0.4, out_nonlinearity_std=0.3), dict(out_nonlinearity=0.2)],
    "slope": [dict(out_nonlinearity=0.4, slope_calibration=0.5), dict(out_nonlinearity=0.3, r_series=0.1, slope_calibration=0.7)],
    "v_offset": [dict(v_offset_std=0.2, v_offset_w_min=-1.0), dict(v_offset_std=0.1, v_offset_w_min=0.0)],
    "r_series": [dict(r_series=0.15, v_offset_w_min=0.0), dict(r_series=0.1, v_offset_w_min=-1.0)],
    "v_offset_r": [dict(v_offset_std=0.2, r_series=0.1, v_offset_w_min=-1.0), dict(v_offset_std=0.2, r_series=0.1, v_offset_w_min=0.0)],
    "read_asym": [dict(w_read_asymmetry_dtod=0.3), dict(w_read_asymmetry_dtod=0.1)],
    "inp_asym": [dict(inp_asymmetry=0.2), dict(inp_asymmetry=-0.1)],
    "ir_drop": [dict(ir_drop=0.5), dict(ir_drop=1.0, ir_drop_g_ratio=2.0)],
}
TORCH = ("out_noise", "out_noise_std", "inp_noise")
BASE = dict(inp_bound=1.0, inp_res=-1.0, out_bound=0.0, out_res=-1.0, out_noise=0.0, inp_noise=0.0,
            noise_management=N.NONE, bound_management=B.NONE)
OFF = {"r_series": 0.0, "ir_drop": 0.0, "out_nonlinearity": 0.0, "v_offset_std": 0.0, "w_read_asymmetry_dtod": 0.0,
       "inp_asymmetry": 0.0, "w_noise": 0.0, "slope_calibration": 0.0, "out_noise_std": 0.0,
       "out_nonlinearity_std": 0.0, "ir_drop_g_ratio": 1.0 / 0.35 / 5e-6, "v_offset_w_min": -1.0}


def usable(tile, mv, name):
    if tile.startswith("torch"):
        return name in TORCH
    if name == "inp_asym" or name == "read_asym":
        return mv != "ONE_PASS"
    return True


def clash(a, b):
    ka, kb = set(SOURCES[a][0]) | set(SOURCES[a][1]), set(SOURCES[b][0]) | set(SOURCES[b][1])
    return bool(ka & kb)


def cases(tier):
    deep = tier == "thorough"
    for tile in ("single", "single-bwd", "inference", "torch"):
        for mv in ("ONE_PASS", "POS_NEG_SEPARATE", "POS_NEG_SEPARATE_DIGITAL_SUM"):
            if tile == "torch" and mv != "ONE_PASS":
                continue
            names = [n for n in SOURCES if usable(tile, mv, n)]
            for n in names:
                yield dict(kind="term", tile=tile, mv=mv, src=[n], deep=deep)
            if tile == "inference" and not deep:
                continue
            for a, b in itertools.combinations(names, 2):
                if not clash(a, b):
                    yield dict(kind="term", tile=tile, mv=mv, src=[a, b], deep=deep)
    for tile in ("single", "single-bwd", "inference", "torch"):
        yield dict(kind="user", tile=tile)
        yield dict(kind="perfect", tile=tile)
        yield dict(kind="asymdoc", tile=tile)
        for n in ("out_noise", "out_noise_std", "inp_noise", "w_noise_add", "w_noise_pcm"):
            if usable(tile, "ONE_PASS", n):
                yield dict(kind="stream", tile=tile, src=n)
        yield dict(kind="round", tile=tile, deep=deep)


# ---------------------------------------------------------------- building under owned draws
def make(tile, io, w, kc):
    mcrng.reset(3)
    mcrng.const(kc)
    if tile == "single-bwd":
        t = M.make("single", np.array(w).T.tolist(), bwd=io)
        f = lambda x: t.backward(x)
    else:
        t = M.make(tile, w, fwd=io)
        f = lambda x: t.joint_forward(x)
    mcrng.const(kc)

    def run(x):
        with torch.no_grad():
            return f(torch.tensor(x, dtype=torch.float32))
    run.tile = t
    return run


_g = {}


def gauss(tile, k):
    """the value of a normal draw when rand() is the constant k (core tiles)"""
    key = (tile, k)
    if key not in _g:
        r = make(tile, M.io_of(**dict(BASE, out_noise=1.0)), [[0.0, 0.0], [0.0, 0.0]], 1)
        mcrng.const(k)
        y = r([[1.0, 0.5]])
        assert abs(float(y[0, 0] - y[0, 1])) < 1e-7
        _g[key] = float(y[0, 0])
    return _g[key]


def draws(tile, n):
    """constants whose normal draw is spread out: negative, positive, large, small"""
    ks = sorted(range(1, 400), key=lambda k: gauss(tile, k))
    idx = [int(i) for i in np.linspace(15, len(ks) - 16, n)]
    return [ks[i] for i in idx]


# ---------------------------------------------------------------- the model
def finalize(y, p, user, gr):
    n = user["nl"]
    y = user["factor"] * y / (1 + np.abs(n * y))
    y = y + user["std"] * gr
    ob = p["out_bound"] if p["out_bound"] > 0 else np.inf
    return np.clip(y, -ob, ob)


def one_pass(w, x, p, user, gr):
    y = w @ x
    if p["ir_drop"] > 0:
        n = len(x)
        a = n / p["ir_drop_g_ratio"] * (np.abs(w) @ np.abs(x))
        c = a * (a * (0.05 * a - 0.2) + 0.5)
        q = 1 - np.arange(n) / n
        y = y - p["ir_drop"] * c * (w @ (x * (1 - q * q)))
    if p["v_offset_std"] > 0 or p["r_series"] > 0:
        v, rs = user["v"], p["r_series"]
        ref = -p["v_offset_w_min"] * x.sum()
        y = (1 - v) * (y + ref) / (1 + rs * np.abs(y + ref)) - (1 + v) * ref / (1 + rs * np.abs(ref))
    if p["w_noise"] > 0:
        if p["w_noise_type"] == WN.ADDITIVE_CONSTANT:
            y = y + p["w_noise"] * np.sqrt((x * x).sum()) * gr
        else:
            y = y + p["w_noise"] * np.sqrt(np.abs(w) @ (x * x)) * gr
    return y


def instantiate(p, gc, nout, nin):
    ob = p["out_bound"] if p["out_bound"] > 0 else 1.0
    nl = np.full(nout, abs(p["out_nonlinearity"] / ob * (1 + p["out_nonlinearity_std"] * gc)))
    f = 1.0
    if p["slope_calibration"] > 0:
        f = (1 + (np.abs(nl).mean() + p["r_series"]) * p["slope_calibration"] * ob) ** 2
    if not (p["out_nonlinearity"] > 0 or p["r_series"] > 0):
        f = 1.0
    std = np.full(nout, p["out_noise"] * abs(1 + p["out_noise_std"] * gc))
    return dict(nl=nl, factor=f, std=std, v=np.full(nout, max(p["v_offset_std"] * gc, 0.0)),
                wa=np.full((nout, nin), 1 + p["w_read_asymmetry_dtod"] * gc))


def model(w, x, p, user, gr, bwd=False):
    nm = p["noise_management"]
    a = np.abs(x).max() if nm == N.ABS_MAX else 1.0
    if a <= 0:
        if p["inp_noise"] <= 0 or bwd:  # no error, no gradient
            return np.zeros(len(w))
        a = 1.0
    s = 1.0 / a
    z = x * s
    if p["inp_bound"] > 0:
        z = np.clip(z, -p["inp_bound"], p["inp_bound"])
    z = z + p["inp_noise"] * gr
    z = np.where(z < 0, z * (1 - p["inp_asymmetry"]), z)
    if p["mv_type"] == MV.ONE_PASS:
        y = finalize(one_pass(w, z, p, user, gr), p, user, gr)
    else:
        wn = w * user["wa"] if p["w_read_asymmetry_dtod"] > 0 else w
        yn = one_pass(wn, np.minimum(z, 0), p, user, gr)
        yp = one_pass(w, np.maximum(z, 0), p, user, gr)
        if p["mv_type"] == MV.POS_NEG_SEPARATE:
            y = finalize(yn + yp, p, user, gr)
        else:
            y = finalize(yn, p, user, gr) + finalize(yp, p, user, gr)
    return y * p["out_scale"] / s


def full(fields, mv="ONE_PASS", **kw):
    p = dict(BASE, mv_type=MV[mv], out_scale=1.0, w_noise_type=WN.NONE, **OFF)
    p.update(fields)
    p.update(kw)
    return p


def near(a, b):
    return np.allclose(a, b, rtol=3e-5, atol=3e-6)


def run(case, rec):
    return globals()[case["kind"]](case, rec)


def term(case, rec):
    tile, mv, src = case["tile"], case["mv"], case["src"]
    tag = "%s:%s:%s" % (tile, mv, "+".join(src))
    is_torch = tile == "torch"
    strengths = list(itertools.product(*[SOURCES[s] if case["deep"] or len(src) == 1 else SOURCES[s][:1] for s in src]))
    n = 4 if case["deep"] else 3
    kcs = [1] if is_torch else draws(tile, n)
    krs = [1] if is_torch else draws(tile, 8 if case["deep"] else 4)
    w = np.array(W)
    if tile == "single-bwd" and any(s in ("read_asym",) for s in src):
        wl = W
    for st in strengths:
        fields = {}
        for f in st:
            fields.update(f)
        for nm, sc, ob in itertools.product((N.NONE, N.ABS_MAX), (1.0, 0.5), (0.0, 2.0)):
            if sc != 1.0 and ob:
                continue
            p = full(fields, mv, noise_management=nm, out_scale=sc, out_bound=ob)
            io = M.io_of(**{k: v for k, v in p.items()})
            if is_torch:
                torch_term(case, rec, tag, p, io, w)
                continue
            for kc in kcs:
                r = make(tile, io, W, kc)
                user = instantiate(p, gauss(tile, kc), *w.shape)
                for kr in krs:
                    mcrng.const(kr)
                    y = r(X).numpy()
                    rec.step()
                    want = np.array([model(w, np.array(x), p, user, gauss(tile, kr), tile == "single-bwd") for x in X])
                    rec.state(tag, str(sorted((k, str(v)) for k, v in p.items())), kc, kr, y.tobytes())
                    rec.trace()
                    if not rec.check(near(y, want), tag + ":term",
                                     lambda: "%s gc=%.3f gr=%.3f: got %s expected %s" % (
                                         {k: v for k, v in p.items() if v}, gauss(tile, kc), gauss(tile, kr),
                                         y.tolist(), want.tolist())):
                        return
                    rows = np.concatenate([r([x]).numpy() for x in X])
                    rec.step(len(X))
                    rec.check(near(rows, y), tag + ":rows", lambda: "rows one by one differ from the batch: %s %s" % (rows, y))


def torch_term(case, rec, tag, p, io, w):
    """the draws of the torch tile cannot be held constant: same stream, strengths compared"""
    if "out_noise_std" in case["src"]:
        r = make("torch", io, W, 1)
        v = r.tile.get_forward_parameters()["out_noise_values"]
        r.tile.set_forward_parameters(out_noise_values=torch.full_like(v, 0.2))
        p = dict(p, out_noise=0.2, out_noise_std=0.0)
    else:
        r = make("torch", io, W, 1)
    zero = make("torch", M.io_of(**dict(p, out_noise=0.0, inp_noise=0.0, out_noise_std=0.0)), W, 1)
    for shape in ((6, 3), (2, 3, 3), (3, 2, 1, 3), (1, 6, 3)):
        x = np.array(X).reshape(shape)
        torch.manual_seed(5)
        y = r(x).numpy().reshape(6, -1)
        ideal = zero(x).numpy().reshape(6, -1)
        rec.step(2)
        rec.trace()
        rec.state(tag, str(sorted((k, str(v)) for k, v in p.items())), shape, y.tobytes())
        if p["out_bound"]:
            continue
        # recover the draws that were used and compare with a tile of half the strength
        q = dict(p, out_noise=p["out_noise"] / 2, inp_noise=p["inp_noise"] / 2)
        half = make("torch", M.io_of(**{k: v for k, v in q.items()}), W, 1)
        torch.manual_seed(5)
        y2 = half(x).numpy().reshape(6, -1)
        rec.step()
        ok = near(y - ideal, 2 * (y2 - ideal))
        rec.check(ok, tag + ":linear", lambda: "noise %s is not twice the noise of half the strength %s (%s, shape %s)" % (
            y - ideal, y2 - ideal, {k: v for k, v in p.items() if v}, shape))
        a = np.abs(np.array(X)).max(axis=1) if p["noise_management"] == N.ABS_MAX else np.ones(6)
        e = (y - ideal)[a > 0] / (a * p["out_scale"])[a > 0][:, None]
        if p["inp_noise"] == 0:
            z = np.abs(e) / p["out_noise"]
        else:
            z = np.abs(e) / np.sqrt(p["out_noise"] ** 2 + p["inp_noise"] ** 2 * (w * w).sum(axis=1))
        rec.check(z.max() < 4.5 and z.mean() > 0.3 and len(np.unique(np.round(e, 6))) == e.size, tag + ":strength",
                  lambda: "noise %s does not have the configured strength (%s, shape %s)" % (e, p, shape))


def setter(tile, r):
    return r.tile.set_backward_parameters if tile == "single-bwd" else r.tile.set_forward_parameters


def getter(tile, r):
    return r.tile.get_backward_parameters() if tile == "single-bwd" else r.tile.get_forward_parameters()


def user(case, rec):
    """per-output parameters set by the user act on their own output"""
    tile = case["tile"]
    w = np.array(W)
    values = {"out_noise_values": (dict(out_noise=0.2, out_noise_std=0.4), "std", [0.7, 0.05]),
              "v_offset": (dict(v_offset_std=0.2), "v", [0.3, 0.1]),
              "out_nonlinearity": (dict(out_nonlinearity=0.4), "nl", [0.1, 0.9]),
              "w_asymmetry": (dict(w_read_asymmetry_dtod=0.3), "wa", [1.1, 0.9, 1.0, 0.8, 1.3, 0.6])}
    for name, (fields, slot, vals) in values.items():
        if tile == "torch" and name != "out_noise_values":
            continue
        mv = "POS_NEG_SEPARATE" if name == "w_asymmetry" else "ONE_PASS"
        p = full(fields, mv)
        r = make(tile, M.io_of(**p), W, 1)
        if not rec.check(name in getter(tile, r), "%s:%s:name" % (tile, name), "not among %s" % sorted(getter(tile, r))):
            continue
        for how in ("dict", "keyword"):
            r = make(tile, M.io_of(**p), W, 1)
            new = torch.tensor(vals)
            if how == "dict":
                setter(tile, r)({name: new})
            else:
                setter(tile, r)(**{name: new})
            rec.step()
            rec.check(torch.equal(getter(tile, r)[name].reshape(-1), new), "%s:%s:get" % (tile, name),
                      lambda: "set %s, got %s" % (vals, getter(tile, r)[name]))
            if tile == "torch":
                for shape in ((6, 3), (2, 3, 3), (3, 2, 1, 3), (3, 1, 2, 3), (3,)):
                    x = np.clip(np.array(X), -1, 1).reshape(-1)[:int(np.prod(shape))].reshape(shape)
                    torch.manual_seed(9)
                    y = r(x).numpy()
                    e = y.reshape(-1, 2) - x.reshape(-1, 3) @ w.T
                    rec.step()
                    rec.trace()
                    r1 = make(tile, M.io_of(**p), W, 1)
                    r1.tile.set_forward_parameters(out_noise_values=torch.ones(2))
                    torch.manual_seed(9)
                    e1 = r1(x).numpy().reshape(-1, 2) - x.reshape(-1, 3) @ w.T
                    rec.check(y.shape == shape[:-1] + (2,) and near(e, e1 * np.array(vals)),
                              "torch:out_noise_values:act", lambda: "noise %s instead of %s (shape %s)" % (e, e1 * np.array(vals), shape))
                continue
            for kr in draws(tile, 4):
                mcrng.const(kr)
                y = r(X).numpy()
                rec.step()
                rec.trace()
                u = instantiate(p, gauss(tile, 1), 2, 3)
                u[slot] = np.array(vals)
                if slot == "wa":
                    u["wa"] = np.array(vals).reshape(2, 3)
                    if tile == "single-bwd":
                        u["wa"] = np.array(vals).reshape(3, 2).T
                want = np.array([model(w, np.array(x), p, u, gauss(tile, kr)) for x in X])
                rec.state(tile, name, how, kr, y.tobytes())
                rec.check(near(y, want), "%s:%s:act" % (tile, name),
                          lambda: "got %s expected %s" % (y.tolist(), want.tolist()))
    # instantiated parameters: per output different, fixed afterwards
    fields = dict(out_noise=0.2, out_noise_std=0.4)
    if tile != "torch":
        fields.update(v_offset_std=0.2, out_nonlinearity=0.4, out_nonlinearity_std=0.3, w_read_asymmetry_dtod=0.3)
    p = full(fields)
    for seed in (1, 2, 3):
        mcrng.reset(seed)
        big = (np.arange(48 * 3).reshape(48, 3) % 7 / 10.0).tolist()
        if tile == "single-bwd":
            t = M.make("single", np.array(big).T.tolist(), bwd=M.io_of(**p))
            get = t.get_backward_parameters
        else:
            t = M.make(tile, big, fwd=M.io_of(**p))
            get = t.get_forward_parameters
        a = {k: v.clone() for k, v in get().items()}
        rec.step(2)
        x = torch.ones(4, 3)
        (t.backward if tile == "single-bwd" else t.joint_forward)(x)
        b = get()
        for k in a:
            rec.check(torch.equal(a[k], b[k]), "%s:%s:fixed" % (tile, k), "changed by a product")
        ref = {"out_noise_values": (0.2, 0.4), "w_asymmetry": (1.0, 0.3), "out_nonlinearity": (0.4, 0.3)}
        for k, (mean, rel) in ref.items():
            if k not in a:
                continue
            v = a[k].double().reshape(-1) / mean - 1
            n = len(v)
            rec.check(len(torch.unique(v)) > 0.9 * n and abs(float(v.mean())) < 5 * rel / n ** 0.5 and
                      abs(float(v.std()) / rel - 1) < 5 / (2 * n) ** 0.5, "%s:%s:spread" % (tile, k),
                      lambda: "relative spread %.3f (mean %.3f) instead of %.3f over %d outputs" % (v.std(), v.mean(), rel, n))
        if "v_offset" in a:
            v = a["v_offset"]
            rec.check(bool((v >= 0).all()) and 0.25 < float((v > 0).float().mean()) < 0.75 and
                      abs(float((v[v > 0] ** 2).mean()) ** 0.5 / 0.2 - 1) < 0.6, "%s:v_offset:spread" % tile, lambda: str(v))


def perfect(case, rec):
    """a perfect configuration shows none of the sources; strength zero neither"""
    tile = case["tile"]
    w = np.array(W)
    every = {}
    for n in SOURCES:
        if usable(tile, "POS_NEG_SEPARATE", n) and n not in ("w_noise_pcm",):
            every.update(SOURCES[n][0])
    if tile == "torch":
        every = dict(out_noise=0.3, inp_noise=0.3, out_noise_std=0.3)
    for fields in (every, {}):
        for variant in (dict(is_perfect=True), dict(mv_type=MV.IDEAL), dict(), dict(noise_management=N.ABS_MAX)):
            if fields and not (variant.get("is_perfect") or variant.get("mv_type")):
                continue
            if tile == "torch" and "mv_type" in variant:
                continue
            p = full(fields)
            p.update(variant)
            p["inp_bound"] = 1.0
            io = M.io_of(**p)
            for seed in (1, 2):
                r = make(tile, io, W, 1)
                mcrng.reset(seed)
                y = r(X).numpy()
                rec.step()
                rec.trace()
                x = np.array(X)
                if not fields and not variant:
                    x = np.clip(x, -1, 1)
                rec.state(tile, str(variant), bool(fields), seed)
                rec.check(near(y, x @ w.T), "%s:perfect" % tile, lambda: "%s %s: %s instead of %s" % (fields, variant, y, x @ w.T))


def asymdoc(case, rec):
    """output asymmetry: scales the output of the negative input pass"""
    tile = case["tile"]
    if tile == "torch":
        raise mcrt.Skip("torch tile has one pass only")
    w = np.array(W)
    for mv in ("POS_NEG_SEPARATE", "POS_NEG_SEPARATE_DIGITAL_SUM"):
        p = full(dict(), mv)
        r = make(tile, M.io_of(**dict(p, out_asymmetry=0.3)), W, 1)
        y = r(X).numpy()
        rec.step()
        x = np.clip(np.array(X), -1, 1)
        pos, neg = np.maximum(x, 0) @ w.T, np.minimum(x, 0) @ w.T
        want = pos + 0.7 * neg
        rec.trace()
        rec.state(tile, mv, y.tobytes())
        if near(y, want):
            continue
        cut = lambda v: np.where(v < 0, 0.7 * v, v)
        actual = cut(pos + neg) if mv == "POS_NEG_SEPARATE" else cut(pos) + cut(neg)
        if near(y, actual):
            rec.fail("out_asymmetry:negative-outputs", "%s %s: out_asymmetry scales negative outputs instead of the output "
                     "of the negative input pass" % (tile, mv))
        else:
            rec.fail("%s:%s:out_asymmetry" % (tile, mv), "got %s expected %s (or %s)" % (y, want, actual))


def stream(case, rec):
    """with the real stream of draws: independent between outputs, rows and calls; unit variance"""
    tile, src = case["tile"], case["src"]
    n = 64
    w = np.eye(n) if src == "inp_noise" else np.full((n, n), 0.1)
    p = full(SOURCES[src][0])
    if src == "out_noise_std":
        p["out_noise_std"] = 1e-6
    mcrng.reset(3)
    io = M.io_of(**p)
    if tile == "single-bwd":
        t = M.make("single", w.T.tolist(), bwd=io)
        f = t.backward
    else:
        t = M.make(tile, w.tolist(), fwd=io)
        f = t.joint_forward
    x = torch.full((256, n), 0.5)
    for seed in (1, 2, 3):
        mcrng.reset(seed)
        with torch.no_grad():
            y1 = f(x).double().numpy()
            y2 = f(x).double().numpy()
        rec.step(2)
        rec.trace()
        rec.state(tile, src, seed)
        ideal = (x.double().numpy() @ w.T)
        std = {"out_noise": p["out_noise"], "out_noise_std": p["out_noise"], "inp_noise": p["inp_noise"],
               "w_noise_add": p["w_noise"] * 0.5 * n ** 0.5, "w_noise_pcm": p["w_noise"] * 0.5 * (0.1 * n) ** 0.5}[src]
        z1, z2 = (y1 - ideal) / std, (y2 - ideal) / std
        m = z1.size
        for z in (z1, z2):
            rec.check(abs(z.mean()) < 6 / m ** 0.5 and abs(z.std() - 1) < 6 / (2 * m) ** 0.5, "%s:%s:moments" % (tile, src),
                      lambda: "mean %.4f std %.4f instead of 0, 1" % (z.mean(), z.std()))
            r = [("outputs", z[:, :-1], z[:, 1:]), ("rows", z[:-1], z[1:])]
            for name, a, b in r:
                c = float((a * b).mean())
                rec.check(abs(c) < 6 / m ** 0.5, "%s:%s:correlated-%s" % (tile, src, name), lambda: "correlation %.3f" % c)
        c = float((z1 * z2).mean())
        rec.check(abs(c) < 6 / m ** 0.5, "%s:%s:correlated-calls" % (tile, src), lambda: "correlation %.3f" % c)


def round(case, rec):
    """stochastic rounding goes to one of the two neighbours, up with probability equal to the distance"""
    tile = case["tile"]
    K = 64 if case["deep"] else 32
    vals = np.linspace(-1.1, 1.1, 23) + 0.013
    for where in ("inp", "out"):
        p = full({"%s_sto_round" % where: True, "%s_res" % where: 0.125, "%s_bound" % where: 1.0})
        w = np.eye(2).tolist()
        r = make(tile, M.io_of(**p), w, 1)
        x = np.stack([vals, np.zeros_like(vals)], axis=1)
        if where == "out":
            x = np.clip(x, -1, 1)
        ups = np.zeros(len(x))
        tot = 0
        for i in range(K if tile != "torch" else 40):
            if tile == "torch":
                torch.manual_seed(i)
                big = np.repeat(x, 50, axis=0)
                y = r(big).numpy()[:, 0].reshape(len(x), 50)
            else:
                mcrng.const(mcrng.uni((i + 0.5) / K))
                y = r(x).numpy()[:, :1]
            rec.step()
            rec.state(tile, where, i)
            lo, hi = np.floor(x[:, :1] / 0.25) * 0.25, np.ceil(x[:, :1] / 0.25) * 0.25
            c = lambda v: np.clip(v, -1, 1)
            ok = np.isclose(y, c(lo), atol=1e-5) | np.isclose(y, c(hi), atol=1e-5)
            rec.check(ok.all(), "%s:%s:round-neighbour" % (tile, where), lambda: "%s of %s" % (y[~ok][:3], x[:, 0]))
            ups += np.isclose(y, hi, atol=1e-5).sum(axis=1)
            tot += y.shape[1]
        rec.trace()
        inside = np.abs(x[:, 0]) < 0.99
        frac = x[:, 0] / 0.25 - np.floor(x[:, 0] / 0.25)
        d = np.abs(ups / tot - frac)[inside].max()
        lim = 1.01 / K if tile != "torch" else 5 * 0.5 / tot ** 0.5
        rec.check(d <= lim, "%s:%s:round-probability" % (tile, where), lambda: "up-rounding frequency off by %.3f" % d)
