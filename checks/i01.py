"""I01: weights -> conductances -> weights is the identity and stays in the physical range."""
import copy
import itertools

import torch

import mclib as L
import mcrt
from aihwkit.inference.converter.conductance import (SinglePairConductanceConverter, NPairConductanceConverter,
                                                     DualPairConductanceConverter, CustomPairConductanceConverter,
                                                     SingleDeviceConductanceConverter)
from aihwkit.inference.converter.fusion import FusionConductanceConverter

RULE = ("case = converter with its parameters x matrix shape; every weight matrix over the value alphabet is converted, "
        "converted back and converted again after a different one; a state is (case, conductances)")
BOUNDS = {"quick": "matrices of up to 4 cells over 7 values (4 values for 4 cells), 34 parameter settings",
          "thorough": "matrices of up to 5 cells over 9 values (6 for 4, 4 for 5 cells), 34 parameter settings"}
ASSUMPTIONS = ["float32 and float64 weights on the CPU", "factors of the pairs are positive"]
RANGES = ((None, None), (10.0, None), (25.0, 5.0), (0.5, 0.1), (90.0, 9.0))


def converters():
    out = {}
    for gmax, gmin in RANGES:
        r = "%s,%s" % (gmax, gmin)
        out["single:" + r] = lambda gmax=gmax, gmin=gmin: SinglePairConductanceConverter(gmax, gmin)
        out["device:" + r] = lambda gmax=gmax, gmin=gmin: SingleDeviceConductanceConverter(gmax, gmin)
        for f in ([1.0], [1.0, 3.0], [3.0, 1.0], [0.25, 1.0, 2.0]):
            out["npair:%s:%s" % (f, r)] = lambda f=f, gmax=gmax, gmin=gmin: NPairConductanceConverter(list(f), gmax, gmin)
        out["dual:" + r] = lambda gmax=gmax, gmin=gmin: DualPairConductanceConverter([1.0, 4.0], gmax, gmin)
    for g in (10, 25, 40):
        out["fusion:%s" % g] = lambda g=g: FusionConductanceConverter(g)
    out["custom:single"] = lambda: CustomPairConductanceConverter([1.0], [[0.0, 0.0, 25.0], [25.0, 0.0, 0.0]], 25.0, 0.0)
    out["custom:single5"] = lambda: CustomPairConductanceConverter(
        [1.0], [[5.0, 5.0, 5.0, 10.0, 15.0], [15.0, 10.0, 5.0, 5.0, 5.0]], 25.0, 0.0)
    out["custom:dual"] = lambda: CustomPairConductanceConverter(
        [1.0, 3.0], [[1.0, 1.0, 1.0, 21.0, 21.0], [21.0, 21.0, 1.0, 1.0, 1.0], [1.0, 1.0, 1.0, 1.0, 7.0 + 2.0 / 3],
                     [7.0 + 2.0 / 3, 1.0, 1.0, 1.0, 1.0]], 21.0, 1.0)
    out["custom:overlap"] = lambda: CustomPairConductanceConverter(
        [1.0], [[2.0, 6.0, 10.0], [10.0, 6.0, 2.0]], 10.0, 2.0)
    return out


VALUES = (0.0, 0.5, -0.5, 1e-9, -1.0, 3.0, 0.3, -1e-4, 700.0)


def cases(tier):
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2)] + ([(3, 1), (1, 5), (5, 1)] if tier == "thorough" else [])
    for name in converters():
        for shape in shapes:
            n = shape[0] * shape[1]
            k = ({4: 6, 5: 4} if tier == "thorough" else {4: 4}).get(n, 9 if tier == "thorough" else 7)
            yield dict(conv=name, shape=shape, k=k)


def aslist(g):
    return [g] if isinstance(g, torch.Tensor) else list(g)


def run(case, rec):
    conv = converters()[case["conv"]]()
    kind, key = case["conv"].split(":")[0], "%s:%s" % (case["conv"].split(":")[0], "x".join(map(str, case["shape"])))
    before = copy.deepcopy(conv.__dict__)
    gmin, gmax = getattr(conv, "g_min", 0.0), conv.g_max
    eps = 1e-5 * gmax
    other = L.grid(*case["shape"], k=4) * 3
    for values in itertools.product(VALUES[:case["k"]], repeat=case["shape"][0] * case["shape"][1]):
        for dtype in (torch.float32, torch.float64):
            w = torch.tensor(values, dtype=dtype).reshape(case["shape"])
            w0 = w.clone()
            where = lambda: "%s of %s (%s)" % (case["conv"], values, dtype)
            g, p = conv.convert_to_conductances(w)
            gl = [x.clone() for x in aslist(g)]
            rec.check(torch.equal(w, w0), key + ":input", where)
            ok = all(bool(torch.isfinite(x).all()) and float(x.min()) >= gmin - eps and float(x.max()) <= gmax + eps and x.shape == w.shape
                     for x in gl)
            rec.check(ok, key + ":range", lambda: "%s: conductances %s outside [%s, %s]" % (where(), gl, gmin, gmax))
            if kind in ("single", "npair", "dual") and ok:
                # one device of each pair rests at g_min; a higher pair is used only when the lower one is full
                for j in range(0, len(gl), 2):
                    rec.check(bool((torch.minimum(gl[j], gl[j + 1]) <= gmin + eps).all()), key + ":pair", where)
                    if j:
                        used = torch.maximum(gl[j], gl[j + 1]) > gmin + 1e-3 * gmax
                        rec.check(bool((torch.maximum(gl[j - 2], gl[j - 1])[used] >= gmax - 1e-3 * gmax).all()), key + ":order", where)
            o, q = conv.convert_to_conductances(other.to(dtype))
            conv.convert_back_to_weights(o, q)
            back = conv.convert_back_to_weights(g, p)
            tol = 2e-5 * (float(w.abs().max()) or 1e-7) * (3 if kind == "device" else 1)
            rec.check(back.shape == w.shape or back.flatten().shape == w.flatten().shape, key + ":shape", where)
            rec.check(bool(torch.isfinite(back).all()) and mcrt.close(back.reshape(w.shape), w, 0, tol), key + ":inverse",
                      lambda: "%s: converted back to %s" % (where(), back.tolist()))
            rec.check(all(torch.equal(a, b) for a, b in zip(aslist(g), gl)) and torch.equal(w, w0), key + ":argument", where)
            g2, _ = conv.convert_to_conductances(w)
            rec.check(all(torch.equal(a, b) for a, b in zip(aslist(g2), gl)), key + ":repeat", where)
            rec.step(2)
            rec.state(key, case["conv"], *gl)
            if rec.fails:
                return
        rec.trace()
    rec.check(conv.__dict__ == before, key + ":converter", "the converter object changes: %s -> %s" % (before, conv.__dict__))
