"""W01: weights written to a layer are the weights read back and used."""
import itertools

import torch

import mclib as L
import mcrng
import mcrt
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogConv2dMapped
from aihwkit.optim import AnalogSGD

RULE = ("case = tile x layer kind x bias placement x mapping options; all operation words are executed in lock step with "
        "a model that knows the logical weights, the raw weights and the scales; a state is (case, raw weights, "
        "scales, logical weights), a transition one operation")
BOUNDS = {"quick": "all words of length 2 over 20 operations on 5 tiles; linear layers with 3 bias placements x 7 mapping "
                   "options, convolution and mapped layers with bias x 3 mapping options",
          "thorough": "5 tiles x 4 layer kinds x 3 bias placements x 7 mapping options, all words of length 3"}
ASSUMPTIONS = ["ideal hardware (unbounded devices, perfect periphery)"]
# omega, columnwise, learn_out, out_columnwise, lr_comp
MAPS = {"none": (0.0, False, False, False, False), "omega": (0.6, False, False, False, False),
        "col": (1.0, True, False, False, False), "learn": (0.0, False, True, False, False),
        "learncol": (0.0, False, True, True, False), "both": (0.6, True, True, True, False),
        "lr": (0.6, True, False, False, True)}
LAYERS = ("linear", "mapped", "conv", "convmapped")
BIAS = ("none", "digital", "analog")
O, I = 3, 4


def shape(layer):
    return {"conv": (O, 1, 2, 2), "convmapped": (O, 2, 1, 2)}.get(layer, (O, I))


def matrices(layer):
    """Logical weight matrices: generic, with a zero row, all zero, constant, rows of very different size."""
    g = L.grid(O, I, k=3, lo=-0.5, hi=0.5)
    z = L.grid(O, I, k=4, lo=-0.5, hi=0.5)
    z[1] = 0
    e = L.grid(O, I, k=5)
    e[0] *= 1e-4
    e[2] *= 50.0
    return {k: v.reshape(shape(layer)) for k, v in
            {"g": g, "z": z, "0": torch.zeros(O, I), "c": torch.full((O, I), -0.25), "e": e}.items()}


OPS = ("set:g", "set:z", "set:0", "set:c", "set:e", "raw:g", "raw:e", "omega:g", "omega:0", "remap", "remapcfg", "scales",
       "scalesf", "learned", "learnedf", "train", "eval", "reset", "read", "nobias")


def build(case):
    mcrng.reset(2)
    c = L.IDEAL[case["tile"]]()
    omega, col, learn, outcol, lrc = MAPS[case["map"]]
    L.plain_mapping(c, digital_bias=case["bias"] != "analog")
    c.mapping.weight_scaling_omega = omega
    c.mapping.weight_scaling_columnwise = col
    c.mapping.learn_out_scaling = learn
    c.mapping.out_scaling_columnwise = outcol
    c.mapping.weight_scaling_lr_compensation = lrc
    bias = case["bias"] != "none"
    k = case["layer"]
    if k == "linear":
        return AnalogLinear(I, O, bias, rpu_config=c)
    if k == "conv":
        return AnalogConv2d(1, O, 2, bias=bias, rpu_config=c)
    if k == "mapped":
        c.mapping.max_input_size, c.mapping.max_output_size = 3, 2
        return AnalogLinearMapped(I, O, bias, rpu_config=c)
    c.mapping.max_input_size, c.mapping.max_output_size = 2, 2
    return AnalogConv2dMapped(2, O, (1, 2), bias=bias, rpu_config=c)


def supported(case):
    if case["bias"] == "analog" and case["tile"] in ("torch", "custom"):
        return False
    if case["bias"] == "analog" and case["layer"] in ("mapped", "convmapped"):
        return False  # mapped layers keep their bias in digital
    return True


def cases(tier):
    depth = 2 if tier == "quick" else 3
    for case in L.products(tile=list(L.IDEAL), layer=LAYERS, bias=BIAS, map=list(MAPS)):
        if tier == "quick" and case["layer"] != "linear" and (case["bias"] == "none" or case["map"] not in ("none", "learncol", "both")):
            continue
        if supported(case):
            for first in OPS:
                yield dict(case, first=first, depth=depth)


def inputs(layer):
    x = L.grid(3, I, k=11, lo=-1, hi=1)
    return x.reshape((3,) + shape(layer)[1:])


def response(w, b, x, layer):
    y = x.flatten(1).double() @ w.flatten(1).double().T
    return y if b is None else y + b.double()


class Model:
    def __init__(self, layer):
        self.w, self.b = None, None

    def take(self, m):
        w, b = m.get_weights()
        self.w, self.b = w.detach().clone(), None if b is None else b.detach().clone()


def run(case, rec):
    for rest in itertools.product(OPS, repeat=case["depth"] - 1):
        word = (case["first"],) + rest
        if not walk(case, word, rec):
            return


def walk(case, word, rec):
    layer = build(case)
    mats = matrices(case["layer"])
    kind = case["layer"]
    opt = AnalogSGD(layer.parameters(), lr=0.1)
    opt.regroup_param_groups()
    x = inputs(kind)
    md = Model(layer)
    md.take(layer)
    key = "%s:%s:%s:%s" % (kind, case["tile"], case["bias"], case["map"])
    omega = MAPS[case["map"]][0]
    tiles = list(layer.analog_tiles())
    hasb = case["bias"] != "none"
    for n, op in enumerate(word):
        name, _, arg = op.partition(":")
        bias = L.grid(O, k=n + 21) if hasb else None
        where = "%s of %s" % (op, word[:n + 1])
        exact = False
        if name == "set":
            layer.set_weights(mats[arg].clone(), bias)
            md.w, md.b = mats[arg], bias
        elif name == "nobias":
            if case["bias"] == "analog":
                continue
            layer.set_weights(mats["g"].clone(), None)
            md.w = mats["g"]
        elif name == "raw":
            layer.set_weights(mats[arg].clone(), bias, apply_weight_scaling=False)
            w, b = layer.get_weights(apply_weight_scaling=False)
            rec.check(mcrt.close(w.flatten(1), mats[arg].flatten(1), 1e-5, 1e-7) and (bias is None or mcrt.close(b, bias, 1e-5, 1e-7)),
                      key + ":raw", where + ": raw weights are not read back")
            exact = True
        elif name == "omega":
            layer.set_weights(mats[arg].clone(), bias, weight_scaling_omega=0.3)
            md.w, md.b = mats[arg], bias
        elif name in ("remap", "remapcfg"):
            for t in tiles:
                t.remap_weights(**({} if name == "remap" else {"weight_scaling_omega": None}))
        elif name in ("scales", "scalesf", "learned", "learnedf"):
            for t in tiles:
                raw, rawb = t.get_weights(apply_weight_scaling=False)
                s = L.grid(t.out_size, k=31, lo=0.5, hi=2.0)
                if name == "scales":
                    t.set_scales(s)
                elif name == "scalesf":
                    t.set_scales(0.5)
                    s = torch.full((t.out_size,), 0.5)
                elif t.get_learned_out_scales() is None:
                    t.set_learned_out_scales(2.0)
                    continue
                else:
                    s = s if name == "learned" and t.get_learned_out_scales().numel() > 1 else torch.tensor([1.5])
                    t.set_learned_out_scales(s)
                    if t.get_mapping_scales() is not None:
                        s = s * t.get_mapping_scales()
                got = t.get_scales()
                got = torch.ones(1) if got is None else got.detach()
                rec.check(mcrt.close(got.expand(t.out_size), s.expand(t.out_size), 1e-5, 1e-7), key + ":" + name,
                          lambda: "%s: scales are %s instead of %s" % (where, got, s))
                raw2, rawb2 = t.get_weights(apply_weight_scaling=False)
                rec.check(mcrt.same(raw, raw2) and mcrt.same(rawb, rawb2), key + ":" + name, where + ": changes the raw weights")
            exact = True
        elif name == "train":
            layer.train()
            opt.zero_grad()
            layer(x).square().sum().backward()
            opt.step()
            exact = True
        elif name == "eval":
            layer.eval()
            layer(x)
        elif name == "reset":
            mcrng.reset(5)
            layer.reset_parameters()
            exact = True
        elif name == "read":
            for t in tiles:
                t.read_weights()
        if exact:
            md.take(layer)
        rec.step()
        # ---- invariants
        w, b = layer.get_weights()
        scale = float(md.w.abs().max()) or 1.0
        if not (rec.check(w.shape in (torch.Size(shape(kind)), (O, I)), key + ":shape", lambda: where + ": shape %s" % (tuple(w.shape),))
                and rec.check(mcrt.close(w.flatten(1), md.w.flatten(1), 1e-4, 1e-6 * scale) and bool(torch.isfinite(w).all()), key + ":weights",
                              lambda: "%s: weights %s instead of %s" % (where, w.flatten().tolist(), md.w.flatten().tolist()))
                and rec.check((b is None) == (md.b is None) and (b is None or mcrt.close(b, md.b, 1e-4, 1e-6)), key + ":bias",
                              lambda: "%s: bias %s instead of %s" % (where, b, md.b))):
            return False
        for t in tiles:
            lw, lb = t.get_weights()
            rw, rb = t.get_weights(apply_weight_scaling=False)
            s = t.get_scales()
            s = torch.ones(1) if s is None else s.detach()
            ok = mcrt.close(rw * s.view(-1, 1), lw, 1e-5, 1e-7)
            if case["bias"] == "analog":
                ok = ok and mcrt.close(rb * s.view(-1), lb, 1e-5, 1e-7)
            rec.check(ok, key + ":product", where + ": scale times raw weights is not the logical weight")
            if name in ("set", "omega", "remap", "remapcfg", "nobias"):
                om = {"omega": 0.3, "remap": 1.0}.get(name, omega)
                comb = rw if case["bias"] != "analog" else torch.cat([rw, rb.view(-1, 1)], 1)
                if om > 0:
                    col = MAPS[case["map"]][1]
                    m = comb.abs().amax(1) if col else comb.abs().max().view(1)
                    z = m == 0
                    rec.check(bool(((m - om).abs() < 1e-4)[~z].all()), key + ":omega",
                              lambda: "%s: raw maximum %s is not %s" % (where, m.tolist(), om))
        train = layer.training
        for mode in (True, False):
            layer.train(mode)
            y = layer(x).detach().flatten(1)
            layer.train(train)
            ref = response(w, b, x, kind)
            tol = 1e-4 * (float(ref.abs().max()) or 1.0)
            rec.check(mcrt.close(y, ref, 1e-4, tol), key + ":forward",
                      lambda: "%s: the %s response is not the product with the weights: %s instead of %s" % (
                          where, "training" if mode else "evaluation", y.tolist(), ref.tolist()))
        if n == len(word) - 1 and word[0] == "set:g":
            for t in tiles:
                lw, lb = t.get_weights()
                ew, eb = t.read_weights(apply_weight_scaling=True)
                tol = 1e-3 * (float(lw.abs().max()) or 1.0)
                rec.check(mcrt.close(ew, lw, 1e-3, tol) and (eb is None or mcrt.close(eb, lb, 1e-3, tol)), key + ":read",
                          lambda: "%s: estimated weights %s instead of %s" % (where, (ew, eb), (lw, lb)))
                rw, rb = t.get_weights(apply_weight_scaling=False)
                ew, eb = t.read_weights()
                tol = 1e-3 * (float(rw.abs().max()) or 1.0)
                rec.check(mcrt.close(ew, rw, 1e-3, tol) and (eb is None or mcrt.close(eb, rb, 1e-3, tol)), key + ":readraw",
                          lambda: "%s: estimated raw weights %s instead of %s" % (where, (ew, eb), (rw, rb)))
        rec.state(key, w, *[t.get_weights(apply_weight_scaling=False)[0] for t in tiles])
        if rec.fails:
            return False
    rec.trace()
    return True
