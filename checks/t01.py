"""T01: ideal analog layers == digital layers, along every bounded history of input shapes."""
import torch
from torch import nn

import mclib as L
import mcrt
from aihwkit.nn import (AnalogLinear, AnalogConv1d, AnalogConv2d, AnalogConv3d, AnalogLinearMapped,
                        AnalogConv1dMapped, AnalogConv2dMapped, AnalogConv3dMapped)
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.exceptions import ModuleError, TileError, AnalogBiasConfigError
from aihwkit.optim import AnalogSGD

RULE = ("case = layer kind x ideal hardware configuration x bias placement x layer options; below "
        "each case every word over {train, eval} x input shapes is executed on one layer instance "
        "and, in lock step, on the PyTorch layer; a state is (case, word prefix, weights, output)")
BOUNDS = {"quick": "words of length 2 (convolutions) / 3 (linear)",
          "thorough": "words of length 3 (convolutions) / 4 (linear), full option product"}
ASSUMPTIONS = ["CPU only", "float32; agreement up to 1e-4 relative", "one SGD step per training pass"]

ANALOG = {"linear": (AnalogLinear, AnalogLinearMapped), "conv1d": (AnalogConv1d, AnalogConv1dMapped),
          "conv2d": (AnalogConv2d, AnalogConv2dMapped), "conv3d": (AnalogConv3d, AnalogConv3dMapped)}


def cases(tier):
    out = []
    deep = tier == "thorough"
    cfgs = ["fp", "single", "inference", "torch", "custom"]
    for cfg in cfgs:
        for bias in ("none", "digital", "analog"):
            if bias == "analog" and cfg in ("torch", "custom"):
                continue
            for mapped in (0, 1):
                if mapped and bias == "analog":
                    continue
                for size in ((1, 1), (3, 2), (2, 3)):
                    out.append(dict(kind="linear", cfg=cfg, bias=bias, mapped=mapped, size=size,
                                    depth=4 if deep else 3))
                for size in () if mapped or cfg in ("torch", "custom") else ((3, 2), (2, 3), (1, 4)):
                    for it, ot in ((0, 0), (1, 0), (0, 1), (1, 1)):
                        out.append(dict(kind="tile", cfg=cfg, bias=bias, mapped=0, size=size, it=it, ot=ot,
                                        depth=3 if deep else 2))
                no_index = cfg in ("torch", "custom")  # tiles without indexed products
                opts1 = [] if no_index else L.products(k=(1, 2, 3), s=(1, 2), p=(0, 1))
                for o in opts1:
                    if not deep and (o["k"], o["s"], o["p"]) not in (
                            (1, 1, 0), (2, 1, 0), (2, 2, 1), (3, 2, 0), (3, 1, 1)):
                        continue
                    out.append(dict(kind="conv1d", cfg=cfg, bias=bias, mapped=mapped, depth=3 if deep
                                    else 2, **o))
                opts2 = L.products(k=((1, 1), (2, 2), (2, 3)), s=((1, 1), (2, 1)),
                                   p=((0, 0), (1, 1), (0, 1)), d=((1, 1), (1, 2)),
                                   indexed=(None, True))
                for o in opts2:
                    keep = (o["k"], o["s"], o["p"], o["d"]) in (
                        ((1, 1), (1, 1), (0, 0), (1, 1)), ((2, 2), (2, 1), (1, 1), (1, 1)),
                        ((2, 3), (1, 1), (0, 1), (1, 1)), ((2, 3), (2, 1), (1, 1), (1, 2)),
                        ((2, 2), (1, 1), (0, 0), (1, 2)))
                    if not deep and not keep:
                        continue
                    if o["indexed"] and cfg in ("torch", "custom"):
                        continue
                    out.append(dict(kind="conv2d", cfg=cfg, bias=bias, mapped=mapped, depth=3 if deep
                                    else 2, **o))
                for o in () if no_index else ((dict(k=(1, 2, 2), s=(1, 1, 1), p=(0, 0, 0))),
                          (dict(k=(2, 1, 2), s=(1, 2, 1), p=(1, 0, 1)))):
                    out.append(dict(kind="conv3d", cfg=cfg, bias=bias, mapped=mapped, depth=2, **o))
    return out


class Digital(nn.Module):
    """Linear layer whose channels come first at the input and/or the output."""

    def __init__(self, i, o, b, it, ot):
        super().__init__()
        self.lin, self.it, self.ot = nn.Linear(i, o, bias=b), it, ot
        self.weight, self.bias = self.lin.weight, self.lin.bias

    def forward(self, x):
        x = x.movedim(0, -1) if self.it else x
        y = self.lin(x)
        return y.movedim(-1, 0) if self.ot else y


class TileLayer(AnalogLayerBase, nn.Module):
    """A bare tile as a layer."""

    def __init__(self, i, o, b, it, ot, cfg):
        nn.Module.__init__(self)
        self.analog_module = cfg.tile_class(o, i, cfg, bias=b, in_trans=it, out_trans=ot)

    def forward(self, x):
        return self.analog_module(x)

    def set_weights(self, w, b):
        self.analog_module.set_weights(w, b)

    def get_weights(self):
        return self.analog_module.get_weights()


def shapes(case):
    kind = case["kind"]
    if kind == "tile":
        n = case["size"][0]
        return [b[::-1] + (n,) if not case["it"] else (n,) + b for b in ((), (2,), (5,), (2, 3))]
    if kind == "linear":
        n = case["size"][0]
        return [(n,), (2, n), (1, n), (2, 3, n), (1, 2, 2, n)]
    if kind == "conv1d":
        return [(1, 2, 4), (3, 2, 4), (1, 2, 6)]
    if kind == "conv2d":
        if case["indexed"] or case["mapped"]:  # (mapped layers take batched images only)
            return [(1, 2, 4, 6), (2, 2, 4, 6), (1, 2, 6, 4), (1, 2, 3, 8)]
        return [(1, 2, 4, 6), (2, 2, 6, 4), (2, 3, 8)]
    return [(1, 2, 2, 3, 4), (2, 2, 2, 4, 3), (1, 2, 4, 2, 3)]


def build(case):
    cfg = L.plain_mapping(L.IDEAL[case["cfg"]](), digital_bias=case["bias"] != "analog")
    if case["mapped"]:
        k = case.get("k", 2)
        n = 1
        for v in (k if isinstance(k, (list, tuple)) else [k]):
            n *= v
        cfg.mapping.max_input_size = n if case["kind"] != "linear" else 2
        cfg.mapping.max_output_size = 2
    b = case["bias"] != "none"
    kind = case["kind"]
    if kind == "tile":
        i, o = case["size"]
        dig = Digital(i, o, b, case["it"], case["ot"])
        a = TileLayer(i, o, b, case["it"], case["ot"], cfg)
        with torch.no_grad():
            dig.weight.copy_(L.grid(o, i, k=3))
            if b:
                dig.bias.copy_(L.grid(o, k=5))
        a.set_weights(dig.weight.detach(), dig.bias.detach() if b else None)
        return dig, a
    ana = ANALOG[kind][case["mapped"]]
    if kind == "linear":
        i, o = case["size"]
        dig = nn.Linear(i, o, bias=b)
        a = ana(i, o, bias=b, rpu_config=cfg)
    else:
        kw = dict(kernel_size=case["k"], stride=case["s"], padding=case["p"], bias=b)
        if "d" in case:
            kw["dilation"] = tuple(case["d"])
        for n in ("kernel_size", "stride", "padding"):
            if isinstance(kw[n], list):
                kw[n] = tuple(kw[n])
        dig = getattr(nn, kind.replace("c", "C", 1))(2, 3, **kw)
        akw = dict(kw, rpu_config=cfg)
        if case.get("indexed"):
            akw["use_indexed"] = True
        a = ana(2, 3, **akw)
    with torch.no_grad():
        dig.weight.copy_(L.grid(*dig.weight.shape, k=3))
        if b:
            dig.bias.copy_(L.grid(*dig.bias.shape, k=5))
    a.set_weights(dig.weight.detach(), dig.bias.detach() if b else None)
    return dig, a


def run(case, rec):
    key = "%s:%s:%s:%s" % (case["kind"], case["cfg"], case["bias"], "mapped" if case["mapped"] else "plain")
    if case.get("indexed"):
        key += ":indexed"
    try:
        build(case)
    except (ModuleError, TileError, AnalogBiasConfigError) as e:
        raise mcrt.Skip(str(e))
    ops = [(s, tr) for s in shapes(case) for tr in (True, False)]
    for word in L.words(ops, case["depth"]):
        # identical prefixes differ only in what follows; evaluation twice in a row adds nothing
        if any(not a[1] and not b[1] and a[0] == b[0] for a, b in zip(word, word[1:])):
            continue
        dig, ana = build(case)
        opt_d = torch.optim.SGD(dig.parameters(), lr=0.25)
        opt_a = AnalogSGD(ana.parameters(), lr=0.25)
        opt_a.regroup_param_groups(ana)
        for n, (shape, train) in enumerate(word):
            x = L.grid(*shape, k=n + 2, lo=-1, hi=1)
            xd, xa = x.clone().requires_grad_(train), x.clone().requires_grad_(train)
            dig.train(train)
            ana.train(train)
            yd = dig(xd)
            try:
                ya = ana(xa)
            except ModuleError as e:
                raise mcrt.Skip(str(e))
            rec.step()
            hist = lambda: "history %s" % (word[: n + 1],)
            if not rec.check(mcrt.close(yd.detach(), ya.detach()), key + ":output",
                             lambda: "%s\ndigital %s\nanalog %s" % (hist(), yd, ya)):
                return
            rec.check(torch.equal(xa.detach(), x), key + ":input-modified", hist)
            if train:
                g = L.grid(*yd.shape, k=n + 7, lo=-1, hi=1)
                opt_d.zero_grad()
                opt_a.zero_grad()
                (yd * g).sum().backward()
                (ya * g).sum().backward()
                if not rec.check(mcrt.close(xd.grad, xa.grad), key + ":input-grad",
                                 lambda: "%s\ndigital %s\nanalog %s" % (hist(), xd.grad, xa.grad)):
                    return
                opt_d.step()
                opt_a.step()
                rec.check(torch.equal(xa.detach(), x), key + ":input-modified", hist)
            w, b = ana.get_weights()
            ok = mcrt.close(w.reshape(dig.weight.shape), dig.weight.detach())
            if case["bias"] != "none":
                ok = ok and b is not None and mcrt.close(b, dig.bias.detach())
            else:
                ok = ok and b is None
            if not rec.check(ok, key + ":weights", lambda: "%s\ndigital %s %s\nanalog %s %s" % (
                    hist(), dig.weight, dig.bias, w, b)):
                return
            rec.state(key, w, ya)
        rec.trace()
    rec.note("last word %s: all outputs, input gradients and weights agree" % (word,))
