"""W05: program-and-verify reaches its target, realistic reading returns the stored weights."""
import itertools

import torch

import mclib as L
import mcrng
import mcrt
from aihwkit.nn import AnalogConv1d, AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogConv2dMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (ConstantStepDevice, SoftBoundsDevice, LinearStepDevice, VectorUnitCell, UnitCellRPUConfig,
                                       SingleRPUConfig, PulseType)

RULE = ("case = tile x layer kind x bias placement x weight scaling x first operation; below it all words over {write, realistic write, "
        "write zeros, training step, program from the reference / from the current weights / with given inputs / from a given start / "
        "without tolerance, realistic reading with default and given inputs and over-sampling, change of mode} are executed in lock step "
        "with a model that knows the reference; after every operation the tile's deviation from its target, what must not have changed "
        "and what reading gives; a state is (case, word, weights)")
BOUNDS = {"quick": "words of length 2 (linear layer) over 16 operations, 10 tiles, 3 bias placements, 3 scalings; other layers words of length 1",
          "thorough": "words of length 3 (linear), 2 (others)"}
ASSUMPTIONS = ["noise-free products", "devices able to hold the target weights", "a reference not yet established by programming may be "
               "the weights last written or the current ones"]

O, I = 3, 4
TOL = 0.01
PULSED = ("constant", "linear", "soft", "vector")
TRAIN = ("fp", "single", "custom", "none") + PULSED
TILES = TRAIN + ("inference", "torch")
LAYERS = ("linear", "conv1d", "conv2d", "mapped", "convmapped")
MAPS = {"none": (0.0, False, False), "col": (0.4, True, False), "learn": (0.4, False, True)}
READS = ("read", "read1", "readx", "readraw", "readxraw")
PROGS = ("prog", "progcur", "progx", "progstart", "progfloat", "prognotol")
OPS = ("set:g", "set:h", "set:0", "real:g", "train", "eval") + READS + PROGS


def config(case):
    k = case["tile"]
    if k in PULSED or k == "none":
        dev = {"constant": ConstantStepDevice, "linear": LinearStepDevice, "soft": SoftBoundsDevice, "none": ConstantStepDevice,
               "vector": ConstantStepDevice}[k]()
        dev = L.quiet(dev)
        dev.dw_min, dev.w_max, dev.w_min = 0.002, 1.0, -1.0
        if k == "vector":
            c = UnitCellRPUConfig(device=VectorUnitCell(unit_cell_devices=[dev, L.quiet(ConstantStepDevice(dw_min=0.002, w_max=1.0, w_min=-1.0))]))
        else:
            c = SingleRPUConfig(device=dev)
        c.forward.is_perfect = c.backward.is_perfect = True
        if k == "none":
            c.update.pulse_type = PulseType.NONE
    else:
        c = L.IDEAL[k]()
    omega, col, learn = MAPS[case["map"]]
    L.plain_mapping(c, digital_bias=case["bias"] != "analog")
    c.mapping.weight_scaling_omega, c.mapping.weight_scaling_columnwise, c.mapping.learn_out_scaling = omega, col, learn
    return c


def build(case):
    c, bias, k = config(case), case["bias"] != "none", case["layer"]
    if k == "linear":
        return AnalogLinear(I, O, bias, rpu_config=c)
    if k == "conv1d":
        return AnalogConv1d(2, O, 2, bias=bias, rpu_config=c)
    if k == "conv2d":
        return AnalogConv2d(1, O, 2, bias=bias, rpu_config=c)
    c.mapping.max_input_size, c.mapping.max_output_size = 3, 2
    if k == "mapped":
        return AnalogLinearMapped(I, O, bias, rpu_config=c)
    c.mapping.max_input_size = 2
    return AnalogConv2dMapped(2, O, (1, 2), bias=bias, rpu_config=c)


SHAPE = {"linear": (O, I), "mapped": (O, I), "conv1d": (O, 2, 2), "conv2d": (O, 1, 2, 2), "convmapped": (O, 2, 1, 2)}
INPUT = {"linear": (2, I), "mapped": (2, I), "conv1d": (2, 2, 4), "conv2d": (2, 1, 3, 3), "convmapped": (2, 2, 2, 3)}


def cases(tier):
    for case in L.products(tile=TILES, layer=LAYERS, bias=("none", "digital", "analog"), map=tuple(MAPS)):
        if case["bias"] == "analog" and (case["tile"] in ("torch", "custom") or "mapped" in case["layer"]):
            continue
        main = case["layer"] == "linear"
        if tier == "quick" and not main and case["map"] == "learn":
            continue
        depth = (2 if main else 1) + (tier == "thorough")
        for first in OPS:
            if case["tile"] not in TRAIN and (first in PROGS or first.startswith("real")):
                continue
            yield dict(case, first=first, depth=depth)


def run(case, rec):
    ops = [o for o in OPS if case["tile"] in TRAIN or not (o in PROGS or o.startswith("real"))]
    for rest in itertools.product(ops, repeat=case["depth"] - 1):
        if not walk(case, (case["first"],) + rest, rec):
            return


class Tile:
    """What the model knows of one tile."""

    def __init__(self, tile):
        self.tile = tile
        self.refs = None  # the established reference
        self.maybe = [self.raw()]  # candidates as long as there is none

    def raw(self):
        return self.tile.tile.get_weights().detach().clone()

    def written(self):
        self.refs, self.maybe = None, [self.raw()]

    def frozen(self):
        """All that programming and reading leave alone."""
        t = self.tile
        return {"scales": None if t.get_scales() is None else t.get_scales().detach().clone(),
                "bias": None if getattr(t, "bias", None) is None else t.bias.detach().clone(),
                "lr": t.tile.get_learning_rate() if hasattr(t.tile, "get_learning_rate") else None,
                "training": t.training, "indexed": t.is_indexed()}


def equal(a, b):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, torch.Tensor) and isinstance(y, torch.Tensor):
            if x.shape != y.shape or not torch.equal(x, y):
                return k
        elif (x is None) != (y is None) or (x is not None and x != y):
            return k
    return ""


def walk(case, word, rec):
    mcrng.reset(3)
    torch.manual_seed(7)
    layer = build(case)
    opt = AnalogSGD(layer.parameters(), lr=0.05)
    opt.regroup_param_groups()
    shape, hasb = SHAPE[case["layer"]], case["bias"] != "none"
    mats = {"g": L.grid(O, I, k=3, lo=-0.4, hi=0.4), "h": L.grid(O, I, k=6, lo=-0.4, hi=0.4), "0": torch.zeros(O, I)}
    bias = L.grid(O, k=21, lo=-0.3, hi=0.3) if hasb else None
    key = "%s:%s:%s:%s" % (case["layer"], case["tile"], case["bias"], case["map"])
    layer.set_weights(mats["h"].reshape(shape), bias)
    tiles = [Tile(t) for t in layer.analog_tiles()]
    x = L.grid(*INPUT[case["layer"]], k=9, lo=-1, hi=1)
    for n, op in enumerate(word):
        where = "%s of %s" % (op, word[:n + 1])
        name, _, arg = op.partition(":")
        rec.step()
        if name in ("set", "real"):
            b = bias * (arg != "0") if hasb else None
            layer.set_weights(mats[arg].reshape(shape).clone(), b, realistic=name == "real")
            if name == "set":
                for t in tiles:
                    t.written()
            else:
                twin = build(case)
                twin.set_weights(mats[arg].reshape(shape).clone(), b)
                for t, s in zip(tiles, twin.analog_tiles()):
                    want = s.tile.get_weights().clone()
                    t.refs = [want]
                    if not reached(t, want, None, rec, "real:" + key, where, case["tile"] in PULSED):
                        return False
                    if equal({"s": s.get_scales()}, {"s": t.tile.get_scales()}):
                        rec.fail("real:scales:" + key, where)
                        return False
                w, _ = layer.get_weights()
                lim = 0.1
                if not rec.check(float((w.reshape(O, I) - mats[arg]).abs().max()) < lim, "real:logical:" + key, lambda: (where, w, mats[arg])):
                    return False
        elif name == "train" and case["layer"] == "conv1d" and case["tile"] in ("torch", "custom"):
            continue  # no products of this layer on these tiles
        elif name == "train":
            layer.train()
            opt.zero_grad()
            layer(x).pow(2).mean().backward()
            opt.step()
            for t in tiles:
                t.maybe.append(t.raw())
        elif name == "eval":
            layer.eval()
        elif name in READS:
            if not reading(case, layer, tiles, name, rec, key, where):
                return False
        else:
            for t in tiles:
                if not programming(t, name, rec, "%s:%s" % (name, key), where, case["tile"] in PULSED):
                    return False
        rec.state(case["tile"], case["layer"], case["bias"], case["map"], word[:n + 1], [t.raw().tolist() for t in tiles])
    if not reading(case, layer, tiles, "readraw", rec, key, "at the end of %s" % (word,)):
        return False
    rec.trace()
    return True


def reached(t, want, xs, rec, key, where, pulsed=False):
    """The mean deviation of the outputs is not larger than the tolerance relative to the largest output."""
    have = t.raw()
    y, z = (have.T, want.T) if xs is None else (xs @ have.T, xs @ want.T)
    err, lim = float((y - z).abs().mean()), TOL * float(z.abs().max())
    if pulsed:
        lim = max(lim, 0.012)  # as close as the devices get
    return rec.check(err <= lim * 1.001 + 1e-6, "target:" + key, lambda: (where, err, lim, have, want))


def programming(t, name, rec, key, where, pulsed):
    before, here = t.frozen(), t.raw()
    n = t.tile.tile.get_x_size()
    xs, kw = None, {}
    start = L.grid(*here.shape, k=17, lo=-0.1, hi=0.1)
    if name == "progcur":
        kw = dict(from_reference=False)
        t.refs = [here]
    elif name == "progx":
        xs = torch.cat([torch.eye(n) * 0.5, torch.ones(1, n), L.grid(2, n, k=5, lo=-0.6, hi=0.6)])
        kw = dict(x_values=xs)
    elif name == "progstart":
        kw = dict(w_init=start, max_iter=0)
    elif name == "progfloat":
        kw = dict(w_init=0.05, max_iter=0)
    elif name == "prognotol":
        kw = dict(tolerance=None, max_iter=400)
    wants = t.refs if t.refs is not None else t.maybe
    t.tile.program_weights(**kw)
    if t.refs is None:
        ref = t.tile.reference_combined_weights
        t.refs = [w for w in wants if mcrt.close(w, ref)] if isinstance(ref, torch.Tensor) else wants
        if not rec.check(bool(t.refs), "reference:" + key, lambda: (where, ref, wants)):
            return False
    want = t.refs[0]
    have = t.raw()
    if name == "progstart":
        if not rec.check(mcrt.close(have, start), "start:" + key, lambda: (where, have, start)):
            return False
    elif name == "progfloat":
        ok = float(have.abs().max()) <= 0.0501 and float(have.max() - have.min()) > 1e-4
        if not rec.check(ok, "start:" + key, lambda: (where, have)):
            return False
    elif not reached(t, want, xs, rec, key, where, pulsed):
        return False
    bad = equal(before, t.frozen())
    return rec.check(not bad, "kept:%s:%s" % (bad, key), lambda: (where, bad, before, t.frozen()))


def reading(case, layer, tiles, name, rec, key, where):
    """With noise-free products reading must give what is stored."""
    for t in tiles:
        tile = t.tile
        before, raw = t.frozen(), t.raw()
        scaled = not name.endswith("raw")
        kw = dict(apply_weight_scaling=scaled)
        if name == "read1":
            kw["over_sampling"] = 2
        elif name.startswith("readx"):
            kw["x_values"] = torch.cat([torch.eye(tile.in_size), -torch.ones(1, tile.in_size), 0.5 * torch.ones(2, tile.in_size)])
        w, b = tile.read_weights(**kw)
        w0, b0 = tile.get_weights(apply_weight_scaling=scaled)
        ok = w.shape == w0.shape and (b is None) == (b0 is None) and mcrt.close(w, w0, 1e-3) and (b is None or mcrt.close(b, b0, 1e-3))
        if not rec.check(ok, "read:%s:%s" % (name, key), lambda: (where, w, w0, b, b0)):
            return False
        bad = equal(before, t.frozen())
        if not rec.check(not bad and torch.equal(raw, t.raw()), "read:kept:%s:%s" % (bad, key), lambda: (where, bad)):
            return False
    w, b = layer.get_weights(realistic=True)
    w0, b0 = layer.get_weights()
    ok = w.shape == w0.shape and (b is None) == (b0 is None) and mcrt.close(w, w0, 1e-3) and (b is None or mcrt.close(b, b0, 1e-3))
    if not rec.check(ok, "read:layer:" + key, lambda: (where, w, w0, b, b0)):
        return False
    d = type(layer).to_digital(layer, realistic=True)
    return rec.check(mcrt.close(d.weight.detach(), w0.reshape(d.weight.shape), 1e-3) and (b0 is None or mcrt.close(d.bias.detach(), b0, 1e-3)), "read:digital:" + key,
                     lambda: (where, d.weight, w0))
