"""W02: a layer split over several tiles computes what the same layer on one tile computes."""
import torch
from torch import nn

import mclib as L
import mcrng
import mcrt
from aihwkit.nn import (AnalogLinear, AnalogLinearMapped, AnalogConv1d, AnalogConv2d, AnalogConv3d,
                        AnalogConv1dMapped, AnalogConv2dMapped, AnalogConv3dMapped)
from aihwkit.nn.conversion import _DEFAULT_MAPPED_CONVERSION_MAP, convert_to_analog
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.tiles.array import TileModuleArray

RULE = ("case = way to build the split layer x tile implementation x mapping option x matrix size; below each case every pair "
        "of maximal tile sizes is built and a history (train, set weights, evaluate, train) is executed in lock step "
        "on the split layer, on one tile and on plain PyTorch; a state is (case, limits, step, weights, output)")
BOUNDS = {"quick": "matrix sizes 1..4 x 1..5 (five of them for all but the basic way), all limits 0..size+1, 7 ways to build, 3 mapping options",
          "thorough": "matrix sizes 1..7 x 1..7, all limits 0..size+1, 5 mapping options"}
ASSUMPTIONS = ["ideal hardware"]
MAPS = {"none": (0.0, False, False, False), "omega": (0.6, False, False, False), "col": (0.6, True, False, False),
        "learn": (0.0, False, True, True), "learn1": (0.6, False, True, False)}
CONV = {"conv1d": (AnalogConv1d, AnalogConv1dMapped, nn.Conv1d, 2, (5,)),
        "conv2d": (AnalogConv2d, AnalogConv2dMapped, nn.Conv2d, (1, 2), (3, 4)),
        "conv3d": (AnalogConv3d, AnalogConv3dMapped, nn.Conv3d, (1, 2, 1), (2, 3, 2))}
WAYS = ("layer", "array", "convert", "convertplain") + tuple(CONV)


def cases(tier):
    deep = tier == "thorough"
    no, ni = (7, 7) if deep else (4, 5)
    maps = list(MAPS) if deep else ["none", "col", "learn"]
    for way in WAYS:
        for tile in L.IDEAL:
            if tile in ("torch", "custom") and way in ("conv1d", "conv3d"):
                continue
            for m in maps:
                for bias in (True, False):
                    for o in range(1, no + 1):
                        for i in range(1, ni + 1):
                            if way in CONV and (i > 4 or o > 4):
                                continue
                            if not deep and (tile in ("single", "custom")) and (m != "none" or not bias):
                                continue
                            if not deep and way in ("convert", "convertplain", "array") and (i not in (1, 5, 3) or tile not in ("fp", "torch")):
                                continue
                            if not deep and (way != "layer" or tile != "fp") and (o, i) not in ((3, 5), (4, 4), (4, 1), (1, 4), (2, 3)):
                                continue
                            yield dict(way=way, tile=tile, map=m, bias=bias, out=o, inp=i)
    # three and more pieces of one side with every remainder
    for way in WAYS:
        for o, i in ((8, 1), (1, 8), (7, 2), (2, 7)) + (((8, 8), (9, 1), (1, 9)) if deep else ()):
            yield dict(way=way, tile="fp", map="none", bias=True, out=o, inp=i)


def config(case, mi, mo):
    mcrng.reset(2)
    c = L.plain_mapping(L.IDEAL[case["tile"]]())
    (c.mapping.weight_scaling_omega, c.mapping.weight_scaling_columnwise,
     c.mapping.learn_out_scaling, c.mapping.out_scaling_columnwise) = MAPS[case["map"]]
    c.mapping.max_input_size, c.mapping.max_output_size = mi, mo
    return c


def build(case, mi, mo, dig):
    """The split layer."""
    way, o, i, b = case["way"], case["out"], case["inp"], case["bias"]
    c = config(case, mi, mo)
    if way == "layer":
        return AnalogLinearMapped(i, o, b, rpu_config=c)
    if way == "array":
        return AnalogLinear(i, o, b, rpu_config=c, tile_module_class=TileModuleArray)
    if way == "convert":
        return convert_to_analog(dig, c, conversion_map=_DEFAULT_MAPPED_CONVERSION_MAP)
    if way == "convertplain":
        return convert_to_analog(dig, c)
    _, cls, _, k, _ = CONV[way]
    return cls(i, o, k, bias=b, rpu_config=c)


def limit(tile, way, kernel, mi, mo):
    return (mi <= 0 or tile.in_size <= mi) and (mo <= 0 or tile.out_size <= mo)


def run(case, rec):
    o, i, b, way = case["out"], case["inp"], case["bias"], case["way"]
    kernel = {"conv1d": 2, "conv2d": 2, "conv3d": 2}.get(way, 1)
    for mi in range(0, i * kernel + 2):
        if way in CONV and 0 < mi < kernel:
            continue  # a kernel does not fit: rejected by design
        for mo in range(0, o + 2):
            if not one(case, mi, mo, kernel, rec):
                return


def one(case, mi, mo, kernel, rec):
    o, i, b, way = case["out"], case["inp"], case["bias"], case["way"]
    key = "%s:%s:%s" % (way, case["tile"], case["map"])
    where = "%dx%d on tiles of at most %dx%d (out x in), bias %s" % (o, i * kernel, mo, mi, b)
    if way in CONV:
        plain_cls, _, dig_cls, k, img = CONV[way]
        dig = dig_cls(i, o, k, bias=b)
        one_tile = plain_cls(i, o, k, bias=b, rpu_config=config(case, 0, 0))
        shape = (2, i) + tuple(img)
    else:
        dig = nn.Linear(i, o, bias=b)
        one_tile = AnalogLinear(i, o, b, rpu_config=config(case, 0, 0))
        shape = (3, i)
    with torch.no_grad():
        dig.weight.copy_(L.grid(*dig.weight.shape, k=3))
        if b:
            dig.bias.copy_(L.grid(o, k=5))
    split = build(case, mi, mo, dig)
    tiles = list(split.analog_tiles())
    rec.check(all(limit(t, way, kernel, mi, mo) for t in tiles), key + ":limit",
              lambda: "%s: tiles of size %s" % (where, [(t.out_size, t.in_size) for t in tiles]))
    rec.check(sum(t.out_size * t.in_size for t in tiles) == o * i * kernel, key + ":cells",
              lambda: "%s: tiles of size %s" % (where, [(t.out_size, t.in_size) for t in tiles]))
    if way in ("convert", "convertplain"):
        w, bb = split.get_weights()
        rec.check(mcrt.close(w.flatten(1), dig.weight.detach().flatten(1)) and (not b or mcrt.close(bb, dig.bias.detach())),
                  key + ":converted", where)
    one_tile.set_weights(dig.weight.detach(), dig.bias.detach() if b else None)
    split.set_weights(dig.weight.detach(), dig.bias.detach() if b else None)
    opts = [torch.optim.SGD(dig.parameters(), lr=0.25)] + [AnalogSGD(m.parameters(), lr=0.25) for m in (one_tile, split)]
    learn = MAPS[case["map"]][2]
    for n, op in enumerate(("train", "eval", "train2", "set", "train")):
        if op == "set":
            w, bb = L.grid(*dig.weight.shape, k=8), L.grid(o, k=9) if b else None
            with torch.no_grad():
                dig.weight.copy_(w)
                if b:
                    dig.bias.copy_(bb)
            one_tile.set_weights(w, bb)
            split.set_weights(w, bb)
        else:
            res = []
            sh = shape if op != "train2" else (5,) + shape[1:]
            for m, opt in zip((dig, one_tile, split), opts):
                m.train(op != "eval")
                x = L.grid(*sh, k=n + 11, lo=-1, hi=1).requires_grad_(True)
                opt.zero_grad()
                y = m(x)
                y.backward(L.grid(*y.shape, k=n + 17, lo=-1, hi=1))
                if op != "eval":
                    opt.step()
                res.append((y.detach(), x.grad))
            for what, j in (("output", 0), ("gradient", 1)):
                # learned scales change the parametrisation, so that updates differ from the digital layer
                refs = (0, 1) if not learn else ((1,) if n else (0,))
                rec.check(res[2][j].shape == res[0][j].shape and (learn and n or mcrt.close(res[0][j], res[2][j], 1e-4, 1e-5)),
                          key + ":" + what, lambda: "%s, step %d (%s): %s instead of %s" % (where, n, op, res[2][j], res[0][j]))
        rec.step()
        w, bb = split.get_weights()
        if not learn or n == 3:
            rec.check(mcrt.close(w.flatten(1), dig.weight.detach().flatten(1), 1e-4, 1e-5), key + ":weights",
                      lambda: "%s, step %d (%s): %s instead of %s" % (where, n, op, w, dig.weight))
            rec.check((bb is None) == (not b) and (bb is None or mcrt.close(bb, dig.bias.detach(), 1e-4, 1e-5)), key + ":bias",
                      lambda: "%s, step %d (%s): %s instead of %s" % (where, n, op, bb, dig.bias))
            w1, b1 = one_tile.get_weights()
            rec.check(mcrt.close(w.flatten(1), w1.flatten(1), 1e-4, 1e-5), key + ":onetile", where)
        y = split.eval()(L.grid(*shape, k=29)).detach()
        with torch.no_grad():
            ww = w.reshape(dig.weight.shape).to(dig.weight.dtype)
            dd = type(dig)(i, o, *([CONV[way][3]] if way in CONV else []), bias=b)
            dd.weight.copy_(ww)
            if b:
                dd.bias.copy_(bb)
            ref = dd(L.grid(*shape, k=29))
        rec.check(mcrt.close(y, ref, 1e-4, 1e-5), key + ":response", lambda: "%s, step %d (%s): the response is not the product "
                  "with the weights read back" % (where, n, op))
        rec.state(key, where, n, w, y)
        if rec.fails:
            return False
    rec.trace()
    return True
