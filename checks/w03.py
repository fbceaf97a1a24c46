"""W03: converting a model to analog and back preserves structure, parameters and function."""
import copy
import itertools

import torch
from torch import nn

import mclib as L
import mcrng
import mcrt
from aihwkit.nn import (AnalogConv1d, AnalogConv1dMapped, AnalogConv2d, AnalogConv2dMapped, AnalogConv3d,
                        AnalogConv3dMapped, AnalogLinear, AnalogLinearMapped, AnalogSequential, AnalogWrapper)
from aihwkit.nn.conversion import (_DEFAULT_MAPPED_CONVERSION_MAP, convert_to_analog, convert_to_digital)
from aihwkit.nn.modules.base import AnalogLayerBase
from aihwkit.optim.context import AnalogContext

RULE = ("case = shape of a module tree x conversion option; below each case all assignments of leaf kinds are built, converted "
        "to analog, back, and to analog again; a state is (tree, options, stage, names and classes, output)")
BOUNDS = {"quick": "trees of depth <= 2 over 8 leaf and 4 container kinds, all exclusions of one name, 3 conversion maps, 5 tile kinds, "
                   "in place or not, 3 train/eval patterns; convolutions with all listed options",
          "thorough": "adds trees of depth 3, trees with three children and all exclusions of two names"}
ASSUMPTIONS = ["ideal hardware", "tied parameters (as opposed to shared modules) are not considered"]
N = 2


class Own(nn.Module):
    """Unsupported leaf with a parameter and a buffer."""

    def __init__(self):
        super().__init__()
        self.gain = nn.Parameter(torch.tensor([0.5, -1.5]))
        self.register_buffer("shift", torch.tensor([0.25, 0.75]))

    def forward(self, x):
        return x * self.gain + self.shift


def make_net(kind):
    class Net(nn.Module):
        def __init__(self, a, b):
            super().__init__()
            self.a, self.b, self.flag = a, b, kind
            self.nothing = None
            self.register_module("none", None)

        if kind == "chain":
            def forward(self, x):
                return self.b(self.a(x))
        else:
            def forward(self, x):
                return self.a(x) + 0.5 * self.b(x)
    return Net


Chain, Sum = make_net("chain"), make_net("sum")


class Listed(nn.Module):
    def __init__(self, *mods):
        super().__init__()
        self.items = nn.ModuleList(mods)

    def forward(self, x):
        for m in self.items:
            x = m(x)
        return x


BOXES = {"Q": nn.Sequential, "C": Chain, "P": Sum, "M": Listed}
MODES = ("train", "eval", "mixed")


class Maker:
    """Builds a tree; one shared linear layer and one shared box per tree."""

    def __init__(self, cfg):
        self.cfg, self.n, self.shared, self.sharedbox = cfg, 0, None, None

    def linear(self, bias=True):
        self.n += 1
        m = nn.Linear(N, N, bias=bias)
        with torch.no_grad():
            m.weight.copy_(torch.tensor([[0.5, -0.25], [0.125, 0.75]]) * (1 + 0.25 * self.n))
            if bias:
                m.bias.copy_(torch.tensor([0.3, -0.2]) * self.n)
        return m

    def leaf(self, k):
        if k == "L":
            return self.linear()
        if k == "N":
            return self.linear(False)
        if k == "S":
            self.shared = self.shared or self.linear()
            return self.shared
        if k == "T":
            self.sharedbox = self.sharedbox or nn.Sequential(self.linear(), nn.Tanh())
            return self.sharedbox
        if k == "R":
            return nn.ReLU()
        if k == "B":
            m = nn.BatchNorm1d(N)
            m.running_mean.copy_(torch.tensor([0.1, 0.2]))
            m.running_var.copy_(torch.tensor([0.5, 2.0]))
            return m
        if k == "U":
            return Own()
        if k == "A":
            d = self.linear()
            return AnalogLinear.from_digital(d, L.plain_mapping(L.IDEAL["fp"]()))
        raise KeyError(k)

    def tree(self, t):
        if isinstance(t, str):
            return self.leaf(t)
        return BOXES[t[0]](*[self.tree(s) for s in t[1:]])


def set_modes(m, mode):
    if mode == "eval":
        m.eval()
    elif mode == "mixed":
        for i, k in enumerate(m.modules()):
            k.training = i % 2 == 0
    return m


def all_names(m, prefix=""):
    """(name, module) with repeated modules, stopping at analog layers."""
    yield prefix, m
    if isinstance(m, AnalogLayerBase) and not m.IS_CONTAINER:
        return
    for k, c in m._modules.items():
        if c is not None:
            yield from all_names(c, prefix + "." + k if prefix else k)


LEAVES = "LNSTRBUA"
FEW = "LSRA"


def trees(shape, deep):
    if shape == "leaf":
        yield from LEAVES
    elif shape[0] == "1":
        for a, b in itertools.product(LEAVES, repeat=2):
            yield [shape[1], a, b]
    elif shape[0] == "2":         # box(box(a,b),c) and box(c,box(a,b))
        kinds = LEAVES if deep else FEW
        for a, b, c in itertools.product(kinds, repeat=3):
            yield [shape[1], [shape[2], a, b], c]
            yield [shape[1], c, [shape[2], a, b]]
    elif shape[0] == "3":         # box(box(a,b),box(c,d))
        for a, b, c, d in itertools.product(FEW, repeat=4):
            yield [shape[1], [shape[2], a, b], [shape[3], c, d]]
    elif shape[0] == "4":         # box(box(box(a,b),c),d)
        for a, b, c, d in itertools.product(FEW, repeat=4):
            yield [shape[1], [shape[2], [shape[3], a, b], c], d]
    elif shape[0] == "5":
        for a, b, c in itertools.product(LEAVES, repeat=3):
            yield [shape[1], a, b, c]


CONVOPT = dict(stride=(1, 2), padding=(0, 1), dilation=(1, 2), bias=(True, False))
CONV = {1: (nn.Conv1d, AnalogConv1d, AnalogConv1dMapped, (7,)), 2: (nn.Conv2d, AnalogConv2d, AnalogConv2dMapped, (5, 6)),
        3: (nn.Conv3d, AnalogConv3d, AnalogConv3dMapped, (5, 4, 3))}


def cases(tier):
    deep = tier == "thorough"
    boxes = "QCPM"
    opts = list(L.products(map=("plain", "mapped", "none", "onlylinear"), inplace=(False, True), mode=MODES, tile=("fp",)))
    if not deep:
        opts = [x for x in opts if x["map"] in ("plain", "mapped") or (x["inplace"], x["mode"]) == (False, "mixed")]
    opts += [dict(map=mp, inplace=False, mode="train", tile=t) for t in L.IDEAL if t != "fp" for mp in ("plain", "mapped")]
    for o in opts:
        yield dict(kind="tree", shape="leaf", **o)
    for b in boxes:
        for o in opts:
            yield dict(kind="tree", shape="1" + b, **o)
        for b2 in boxes:
            for o in [x for x in opts if deep or (x["tile"] in ("fp",) and x["map"] in ("plain", "mapped") and
                                                  (x["inplace"], x["mode"]) in ((False, "mixed"), (True, "eval")))]:
                yield dict(kind="tree", shape="2" + b + b2, deep=deep, **o)
            if deep:
                for b3 in boxes:
                    for mode in MODES:
                        for s in "34":
                            yield dict(kind="tree", shape=s + b + b2 + b3, map="plain", inplace=False, mode=mode, tile="fp")
    if deep:
        for b in "QM":
            for o in opts:
                yield dict(kind="tree", shape="5" + b, **o)
    for tile in L.IDEAL:
        for d in CONV:
            if tile in ("torch", "custom") and d != 2:
                continue
            for mp in ("plain", "mapped"):
                yield dict(kind="conv", dim=d, tile=tile, map=mp)
    for w in L.words(["C", "P", "Q", "M"], 4 if deep else 3):
        yield dict(kind="words", word=w)


def config(tile, small=False, alt=False):
    c = L.plain_mapping(L.IDEAL[tile]())
    if small:
        c.mapping.max_input_size = c.mapping.max_output_size = 1
    if alt:
        c.mapping.weight_scaling_omega = 0.75
        c.mapping.weight_scaling_columnwise = True
    return c


def conv_map(kind):
    if kind == "plain":
        return None
    if kind == "mapped":
        return _DEFAULT_MAPPED_CONVERSION_MAP
    if kind == "none":
        return {}
    return {nn.Linear: AnalogLinear}


CLASSMAP = {"plain": {nn.Linear: AnalogLinear, nn.Sequential: AnalogSequential},
            "mapped": {nn.Linear: AnalogLinearMapped, nn.Sequential: AnalogSequential},
            "none": {}, "onlylinear": {nn.Linear: AnalogLinear}}


def is_excluded(name, excl):
    return any(name == e or name.startswith(e + ".") for e in excl)


def structure(m):
    """names -> index of first name of the same module object."""
    first, out = {}, {}
    for n, k in all_names(m):
        out[n] = first.setdefault(id(k), n)
    return out


def plain_class(k):
    return type(k).__bases__[1] if isinstance(k, AnalogWrapper) else type(k)


def tensors(m):
    """Digital parameters and buffers by name."""
    for n, p in itertools.chain(m.named_parameters(), m.named_buffers()):
        if p is not None and not isinstance(p, AnalogContext):
            yield n, p


def snapshot(m):
    """Observable content of a module tree."""
    names = [(n, id(k), type(k), k.training) for n, k in all_names(m)]
    data = {n: p.detach().clone() for n, p in tensors(m)}
    weights = {n: [w.detach().clone() for w in k.get_weights() if w is not None] for n, k in all_names(m)
               if isinstance(k, AnalogLayerBase) and not k.IS_CONTAINER}
    return names, data, weights


def same_snap(a, b):
    return (a[0] == b[0] and a[1].keys() == b[1].keys() and all(mcrt.same(a[1][k], b[1][k]) for k in a[1]) and
            a[2].keys() == b[2].keys() and all(len(a[2][k]) == len(b[2][k]) and
                                               all(mcrt.close(x, y, 0, 0) for x, y in zip(a[2][k], b[2][k])) for k in a[2]))


X = torch.tensor([[0.5, -1.0], [1.5, 0.25], [-0.75, 2.0]])


def function(m):
    """Output in evaluation of a copy (batch norm statistics must not advance the original)."""
    return copy.deepcopy(m)(X).detach()


def run_tree(case, t, excl, rec):
    cmap = CLASSMAP[case["map"]]
    cfg = config(case["tile"], case["map"] == "mapped")
    where = "%s excl=%s" % (t, excl)
    mcrng.reset(4)
    m = set_modes(Maker(cfg).tree(t), case["mode"])
    src_names = dict(all_names(m))
    src_struct = structure(m)
    src_cls = {n: type(k) for n, k in src_names.items()}
    src_mode = {n: k.training for n, k in src_names.items()}
    src_params = {n: (k.weight.detach().clone(), None if k.bias is None else k.bias.detach().clone())
                  for n, k in src_names.items() if type(k) is nn.Linear}
    ana_params = {n: k.get_weights() for n, k in src_names.items() if isinstance(k, AnalogLinear)}
    rest = {n: p.detach().clone() for n, p in tensors(m)}
    ref = function(m)
    before = snapshot(m)
    seen = []

    def specific(name, module, conf):
        seen.append((name, type(module)))
        if name.endswith("1") or name.endswith("b"):
            conf.mapping.weight_scaling_omega = 0.75     # only this layer
        return conf
    a = convert_to_analog(m, cfg, conversion_map=conv_map(case["map"]), specific_rpu_config_fun=specific,
                          exclude_modules=list(excl), inplace=case["inplace"])
    rec.step()
    names = dict(all_names(a))
    rec.state((str(t), tuple(excl), tuple(sorted((n, type(k).__name__, k.training) for n, k in names.items()))))

    def chk(cond, key, text):
        return rec.check(cond, "%s:%s" % (key, case["map"]), lambda: "%s %s: %s" % (case, where, text() if callable(text) else text))
    if not case["inplace"]:
        chk(same_snap(before, snapshot(m)), "source-changed", "the source model was changed by the conversion")
        chk(not ({id(k) for k in m.modules()} & {id(k) for k in a.modules()}) , "source-shared", "converted model re-uses modules of the source")
        ptrs = {p.data_ptr() for _, p in tensors(m) if p.numel()}
        chk(not (ptrs & {p.data_ptr() for _, p in tensors(a) if p.numel()}), "source-aliased",
            "converted model shares memory with the source")
    chk(list(names) == list(src_names), "names", lambda: "module names %s -> %s" % (list(src_names), list(names)))
    if rec.fails:
        return
    chk(isinstance(a, AnalogLayerBase), "root", "root is not an analog module but %s" % type(a).__name__)
    ok = True
    for n, k in names.items():
        want = src_cls[n] if is_excluded(n, excl) or (not n and "" in excl) else cmap.get(src_cls[n], src_cls[n])
        ok &= chk(plain_class(k) is want, "class", lambda n=n, want=want: "%s is %s, expected %s" % (n, type(names[n]).__name__, want.__name__))
        chk(k.training == src_mode[n], "flag", lambda n=n: "training flag of %s is %s, was %s" % (n, names[n].training, src_mode[n]))
    if not excl:
        chk(structure(a) == src_struct, "sharing", lambda: "sharing %s -> %s" % (src_struct, structure(a)))
    chk(len(seen) == len({src_struct[n] for n, _ in seen}) or excl, "specific-twice", lambda: "config function called for %s" % (seen,))
    chk(all(n in names for n, _ in seen) and all(not is_excluded(n, excl) for n, _ in seen), "specific-name", lambda: "config function called for %s" % (seen,))
    for n, _ in seen:
        if src_cls[n] is nn.Linear:
            rec.step()
            for tile in names[n].analog_tiles():
                want = 0.75 if n.endswith("1") or n.endswith("b") else 0.0
                chk(tile.rpu_config.mapping.weight_scaling_omega == want, "specific-config",
                    lambda n=n, tile=tile: "layer %s was built with omega %s" % (n, tile.rpu_config.mapping.weight_scaling_omega))
                chk(type(tile.rpu_config) is type(cfg), "config-class", "class of the configuration")
    chk(cfg == config(case["tile"], case["map"] == "mapped"), "config-changed", "the given configuration was changed")
    if not ok:
        return
    layers = [n for n, k in names.items() if isinstance(k, AnalogLayerBase) and not k.IS_CONTAINER]
    if isinstance(a, AnalogLayerBase) and a.IS_CONTAINER:
        got = [n for n, _ in a.named_analog_layers()]
        uniq = [n for n in layers if structure(a)[n] == n]
        chk(got == uniq, "layer-list", lambda: "named_analog_layers gives %s, layers are %s" % (got, uniq))
    out = function(a)
    chk(mcrt.close(out, ref, 1e-5, 1e-6), "function", lambda: "output %s, before conversion %s" % (out.tolist(), ref.tolist()))
    for n, (w, b) in src_params.items():
        got = names[n].get_weights() if isinstance(names[n], AnalogLayerBase) and not names[n].IS_CONTAINER else (names[n].weight, names[n].bias)
        chk(mcrt.close(got[0].detach(), w, 1e-6, 1e-7) and ((b is None) == (got[1] is None)) and
            (b is None or mcrt.close(got[1].detach(), b, 1e-6, 1e-7)), "weights", lambda n=n: "weights of layer %s" % n)
    kept = dict(tensors(a))
    for n, p in rest.items():
        owner = n.rpartition(".")[0]
        if src_cls.get(owner) in (nn.BatchNorm1d, Own):
            chk(n in kept and mcrt.same(kept[n].detach(), p), "kept-parameter", lambda n=n: "%s lost or changed" % n)
    # and back
    abefore = snapshot(a)
    d = convert_to_digital(a, inplace=case["inplace"])
    rec.step()
    if not case["inplace"]:
        chk(same_snap(abefore, snapshot(a)), "analog-changed", "the analog model was changed by converting it to digital")
        ptrs = {p.data_ptr() for _, p in tensors(d) if p.numel()}
        chk(not (ptrs & {p.data_ptr() for _, p in tensors(a) if p.numel()}), "analog-aliased",
            "digital model shares memory with the analog model")
    dn = dict(all_names(d))
    chk(list(dn) == list(src_names), "back-names", lambda: "module names %s -> %s" % (list(src_names), list(dn)))
    if list(dn) != list(src_names):
        return
    for n, k in dn.items():
        want = nn.Linear if src_cls[n] in (AnalogLinear, nn.Linear) else src_cls[n]
        chk(type(k) is want, "back-class", lambda n=n, want=want: "%s is %s, expected %s" % (n, type(dn[n]).__name__, want.__name__))
        chk(k.training == src_mode[n], "back-flag", lambda n=n: "training flag of %s is %s, was %s" % (n, dn[n].training, src_mode[n]))
    chk(not any(isinstance(k, AnalogLayerBase) for k in d.modules()), "back-analog", "analog layers remain")
    if not excl:
        chk(structure(d) == src_struct, "back-sharing", lambda: "sharing %s -> %s" % (src_struct, structure(d)))
    dout = function(d)
    chk(mcrt.close(dout, ref, 1e-5, 1e-6), "back-function", lambda: "output %s, before conversion %s" % (dout.tolist(), ref.tolist()))
    sd = d.state_dict()
    for n, p in rest.items():
        owner = n.rpartition(".")[0]
        if src_cls.get(owner) in (nn.BatchNorm1d, Own, nn.Linear):
            chk(n in sd and mcrt.close(sd[n], p, 1e-6, 1e-7), "back-parameter", lambda n=n: "%s lost or changed" % n)
    for n, (w, b) in ana_params.items():
        chk(mcrt.close(dn[n].weight.detach(), w, 1e-6, 1e-7), "back-analog-weight", "weights of layer %s" % n)
    # gradient steps of the digital model are those of the source
    again = convert_to_analog(d, config(case["tile"]), conversion_map=conv_map(case["map"]), exclude_modules=list(excl))
    rec.step()
    chk(mcrt.close(function(again), ref, 1e-5, 1e-6), "again-function", "second conversion changes the function")


def run_conv(case, rec):
    dcls, acls, mcls, shape = CONV[case["dim"]]
    k = 2 if case["dim"] < 3 else (2, 1, 2)
    for o in L.products(**CONVOPT):
        if case["dim"] != 2 and o["dilation"] != 1:
            continue
        for size in ((9, 9),) if case["map"] == "plain" else ((4, 2), (7, 1)):
            cfg = config(case["tile"])
            if case["map"] == "mapped":
                cfg.mapping.max_input_size, cfg.mapping.max_output_size = size
            mcrng.reset(5)
            dig = nn.Sequential(dcls(2, 3, k, **o), nn.ReLU(), dcls(3, 1, 1, bias=o["bias"]))
            with torch.no_grad():
                for j, p in enumerate(dig.parameters()):
                    p.copy_(L.grid(*p.shape, k=j))
            x = L.grid(2, 2, *shape, k=3)
            ref = dig(x).detach()
            a = convert_to_analog(dig, cfg, conversion_map=conv_map(case["map"]))
            rec.step()
            out = a(x).detach()
            rec.state((str(o), str(size), tuple(out.shape)))
            key = "%s:%dd" % (case["map"], case["dim"])
            rec.check(type(a[0]) is (mcls if case["map"] == "mapped" else acls), "conv-class:" + key, "%s %s" % (case, o))
            rec.check(mcrt.close(out, ref, 1e-5, 1e-5), "conv-function:" + key, lambda: "%s %s: output differs" % (case, o))
            d = convert_to_digital(a)
            rec.step()
            rec.check(type(d[0]) is dcls and mcrt.close(d(x).detach(), ref, 1e-5, 1e-5), "conv-back:" + key, lambda: "%s %s: output differs" % (case, o))
            for attr in ("kernel_size", "stride", "padding", "dilation", "groups", "padding_mode", "in_channels", "out_channels"):
                rec.check(getattr(d[0], attr) == getattr(dig[0], attr), "conv-option:" + key, lambda: "%s %s: %s is %s" % (case, o, attr, getattr(d[0], attr)))
            for n, p in dig.state_dict().items():
                q = d.state_dict()
                rec.check(n in q and q[n].shape == p.shape and mcrt.close(q[n], p, 1e-6, 1e-7), "conv-parameter:" + key, lambda: "%s %s: %s" % (case, o, n))


def run_words(case, rec):
    """Several roots converted one after the other in one program."""
    kept = []
    for w in case["word"]:
        mcrng.reset(4)
        m = Maker(None).tree([w, "L", "U"])
        ref = function(m)
        kept.append((w, convert_to_analog(m, config("fp")), ref))
        rec.step()
        for w2, a, r in kept:
            out = function(a)
            rec.check(mcrt.close(out, r, 1e-5, 1e-6), "root-function", lambda: "%s: root %s computes %s instead of %s" % (case, w2, out.tolist(), r.tolist()))
            d = convert_to_digital(a)
            rec.check(type(d) is BOXES[w2], "root-class", lambda: "%s: root %s converted back is %s" % (case, w2, type(d)))
            rec.check(mcrt.close(function(d), r, 1e-5, 1e-6), "root-back", lambda: "%s: root %s converted back differs" % (case, w2))
        rec.state((w, tuple(w for w, _, _ in kept)))


def run(case, rec):
    if case["kind"] == "conv":
        return run_conv(case, rec)
    if case["kind"] == "words":
        return run_words(case, rec)
    for t in trees(case["shape"], case.get("deep")):
        mcrng.reset(4)
        names = [n for n, _ in all_names(Maker(None).tree(t)) if n]
        excls = [()]
        if case["map"] in ("plain", "mapped") and case["tile"] == "fp":
            if case["shape"][0] in "1l" or (case["mode"], case["inplace"], case["map"]) == ("mixed", False, "plain"):
                st = structure(Maker(None).tree(t))
                excls += [(n,) for n in names if list(st.values()).count(st[n]) == 1]
            if case.get("deep") or case["shape"][0] == "5":
                excls += [e for e in itertools.combinations([e[0] for e in excls if e], 2)]
        for e in excls:
            run_tree(case, t, e, rec)
            if len(rec.fails) > 20:
                return
        rec.trace()
