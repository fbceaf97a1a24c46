"""K03: hardware configurations are isolated values."""
import copy
import dataclasses
import enum
import inspect
import itertools
import pickle
import re

import numpy as np
import torch
from torch import nn

import mclib as L
import mcconf as Z
import mcrng
import mcrt
from aihwkit.nn import (AnalogConv1d, AnalogConv2d, AnalogConv2dMapped, AnalogConv3d, AnalogLinear,
                        AnalogLinearMapped, AnalogRNN, AnalogSequential)
from aihwkit.nn.modules.rnn.cells import AnalogGRUCell, AnalogLSTMCell, AnalogVanillaRNNCell
from aihwkit.nn.conversion import convert_to_analog
from aihwkit.optim import AnalogSGD
import aihwkit.simulator.configs as C
import aihwkit.simulator.configs.compounds as CC
import aihwkit.simulator.configs.devices as CD
import aihwkit.simulator.parameters as P
from aihwkit.simulator import presets as PR
from aihwkit.simulator.configs.helpers import build_config
from aihwkit.simulator.presets import web as PW
from aihwkit.simulator.parameters.base import RPUConfigBase
from aihwkit.simulator.parameters.io import IOParameters
from aihwkit.simulator.parameters.training import UpdateParameters

RULE = ("For every predefined configuration, device and configuration class: two instances share no mutable part, it "
        "builds, copies, pickles, prints and trains without changing; for every configuration, every leaf changed on "
        "the shared object, on one layer's configuration or on a copy leaves every other layer's configuration and "
        "behaviour as they were; and every word of build / change / use / copy steps over two layers.")
BOUNDS = {"quick": {"word length": 3, "configurations": "all", "leaves": "all"},
          "thorough": {"word length": 4, "configurations": "all", "leaves": "all"}}
ASSUMPTIONS = ["objects passed by keyword straight into a configuration may stay shared with the caller",
               "the tiles of one layer belong together; their configurations may be shared"]
BASIC = (int, float, str, bool, bytes, complex, type(None), type, enum.Enum)


def is_part(o):
    return not isinstance(o, BASIC) and not callable(o) and (
        isinstance(o, (list, dict, set, np.ndarray, torch.Tensor)) or type(o).__module__.startswith("aihwkit"))


def children(o):
    if isinstance(o, dict):
        return [(repr(k), v) for k, v in o.items()]
    if isinstance(o, (list, tuple, set)):
        return [(str(i), v) for i, v in enumerate(o)]
    if isinstance(o, (np.ndarray, torch.Tensor)):
        return []
    return [(k, v) for k, v in vars(o).items()] if hasattr(o, "__dict__") else []


def parts(o, path="", seen=None):
    """Every mutable object reachable from o: id -> (path, object)."""
    seen = {} if seen is None else seen
    if isinstance(o, tuple) or is_part(o):
        if id(o) in seen:
            return seen
        if not isinstance(o, tuple):
            seen[id(o)] = (path, o)
        for k, v in children(o):
            parts(v, path + "." + k, seen)
    return seen


def snap(o):
    if isinstance(o, (np.ndarray, torch.Tensor)):
        return np.asarray(o.detach() if isinstance(o, torch.Tensor) else o).tolist()
    if isinstance(o, tuple) or is_part(o):
        return (type(o).__name__, [(k, snap(v)) for k, v in children(o)])
    return repr(o) if not callable(o) or isinstance(o, (type, enum.Enum)) else getattr(o, "__name__", "f")


def diff(a, b, path=""):
    if a == b:
        return []
    if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(a[1], list) and isinstance(b[1], list):
        da, db = dict(a[1]), dict(b[1])
        return [x for k in {**da, **db} if da.get(k) != db.get(k)
                for x in (diff(da[k], db[k], path + "." + k) if k in da and k in db else [path + "." + k])]
    return [(path, a, b)]


def shared(a, b):
    pa, pb = parts(a), parts(b)
    return [(pa[i][0], pb[i][0]) for i in set(pa) & set(pb)]


def leaves(o):
    """(holder, name, value) for every plain value."""
    out = []
    for _, (path, p) in parts(o).items():
        if isinstance(p, (np.ndarray, torch.Tensor, set)):
            continue
        for k, v in (list(enumerate(p)) if isinstance(p, list) else list(p.items()) if isinstance(p, dict)
                     else list(vars(p).items())):
            if isinstance(v, (int, float, str, bool, enum.Enum, type(None))):
                out.append((path, p, k, v))
    return out


def other(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, enum.Enum):
        members = list(type(v))
        return members[(members.index(v) + 1) % len(members)]
    if isinstance(v, (int, float)):
        return v + 1
    if isinstance(v, str):
        return v + "?"
    return 0.125


def put(p, k, v):
    if isinstance(p, (list, dict)):
        p[k] = v
    else:
        object.__setattr__(p, k, v)


def configs():
    """Every configuration this check builds: name -> factory."""
    out = {"zoo:" + n: f for n, f in Z.zoo().items()} if isinstance(Z.zoo(), dict) else {}
    for n, c in inspect.getmembers(PR, inspect.isclass):
        if issubclass(c, RPUConfigBase):
            out["preset:" + n] = c
        elif issubclass(c, CC.UnitCell):
            out["preset:" + n] = lambda c=c: C.UnitCellRPUConfig(device=c())
        elif issubclass(c, CD.PulsedDevice):
            out["preset:" + n] = lambda c=c: C.SingleRPUConfig(device=c())
            out["cell:" + n] = lambda c=c: C.UnitCellRPUConfig(
                device=CC.ReferenceUnitCell(unit_cell_devices=[c(), c()]))
        elif issubclass(c, IOParameters):
            out["preset:" + n] = lambda c=c: C.SingleRPUConfig(forward=c(), backward=c())
        elif issubclass(c, UpdateParameters):
            out["preset:" + n] = lambda c=c: C.SingleRPUConfig(update=c())
    for n in ("WebComposerInferenceRPUConfig", "OldWebComposerInferenceRPUConfig"):
        out["preset:" + n] = getattr(PW, n)
    for n, c in inspect.getmembers(C, inspect.isclass):
        if issubclass(c, RPUConfigBase) and c is not RPUConfigBase:
            out["config:" + n] = c
    for n in ("ReferenceUnitCell", "OneSidedUnitCell", "VectorUnitCell"):
        for k in (1, 2, 3):
            out[f"cell:{n}-{k}"] = lambda n=n, k=k: C.UnitCellRPUConfig(device=getattr(CC, n)(
                unit_cell_devices=[CD.SoftBoundsDevice(w_max=0.5 + i) for i in range(k)]))
    return out


def value_classes():
    out = {}
    for m in (C, CC, CD, P, PR, PW):
        for n, c in inspect.getmembers(m, inspect.isclass):
            if dataclasses.is_dataclass(c) and c.__module__.startswith("aihwkit"):
                out[n] = c
    return out


X = torch.tensor([[0.5, -0.25, 0.75, -1.0, 0.25, 0.5, 0.125, -0.5], [0.25, 0.5, -0.125, 1.0, 0.5, -0.5, 0.75, 0.25]])


def build(cfg, cls=AnalogLinear):
    torch.manual_seed(4)
    mcrng.reset(3)
    return AnalogSequential(cls(8, 8, bias=True, rpu_config=cfg))


def cfgs(m):
    return [t.rpu_config for t in m.analog_tiles()]


def use(m):
    opt = AnalogSGD(m.parameters(), lr=0.05)
    opt.regroup_param_groups()
    m.train()
    for _ in range(2):
        opt.zero_grad()
        m(X).pow(2).sum().backward()
        opt.step()
    m.eval()
    m(X)
    if hasattr(cfgs(m)[0], "noise_model"):
        m.program_analog_weights()
        m.drift_analog_weights(10.0)
    w, b = m[0].get_weights()
    m[0].set_weights(w, b)
    m.state_dict()
    str(m)
    repr(cfgs(m)[0])


def buildable(rec, cfg, where):
    """None when a class is abstract about its parts and says so."""
    return build(cfg)


# ---------------------------------------------------------------- instances
def run_instances(case, rec):
    c = value_classes()[case["cls"]]
    try:
        a, b = c(), c()
    except TypeError:
        rec.state(case["cls"], "needs arguments")
        return
    where = case["cls"]
    s = shared(a, b)
    rec.check(not s, f"shared:instances:{where}", lambda: (where, s))
    rec.check(snap(a) == snap(b), "instances:differ", lambda: (where, diff(snap(a), snap(b))))
    s0 = snap(b)
    for path, p, k, v in leaves(a):
        put(p, k, other(v))
        rec.step(1)
        if not rec.check(snap(b) == s0 and snap(c()) == s0, "instances:leak", lambda: (where, path, k)):
            break
        put(p, k, v)
        rec.state(where, path, str(k))
    # lists can grow
    for _, (path, p) in parts(a).items():
        if isinstance(p, list):
            p.append(0.5)
            rec.check(snap(b) == s0 and snap(c()) == s0, "instances:leak", lambda: (where, path, "append"))
            p.pop()
    d = copy.deepcopy(a)
    rec.check(snap(d) == s0 and not shared(a, d), "copy", lambda: (where, shared(a, d)))
    q = pickle.loads(pickle.dumps(a))
    rec.check(snap(q) == s0, "pickle", lambda: (where, diff(snap(q), s0)))
    text = lambda o: [re.sub("0x[0-9a-f]+", "", x) for x in (str(o), repr(o))]
    t = text(a)
    rec.check(all(isinstance(x, str) and x for x in t) and snap(a) == s0 and text(b) == t, "print",
              lambda: (where, t))
    if all(type(p).__eq__ is not object.__eq__ for _, p in parts(a).values()):
        rec.check(a == b and a == d, "equality", lambda: where)
    rec.trace()


# ---------------------------------------------------------------- one configuration
def run_leaves(case, rec):
    make = configs()[case["cfg"]]
    c = make()
    s0 = snap(c)
    where = case["cfg"]
    try:
        a = build(c)
    except Exception as e:  # pylint: disable=broad-except
        if case["cfg"].startswith(("preset:", "zoo:")):
            rec.fail("build", (where, repr(e)))
        rec.check(snap(c) == s0, "build:changed", lambda: (where, diff(s0, snap(c))))
        return
    rec.check(snap(c) == s0, "build:changed", lambda: (where, diff(s0, snap(c))))
    b = build(c)
    rec.check(snap(c) == s0, "build:changed", lambda: (where, diff(s0, snap(c))))
    ca, cb = cfgs(a), cfgs(b)
    for x, y, n in ((c, ca, "config/layer"), (c, cb, "config/layer"), (ca, cb, "layer/layer")):
        s = shared(x, y)
        rec.check(not s, "shared:" + n, lambda: (where, s[:5]))
    d = copy.deepcopy(a)
    s = shared(cfgs(d), ca)
    rec.check(not s, "shared:copied layer", lambda: (where, s[:5]))
    sa, sb = snap(ca), snap(cb)
    for path, p, k, v in leaves(c):
        put(p, k, other(v))
        rec.step(1)
        rec.check(snap(ca) == sa and snap(cb) == sb, "leak:config", lambda: (where, path, k))
        put(p, k, v)
        rec.state(where, "c", path, str(k))
    for path, p, k, v in leaves(ca):
        put(p, k, other(v))
        rec.step(1)
        rec.check(snap(c) == s0 and snap(cb) == sb, "leak:layer", lambda: (where, path, k))
        put(p, k, v)
        rec.state(where, "a", path, str(k))
    use(a)
    rec.check(snap(c) == s0 and snap(cb) == sb, "use:changed", lambda: (where, diff(sb, snap(cb))))
    rec.check(snap(cfgs(a)) == sa, "use:own", lambda: (where, diff(sa, snap(cfgs(a)))[:4]))
    q = pickle.loads(pickle.dumps(a))
    rec.check(snap(cfgs(q)) == snap(cfgs(a)), "pickle:layer", lambda: (where, diff(snap(cfgs(q)), snap(cfgs(a)))[:4]))
    rec.trace()


OPS = ["A", "B", "c", "a", "u", "k", "s"]


def quiet_behaviour(m):
    """What the layer does, read without drawing numbers that matter."""
    w, b = m[0].get_weights()
    return [w.clone(), None if b is None else b.clone()] + [snap(cfgs(m)), sorted(
        (k, v.tolist()) for k, v in m.state_dict().items() if type(v) is torch.Tensor and "analog_module.weight" not in k
    )]


def equal(x, y):
    return all((a is None and b is None) or (torch.equal(a, b) if isinstance(a, torch.Tensor) else a == b)
               for a, b in zip(x, y))


def run_words(case, rec):
    make = configs()[case["cfg"]]
    for word in itertools.product(OPS, repeat=case["depth"]):
        c = make()
        objs = {"c": snap(c)}
        layers = {}
        beh = {}
        nleaf = 0
        for i, op in enumerate(word):
            where = (case["cfg"], word[:i + 1])
            touched = set()
            if op in "AB":
                layers[op] = build(c)
                touched.add(op)
            elif op == "c":
                # a change every configuration accepts
                c.mapping.weight_scaling_omega = 0.5 + 0.125 * nleaf
                nleaf += 1
                touched.add("c")
            elif op == "a" and "A" in layers:
                for cc in cfgs(layers["A"]):
                    cc.mapping.weight_scaling_omega += 0.125
                    cc.mapping.max_input_size += 8
                    cc.pre_post.input_range.init_value += 0.5
                    if hasattr(getattr(cc, "update", None), "desired_bl"):
                        cc.update.desired_bl += 1
                    if hasattr(cc, "forward"):
                        cc.forward.out_noise += 0.125
                touched.add("A")
            elif op == "u" and "B" in layers:
                use(layers["B"])
                touched.add("B")
            elif op == "k" and "A" in layers:
                layers["K"] = copy.deepcopy(layers["A"])
                touched.add("K")
            elif op == "s" and "B" in layers and "A" in layers:
                layers["B"][0].load_state_dict(copy.deepcopy(build(c)[0].state_dict()), load_rpu_config=False)
                touched.add("B")
            for n, m in layers.items():
                if n not in touched and n in beh:
                    rec.check(equal(quiet_behaviour(m), beh[n]), "word:layer", lambda: (where, n))
                beh[n] = quiet_behaviour(m)
            if "c" not in touched:
                rec.check(snap(c) == objs["c"], "word:config", lambda: (where, diff(objs["c"], snap(c))))
            objs["c"] = snap(c)
            rec.step(1)
            if rec.fails:
                return
        rec.state(case["cfg"], word)
        rec.trace()


# ---------------------------------------------------------------- layer kinds and conversion
def kinds(cfg):
    return {
        "linear": lambda: AnalogLinear(3, 2, rpu_config=cfg),
        "mapped": lambda: AnalogLinearMapped(9, 7, rpu_config=cfg),
        "conv1": lambda: AnalogConv1d(1, 2, 2, rpu_config=cfg),
        "conv2": lambda: AnalogConv2d(1, 2, 2, rpu_config=cfg),
        "conv3": lambda: AnalogConv3d(1, 2, 2, rpu_config=cfg),
        "conv2m": lambda: AnalogConv2dMapped(3, 2, 2, rpu_config=cfg),
        "rnn": lambda: AnalogRNN(AnalogVanillaRNNCell, 2, 2, rpu_config=cfg),
        "lstm": lambda: AnalogRNN(AnalogLSTMCell, 2, 2, rpu_config=cfg),
        "gru": lambda: AnalogRNN(AnalogGRUCell, 2, 2, rpu_config=cfg),
        "convert": lambda: convert_to_analog(nn.Sequential(nn.Linear(3, 2), nn.ReLU(), nn.Linear(2, 2)), cfg),
        "convert-nested": lambda: convert_to_analog(
            nn.Sequential(nn.Sequential(nn.Linear(3, 2), nn.Linear(2, 2)), nn.Conv2d(1, 1, 1)), cfg),
    }


def run_layers(case, rec):
    make = configs()[case["cfg"]]
    names = list(kinds(None))
    for n1, n2 in itertools.product(names, repeat=2):
        c = make()
        c.mapping.max_input_size = 4
        c.mapping.max_output_size = 4
        s0 = snap(c)
        m1, m2 = kinds(c)[n1](), kinds(c)[n2]()
        where = (case["cfg"], n1, n2)
        rec.check(snap(c) == s0, "build:changed", lambda: (where, diff(s0, snap(c))))
        for x, y in ((cfgs(m1), cfgs(m2)), (c, cfgs(m1)), (c, cfgs(m2))):
            s = shared(x, y)
            rec.check(not s, "shared:layers", lambda: (where, s[:4]))
        for m in (m1, m2):
            ls = [x for x in m.modules() if isinstance(x, (AnalogLinear, AnalogConv2d, AnalogConv1d, AnalogConv3d))]
            for x, y in itertools.combinations(ls, 2):
                s = shared(cfgs(x), cfgs(y))
                rec.check(not s, "shared:within", lambda: (where, s[:4]))
        rec.state(*where)
        rec.step(1)
    # default configurations
    for n in names[:9]:
        a, b = kinds(None)[n](), kinds(None)[n]()
        s = shared(cfgs(a), cfgs(b))
        rec.check(not s, "shared:default", lambda: (n, s[:4]))
        rec.state("default", n)
    rec.trace()


# ---------------------------------------------------------------- the configuration builder
ALGOS = {"sgd": "SingleRPUConfig", "mp": "DigitalRankUpdateRPUConfig", "mixed-precision": "DigitalRankUpdateRPUConfig",
         "tiki-taka": "TransferCompound", "ttv1": "TransferCompound", "tt": "TransferCompound",
         "ttv2": "ChoppedTransferCompound", "chopped-ttv2": "ChoppedTransferCompound",
         "ttv3": "ChoppedTransferCompound", "c-ttv2": "ChoppedTransferCompound", "agad": "DynamicTransferCompound",
         "ttv4": "DynamicTransferCompound"}


def run_builder(case, rec):
    for algo, dev, form, n in itertools.product(ALGOS, [CD.SoftBoundsDevice, CD.ConstantStepDevice,
                                                        CD.SoftBoundsReferenceDevice],
                                                ["class", "instance"], [1, 2, 3]):
        if n > 1 and algo != "sgd":
            continue
        where = (algo, dev.__name__, form, n)
        d = dev(dw_min=0.0123) if form == "instance" else dev
        io = IOParameters(out_noise=0.0321) if form == "instance" else IOParameters
        up = UpdateParameters(desired_bl=17) if form == "instance" else UpdateParameters
        before = [snap(x) for x in (d, io, up)] if form == "instance" else None
        a = build_config(algo, d, io, up, n_devices=n, construction_seed=5)
        b = build_config(algo, d, io, up, n_devices=n, construction_seed=5)
        rec.check(snap(a) == snap(b), "builder:differs", lambda: (where, diff(snap(a), snap(b))[:3]))
        s = shared(a, b)
        rec.check(not s, "builder:shared", lambda: (where, s[:4]))
        want = "VectorUnitCell" if n > 1 else ALGOS[algo]
        rec.check(want in (type(a).__name__, type(a.device).__name__), "builder:type", lambda: (where, type(a.device)))
        if form == "instance":
            rec.check([snap(x) for x in (d, io, up)] == before, "builder:argument", lambda: where)
            for x in (d, io, up):
                s = shared(a, x)
                rec.check(not s, "builder:shared-argument", lambda: (where, s[:4]))
            rec.check(a.forward.out_noise == 0.0321 and a.backward.out_noise == 0.0321 and a.update.desired_bl in (17, 5),
                      "builder:parameters", lambda: (where, a))
        devs = [p for _, p in parts(a.device).values() if type(p) is dev]
        count = {"VectorUnitCell": n, "SingleRPUConfig": 1, "DigitalRankUpdateRPUConfig": 1}.get(want, 2)
        rec.check(len(devs) == count, "builder:devices", lambda: (where, len(devs)))
        for p in devs:
            got = dict(vars(p))
            ref = dict(vars(d if form == "instance" else dev()))
            free = {"construction_seed", "subtract_symmetry_point", "reference_mean", "reference_std"}
            if want.startswith(("Chopped", "Dynamic", "Transfer")):
                free |= set()
            bad = [k for k in ref if k not in free and repr(got.get(k)) != repr(ref[k])]
            rec.check(not bad, "builder:device", lambda: (where, [(k, got.get(k), ref[k]) for k in bad]))
        for x, y in itertools.combinations(devs, 2):
            rec.check(not shared(x, y), "builder:shared-devices", lambda: where)
        use(build(a))
        rec.check(snap(a) == snap(b), "builder:use", lambda: where)
        rec.state(*where)
        rec.step(1)
    rec.trace()


def run(case, rec):
    globals()["run_" + case["what"]](case, rec)


def cases(tier):
    deep = tier == "thorough"
    out = [dict(what="instances", cls=n) for n in value_classes()]
    names = list(configs())
    out += [dict(what="leaves", cfg=n) for n in names]
    words = [n for n in names if n.startswith("zoo:")]
    pick = words if deep else [n for n in words if n[4:] in (
        "fp", "ideal", "ConstantStep", "Vector-ALL", "Reference", "OneSided", "Transfer", "Chopped", "MixedPrec",
        "TorchTransfer-chop", "inference", "torch", "irdropt", "quant", "custom")]
    out += [dict(what="words", cfg=n, depth=4 if deep else 3) for n in pick]
    out += [dict(what="layers", cfg=n) for n in ("zoo:ideal", "zoo:ConstantStep", "zoo:Reference", "zoo:inference",
                                                 "zoo:torch", "zoo:quant", "zoo:Transfer", "zoo:fp")]
    out += [dict(what="builder")]
    return out
