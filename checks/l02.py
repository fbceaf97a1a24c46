"""L02: rejected operations leave everything as it was."""
import copy
import itertools

import numpy as np
import torch
from torch import nn

import mcconf as Z
import mclib as L
import mcrng
import mcrt
from k03 import snap
from aihwkit.inference.calibration import InputRangeCalibrationType, calibrate_input_ranges
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogLinearMapped, AnalogRNN, AnalogSequential
from aihwkit.nn.conversion import convert_to_analog
from aihwkit.nn.modules.rnn.cells import AnalogLSTMCell
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import SingleRPUConfig, TorchInferenceRPUConfig, UnitCellRPUConfig, InferenceRPUConfig
from aihwkit.simulator.configs.devices import ConstantStepDevice, SoftBoundsDevice

RULE = ("For every tile implementation and layer, every request of an alphabet of invalid requests at every position of "
        "a training history: a request that raises leaves weights, scales, hidden state, gradients, pending updates, "
        "flags and configuration as they were, and the rest of the history gives exactly what it gives without it.")
BOUNDS = {"quick": {"requests per history": 1, "positions": 3, "pairs": "selected tiles"},
          "thorough": {"requests per history": 2, "positions": 3, "pairs": "all tiles"}}
ASSUMPTIONS = ["a request the library accepts is outside this property",
               "the random streams are restarted before every step, so that numbers drawn by a rejected request do not "
               "count as a change",
               "load_state_dict is PyTorch's: it loads the parts that fit and then raises; judged per tile, and not for "
               "TorchTransferTile, which is a tile of tiles",
               "calibration that fails on its data may keep the ranges it has seen so far",
               "errors raised by PyTorch itself before the library is entered count as rejections too"]
X = torch.tensor([[0.5, -0.25, 0.75, -1.0, 0.25, 0.5, 0.125, -0.5],
                  [0.25, 0.5, -0.125, 1.0, 0.5, -0.5, 0.75, 0.25]])
N = 8


def norm(o, depth=0):
    if isinstance(o, torch.Tensor):
        if o.grad is not None and depth < 6:
            return ("T", str(o.dtype), tuple(o.shape), raw(o), norm(o.grad, 6))
        return ("T", str(o.dtype), tuple(o.shape), raw(o))
    if isinstance(o, np.ndarray):
        return ("N", str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, dict):
        return [(repr(k), norm(v, depth + 1)) for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [norm(v, depth + 1) for v in o]
    if isinstance(o, (int, float, str, bool, bytes, type(None))):
        return repr(o)
    if type(o).__module__.startswith("aihwkit.simulator.tiles") and hasattr(o, "__dict__") and depth < 6:
        return [(k, norm(v, depth + 1)) for k, v in vars(o).items() if k in ("device_config", "_weights")]
    return type(o).__name__


def raw(t):
    try:
        return t.detach().cpu().numpy().tobytes()
    except RuntimeError:
        return "placeholder"


def state(m):
    """Everything an object is: tile states, parameters with gradients, pending updates, flags, configurations."""
    out = {}
    for n, l in m.named_modules():
        out[n + ":training"] = repr(l.training)
        out[n + ":hooks"] = repr([len(l._forward_hooks), len(l._forward_pre_hooks), len(l._backward_hooks)])
    for n, t in m.named_analog_tiles():
        s = t.__getstate__()
        cfg = t.rpu_config
        out[n + ":config"] = repr(snap(cfg))
        scratch = ("rpu_config", "analog_lr") if "grad_tile" in n else ("rpu_config",)
        if "grad_tile" in n and isinstance(s.get("state_extra"), dict):
            s["state_extra"] = {k: v for k, v in s["state_extra"].items() if k != "rpu.learning_rate"}
        out[n + ":state"] = norm({k: v for k, v in s.items() if not k.startswith("_") and k not in scratch})
        out[n + ":hidden"] = norm(dict(t.get_hidden_parameters()) if hasattr(t, "get_hidden_parameters") else {})
        out[n + ":weights"] = norm(t.get_weights(apply_weight_scaling=False) if hasattr(t, "get_weights")
                                   else t.tile.get_weights())
        out[n + ":scales"] = norm([getattr(t, f)() if hasattr(t, f) else None for f in ("get_scales", "get_mapping_scales")])
        if "grad_tile" not in n:  # TorchTransferTile sets that one anew in every update
            out[n + ":lr"] = repr(t.get_learning_rate())
        c = t.get_analog_ctx() if hasattr(t, "get_analog_ctx") and t.analog_ctx is not None else None
        if c is not None:
            out[n + ":pending"] = norm([list(c.analog_input), list(c.analog_grad_output), repr(c.use_indexed),
                                        ])
    for n, p in m.named_parameters():
        if "analog_ctx" not in n:
            out[n] = norm(p)
    for n, b in m.named_buffers():
        out["buffer:" + n] = norm(b)
    return out


def changed(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def reset(i):
    mcrng.reset(17 + i)
    torch.manual_seed(31 + i)


def build(kind, layer="linear"):
    reset(0)
    c = Z.seeded(Z.zoo()[kind]())
    if layer == "linear":
        l = AnalogLinear(N, N, bias=True, rpu_config=c)
    elif layer == "mapped":
        c.mapping.max_input_size = c.mapping.max_output_size = 4
        l = AnalogLinearMapped(N, N, bias=True, rpu_config=c)
    m = AnalogSequential(l)
    o = AnalogSGD(m.parameters(), lr=0.05)
    o.regroup_param_groups()
    m.train()
    return m, o


def other_model(kind):
    reset(9)
    name = {"training": "torch", "inference": "SoftBounds"}[Z.kind_of(kind)]
    return AnalogSequential(AnalogLinear(N, N, bias=True, rpu_config=Z.seeded(Z.zoo()[name]())))


def tile(m):
    return next(m.analog_tiles())


def sd(m):
    return copy.deepcopy(m.state_dict())


def without(d, sub):
    return type(d)((k, v) for k, v in d.items() if sub not in k)


def drop_ctx(m, f):
    d = sd(m)
    for k in list(d):
        if "analog_tile_state" in k or "analog_state" in k:
            d[k] = f(d[k])
    return d


def bad_tile_state(m, f):
    d = sd(m)
    hit = False
    for k, v in d.items():
        if isinstance(v, dict):
            f(v)
            hit = True
    if not hit:
        raise RuntimeError("nothing to spoil")
    return d


def hidden_bad(t, how):
    h = t.get_hidden_parameters()
    if not h:
        raise RuntimeError("no hidden parameters")
    h = type(h)((k, v.clone()) for k, v in h.items())
    k = list(h)[-1]
    if how == "missing":
        h.pop(k)
    elif how == "shape":
        h[k] = torch.zeros(3, 3)
    elif how == "extra":
        h["nothing"] = torch.zeros(N, N)
    elif how == "order":
        h = type(h)(reversed(list(h.items())))
        h.pop(k)
    t.set_hidden_parameters(h)


def keep_bwd(m, x, g):
    was = m.training
    m.eval()  # the forward pass itself is fine: it must not adapt ranges
    y = m(x)
    m.train(was)
    y.backward(g)


def broken(n):
    for _ in range(n):
        yield (X,), {}
    raise OSError("no more data")


# name -> request(model, optimiser, kind)
REQ = {
    "set_weights:rows": lambda m, o, k: m[0].set_weights(torch.zeros(N + 1, N), torch.zeros(N)),
    "set_weights:cols": lambda m, o, k: m[0].set_weights(torch.zeros(N, N + 1), torch.zeros(N)),
    "set_weights:flat": lambda m, o, k: m[0].set_weights(torch.zeros(N * N), torch.zeros(N)),
    "set_weights:scalar": lambda m, o, k: m[0].set_weights(torch.tensor(0.5), torch.zeros(N)),
    "set_weights:bias": lambda m, o, k: m[0].set_weights(torch.full((N, N), 0.25), torch.zeros(N + 1)),
    "set_weights:nobias": lambda m, o, k: m[0].set_weights(torch.full((N, N), 0.25)),
    "set_weights:none": lambda m, o, k: m[0].set_weights(None, torch.zeros(N)),
    "set_weights:real-rows": lambda m, o, k: m[0].set_weights(torch.zeros(N + 1, N), torch.zeros(N), realistic=True),
    "tile.set_weights": lambda m, o, k: tile(m).set_weights(torch.zeros(3, N)),
    "tile.set_weights:bias": lambda m, o, k: tile(m).set_weights(torch.full((N, N), 0.25), torch.zeros(3)),
    "core.set_weights": lambda m, o, k: tile(m).tile.set_weights(torch.zeros(3, N)),
    "core.set_weights:2": lambda m, o, k: tile(m).tile.set_weights(torch.zeros(N, 3)),
    "forward:width": lambda m, o, k: m(torch.zeros(2, N + 1)),
    "forward:narrow": lambda m, o, k: m(torch.zeros(2, N - 1)),
    "forward:scalar": lambda m, o, k: m(torch.tensor(1.0)),
    "forward:dtype": lambda m, o, k: m(torch.zeros(2, N, dtype=torch.int64)),
    "forward:str": lambda m, o, k: m("x"),
    "forward:none": lambda m, o, k: m(None),
    "backward:grad": lambda m, o, k: keep_bwd(m, X, torch.ones(2, N + 1)),
    "tile.forward": lambda m, o, k: tile(m).joint_forward(torch.zeros(2, N + 2)),
    "tile.backward": lambda m, o, k: tile(m).backward(torch.zeros(2, N + 2)),
    "tile.update:x": lambda m, o, k: tile(m).update(torch.zeros(2, N + 2), torch.zeros(2, N)),
    "tile.update:d": lambda m, o, k: tile(m).update(torch.ones(2, N), torch.ones(2, N + 2)),
    "tile.update:batch": lambda m, o, k: tile(m).update(torch.ones(2, N), torch.ones(3, N)),
    "core.forward": lambda m, o, k: tile(m).tile.forward(torch.zeros(2, N + 5)),
    "core.backward": lambda m, o, k: tile(m).tile.backward(torch.zeros(2, N + 5)),
    "core.update": lambda m, o, k: tile(m).tile.update(torch.ones(2, N), torch.ones(2, N + 5), False),
    "core.update:batch": lambda m, o, k: tile(m).tile.update(torch.ones(2, N), torch.ones(3, N), False),
    "core.update:x": lambda m, o, k: tile(m).tile.update(torch.ones(2, N + 5), torch.ones(2, N), False),
    "core.index": lambda m, o, k: tile(m).tile.forward_indexed(torch.zeros(1, 1, 2, 2), torch.zeros(1, 8, 1), True),
    "core.set_shared": lambda m, o, k: tile(m).tile.set_shared_weights(torch.zeros(3, 3)),
    "core.columns": lambda m, o, k: tile(m).tile.reset_columns(99, 1, 1.0),
    "core.columns:neg": lambda m, o, k: tile(m).tile.reset_columns(-3, 99, 1.0),
    "core.delta": lambda m, o, k: tile(m).tile.set_delta_weights(torch.zeros(3, 3)),
    "core.hidden": lambda m, o, k: tile(m).tile.set_hidden_parameters(torch.zeros(1, 3, 3)),
    "core.hidden:flat": lambda m, o, k: tile(m).tile.set_hidden_parameters(torch.zeros(4)),
    "core.hidden_update_index": lambda m, o, k: tile(m).tile.set_hidden_update_index(99),
    "hidden:missing": lambda m, o, k: hidden_bad(tile(m), "missing"),
    "hidden:shape": lambda m, o, k: hidden_bad(tile(m), "shape"),
    "hidden:extra": lambda m, o, k: hidden_bad(tile(m), "extra"),
    "hidden:order": lambda m, o, k: hidden_bad(tile(m), "order"),
    "hidden:none": lambda m, o, k: tile(m).set_hidden_parameters(None),
    "lr:negative": lambda m, o, k: tile(m).set_learning_rate(-0.5),
    "lr:string": lambda m, o, k: tile(m).set_learning_rate("fast"),
    "mapping:shape": lambda m, o, k: tile(m).set_mapping_scales(torch.ones(N + 1)),
    "scales:shape": lambda m, o, k: tile(m).set_scales(torch.ones(N + 1)),
    "out:shape": lambda m, o, k: tile(m).set_learned_out_scales(torch.ones(N + 1)),
    "range": lambda m, o, k: tile(m).set_input_range("x"),
    "range:list": lambda m, o, k: tile(m).set_input_range(torch.tensor([])),
    "indexed": lambda m, o, k: tile(m).set_indexed(torch.zeros(3), [1]),
    "indexed:empty": lambda m, o, k: tile(m).set_indexed(torch.zeros(0, dtype=torch.int32), []),
    "remap:str": lambda m, o, k: m.remap_analog_weights("x"),
    "program:none": lambda m, o, k: m.program_analog_weights(noise_model="x"),
    "drift:str": lambda m, o, k: m.drift_analog_weights("x"),
    "drift:negative": lambda m, o, k: m.drift_analog_weights(-100.0),
    "config:type": lambda m, o, k: m.replace_rpu_config("x"),
    "config:class": lambda m, o, k: m.replace_rpu_config(
        TorchInferenceRPUConfig() if Z.kind_of(k) == "training" else SingleRPUConfig(device=SoftBoundsDevice())),
    "load:empty": lambda m, o, k: m.load_state_dict({}),
    "load:shape": lambda m, o, k: m.load_state_dict(AnalogSequential(
        AnalogLinear(N + 1, N, bias=True, rpu_config=Z.seeded(Z.zoo()[k]()))).state_dict()),
    "load:rows": lambda m, o, k: m.load_state_dict(AnalogSequential(
        AnalogLinear(N, N + 1, bias=True, rpu_config=Z.seeded(Z.zoo()[k]()))).state_dict()),
    "load:noweights": lambda m, o, k: m.load_state_dict(bad_tile_state(m, lambda v: v.pop("analog_tile_weights"))),
    "load:badweights": lambda m, o, k: m.load_state_dict(bad_tile_state(
        m, lambda v: v.__setitem__("analog_tile_weights", torch.zeros(3, 3)))),
    "load:badhidden": lambda m, o, k: m.load_state_dict(bad_tile_state(
        m, lambda v: v.__setitem__("analog_tile_hidden_parameters", {"x": torch.zeros(3, 3)}))),
    "load:badclass": lambda m, o, k: m.load_state_dict(bad_tile_state(
        m, lambda v: v.__setitem__("analog_tile_class", "Nothing"))),
    "load:noconfig": lambda m, o, k: m.load_state_dict(bad_tile_state(m, lambda v: v.pop("rpu_config"))),
    "load:badconfig": lambda m, o, k: m.load_state_dict(bad_tile_state(m, lambda v: v.__setitem__("rpu_config", "x"))),
    "load:list": lambda m, o, k: m.load_state_dict([1, 2]),
    "opt:load": lambda m, o, k: o.load_state_dict({}),
    "opt:groups": lambda m, o, k: o.load_state_dict({"state": {}, "param_groups": []}),
    "opt:add": lambda m, o, k: o.add_param_group({"params": "x"}),
    "calibrate:data": lambda m, o, k: calibrate_input_ranges(
        m, InputRangeCalibrationType.MAX, iter([((X,), {}), ((torch.zeros(2, N + 3),), {})])),
    "calibrate:source": lambda m, o, k: calibrate_input_ranges(m, InputRangeCalibrationType.MOVING_STD, broken(1)),
    "calibrate:model": lambda m, o, k: calibrate_input_ranges(nn.Sequential(m), InputRangeCalibrationType.MAX, iter([])),
    "convert": lambda m, o, k: convert_to_analog(m, SingleRPUConfig(), conversion_map="x"),
    "to:str": lambda m, o, k: m.to("nowhere"),
    "cuda": lambda m, o, k: m.cuda(),
    "tile.cuda": lambda m, o, k: tile(m).cuda(),
    "deepcopy:call": lambda m, o, k: m[0](X, X, X),
    "read": lambda m, o, k: tile(m).read_weights(x_values="x"),
    "step:closure": lambda m, o, k: o.step(closure=lambda: m(torch.zeros(2, N + 1))),
}


def train(m, o, i):
    reset(i)
    o.zero_grad()
    m(X * (1 + 0.25 * i)).pow(2).sum().backward()
    reset(i + 50)
    o.step()


def play(kind, layer, plan, rec=None):
    """A training history with requests at the positions `plan` names; the rejected ones."""
    m, o = build(kind, layer)
    rejected = []
    dirty = []

    def requests(where):
        nonlocal m
        for name in plan.get(where, ()):
            reset(70)
            before = state(m)
            perfect = {n: getattr(getattr(t.rpu_config, "forward", None), "is_perfect", None)
                       for n, t in m.named_analog_tiles()}
            opt = repr([{k: v for k, v in g.items() if k != "params"} for g in o.param_groups])
            reset(90)
            try:
                REQ[name](m, o, kind)
            except Exception as e:  # pylint: disable=broad-except
                rejected.append((name, type(e).__name__))
                if rec is not None:
                    reset(70)
                    ch = changed(before, state(m))
                    if name.startswith("load:") and layer == "mapped":
                        # PyTorch loads the parts that fit: each tile is all or nothing
                        ch = [c for c in ch if c != "0.analog_module.bias"]
                        if ch != changed(before, state(m)):
                            dirty.append("accepted:" + name)
                    if name.startswith("calibrate:"):
                        # ranges of the data seen so far may stay: everything else comes back
                        skip = any(not c.endswith((":training", ":hooks", ":scales", ":weights", ":lr")) for c in ch)
                        ch = [c for c in ch if c.endswith((":training", ":hooks", ":scales", ":weights", ":lr"))]
                        ch += [n for n, t in m.named_analog_tiles()
                               if getattr(getattr(t.rpu_config, "forward", None), "is_perfect", None) != perfect.get(n)]
                        if skip:
                            dirty.append("accepted:" + name)
                    dirty.extend(ch)
                    rec.check(not ch, f"changed:{name}", lambda: (kind, layer, where, name, repr(e)[:200], ch))
                    now = repr([{k: v for k, v in g.items() if k != "params"} for g in o.param_groups])
                    rec.check(opt == now, f"optimiser:{name}", lambda: (kind, where, name, opt, now))
            else:
                return True  # accepted
        return False

    if requests(0):
        return None
    train(m, o, 1)
    if requests(1):
        return None
    # between backward and step: gradients and updates are pending
    reset(3)
    o.zero_grad()
    m(X).pow(2).sum().backward()
    if requests(2):
        return None
    reset(53)
    o.step()
    if Z.kind_of(kind) == "inference":
        reset(4)
        m.eval()
        m.program_analog_weights()
        reset(5)
        m.drift_analog_weights(20.0)
        reset(6)
        m(X)
    if requests(3):
        return None
    m.train()
    train(m, o, 7)
    reset(8)
    m.eval()
    y = m(X).detach().clone()
    reset(70)
    return rejected, state(m), y, dirty


def run(case, rec):
    kind, layer = case["kind"], case["layer"]
    ref = play(kind, layer, {})
    assert ref is not None
    again = play(kind, layer, {})
    if changed(ref[1], again[1]) or not torch.equal(ref[2], again[2]):
        rec.fail("harness:not deterministic", (kind, changed(ref[1], again[1])))
        return
    for plan in case["plans"]:
        full = {int(k): v for k, v in plan.items()}
        res = play(kind, layer, full, rec)
        rec.step(sum(len(v) for v in full.values()))
        rec.state(kind, layer, sorted(full.items()), "accepted" if res is None else "rejected")
        if res is None:
            continue
        if res[3]:
            continue  # reported where it happened
        names = "+".join(n for n, _ in res[0])
        ch = changed(ref[1], res[1])
        rec.check(not ch and torch.equal(ref[2], res[2]), f"after:{names}", lambda: (kind, layer, full, res[0], ch))
        rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in Z.zoo():
        layers = ["linear"]
        if kind in ("ideal", "SoftBounds", "inference", "torch", "fp"):
            layers.append("mapped")
        for layer in layers:
            names = [n for n in REQ if not (n.startswith("load:") and kind.startswith("TorchTransfer"))]
            plans = [{str(p): [n]} for n in names for p in (0, 1, 2, 3)]
            if deep or kind in ("SoftBounds", "inference"):
                pick = names if deep else names[::3]
                plans += [{str(p): [a], str(q): [b]} for a, b in itertools.product(pick, repeat=2)
                          for p, q in ((1, 2), (2, 3))] + [{"2": [a, b]} for a, b in itertools.product(pick, repeat=2)]
            for i in range(0, len(plans), 160):
                out.append(dict(kind=kind, layer=layer, plans=plans[i:i + 160]))
    return out
