"""T04: a run with read-only requests inserted is identical to the run without them."""
import copy
import io
import itertools
import pickle

import torch

import mcconf as Z
import mclib as L
import mcrng
import mcrt
from aihwkit.nn import AnalogLinear, AnalogSequential, AnalogConv2d
from aihwkit.nn.conversion import convert_to_digital
from aihwkit.optim import AnalogSGD
from aihwkit.utils.analog_info import analog_summary

RULE = ("case = configuration x layer layout x history; below it every read-only request at every position "
        "(and all of them together at each position) is run against the unobserved twin with the same draws; a "
        "state is the observable state after one step of a history, a transition one step")
BOUNDS = {"quick": "47 configurations x 4 layouts x histories of length 4-5 x 28 requests at every position",
          "thorough": "as quick with 16 histories of length 6 (training), all of length 5 with programming (inference)"}
ASSUMPTIONS = ["all random draws are fixed per step of the history, so they do not depend on the inserted requests"]


def pickled(m):
    s = io.BytesIO()
    torch.save(m, s)


def tiles(m):
    return list(m.analog_tiles())


def each(fn):
    return lambda m: [fn(t) for t in tiles(m)]


def evalfwd(m):
    mode = m.training
    m.eval()
    m(L.grid(2, 3, k=77))
    m.train(mode)


def evalfwd_nograd(m):
    with torch.no_grad():
        evalfwd(m)


def touch(x):
    """Write to everything a request returned."""
    if isinstance(x, torch.Tensor):
        with torch.no_grad():
            if x.numel() and x.is_floating_point() and not isinstance(x, torch.nn.Parameter):
                x.add_(0.5)
    elif isinstance(x, dict):
        for v in x.values():
            touch(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            touch(v)


def written(fn):
    return lambda m: touch(fn(m))


def meta(t):
    try:
        return t.tile.get_meta_parameters()
    except NotImplementedError:
        return None


def summary(m):
    analog_summary(m, (1, 3))


REQUESTS = {
    "get_weights": written(lambda m: [x.get_weights() for x in m.analog_layers()]),
    "get_weights_raw": written(lambda m: [x.get_weights(apply_weight_scaling=False) for x in m.analog_layers()]),
    "tile_weights": written(each(lambda t: t.tile.get_weights())),
    "read_weights": written(each(lambda t: not hasattr(t, "read_weights") or t.read_weights())),
    "read_weights_raw": written(each(lambda t: not hasattr(t, "read_weights") or t.read_weights(apply_weight_scaling=False))),
    "read_weights_over": written(each(lambda t: not hasattr(t, "read_weights") or t.read_weights(over_sampling=2))),
    "hidden": written(each(lambda t: t.get_hidden_parameters())),
    "hidden_names": each(lambda t: t.tile.get_hidden_parameter_names()),
    "scales": each(lambda t: hasattr(t, "get_scales") and (t.get_scales(), t.get_mapping_scales(), t.get_learned_out_scales()
                              if t.out_scaling_alpha is not None else None)),
    
    "state_dict": lambda m: m.state_dict(),
    "state_dict_copy": lambda m: touch([v for k, v in copy.deepcopy(m.state_dict()).items()
                                        if not k.endswith("analog_ctx")]),
    "pickle": pickled,
    "pickle2": lambda m: pickle.dumps(m),
    "deepcopy": lambda m: copy.deepcopy(m),
    "repr": lambda m: (repr(m), str(m), m.extra_repr()),
    "brief": each(lambda t: (t.get_brief_info(), t.tile.get_brief_info(), t.extra_repr())),
    "dump_extra": each(lambda t: t.tile.dump_extra()),
    "meta": each(lambda t: (str(meta(t)), t.get_learning_rate(),
                            t.tile.get_learning_rate(), t.get_forward_out_bound(), t.get_dtype(),
                            t.get_data_type(), t.get_runtime(), hasattr(t, "is_indexed") and t.is_indexed())),
    "names": lambda m: ([n for n, _ in m.named_parameters()], list(m.named_buffers()), list(m.named_analog_layers()),
                        list(m.named_analog_tiles()), m.analog_tile_count(), list(m.analog_modules()),
                        list(m.get_analog_tile_devices())),
    "config": each(lambda t: (repr(t.rpu_config), str(t.rpu_config), copy.deepcopy(t.rpu_config),
                              t.compatible_with(t.rpu_config),
                              getattr(t.rpu_config, "as_bindings", lambda x: 0) and 0)),
    "params": each(lambda t: [getattr(t, n)() for n in ("get_forward_parameters", "get_backward_parameters",
                                                        "get_hidden_update_index") if hasattr(t, n)]),
    "analog_state": each(lambda t: t.get_analog_state()),
    "ctx": each(lambda t: (repr(t.analog_ctx), t.analog_ctx.size(), t.analog_ctx.has_gradient(),
                           t.get_analog_ctx().analog_tile)),
    "summary": summary,
    "eval_forward": evalfwd,
    "eval_forward_nograd": evalfwd_nograd,
    "to_digital": lambda m: convert_to_digital(m, inplace=False),
}
HIST = {
    "training": {"quick": (("train", "train", "train", "train"), ("train", "eval", "train", "eval"), ("eval", "train", "eval", "train")),
                 "thorough": tuple(itertools.product(("train", "eval"), repeat=6))[:48:3]},
    "inference": {"quick": (("train", "program", "eval", "drift", "drift"), ("program", "drift", "eval", "train", "eval"),
                             ("train", "train", "eval", "train"), ("program", "eval", "drift", "program", "drift")),
                  "thorough": tuple(w for w in itertools.product(("train", "eval", "program", "drift"), repeat=5)
                                    if "program" in w and "drift" in w
                                    if w.index("drift") > w.index("program"))}}
LAYOUTS = ("linear", "bias", "mapped", "conv")


def build(name, layout, quiet=False):
    mcrng.reset(3)
    cfg = Z.seeded(Z.zoo()[name]())
    if quiet:
        Z.quieten(cfg)
    if layout == "bias":
        cfg.mapping.digital_bias = False
        return AnalogSequential(AnalogLinear(3, 2, True, rpu_config=cfg))
    if layout == "mapped":
        cfg.mapping.max_input_size = 2
        from aihwkit.nn import AnalogLinearMapped
        return AnalogSequential(AnalogLinearMapped(3, 2, True, rpu_config=cfg))
    if layout == "conv":
        return AnalogSequential(torch.nn.Unflatten(1, (1, 1, 3)),
                                AnalogConv2d(1, 2, (1, 2), rpu_config=cfg), torch.nn.Flatten())
    return AnalogSequential(AnalogLinear(3, 2, True, rpu_config=cfg))


def observe(m):
    out = [p.detach().clone() for p in m.parameters() if p.numel() and not hasattr(p, "analog_tile")]
    out += [b.detach().clone() for b in m.buffers()]
    for t in tiles(m):
        w = t.tile.get_weights()
        out += [w.detach().clone()] if isinstance(w, torch.Tensor) else [x.detach().clone() for x in w if x is not None]
        h = t.tile.get_hidden_parameters()
        out.append(h.detach().clone())
        lr = t.get_learning_rate()
        out.append(torch.tensor(float("nan") if lr is None else float(lr)))
        for n in ("programmed_weights", "nu_drift_list", "drift_baseline", "alpha", "reference_combined_weights"):
            v = getattr(t, n, None)
            for x in (v if isinstance(v, (list, tuple)) else [v]):
                if isinstance(x, torch.Tensor):
                    out.append(x.detach().clone())
                elif isinstance(x, float):
                    out.append(torch.tensor(x))
    return out


def execute(name, layout, word, at=None, requests=()):
    """Observations after every step; the requests are made before step `at`."""
    m = build(name, layout)
    opt = AnalogSGD(m.parameters(), lr=0.3)
    log = []
    for i, op in enumerate(word):
        if i == at:
            mcrng.reset(900)
            for r in requests:
                REQUESTS[r](m)
        mcrng.reset(100 + i)
        x = L.grid(2, 3, k=i + 1, lo=-1, hi=1)
        y = torch.zeros(1)
        if op == "train":
            m.train()
            opt.zero_grad()
            x.requires_grad_()
            y = m(x)
            y.square().sum().backward()
            opt.step()
            y = torch.cat([y.flatten(), x.grad.flatten()])
        elif op == "eval":
            m.eval()
            y = m(x)
        elif op == "program":
            m.eval()
            m.program_analog_weights()
        elif op == "drift":
            m.eval()
            m.drift_analog_weights(10.0 * (i + 1))
            y = m(x)
        log.append([y.detach().clone()] + observe(m) + [torch.tensor(float(m.training))])
    return log


def supported(name, layout):
    k = name.split("-")[0]
    if layout == "bias" and (k in ("torch", "irdropt", "quant", "inference") and name.endswith("-full")
                             or k in ("torch", "irdropt", "quant", "TorchTransfer", "custom")):
        return False
    if layout == "mapped" and k == "irdropt" or layout == "conv" and k in ("quant", "irdropt"):
        return False
    return True


def cases(tier):
    for name in Z.zoo():
        for layout in LAYOUTS:
            if not supported(name, layout):
                continue
            for word in HIST[Z.kind_of(name)][tier]:
                yield {"cfg": name, "layout": layout, "word": list(word)}


def inapplicable(name, layout, request):
    k = name.split("-")[0]
    return request == "summary" and layout == "conv"


def first_diff(a, b):
    for i, (u, v) in enumerate(zip(a, b)):
        if len(u) != len(v):
            return i, -1, "number of observed tensors %d != %d" % (len(u), len(v))
        for j, (x, y) in enumerate(zip(u, v)):
            if not mcrt.same(x, y):
                return i, j, "%s != %s" % (x.flatten()[:8].tolist(), y.flatten()[:8].tolist())
    return None


def run(case, rec):
    name, layout, word = case["cfg"], case["layout"], case["word"]
    base = execute(name, layout, word)
    again = execute(name, layout, word)
    if not rec.check(first_diff(base, again) is None, "nondeterministic:%s" % name, "the harness is not deterministic"):
        return
    for log in base:
        rec.state(name, layout, *log)
    usable = [r for r in REQUESTS if not inapplicable(name, layout, r)]
    for at in range(len(word)):
        # all requests together first; singled out only where that run deviates
        log = execute(name, layout, word, at, usable)
        rec.step(len(word))
        rec.trace()
        d = first_diff(base, log)
        if d is None:
            continue
        for r in usable:
            try:
                log = execute(name, layout, word, at, (r,))
            except Exception as e:  # noqa
                rec.fail("%s:%s" % (r, name), "request %s before step %d of %s raises %r" % (r, at, word, e))
                continue
            rec.step(len(word))
            d1 = first_diff(base, log)
            rec.check(d1 is None, "%s:%s" % (r, name),
                      "request %s before step %d of %s changes step %s tensor %s: %s" % ((r, at, word) + (d1 or (0, 0, 0))))
        rec.fail("together:%s" % name, "requests before step %d of %s change %s" % (at, word, d))
    rec.note("history %s of %s %s: %d requests at %d positions" % (word, name, layout, len(usable), len(word)))
