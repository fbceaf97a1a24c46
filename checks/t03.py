"""T03: only programming and updates change device weights; the parameter that stands for a tile shows
nothing or the current weights."""
import copy
import io
import itertools
import operator

import torch
from torch import nn

import mclib as L
import mcrt
import mcrng
from aihwkit.nn import AnalogLinear
from aihwkit.optim.weight_view import PlaceholderDataView

RULE = ("case = tile x scales x bias x view mode x (a slice of all public tensor operations and every "
        "argument tuple of an alphabet | one history word of model-level operations); a state is "
        "(configuration, mode, operation, observed weights), a transition one operation executed")
BOUNDS = {"quick": "every public method/property of torch.Tensor and a list of library functions x 15 argument "
                   "tuples, followed by writes to everything returned; all histories of length 3 (2 without scales or with analog bias) over 14 operations",
          "thorough": "as quick with histories of length 4"}
ASSUMPTIONS = ["ideal update, so that the weights of a history are predictable"]
KINDS = ("fp", "single", "const", "inference", "torch", "custom", "transfer")
SKIP = {"__class__", "__init_subclass__", "__subclasshook__", "__new__", "__init__", "__dict__",
        "__getattribute__", "__setattr__", "__delattr__", "set_", "backward", "register_hook",
        "register_post_accumulate_grad_hook", "__setstate__", "_make_subclass", "_make_wrapper_subclass",
        "__torch_function__", "__torch_dispatch__", "resize_as_sparse_", "__dlpack__", "storage",
        "_typed_storage", "untyped_storage", "apply_", "map_", "map2_", "module_load", "_make_dtensor",
        "set_data", "__reduce_deepcopy__", "__array_wrap__", "__weakref__", "__module__", "__doc__"}
VOLATILE = {"data_ptr", "_version", "is_leaf", "_is_view", "_base", "requires_grad", "grad_fn", "output_nr",
            "retains_grad", "storage_offset", "stride", "is_contiguous", "__repr__", "__str__", "__hash__",
            "__sizeof__", "__dir__", "__reduce__", "__reduce_ex__", "__format__", "name", "_backward_hooks",
            "_post_accumulate_grad_hooks", "_cdata", "empty_like", "new_empty", "new_empty_strided",
            "new", "is_shared", "is_set_to", "new_tensor", "resize", "_reduce_ex_internal", "__cuda_array_interface__"}


def names():
    return [n for n in dir(torch.Tensor) if n not in SKIP]


def functions():
    f = nn.functional
    other = L.grid(2, 3, k=7)

    def sgd(opt, **kw):
        def run(t, q):
            q = q if isinstance(q, nn.Parameter) else nn.Parameter(q)
            q.grad = torch.ones(2, 3)
            opt([q], lr=0.5, **kw).step()
        return run
    fs = {
        "relu_inplace": lambda t, q: f.relu(q, inplace=True),
        "elu_inplace": lambda t, q: f.elu(q, inplace=True),
        "hardtanh_inplace": lambda t, q: f.hardtanh(q, -.01, .01, inplace=True),
        "dropout_inplace": lambda t, q: f.dropout(q, .9, True, inplace=True),
        "threshold_inplace": lambda t, q: f.threshold(q, 5., 0., inplace=True),
        "foreach_add": lambda t, q: torch._foreach_add_([q], 1.0),
        "foreach_mul": lambda t, q: torch._foreach_mul_([q], 2.0),
        "foreach_zero": lambda t, q: torch._foreach_zero_([q]),
        "foreach_copy": lambda t, q: torch._foreach_copy_([q], [other]),
        "out_add": lambda t, q: torch.add(other, 1.0, out=q),
        "out_mm": lambda t, q: torch.mm(other, torch.eye(3), out=q),
        "out_minmax": lambda t, q: torch.max(torch.stack([other, other]), 0,
                                             out=(q, torch.zeros(2, 3, dtype=torch.long))),
        "init_zeros": lambda t, q: nn.init.zeros_(q),
        "init_xavier": lambda t, q: nn.init.xavier_uniform_(q),
        "iadd": lambda t, q: operator.iadd(q, 1.0),
        "imul": lambda t, q: operator.imul(q, 3.0),
        "isub": lambda t, q: operator.isub(q, other),
        "itruediv": lambda t, q: operator.itruediv(q, 2.0),
        "ipow": lambda t, q: operator.ipow(q, 2.0),
        "setitem": lambda t, q: operator.setitem(q, (0, 0), 5.0),
        "setitem_all": lambda t, q: operator.setitem(q, slice(None), other),
        "setitem_mask": lambda t, q: operator.setitem(q, other > 0, 1.0),
        "vec_to_par": lambda t, q: nn.utils.vector_to_parameters(torch.ones(6), [q]),
        "clip_value": lambda t, q: nn.utils.clip_grad_value_([q], .1),
        "clip_norm": lambda t, q: nn.utils.clip_grad_norm_([q], .1),
        "setdata": lambda t, q: setattr(q, "data", other),
        "scatter": lambda t, q: q.scatter_(0, torch.zeros(1, 3, dtype=torch.long), other),
        "index_add": lambda t, q: q.index_add_(0, torch.tensor([0]), other[:1]),
        "index_put": lambda t, q: q.index_put_((torch.tensor([0]),), torch.tensor(4.0)),
        "copyto": lambda t, q: q.copy_(other),
        "asarray": lambda t, q: torch.as_tensor(q),
        "numpy": lambda t, q: __import__("numpy").asarray(q),
        "from_numpy": lambda t, q: torch.from_numpy(q.numpy()),
        "nested_view": lambda t, q: q.data.view(-1)[1:3],
        "flat_t": lambda t, q: q.t().view(-1) if q.t().is_contiguous() else q.t()[0],
        "detach_detach": lambda t, q: q.detach().detach(),
        "vmap": lambda t, q: torch.vmap(lambda r: r)(q),
        "einsum": lambda t, q: torch.einsum("ij->ji", q),
        "broadcast": lambda t, q: torch.broadcast_tensors(q)[0],
        "atleast": lambda t, q: torch.atleast_2d(q),
        "split": lambda t, q: torch.split(q, 1, 1),
        "get_data": lambda t, q: t.analog_ctx.get_data(),
        "copy": lambda t, q: copy.copy(q),
        "deepcopy": lambda t, q: copy.deepcopy(q),
        "deepcopy_ctx": lambda t, q: copy.deepcopy(t.analog_ctx),
        "getw": lambda t, q: t.get_weights(),
        "getw_norealistic": lambda t, q: t.get_weights(apply_weight_scaling=False),
        "readw": lambda t, q: t.read_weights(),
        "tilew": lambda t, q: t.tile.get_weights(),
        "hidden": lambda t, q: list(t.get_hidden_parameters().values()),
        "hidden2": lambda t, q: t.tile.get_hidden_parameters(),
        "sgd": sgd(torch.optim.SGD), "sgd_mom": sgd(torch.optim.SGD, momentum=.9, weight_decay=.5),
        "sgd_foreach": sgd(torch.optim.SGD, foreach=True), "adam": sgd(torch.optim.Adam),
        "adamw_foreach": sgd(torch.optim.AdamW, foreach=True), "rms": sgd(torch.optim.RMSprop),
        "adagrad": sgd(torch.optim.Adagrad), "adadelta": sgd(torch.optim.Adadelta),
    }
    return fs


REALS = ("getw", "getw_norealistic", "readw", "tilew", "hidden", "hidden2")
ARGS = ((), (0.5,), ("other",), (0,), (0, 0), (0, 1), (1, 0.5), ("mask",), ("mask", "other"),
        ("mask", 0.5), ("other", "other"), ((3, 2),), (-1,), (0.1, 0.3), (slice(0, 1),))
OPS = ("upd", "setw", "scale", "to64", "double", "copy", "sgd", "sd", "getw", "mode", "load", "cpu",
       "pickle", "post")


def cfg_transfer():
    from aihwkit.simulator.configs.compounds import ChoppedTransferCompound
    from aihwkit.simulator.tiles.transfer import TorchTransferTile
    dev = [L.quiet(L.SoftBoundsDevice()), L.quiet(L.SoftBoundsDevice())]
    c = L.UnitCellRPUConfig(device=ChoppedTransferCompound(
        unit_cell_devices=dev, in_chop_prob=0.0, transfer_every=1, units_in_mbatch=False,
        transfer_forward=L.IOParameters(is_perfect=True), fast_lr=1.0, auto_scale=False))
    c.forward.is_perfect = True
    c.backward.is_perfect = True
    c.tile_class = TorchTransferTile
    return c


def cases(tier):
    out = []
    n = len(names())
    chunk = 60
    for kind in KINDS:
        for om in (0.0, 0.5):
            for ab in ((False,) if kind in ("torch", "custom", "transfer") else (False, True)):
                base = dict(kind=kind, om=om, ab=ab)
                for mode in ("placeholder", "data_view", "buffer"):
                    for via in ("ctx", "data"):
                        out.append(dict(base, t="fun", mode=mode, via=via))
                        if tier == "quick" and (
                                (kind != "fp" or mode != "data_view") and (ab or om)
                                or kind not in ("fp", "torch") and (mode != "data_view" or via == "data")
                                or kind == "torch" and mode != "data_view" or mode == "buffer" and via == "data"):
                            continue
                        for i in range(0, n, chunk):
                            out.append(dict(base, t="view", mode=mode, via=via, i=i, k=chunk))
                depth = 4 if tier == "thorough" else 3 if om and not ab else 2
                for a in OPS:
                    for b in (OPS if depth == 4 else (None,)):
                        out.append(dict(base, t="hist", pre=[a] + ([b] if b else []), depth=depth))
    return out


def mk(c):
    cfg = L.plain_mapping({**L.IDEAL, "const": L.cfg_constant_none, "transfer": cfg_transfer}[c["kind"]](), digital_bias=not c["ab"])
    if c["kind"] == "const":
        cfg.update.pulse_type = L.PulseType.NONE
    cfg.mapping.weight_scaling_omega = c["om"]
    if hasattr(cfg, "clip"):
        cfg.clip.type = L.C.WeightClipType.FIXED_VALUE if hasattr(L.C, "WeightClipType") else None
        cfg.clip.fixed_value = 0.3
    if c["t"] == "hist" and hasattr(cfg, "remap") and c["om"]:
        from aihwkit.simulator.parameters.enums import WeightRemapType
        cfg.remap.type = WeightRemapType.CHANNELWISE_SYMMETRIC
        cfg.remap.remapped_wmax = 1.0
    m = AnalogLinear(3, 2, bias=True, rpu_config=cfg)
    m.set_weights(L.grid(2, 3), L.grid(2, k=3))
    return m


def tensors(r):
    if isinstance(r, torch.Tensor):
        yield r
    elif isinstance(r, (list, tuple)):
        for q in r:
            yield from tensors(q)
    elif isinstance(r, dict):
        for q in r.values():
            yield from tensors(q)


def vandalise(r):
    """Write into everything that was returned."""
    for q in tensors(r):
        for wr in (lambda q: torch.Tensor.add_(q, 1), lambda q: operator.setitem(q, Ellipsis, 7),
                   lambda q: q.view(-1).mul_(3), lambda q: operator.iadd(q.detach().numpy(), 1)):
            try:
                with torch.no_grad():
                    wr(q)
                break
            except Exception:
                pass
    if type(r).__module__ == "numpy" and getattr(r, "ndim", 0):
        try:
            r[...] = 5
        except Exception:
            pass


def canon(r):
    if isinstance(r, torch.Tensor):
        return torch.Tensor.as_subclass(r.detach(), torch.Tensor) if type(r) is not torch.Tensor else r
    return r


def equal(a, b):
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        a, b = canon(a), canon(b)
        if a.shape != b.shape or a.dtype != b.dtype or a.layout != b.layout:
            return False
        if a.layout != torch.strided:
            return True
        return torch.allclose(a.double(), b.double(), equal_nan=True) if not a.is_complex() \
            else torch.allclose(torch.view_as_real(a.resolve_conj()), torch.view_as_real(b.resolve_conj()),
                                equal_nan=True)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, bool, str)) and isinstance(b, (int, float, bool, str)):
        return a == b or (a != a and b != b)
    return True


def call(obj, n, args):
    with torch.no_grad():
        f = getattr(obj, n)
        return f(*args) if callable(f) and not isinstance(f, torch.Tensor) else f


def run_view(c, rec):
    m = mk(c)
    t = L.tiles_of(m)[0]
    ctx = t.analog_ctx
    tag = "%s:%s:%s" % (c["kind"], c["mode"], c["via"])
    other = L.grid(2, 3, k=7)
    sub = {"other": other, "mask": other > 0}
    todo = list(functions().items()) if c["t"] == "fun" else \
        [(n, None) for n in names()[c["i"]:c["i"] + c["k"]]]
    w0 = t.tile.get_weights().clone()
    logical = t.get_weights()[0].clone()
    ctx.data_view_mode = c["mode"]
    for n, fun in todo:
        for a in ((),) if fun else ARGS:
            if c["via"] == "data" and n == "deepcopy" and fun:
                continue
            if n == "to" and a and isinstance(a[0], float):
                continue            # no legal argument of `to`
            args = tuple(sub[x].clone() if isinstance(x, str) else x for x in a)
            rec.step()
            obj = ctx if c["via"] == "ctx" else ctx.data
            mcrng.reset(3)
            grad = ctx.grad
            try:
                r = fun(t, obj) if fun else call(obj, n, args)
                ok = True
            except Exception:
                r, ok = None, False
            ctx.grad = grad
            now = t.tile.get_weights()
            if not torch.equal(now, w0):
                rec.fail("%s:%s:write" % (tag, n), "%s%r changed the device weights" % (n, a))
                t.tile.set_weights(w0)
            # what it returned
            if ok and not fun and c["mode"] == "data_view" and n not in VOLATILE \
                    and (not n.endswith("_") or n.endswith("__")):
                try:
                    mcrng.reset(3)
                    p1 = call(logical.clone(), n, args)
                    mcrng.reset(3)
                    p2 = call(logical.clone(), n, args)
                    same = equal(p1, p2)
                except Exception:
                    same = False
                if same:
                    mcrng.reset(3)
                    r2 = call(ctx if c["via"] == "ctx" else ctx.data, n, args)
                    rec.check(equal(r2, p1), "%s:%s:value" % (tag, n),
                              lambda: "%s%r on the data view gives %r instead of %r" % (n, a, r2, p1))
            if ok and c["mode"] == "placeholder" and n not in VOLATILE and n not in REALS:
                for q in tensors(r):
                    if q is ctx or type(q) is PlaceholderDataView or q.dim() != 2 \
                            or not q.is_floating_point() or any(q is z for z in args):
                        continue
                    if q.numel() in (logical.numel(), w0.numel()):
                        q = canon(q)
                        rec.check(any(z.shape == q.shape and torch.equal(q, z)
                                      for y in (w0, logical) for z in (y, y.t())),
                                  "%s:%s:garbage" % (tag, n),
                                  lambda: "%s in placeholder mode returned values %r" % (n, q))
            if ok:
                vandalise(r)
                now = t.tile.get_weights()
                if not torch.equal(now, w0):
                    rec.fail("%s:%s:alias" % (tag, n),
                             "writing to the result of %s%r changed the device weights" % (n, a))
                    t.tile.set_weights(w0)
            if c["mode"] == "data_view":
                now = ctx.data.clone()
                rec.check(torch.allclose(now, t.get_weights()[0]), "%s:%s:stale" % (tag, n),
                          lambda: "after %s the view shows %r" % (n, now))
            if ctx.data_view_mode.value != c["mode"] and ctx.data_view_mode.name.lower() != c["mode"]:
                ctx.data_view_mode = c["mode"]
        rec.state(c["kind"], c["om"], c["ab"], c["mode"], c["via"], n)
    rec.trace()


def run_hist(c, rec):
    pre = c["pre"]
    for rest in itertools.product(OPS, repeat=c["depth"] - len(pre)):
        hist(c, tuple(pre) + rest, rec)


def hist(c, word, rec):
    mcrng.reset(5)
    m = nn.Sequential(mk(c))
    lay = m[0]
    lay.requires_grad_(True)
    tag = "%s:%s:%s" % (c["kind"], c["om"], "-".join(word))
    t = L.tiles_of(lay)[0]
    t.set_learning_rate(0.5)
    modes = itertools.cycle(("data_view", "buffer", "placeholder"))
    raw = t.tile.get_weights().clone()
    others = []      # (tile, frozen weights)
    dtype = torch.float32
    for i, op in enumerate(word):
        rec.step()
        t = L.tiles_of(lay)[0]
        if op == "upd":
            x, d = L.grid(1, 4 if c["ab"] else 3, k=i + 2), L.grid(1, 2, k=i + 5)
            if c["ab"]:
                x[:, -1] = 1.0
            if c["kind"] == "torch":
                t.tile.weight.data.sub_(0.5 * (d.t() @ x).to(t.tile.weight.dtype))
            else:
                t.update((x[:, :3] if c["ab"] else x).to(t.analog_ctx.dtype),
                         d.to(t.analog_ctx.dtype))
            if c["kind"] != "transfer":
                rec.check(not torch.equal(raw, t.tile.get_weights()), tag + ":upd", "no update")
            raw = t.tile.get_weights().clone()
        elif op == "setw":
            v = L.grid(2, 3, k=i + 3)
            t.set_weights(v, L.grid(2, k=i + 6))
            raw = t.tile.get_weights().clone()
            s = t.get_scales()
            want = raw[:, :3] * (1.0 if s is None else s.view(-1, 1))
            rec.check(mcrt.close(want, v, 1e-5, 1e-6), tag + ":set", "set_weights")
        elif op == "scale":
            s = t.get_scales()
            if s is not None:
                t.set_scales(s * 2.0)
        elif op == "to64":
            try:
                lay.to(torch.float64)
            except Exception:
                pass
            lay.to(torch.float32)
        elif op in ("double",):
            try:
                lay.double()
            except Exception:
                pass
            try:
                m.half()
            except Exception:
                pass
        elif op == "copy":
            l2 = copy.deepcopy(lay)
            t2 = L.tiles_of(l2)[0]
            rec.check(torch.equal(t2.tile.get_weights(), t.tile.get_weights()), tag + ":copy",
                      "the copy has other weights")
            if i % 2:
                others.append((l2, t2.tile.get_weights().clone()))
            else:
                others.append((lay, t.tile.get_weights().clone()))
                lay = l2
                m = nn.Sequential(lay)
        elif op == "sgd":
            for q in lay.parameters():
                q.grad = torch.ones_like(q, memory_format=torch.preserve_format) if not hasattr(
                    q, "analog_tile") else torch.ones_like(raw)
            for opt in (torch.optim.SGD, torch.optim.Adam):
                try:
                    opt([q for q in lay.parameters() if hasattr(q, "analog_tile")], lr=0.3).step()
                except Exception:
                    pass
            for q in lay.parameters():
                q.grad = None
        elif op == "sd":
            sd = m.state_dict()
            sd = {k: v for k, v in sd.items()}
            for k, v in sd.items():
                if isinstance(v, dict):
                    vandalise({a: b for a, b in v.items() if "ctx" not in a and "shared" not in a})
        elif op == "load":
            sd = copy.deepcopy(m.state_dict())
            m.load_state_dict(sd)
            vandalise([v for k, v in sd.items()])
        elif op == "getw":
            vandalise(t.get_weights())
            vandalise(t.read_weights())
            vandalise(lay.get_weights())
            vandalise(t.tile.get_weights())
        elif op == "mode":
            t.analog_ctx.data_view_mode = next(modes)
        elif op == "cpu":
            m.cpu()
            m.to("cpu")
        elif op == "post":
            t.post_update_step()
            raw = t.tile.get_weights().clone()
        elif op == "pickle":
            b = io.BytesIO()
            torch.save(lay, b)
            b.seek(0)
            l2 = torch.load(b, weights_only=False)
            t2 = L.tiles_of(l2)[0]
            others.append((l2, t2.tile.get_weights().clone()))
            t2.tile.set_weights(t2.tile.get_weights() + 0.125)
            others[-1] = (l2, t2.tile.get_weights().clone())
        t = L.tiles_of(lay)[0]
        now = t.tile.get_weights()
        if not rec.check(mcrt.close(now, raw, 1e-5, 1e-6), tag + ":weights",
                         lambda: "after %s of %s: weights %r, only programming and updates give %r"
                         % (op, "-".join(word[:i + 1]), now, raw)):
            return
        mode = t.analog_ctx.data_view_mode
        t.analog_ctx.enable_data_view()
        view = t.analog_ctx.data.clone()
        logical = t.get_weights()[0]
        rec.check(mcrt.close(view, logical, 1e-5, 1e-6), tag + ":view",
                  lambda: "after %s the view shows %r, the weights are %r" % (op, view, logical))
        s = t.get_scales()
        want = raw[:, :3] * (1.0 if s is None else s.detach().view(-1, 1))
        rec.check(mcrt.close(logical, want, 1e-5, 1e-6), tag + ":logical",
                  lambda: "after %s get_weights gives %r instead of %r" % (op, logical, want))
        if mode.value != t.analog_ctx.data_view_mode.value:
            t.analog_ctx.data_view_mode = mode
        for l2, w in others:
            rec.check(torch.equal(L.tiles_of(l2)[0].tile.get_weights(), w), tag + ":other",
                      "after %s the weights of a copy changed" % op)
        rec.state(c["kind"], c["om"], c["ab"], raw, mode.value)
    rec.trace()


def run(c, rec):
    import warnings
    warnings.simplefilter("ignore")
    (run_hist if c["t"] == "hist" else run_view)(c, rec)
