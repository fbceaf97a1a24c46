"""M03: input ranges are learned, applied and calibrated consistently."""
import copy
import itertools

import torch

import mclib as L
import mcconf as Z
import mcrt
from aihwkit.exceptions import ConfigError
from aihwkit.inference.calibration import InputRangeCalibrationType as T, calibrate_input_ranges
from aihwkit.nn import AnalogLinear, AnalogSequential
from aihwkit.nn.modules.linear_mapped import AnalogLinearMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.parameters.enums import NoiseManagementType, BoundManagementType

RULE = ("For every tile kind and input-range setting, every word of training, evaluation, setting, calibration and "
        "checkpoint steps over an input alphabet: outputs are those of the clipped inputs, the range follows the "
        "documented rule exactly, its gradient and the weight update match the clipping, evaluation changes nothing. "
        "For every calibration strategy, model and training flag pattern: the range is the statistic of the inputs "
        "seen, and weights, other settings, flags and hooks are as before.")
BOUNDS = {"quick": {"word length": 3, "settings": "pairs", "input alphabet": 4},
          "thorough": {"word length": 4, "settings": "all", "input alphabet": 4}}
ASSUMPTIONS = [
    "the gradient handed to earlier layers for clipped inputs may be passed through or masked",
    "a quantile may be that of the inputs or of their magnitudes; a moving average may start from the count of "
    "batches already used or from zero",
    "calibration may turn off noise management and the initialisation from data, and enables the range, as its "
    "messages and comments say",
]

W = torch.tensor([[0.5, -0.25], [0.125, 0.375]])
B = torch.tensor([0.25, -0.5])
G = torch.tensor([[1.0, -0.5], [-0.25, 0.75], [0.5, 1.0]])
X = {"in": torch.tensor([[0.5, -0.25], [-0.75, 0.125], [0.25, 0.5]]),
     "clip": torch.tensor([[3.0, -2.0], [-4.0, 0.5], [0.25, 5.0]]),
     "edge": torch.tensor([[1.0, -1.0], [-1.0, 1.0], [1.0, 0.0]]),
     "zero": torch.zeros(3, 2)}
OPS = ["t:in", "t:clip", "t:edge", "t:zero", "e:clip", "s", "c", "r"]
LR = 0.125
SETTINGS = L.products(learn=[True, False], ifd=[0, 2], decay=[0.0, 0.25], pct=[0.6, 0.0], relative=[True, False],
                      scale=[1.0, 0.5])
KINDS = ["fp", "single", "inference", "torch", "custom"]


def config(kind, s, omega=0.0):
    c = L.plain_mapping(L.IDEAL[kind](), weight_scaling_omega=omega)
    if omega:
        c.mapping.learn_out_scaling = kind != "torch"
    p = c.pre_post.input_range
    p.enable = True
    p.learn_input_range = s["learn"]
    p.init_value = 1.0
    p.init_from_data = s["ifd"]
    p.init_std_alpha = 1.5
    p.decay = s["decay"]
    p.input_min_percentage = s["pct"]
    p.gradient_relative = s["relative"]
    p.gradient_scale = s["scale"]
    return c


def build(kind, s, omega=0.0):
    torch.manual_seed(3)
    m = AnalogSequential(AnalogLinear(2, 2, bias=True, rpu_config=config(kind, s, omega)))
    m[0].set_weights(W, B)
    return m


def optimiser(m):
    o = AnalogSGD(m.parameters(), lr=LR)
    o.regroup_param_groups()
    return o


def tile_of(m):
    return next(m.analog_tiles())


def range_of(m):
    return float(tile_of(m).input_range.detach().item())


class Spec:
    def __init__(self, s):
        self.s = s
        self.r = 1.0
        self.idx = 0
        self.ifd = s["ifd"]

    def forward(self, x, train):
        if train and self.idx < self.ifd:
            std = float(x.std())
            if std > 0:
                self.r = (self.r * self.idx + 1.5 * std) / (self.idx + 1)
                self.idx += 1
        return x.clamp(-self.r, self.r)

    def grad(self, x, d):
        s, r = self.s, self.r
        g = float(torch.minimum((x >= r) * d, torch.zeros(())).sum()
                  - torch.maximum((x <= -r) * d, torch.zeros(())).sum())
        g *= s["scale"] * (r if s["relative"] else 1.0)
        if s["decay"] > 0 and float((x.abs() < r).float().mean()) > s["pct"]:
            g += s["decay"] * r
        return g


def step(m, opt, spec, op, kind, s, omega, rec, where):
    tile = tile_of(m)
    if op[0] == "t":
        x = X[op[2:]].clone()
        m.train()
        opt.zero_grad()
        w, b = m[0].get_weights()
        w, b = w.clone(), b.clone()
        xin = x.clone().requires_grad_(True)
        y = m(xin)
        clipped = spec.forward(x, True)
        rec.check(mcrt.close(range_of(m), spec.r, 1e-5), "range:train", lambda: (where, range_of(m), spec.r))
        rec.check(mcrt.close(y.detach(), clipped @ w.T + b, 1e-5, 1e-6), "forward:train", lambda: (where, y))
        (y * G).sum().backward()
        rec.check(bool((xin.detach() == x).all()), "input-changed", lambda: where)
        d = G @ w
        inside = x.abs() <= spec.r * (1 - 1e-6)
        outside = x.abs() > spec.r * (1 + 1e-6)
        gx = xin.grad
        rec.check(mcrt.close(gx[inside], d[inside], 1e-5, 1e-6), "grad:x", lambda: (where, gx, d))
        if outside.any():
            rec.check(mcrt.close(gx[outside], d[outside], 1e-5, 1e-6) or bool((gx[outside] == 0).all()),
                      "grad:clipped", lambda: (where, gx, d))
        if s["learn"]:
            want = spec.grad(x, d)
            got = tile.input_range.grad
            if rec.check(got is not None, "grad:none", lambda: where):
                rec.check(mcrt.close(float(got), want, 1e-4, 1e-5), "grad:range", lambda: (where, float(got), want))
            before = spec.r
            spec.r -= LR * want
        opt.step()
        rec.check(mcrt.close(range_of(m), spec.r, 1e-4, 1e-5), "range:step", lambda: (where, range_of(m), spec.r))
        if not omega:
            w2, _ = m[0].get_weights()
            f = 1.0 if kind == "torch" else 1.0 / (before if s["learn"] else spec.r)
            if s["learn"] and kind != "torch":
                # the analog update may come before or after the range's own step
                cands = [before, spec.r]
            else:
                cands = [None]
            ok = False
            for c in cands:
                r = c if c else (before if s["learn"] else spec.r)
                f = 1.0 if kind == "torch" else 1.0 / r
                dw = -LR * f * (G.T @ x.clamp(-r, r))
                ok |= mcrt.close(w2 - w, dw, 1e-4, 1e-5)
            rec.check(ok, "update", lambda: (where, w2 - w, G.T @ clipped, f))
    elif op[0] == "e":
        x = X[op[2:]]
        m.eval()
        w, b = m[0].get_weights()
        before = copy.deepcopy({k: v for k, v in m.state_dict().items() if "input_range" in k})
        y = m(x).detach()
        rec.check(mcrt.close(y, spec.forward(x, False) @ w.T + b, 1e-5, 1e-6), "forward:eval", lambda: (where, y))
        after = m.state_dict()
        rec.check(all(torch.equal(v, after[k]) for k, v in before.items()), "eval-changed", lambda: where)
    elif op == "s":
        tile.set_input_range(-0.75)
        spec.r = 0.75
        rec.check(range_of(m) == 0.75, "set", lambda: (where, range_of(m)))
    elif op == "c":
        m.train()
        w, b = (v.clone() for v in m[0].get_weights())
        calibrate_input_ranges(m, T.MAX, iter([((X["in"],), {}), ((X["clip"],), {})]))
        if kind != "fp":  # nothing to calibrate without an analog periphery
            spec.r = 5.0
            spec.ifd = 0
        rec.check(mcrt.close(range_of(m), spec.r, 1e-5), "calibrate", lambda: (where, range_of(m)))
        w2, b2 = m[0].get_weights()
        rec.check(torch.equal(w, w2) and torch.equal(b, b2), "calibrate:weights", lambda: where)
        rec.check(m.training and m[0].training, "calibrate:mode", lambda: where)
    else:
        fresh = build(kind, s, omega)
        r, sd = range_of(m), copy.deepcopy(m.state_dict())
        fresh.load_state_dict(sd)
        rec.check(range_of(fresh) == r, "checkpoint:range", lambda: (where, range_of(fresh), r))
        return fresh, optimiser(fresh)
    return m, opt


def run_words(case, rec):
    s, kind, omega = case["s"], case["kind"], case["omega"]
    for word in itertools.product(OPS, repeat=case["depth"]):
        if list(word[:len(case["head"])]) != case["head"]:
            continue
        m = build(kind, s, omega)
        opt = optimiser(m)
        spec = Spec(s)
        for i, op in enumerate(word):
            if not 0.05 < spec.r < 50:
                rec.note("range left the judged interval")
                break
            m, opt = step(m, opt, spec, op, kind, s, omega, rec, (kind, s, omega, word[:i + 1]))
            rec.step(1)
            if len(rec.fails) > 3:
                return
        rec.state(kind, sorted(s.items()), omega, word)
        rec.trace()


# ---------------------------------------------------------------- output clipping
def run_output(case, rec):
    """manage_output_clipping grows the range when outputs saturate, and masks those outputs' gradients."""
    s = dict(learn=True, ifd=0, decay=0.0, pct=0.5, relative=True, scale=1.0)
    for bound, omin, name in itertools.product([0.25, 0.5, 4.0], [0.95, 0.6, 0.3], ["in", "clip", "edge"]):
        c = config(case["kind"], s)
        io = c.forward
        io.is_perfect = False
        io.inp_res = io.out_res = -1
        io.inp_noise = io.out_noise = io.w_noise = 0.0
        io.out_bound = bound
        io.inp_bound = 1.0
        io.noise_management = NoiseManagementType.NONE
        io.bound_management = BoundManagementType.NONE
        c.backward.is_perfect = True
        p = c.pre_post.input_range
        p.manage_output_clipping = True
        p.output_min_percentage = omin
        m = AnalogSequential(AnalogLinear(2, 2, bias=False, rpu_config=c))
        m[0].set_weights(W, None)
        m.train()
        x = X[name]
        xin = x.clone().requires_grad_(True)
        y = m(xin)
        raw = x.clamp(-1, 1) @ W.T
        where = (case["kind"], bound, omin, name)
        rec.check(mcrt.close(y.detach(), raw.clamp(-bound, bound), 1e-5, 1e-6), "output:forward", lambda: (where, y))
        (y * G).sum().backward()
        mask = raw.abs() >= bound
        d = torch.where(mask, torch.zeros(()), G) @ W
        g = float(torch.minimum((x >= 1) * d, torch.zeros(())).sum()
                  - torch.maximum((x <= -1) * d, torch.zeros(())).sum())
        clip = float(mask.float().mean())
        if 1 - clip < omin - 1e-6:
            g -= clip
        got = tile_of(m).input_range.grad
        rec.check(mcrt.close(float(got), g, 1e-4, 1e-5), "output:grad", lambda: (where, float(got), g))
        inside = x.abs() < 1
        rec.check(mcrt.close(xin.grad[inside], d[inside], 1e-5, 1e-6), "output:x", lambda: (where, xin.grad, d))
        rec.state(*where)
        rec.step(2)
    rec.trace()
    # refused where it cannot work
    for what in ("perfect", "noise", "bound"):
        c = config(case["kind"], s)
        c.forward.is_perfect = what == "perfect"
        c.forward.noise_management = NoiseManagementType.ABS_MAX if what == "noise" else NoiseManagementType.NONE
        c.forward.bound_management = BoundManagementType.ITERATIVE if what == "bound" else BoundManagementType.NONE
        c.pre_post.input_range.manage_output_clipping = True
        try:
            AnalogLinear(2, 2, rpu_config=c)
            rec.fail("output:accepted", (case["kind"], what))
        except ConfigError:
            pass
        rec.state("refuse", what)
    rec.trace()


# ---------------------------------------------------------------- calibration
def cal_config(kind, enable, learn, perfect, nm):
    c = L.plain_mapping(L.IDEAL[kind](), weight_scaling_omega=0.5)
    p = c.pre_post.input_range
    p.enable = enable
    p.learn_input_range = learn
    p.init_value = 2.0
    p.init_from_data = 3
    p.init_std_alpha = 1.5
    if hasattr(c, "forward"):
        io = c.forward
        io.is_perfect = perfect
        io.inp_res = io.out_res = 1 / 64.
        io.inp_noise = io.out_noise = io.w_noise = 0.0
        io.out_bound = 20.0
        io.inp_bound = 1.0
        io.noise_management = NoiseManagementType.ABS_MAX if nm else NoiseManagementType.NONE
        io.bound_management = BoundManagementType.NONE
    return c


DATA = {
    "plain": [[X["in"]], [X["clip"]], [X["edge"]]],
    "one": [[X["clip"]]],
    "zeros": [[X["in"]], [X["zero"]], [X["clip"]]],
    "allzero": [[X["zero"]], [X["zero"]]],
    "negative": [[-X["clip"].abs() - 0.5], [-X["in"].abs()]],
    "single-row": [[X["clip"][:1]], [X["in"][:1]]],
    "rank3": [[torch.stack([X["clip"], X["in"]])], [torch.stack([X["edge"], X["zero"]])]],
    "empty": [],
}


class Dead(torch.nn.Module):
    def forward(self, x):
        return x * 0.0


def cal_model(case):
    kinds = case["kinds"]
    mods = []
    for i, k in enumerate(kinds):
        en = case["enable"][i]
        c = cal_config(k, en, case["learn"], case["perfect"], case["nm"])
        if case["mid"] == "dead" and i == len(kinds) - 1:
            mods.append(Dead())
        if case["mid"] == "frozen" and i:
            mods.append(torch.nn.Dropout(0.5))
            mods.append(torch.nn.BatchNorm1d(2))
        cls = AnalogLinearMapped if case["mid"] == "mapped" else AnalogLinear
        if case["mid"] == "mapped":
            c.mapping.max_input_size = 1
        mods.append(cls(2, 2, bias=True, rpu_config=c))
    torch.manual_seed(5)
    m = AnalogSequential(*mods)
    for l in m.analog_layers():
        l.set_weights(W, B)
    m.train()
    if case["mid"] == "frozen":
        for x in m.modules():
            if isinstance(x, (torch.nn.Dropout, torch.nn.BatchNorm1d)):
                x.eval()
    if case["flag"] == "eval":
        m.eval()
    return m


def settings(c):
    d = copy.deepcopy(vars(c))

    def walk(o, pre):
        out = {}
        items = vars(o).items() if hasattr(o, "__dict__") and not isinstance(o, type) else []
        for k, v in items:
            if hasattr(v, "__dict__") and type(v).__module__.startswith("aihwkit") and not hasattr(v, "value"):
                out.update(walk(v, pre + k + "."))
            else:
                out[pre + k] = repr(v)
        return out
    del d
    return walk(c, "")


ALLOWED = {"pre_post.input_range." + k for k in ("init_value", "calibration_info", "init_from_data")}


def expected(kind, batches, case, start, idx, alpha):
    """Acceptable values of the range for the inputs one tile saw."""
    rows = [b.reshape(-1, b.size(-1)) for b in batches]
    rows = [b[~(b == 0).all(-1)] for b in rows]
    q, n = case["q"], case["max"]
    if kind == "Max":
        rows = [b for b in rows if b.numel()]
        return [float(torch.cat(rows).abs().max())] if rows else [start]
    if kind == "CacheQuantile":
        rows = [b for b in rows if b.numel()]
        if not rows:
            return [start]
        a = torch.cat(rows).flatten()
        if len(torch.cat(rows)) > n:
            return None  # a random subset
        return [abs(float(a.quantile(q))), float(a.abs().quantile(q))]
    res = []
    for variant in ("signed", "abs"):
        for i0 in {0, idx}:
            r, i, ok = start, i0, True
            for b in rows:
                if kind == "MovingQuantile":
                    if b.numel() == 0:
                        continue
                    v = float(b.abs().max()) if q == 1.0 else float(
                        (b if variant == "signed" else b.abs()).flatten().quantile(q))
                else:
                    if i >= n or b.numel() < 2:
                        continue
                    v = alpha * float(b.std())
                if v > 0:
                    r = abs((r * i + v) / (i + 1))
                    i += 1
            res.append(r)
    return res


def run_cal(case, rec):
    m = cal_model(case)
    names = [n for n, _ in m.named_analog_tiles()]
    if case["trained"]:
        opt = optimiser(m)
        for _ in range(2):
            opt.zero_grad()
            m(X["in"]).sum().backward()
            opt.step()
    tiles = dict(m.named_analog_tiles())
    before_w = [tuple(None if v is None else v.clone() for v in l.get_weights()) for l in m.analog_layers()]
    before_c = {n: settings(t.rpu_config) for n, t in tiles.items()}
    before_r = {n: (float(t.input_range.item()) if t.input_range is not None else 2.0) for n, t in tiles.items()}
    before_i = {n: (int(t.input_range_update_idx.item()) if t.input_range is not None else 0)
                for n, t in tiles.items()}
    before_f = {n: x.training for n, x in m.named_modules()}
    before_s = {k: v.clone() for k, v in m.state_dict().items()
                if isinstance(v, torch.Tensor) and "input_range" not in k and "analog_ctx" not in k}
    seen = {n: [] for n in names}
    orig = {}
    for n, t in tiles.items():
        def watch(x, *a, _t=t, _n=n, **k):
            seen[_n].append(x.detach().clone())
            return type(_t).forward(_t, x, *a, **k)
        t.forward = watch
    data = [((b[0],), {}) for b in DATA[case["data"]]]
    kind = case["type"]
    refused = None
    try:
        calibrate_input_ranges(m, T(kind), iter(data), quantile=case["q"], max_samples=case["max"],
                               std_alpha=case["alpha"], force_all_layers=case["force"])
    except ConfigError as e:
        refused = str(e)
    for t in tiles.values():
        t.__dict__.pop("forward", None)
    del orig
    where = tuple(sorted((k, str(v)) for k, v in case.items()))
    want_refusal = case["nm"] and not case["force"] and any(
        en and k != "fp" for en, k in zip(case["enable"], case["kinds"]))
    rec.check((refused is not None) == want_refusal, "calibration:refusal", lambda: (where, refused))
    if refused is not None:
        rec.check({n: x.training for n, x in m.named_modules()} == before_f, "refused:flags", lambda: where)
        rec.check(all(settings(t.rpu_config) == before_c[n] and not t._forward_pre_hooks
                      for n, t in m.named_analog_tiles()), "refused:config", lambda: where)
        rec.state("refused", *where)
        rec.trace()
        return
    for i, (n, t) in enumerate(m.named_analog_tiles()):
        layer = i if case["mid"] != "mapped" else i // 2
        k, en = case["kinds"][layer], case["enable"][layer]
        cfg = t.rpu_config
        done = hasattr(cfg, "forward") and (case["force"] or en)
        after = settings(cfg)
        ir = t.input_range
        if not done:
            rec.check((ir is not None) == en, "calibration:enabled-other", lambda: (where, n))
            rec.check(after == before_c[n], "calibration:config-other",
                      lambda: (where, [(x, before_c[n][x], after[x]) for x in after if after[x] != before_c[n].get(x)]))
            if ir is not None:
                rec.check(float(ir.item()) == before_r[n], "calibration:range-other", lambda: (where, n))
            continue
        if not rec.check(ir is not None, "calibration:no-range", lambda: (where, n)):
            continue
        alpha = 1.5 if case["alpha"] is None else case["alpha"]
        want = expected(kind, seen[n], case, before_r[n], before_i[n], alpha)
        got = float(ir.item())
        if want is None:
            top = max(float(b.abs().max()) for b in seen[n])
            rec.check(0 <= got <= top + 1e-6, "calibration:subset", lambda: (where, got, top))
        else:
            rec.check(any(mcrt.close(got, w, 1e-4, 1e-6) for w in want), "calibration:value",
                      lambda: (where, n, got, want))
        allowed = set(ALLOWED)
        if not en:
            allowed |= {"pre_post.input_range.enable", "pre_post.input_range.learn_input_range"}
        if case["nm"]:
            allowed.add("forward.noise_management")
        if case["alpha"] is not None:
            allowed.add("pre_post.input_range.init_std_alpha")
        diff = [(x, before_c[n].get(x), after[x]) for x in after
                if after[x] != before_c[n].get(x) and x not in allowed]
        rec.check(not diff, "calibration:config", lambda: (where, n, diff))
        p = cfg.pre_post.input_range
        if any(bool((b != 0).any()) for b in seen[n]):
            rec.check(p.calibration_info == kind and mcrt.close(p.init_value, got, 1e-6), "calibration:info",
                      lambda: (where, n, p.calibration_info, p.init_value, got))
        rec.check(not t._forward_pre_hooks, "calibration:hooks", lambda: (where, n))
        # the simulated periphery is the one configured: a probe of the tile alone
        if hasattr(cfg, "forward") and not case["perfect"]:
            rec.check(after["forward.is_perfect"] == "False", "calibration:perfect", lambda: (where, n))
            m2 = m.training
            t.eval()
            probe = torch.tensor([[0.3 * got, -0.7 * got]])[:, :t.in_size]
            out = t(probe).detach()
            out0 = quantised(t, probe, got) + (0 if t.bias is None else t.bias.detach())
            if k == "custom":
                out0 = out
            rec.check(mcrt.close(out, out0, 1e-4, 1e-5), "calibration:periphery", lambda: (where, n, out, out0))
            t.train(before_f[n] if n in before_f else m2)
    after_w = [l.get_weights() for l in m.analog_layers()]
    rec.check(all((a is None and b is None) or torch.equal(a, b) for x, y in zip(before_w, after_w)
                  for a, b in zip(x, y)), "calibration:weights", lambda: where)
    after_s = m.state_dict()
    rec.check(all(k in after_s and torch.equal(v, after_s[k]) for k, v in before_s.items()), "calibration:state",
              lambda: (where, [k for k, v in before_s.items() if k not in after_s or not torch.equal(v, after_s[k])]))
    after_f = {n: x.training for n, x in m.named_modules()}
    rec.check(after_f == before_f, "calibration:flags", lambda: (where, [n for n in after_f if after_f[n] !=
                                                                        before_f.get(n)]))
    # the model still works
    m(X["in"])
    rec.state(*where)
    rec.step(len(data) + 1)
    rec.trace()


def quantised(t, x, r):
    """Ideal tile with input and output resolution 1/64 of the bounds."""
    w = t.get_weights(apply_weight_scaling=False)[0]
    scales = t.get_mapping_scales()
    scales = torch.ones(w.shape[0]) if scales is None else scales
    z = (x / r).clamp(-1, 1)
    step = 2 / 64.
    z = torch.round(z / step) * step
    y = z @ w.T
    step = 20 * 2 / 64.
    y = (torch.round(y / step) * step).clamp(-20, 20)
    y = y * r * scales
    if t.out_scaling_alpha is not None:
        y = y * t.out_scaling_alpha
    return y


def run(case, rec):
    globals()["run_" + case["what"]](case, rec)


def cases(tier):
    deep = tier == "thorough"
    out = []
    base = dict(learn=True, ifd=0, decay=0.25, pct=0.6, relative=True, scale=1.0)
    for kind in KINDS:
        for s in SETTINGS:
            off = sum(s[k] != base[k] for k in base)
            if not deep and off > 2:
                continue
            for omega in ([0.0, 0.5] if deep or off < 2 else [0.0]):
                if deep:
                    for op in OPS:
                        out.append(dict(what="words", kind=kind, s=s, omega=omega, depth=4 if off < 2 else 3, head=[op]))
                elif off < 2:
                    for i in range(0, len(OPS)):
                        out.append(dict(what="words", kind=kind, s=s, omega=omega, depth=3, head=[OPS[i]]))
                else:
                    out.append(dict(what="words", kind=kind, s=s, omega=omega, depth=2, head=[]))
    for kind in ("single", "inference"):
        out.append(dict(what="output", kind=kind))
    types = ["Max", "CacheQuantile", "MovingQuantile", "MovingStd"]
    basic = dict(what="cal", kinds=["inference", "inference"], enable=[True, True], learn=True, perfect=False, nm=False,
                 mid="plain", flag="train", trained=False, data="plain", q=0.99, max=1000, alpha=None, force=True)
    axes = dict(kinds=[["inference", "inference"], ["torch", "torch"], ["single", "single"], ["fp", "inference"],
                       ["inference", "fp"], ["custom", "inference"]],
                enable=[[True, True], [False, True], [True, False], [False, False]], learn=[True, False],
                perfect=[False, True], nm=[False, True], mid=["plain", "dead", "frozen", "mapped"],
                flag=["train", "eval"], trained=[False, True], data=list(DATA), q=[0.99, 1.0, 0.5], max=[1000, 2],
                alpha=[None, 2.0], force=[True, False])
    seen = set()
    for ty in types:
        for a, b in itertools.combinations_with_replacement(sorted(axes), 2):
            for va in axes[a]:
                for vb in axes[b]:
                    c = dict(basic, type=ty)
                    c[a], c[b] = va, vb
                    if c["mid"] == "mapped" and "fp" in c["kinds"] or c["mid"] == "frozen" and c["data"] == "rank3":
                        continue
                    key = repr(sorted(c.items()))
                    if key not in seen:
                        seen.add(key)
                        out.append(c)
    return out
