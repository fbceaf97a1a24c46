"""I02: programming freezes target, noise and drift state; inference time only acts on that."""
import copy
import itertools

import torch
import torch.nn.functional as F
from torch import nn

import d02 as D
import mclib as L
import mcconf as Z
import mcrt
import mcrng
from aihwkit.exceptions import ModuleError
from aihwkit.inference import (CustomDriftPCMLikeNoiseModel, GlobalDriftCompensation, PCMLikeNoiseModel,
                               ReRamWan2022NoiseModel, StateIndependentNoiseModel,
                               drift_analog_weights, program_analog_weights)
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise.reram import ReRamCMONoiseModel
from aihwkit.inference.compensation.drift import (GlobalDriftCompensationWithExactReference,
                                                  PerColumnDriftCompensation)
from aihwkit.inference.converter.conductance import (DualPairConductanceConverter,
                                                     SinglePairConductanceConverter)
from aihwkit.nn import AnalogConv2d, AnalogLinear
from aihwkit.optim import AnalogSGD

RULE = ("case = layer kind x tile kind x noise model x compensation x (every word over the operations from a "
        "fresh layer | a de Bruijn history containing every word); an explicit model of the programmed state "
        "predicts weights, drift parameters, compensation and both outputs after every single operation; a "
        "state is (configuration, weights, alpha), a transition one operation")
BOUNDS = {"quick": "all words of length 2 from a fresh layer and all words of length 3 within one history, 11 "
                   "operations, 4 tile kinds x 10 noise models x 4 compensations; 7 layer kinds",
          "thorough": "all words of length 3 from a fresh layer, of length 4 within one history"}
ASSUMPTIONS = ["perfect read-out, so that a read-out is a function of the weights",
               "the noise functions themselves are judged by I03; here they are taken from a pristine copy of "
               "the model and called with copies of the programmed state"]
TIMES = (0.0, 3.0, 1e6)
OPS = ("P", "R", "N", "u", "d0", "d1", "d2", "S", "T", "C", "L", "X")

NOISE = {
    "pcm": lambda: PCMLikeNoiseModel(),
    "pcm-quiet": lambda: PCMLikeNoiseModel(prog_noise_scale=0.0, read_noise_scale=0.0, g_max=20.0),
    "pcm-gmin": lambda: PCMLikeNoiseModel(g_converter=SinglePairConductanceConverter(g_max=25., g_min=2.)),
    "pcm-dual": lambda: PCMLikeNoiseModel(g_converter=DualPairConductanceConverter(
        f_lst=[1.0, 3.0], g_max=15.0, g_min=0.0)),
    "custom": lambda: CustomDriftPCMLikeNoiseModel(
        dict(g_lst=[0., 10., 25.], nu_mean_lst=[0.08, 0.05, 0.03], nu_std_lst=[0.03, 0.02, 0.01]),
        g_converter=SinglePairConductanceConverter(g_max=25.0)),
    "state": lambda: StateIndependentNoiseModel(),
    "hermes1": lambda: HermesNoiseModel(num_devices=1),
    "hermes2": lambda: HermesNoiseModel(),
    "wan": lambda: ReRamWan2022NoiseModel(),
    "cmo": lambda: ReRamCMONoiseModel(g_min=9.0, g_max=88.0),
}
COMP = {"none": lambda: None, "global": GlobalDriftCompensation,
        "exact": GlobalDriftCompensationWithExactReference, "column": PerColumnDriftCompensation}


def config(tile, noise, comp, scaled=False, bias="digital", mod=False):
    c = Z._inference(tile, False)
    c.forward.is_perfect = True
    if hasattr(c, "mapping") and tile != "quant":
        L.plain_mapping(c, digital_bias=bias == "digital")
    if scaled:
        c.mapping.weight_scaling_omega = 0.6
        c.mapping.weight_scaling_columnwise = True
    if mod:
        c.modifier.type = Z.WeightModifierType.ADD_NORMAL
        c.modifier.std_dev = 0.3
    c.noise_model = NOISE[noise]()
    c.drift_compensation = COMP[comp]()
    return c


def layer(kind, cfg, seed=5):
    mcrng.reset(seed)
    if kind == "linear":
        m = AnalogLinear(8, 3, bias=True, rpu_config=cfg)
    elif kind == "conv":
        m = AnalogConv2d(2, 3, 2, bias=True, rpu_config=cfg, use_indexed=True)
    elif kind == "unfold":
        m = AnalogConv2d(2, 3, 2, bias=True, rpu_config=cfg, use_indexed=False)
    w = L.grid(3, 8, k=3)
    m.set_weights(w.reshape((3, 2, 2, 2) if kind != "linear" else (3, 8)),
                  torch.tensor([.3, -.2, .1]))
    return m


def inputs(kind):
    return L.grid(2, 8, k=9, lo=-1, hi=1) if kind == "linear" else L.grid(1, 2, 3, 3, k=9, lo=-1, hi=1)


class Ref:
    """The programmed state, by the documentation."""

    def __init__(self, cfg, cur):
        self.noise = copy.deepcopy(cfg.noise_model)
        self.comp = cfg.drift_compensation.__class__.__name__ if cfg.drift_compensation else None
        self.cur, self.target, self.prog, self.nu, self.base = cur.clone(), None, None, None, None
        self.alpha = torch.ones(1)

    def readout(self, w):
        if self.comp == "PerColumnDriftCompensation":
            return w.abs().mean(1).clamp(min=1e-4)
        return w.abs().mean().clamp(min=1e-4)

    def program(self, from_reference=True, noise=None):
        if noise is not None:
            self.noise = copy.deepcopy(noise)
        if self.target is None or not from_reference:
            self.target = self.cur.clone()
        w, nu = copy.deepcopy(self.noise).apply_programming_noise(self.target.clone())
        self.prog = w.clone()
        self.nu = [None if n is None else n.clone() for n in nu]
        self.cur = self.prog.clone()
        self.alpha = torch.ones(1)
        if self.comp:
            self.base = self.readout(self.target if self.comp.endswith("ExactReference") else self.cur)

    def drift(self, t):
        if self.prog is None:
            self.program()
        nu = [None if n is None else n.clone() for n in self.nu]
        self.cur = copy.deepcopy(self.noise).apply_drift_noise(self.prog.clone(), nu, t).clone()
        if self.comp:
            self.alpha = (self.base / self.readout(self.cur)).reshape(-1)


def times(case):
    return (1.0, 86400.0, 172800.0) if case["noise"] == "wan" else TIMES


class Run:
    def __init__(self, case, rec):
        self.case, self.rec, self.n = case, rec, 0
        self.kind, self.tile_kind = case["layer"], case["tile"]
        mod = case.get("mod", False)
        self.cfg = config(self.tile_kind, case["noise"], case["comp"], case.get("scaled", False),
                          case.get("bias", "digital"), mod)
        self.mod = mod
        m = layer(self.kind, self.cfg)
        self.model = nn.Sequential(m)
        self.model.eval()
        self.ref = Ref(self.cfg, self.tile.tile.get_weights())
        self.x = inputs(self.kind)

    @property
    def m(self):
        return self.model[0]

    @property
    def tile(self):
        return self.m.analog_module if hasattr(self.m, "analog_module") else next(self.m.analog_tiles())

    def op(self, o):
        self.n += 1
        s = 100 + self.n % 40
        t, r = self.tile, self.ref
        if o in ("P", "N"):
            other = None
            if o == "N":
                other = NOISE["state" if self.case["noise"] != "cmo" else "cmo"]() \
                    if self.case["noise"] != "wan" else NOISE["wan"]()
                if hasattr(other, "drift_nu_mean"):
                    other.drift_nu_mean = 0.02
            mcrng.reset(s)
            self.m.program_analog_weights(noise_model=other) if other is not None else \
                self.m.program_analog_weights()
            mcrng.reset(s)
            r.program(noise=other)
        elif o == "R":
            mcrng.reset(s)
            t.program_weights(from_reference=False)
            mcrng.reset(s)
            r.program(from_reference=False)
        elif o == "u":
            mcrng.reset(s)
            program_analog_weights(self.model, None)
            drift_analog_weights(self.model, times(self.case)[1])
            mcrng.reset(s)
            r.program()
            r.drift(times(self.case)[1])
        elif o[0] == "d":
            ti = times(self.case)[int(o[1])]
            mcrng.reset(s)
            self.m.drift_analog_weights(ti)
            mcrng.reset(s)
            r.drift(ti)
        elif o == "S":
            w = L.grid(3, 8, k=11 + self.n % 3)
            self.m.set_weights(w.reshape((3, 2, 2, 2) if self.kind != "linear" else (3, 8)),
                               torch.tensor([.1, -.3, .2]))
            r.cur = t.tile.get_weights().clone()
            r.target = None     # new weights are the next target; what is programmed stays
        elif o == "T":
            mcrng.reset(s)
            self.model.train()
            if self.tile_kind == "irdropt":
                # no gradient is promised here: the weights change otherwise
                t.tile.set_weights(t.tile.get_weights() * 0.9)
            else:
                opt = AnalogSGD(self.model.parameters(), lr=0.05)
                opt.regroup_param_groups()
                self.model(self.x).sum().backward()
                opt.step()
            self.model.eval()
            r.cur = t.tile.get_weights().clone()
        elif o == "C":
            self.model = copy.deepcopy(self.model)
        elif o == "L":
            cfg = config(self.tile_kind, self.case["noise"], self.case["comp"], self.case.get("scaled", False),
                         self.case.get("bias", "digital"), self.mod)
            cfg.noise_model = copy.deepcopy(r.noise)
            other = nn.Sequential(layer(self.kind, cfg, 77))
            other[0].set_weights(*[a * 0.3 if a is not None else None for a in other[0].get_weights()])
            other.load_state_dict(self.model.state_dict(), load_rpu_config=False) \
                if hasattr(other, "analog_layers") else other.load_state_dict(self.model.state_dict())
            self.model = other.eval()
            mcrng.reset(s)
        elif o == "X":
            self.model.train()
            for f in (lambda: self.m.program_analog_weights(), lambda: self.m.drift_analog_weights(5.0),
                      lambda: program_analog_weights(self.model, None),
                      lambda: drift_analog_weights(self.model, 5.0)):
                try:
                    f()
                except ModuleError:
                    continue
                self.rec.fail("train-mode-accepted", "programming or drifting in training mode must be refused")
            self.model.eval()
        self.rec.step()
        self.judge(o)

    def judge(self, o):
        rec, t, r = self.rec, self.tile, self.ref
        lab = f"{self.case['tile']}:{o if o[0] != 'd' else 'd'}"
        cur = t.tile.get_weights()
        tol = dict(rtol=1e-4, atol=2e-6)
        rec.check(mcrt.close(cur, r.cur, **tol), f"weights:{lab}",
                  lambda: f"weights after {self.hist()} are {cur.flatten()[:4].tolist()}, the programmed state "
                          f"gives {r.cur.flatten()[:4].tolist()}")
        if r.prog is not None:
            rec.check(t.programmed_weights is not None and mcrt.close(t.programmed_weights, r.prog, **tol),
                      f"programmed:{lab}", f"programmed weights changed by {self.hist()}")
            rec.check(r.target is None or t.reference_combined_weights is not None
                      and mcrt.close(t.reference_combined_weights, r.target, **tol),
                      f"target:{lab}", f"programming target changed by {self.hist()}")
            got = t.drift_noise_parameters
            rec.check(got is not None and len(got) == len(r.nu) and all(
                (a is None) == (b is None) and (a is None or mcrt.close(a, b, **tol))
                for a, b in zip(got, r.nu)), f"drift-parameters:{lab}", f"drift parameters changed by {self.hist()}")
        else:
            rec.check(t.programmed_weights is None, f"unprogrammed:{lab}", "tile claims to be programmed")
        alpha = t.alpha.detach().reshape(-1)
        ok = alpha.numel() in (1, r.alpha.numel()) and mcrt.close(
            alpha.expand(max(alpha.numel(), r.alpha.numel())),
            r.alpha.expand(max(alpha.numel(), r.alpha.numel())), rtol=1e-4, atol=1e-5)
        rec.check(ok, f"alpha:{lab}", lambda: f"compensation {alpha.tolist()} instead of {r.alpha.tolist()} "
                                               f"after {self.hist()}")
        if self.tile_kind in ("irdropt", "quant"):
            rec.state(self.case["i"], cur, alpha)
            return
        # outputs
        w, b = self.m.get_weights(apply_weight_scaling=True)
        with torch.no_grad():
            ev = self.model(self.x)
            self.model.train()
            tr = self.model(self.x)
            self.model.eval()
        a = r.alpha
        digital = self.case.get("bias", "digital") == "digital"
        if self.kind == "linear":
            plain, view = F.linear(self.x, w), (1, -1)
        else:
            plain, view = F.conv2d(self.x, w.reshape(3, 2, 2, 2)), (1, -1, 1, 1)
        bb = b.reshape(view)
        exp = (plain * a.reshape(view) + bb) if digital else (plain + bb) * a.reshape(view)
        rec.check(mcrt.close(ev, exp, rtol=1e-4, atol=1e-5), f"eval:{lab}",
                  lambda: f"evaluation output {ev.flatten()[:3].tolist()} instead of "
                          f"{exp.flatten()[:3].tolist()} after {self.hist()}")
        if not self.mod:
            rec.check(mcrt.close(tr, plain + bb, rtol=1e-4, atol=1e-5), f"train:{lab}",
                      lambda: f"training output {tr.flatten()[:3].tolist()} instead of "
                              f"{(plain + bb).flatten()[:3].tolist()} after {self.hist()}")
        rec.check(mcrt.same(t.tile.get_weights(), cur), f"forward-writes:{lab}", "forward changed the weights")
        rec.state(self.case["i"], cur, alpha)

    def hist(self):
        return "..." + " ".join(self.word[max(0, self.n - 6):self.n])


def words(case):
    if "history" in case:
        yield D.de_bruijn(list(OPS), case["history"])
    else:
        for w in itertools.product(OPS, repeat=case["depth"]):
            if w[0] == case["first"]:
                yield w


def law(case, rec):
    """With all noise off, the weights follow the documented power law of the drift coefficients."""
    for t0, g_max, gain in ((20.0, 25.0, 1.0), (5.0, 40.0, 2.0)):
        cfg = config(case["tile"], "pcm", case["comp"])
        kw = dict(prog_noise_scale=0.0, read_noise_scale=0.0, drift_scale=gain, t_0=t0, g_max=g_max)
        cfg.noise_model = {"pcm": PCMLikeNoiseModel, "state": StateIndependentNoiseModel}[case["noise"]](**kw)
        m = layer("linear", cfg)
        m.eval()
        w0 = m.analog_module.tile.get_weights().clone()
        mcrng.reset(3)
        m.program_analog_weights()
        rec.check(mcrt.close(m.analog_module.tile.get_weights(), w0, rtol=1e-5, atol=1e-6), "law:program",
                  "programming without noise changed the weights")
        pos, neg = m.analog_module.drift_noise_parameters
        for t in itertools.chain.from_iterable(itertools.permutations((0.0, 1.0, 25.0, 3600.0, 1e7), 3)):
            mcrng.reset(4)
            m.drift_analog_weights(t)
            nu = torch.where(w0 > 0, pos, neg)
            exp = w0 * ((t + t0) / t0) ** (-nu)
            got = m.analog_module.tile.get_weights()
            rec.step()
            rec.state(case["i"], t, t0, got)
            rec.check(mcrt.close(got, exp, rtol=1e-4, atol=1e-6), "law:drift",
                      lambda: f"at t={t} the weights are not w (t/t0)^-nu")


def trans(case, rec):
    """Tiles with transposed inputs or outputs: the same compensation."""
    for comp, bias, t in itertools.product(("global", "exact", "column"), (False, True), (5.0, 1e5)):
        cfg = config("inference", case["noise"], comp, bias="analog" if bias else "digital")
        mcrng.reset(5)
        tile = cfg.tile_class(3, 4, cfg, bias=bias, in_trans=case["it"], out_trans=case["ot"])
        tile.set_weights(L.grid(3, 4, k=3), torch.tensor([.2, -.3, .1]) if bias else None)
        ref = Ref(cfg, tile.tile.get_weights())
        mcrng.reset(7)
        tile.program_weights()
        mcrng.reset(7)
        ref.program()
        mcrng.reset(8)
        tile.drift_weights(t)
        mcrng.reset(8)
        ref.drift(t)
        rec.step(2)
        a = tile.alpha.reshape(-1)
        rec.state(case["i"], comp, bias, t, a)
        if not rec.check(a.shape == ref.alpha.shape and mcrt.close(a, ref.alpha, rtol=1e-4, atol=1e-5),
                         f"trans-alpha:{comp}", lambda: f"compensation {a.tolist()} instead of {ref.alpha.tolist()}"):
            continue
        x = L.grid(2, 4, k=9, lo=-1, hi=1)
        y = tile.joint_forward(x.T.contiguous() if case["it"] else x, is_test=True)
        y = y.T if case["ot"] else y
        xx = torch.cat([x, torch.ones(2, 1)], 1) if bias else x
        exp = (xx @ ref.cur.T) * ref.alpha
        rec.check(mcrt.close(y, exp, rtol=1e-4, atol=1e-5), f"trans-eval:{comp}",
                  lambda: f"evaluation output {y.tolist()} instead of {exp.tolist()}")


def cases(tier):
    out = []
    quick = tier == "quick"
    n = 3 if quick else 4
    for tile, noise, comp in itertools.product(("inference", "torch", "irdropt", "quant"), NOISE, COMP):
        if tile in ("irdropt", "quant") and noise not in ("pcm", "custom", "wan"):
            continue
        big = not quick and tile == "inference" and noise in ("pcm", "cmo", "state")
        out.append(dict(layer="linear", tile=tile, noise=noise, comp=comp, history=4 if big else 3))
    for tile, comp in itertools.product(("inference", "torch"), COMP):
        for kw in (dict(layer="conv"), dict(layer="unfold"), dict(layer="linear", scaled=True),
                   dict(layer="conv", scaled=True), dict(layer="linear", mod=True),
                   dict(layer="linear", bias="analog"), dict(layer="conv", bias="analog")):
            if tile == "torch" and (kw.get("bias") == "analog" or kw["layer"] == "conv"):
                continue
            out.append(dict(dict(tile=tile, noise="pcm", comp=comp, history=3), **kw))
    for tile, comp, noise, first in itertools.product(("inference", "torch"), COMP, ("pcm", "cmo"), OPS):
        if quick and tile == "torch" and noise == "cmo":
            continue
        out.append(dict(layer="linear", tile=tile, noise=noise, comp=comp, depth=n - 1, first=first))
    for tile, noise, comp in itertools.product(("inference", "torch"), ("pcm", "state"), ("none", "global")):
        out.append(dict(kind="law", tile=tile, noise=noise, comp=comp))
    for noise, it, ot in itertools.product(("pcm", "state"), (False, True), (False, True)):
        out.append(dict(kind="trans", noise=noise, it=it, ot=ot))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, rec):
    if case.get("kind") == "trans":
        trans(case, rec)
        return
    if case.get("kind") == "law":
        law(case, rec)
        return
    for w in words(case):
        r = Run(case, rec)
        r.word = list(w)
        r.judge("-")
        for o in w:
            r.op(o)
            if rec.fails:
                return
        rec.trace()
