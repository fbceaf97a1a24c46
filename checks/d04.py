"""D04: Tiki-Taka transfers happen on schedule, once per column, and land."""
import copy
import itertools

import numpy as np
import torch

import d02 as D
import mcconf as Z
import mcdev as V
import mclib as L
import mcrng
import mcrt
from aihwkit.simulator.configs import (
    BufferedTransferCompound, ChoppedTransferCompound, DynamicTransferCompound, IOParameters, PulseType,
    TransferCompound, UnitCellRPUConfig, UpdateParameters,
)
import aihwkit.simulator.tiles.transfer as X
from aihwkit.simulator.tiles.analog import AnalogTile

RULE = ("compound x devices in the chain x cycle length x unit of the cycle x reads per transfer x columns or rows x "
        "gamma x kind of write x buffer options x learning rate options x tile shape; one history containing every word "
        "over the operations (batched updates of different size and pattern, learning rate, programming, hidden "
        "weights, copy) to the depth bound; after every operation every hidden "
        "device, every buffer, every chopper and the visible weight against a reference that handles one vector at a "
        "time. A state is (case, hidden weights and buffers)")
BOUNDS = {"quick": "every word of 3 operations", "thorough": "every word of 4 operations"}
ASSUMPTIONS = ["reads and writes of the transfer are ideal (or pulses certain)", "steps of the fast device are constant"]

DWA, DWC = 0.02, 0.03
SHAPES = {"wide": (3, 2), "tall": (2, 4)}   # (inputs, outputs)


def steps(dw):
    d = D.device("ConstantStep", "nominal")
    for f in ("w_max_dtod", "w_min_dtod", "dw_min_dtod", "up_down_dtod", "dw_min_std", "reset_std"):
        setattr(d, f, 0.0)
    d.dw_min, d.w_max, d.w_min = dw, 40.0, -40.0
    return d


def cases(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    for shape, cols in itertools.product(SHAPES, (True, False)):
        ins = SHAPES[shape][0 if cols else 1]
        # the schedule
        for nd, every, mb, reads in itertools.product((2, 3), (1, 2, 3, 1.5, 0), (False, True), range(1, ins + 1)):
            if every == 1.5 and not mb:
                continue
            if not deep and reads > 2 and (every != 1 or nd == 3):
                continue
            yield dict(cell="Transfer", shape=shape, cols=cols, nd=nd, every=every, mb=mb, reads=reads, n=n)
        for extra in (dict(gamma=0.5), dict(gamma_vec=[0.3, 0.6]), dict(lrs=[0.7, 0.2]), dict(everys=[2.0, 0.0]),
                      dict(scale=False), dict(fast=0.044), dict(fast=0.667, scale_fast=True), dict(fast=0.0),
                      dict(everys=[1.0, 1.0])):
            yield dict(cell="Transfer", shape=shape, cols=cols, nd=2, every=1, mb=False, reads=1, n=n, **extra)
        yield dict(cell="Transfer", shape=shape, cols=cols, nd=3, every=1, mb=False, reads=1, n=n, gamma=0.5)
        yield dict(cell="Transfer", shape=shape, cols=cols, nd=3, every=1, mb=False, reads=1, n=n,
                   everys=[2.0, 3.0, 0.0], lrs=[0.5, 0.25, 1.0])
        if cols:
            for reads in range(1, ins + 1):
                for every in (1, 2):
                    yield dict(cell="Transfer", shape=shape, cols=cols, nd=2, every=every, mb=False, reads=reads, n=n,
                               reset=1.0)
        for reads, every, rs in itertools.product((1, 2), (1, 2), range(6 if deep else 2)):
            yield dict(cell="Transfer", shape=shape, cols=cols, nd=2, every=every, mb=False, reads=reads, n=n,
                       random=1 + rs)
        # the buffer
        for every, reads, nd in ((1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 1, 3)):
            for mom, forget in itertools.product((0.0, 0.3), (True, False)):
                for wr in WRITES if (every, reads, nd) == (1, 1, 2) else WRITES[:1]:
                    yield dict(cell="Buffered", shape=shape, cols=cols, nd=nd, every=every, mb=False, reads=reads,
                               mom=mom, forget=forget, write=wr, n=n)
        for extra in (dict(thres=2.5), dict(gamma=0.5), dict(step=2.0), dict(scale=False)):
            yield dict(cell="Buffered", shape=shape, cols=cols, nd=2, every=1, mb=False, reads=1, mom=0.0, forget=False,
                       write="none5", n=n, **extra)
        # choppers
        for every, chop, forget in itertools.product((1, 2), (0.0, 0.5, 0.34, 1.0), (True, False)):
            for cell in ("Chopped", "Torch"):
                if cell == "Torch":
                    every += 2
                yield dict(cell=cell, shape=shape, cols=cols, nd=2, every=every, mb=False, reads=1, mom=0.3,
                           forget=forget, write="none5", chop=chop, n=n)
        for every, chop, extra in itertools.product((1, 2, 3), (0.0, 0.5, 1.0), (
                dict(), dict(gamma=0.5), dict(scale=False), dict(mb=True), dict(rand=True), dict(out_chop=1.0),
                dict(forget=False), dict(mom=0.3), dict(tail=1.0))):
            yield dict(dict(cell="Dynamic", shape=shape, cols=cols, nd=2, every=every, mb=False, reads=1, mom=0.0,
                            forget=True, write="none5", chop=chop, n=n), **extra)
        for extra in (dict(write="one"), dict(out_chop=1.0), dict(out_chop=1.0, chop=0.5),
                      dict(rand=True, chop=0.5, u=0.1), dict(rand=True, chop=0.5, u=0.9), dict(no_buffer=True),
                      dict(auto_gran=7.0), dict(gran=2.0), dict(correct=True), dict(gamma=0.5), dict(step=2.0),
                      dict(scale=False), dict(mb=True, every=1), dict(gamma=0.5, chop=0.5), dict(every=3)):
            for cell in ("Chopped", "Torch"):
                if cell == "Torch" and set(extra) & {"out_chop", "no_buffer", "gamma"}:
                    continue
                base = dict(cell=cell, shape=shape, cols=cols, nd=2, every=1 if cell == "Chopped" else 3, mb=False,
                            reads=1, mom=0.0, forget=False, write="none5", chop=0.0, n=n)
                base.update(extra)
                yield base


WRITES = ("none5", "none1", "one")


def config(case):
    cell = case["cell"]
    cls = {"Transfer": TransferCompound, "Buffered": BufferedTransferCompound, "Chopped": ChoppedTransferCompound,
           "Torch": ChoppedTransferCompound, "Dynamic": DynamicTransferCompound}[cell]
    wr = case.get("write", "none5")
    up = UpdateParameters(desired_bl=1 if wr.endswith("1") or wr == "one" else 5, update_management=False,
                          update_bl_management=False,
                          pulse_type={"none5": PulseType.NONE_WITH_DEVICE, "none1": PulseType.NONE_WITH_DEVICE,
                                      "one": PulseType.STOCHASTIC_COMPRESSED,}[wr])
    kw = dict(unit_cell_devices=[steps(DWA)] + [steps(DWC) for _ in range(case["nd"] - 1)],
              transfer_every=float(case["every"]), units_in_mbatch=case["mb"], n_reads_per_transfer=case["reads"],
              transfer_columns=case["cols"], transfer_forward=IOParameters(is_perfect=True), transfer_update=up,
              gamma=case.get("gamma", 0.0), gamma_vec=case.get("gamma_vec", []), transfer_lr=0.6137,
              transfer_lr_vec=case.get("lrs", []), transfer_every_vec=case.get("everys", []),
              scale_transfer_lr=case.get("scale", True), fast_lr=case.get("fast", 20.0),
              scale_fast_lr=case.get("scale_fast", False))
    if cell == "Transfer":
        kw.update(with_reset_prob=case.get("reset", 0.0), random_selection="random" in case)
    else:
        kw.update(momentum=case["mom"], forget_buffer=case["forget"], step=case.get("step", 1.0))
    if cell == "Buffered":
        kw.update(thres_scale=case.get("thres", 1.0))
    if cell == "Dynamic":
        kw.update(tail_weightening=case.get("tail", 5.0))
    if cell in ("Chopped", "Torch", "Dynamic"):
        kw.update(in_chop_prob=case.get("chop", 0.0), in_chop_random=case.get("rand", False),
                  out_chop_prob=case.get("out_chop", 0.0), buffer_granularity=case.get("gran", 1.0),
                  auto_granularity=case.get("auto_gran", 0.0), no_buffer=case.get("no_buffer", False),
                  correct_gradient_magnitudes=case.get("correct", False))
    cfg = UnitCellRPUConfig(device=cls(**kw))
    for io in (cfg.forward, cfg.backward):
        io.is_perfect = True
    cfg.update = UpdateParameters(desired_bl=3, update_management=False, update_bl_management=False,
                                  pulse_type=PulseType.DETERMINISTIC_IMPLICIT)
    L.plain_mapping(cfg)
    cfg.mapping.digital_bias = False
    return cfg


class Sim:
    """one vector at a time"""

    def __init__(self, case, gamma_lr=False):
        self.c = case
        self.nx, self.ndim = SHAPES[case["shape"]]
        n = case["nd"]
        self.n = n
        self.A = [np.zeros((self.ndim, self.nx)) for _ in range(n)]
        self.B = [np.zeros((self.ndim, self.nx)) for _ in range(n - 1)]
        self.ins = self.nx if case["cols"] else self.ndim
        self.outs = self.ndim if case["cols"] else self.nx
        g = case.get("gamma", 0.0)
        self.g = case.get("gamma_vec") or [g ** (n - 1 - k) if k < n - 1 else 1.0 for k in range(n)]
        self.hid = all(x == 0 for x in self.g[:-1])
        ev = [case["every"] * (self.ins / case["reads"]) ** j for j in range(n)]
        ev[-1] = 0
        self.every = case.get("everys") or ev
        self.lrs = case.get("lrs") or [0.6137] * n
        self.count = 0
        self.slice = [0] * n
        self.ic = np.zeros(self.ins, bool)
        self.oc = np.zeros(self.outs, bool)
        self.rounds = 0
        self.lr = 0.066
        self.gamma_lr = gamma_lr
        self.script, self.made = [], []
        self.reads = [(0, True)] * self.ins
        self.last = None
        if case["cell"] == "Torch":
            self.slice = [1 % self.ins]
        self.near = 0  # a value so close to a threshold that both answers are right

    def copy(self):
        return copy.deepcopy(self)

    def set_weights(self, w):
        if self.c["cell"] == "Torch":
            self.A[1] = w.copy()
            return
        for k in range(self.n):
            self.A[k][:] = 0
        self.A[-1] = w / self.g[-1]
        self.count = 0
        self.slice = [0] * self.n

    def chop(self):
        """sign of every cell of the fast device"""
        s = np.where(self.ic[None, :] != self.oc[:, None], -1.0, 1.0)
        return s if self.c["cols"] else s.T

    def fast(self, lr):
        f = self.c.get("fast", 20.0)
        f = lr if f <= 0 else f * lr if self.c.get("scale_fast") else f
        return f

    def row(self, x, d, m):
        c = self.c
        k = min(int(self.fast(self.lr) / DWA), 3)  # pulses
        self.A[0] = self.A[0] - k * DWA * np.outer(np.sign(d), np.sign(x)) * self.chop()
        self.count += 1
        for j in range(self.n - 1):
            e = self.every[j]
            e = int(np.ceil(e * m)) if c["mb"] else int(np.floor(e + 0.5))
            if e > 0 and self.count % e == 0:
                self.transfer(j)

    def batch(self, rows):
        if self.c["cell"] != "Torch":
            for x, d in rows:
                self.row(x, d, len(rows))
            return
        # the python tile updates the whole batch and transfers once if a multiple of the cycle was reached
        e = self.every[0] * (len(rows) if self.c["mb"] else 1)
        self.every[0], keep_ = 0, self.every[0]
        before = self.count
        for x, d in rows:
            self.row(x, d, len(rows))
        self.every[0] = keep_
        if self.count // int(e) > before // int(e):
            self.transfer(0)

    def judge_chopper(self, now):
        """the column (or row) just read may switch, once per period"""
        p = self.c.get("chop", 0.0)
        ex = None
        for k in range(self.ins):
            since, first = self.reads[k]
            fresh = self.last == k
            if fresh:
                since += 1
            flip = bool(now[k]) != bool(self.ic[k])
            if p <= 0 or not fresh:
                may, must = False, False
            elif self.c.get("rand"):
                may = must = self.c["u"] < p
            else:
                per = round(1.0 / p)
                may = since == per or (first and since < per)
                must = since == per
            if (flip and not may) or (must and not flip):
                ex = "switch of %d: %s after %d reads" % (k, flip, since)
            if flip:
                self.ic[k] = now[k]
                since, first = 0, False
            self.reads[k] = (since, first)
        self.last = None
        return ex

    def transfer(self, j):
        c = self.c
        start = self.choose(self.ins) if c.get("random") else self.slice[j]
        for i in range(c["reads"]):
            self.one(j, (start + i) % self.ins)
        self.slice[j] = (start + c["reads"]) % self.ins

    def one(self, j, k):
        c = self.c
        sel = np.s_[:, k] if c["cols"] else np.s_[k, :]
        if c["cell"] == "Dynamic":
            return
        val = self.A[j][sel].copy()
        lr = self.lrs[j] * (self.lr if c.get("scale", True) else 1.0)
        if c["cell"] == "Transfer":
            if c.get("reset"):
                self.A[j][sel] = 0.0
            self.A[j + 1][sel] = self.A[j + 1][sel] + lr * val
            return
        if self.gamma_lr:
            lr = lr * self.g[j] / self.g[j + 1]
        if c["cell"] == "Buffered":
            unit = c.get("thres", 1.0) * DWC
        else:
            unit = c.get("gran", 1.0) * DWA
            if c.get("auto_gran"):
                unit *= c["auto_gran"] / (self.ins * c["every"])
            if c.get("correct"):
                unit *= DWC / DWA * self.fast(self.lr)
            val = np.where(self.ic[k] != self.oc, -val, val)
        # the buffer in units of its granularity
        old = 0.0 if c.get("no_buffer") else self.B[j][sel] / (unit if c["cell"] == "Buffered" else 1.0)
        h = old + lr * val / unit
        if (np.abs(h - np.round(h)) < 2e-4)[np.abs(h) > 0.5].any():
            self.near += 1
        top = 1 if c.get("write", "none5") in ("one", "none1") else 5
        steps_ = np.clip(np.trunc(h), -top, top)
        if c["forget"]:
            new = np.where(steps_ != 0, h * c["mom"], h)
        else:
            new = h - (1 - c["mom"]) * steps_
        self.B[j][sel] = new * (unit if c["cell"] == "Buffered" else 1.0)
        pulses = steps_ * c.get("step", 1.0)
        if c.get("write") == "one":
            pulses = np.clip(np.round(pulses), -top, top)
        self.A[j + 1][sel] = self.A[j + 1][sel] + pulses * DWC
        self.last = k
        if c["cell"] != "Chopped":
            return
        p = c.get("chop", 0.0)
        if p > 0:
            if c.get("rand"):
                flip = p >= 1 or self.choose(2) == 1
            else:
                per = max(int(np.ceil(1.0 / p)), 2)
                flip = self.rounds % per + 1 == per
            if flip:
                self.ic[k] = not self.ic[k]
        if k == self.ins - 1:
            if c.get("out_chop"):
                self.oc = ~self.oc
            self.rounds += 1

    def key(self):
        return (tuple(np.round(w, 3).tobytes() for w in self.A + self.B), self.ic.tobytes(), self.oc.tobytes(),
                self.count, self.rounds, () if self.c.get("random") else tuple(self.slice), self.gamma_lr)

    def choose(self, n):
        """the next random choice (of n)"""
        i = len(self.made)
        v = self.script[i] if i < len(self.script) else 0
        self.made.append((v, n))
        return v

    def outcomes(self, f):
        """every reference that random choices during f may lead to"""
        todo, out = [[]], []
        while todo:
            sc = todo.pop()
            s = self.copy()
            s.script, s.made = sc, []
            f(s)
            out.append(s)
            for i in range(len(sc), len(s.made)):
                todo += [[v for v, _ in s.made[:i]] + [v] for v in range(1, s.made[i][1])]
        return out

    def visible(self):
        w = sum(self.g[k] * self.A[k] for k in range(1, self.n))
        return w + self.g[0] * self.A[0] * self.chop()


PAT = {"u1": [([1, 1, 1], [-1, -1, 1, 1])], "v1": [([0, -1, 1], [1, 0, 1, -1])], "z1": [([0, 0, 0], [0, 0, 0, 0])],
       "b2": [([1, 0, 1], [1, 1, -1, 0]), ([1, -1, 0], [-1, 1, 0, 1])],
       "b3": [([1, -1, 1], [-1, -1, 1, -1]), ([0, 1, -1], [1, 0, 0, -1]), ([-1, 1, 1], [-1, 1, -1, 1])]}


def batch(case, o):
    nx, nd = SHAPES[case["shape"]]
    return [([float(v) for v in x[:nx]], [float(v) for v in d[:nd]]) for x, d in PAT[o]]


def build(case):
    mcrng.reset(3)
    nx, nd = SHAPES[case["shape"]]
    u = case.get("u", 0.5)
    mcrng.reset(3 + case.get("random", 0) + int(10 * u))
    if case["cell"] == "Torch":
        X.rand = lambda *a: torch.full(a, u)
        cfg = config(case)
        cfg.tile_class = X.TorchTransferTile
        t = X.TorchTransferTile(nd, nx, cfg, bias=False)
        t.tile.grad_tile.tile.set_weights(torch.zeros(nd, nx))
        return t
    return AnalogTile(nd, nx, config(case), bias=False)


def read(t, case):
    """hidden weights, buffers, choppers (inputs, outputs)"""
    h = V.hidden(t)
    if case["cell"] == "Torch":
        c = t.tile.chopper.numpy() < 0
        return [h["fast_weight"], h["slow_weight"]], [h["hidden_weight"]], c, None
    n = case["nd"]
    ws = [h["hidden_weights_%d" % k] for k in range(n)]
    bs = [h["buffered_FP_weight_%d" % k] for k in range(n - 1)] if case["cell"] in ("Buffered", "Chopped") else []
    if case["cell"] == "Dynamic":
        bs = [h["buffered_FP_weight"]]
    ic = oc = None
    if case["cell"] in ("Chopped", "Dynamic"):
        e = t.tile.dump_extra()
        ic = np.array([e[k] for k in e if k.endswith(".in_chopper")][0], bool)
        oc = np.array([e[k] for k in e if k.endswith(".out_chopper")][0], bool)
    return ws, bs, ic, oc


OPS = list(PAT) + ["lr", "set", "hid", "copy"]
W0 = np.array([[0.31, -0.42, 0.17], [-0.23, 0.05, 0.44], [0.12, 0.36, -0.28], [-0.5, 0.21, 0.09]])


def step(case, t, s, o):
    """perform o on the tile and on the reference"""
    if o in PAT:
        rows = batch(case, o)
        V.update(t, [x for x, _ in rows], [d for _, d in rows])
        s.batch(rows)
    elif o == "lr":
        s.lr = 0.11 - s.lr
        t.tile.set_learning_rate(s.lr)
    elif o == "set":
        w = W0[:s.ndim, :s.nx] * 0.7
        t.tile.set_weights(torch.tensor(w, dtype=torch.float32))
        s.set_weights(w)
    elif o == "hid":
        vals = t.tile.get_hidden_parameters().clone()
        for m, i in V.names(t).items():
            if m.startswith("hidden_weight") or m.startswith("buffered_FP") or m in ("fast_weight", "slow_weight"):
                vals[i] = 0.6 * vals[i] + 0.013
        t.tile.set_hidden_parameters(vals)
        s.A = [0.6 * a + 0.013 for a in s.A]
        s.B = [0.6 * a + 0.013 for a in s.B]
    elif o == "copy":
        t = copy.deepcopy(t)
    return t


def near(a, b):
    return np.allclose(a, b, rtol=2e-5, atol=5e-5)


def compare(t, case, s):
    ws, bs, ic, oc = read(t, case)
    for k, (a, b) in enumerate(zip(ws, s.A)):
        if not near(a, b):
            return "weight %d" % k, a, b
    for k, (a, b) in enumerate(zip(bs, s.B)):
        if not near(a, b):
            return "buffer %d" % k, a, b
    if case["cell"] == "Torch":
        ex = s.judge_chopper(ic)
        if ex:
            return "chopper", ic, ex
        return "visible", V.visible(t), s.A[1]
    if ic is not None and not (np.array_equal(ic, s.ic) and np.array_equal(oc, s.oc)):
        return "chopper", (ic, oc), (s.ic, s.oc)
    return "visible", V.visible(t), s.visible()


def dynamic(case, rec):
    """the schedule, the choppers and what may move; not how much is transferred"""
    t = build(case)
    nx, nd = SHAPES[case["shape"]]
    s = Sim(case)
    tag = ":".join("%s=%s" % kv for kv in sorted(case.items()) if kv[0] not in ("n", "nd", "cell"))
    t.tile.set_weights(torch.tensor(W0[:nd, :nx], dtype=torch.float32))
    s.set_weights(W0[:nd, :nx])
    t.tile.set_learning_rate(s.lr)
    hist = []
    for o in D.de_bruijn([o for o in OPS if not o.startswith("b")], case["n"]):
        hist.append(o)
        ws, bs, s.ic, s.oc = read(t, case)
        s.A, s.B = [w.copy() for w in ws], [bs[0].copy()]
        slow, buf, k = s.A[1].copy(), s.B[0].copy(), s.slice[0]
        t = step(case, t, s, o)
        rec.step()
        ws, bs, ic, oc = read(t, case)
        rec.state(tag, *[np.round(w, 4).tobytes() for w in ws + bs])
        sel = (np.s_[:, k] if case["cols"] else np.s_[k, :]) if s.slice[0] != k or s.ins == 1 else None
        if o in PAT:
            if sel is None:
                want, wb = slow, buf
            else:  # any number of whole pulses up to the limit; the buffer of these cells is free
                want, wb = slow.copy(), buf.copy()
                p = (ws[1][sel] - slow[sel]) / DWC
                q = np.round(p)
                if not rec.check(np.abs(p - q).max() < 1e-2 and np.abs(q).max() <= 5, "Dynamic:%s:%s:pulses" % (tag, o),
                                 lambda: "history %s: slow weights moved by %s pulses" % (hist[-6:], p)):
                    return
                want[sel], wb[sel] = ws[1][sel], bs[0][sel]
        else:
            want, wb = s.A[1], s.B[0]
        vis = s.g[1] * ws[1] + s.g[0] * ws[0] * np.where(
            (ic[None, :] != oc[:, None]) if case["cols"] else (ic[:, None] != oc[None, :]), -1.0, 1.0)
        moved = np.flatnonzero(ic != s.ic)
        for what, a, b in (("fast", ws[0], s.A[0]), ("slow", ws[1], want), ("buffer", bs[0], wb),
                           ("visible", V.visible(t), vis),
                           ("chopper", np.array([m for m in moved if o not in PAT or sel is None or m != k]), np.array([]))):
            if not rec.check(a.shape == b.shape and near(a, b), "Dynamic:%s:%s:%s" % (tag, o, what),
                             lambda: "history %s: %s is %s expected %s" % (hist[-6:], what, a, b)):
                return
    rec.trace()


def run(case, rec):
    if case["cell"] == "Dynamic":
        return dynamic(case, rec)
    t = build(case)
    sims = [Sim(case)]
    if case["cell"] in ("Buffered", "Chopped") and case.get("gamma"):
        sims.append(Sim(case, gamma_lr=True))
    nx, nd = SHAPES[case["shape"]]
    tag = ":".join("%s=%s" % kv for kv in sorted(case.items()) if kv[0] not in ("n", "nd", "cell"))
    tag = "%s%d:%s" % (case["cell"], case["nd"], tag)
    t.tile.set_weights(torch.tensor(W0[:nd, :nx], dtype=torch.float32))
    for s in sims:
        s.set_weights(W0[:nd, :nx])
    t.tile.set_learning_rate(sims[0].lr)
    hist = []
    for o in D.de_bruijn(OPS, case["n"]):
        hist.append(o)
        t = step(case, t, sims[0].copy(), o)
        sims = [z for s in sims for z in s.outcomes(lambda z: step(case, Nothing(), z, o))]
        rec.step()
        if min(s.near for s in sims):
            rec.note("a value within rounding of a threshold: history ends after %d" % len(hist))
            break
        left, bad = [], None
        for s in sims:
            what, a, b = compare(t, case, s)
            if what == "visible" and near(a, b):
                left.append(s)
            else:
                bad = (what, a, b)
        ws, bs, _, _ = read(t, case)
        rec.state(tag, *[np.round(w, 4).tobytes() for w in ws + bs])
        if not rec.check(bool(left), "%s:%s:%s" % (tag, o, bad and bad[0].split()[0]),
                         lambda: "history %s: %s is %s expected %s" % (hist[-6:], bad[0], bad[1], bad[2])):
            return
        sims = list({s.key(): s for s in left}.values())
    rec.trace()


class Nothing:
    """stands for the tile where only the reference moves"""
    _mc_names = {}

    def __deepcopy__(self, memo):
        return self

    @property
    def tile(self):
        return self

    def update(self, *a):
        return None

    set_learning_rate = set_weights = set_hidden_parameters = update

    def get_hidden_parameters(self):
        return torch.zeros(1)
