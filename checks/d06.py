"""D06: mixed-precision updates conserve the gradient."""
import copy
import itertools

import numpy as np
import torch

import mcdev as V
import mclib as L
import mcrng
import mcrt
from d02 import de_bruijn
from aihwkit.simulator.configs import (ConstantStepDevice, DigitalRankUpdateRPUConfig,
                                       MixedPrecisionCompound, SoftBoundsDevice, UpdateParameters, PulseType)
from aihwkit.simulator.tiles.analog import AnalogTile

RULE = ("A model holds the digital buffer and the weights: every vector update adds learning rate x (binned error) x "
        "(binned input) to the buffer, every transfer moves the whole multiples of the granularity of the rows it covers "
        "from the buffer to the device and leaves the remainder. After every operation of every word the real buffer and "
        "(for a device with exact steps) the real weights equal the model's; with a pulsed device the number of pulses of "
        "every cell is bounded by what was taken from its buffer, exact where it is certain.")
BOUNDS = {"quick": {"shapes": "3x2, 2x3, 1x3, 2x1", "bins": "0..5 for inputs and errors", "word length": 2},
          "thorough": {"shapes": "all up to 3x3", "bins": "0..8", "word length": 3}}
ASSUMPTIONS = [
    "input and error alphabets are dyadic numbers, so single precision arithmetic is exact; ties of the stochastic "
    "rounding are avoided by the choice of the draws",
    "the transfer of a row set happens with the update after the one that completes the schedule (the update counter is "
    "advanced after the transfer); setting the weights clears the buffer and the schedule",
    "random start rows are branched over",
]
F = np.float32
XS = {"a": [1.0, -0.5, 0.25], "b": [-0.75, 0.0, 1.0], "c": [0.0, 0.0, 0.0], "e": [0.125, 0.5, 0.5],
      "f": [0.0, -2.0, 0.0]}
DS = {"a": [0.5, -1.0, 0.25], "b": [0.0, 0.75, -0.25], "c": [1.0, 1.0, 0.0], "e": [-0.125, 0.0, 0.5],
      "f": [0.0, 0.0, 0.0]}
OPS = ["aa", "bc", "ea", "fb", "cb", "af", "batch", "trans", "lr", "set", "bias"]


def cases(tier):
    q = tier == "quick"
    shapes = [(3, 2), (2, 3), (1, 3), (2, 1)] if q else list(itertools.product((1, 2, 3), (1, 2, 3)))
    bins = [(0, 0), (2, 0), (0, 2), (2, 2), (4, 0), (0, 5), (3, 4), (1, 0), (0, 1), (1, 1), (1, 4)] if q else \
        list(itertools.product((0, 1, 2, 3, 4, 5, 8), repeat=2))
    n = 2 if q else 3
    for nx, nd in shapes:
        for bx, bd in bins:
            for every, rows, rand in ([(1, -1, 0), (2, 1, 0), (1, 2, 1)] if q else
                                      [(1, -1, 0), (2, 1, 0), (1, 2, 0), (1, 1, 1), (2, 2, 1), (3, -1, 0), (0, -1, 0),
                                       (1, 0, 0)]):
                yield {"kind": "exact", "nx": nx, "nd": nd, "bx": bx, "bd": bd, "every": every, "rows": rows,
                       "random": rand, "sto": None, "tlr": 1.0, "n": n}
        for bx, bd in ((2, 0), (0, 2), (4, 3), (2, 2)):
            for u in (0.02, 0.3, 0.7, 0.98):
                for sx, sd in ((1, 0), (0, 1), (1, 1)):
                    yield {"kind": "exact", "nx": nx, "nd": nd, "bx": bx, "bd": bd, "every": 1, "rows": -1, "random": 0,
                           "sto": [u, sx, sd], "tlr": 1.0, "n": 2}
        for tlr in (0.5, 2.0, 0.0):
            yield {"kind": "exact", "nx": nx, "nd": nd, "bx": 0, "bd": 0, "every": 1, "rows": -1, "random": 0, "sto": None,
                   "tlr": tlr, "n": n}
    for nx, nd in shapes:
        for bx, bd in ((0, 0), (2, 0), (0, 2), (4, 4)):
            for every, rows, rand in ((1, -1, 0), (1, 1, 0), (2, 2, 1)):
                for dev in ("constant", "soft"):
                    yield {"kind": "pulsed", "nx": nx, "nd": nd, "bx": bx, "bd": bd, "every": every, "rows": rows,
                           "random": rand, "sto": None, "tlr": 1.0, "n": n, "device": dev}


GRAN = 0.25


class Model:
    """the documented rule on float32 numbers"""

    def __init__(self, case, w, gran):
        self.c, self.gran = case, F(gran)
        self.w = w.astype(F).copy()
        self.chi = np.zeros_like(self.w)
        self.idx = self.row = 0
        self.moved = None
        self.lr = F(1.0)

    def bin(self, v, n, sto, u):
        v = np.asarray(v, F)
        if n <= 0:
            return v
        half = n // 2
        amax = np.abs(v).max()
        if half == 0 or amax == 0:
            return np.zeros_like(v)
        width = F(amax) / F(half)
        s = F(u - 0.5) if sto else F(0)
        y = v / width + s
        r = np.rint(y)  # ties to even
        return (np.clip(r, -half, half) * width).astype(F)

    def update(self, x, d, m_batch, start=None):
        """one vector; start: the row a random transfer starts with. Returns whether a transfer happened"""
        c = self.c
        u, sx, sd = c["sto"] or (0.5, False, False)
        qx, qd = self.bin(x, c["bx"], sx, u), self.bin(d, c["bd"], sd, u)
        self.chi = (self.chi + self.lr * np.outer(qd, qx).astype(F)).astype(F)
        every = c["every"] * m_batch
        hit = every > 0 and self.idx > 0 and self.idx % every == 0 and c["rows"] != 0 and c["tlr"] != 0
        if hit:
            nd = len(self.chi)
            n = nd if c["rows"] < 0 else min(c["rows"], nd)
            first = start if start is not None and n < nd else self.row
            for k in range(n):
                r = (first + k) % nd
                dw = np.trunc(self.chi[r] / self.gran).astype(F)
                self.chi[r] = self.chi[r] - dw * self.gran
                self.moved[r] += dw
                self.w[r] = self.w[r] - dw * self.gran * F(c["tlr"])
            self.row = (first + n) % nd
        self.idx += 1

    def clear(self, w):
        self.w, self.chi = w.astype(F).copy(), np.zeros_like(self.chi)
        self.idx = self.row = 0


def tile(case):
    c = case
    if c["kind"] == "exact":
        dev = ConstantStepDevice(dw_min=GRAN / 2, w_max=64.0, w_min=-64.0, w_max_dtod=0, w_min_dtod=0)
    elif c["device"] == "constant":
        dev = ConstantStepDevice(dw_min=GRAN, dw_min_dtod=0, dw_min_std=0, up_down_dtod=0, w_max=64.0, w_min=-64.0,
                                 w_max_dtod=0, w_min_dtod=0)
    else:
        dev = SoftBoundsDevice(dw_min=GRAN, dw_min_dtod=0, dw_min_std=0, up_down_dtod=0, w_max=65536.0, w_min=-65536.0,
                               w_max_dtod=0, w_min_dtod=0)
    sto = c["sto"] or (0.5, False, False)
    mp = MixedPrecisionCompound(device=dev, transfer_every=c["every"], n_rows_per_transfer=c["rows"],
                                random_row=bool(c["random"]), granularity=GRAN if c["kind"] == "exact" else 0.0,
                                transfer_lr=c["tlr"], n_x_bins=c["bx"], n_d_bins=c["bd"], stoc_round_x=bool(sto[1]),
                                stoc_round_d=bool(sto[2]))
    cfg = DigitalRankUpdateRPUConfig(device=mp)
    cfg.update = UpdateParameters(pulse_type=PulseType.NONE_WITH_DEVICE if c["kind"] == "exact" else
                                  PulseType.STOCHASTIC_COMPRESSED, desired_bl=31)
    L.plain_mapping(cfg)
    cfg.mapping.digital_bias = False
    L.fix_seed(cfg.device, 11)
    mcrng.reset(3)
    if c["sto"]:
        mcrng.const(mcrng.uni(sto[0]))
    t = AnalogTile(c["nd"], c["nx"], cfg, bias=False)
    t.tile.set_learning_rate(1.0)
    w0 = torch.tensor([[0.5, -0.25, 0.125], [-1.0, 0.0, 0.25], [0.75, -0.5, 1.0]])[:c["nd"], :c["nx"]].contiguous()
    t.tile.set_weights(w0)
    return t, w0.numpy()


def chi(t):
    return V.hidden(t)["hidden_weights_chi"]


def vec(name, n):
    return (XS[name[0]] * 1)[:n]


def requests(op, c):
    """the vectors of one update request: (list of x, list of d, layout)"""
    nx, nd = c["nx"], c["nd"]
    x = {k: v[:nx] for k, v in XS.items()}
    d = {k: v[:nd] for k, v in DS.items()}
    if op == "batch":
        return [x["a"], x["e"], x["b"]], [d["b"], d["a"], d["e"]], "batch"
    if op == "trans":
        return [x["b"], x["a"]], [d["a"], d["c"]], "trans"
    if op == "bias":
        return [x["a"][:-1] + [1.0], x["e"][:-1] + [1.0]], [d["a"], d["e"]], "bias"
    return [x[op[0]]], [d[op[1]]], "vector"


def send(t, xs, ds, layout):
    X, D = torch.tensor(xs), torch.tensor(ds)
    if layout == "vector":
        X, D = X[0], D[0]
    if layout == "trans":
        t.tile.update(X.t().contiguous(), D.t().contiguous(), False, True, True, False)
    elif layout == "bias":
        t.tile.update(X[:, :-1].contiguous(), D, True, False, False, False)
    else:
        t.tile.update(X, D, False, False, False, False)


def run(case, rec):
    t, w0 = tile(case)
    c = case
    models = [Model(case, w0, GRAN)]
    models[0].moved = np.zeros_like(models[0].w)
    if c["kind"] == "pulsed":
        n = V.names(t)
        rec.check(mcrt.close(V.hidden(t)["dwmin_up"], np.full(w0.shape, GRAN), 1e-6), "granularity", "device step size")
    ops = [o for o in OPS if not (o == "bias" and c["nx"] < 2)]
    hist = []
    tag = c["kind"] + (":" + c["device"] if c["kind"] == "pulsed" else "")
    tag += f":{'x' if c['bx'] else ''}{'d' if c['bd'] else ''}bins"
    for op in de_bruijn(ops, c["n"]):
        hist.append(op)
        before_w = V.visible(t)
        for m in models:
            m.moved = np.zeros_like(m.w)
        if op == "lr":
            new = F(0.5) if models[0].lr == F(1.0) else F(1.0)
            t.tile.set_learning_rate(float(new))
            for m in models:
                m.lr = new
        elif op == "set":
            t.tile.set_weights(torch.tensor(w0))
            for m in models:
                m.clear(w0)
        else:
            xs, ds, layout = requests(op, c)
            send(t, xs, ds, layout)
            for x, d in zip(xs, ds):
                nxt = []
                for m in models:
                    starts = range(c["nd"]) if c["random"] else [None]
                    seen = set()
                    for s in starts:
                        k = copy.deepcopy(m)
                        k.update(x, d, len(xs), s)
                        sig = (k.chi.tobytes(), k.w.tobytes(), k.row, k.moved.tobytes())
                        if sig not in seen:
                            seen.add(sig)
                            nxt.append(k)
                models = nxt
        rec.step()
        real, w = chi(t), V.visible(t)
        ok = [m for m in models if mcrt.close(m.chi, real, 1e-5, 1e-6)]
        if not rec.check(bool(ok), f"buffer:{tag}:{op}",
                         lambda: f"{c} after {hist[-6:]}: buffer {real.tolist()}, should be {models[0].chi.tolist()}"):
            return
        models = ok
        if c["kind"] == "exact":
            ok = [m for m in models if mcrt.close(m.w, w, 1e-5, 1e-5)]
            if not rec.check(bool(ok), f"weights:{tag}:{op}",
                             lambda: f"{c} after {hist[-6:]}: weights {w.tolist()}, should be {models[0].w.tolist()}"):
                return
            models = ok
        elif op != "set":
            if not pulses(rec, c, tag, op, hist, models, before_w, w):
                return
        # the models agree on buffer and weights now: keep one per row pointer
        uniq = {}
        for m in models:
            uniq.setdefault((m.row, m.idx, m.chi.tobytes()), m)
        models = list(uniq.values())
        rec.state((c["kind"], c["nx"], c["nd"], c["bx"], c["bd"], models[0].chi.tobytes(), models[0].row))
    # all the gradient is either still in the buffer or on the device: written part + buffer = everything sent
    rec.trace()


def pulses(rec, c, tag, op, hist, models, w0, w):
    """what a pulsed device shows of what was taken from the buffer of each cell"""
    n = (w0 - w) / GRAN
    soft = c["device"] == "soft"
    msg = ""
    for m in models:
        mv = m.moved
        good = True
        for i, j in np.ndindex(*mv.shape):
            k, want = n[i, j], mv[i, j]
            tol = 0.02 * max(1, abs(want)) if soft else 1e-3
            if want == 0:
                fine = abs(k) <= 1e-3
            else:
                fine = abs(k - round(k)) <= tol and -tol <= k * np.sign(want)
                if len(hist) and op not in ("batch", "trans", "bias"):
                    # one transfer: no more pulses than the largest of the row; the largest itself is certain
                    top = np.abs(mv[i]).max()
                    fine = fine and abs(k) <= top + tol and (abs(want) < top or top > 31 or abs(k - want) <= tol)
            if not fine:
                msg = f"cell {i},{j}: {want} steps taken from the buffer, {k} written"
                good = False
                break
        if good:
            return True
    return rec.check(False, f"pulses:{tag}:{op}", lambda: f"{c} after {hist[-6:]}: {msg}")
