"""T05: analog recurrent networks compute the textbook recurrences."""
import itertools

import torch

import mclib as L
import mcrng
import mcrt
from aihwkit.nn import (AnalogRNN, AnalogLSTMCell, AnalogVanillaRNNCell, AnalogGRUCell, AnalogLinear,
                        AnalogLSTMCellCombinedWeight)
from aihwkit.optim import AnalogSGD

RULE = ("case = cell x layers x directions x bias placement x tile implementation x tile limit; below each case all words over "
        "{train on a sequence of length T and batch B, evaluate it in every chunking} are executed on one network in lock step with an independent "
        "implementation of the recurrence; with dropout the output must be that of one of all masks; a state is (case, word prefix, outputs, weights)")
BOUNDS = {"quick": "up to 2 layers, sequence lengths 1..4, batches 1..3, words of length 2, all chunkings",
          "thorough": "up to 3 layers, sequence lengths 1..5, words of length 3"}
ASSUMPTIONS = ["ideal hardware", "dropout (half or all) with up to 8 mask bits"]
CELLS = {"vanilla": AnalogVanillaRNNCell, "lstm": AnalogLSTMCell, "lstmc": AnalogLSTMCellCombinedWeight, "gru": AnalogGRUCell}
I, H = 3, 2


def cases(tier):
    deep = tier == "thorough"
    yield from dropouts()
    for cell in CELLS:
        for tile in list(L.IDEAL) + ["digital"]:
            if tile == "digital" and cell == "gru":
                continue  # always analog
            for layers in (1, 2, 3) if deep else (1, 2):
                for bidir in (False, True):
                    for bias in ("none", "digital", "analog"):
                        if bias == "analog" and tile in ("torch", "custom", "digital"):
                            continue
                        for lim in (0, 2):
                            if lim and bias == "analog":
                                continue
                            if lim and not deep and (tile not in ("fp", "torch")):
                                continue
                            yield dict(cell=cell, tile=tile, layers=layers, bidir=bidir, bias=bias, lim=lim, depth=3 if deep else 2)


def dropouts():
    for case in L.products(cell=list(CELLS), tile=["fp", "torch", "digital"], layers=[1, 2, 3], bidir=[False, True], dropout=[0.5, 1.0]):
        if case["tile"] != "digital" or case["cell"] != "gru":
            yield dict(case, bias="digital", lim=0)


OPS = (("train", 1, 2), ("train", 3, 1), ("train", 4, 2), ("eval", 4, 2), ("eval", 3, 3), ("state", 3, 2), ("state", 1, 1))


def build(case):
    mcrng.reset(3)
    if case["tile"] == "digital":
        c = None
    else:
        c = L.plain_mapping(L.IDEAL[case["tile"]](), digital_bias=case["bias"] != "analog")
        c.mapping.max_input_size = c.mapping.max_output_size = case["lim"]
    net = AnalogRNN(CELLS[case["cell"]], I, H, case["bias"] != "none", rpu_config=c, num_layers=case["layers"], bidir=case["bidir"],
                    dropout=case.get("dropout", 0.0))
    k = 0
    for cells in cells_of(net):
        for cell in cells:
            for lin in linears(cell):
                k += 1
                o, i = (lin.out_features, lin.in_features)
                w, b = L.grid(o, i, k=k, lo=-0.9, hi=0.9), L.grid(o, k=k + 40) if case["bias"] != "none" else None
                if c is None:
                    with torch.no_grad():
                        lin.weight.copy_(w)
                        if b is not None:
                            lin.bias.copy_(b)
                else:
                    lin.set_weights(w, b)
    return net


def cells_of(net):
    out = []
    for lay in net.rnn.layers:
        out.append([d.cell for d in lay.directions] if hasattr(lay, "directions") else [lay.cell])
    return out


def linears(cell):
    return [cell.weight] if hasattr(cell, "weight") else [cell.weight_ih, cell.weight_hh]


def read(net):
    """Weights of all cells as leaf tensors."""
    out = []
    for cells in cells_of(net):
        row = []
        for cell in cells:
            ws = []
            for lin in linears(cell):
                w, b = lin.get_weights() if hasattr(lin, "get_weights") else (lin.weight.detach(), None if lin.bias is None else lin.bias.detach())
                w = w.detach().clone().requires_grad_(True)
                ws.append((w, torch.zeros(w.shape[0]) if b is None else b.detach().clone().requires_grad_(True)))
            row.append(ws)
        out.append(row)
    return out


# ---------------------------------------------------------------- the textbook
def ref_cell(kind, ws, x, s):
    if kind == "lstmc":
        (w, b), = ws
        g = torch.cat([x, s[0]], 1) @ w.T + b
    elif kind == "gru":
        gi = x @ ws[0][0].T + ws[0][1]
        gh = s[0] @ ws[1][0].T + ws[1][1]
        r = torch.sigmoid(gi[:, :H] + gh[:, :H])
        z = torch.sigmoid(gi[:, H:2 * H] + gh[:, H:2 * H])
        n = torch.tanh(gi[:, 2 * H:] + r * gh[:, 2 * H:])
        h = (1 - z) * n + z * s[0]
        return h, (h,)
    else:
        g = x @ ws[0][0].T + ws[0][1] + s[0] @ ws[1][0].T + ws[1][1]
    if kind == "vanilla":
        h = torch.tanh(g)
        return h, (h,)
    i, f, c, o = (g[:, j * H:(j + 1) * H] for j in range(4))
    cy = torch.sigmoid(f) * s[1] + torch.sigmoid(i) * torch.tanh(c)
    h = torch.sigmoid(o) * torch.tanh(cy)
    return h, (h, cy)


def ref_net(kind, weights, x, states, masks=()):
    """states[layer][direction] = tuple of tensors; masks: factors for the outputs of all layers but the last."""
    final = []
    for n, (row, st) in enumerate(zip(weights, states)):
        outs, fin = [], []
        for d, (ws, s) in enumerate(zip(row, st)):
            steps = range(x.shape[0]) if d == 0 else range(x.shape[0] - 1, -1, -1)
            ys = [None] * x.shape[0]
            for t in steps:
                ys[t], s = ref_cell(kind, ws, x[t], s)
            outs.append(torch.stack(ys))
            fin.append(s)
        x = torch.cat(outs, -1)
        if n < len(masks):
            x = x * masks[n]
        final.append(fin)
    return x, final


def pack(case, states):
    """reference states -> what the network takes"""
    lstm = case["cell"].startswith("lstm")
    rows = [[(s[0], s[1]) if lstm else s[0] for s in row] for row in states]
    return rows if case["bidir"] else [r[0] for r in rows]


def flat(x):
    if isinstance(x, torch.Tensor):
        return [x]
    return [t for y in x for t in flat(y)]


def start(case, batch, seed):
    n = 2 if case["cell"].startswith("lstm") else 1
    return [[tuple(L.grid(batch, H, k=seed + 5 * l + 2 * d + j, lo=-0.8, hi=0.8) if seed else torch.zeros(batch, H) for j in range(n))
             for d in range(2 if case["bidir"] else 1)] for l in range(case["layers"])]


def compositions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        out, last = [], 0
        for i, c in enumerate(cuts):
            if c:
                out.append((last, i + 1))
                last = i + 1
        yield out + [(last, n)]


def dropout(case, rec):
    """Dropout hits the outputs of every layer but the last, in training only: the output is one of those of all possible masks."""
    layers, p, dirs = case["layers"], case["dropout"], 2 if case["bidir"] else 1
    key = "%s:%s:dropout%s" % (case["cell"], case["tile"], p)
    net = build(case)
    ws = read(net)
    dropped = 0
    for T, B in ((1, 1), (2, 1), (1, 2)):
        x, s0 = L.grid(T, B, I, k=5, lo=-1, hi=1), start(case, B, 9)
        full, _ = ref_net(case["cell"], ws, x, s0)
        bits = (layers - 1) * T * B * H * dirs
        if bits > 8:
            continue
        outs = []
        for mask in itertools.product((0.0, 1.0), repeat=bits) if p < 1.0 else [(0.0,) * bits]:
            m = torch.tensor(mask).reshape(layers - 1, T, B, H * dirs) / ((1.0 - p) or 1.0)
            y, f = ref_net(case["cell"], ws, x, s0, m)
            outs.append((y.detach(), [t.detach() for t in flat(f)]))
        for seed in range(8):
            torch.manual_seed(seed)
            net.train()
            y, f = net(x, pack(case, s0))
            rec.step()
            ok = any(mcrt.close(y.detach(), a, 1e-4, 1e-5) and all(mcrt.close(u.detach(), v, 1e-4, 1e-5) for u, v in zip(flat(f), b)) for a, b in outs)
            if not rec.check(ok, key + ":train", lambda: "T=%d B=%d: %s is none of the %d possible outputs" % (T, B, y.tolist(), len(outs))):
                return
            dropped += not mcrt.close(y.detach(), full, 1e-4, 1e-5)
            net.eval()
            y, _ = net(x, pack(case, s0))
            if not rec.check(mcrt.close(y.detach(), full, 1e-4, 1e-5), key + ":eval", lambda: "%s instead of %s" % (y, full)):
                return
            rec.state(key, T, B, seed, y)
            rec.trace()
    rec.check(layers == 1 or dropped > 0, key + ":nothing", "nothing was ever dropped")


def run(case, rec):
    if "dropout" in case:
        dropout(case, rec)
        return
    for word in itertools.product(OPS, repeat=case["depth"]):
        if not walk(case, word, rec):
            return


def walk(case, word, rec):
    key = "%s:%s:%s%s" % (case["cell"], case["tile"], "bi" if case["bidir"] else "uni", ":split" if case["lim"] else "")
    net = build(case)
    opt = AnalogSGD(net.parameters(), lr=0.2)
    opt.regroup_param_groups()
    for n, (op, T, B) in enumerate(word):
        where = lambda: "%s T=%d B=%d of %s" % (op, T, B, word[:n + 1])
        ws = read(net)
        x = L.grid(T, B, I, k=n + 3, lo=-1, hi=1)
        net.train(op != "eval")
        s0 = start(case, B, 0 if op == "train" else 7 + n)
        xr = x.clone().requires_grad_(True)
        sr = [[tuple(t.clone().requires_grad_(True) for t in s) for s in row] for row in s0]
        yr, fr = ref_net(case["cell"], ws, xr, sr)
        xa = x.clone().requires_grad_(True)
        sa = [[tuple(t.clone().requires_grad_(True) for t in s) for s in row] for row in s0]
        opt.zero_grad()
        ya, fa = net(xa) if op == "train" else net(xa, pack(case, sa))
        rec.step()
        if not rec.check(ya.shape == yr.shape and mcrt.close(ya.detach(), yr.detach(), 1e-4, 1e-5), key + ":output",
                         lambda: "%s: %s instead of %s" % (where(), ya.tolist(), yr.tolist())):
            return False
        fl, rl = flat(fa), flat(fr)
        rec.check(len(fl) == len(rl) and all(a.shape == b.shape and mcrt.close(a.detach(), b.detach(), 1e-4, 1e-5) for a, b in zip(fl, rl)),
                  key + ":state", lambda: "%s: final state %s instead of %s" % (where(), fl, rl))
        rec.check(torch.equal(xa.detach(), x) and all(torch.equal(a.detach(), b) for a, b in zip(flat(sa), flat(s0))), key + ":input", where)
        if op != "eval":
            g = L.grid(*yr.shape, k=n + 13, lo=-1, hi=1)
            (yr * g).sum().backward()
            (ya * g).sum().backward()
            rec.check(mcrt.close(xa.grad, xr.grad, 1e-4, 1e-5), key + ":gradient", lambda: "%s: input gradient %s instead of %s" % (
                where(), xa.grad, xr.grad))
            if op == "state":
                rec.check(all((a.grad is None) == (b.grad is None) and (a.grad is None or mcrt.close(a.grad, b.grad, 1e-4, 1e-5))
                              for a, b in zip(flat(sa), flat(sr))), key + ":stategradient", where)
            opt.step()
            new = read(net)
            for a, b in zip(flat(ws), flat(new)):
                if a.requires_grad and a.grad is not None:
                    rec.check(mcrt.close(b.detach(), a.detach() - 0.2 * a.grad, 1e-4, 1e-5), key + ":update", lambda: "%s: weights %s instead of %s"
                              % (where(), b.tolist(), (a - 0.2 * a.grad).tolist()))
        elif not case["bidir"]:
            with torch.no_grad():
                for chunks in compositions(T):
                    s, ys = pack(case, s0), []
                    for a, b in chunks:
                        y, s = net(x[a:b], s)
                        ys.append(y)
                    rec.step()
                    rec.check(mcrt.close(torch.cat(ys), yr.detach(), 1e-4, 1e-5) and all(
                        mcrt.close(a, b.detach(), 1e-4, 1e-5) for a, b in zip(flat(s), rl)), key + ":chunks",
                        lambda: "%s: chunks %s give %s instead of %s" % (where(), chunks, torch.cat(ys).tolist(), yr.tolist()))
        rec.state(key, word[:n + 1], ya, *flat(fa))
        if rec.fails:
            return False
    rec.trace()
    return True
