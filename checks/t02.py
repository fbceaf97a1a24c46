"""T02: every accumulated gradient is applied exactly once, along every order of calls.

Model: a digital twin (PyTorch modules with the same weights) whose .grad fields are the pending
gradient; a step subtracts lr * grad.  Weights that live on a device have no gradient left after a
step; ordinary parameters keep theirs until zero_grad (the PyTorch rule)."""
import torch
from torch import nn
from torch.optim import SGD

import mclib as L
import mcrt
from aihwkit.nn import AnalogLinear, AnalogConv2d, AnalogSequential
from aihwkit.optim import AnalogSGD
from aihwkit.optim.context import AnalogContext
from aihwkit.optim.analog_optimizer import AnalogOptimizer

RULE = ("case = program (one layer, one layer used twice, two layers, indexed convolution) x ideal "
        "tile x bias placement x optimizer class; below it every word over {backward of a batch, of a "
        "batch of another shape, two forwards then two backwards, overwrite the last input buffer, "
        "zero_grad, step, step by closure, change learning rate, learning rate 0, evaluation forward} "
        "containing a backward; a state is (case, weights after the prefix)")
BOUNDS = {"quick": "words of length 4 (one layer), 3 (others)", "thorough": "words of length 5 / 4"}
ASSUMPTIONS = ["CPU", "SGD without momentum", "float32, 1e-4 relative"]

OPS = ["F", "G", "H", "I", "Z", "S", "C", "L", "0", "E"]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for cfg in L.IDEAL:
        for bias in ("none", "digital", "analog"):
            if bias == "analog" and cfg in ("torch", "custom"):
                continue
            for kind in ("one", "twice", "two", "conv"):
                if kind == "conv" and cfg in ("torch", "custom"):
                    continue
                depth = 4 if kind == "one" else 3
                if deep:
                    depth += 1
                for opt in ("sgd", "wrap"):
                    if opt == "wrap" and (kind != "one" or not deep) and not (
                            kind == "two" and bias == "digital"):
                        continue
                    for first in OPS:
                        out.append(dict(kind=kind, cfg=cfg, bias=bias, opt=opt, depth=depth,
                                        first=first))
        if cfg not in ("torch", "custom"):
            # images of two shapes pending at the same time
            for word in ("FGS", "HS", "FSGS", "GZFS"):
                out.append(dict(kind="conv-shapes", cfg=cfg, bias="digital", opt="sgd",
                                depth=len(word), first=word[0], word=word))
    return out


def build(case):
    cfg = L.plain_mapping(L.IDEAL[case["cfg"]](), digital_bias=case["bias"] != "analog")
    b = case["bias"] != "none"
    if case["kind"].startswith("conv"):
        dig = [nn.Conv2d(1, 2, 2, bias=b)]
        ana = [AnalogConv2d(1, 2, 2, bias=b, rpu_config=cfg, use_indexed=True)]
    else:
        n = 2 if case["kind"] == "two" else 1
        dig = [nn.Linear(2, 2, bias=b) for _ in range(n)]
        ana = [AnalogLinear(2, 2, bias=b, rpu_config=cfg) for _ in range(n)]
    for i, (d, a) in enumerate(zip(dig, ana)):
        with torch.no_grad():
            d.weight.copy_(L.grid(*d.weight.shape, k=3 + i))
            if b:
                d.bias.copy_(L.grid(*d.bias.shape, k=5 + i))
        a.set_weights(d.weight.detach(), d.bias.detach() if b else None)
    seq = [0, 0] if case["kind"] == "twice" else list(range(len(dig)))
    return nn.ModuleList(dig), AnalogSequential(*ana), seq


def fwd(mods, seq, x):
    for i in seq:
        x = mods[i](x)
    return x


class Twin:
    def __init__(self, case):
        self.case = case
        self.dig, self.ana, self.seq = build(case)
        if case["opt"] == "sgd":
            self.opt = AnalogSGD(self.ana.parameters(), lr=0.5)
        else:
            self.opt = AnalogOptimizer(SGD, self.ana.parameters(), lr=0.5)
        self.opt.regroup_param_groups(self.ana)
        self.lr = 0.5
        self.n = 0
        self.x = None
        self.device_weights = case["cfg"] in ("fp", "single", "custom")

    def shape(self, other):
        if self.case["kind"] == "conv":
            return (1, 1, 3, 4) if not other else (2, 1, 3, 4)
        if self.case["kind"] == "conv-shapes":
            return (1, 1, 3, 4) if not other else (2, 1, 4, 3)
        return (2, 2) if not other else ((1, 3, 2) if self.n % 2 else (2,))

    def batch(self, other=False):
        self.n += 1
        x = L.grid(*self.shape(other), k=self.n + 2, lo=-1, hi=1)
        return x, x.clone()

    def loss(self, mods, x, k):
        y = fwd(mods, self.seq, x)
        return (y * L.grid(*y.shape, k=k + 7, lo=-1, hi=1)).sum()

    def group_lr(self, i, name):
        """Learning rate of the parameter group that holds the parameter of layer i."""
        in_digital = name == "bias" and self.case["bias"] == "digital"
        own = [p for n, p in self.ana[i].named_parameters()
               if n.endswith("bias") == in_digital
               and (in_digital or isinstance(p, AnalogContext) == self.device_weights)]
        assert len(own) == 1, [n for n, _ in self.ana[i].named_parameters()]
        for g in self.opt.param_groups:
            if any(p is own[0] for p in g["params"]):
                return g["lr"]
        raise AssertionError("parameter of layer %d is in no group" % i)

    def step_model(self):
        for i, m in enumerate(self.dig):
            for name, p in m.named_parameters():
                if p.grad is not None:
                    p.data -= self.group_lr(i, name) * p.grad
                    on_device = name == "weight" or self.case["bias"] == "analog"
                    if self.device_weights and on_device:
                        p.grad = None

    def apply(self, op):
        if op in ("F", "G"):
            xd, xa = self.batch(op == "G")
            self.ana.train()
            self.loss(self.dig, xd, self.n).backward()
            self.loss(self.ana, xa, self.n).backward()
            self.x = xa
        elif op == "H":
            (xd, xa), (yd, ya) = self.batch(), self.batch(True)
            self.ana.train()
            for mods, u, v in ((self.dig, xd, yd), (self.ana, xa, ya)):
                l1 = self.loss(mods, u, self.n)
                l2 = self.loss(mods, v, self.n + 1)
                l2.backward()
                l1.backward()
            self.x = xa
        elif op == "I":
            if self.x is None:
                return False
            self.x.fill_(3.0)
            self.x = None
        elif op == "Z":
            self.opt.zero_grad()
            self.dig.zero_grad()
        elif op == "S":
            self.opt.step()
            self.step_model()
        elif op == "C":
            xd, xa = self.batch()
            self.ana.train()

            def closure():
                self.opt.zero_grad()
                loss = self.loss(self.ana, xa, self.n)
                loss.backward()
                return loss
            self.opt.step(closure)
            self.dig.zero_grad()
            self.loss(self.dig, xd, self.n).backward()
            self.step_model()
        elif op == "L":
            for j, g in enumerate(self.opt.param_groups):
                g["lr"] = 0.25 if j % 2 == 0 else 0.125
            self.lr = 0.25
        elif op == "0":
            for g in self.opt.param_groups:
                g["lr"] = 0.0
            self.lr = 0.0
        elif op == "E":
            xd, xa = self.batch()
            self.ana.eval()
            with torch.no_grad():
                fwd(self.ana, self.seq, xa)
        return True

    def compare(self):
        for i, d in enumerate(self.dig):
            w, b = self.ana[i].get_weights()
            if not mcrt.close(w.reshape(d.weight.shape), d.weight.detach()):
                return "weight of layer %d: model %s, layer %s" % (i, d.weight.tolist(), w.tolist())
            if d.bias is not None and not mcrt.close(b, d.bias.detach()):
                return "bias of layer %d: model %s, layer %s" % (i, d.bias.tolist(), b.tolist())
        return None


def interesting(word):
    if not any(o in "FGHC" for o in word):
        return False
    if not any(o in "SC" for o in word):
        return False
    for a, b in zip(word, word[1:]):
        if a == b and a in "ZLE0I":
            return False
        if a in "L0" and b in "L0":
            return False
        if b == "I" and a not in "FGH":
            return False
    return word[0] != "I" and word[-1] in "SC"


def run(case, rec):
    key = "%s:%s:%s" % (case["kind"], case["cfg"], case["bias"])
    bad = set()
    rests = L.words(OPS, case["depth"] - 1)
    if "word" in case:
        rests = [tuple(case["word"][1:])]
        key += ":" + case["word"]
    for rest in rests:
        word = (case["first"],) + rest
        # a word is cut back to its last step: what follows has no effect on weights
        while word and word[-1] not in "SC":
            word = word[:-1]
        if not interesting(word) or (len(word) < case["depth"] and word in bad):
            continue
        if len(word) < case["depth"]:
            bad.add(word)  # (visited)
        t = Twin(case)
        for n, op in enumerate(word):
            try:
                if not t.apply(op):
                    break
            except Exception as e:  # noqa
                rec.fail("%s:exception-%s-in-%s" % (key, type(e).__name__, op),
                         "history %s: %s" % ("".join(word[: n + 1]), e))
                break
            rec.step()
            msg = t.compare()
            if msg:
                ops = [o for o in "IZH0C" if o in word[: n + 1]]
                rec.fail("%s:after-%s" % (key, ops[0] if ops else "FS"),
                         "history %s: %s" % ("".join(word[: n + 1]), msg))
                break
            rec.state(key, t.ana[0].get_weights()[0], t.lr)
        rec.trace()
    rec.note("%s: all words checked" % key)
