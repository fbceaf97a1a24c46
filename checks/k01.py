"""K01: a checkpoint taken at any moment of a run resumes the same run."""
import copy
import io
import itertools
import pickle

import torch

import mcconf as Z
import mclib as L
import mcrng
import mcrt
import t04 as T
from aihwkit.optim import AnalogSGD

RULE = ("case = configuration x layer layout x history; below it, for every save point and save method, the restored "
        "model and the original are compared and continued in lock step with the same draws; a state is the "
        "observable state after one step, a transition one step of the original or of a restored model")
BOUNDS = {"quick": "47 configurations x 4 layouts x histories of length 3-4 x all save points x 6 save methods x the "
                   "rest of the history and 2 further steps",
          "thorough": "as quick with all histories of length 4-5"}
ASSUMPTIONS = ["all random draws of a step are fixed by the harness (the random generators' own state is not part of "
               "a checkpoint)"]


def roundtrip(obj, **kw):
    s = io.BytesIO()
    torch.save(obj, s)
    s.seek(0)
    return torch.load(s, weights_only=False, **kw)


def fresh(name, layout, seed=5):
    """A newly built model: other weights, and (state dicts) other device instances."""
    mcrng.reset(seed)
    return T.build(name, layout, True)


def by_state(m, name, layout, sd, **kw):
    f = fresh(name, layout)
    f.load_state_dict(sd, **kw)
    f.train(m.training)
    return f


def used(m, name, layout, sd):
    """Load into a model that already has a history of its own."""
    f = fresh(name, layout)
    o = AnalogSGD(f.parameters(), lr=0.2)
    for i in range(2):
        mcrng.reset(700 + i)
        step(f, o, "train", 7 + i)
    f.load_state_dict(sd)
    f.train(m.training)
    return f


METHODS = {
    "state_dict": lambda m, n, l: by_state(m, n, l, roundtrip(m.state_dict())),
    "state_dict_copy": lambda m, n, l: by_state(m, n, l, copy.deepcopy(m.state_dict())),
    "into_used": lambda m, n, l: used(m, n, l, roundtrip(m.state_dict())),
    "load_config": lambda m, n, l: by_state(m, n, l, roundtrip(m.state_dict()), load_rpu_config=True),
    "pickle": lambda m, n, l: roundtrip(m),
    "deepcopy": lambda m, n, l: copy.deepcopy(m),
}


def step(m, opt, op, i):
    mcrng.reset(100 + i)
    x = L.grid(2, 3, k=i + 1, lo=-1, hi=1)
    if op == "train":
        m.train()
        opt.zero_grad()
        x.requires_grad_()
        y = m(x)
        y.square().sum().backward()
        opt.step()
        return torch.cat([y.flatten(), x.grad.flatten()]).detach().clone()
    m.eval()
    if op == "program":
        m.program_analog_weights()
    elif op == "drift":
        m.drift_analog_weights(10.0 * (i + 1))
    return m(x).detach().clone()


def observe(m):
    return T.observe(m) + [torch.tensor(float(m.training))]


HIST = {
    "training": {"quick": (("train", "train", "train"),), "thorough": tuple(itertools.product(("train", "eval"), repeat=4))},
    "inference": {"quick": (("train", "program", "drift"), ("train", "train", "eval")),
                  "thorough": tuple(w for w in itertools.product(("train", "eval", "program", "drift"), repeat=4)
                                    if "program" in w and ("drift" not in w or w.index("drift") > w.index("program")))}}
TAIL = {"training": ("train", "eval", "train"), "inference": ("eval", "train", "train")}
DTAIL = ("drift", "eval", "train")


def cases(tier):
    for name in Z.zoo():
        for layout in T.LAYOUTS:
            if not T.supported(name, layout):
                continue
            for word in HIST[Z.kind_of(name)][tier]:
                yield {"cfg": name, "layout": layout, "word": list(word)}


def run(case, rec):
    name, layout, word = case["cfg"], case["layout"], case["word"]
    tail = DTAIL if "drift" in word else TAIL[Z.kind_of(name)]
    for at in range(len(word) + 1):
        for method, fn in METHODS.items():
            mcrng.reset(2)
            m = T.build(name, layout, True)
            opt = AnalogSGD(m.parameters(), lr=0.3)
            for i in range(at):
                step(m, opt, word[i], i)
                rec.step()
            before = observe(m)
            mcrng.reset(40)
            osd = roundtrip(opt.state_dict())
            c = fn(m, name, layout)
            copt = AnalogSGD(c.parameters(), lr=0.1)
            copt.load_state_dict(osd)
            key = "%s:%s" % (name, method)
            where = "%s of %s after %s" % (method, layout, word[:at])
            rec.state(name, layout, *before)
            ok = diff(rec, key + ":save", where + " disturbs the original", before, observe(m))
            ok = ok and diff(rec, key + ":load", where + " is not restored", before, observe(c))
            if not ok:
                continue
            for j, op in enumerate(list(word[at:]) + list(tail)):
                a = [step(m, opt, op, at + j)]
                b = [step(c, copt, op, at + j)]
                a += observe(m)
                b += observe(c)
                rec.step(2)
                rec.state(name, layout, *a)
                if not diff(rec, key + ":resume", "%s: step %d (%s) differs" % (where, j, op), a, b):
                    break
            rec.trace()
    rec.note("save points 0..%d of %s for %s %s, 6 methods" % (len(word), word, name, layout))


def diff(rec, key, text, a, b):
    if len(a) != len(b):
        rec.fail(key, "%s: number of tensors %d != %d" % (text, len(a), len(b)))
        return False
    for j, (x, y) in enumerate(zip(a, b)):
        if not mcrt.same(x, y):
            rec.fail(key, "%s: tensor %d: %s != %s" % (text, j, x.flatten()[:12].tolist(), y.flatten()[:12].tolist()))
            return False
    return True
