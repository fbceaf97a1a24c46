"""K02: hidden device parameters can be read, written back one by one or together, and act as named."""
import copy

import torch

import mcconf as Z
import mclib as L
import mcrng
import mcrt
import k01 as K
import t04 as T
from aihwkit.nn import AnalogLinear
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import UpdateParameters, PulseType
from aihwkit.simulator.configs.devices import ConstantStepDevice, SoftBoundsDevice, LinearStepDevice
from aihwkit.simulator.parameters.inference import DriftParameter

RULE = ("case = device configuration (all simple devices, all compounds, drift, write noise) x training history; below "
        "it: writing all parameters back; for every parameter name and every crosspoint writing a changed value, "
        "reading, and restoring; continuing original and restored tile in lock step; loading into another device "
        "instance; restoring after further updates. Effect table: every parameter name x crosspoint x every device "
        "operation (set to either bound, up pulses, down pulses, decay, diffusion, reset): the parameter acts on the "
        "operations of its name, at its crosspoint, and on nothing else. A state is (case, parameter state)")
BOUNDS = {"quick": "histories of 0-2 steps, 2 steps in lock step, all names and crosspoints of 2x3 tiles",
          "thorough": "histories of 0-4 steps, 4 steps in lock step"}
ASSUMPTIONS = ["lock step on devices without random draws in the core (device-to-device variation stays)",
               "drift_nu of a device without drift has no effect and reads zero (as documented in the code)"]

FULL = ("ConstantStep", "LinearStep", "SoftBounds", "SoftBoundsPmax", "SoftBoundsReference", "ExpStep", "PowStep",
        "PowStepReference", "PiecewiseStep", "ConstantStep-corrupt", "Vector-ALL", "Vector-SINGLE_FIXED", "Reference",
        "OneSided", "ConstantStep-drift")


def extra():
    return {"ConstantStep-drift": lambda: Z.single(Z.small(ConstantStepDevice(
                drift=DriftParameter(nu=0.1, nu_dtod=0.3, t_0=1.0)))),
            "Vector-writenoise": lambda: Z.unit(Z.VectorUnitCell(unit_cell_devices=[
                Z.small(SoftBoundsDevice(write_noise_std=0.3)), Z.small(LinearStepDevice())]))}


NOISY = ("SoftBounds-writenoise", "ExpStep-pp", "Vector-writenoise")


def configs():
    z = dict(Z.zoo())
    z.update(extra())
    return z


def names():
    skip = ("fp", "fp-dev", "ideal", "custom")
    return [n for n in configs() if n not in skip and Z.kind_of(n) == "training"]


def cases(tier):
    deep = tier == "thorough"
    for n in names():
        for h in range(5 if deep else 3):
            yield dict(kind="round", cfg=n, hist=h, cont=4 if deep else 2)
    for n in FULL:
        if n not in ("Reference", "OneSided", "SoftBoundsReference", "PowStepReference", "ConstantStep-corrupt"):
            yield dict(kind="mean", cfg=n)
    for n in L.SIMPLE_DEVICES:
        yield dict(kind="scale", cfg=n)


def build(name, seed=11, quiet=True):
    mcrng.reset(3)
    cfg = Z.seeded(configs()[name](), seed)
    if quiet:
        Z.quieten(cfg)
    L.plain_mapping(cfg)
    return AnalogLinear(3, 2, False, rpu_config=cfg)


def tile(m):
    return next(iter(m.analog_tiles()))


def weights(m):
    w = m.get_weights()[0]
    return w.clone()


def changed(name, v, r, c):
    """A valid other value at one crosspoint."""
    v = v.clone()
    if name.startswith(("max_bound",)):
        v[r, c] += abs(float(v[r, c])) * 0.25 + 0.05
    elif name.startswith("min_bound"):
        v[r, c] -= abs(float(v[r, c])) * 0.25 + 0.05
    elif name.startswith("decay"):
        v[r, c] = 0.5 if abs(float(v[r, c]) - 0.5) > 0.1 else 0.8
    elif name.startswith("drift_nu"):
        v[r, c] = v[r, c] + 0.05
    elif name.startswith(("reset_bias", "reference")):
        v[r, c] = v[r, c] + 0.03
    elif "weight" in name:
        v[r, c] = v[r, c] * 0.5 + 0.01
    else:
        v[r, c] = v[r, c] * 1.3 + 0.001
    return v


def same_hp(a, b):
    return list(a) == list(b) and all(torch.equal(a[k], b[k]) for k in a)


def diff(a, b):
    return [k for k in a if not torch.equal(a[k], b[k])]


def lock(rec, key, ref, m, n, text, quiet=True):
    """Both tiles under the same draws: equal weights and hidden parameters after every step."""
    if not quiet:
        return True
    oa, ob = AnalogSGD(ref.parameters(), lr=0.3), AnalogSGD(m.parameters(), lr=0.3)
    for i in range(n):
        for mm, oo in ((ref, oa), (m, ob)):
            mcrng.reset(500 + i)
            K.step(mm, oo, "train", 20 + i)
            if i == 1:
                tile(mm).drift_weights(2.0) if hasattr(tile(mm), "drift_weights") and "drift" in key else None
        rec.step(2)
        wa, wb = weights(ref), weights(m)
        if not rec.check(mcrt.close(wa, wb, 1e-5, 1e-6), key,
                         lambda: "%s: step %d weights %s, expected %s" % (text, i, wb.tolist(), wa.tolist())):
            return False
        ha, hb = tile(ref).get_hidden_parameters(), tile(m).get_hidden_parameters()
        bad = [k for k in ha if not mcrt.close(ha[k], hb[k], 1e-5, 1e-6)]
        if not rec.check(not bad, key + ":hidden", lambda: "%s: step %d: %s differ" % (text, i, bad)):
            return False
    return True


def run_round(case, rec):
    name = case["cfg"]
    quiet = name not in NOISY
    m = build(name, quiet=quiet)
    opt = AnalogSGD(m.parameters(), lr=0.3)
    for i in range(case["hist"]):
        mcrng.reset(100 + i)
        K.step(m, opt, "train", i)
    opt.zero_grad()
    t = tile(m)
    hp, w = t.get_hidden_parameters(), weights(m)
    ns = t.tile.get_hidden_parameter_names()
    raw = t.tile.get_hidden_parameters()
    rec.check(list(hp) == list(ns) and len(ns) == len(set(ns)) and raw.shape[0] == len(ns), "names:" + name,
              lambda: "%s / %s / %s" % (list(hp), ns, tuple(raw.shape)))
    rec.check(all(tuple(v.shape) == (2, 3) and bool(torch.isfinite(v).all()) for v in hp.values()), "values:" + name,
              lambda: str({k: v.tolist() for k, v in hp.items() if not torch.isfinite(v).all()}))
    rec.check(same_hp(hp, t.get_hidden_parameters()), "reread:" + name, "reading twice differs")
    # what is returned is a copy
    for v in t.get_hidden_parameters().values():
        v.fill_(7.0)
    rec.check(same_hp(hp, t.get_hidden_parameters()) and torch.equal(w, weights(m)), "alias:" + name,
              "writing into the returned tensors changes the device")
    # all back
    given = copy.deepcopy(hp)
    c = copy.deepcopy(m)
    tile(c).set_hidden_parameters(given)
    got = tile(c).get_hidden_parameters()
    rec.check(same_hp(hp, given), "input-changed:" + name, "the dictionary given to set_hidden_parameters was changed")
    rec.check(same_hp(hp, got), "identity:" + name, lambda: "written back, read again: %s differ" % diff(hp, got))
    rec.check(torch.equal(w, weights(c)), "identity-weights:" + name,
              lambda: "writing back what was read changes the weights %s -> %s" % (w.tolist(), weights(c).tolist()))
    rec.state(name, case["hist"], "identity")
    lock(rec, "identity-cont:" + name, copy.deepcopy(m), c, case["cont"], "after writing back", quiet)
    if rec.fails:
        return
    # one by one
    for k in ns:
        base = k.rsplit("_", 1)[0] if k[-1].isdigit() else k
        for r in range(2):
            for q in range(3):
                c = copy.deepcopy(m)
                mod = type(hp)((n, v.clone()) for n, v in hp.items())
                mod[k] = changed(k, hp[k], r, q)
                tile(c).set_hidden_parameters(mod)
                got = tile(c).get_hidden_parameters()
                rec.step(1)
                rec.state(name, case["hist"], k, r, q)
                dead = base == "drift_nu" and "drift" not in name
                exp = dict(mod)
                if dead:
                    exp[k] = hp[k]
                others = [n for n in diff(exp, got) if not mcrt.close(exp[n], got[n], 1e-6, 1e-7)]
                if not rec.check(not others, "single:%s:%s" % (name, k), lambda: "writing %s[%d,%d]: read again %s" % (
                        k, r, q, {n: (exp[n].tolist(), got[n].tolist()) for n in others})):
                    return
                if "weight" not in k and not (base == "reference"):
                    rec.check(torch.equal(w, weights(c)), "single-weights:%s:%s" % (name, k),
                              lambda: "writing %s[%d,%d] changes the weights %s -> %s" % (
                                  k, r, q, w.tolist(), weights(c).tolist()))
                # and back
                tile(c).set_hidden_parameters(copy.deepcopy(hp))
                got = tile(c).get_hidden_parameters()
                if not rec.check(same_hp(hp, got), "restore:%s:%s" % (name, k), lambda: "%s differ" % diff(hp, got)):
                    return
                if quiet:
                    if not rec.check(mcrt.close(w, weights(c), 1e-6, 1e-7), "restore-weights:%s:%s" % (name, k),
                                     lambda: "%s, expected %s" % (weights(c).tolist(), w.tolist())):
                        return
                if (r, q) in ((0, 0), (1, 2)):
                    if not lock(rec, "restore-cont:%s:%s" % (name, k), copy.deepcopy(m), c, case["cont"],
                                "after %s[%d,%d] was changed and restored" % (k, r, q), quiet):
                        return
    # another instance of the device
    if (case["hist"] == 0 or name in FULL) and quiet:
        c = build(name, seed=77)
        tile(c).set_hidden_parameters(copy.deepcopy(hp))  # bounds first, then the weights
        c.set_weights(w)
        tile(c).set_hidden_parameters(copy.deepcopy(hp))
        got = tile(c).get_hidden_parameters()
        rec.check(same_hp(hp, got), "transplant:" + name, lambda: "%s differ" % diff(hp, got))
        rec.check(mcrt.close(w, weights(c), 1e-6, 1e-7), "transplant-weights:" + name,
                  lambda: "%s, expected %s" % (weights(c).tolist(), w.tolist()))
        if "corrupt" not in name:
            lock(rec, "transplant-cont:" + name, copy.deepcopy(m), c, case["cont"], "in another instance", quiet)
        rec.state(name, case["hist"], "transplant")
    # after further updates
    if name in FULL:
        for more in (1, 2):
            c = copy.deepcopy(m)
            o = AnalogSGD(c.parameters(), lr=0.3)
            for i in range(more):
                mcrng.reset(900 + i)
                K.step(c, o, "train", 30 + i)
            o.zero_grad()
            c.set_weights(w)
            tile(c).set_hidden_parameters(copy.deepcopy(hp))
            rec.check(same_hp(hp, tile(c).get_hidden_parameters()), "later:" + name, "read again differs")
            lock(rec, "later-cont:" + name, copy.deepcopy(m), c, case["cont"],
                 "restored after %d further steps" % more, quiet)
            rec.state(name, case["hist"], "later", more)
    rec.trace()


# ------------------------------------------------------------------ the effect table
def op_setbig(m):
    m.set_weights(torch.full((2, 3), 5.0))


def op_setneg(m):
    m.set_weights(torch.full((2, 3), -5.0))


def pulses(sign, n):
    def f(m):
        for _ in range(n):
            tile(m).update(torch.ones(1, 3), -sign * torch.ones(1, 2))
    return f


def op_decay(m):
    tile(m).decay_weights(1.0)


def op_diffuse(m):
    mcrng.reset(7)
    tile(m).diffuse_weights()


def op_reset(m):
    tile(m).reset_columns(0, 3)


def op_drift(m):
    tile(m).drift_weights(3.0)
    tile(m).drift_weights(5.0)


OPS = {"setbig": op_setbig, "setneg": op_setneg, "up": pulses(1, 3), "down": pulses(-1, 3), "decay": op_decay,
       "diffuse": op_diffuse, "reset": op_reset, "drift": op_drift}
TABLE = {"max_bound": ({"setbig"}, {"up", "down"}), "min_bound": ({"setneg"}, {"up", "down"}),
         "dwmin_up": ({"up"}, set()), "dwmin_down": ({"down"}, set()),
         "slope_up": ({"up"}, set()), "slope_down": ({"down"}, set()),
         "gamma_up": ({"up"}, set()), "gamma_down": ({"down"}, set()),
         "decay_scales": ({"decay"}, set()), "diffusion_rates": ({"diffuse"}, set()),
         "reset_bias": ({"reset"}, {"decay"}), "drift_nu": ({"drift"}, set())}


def mean_tile(name):
    mcrng.reset(3)
    cfg = Z.quieten(Z.seeded(configs()[name]()))
    L.plain_mapping(cfg)
    cfg.update = UpdateParameters(desired_bl=1, update_management=False, update_bl_management=False,
                                  pulse_type=PulseType.DETERMINISTIC_IMPLICIT)
    m = AnalogLinear(3, 2, False, rpu_config=cfg)
    tile(m).set_learning_rate(0.02)
    m.set_weights(L.grid(2, 3, k=3, lo=0.05, hi=0.12))
    hp = tile(m).get_hidden_parameters()
    for k in hp:
        if k.startswith("decay"):
            hp[k] = torch.full((2, 3), 0.9)
        elif k.startswith("diffusion"):
            hp[k] = torch.full((2, 3), 0.01)
        elif k.startswith("reset_bias"):
            hp[k] = L.grid(2, 3, k=5, lo=-0.02, hi=0.02)
    tile(m).set_hidden_parameters(hp)
    return m


def run_mean(case, rec):
    name = case["cfg"]
    vec = name.startswith("Vector")
    base = {}
    for op, f in OPS.items():
        if op == "drift" and "drift" not in name or op == "reset" and vec:
            continue
        m = mean_tile(name)
        f(m)
        base[op] = weights(m)
    start = mean_tile(name)
    hp = tile(start).get_hidden_parameters()
    w0 = weights(start)
    for op in base:
        rec.check(not mcrt.close(base[op], w0, 1e-5, 1e-6), "noop:%s:%s" % (name, op), "operation without any effect")
    for k in hp:
        stem = k.rsplit("_", 1)[0] if k[-1].isdigit() else k
        dev = int(k[-1]) if k[-1].isdigit() else 0
        if stem not in TABLE:
            continue
        must, may = TABLE[stem]
        for r in range(2):
            for q in range(3):
                for op in base:
                    m = mean_tile(name)
                    mod = tile(m).get_hidden_parameters()
                    v = mod[k].clone()
                    if stem in ("max_bound", "min_bound"):
                        v[r, q] *= 0.8
                    else:
                        v = changed(k, v, r, q)
                    mod[k] = v
                    tile(m).set_hidden_parameters(mod)
                    OPS[op](m)
                    got = weights(m)
                    rec.step(1)
                    d = (got - base[op]).abs()
                    other = d.clone()
                    other[r, q] = 0
                    here = float(d[r, q])
                    rec.state(name, k, r, q, op)
                    rec.check(float(other.max()) < 1e-6, "crosspoint:%s:%s:%s" % (name, k, op),
                              lambda: "%s[%d,%d] acts on other crosspoints in %s: %s" % (k, r, q, op, d.tolist()))
                    if op in must and not (vec and (name.endswith("FIXED") and dev)):
                        rec.check(here > 1e-6, "effect:%s:%s:%s" % (name, k, op),
                                  lambda: "%s[%d,%d] has no effect on %s" % (k, r, q, op))
                    elif op not in must and op not in may:
                        rec.check(here < 1e-6, "foreign:%s:%s:%s" % (name, k, op),
                                  lambda: "%s[%d,%d] changes what %s does by %g" % (k, r, q, op, here))
    rec.trace()


def run_scale(case, rec):
    """Values: bounds bound, one pulse moves by dwmin, decay multiplies, reset goes to the bias."""
    name = case["cfg"]
    m = mean_tile(name)
    t = tile(m)
    ref = "Reference" in name
    hp = t.get_hidden_parameters()
    hp["max_bound"] = L.grid(2, 3, k=7, lo=0.2, hi=0.5)
    hp["min_bound"] = -L.grid(2, 3, k=9, lo=0.2, hi=0.5)
    hp["dwmin_up"] = L.grid(2, 3, k=11, lo=0.01, hi=0.03)
    hp["dwmin_down"] = L.grid(2, 3, k=13, lo=0.01, hi=0.03)
    hp["decay_scales"] = L.grid(2, 3, k=15, lo=0.3, hi=0.95)
    t.set_hidden_parameters(hp)
    off = hp["reference"] if ref else torch.zeros(2, 3)
    rec.state(name, "scale")
    if not ref:
        m.set_weights(torch.full((2, 3), 3.0))
        rec.check(mcrt.close(weights(m), hp["max_bound"], 1e-6, 1e-7), "value:%s:max_bound" % name,
                  lambda: "%s for %s" % (weights(m).tolist(), hp["max_bound"].tolist()))
        m.set_weights(torch.full((2, 3), -3.0))
        rec.check(mcrt.close(weights(m), hp["min_bound"], 1e-6, 1e-7), "value:%s:min_bound" % name,
                  lambda: "%s for %s" % (weights(m).tolist(), hp["min_bound"].tolist()))
        w = L.grid(2, 3, k=4, lo=0.05, hi=0.15)
        m.set_weights(w)
        op_decay(m)
        exp = (w - hp["reset_bias"]) * hp["decay_scales"] + hp["reset_bias"]
        rec.check(mcrt.close(weights(m), exp, 1e-5, 1e-6), "value:%s:decay_scales" % name,
                  lambda: "%s, expected %s" % (weights(m).tolist(), exp.tolist()))
        op_reset(m)
        rec.check(mcrt.close(weights(m), hp["reset_bias"], 1e-5, 1e-6), "value:%s:reset_bias" % name,
                  lambda: "%s, expected %s" % (weights(m).tolist(), hp["reset_bias"].tolist()))
    if name in ("ConstantStep", "LinearStep", "SoftBounds"):
        m.set_weights(torch.zeros(2, 3))
        pulses(1, 1)(m)
        rec.check(mcrt.close(weights(m), hp["dwmin_up"], 1e-5, 1e-6), "value:%s:dwmin_up" % name,
                  lambda: "%s, expected %s" % (weights(m).tolist(), hp["dwmin_up"].tolist()))
        m.set_weights(torch.zeros(2, 3))
        pulses(-1, 1)(m)
        rec.check(mcrt.close(weights(m), -hp["dwmin_down"], 1e-5, 1e-6), "value:%s:dwmin_down" % name,
                  lambda: "%s, expected %s" % (weights(m).tolist(), (-hp["dwmin_down"]).tolist()))
    rec.step(6)
    rec.trace()


def run(case, rec):
    {"round": run_round, "mean": run_mean, "scale": run_scale}[case["kind"]](case, rec)
