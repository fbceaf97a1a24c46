"""D03: one pulse = one documented step at the present weight, for every device model and cell."""
import math

import torch

import mclib as L
import mcrt
import mcrng
from aihwkit.simulator.configs import SingleRPUConfig, UpdateParameters, PulseType
from aihwkit.simulator.configs import devices as D
from aihwkit.simulator.tiles.analog import AnalogTile

RULE = ("case = device model x parameter variant x pulse type; below it a breadth-first search over "
        "the weights of a 2x2 tile reachable by pulses (alphabet of 7 pulse patterns, from 4 start "
        "weights) plus monotone sweeps into both bounds; each transition is compared with the "
        "documented response evaluated at the device's own hidden parameters; a state is (case, "
        "weights)")
BOUNDS = {"quick": "search depth 3, sweeps of 30 pulses", "thorough": "search depth 5, sweeps of 200"}
ASSUMPTIONS = ["cycle-to-cycle noise draws all equal (one unknown normal value per case)",
               "reference responses in double precision, agreement to 1e-3 of a step"]

VARIANTS = {
    "ConstantStep": [dict()],
    "LinearStep": [dict(gamma_up=0.3, gamma_down=0.5), dict(gamma_up=0.2, gamma_down=0.1, mult_noise=False),
                   dict(gamma_up=0.4, gamma_down=0.4, mean_bound_reference=False),
                   dict(gamma_up=0.4, gamma_down=0.3, reverse_up=True, reverse_down=True),
                   dict(gamma_up=-0.4, gamma_down=-0.3, allow_increasing=True)],
    "SoftBounds": [dict(), dict(mult_noise=False), dict(reverse_down=True)],
    "SoftBoundsPmax": [dict(p_max=40, alpha=0.03)],
    "SoftBoundsReference": [dict(reference_mean=0.1), dict(reference_std=0.05, subtract_symmetry_point=True,
                                                           up_down=0.2),
                            dict(mult_noise=False, reference_mean=-0.05)],
    "ExpStep": [dict(), dict(A_up=0.2, gamma_up=2.0, A_down=0.3, gamma_down=1.5, a=0.5, b=0.1)],
    "PowStep": [dict(), dict(pow_gamma=2.0, pow_up_down=0.2, pow_up_down_dtod=0.1)],
    "PowStepReference": [dict(reference_mean=0.05), dict(pow_gamma=1.5, reference_std=0.05)],
    "PiecewiseStep": [dict(piecewise_up=[1.5, 1.0, 0.5, 0.2], piecewise_down=[0.3, 0.8, 1.0, 1.4]),
                      dict(piecewise_up=[0.7], piecewise_down=[1.2]), dict()],
}
WRITE_NOISE = ("LinearStep", "SoftBounds", "ExpStep", "PowStep", "PiecewiseStep", "SoftBoundsReference")
OPS = [((1, 1), (-1, -1)), ((1, 1), (1, 1)), ((1, 0), (0, -1)), ((0, -1), (-1, 0)), ((1, -1), (1, -1)),
       ((-1, 1), (0, -1)), ((0, 1), (1, 1))]
DWS = {"dw_min": 0.02}


def cases(tier):
    out = []
    for name, variants in VARIANTS.items():
        for v in range(len(variants)):
            for pt in ("STOCHASTIC_COMPRESSED", "STOCHASTIC", "MEAN_COUNT", "DETERMINISTIC_IMPLICIT"):
                for mode in ("dtod", "quiet", "c2c"):
                    out.append(dict(dev=name, v=v, pt=pt, mode=mode, depth=5 if tier == "thorough" else 3,
                                    sweep=200 if tier == "thorough" else 30))
                if name in WRITE_NOISE:
                    out.append(dict(dev=name, v=v, pt=pt, mode="write", depth=3, sweep=20))
                out.append(dict(dev=name, v=v, pt=pt, mode="corrupt", depth=2, sweep=10))
    out.append(dict(dev="SoftBoundsPmax", v=0, pt="STOCHASTIC_COMPRESSED", mode="curve", depth=0, sweep=0))
    return out


def build(case):
    cls = L.SIMPLE_DEVICES[case["dev"]]
    dev = cls(construction_seed=5)
    kw = dict(VARIANTS[case["dev"]][case["v"]])
    if case["dev"] != "SoftBoundsPmax":
        dev.dw_min, dev.w_max, dev.w_min = 0.02, 0.6, -0.5
    mode = case["mode"]
    if mode in ("quiet", "c2c", "write", "curve"):
        L.quiet(dev)
    else:
        dev.dw_min_std = 0.0
        if hasattr(dev, "w_max_dtod"):
            dev.w_max_dtod = dev.w_min_dtod = 0.2
    if mode == "corrupt":
        dev.corrupt_devices_prob = 0.5
        dev.corrupt_devices_range = 0.3
    if mode == "c2c":
        dev.dw_min_std = 0.2
        if case["dev"] == "ExpStep" and case["v"] == 1:
            dev.dw_min_std_add, dev.dw_min_std_slope = 0.3, 0.4
    if mode == "write":
        dev.write_noise_std = 0.7
    for k, v in kw.items():
        assert hasattr(dev, k), k
        setattr(dev, k, v)
    if mode == "quiet":
        L.quiet(dev)
    up = UpdateParameters(pulse_type=PulseType[case["pt"]], desired_bl=1, update_management=False,
                          update_bl_management=False)
    cfg = SingleRPUConfig(device=dev, update=up)
    cfg.mapping.digital_bias = False
    at = AnalogTile(2, 2, cfg, bias=False)
    at.tile.set_learning_rate(1.0)  # far above the granularity: every pulse certain
    return at, dev


def hidden(at):
    t = at.tile
    return dict(zip(t.get_hidden_parameter_names(), t.get_hidden_parameters().double()))


def step_of(dev, hp, w, up, xi):
    """(new weight, size of the documented step) for an up or down pulse at weight w (double)."""
    name = type(dev).__name__.replace("Device", "")
    mx, mn = hp["max_bound"], hp["min_bound"]
    su, sd = hp["dwmin_up"], hp["dwmin_down"]
    noise = 1.0 + dev.dw_min_std * xi
    add = 0.0
    ref = torch.zeros_like(w)
    if name in ("SoftBoundsReference", "PowStepReference"):
        ref = hp["reference"]
    w = w + ref
    rng = (mx - mn)
    if name == "PowStepReference":  # the device itself cannot be beyond its bounds
        w = torch.where(rng == 0, w, torch.minimum(torch.maximum(w, mn), mx))
    if name == "ConstantStep":
        dw = su * noise if up else -sd * noise
    elif name in ("LinearStep", "SoftBounds", "SoftBoundsPmax"):
        if getattr(dev, "mult_noise", True):
            dw = (hp["slope_up"] * w + su) * noise if up else -(hp["slope_down"] * w + sd) * noise
        else:
            dw = hp["slope_up"] * w + su * noise if up else -(hp["slope_down"] * w + sd * noise)
    elif name == "SoftBoundsReference":
        a = torch.where(mx > 0, w / mx, 0.0) if up else torch.where(mn < 0, w / mn, 0.0)
        if dev.mult_noise:
            dw = su * (1 - a) * noise if up else -sd * (1 - a) * noise
        else:
            dw = su * (noise - a) if up else -sd * (noise - a)
    elif name == "ExpStep":
        z = 2.0 * w / rng * dev.a + dev.b
        if up:
            dw = su * (1 - dev.A_up * torch.exp(dev.gamma_up * z)).clamp(min=0)
        else:
            dw = -sd * (1 - dev.A_down * torch.exp(-dev.gamma_down * z)).clamp(min=0)
        if dev.dw_min_std_add or dev.dw_min_std_slope:
            dw = dw + dev.dw_min_std * (dw.abs() + dev.dw_min_std_add + dev.dw_min_std_slope * w.abs()) * xi
        else:
            dw = dw * noise
    elif name in ("PowStep", "PowStepReference"):
        om = (mx - w) / rng
        dw = (su * om ** hp["gamma_up"] if up else -sd * (1 - om) ** hp["gamma_down"]) * noise
    elif name == "PiecewiseStep":
        v = torch.tensor(dev.piecewise_up if up else dev.piecewise_down, dtype=torch.float64)
        if len(v) == 1:
            f = torch.full_like(w, float(v[0]))
        else:
            pos = torch.nan_to_num((w - mn) / rng).clamp(0, 1) * (len(v) - 1)
            i = pos.floor().clamp(max=len(v) - 2).long()
            q = pos - i
            f = (1 - q) * v[i] + q * v[i + 1]
        dw = (su * f if up else -sd * f) * noise
    else:
        raise AssertionError(name)
    fixed = mx <= mn  # corrupt cells are stuck
    new = torch.minimum(torch.maximum(w + dw, mn), mx)
    if name in ("ExpStep", "PowStep", "PowStepReference", "PiecewiseStep"):
        new = torch.where(fixed, w, new) if name != "PiecewiseStep" else torch.where(
            fixed, torch.minimum(torch.maximum(w, mn), mx), new)
    return new - ref


def expect(dev, hp, w, x, d, xi):
    """One pulse for each cell with x_j * d_i != 0, direction opposite to the gradient."""
    up, down = step_of(dev, hp, w, True, xi), step_of(dev, hp, w, False, xi)
    g = torch.tensor(d, dtype=torch.float64)[:, None] * torch.tensor(x, dtype=torch.float64)[None]
    return torch.where(g < 0, up, torch.where(g > 0, down, w))


def pulse(at, op):
    x, d = op
    at.tile.update(torch.tensor([x], dtype=torch.float32), torch.tensor([d], dtype=torch.float32),
                   False, False, False, False)


def infer_xi(at, dev, case):
    """The one normal value behind all (equal) draws, from a single pulse on cell (0, 0)."""
    hp = hidden(at)
    w0 = torch.zeros(2, 2)
    at.tile.set_weights(w0)
    pulse(at, ((1, 0), (-1, 0)))
    got = at.tile.get_weights().double()[0, 0].item()
    a = step_of(dev, hp, w0.double(), True, 0.0)[0, 0].item()
    b = step_of(dev, hp, w0.double(), True, 1.0)[0, 0].item()
    return (got - a) / (b - a)


def run(case, rec):
    key = "%s:%d:%s:%s" % (case["dev"], case["v"], case["mode"], case["pt"])
    at, dev = build(case)
    t = at.tile
    if case["mode"] == "curve":
        return curve(case, rec, at, dev)
    mcrng.const(mcrng.uni(0.3))
    if case["mode"] == "write":
        return write(case, rec, at, dev, key)
    hp = hidden(at)
    if case["mode"] == "corrupt":
        rec.check(bool((hp["max_bound"] >= hp["min_bound"]).all()), key + ":bounds", lambda: str(hp))
    xi = 0.0
    if case["mode"] == "c2c":
        xi = infer_xi(at, dev, case)
        # the draw is a plausible normal number, not an artefact
        rec.check(1e-3 < abs(xi) < 6, key + ":xi", "inferred normal draw %g" % xi)
    tol = 1e-3 * float(dev.dw_min or 0.05)
    seen = {}

    def trans(w, op, cont=False):
        if not cont:
            t.set_weights(w)
        w = t.get_weights().double()
        pulse(at, op)
        got = t.get_weights()
        want = expect(dev, hp, w, op[0], op[1], xi)
        rec.step()
        ok = bool(((got.double() - want).abs() <= tol).all())
        rec.check(ok, key, lambda: "weights %s pulses x=%s d=%s -> %s, documented %s (hidden %s)" % (
            w.tolist(), op[0], op[1], got.tolist(), want.tolist(),
            {k: v.tolist() for k, v in hp.items()}))
        rec.state(key, got)
        return got, ok

    starts = [torch.zeros(2, 2), torch.tensor([[0.3, -0.3], [0.1, 0.45]]),
              torch.tensor([[2.0, -2.0], [-2.0, 2.0]]), torch.tensor([[-0.4, 0.2], [0.25, -0.1]])]
    frontier = starts
    for _ in range(case["depth"]):
        nxt = []
        for w in frontier:
            for op in OPS:
                got, ok = trans(w, op)
                if not ok:
                    return
                h = tuple(got.flatten().tolist())
                if h not in seen:
                    seen[h] = 1
                    nxt.append(got)
        frontier = nxt
    for op in OPS[:2]:
        t.set_weights(starts[1])
        for _ in range(case["sweep"]):
            if not trans(None, op, cont=True)[1]:
                return
    # several pulses in one update are the same as one after the other
    w0 = torch.tensor([[0.2, -0.1], [0.0, 0.3]])
    mcrng.const(mcrng.uni(0.3))
    up = UpdateParameters(pulse_type=PulseType[case["pt"]], desired_bl=4, update_management=False,
                          update_bl_management=False)
    cfg = SingleRPUConfig(device=dev, update=up)
    cfg.mapping.digital_bias = False
    mcrng.reset(1)
    multi = AnalogTile(2, 2, cfg, bias=False)
    multi.tile.set_learning_rate(1.0)
    for op in OPS[:5]:
        if case["mode"] == "c2c":  # (another noise value)
            break
        t.set_weights(w0)
        multi.tile.set_hidden_parameters(t.get_hidden_parameters())
        multi.tile.set_weights(w0)
        mcrng.const(mcrng.uni(0.3))
        pulse(multi, op)
        mx, w = xi, t.get_weights().double()
        for _ in range(4):
            w = expect(dev, hp, w, op[0], op[1], mx)
        got = multi.tile.get_weights()
        rec.step()
        rec.check(bool(((got.double() - w).abs() <= 4 * tol).all()), key + ":train",
                  lambda: "train of 4 pulses %s: %s, expected %s" % (op, got.tolist(), w.tolist()))
    rec.trace()
    rec.note("%d weights reached" % len(seen))


def write(case, rec, at, dev, key):
    """Updates act on the hidden weight; what is seen is the hidden weight plus the write noise."""
    t = at.tile
    hp = hidden(at)
    if not rec.check("persistent_weights" in hp, key + ":hidden", lambda: str(list(hp))):
        return
    mcrng.const(mcrng.uni(0.3))
    t.set_weights(torch.zeros(2, 2))
    noise = None
    for word in L.words(OPS, case["depth"]):
        t.set_weights(torch.tensor([[0.2, -0.1], [0.0, 0.3]]))
        for op in word:
            per = hidden(at)["persistent_weights"]
            vis = t.get_weights().double()
            pulse(at, op)
            want = expect(dev, hp, per, op[0], op[1], 0.0)
            got = hidden(at)["persistent_weights"]
            now = t.get_weights().double()
            rec.step()
            if not rec.check(bool(((got - want).abs() < 1e-5).all()), key + ":persistent",
                             lambda: "%s: hidden %s -> %s, documented %s" % (op, per, got, want)):
                return
            g = torch.tensor(op[1])[:, None] * torch.tensor(op[0])[None] != 0
            diff = (now - got)[g]
            if noise is None:
                noise = diff[0].item()
                rec.check(0 < abs(noise) < 6 * 0.7 * (dev.dw_min or 0.05), key + ":noise-size", str(noise))
            ok = bool(((diff - noise).abs() < 1e-5).all()) and bool((now[~g] == vis[~g]).all())
            if not rec.check(ok, key + ":noise", lambda: "%s: visible %s hidden %s, noise %s" % (
                    op, now, got, noise)):
                return
            rec.state(key, got, now)
        rec.trace()


def curve(case, rec, at, dev):
    """SoftBoundsPmax: p_max pulses lead from range_min to range_max along the documented curve."""
    t = at.tile
    B = (dev.range_max - dev.range_min) / (1 - math.exp(-dev.alpha * dev.p_max))
    for up in (True, False):
        t.set_weights(torch.full((2, 2), dev.range_min if up else dev.range_max))
        for p in range(1, dev.p_max + 1):
            pulse(at, OPS[0] if up else OPS[1])
            w = t.get_weights()
            if up:
                want = B * (1 - math.exp(-dev.alpha * p)) + dev.range_min
            else:
                # down: the mirrored curve, p pulses after range_max
                want = -B * (1 - math.exp(-dev.alpha * p)) + dev.range_max
            rec.step()
            rec.state(up, p, w)
            rec.check(bool(((w - want).abs() < 0.03).all()), "SoftBoundsPmax:curve-" + "du"[up],
                      lambda: "after %d pulses %s, documented %g" % (p, w.tolist(), want))
    rec.trace()
