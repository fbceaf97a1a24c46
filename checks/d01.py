"""D01: pulsed updates realise minus the learning rate times the outer product, on average over every
equally likely outcome of the pulse generation (exhaustive choice tree over all random draws)."""
import torch

import mclib as L
import mcrt
import mcrng
from aihwkit.simulator.configs import SingleRPUConfig, UpdateParameters, PulseType
from aihwkit.simulator.configs.devices import ConstantStepDevice
from aihwkit.simulator.tiles.analog import AnalogTile

RULE = ("case = pulse type x update/bit-line management x learning-rate sign x input/error vectors x "
        "history before; every random draw of the update takes all K midpoints of a K-grid (the "
        "complete choice tree); a state is (case, resulting weights), a transition one complete "
        "update with one outcome of all its draws")
BOUNDS = {"quick": "tiles up to 2x2, trains up to 3, at most 4^6 outcomes per update",
          "thorough": "tiles up to 3x2, at most 4^8 outcomes per update"}
ASSUMPTIONS = ["probabilities on the K-grid, so that averages over the grid are exact",
               "constant-step device without variations; bounds never reached"]
DW = 2.0 ** -7
KEEP = []


def cases(tier):
    deep = tier == "thorough"
    lim = 8 if deep else 6
    out = []
    vecs = [((1.0,), (1.0,)), ((0.5,), (1.0,)), ((-0.25,), (0.5,)), ((1.0,), (-0.75,)),
            ((-1.0,), (-0.5,)), ((0.0,), (1.0,)), ((1.0,), (0.0,)), ((0.0,), (0.0,)),
            ((1.0, -0.5), (0.75,)), ((-0.25, 0.0), (-1.0,)), ((0.5,), (1.0, -0.25)),
            ((-1.0,), (0.0, 0.5)), ((1.0, -0.75), (0.5, -0.25)), ((0.0, 1.0), (-0.5, 0.0)),
            ((0.25, -1.0, 0.5), (0.75,)), ((0.5, 0.0, -0.25), (0.5, -1.0))]
    for pt in ("STOCHASTIC_COMPRESSED", "STOCHASTIC"):
        for sgn in (1,):
            for x, d in vecs:
                nz = sum(v != 0 for v in x) + sum(v != 0 for v in d)
                for pre in (0, 1):
                    # plain: p = s * |v|, lr = dw * BL * s^2
                    for bl in (1, 2, 3):
                        for s in (1.0, 0.5):
                            K = 4 if s == 1.0 else 8
                            if K ** 1 and (nz * bl) * (2 if K == 4 else 3) > 2 * lim:
                                continue
                            for fixed in (True, False):
                                out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=pre, bl=bl,
                                                lr=DW * bl * s * s, K=K, um=False, ublm=False,
                                                fixed=fixed, clip=9.0))
                    # update management: p_max = sqrt(k / BL), k = lr xm dm / dw
                    xm, dm = max(map(abs, x)), max(map(abs, d))
                    if not xm or not dm:
                        out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=pre, bl=2, lr=DW, K=4,
                                        um=True, ublm=bool(pre), fixed=True, clip=9.0))
                        continue
                    ratios = [abs(v) / xm for v in x] + [abs(v) / dm for v in d]
                    for ublm in (False, True):
                        for bl, s, used in ((1, 1.0, 1), (2, 1.0, 2), (2, 0.5, 1 if ublm else 2),
                                            (3, 1.0, 3), (31, 1.0, 2), (31, .75, 2)):
                            if bl == 31 and not ublm:
                                continue
                            k = used * s * s
                            ps = [r * s for r in ratios]
                            K = next((K for K in (4, 8, 16) if all((p * K) % 1 == 0 for p in ps)), 0)
                            nzr = sum(p not in (0.0,) for p in ps)
                            if not K or nzr * used * {4: 2, 8: 3, 16: 4}[K] > 2 * lim:
                                continue
                            out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=pre, bl=bl,
                                            lr=DW * k / (xm * dm), K=K, um=True, ublm=ublm,
                                            fixed=True, clip=9.0))
            # more pulses wanted than the train is long: the inputs stay unclipped, small errors too
            for x, d in (((1.0,), (1.0, -0.25)), ((-0.5,), (0.25, 1.0))):
                for ublm in (False, True):
                    out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=1, bl=2,
                                    lr=DW * 4 / abs(x[0]), K=4, um=True, ublm=ublm, fixed=True,
                                    clip=0.5))
            # gradient scale of the update management
            for x, d in (((1.0,), (1.0, -0.25)), ((-0.5,), (0.25, 1.0))):
                out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=0, bl=2,
                                lr=DW * 2 / abs(x[0]) / 0.5, K=4, um=True, ublm=False, fixed=True,
                                clip=0.5, ugs=0.5))
            # probability resolution, with and without stochastic rounding, as fraction or steps
            for res in (0.25, 4.0, -1.0):
                for x, d in (((1.0,), (-0.25,)), ((0.5, -0.75), (1.0,)), ((-0.25,), (0.75, 0.5))):
                    out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=0, bl=1, lr=DW, K=4,
                                    um=False, ublm=False, fixed=True, clip=9.0, res=res))
            for res in (0.5, 2.0):
                out.append(dict(t="avg", pt=pt, sgn=sgn, x=(1.0,), d=(-0.25,), pre=0, bl=1, lr=DW, K=4,
                                um=False, ublm=False, fixed=True, clip=9.0, res=res, sto=True))
                out.append(dict(t="avg", pt=pt, sgn=sgn, x=(-0.25,), d=(0.75,), pre=0, bl=1, lr=DW, K=4,
                                um=False, ublm=False, fixed=True, clip=9.0, res=res, sto=True))
            # not fixed: long train, all probabilities one
            for x, d in (((1.0,), (-1.0,)), ((0.5,), (1.0,)), ((-1.0,), (0.5,))):
                out.append(dict(t="avg", pt=pt, sgn=sgn, x=x, d=d, pre=1, bl=1, lr=DW * 3, K=2 if d[0] in (
                    .5, 1., -1.) else 4, um=False, ublm=False, fixed=False, clip=9.0))
    for pt in ("MEAN_COUNT", "DETERMINISTIC_IMPLICIT", "NONE", "NONE_WITH_DEVICE"):
        for sgn in (1, -1):
            for um, ublm in ((False, False), (True, False), (True, True)):
                for bl in (1, 4, 31):
                    out.append(dict(t="det", pt=pt, sgn=sgn, um=um, ublm=ublm, bl=bl))
    for pt in ("STOCHASTIC_COMPRESSED", "STOCHASTIC", "MEAN_COUNT", "DETERMINISTIC_IMPLICIT", "NONE",
               "NONE_WITH_DEVICE"):
        for sgn in (1, -1):
            for it in (False, True):
                for ot in (False, True):
                    for bias in (False, True):
                        out.append(dict(t="batch", pt=pt, sgn=sgn, it=it, ot=ot, bias=bias))
    return out


def tile(nx, nd, case, bias=False):
    up = UpdateParameters(pulse_type=PulseType[case["pt"]], desired_bl=case.get("bl", 31),
                          fixed_bl=case.get("fixed", True), update_management=case.get("um", True),
                          update_bl_management=case.get("ublm", True),
                          um_grad_scale=case.get("ugs", 1.0), res=case.get("res", 0.0),
                          sto_round=case.get("sto", False))
    c = SingleRPUConfig(device=L.quiet(ConstantStepDevice(), dw_min=DW, w_max=4.0, w_min=-4.0,
                                       up_down=0.0), update=up)
    c.mapping.digital_bias = False
    t = AnalogTile(nd, nx, c, bias=bias)
    KEEP[:] = KEEP[-3:] + [t]  # the C++ tile works on memory owned by the Python tile
    return t.tile


def set_lr(t, lr):
    """Negative learning rates are rejected by some devices (documented: always positive)."""
    try:
        t.set_learning_rate(lr)
    except RuntimeError as e:
        if lr < 0 and "lr should be positive" in str(e):
            raise mcrt.Skip(str(e))
        raise


def keyof(c):
    return "%s:%s%s:lr%s" % (c["pt"], "um" if c.get("um") else "plain", "+blm" if c.get("ublm") else "",
                             "+" if c["sgn"] > 0 else "-")


def avg(case, rec):
    x, d = torch.tensor([case["x"]]), torch.tensor([case["d"]])
    nx, nd = x.shape[1], d.shape[1]
    K = case["K"]
    key = keyof(case)
    for o in ("res", "sto", "ugs"):
        if o in case:
            key += ":" + o
    t = tile(nx, nd, case)
    zero = torch.zeros(nd, nx)
    mid = [mcrng.uni((k + .5) / K) for k in range(K)]
    if case["pre"]:  # a long, fully coincident train first
        set_lr(t, DW * 3)
        mcrng.const(0)
        t.update(torch.ones(1, nx), torch.ones(1, nd), False, False, False, False)
    set_lr(t, case["sgn"] * case["lr"])
    total = torch.zeros(nd, nx, dtype=torch.float64)
    idx, weight_sum, n = [], 0.0, 0
    sign = -torch.sign(d.t() @ x) * case["sgn"]
    maxn = max(case["bl"], int(round(case["lr"] / DW)) if not case["fixed"] else 0)
    while True:
        t.set_weights(zero)
        mcrng.script([mid[i] for i in idx], mid[0])
        t.update(x, d, False, False, False, False)
        nd_ = mcrng.draws()
        if nd_ > 14:
            rec.fail(key + ":draws", "the update takes %d draws" % nd_)
            return
        w = t.get_weights()
        idx = idx[:nd_] + [0] * (nd_ - len(idx))
        p = float(K) ** -nd_
        total += p * w.double()
        weight_sum += p
        n += 1
        rec.step()
        pulses = w / DW
        cnt = torch.round(pulses)
        ok = bool((pulses - cnt).abs().max() < 1e-3) and bool((cnt * sign >= 0).all()) and bool(
            (cnt.abs() <= maxn).all()) and bool((cnt[sign == 0] == 0).all())
        if not rec.check(ok, key + ":pulses", lambda: "x=%s d=%s draws=%s: weight change in pulses %s "
                         "(expected sign %s, at most %d)" % (case["x"], case["d"], idx, pulses.tolist(),
                                                             sign.tolist(), maxn)):
            return
        rec.state(key, case["x"], case["d"], w)
        # odometer over the choice tree
        while idx and idx[-1] == K - 1:
            idx.pop()
        if not idx:
            break
        idx[-1] += 1
    assert abs(weight_sum - 1.0) < 1e-9
    clip = d.clamp(-case["clip"], case["clip"])
    want = -(case["sgn"] * case["lr"]) * (clip.t() @ x)
    rec.check(mcrt.close(total, want, rtol=1e-4, atol=1e-4 * DW), key + ":average",
              lambda: "x=%s d=%s lr=%g bl=%d: average over all %d outcomes %s pulses, expected %s" % (
                  case["x"], case["d"], case["sgn"] * case["lr"], case["bl"], n,
                  (total / DW).tolist(), (want / DW).tolist()))
    rec.trace()
    rec.note("average over %d outcomes of draws equals -lr*d*x" % n)


def det(case, rec):
    key = keyof(case)
    vals = (0.0, 1.0, -0.5, 0.25, -0.9, 0.37)
    t = tile(2, 2, case)
    big = case["pt"].startswith("NONE")
    for x in L.itertools.product(vals, repeat=2):
        for d in L.itertools.product(vals, repeat=2):
            xt, dt = torch.tensor([x]), torch.tensor([d])
            xm, dm = max(map(abs, x)), max(map(abs, d))
            for lr in (0.0, DW * case["bl"], DW * case["bl"] / 2):
                t.set_weights(torch.zeros(2, 2))
                set_lr(t, case["sgn"] * lr)
                t.update(xt, dt, False, False, False, False)
                w = t.get_weights()
                rec.step()
                want = -case["sgn"] * lr * (dt.t() @ xt)
                err = ((w - want) / DW).abs().max().item()
                if big or lr == 0.0:
                    lim = 1e-3
                elif case["pt"] == "DETERMINISTIC_IMPLICIT":
                    lim = 0.505
                else:
                    lim = 1.76
                if not rec.check(err <= lim, key + (":lr0" if lr == 0 else ":det"),
                                 lambda: "x=%s d=%s lr=%g: change %s pulses, expected %s" % (
                                     x, d, case["sgn"] * lr, (w / DW).tolist(), (want / DW).tolist())):
                    return
                n = w / DW
                if not big:
                    ok = (n - n.round()).abs().max() < 1e-3 and (n.abs().max() <= case["bl"] + 1e-3)
                    rec.check(bool(ok), key + ":count", lambda: "x=%s d=%s: %s pulses" % (x, d, n))
                rec.check(bool((w[want == 0] == 0).all()), key + ":zero",
                          lambda: "x=%s d=%s: %s" % (x, d, w))
                rec.state(key, w)
    rec.trace()


def batch(case, rec):
    """A batch is its rows, one after the other, for every memory layout."""
    key = "batch:" + keyof(case)
    case = dict(case, um=True, ublm=True, bl=7)
    nx, nd = 3, 2
    for m in (1, 2, 3):
        x, d = L.grid(m, nx, k=3, lo=-1, hi=1), L.grid(m, nd, k=4, lo=-1, hi=1)
        x[0, 1] = 0.0
        if m > 2:
            d[1] = 0.0
        mcrng.reset(3)
        a, b = tile(nx, nd, case, case["bias"]), tile(nx, nd, case, case["bias"])
        for t in (a, b):
            t.set_weights(torch.zeros(nd, nx + case["bias"]))
            set_lr(t, case["sgn"] * DW * 5)
        mcrng.reset(5)
        a.update(x.t().contiguous() if case["it"] else x, d.t().contiguous() if case["ot"] else d,
                 case["bias"], case["it"], case["ot"], False)
        mcrng.reset(5)
        for r in range(m):
            xr = x[r:r + 1]
            if case["bias"]:
                xr = torch.cat([xr, torch.ones(1, 1)], 1)
            b.update(xr, d[r:r + 1].contiguous(), False, False, False, False)
            rec.step()
        wa, wb = a.get_weights(), b.get_weights()
        rec.check(mcrt.close(wa, wb, atol=1e-7) and bool(wa.abs().max() > 0), key,
                  lambda: "%s m=%d: batch %s rows %s" % (case, m, wa.tolist(), wb.tolist()))
        rec.state(key, wa)
    rec.trace()


def run(case, rec):
    globals()[case["t"]](case, rec)
