"""I03: the inference noise models are the documented functions of target, time and normal draws."""
import itertools

import numpy as np
import torch

import mcrt
import mcrng
from aihwkit.exceptions import ArgumentError
from aihwkit.inference import (CustomDriftPCMLikeNoiseModel, PCMLikeNoiseModel, ReRamWan2022NoiseModel,
                               StateIndependentNoiseModel)
from aihwkit.inference.noise.hermes import HermesNoiseModel
from aihwkit.inference.noise.reram import ReRamCMONoiseModel
from aihwkit.inference.converter.conductance import (
    CustomPairConductanceConverter, DualPairConductanceConverter, NPairConductanceConverter,
    SinglePairConductanceConverter)

RULE = ("case = noise model x parameters; below it every (target conductance, programming draw, drift draw, "
        "read draw, time) of the grids is evaluated by the model, with all of torch's normal draws replaced, and "
        "by a float64 transcription of the documentation; then weight matrices over a value alphabet x "
        "converters; a state is one evaluated tuple's case, a transition one model call")
BOUNDS = {"quick": "23 conductances x 7 draws (per noise source) x 9 times x parameter grids; all 2x2 weight "
                   "matrices over 4 values x 5 converters",
          "thorough": "61 conductances x 9 draws x 14 times; all 2x2 weight matrices over 6 values"}
ASSUMPTIONS = ["for a negative drift coefficient draw the models without an explicit statement may rectify or "
               "reflect", "CMO: times of at least one second (the logarithmic fit)"]
DRAWS = {"quick": (-4., -1.5, -0.3, 0., 0.4, 1., 3.), "thorough": (-6., -3., -1.5, -0.3, 0., 0.4, 1., 2., 5.)}
TIMES = {"quick": (0., 1e-3, 1., 20., 300., 3600., 86400., 1e7, 1e9),
         "thorough": (0., 1e-6, 1e-3, .1, 1., 5., 20., 60., 300., 3600., 86400., 172800., 1e7, 1e10)}


def grid_g(g_max, tier, g_min=0.0):
    r = [0., 1e-6, 1e-3, .01, .03, .06, .09, .1, .13, .158, .163, .2, .25, .29, .302, .31, .4, .5, .6, .75, .9,
         .99, 1.]
    if tier == "thorough":
        r = sorted(set(r + [i / 39. + 0.0007 for i in range(38)]))
    return np.array([g_min + (g_max - g_min) * v for v in r])


def noise_of(t, t_read):
    return np.sqrt(np.log((t + t_read) / (2 * t_read)))


def poly(c, x):
    return sum(v * x ** k for k, v in enumerate(c))


class Base:
    reflect = (True, False)      # a negative drift coefficient: reflected, or rectified
    tmin = 0.0

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def nu(self, g, z, reflect):
        m, s = self.nu_stats(g)
        v = m + s * z
        return self.drift_scale * (np.abs(v) if reflect else np.maximum(v, 0))

    def drift(self, gp, nu, t, zs):
        tt = t + self.t_0
        gd = gp * (tt / self.t_0) ** (-nu) if t > 0 else gp
        gf = gd + gd * self.read_noise_scale * self.read(gp) * noise_of(tt, self.t_read) * zs[0]
        return np.maximum(gf, 0)


class Pcm(Base):
    draws = 1
    coeff, ref = [0.26348, 1.9650, -1.1731], 25.0

    def prog(self, g, z):
        s = poly(self.coeff, g / self.g_max) * self.g_max / self.ref
        return np.maximum(g + self.prog_noise_scale * s * z, 0)

    def nu_stats(self, g):
        lg = np.log(np.maximum(g / self.g_max, 1e-7))
        return np.clip(-0.0155 * lg + 0.0244, .049, .1), np.clip(-0.0125 * lg - 0.0059, .008, .045)

    def read(self, gp):
        with np.errstate(divide="ignore"):
            return np.minimum(0.0088 / (gp / self.g_max) ** 0.65, 0.2)


class Custom(Pcm):
    def nu_stats(self, g):
        m = self.model
        return np.interp(g, m["g_lst"], m["nu_mean_lst"]), np.interp(g, m["g_lst"], m["nu_std_lst"])


class State(Base):
    draws = 1
    reflect = (False,)           # documented: rectified

    def prog(self, g, z):
        return np.maximum(g + self.prog_noise_scale * poly(self.coeff, g / self.g_max) * z, 0)

    def nu_stats(self, g):
        return self.nu_mean, self.nu_std

    def drift(self, gp, nu, t, zs):
        tt = t + self.t_0
        gd = gp * (tt / self.t_0) ** (-nu) if t > 0 else gp
        return np.maximum(gd + self.read_noise_scale * gd / self.g_max * noise_of(tt, self.t_read) * zs[0], 0)


class Hermes(Pcm):
    def nu_stats(self, g):
        x = np.maximum(g / self.g_max, 1e-7)
        lg = np.log(x)
        mu = np.where(x < .0945, np.clip(-.0387 * lg - .0182, .072, .13), -.0436 * x ** 2 - .0126 * x + .0736)
        if self.n == 1:
            sd = np.where(x < .3039, np.clip(-.0120 * lg - .0023, .0124, .04),
                          -.0165 * x ** 2 + .0116 * x + .0104)
        else:
            sd = np.where(x < .3055, np.clip(-.0117 * lg - .0057, .0091, .04),
                          -.0118 * x ** 2 + .0093 * x + .0073)
        return mu, sd

    def read(self, gp):
        x = gp / self.g_max
        lg = np.log(np.maximum(x, 1e-30))
        if self.n == 1:
            return np.where(x < .1591, np.clip(-.0078 * lg + .0038, .0179, .04),
                            .0664 * x ** 3 - .1352 * x ** 2 + .0768 * x + .0088)
        return np.where(x < .16, np.clip(-.0117 * lg - .0069, .015, .04),
                        .0069 * x ** 3 - .0280 * x ** 2 + .0211 * x + .0123)


class Wan(Base):
    draws = 1
    std = {1.0: [0.348, 16.030, -43.853, 45.393, -16.815], 86400.0: [0.701, 22.086, -50.773, 47.095, -16.458],
           172800.0: [0.782, 20.274, -43.507, 37.062, -11.934]}

    def at(self, g, z, t):
        s = poly(self.coeff[t], g / self.g_max) * self.g_max / self.ref
        return np.maximum(g + self.noise_scale * s * z, 0)

    def prog(self, g, z):
        return self.at(g, z, min(self.coeff))

    def nu(self, g, z, reflect):
        return g

    def drift(self, gp, nu, t, zs):
        return self.at(nu, zs[0], t)


class Cmo(Base):
    draws = 2
    tmin = 1.0

    def prog(self, g, z):
        return np.maximum(g + self.prog_noise_scale * poly(self.coeff, g) * z, 0)

    def nu(self, g, z, reflect):
        return g

    def drift(self, gp, nu, t, zs):
        if t == 0:
            return gp
        lt = np.log(t)
        gd = gp - 0.08900206 * lt * self.drift_scale + zs[0] * (0.04201137 * lt + 0.41183342) * self.drift_scale
        # (the fit of the read noise is for conductances above 1 uS)
        s = 0.0277316483 * np.log10(np.maximum(gd, 1.0)) * noise_of(t, 1e-6)
        return np.clip(gd + s * zs[1] * self.read_noise_scale, self.g_min, self.g_max)


DRIFT = dict(g_lst=[0., 4., 10., 50.], nu_mean_lst=[0.1, 0.02, 0.05, 0.08], nu_std_lst=[0.01, 0.03, 0., 0.02])
SCALES = ((1., 1., 1.), (0., 0., 0.), (0.5, 2., 0.3), (3., 0., 1.), (0., 1., 2.))


def make(case):
    """The model and its transcription."""
    n, p, r, d = case["model"], *case.get("scales", (1., 1., 1.))
    kw, g_max = {}, case.get("g_max")
    t_0, t_read = case.get("t", (20.0, 250e-9))
    if n in ("pcm", "custom", "hermes1", "hermes2"):
        kw = dict(prog_noise_scale=p, read_noise_scale=r, drift_scale=d)
        args = dict(kw, t_0=t_0, t_read=t_read)
        if g_max is not None:
            args["g_max"] = g_max
        if "coeff" in case:
            args["prog_coeff"] = case["coeff"]
        if "ref" in case:
            args["prog_coeff_g_max_reference"] = case["ref"]
        if n == "pcm":
            m, c = PCMLikeNoiseModel(**args), Pcm
        elif n == "custom":
            m, c = CustomDriftPCMLikeNoiseModel(dict(DRIFT), **args), Custom
        else:
            m, c = HermesNoiseModel(num_devices=int(n[-1]), **args), Hermes
            kw["n"] = int(n[-1])
        gm = g_max or {"pcm": 25., "custom": 25., "hermes1": 10.35, "hermes2": 20.7}[n]
        if "coeff" in case:
            kw.update(coeff=case["coeff"], ref=case.get("ref", gm))
        elif c is Hermes:
            kw.update(coeff=[0.15781817, 2.32443916, -2.16310839, 0.68841818] if kw["n"] == 1 else
                      [0.16603222, 4.71806468, -8.48101252, 4.68961419], ref=10.35 if kw["n"] == 1 else 20.7)
        return m, c(g_max=gm, model=DRIFT, t_0=t_0, t_read=t_read, **kw)
    if n == "state":
        kw = dict(prog_noise_scale=p, read_noise_scale=r, drift_scale=d, t_0=t_0, t_read=t_read)
        mean, std = case.get("nu", (0.1, 0.05))
        m = StateIndependentNoiseModel(g_max=g_max, prog_coeff=case.get("coeff"), drift_nu_mean=mean,
                                       drift_nu_std=std, **kw)
        return m, State(g_max=g_max or 25., coeff=case.get("coeff", [.2, 0, 0]), nu_mean=mean, nu_std=std, **kw)
    if n == "wan":
        args = dict(g_max=g_max, noise_scale=p)
        coeff = Wan.std
        gm = g_max or 25.
        if "coeff" in case:
            args["coeff_dic"] = coeff = {float(k): v for k, v in case["coeff"]}
        if "ref" in case:
            args["coeff_g_max_reference"] = case["ref"]
        ref = case.get("ref", gm) if "coeff" in case else 40.0
        return ReRamWan2022NoiseModel(**args), Wan(g_max=gm, noise_scale=p, coeff=coeff, ref=ref)
    acc = case["acc"]
    g_min = case.get("g_min", 9.0)
    m = ReRamCMONoiseModel(g_max=g_max or 88.0, g_min=g_min, prog_noise_scale=p, read_noise_scale=r,
                           drift_scale=d, acceptance_range=acc)
    return m, Cmo(g_max=g_max or 88.0, g_min=g_min, prog_noise_scale=p, read_noise_scale=r, drift_scale=d,
                  coeff=[0.00081107, 0.00106879] if acc == .2 else [0.0112185391, 0.01129027418])


def f32(a):
    return torch.tensor(np.asarray(a), dtype=torch.float32)


def f64(t):
    return t.double().numpy()


def scalar(case, rec):
    """Every tuple of the grids, vectorised over all but the time."""
    m, r = make(case)
    tier = case["tier"]
    lab = case["model"]
    z = np.array(DRAWS[tier])
    g = grid_g(r.g_max, tier, getattr(r, "g_min", 0.0))
    gg, zz = np.meshgrid(g, z, indexing="ij")
    gt = f32(gg)
    keep = gt.clone()
    tol = dict(rtol=3e-4, atol=3e-5)
    same = lambda t: mcrt.same(t, keep)
    with mcrng.normals(lambda k, s: f32(zz)):
        gp = m.apply_programming_noise_to_conductance(gt)
    rec.step(gg.size)
    rec.check(same(gt), f"argument-changed:{lab}:prog", "programming changed the target conductances")
    exp = r.prog(f64(keep), zz)
    bad = lambda a, b: "at g=%.4g z=%.2g: %.6g instead of %.6g" % tuple(
        v.flatten()[np.argmax(np.abs(a - b))] for v in (gg, zz, a, b))
    rec.check(mcrt.close(gp, f32(exp), **tol), f"programming:{lab}", lambda: bad(f64(gp), exp))
    rec.check(bool((gp >= 0).all()), f"negative:{lab}:prog", lambda: f"negative conductance {gp.min()}")
    gt = keep.clone()
    with mcrng.normals(lambda k, s: f32(zz)):
        nu = m.generate_drift_coefficients(gt)
    rec.step(gg.size)
    rec.check(same(gt), f"argument-changed:{lab}:coefficients",
              "drawing drift coefficients changed the target conductances")
    exps = [r.nu(f64(keep), zz, x) for x in r.reflect]
    if not rec.check(any(mcrt.close(nu, f32(e), rtol=3e-4, atol=2e-6) for e in exps), f"coefficients:{lab}",
                     lambda: bad(f64(nu), exps[0])):
        return
    rec.check(bool((nu >= 0).all()), f"negative:{lab}:coefficients", "negative drift coefficient")
    # drift: [programmed state] x [read draws] (x second read draws)
    base = torch.unique(gp.flatten())
    base = base[torch.linspace(0, len(base) - 1, min(len(base), 24)).long()]
    nus = torch.unique(nu.flatten())
    nus = nus[torch.linspace(0, len(nus) - 1, min(len(nus), 8)).long()]
    zs = np.array(list(itertools.product(z, repeat=r.draws)))
    a, b, c = np.meshgrid(np.arange(len(base)), np.arange(len(nus)), np.arange(len(zs)), indexing="ij")
    pg, pn = base[torch.from_numpy(a)], nus[torch.from_numpy(b)]
    pz = [zs[c, k] for k in range(r.draws)]
    last = None
    times = [t for t in (r.coeff if lab == "wan" else TIMES[tier]) if t >= r.tmin or t == 0]
    for t in times:
        x, y = pg.clone(), pn.clone()
        with mcrng.normals(lambda k, s: f32(pz[k % len(pz)])):
            out = m.apply_drift_noise_to_conductance(x, y, t)
        rec.step(a.size)
        rec.state(case["i"], t, out)
        rec.check(mcrt.same(x, pg) and mcrt.same(y, pn), f"argument-changed:{lab}:drift",
                  "drift changed the programmed state")
        ok = [r.drift(f64(pg), f64(pn), t, q) for q in (pz, pz[::-1])]
        rec.check(any(mcrt.close(out, f32(e), **tol) for e in ok), f"drift:{lab}",
                  lambda: "t=%g: %.6g instead of %.6g" % (t, *[v.flatten()[np.nanargmax(
                      np.nan_to_num(np.abs(f64(out) - ok[0]), nan=1e9))] for v in (f64(out), ok[0])]))
        rec.check(bool((out >= 0).all()), f"negative:{lab}:drift",
                  lambda: f"conductance {out.min()} at t={t}")
        with mcrng.normals(lambda k, s: torch.zeros(s)):
            quiet = m.apply_drift_noise_to_conductance(pg.clone(), pn.clone(), t)
        if lab != "wan":
            rec.check(bool((quiet <= torch.clamp(pg, min=getattr(r, "g_min", 0.0)) * (1 + 1e-6)).all()),
                      f"grows:{lab}", f"a conductance grew until t={t}")
            if t == 0:
                rec.check(mcrt.close(quiet, pg, rtol=1e-6, atol=1e-7), f"time-zero:{lab}", "drift at time zero")
            if last is not None and (lab != "cmo" or t > 1):
                rec.check(bool((quiet <= last * (1 + 1e-6) + 1e-7).all()), f"grows:{lab}",
                          f"a conductance grew between the times before {t}")
            last = quiet
    if lab == "wan":
        for t in (0.0, 2.0, 1e5):
            if t in r.coeff:
                continue
            try:
                m.apply_drift_noise_to_conductance(base.clone(), base.clone(), t)
                rec.fail("wan-time", "a time without measurement must be refused")
            except ArgumentError:
                rec.step()


CONV = {"single": lambda: SinglePairConductanceConverter(g_max=20.),
        "single-min": lambda: SinglePairConductanceConverter(g_max=20., g_min=2.),
        "dual": lambda: DualPairConductanceConverter(f_lst=[1., 3.], g_max=10., g_min=1.),
        "three": lambda: NPairConductanceConverter(f_lst=[1., 2., 4.], g_max=20., g_min=0.),
        "lists": lambda: CustomPairConductanceConverter(
            f_lst=[1.0], g_lst=[[0., 0., 10., 20., 20.], [20., 20., 10., 0., 0.][::1]], g_max=20., g_min=0.,
            invertibility_test=False)}


def matrix(case, rec):
    """Weights are converted, every slice gets its own draws, and the result is converted back."""
    n, values = case["model"], (-1.0, 0.0, 0.3, 0.8) if case["tier"] == "quick" else (-1., -.4, 0., .05, .3, .8)
    conv = None if n == "cmo" else CONV[case["conv"]]()
    m = {"pcm": lambda: PCMLikeNoiseModel(g_converter=conv), "wan": lambda: ReRamWan2022NoiseModel(g_converter=conv),
         "custom": lambda: CustomDriftPCMLikeNoiseModel(dict(DRIFT), g_converter=conv),
         "state": lambda: StateIndependentNoiseModel(g_converter=conv),
         "hermes2": lambda: HermesNoiseModel(g_converter=conv),
         "cmo": lambda: ReRamCMONoiseModel(g_max=88., g_min=9.)}[n]()
    z = lambda k: ((k * 37 + 11) % 19 - 9) / 6.0
    def source(k, s):
        q = 1
        for v in s:
            q *= v
        return torch.tensor([z(5 * k + i) for i in range(q)], dtype=torch.float32).reshape(s)

    class Fixed:
        """The same draws as the call numbers in `order` got."""

        def __init__(self, order):
            self.order, self.k = order, 0

        def __call__(self, k, s):
            self.k += 1
            return source(self.order[self.k - 1], s)
    times = (1.0, 86400.0) if n == "wan" else (0.0, 1.0, 1e5)
    for w in itertools.product(values, repeat=4):
        w = torch.tensor(w).reshape(2, 2)
        keep = w.clone()
        with mcrng.normals(source) as mode:
            noisy, nus = m.apply_programming_noise(w)
        rec.step()
        rec.check(mcrt.same(w, keep), f"argument-changed:{n}:weights", "programming changed the given weights")
        g, par = m.g_converter.convert_to_conductances(keep.clone())
        k = len(g)
        need = k if n in ("wan", "cmo") else 2 * k
        rec.check(mode.calls == need, f"draws:{n}", f"{mode.calls} draws for {k} slices")
        orders = [list(range(need))] if need == k else [
            [2 * i for i in range(k)] + [2 * i + 1 for i in range(k)], list(range(need))]
        good = False
        for o in orders:
            with mcrng.normals(Fixed(o)):
                gp = [m.apply_programming_noise_to_conductance(x.clone()) for x in g]
                nu = [m.generate_drift_coefficients(x.clone()) for x in g]
            exp = m.g_converter.convert_back_to_weights(gp, par)
            good = good or (mcrt.close(noisy, exp, rtol=1e-4, atol=1e-6) and len(nus) == k and all(
                mcrt.close(a, b, rtol=1e-4, atol=1e-6) for a, b in zip(nus, nu)))
        if not rec.check(good, f"slices:{n}", lambda: f"programming {keep.tolist()} gives {noisy.tolist()} and not "
                                                      f"the converted slices {exp.tolist()}"):
            return
        rec.check(bool(torch.isfinite(noisy).all()), f"finite:{n}", "programmed weights are not finite")
        for t in times:
            a, b = noisy.clone(), [x.clone() for x in nus]
            with mcrng.normals(source):
                out = m.apply_drift_noise(a, b, t)
            rec.step()
            rec.check(mcrt.same(a, noisy) and all(mcrt.same(x, y) for x, y in zip(b, nus)),
                      f"argument-changed:{n}:drifting", "drifting changed the programmed state")
            g2, par2 = m.g_converter.convert_to_conductances(noisy.clone())
            with mcrng.normals(source):
                exp = m.g_converter.convert_back_to_weights(
                    [m.apply_drift_noise_to_conductance(x.clone(), y.clone(), t) for x, y in zip(g2, nus)], par2)
            rec.check(mcrt.close(out, exp, rtol=1e-4, atol=1e-6), f"drift-slices:{n}",
                      "drifting is not the conversion of the drifted slices")
            # programming and drift in one call, all draws alike
            u = f32([[.4, -.7], [1.1, -.2]])
            uni = lambda k, s: u if len(s) == 2 else u[k % 2] if n != "cmo" else u[0]
            with mcrng.normals(uni):
                got = m.apply_noise(w, t)
            rec.step()
            if n != "cmo":
                with mcrng.normals(lambda k, s: u):
                    gs = [m.apply_programming_noise_to_conductance(x.clone()) for x in g]
                    if t > 0:
                        gs = [m.apply_drift_noise_to_conductance(
                            y, m.generate_drift_coefficients(x.clone()), t) for x, y in zip(g, gs)]
                exp = m.g_converter.convert_back_to_weights(gs, par)
                rec.check(mcrt.close(got, exp, rtol=1e-4, atol=1e-6), f"noise:{n}",
                          lambda: f"noise at time {t} gives {got.tolist()} instead of {exp.tolist()}")
            rec.check(bool(torch.isfinite(got).all()) and mcrt.same(w, keep), f"noise-finite:{n}", "not finite")
            rec.state(case["i"], t, keep, out)


def cases(tier):
    out = []
    for n in ("pcm", "custom", "hermes1", "hermes2", "state"):
        for sc in SCALES:
            for gm in (None, 5.0, 10.0) if n[0] == "h" else (None, 10.0, 50.0):
                for t in ((20.0, 250e-9), (300.0, 5e-7), (1.0, 1e-6)):
                    out.append(dict(model=n, scales=sc, g_max=gm, t=t))
        for gm in (None, 10.0):
            for co in ([0.3, 0.4], [0.1, 0.0, 0.5], [0.2, 1.0, 2.0, 0.5, 0.1]):
                out.append(dict(model=n, g_max=gm, coeff=co))
                if n != "state":
                    for ref in (5.0, 25.0, 40.0):
                        out.append(dict(model=n, g_max=gm, coeff=co, ref=ref))
    for nu in ((0.0, 0.05), (0.02, 0.1), (0.3, 0.0)):
        for sc in SCALES:
            out.append(dict(model="state", nu=nu, scales=sc))
    for gm in (None, 10.0, 40.0, 90.0):
        for p in (0.0, 0.5, 1.0, 2.0):
            out.append(dict(model="wan", g_max=gm, scales=(p, 1., 1.)))
        for co in ([[1.0, [0.5, 1.0]], [60.0, [1.0, 0.2, 0.3]]], [[5.0, [2.0, 0.5]]]):
            out.append(dict(model="wan", g_max=gm, coeff=co))
            for ref in (20.0, 80.0):
                out.append(dict(model="wan", g_max=gm, coeff=co, ref=ref))
    for gm, gn in ((88.0, 9.0), (50.0, 20.0), (30.0, 1.0), (88.0, 0.0)):
        for sc in SCALES:
            for acc in (0.2, 2):
                out.append(dict(model="cmo", g_max=gm, g_min=gn, scales=sc, acc=acc))
    for n in ("pcm", "custom", "state", "hermes2", "wan"):
        for conv in CONV:
            out.append(dict(kind="matrix", model=n, conv=conv))
    out.append(dict(kind="matrix", model="cmo", conv=""))
    for i, c in enumerate(out):
        c.update(i=i, tier=tier)
    return out


def run(case, rec):
    (matrix if case.get("kind") == "matrix" else scalar)(case, rec)
    rec.trace()
