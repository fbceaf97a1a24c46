"""K04: every configured parameter reaches the simulator core, and no other parameter moves with it."""
import copy
import dataclasses
import enum
import inspect
import json
import math
import os
import re

import numpy as np

import mcdev as V
import mclib as L
import mcrng
import mcrt
import aihwkit.simulator.configs as C
import aihwkit.simulator.configs.compounds as CC
import aihwkit.simulator.configs.devices as CD
import aihwkit.simulator.parameters as P
from aihwkit.simulator import rpu_base
from aihwkit.simulator.parameters.enums import RPUDataType
from aihwkit.simulator.parameters.helpers import tile_parameters_to_bindings
from aihwkit.simulator.tiles.analog import AnalogTile

RULE = ("For every configuration class and every parameter of it (nested input/output, update and drift parameters "
        "included), set to every value of an alphabet: the object handed to the core holds exactly that value, a live "
        "tile built from it reports exactly that value, and every other parameter of the core is what it was; all "
        "members of enumerations; pairs of parameters; the order and content of device lists; and, with the random "
        "draws fixed, the hidden device parameters are those the documented formulas give.")
BOUNDS = {"quick": {"classes": "all with a core counterpart", "values per parameter": 3, "pairs": "adjacent fields"},
          "thorough": {"classes": "all with a core counterpart", "values per parameter": 6, "pairs": "all fields"}}
ASSUMPTIONS = [
    "single precision core (the only one built here); values compare to float precision",
    "documented defaults are those of the pinned tree's dataclasses, listed in checks/k04_defaults.json",
    "up_down and pow_up_down: judged with the value 0 against the documented formula; for other values see the known "
    "finding",
]
FLOAT = RPUDataType.FLOAT
HERE = os.path.dirname(os.path.abspath(__file__))
PAIR = {"VectorUnitCell": 2, "ReferenceUnitCell": 2, "OneSidedUnitCell": 2, "DifferenceUnitCell": 2}
COMPOUNDS = ["VectorUnitCell", "ReferenceUnitCell", "OneSidedUnitCell", "TransferCompound", "BufferedTransferCompound",
             "ChoppedTransferCompound", "DynamicTransferCompound"]
DEVICES = ["IdealDevice", "ConstantStepDevice", "LinearStepDevice", "SoftBoundsDevice", "SoftBoundsPmaxDevice",
           "SoftBoundsReferenceDevice", "ExpStepDevice", "PowStepDevice", "PowStepReferenceDevice",
           "PiecewiseStepDevice"]
ROOTS = DEVICES + COMPOUNDS + ["MixedPrecisionCompound", "FloatingPointDevice", "SingleRPUConfig", "InferenceRPUConfig",
                               "FloatingPointRPUConfig", "DigitalRankUpdateRPUConfig", "UnitCellRPUConfig",
                               "WeightModifierParameter", "WeightClipParameter", "WeightRemapParameter"]
# parameters without a counterpart in the core's parameter object: they steer the Python side
SKIP = {"unit_cell_devices", "device", "tile_class", "tile_array_class", "runtime", "pre_post", "mapping", "clip",
        "remap", "modifier", "noise_model", "drift_compensation"}


def cls(name):
    for m in (C, CC, CD, P):
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


def make(name):
    c = cls(name)
    if name in COMPOUNDS:
        return c(unit_cell_devices=[CD.ConstantStepDevice(), CD.ConstantStepDevice()])
    if name == "MixedPrecisionCompound":
        return c(device=CD.ConstantStepDevice())
    if name == "UnitCellRPUConfig":
        return c(device=CC.VectorUnitCell(unit_cell_devices=[CD.ConstantStepDevice(), CD.ConstantStepDevice()]))
    return c()


def bind(obj):
    if hasattr(obj, "forward") or hasattr(obj, "tile_class"):
        return tile_parameters_to_bindings(obj, FLOAT)
    if hasattr(obj, "as_bindings"):
        return obj.as_bindings(FLOAT)
    from aihwkit.simulator.parameters.helpers import parameters_to_bindings
    return parameters_to_bindings(obj, FLOAT)


def leaves(obj, prefix=()):
    """(path, value) of every parameter the core has a counterpart of"""
    out = []
    ignore = set(getattr(obj, "bindings_ignore", [])) | SKIP
    for f in dataclasses.fields(obj):
        if f.name in ignore:
            continue
        v = getattr(obj, f.name)
        if dataclasses.is_dataclass(v):
            if getattr(v, "bindings_class", None) is not None:
                out += leaves(v, prefix + (f.name,))
        elif isinstance(v, (bool, int, float, enum.Enum, list)):
            out.append((prefix + (f.name,), v))
    return out


MAPPED = {"forward": "forward_io", "backward": "backward_io"}


def flat(b, prefix=()):
    """all readable attributes of a core parameter object"""
    out = {}
    for n in sorted(dir(b)):
        if n.startswith("_"):
            continue
        v = getattr(b, n)
        if callable(v):
            continue
        if isinstance(v, (bool, int, float, str, list, tuple)):
            out[prefix + (n,)] = v
        elif hasattr(type(v), "__members__"):
            out[prefix + (n,)] = v.name
        else:
            out.update(flat(v, prefix + (n,)))
    return out


def core_path(path):
    return (MAPPED.get(path[0], path[0]),) + tuple(path[1:])


def shown(v):
    """what the core must hold for a value set in Python"""
    if isinstance(v, enum.Enum):
        return "Copy" if type(v).__name__ == "WeightModifierType" and v.value == "None" else v.value
    return v


def eq(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and float(a) == float(b)
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b)) or (a > 3e38 and b > 3e38)


POS = [0.375, 0.625, 7.5, 2.0, 0.03125, 1e-4]


def values(path, v, tier):
    """values to try, all different from the present one"""
    n = 3 if tier == "quick" else 6
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, enum.Enum):
        return [m for m in type(v) if m != v]
    if isinstance(v, int):
        return [v + k for k in (1, 2, 5, 17, 64, 1000)[:n]]
    if isinstance(v, float):
        # a whole number given as an int is accepted for a float parameter
        return [x for x in POS if x != v][:n - 1] + [3]
    return [[0.5, 0.25], [0.75]] if path[-1].startswith("gamma") else [[0.5, 2.0, 0.25], [3.0]]


def setp(obj, path, v):
    for p in path[:-1]:
        obj = getattr(obj, p)
    setattr(obj, path[-1], v)


def getp(obj, path):
    for p in path:
        obj = getattr(obj, p)
    return obj


# what several parameters of the core are computed from, by the documentation
DERIVED = {"SoftBoundsPmaxDevice": {p: {"w_min", "w_max", "dw_min", "up_down"}
                                    for p in ("p_max", "alpha", "range_min", "range_max")}}
NOT_CORE = {"SoftBoundsPmaxDevice": {"p_max", "alpha", "range_min", "range_max", "w_min", "w_max", "dw_min", "up_down"}}


def not_in_core(name, path):
    return path[0] in NOT_CORE.get(name, ())


# ----- what the core prints about itself: parameter -> a pattern that holds its value ---------------------------
NUM = r"([-+.\deinf]+)"
PRINT = {
    "dw_min": r"dw_min:\s*%s", "dw_min_dtod": r"dw_min:.*dtod=%s", "dw_min_std": r"dw_min:.*ctoc=%s",
    "up_down": r"up_down:\s*%s", "up_down_dtod": r"up_down:.*dtod=%s",
    "w_max": r"w max:\s*%s", "w_max_dtod": r"w max:.*dtod=%s",
    "w_min": r"w min:\s*%s", "w_min_dtod": r"w min:.*dtod=%s",
    "reset": r"resets to:\s*%s", "reset_dtod": r"resets to:.*dtod=%s", "reset_std": r"resets to:.*ctoc=%s",
    "transfer_every": r"transfer_every.*:\s*%s", "n_reads_per_transfer": r"n_reads_per_transfer:\s*%s",
    "transfer_lr": r"transfer_lr:\s*%s", "fast_lr": r"fast_lr:\s*%s", "thres_scale": r"thres_scale:\s*%s",
    "buffer_granularity": r"buffer_granularity:\s*%s", "in_chop_prob": r"in_chop_prob:\s*%s",
    "out_chop_prob": r"out_chop_prob:\s*%s", "auto_momentum": r"auto_momentum:\s*%s",
    "pow_gamma": r"ps_gamma:\s*%s", "pow_gamma_dtod": r"ps_gamma:.*dtod=%s",
    "pow_up_down": r"ps_gamma_up_down:\s*%s", "pow_up_down_dtod": r"ps_gamma_up_down:.*dtod=%s",
    "reference_mean": r"reference_mean:\s*%s", "reference_std": r"reference_std:\s*%s",
    "refresh_every": r"refresh_every:\s*%s", "granularity": r"\bgranularity:\s*%s", "n_x_bins": r"n_x_bins:\s*%s",
    "n_d_bins": r"n_d_bins:\s*%s", "desired_bl": r"desired_BL:\s*%s", "buffer_cap": r"buffer_cap:\s*%s",
    "tail_weightening": r"tail_weightening:\s*%s",
}


def printed(text, key, dflt=None):
    m = re.search(PRINT[key] % NUM, text)
    return float(m.group(1)) if m else dflt


# ----- cases ---------------------------------------------------------------------------------------------------
def cases(tier):
    for name in ROOTS:
        yield {"kind": "default", "root": name}
        obj = make(name)
        paths = [p for p, _v in leaves(obj)]
        for path, v in leaves(obj):
            yield {"kind": "leaf", "root": name, "path": list(path), "tier": tier}
        for i, a in enumerate(paths):
            for j in (range(i + 1, len(paths)) if tier != "quick" else range(i + 1, min(i + 3, len(paths)))):
                yield {"kind": "pair", "root": name, "paths": [list(a), list(paths[j])]}
    for name in DEVICES[1:]:
        for k in (SEEDS[:3] if tier == "quick" else SEEDS):
            yield {"kind": "hidden", "device": name, "seed": k, "tier": tier}
    for name in COMPOUNDS:
        for order in (0, 1):
            for n in ((2,) if name in ("ReferenceUnitCell", "OneSidedUnitCell", "BufferedTransferCompound",
                                       "ChoppedTransferCompound", "DynamicTransferCompound") else (2, 3)):
                yield {"kind": "list", "root": name, "order": order, "n": n}
    for dev in DEVICES:
        if dev != "IdealDevice":
            yield {"kind": "mp", "device": dev}


def same_but(rec, key, name, before, after, allowed, what):
    bad = [p for p in sorted(set(before) | set(after)) if p not in allowed and
           not (p in before and p in after and eq(before[p], after[p]))]
    return rec.check(not bad, f"{key}:{name}:{'.'.join(what)}",
                     lambda: f"{name}: setting {'.'.join(what)} changed {bad[:4]}: "
                             f"{[(before.get(p), after.get(p)) for p in bad[:4]]}")


def live(name, obj):
    """what a tile built from this configuration reports of its parameters, and prints"""
    if name in ("WeightModifierParameter", "WeightClipParameter", "WeightRemapParameter", "FloatingPointDevice",
                "FloatingPointRPUConfig"):
        return None
    if name == "DigitalRankUpdateRPUConfig":
        obj.device = CC.MixedPrecisionCompound(device=CD.ConstantStepDevice())
    if hasattr(obj, "forward") and hasattr(obj, "tile_class"):
        cfg = obj
    elif name == "FloatingPointDevice":
        cfg = C.FloatingPointRPUConfig(device=obj)
    elif name in COMPOUNDS:
        cfg = C.UnitCellRPUConfig(device=obj)
    elif name == "MixedPrecisionCompound":
        cfg = C.DigitalRankUpdateRPUConfig(device=obj)
    else:
        cfg = C.SingleRPUConfig(device=obj)
    mcrng.reset(5)
    return AnalogTile(2, 2, cfg, bias=False)


def run(case, rec):
    globals()["k_" + case["kind"]](case, rec)


def k_default(case, rec):
    name = case["root"]
    with open(os.path.join(HERE, "k04_defaults.json")) as f:
        want = json.load(f)[name]
    obj = make(name)
    got = {".".join(p): shown(v) for p, v in leaves(obj)}
    for k, v in want.items():
        if not rec.check(k in got and eq(got[k], v) if k in got and got[k] is not None and v is not None
                         else got.get(k, "missing") == v, f"default:{name}:{k}",
                         lambda: f"{name}.{k}: documented default {v}, is {got.get(k, 'missing')}"):
            return
    core = flat(bind(obj))
    for p, v in leaves(obj):
        if not_in_core(name, p) or v is None:
            continue
        cp = core_path(p)
        if not rec.check(cp in core and eq(core[cp], shown(v)), f"unset:{name}:{'.'.join(p)}",
                         lambda: f"{name}.{'.'.join(p)}: unset parameter is {shown(v)} in Python and "
                                 f"{core.get(cp, 'missing')} in the core"):
            return
        rec.step()
    rec.state((name, len(core)))
    rec.trace()


REJECTED = ("is not implemented", "not supported", "only", "should", "needs", "larger", "must", "expect", "Expect",
            "cannot", "Cannot", "Please", "invalid", "too", "cover", "not of the same", "not match", "exactly")


def k_leaf(case, rec):
    name, path = case["root"], tuple(case["path"])
    base = make(name)
    v0 = getp(base, path)
    before = flat(bind(base))
    for v in values(path, v0, case["tier"]):
        obj = make(name)
        setp(obj, path, v)
        want = copy.deepcopy(obj)
        try:
            b = bind(obj)
        except (RuntimeError, AttributeError) as e:
            if isinstance(v, enum.Enum) and not hasattr(
                    getattr(rpu_base.tiles, type(v).__name__, None) or
                    getattr(rpu_base.devices, type(v).__name__, None), v.value):
                rec.note(f"{name}.{'.'.join(path)}={v.name}: only for other tiles, rejected")
                continue
            raise
        core = flat(b)
        cp = core_path(path)
        rec.step()
        rec.state((name, path, str(v)))
        if not rec.check(eq_dc(obj, want), f"mutates:{name}:{'.'.join(path)}",
                         lambda: f"{name}: translating the parameters changed the configuration itself"):
            return
        allowed = {cp}
        if not_in_core(name, path):
            allowed = {(x,) for x in DERIVED[name].get(path[0], ())} or {cp}
            if not pmax(rec, name, obj, core):
                return
        elif not rec.check(cp in core and eq(core[cp], shown(v)), f"value:{name}:{'.'.join(path)}",
                           lambda: f"{name}.{'.'.join(path)} = {v}: the core has {core.get(cp, 'nothing')}"):
            return
        if not same_but(rec, "other", name, before, core, allowed, path):
            return
        rec.trace()
    if name in ("WeightModifierParameter", "WeightClipParameter", "WeightRemapParameter"):
        return
    vals = values(path, v0, case["tier"])
    for v in (vals if isinstance(v0, enum.Enum) else vals[:1]):
        alive(case, rec, name, path, v)


def eq_dc(a, b):
    return re.sub(" at 0x[0-9a-f]+", "", repr(a)) == re.sub(" at 0x[0-9a-f]+", "", repr(b))


# what a tile in use documents to settle itself: resolutions given as a number of steps become the width of a step (of
# the range given by the bound), a perfect product is its own kind of product, transposed products have no bound
# management, and the update management is always on with the pulse length management
SETTLED = {"inp_res", "out_res", "res", "x_res_implicit", "d_res_implicit", "is_perfect", "mv_type"}
WITH = {"inp_bound": "inp_res", "out_bound": "out_res"}


def alive(case, rec, name, path, v):
    """the parameters as a live tile reports them"""
    if path[-1] in SETTLED or path == ("backward", "bound_management"):
        return
    obj, ref = make(name), make(name)
    if path == ("update", "update_management"):
        obj.update.update_bl_management = ref.update.update_bl_management = False
    setp(obj, path, v)
    t0 = live(name, ref)
    if t0 is None:
        return
    try:
        t = live(name, obj)
    except Exception as e:  # a combination the library rejects
        rec.note(f"{name}.{'.'.join(path)}={v!r}: rejected ({type(e).__name__})")
        return
    txt = str(t.tile)
    if hasattr(obj, "tile_class") and path[0] in ("forward", "backward", "update"):
        par, par0 = t.tile.get_meta_parameters(), t0.tile.get_meta_parameters()
        core, core0 = flat(par), flat(par0)
        cp = core_path(path)
        rec.step()
        if cp in core:
            rec.check(eq(core[cp], shown(v)), f"live:{name}:{'.'.join(path)}",
                      lambda: f"{name}.{'.'.join(path)} = {v}: the tile in use has {core[cp]}")
            same_but(rec, "live-other", name, core0, core, {cp, (cp[0], WITH.get(path[-1]))},
                      path)
    if name in DEVICES + ["MixedPrecisionCompound"] + COMPOUNDS and len(path) == 1 and not isinstance(v, (list, bool)):
        key = path[0]
        own = [k for k in PRINT if any(p == (k,) for p, _x in leaves(obj))]
        first = txt.split("Device Parameter 0")[0].split("Device:")[-1] if name in COMPOUNDS else txt
        first0 = str(t0.tile)
        first0 = first0.split("Device Parameter 0")[0].split("Device:")[-1] if name in COMPOUNDS else first0
        for k in own:
            if not_in_core(name, (key,)) and k in ("w_min", "w_max", "dw_min", "up_down"):
                continue
            a, b = printed(first0, k), printed(first, k)
            if k == key:
                if b is not None:
                    rec.step()
                    rec.check(abs(b - float(v)) <= 1e-4 * max(1, abs(float(v))), f"print:{name}:{key}",
                              lambda: f"{name}.{key} = {v}: the tile in use describes itself with {b}")
            elif a is not None and b is not None:
                rec.check(a == b, f"print-other:{name}:{key}",
                          lambda: f"{name}: setting {key} changed {k} from {a} to {b}")


def pmax(rec, name, obj, core):
    b = (obj.range_max - obj.range_min) / (1 - math.exp(-obj.p_max * obj.alpha))
    want = {"w_min": obj.range_min, "w_max": obj.range_min + b, "dw_min": b * obj.alpha,
            "up_down": 1 + 2 * obj.range_min / b}
    return all([rec.check(mcrt.close(core[(k,)], x, 1e-5, 1e-7), f"pmax:{k}",
                          lambda: f"{name}: {k} should be {x}, the core has {core[(k,)]}") for k, x in want.items()])


def k_pair(case, rec):
    """two parameters set together, in both orders"""
    name = case["root"]
    pa, pb = (tuple(p) for p in case["paths"])
    base = make(name)
    va, vb = values(pa, getp(base, pa), "quick")[0], values(pb, getp(base, pb), "quick")[0]
    if isinstance(va, float) and va == vb and isinstance(vb, float):
        vb = values(pb, getp(base, pb), "quick")[1]
    before = flat(bind(base))
    for first in (0, 1):
        obj = make(name)
        for p, v in (((pa, va), (pb, vb)) if not first else ((pb, vb), (pa, va))):
            setp(obj, p, v)
        try:
            core = flat(bind(obj))
        except AttributeError:
            return
        rec.step()
        allowed = set()
        for p, v in ((pa, va), (pb, vb)):
            if not_in_core(name, p):
                allowed |= {(x,) for x in DERIVED[name].get(p[0], ())} | {core_path(p)}
                continue
            cp = core_path(p)
            allowed.add(cp)
            if not rec.check(eq(core.get(cp), shown(v)), f"pair:{name}:{'.'.join(p)}",
                             lambda: f"{name}: {'.'.join(pa)} = {va} and {'.'.join(pb)} = {vb}: the core has "
                                     f"{core.get(cp)} for {'.'.join(p)}"):
                return
        if not same_but(rec, "pair-other", name, before, core, allowed, pa + pb):
            return
    rec.state((name, pa, pb))
    rec.trace()


# ----- hidden parameters ----------------------------------------------------------------------------------------
BASE = {"dw_min": 0.01, "dw_min_dtod": 0.0, "up_down_dtod": 0.0, "w_max": 0.7, "w_max_dtod": 0.0, "w_min": -0.4,
        "w_min_dtod": 0.0, "dw_min_std": 0.0, "reset_std": 0.0, "write_noise_std": 0.0, "up_down": 0.0}
SETS = [{}, {"dw_min": 0.03}, {"dw_min_dtod": 0.2}, {"dw_min_dtod": 0.2, "dw_min_dtod_log_normal": True},
        {"up_down_dtod": 0.1}, {"w_max": 0.9}, {"w_min": -0.9}, {"w_max_dtod": 0.2}, {"w_min_dtod": 0.3},
        {"reset": 0.125}, {"reset_dtod": 0.25}, {"diffusion": 0.02}, {"diffusion": 0.02, "diffusion_dtod": 0.5},
        {"lifetime": 40.0}, {"lifetime": 40.0, "lifetime_dtod": 0.3}, {"lifetime": 0.5},
        {"dw_min_std": 0.4}, {"corrupt_devices_prob": 1.0}, {"corrupt_devices_prob": 1.0, "corrupt_devices_range": 0.05},
        {"perfect_bias": True, "w_max_dtod": 0.2, "dw_min_dtod": 0.2, "up_down_dtod": 0.1},
        {"up_down": 0.2}, {"up_down": -0.2},
        {"dw_min": 0.02, "dw_min_dtod": 0.3, "up_down_dtod": 0.2, "w_max_dtod": 0.2, "w_min_dtod": 0.1,
         "reset": 0.1, "reset_dtod": 0.2, "diffusion": 0.1}]
OWN = {
    "LinearStepDevice": [{}, {"gamma_up": 0.3}, {"gamma_down": 0.4}, {"gamma_up_dtod": 0.2},
                         {"gamma_down_dtod": 0.25}, {"gamma_up": -0.3, "gamma_down": -0.2},
                         {"gamma_up": -0.3, "gamma_down": -0.2, "allow_increasing": True},
                         {"gamma_up": 0.3, "gamma_down": 0.4, "mean_bound_reference": False, "w_max_dtod": 0.2,
                          "w_min_dtod": 0.1},
                         {"gamma_up": 0.3, "gamma_down": 0.4, "w_max_dtod": 0.2, "w_min_dtod": 0.1,
                          "dw_min_dtod": 0.2}],
    "PowStepDevice": [{}, {"pow_gamma": 2.0}, {"pow_gamma": 2.0, "pow_gamma_dtod": 0.2},
                      {"pow_gamma": 2.0, "pow_up_down_dtod": 0.1}, {"pow_up_down": 0.2}, {"pow_up_down": -0.3}],
    "SoftBoundsReferenceDevice": [{}, {"reference_mean": 0.1}, {"reference_std": 0.2},
                                  {"reference_mean": 0.1, "reference_std": 0.2}, {"slope_up_dtod": 0.2},
                                  {"slope_down_dtod": 0.2}, {"subtract_symmetry_point": True},
                                  {"subtract_symmetry_point": True, "up_down_dtod": 0.2, "reference_mean": 0.1}],
}
OWN["PowStepReferenceDevice"] = OWN["PowStepDevice"] + [{"reference_mean": 0.1}, {"reference_std": 0.2},
                                                        {"reference_mean": 0.1, "reference_std": 0.2}]
OWN_BASE = {"LinearStepDevice": {"gamma_up_dtod": 0.0, "gamma_down_dtod": 0.0},
            "PowStepDevice": {"pow_gamma_dtod": 0.0}, "PowStepReferenceDevice": {"pow_gamma_dtod": 0.0}}


SEEDS = [11, 12, 23, 57, 101, 333, 1001, 4242, 7]


def device_tile(dev, seed, bias=False):
    dev = copy.deepcopy(dev)
    dev.construction_seed = seed
    cfg = C.SingleRPUConfig(device=dev)
    L.plain_mapping(cfg)
    cfg.mapping.digital_bias = False
    mcrng.reset(3)
    return AnalogTile(2, 3, cfg, bias=bias)


def expected(name, p, g, shape, bias):
    """the hidden parameters by the documented formulas; g(parameter): the normal draws behind its variation"""
    one = np.ones(shape)
    dw = p["dw_min_dtod"] * g("dw_min_dtod")
    gain = np.exp(dw) if p.get("dw_min_dtod_log_normal") else 1 + dw
    beta = p["up_down"] + p["up_down_dtod"] * g("up_down_dtod")
    up, down = abs(p["dw_min"] * (gain + beta)) * one, abs(p["dw_min"] * (gain - beta)) * one
    mx = abs(p["w_max"] * (1 + p["w_max_dtod"] * g("w_max_dtod"))) * one
    mn = -abs(p["w_min"] * (1 + p["w_min_dtod"] * g("w_min_dtod"))) * one
    out = {"dwmin_up": up, "dwmin_down": down, "max_bound": mx, "min_bound": mn,
           "diffusion_rates": one * abs(p["diffusion"] * (1 + p["diffusion_dtod"] * g("diffusion_dtod"))),
           "reset_bias": one * p["reset"] + p["reset_dtod"] * g("reset_dtod")}
    if p["lifetime"] > 0:
        life = one * p["lifetime"] * (1 + p["lifetime_dtod"] * g("lifetime_dtod"))
        out["decay_scales"] = np.where(life > 1, 1 - 1 / np.where(life > 1, life, 1), 0.0)
    else:
        out["decay_scales"] = one
    if p["perfect_bias"] and bias:
        out["dwmin_up"][:, -1] = out["dwmin_down"][:, -1] = p["dw_min"]
        for k in ("max_bound", "min_bound"):  # no variability and no bound that matters
            out[k][:, -1] = np.nan
    if name == "LinearStepDevice":
        su = p["gamma_up"] + p["gamma_up_dtod"] * g("gamma_up_dtod")
        sd = p["gamma_down"] + p["gamma_down_dtod"] * g("gamma_down_dtod")
        if not p["allow_increasing"]:
            su, sd = abs(su), abs(sd)
        bu, bd = (p["w_max"], p["w_min"]) if p["mean_bound_reference"] else (mx, mn)
        out["slope_up"], out["slope_down"] = -su * out["dwmin_up"] / bu, -sd * out["dwmin_down"] / bd
    elif name.startswith("PowStep"):
        dg = 1 + p["pow_gamma_dtod"] * g("pow_gamma_dtod")
        r = p["pow_up_down"] + p["pow_up_down_dtod"] * g("pow_up_down_dtod")
        out["gamma_up"], out["gamma_down"] = abs(p["pow_gamma"] * (dg + r)) * one, abs(p["pow_gamma"] * (dg - r)) * one
    if "Reference" in name:
        ref = p["reference_mean"] + p["reference_std"] * g("reference_std") * one
        if name == "SoftBoundsReferenceDevice":
            # slope = step / bound
            out["max_bound"] = out["max_bound"] / abs(1 + p["slope_up_dtod"] * g("slope_up_dtod"))
            out["min_bound"] = out["min_bound"] / abs(1 + p["slope_down_dtod"] * g("slope_down_dtod"))
            if p["subtract_symmetry_point"]:
                sp = (up - down) / (up / out["max_bound"] - down / out["min_bound"])
                ref = ref + sp
                out["reset_bias"] = out["reset_bias"] + sp
        out["reference"] = ref
    return out


# variation parameter -> (what it shows in, the draws implied by its value h when the mean is b and the spread is s)
SHOWS = {
    "dw_min_dtod": ("dwmin_up", lambda h, p, s: (h / p["dw_min"] - 1) / s),
    "up_down_dtod": ("dwmin_up", lambda h, p, s: (h / p["dw_min"] - 1) / s),
    "w_max_dtod": ("max_bound", lambda h, p, s: (h / p["w_max"] - 1) / s),
    "w_min_dtod": ("min_bound", lambda h, p, s: (h / p["w_min"] - 1) / s),
    "reset_dtod": ("reset_bias", lambda h, p, s: (h - p["reset"]) / s),
    "diffusion_dtod": ("diffusion_rates", lambda h, p, s: (h / p["diffusion"] - 1) / s),
    "lifetime_dtod": ("decay_scales", lambda h, p, s: (1 / (1 - h) / p["lifetime"] - 1) / s),
    "gamma_up_dtod": ("slope_up", lambda h, p, s: (-h * p["w_max"] / p["dw_min"] - p["gamma_up"]) / s),
    "gamma_down_dtod": ("slope_down", lambda h, p, s: (-h * p["w_min"] / p["dw_min"] - p["gamma_down"]) / s),
    "pow_gamma_dtod": ("gamma_up", lambda h, p, s: (h / p["pow_gamma"] - 1) / s),
    "pow_up_down_dtod": ("gamma_up", lambda h, p, s: (h / p["pow_gamma"] - 1) / s),
    "reference_std": ("reference", lambda h, p, s: (h - p["reference_mean"]) / s),
    "slope_up_dtod": ("max_bound", lambda h, p, s: (p["w_max"] / h - 1) / s),
    "slope_down_dtod": ("min_bound", lambda h, p, s: (p["w_min"] / h - 1) / s),
}
NEEDS = {"diffusion_dtod": {"diffusion": 0.02}, "lifetime_dtod": {"lifetime": 40.0},
         "gamma_up_dtod": {"gamma_up": 5.0}, "gamma_down_dtod": {"gamma_down": 5.0}}


def draws_of(rec, name, base, seed, fields):
    """the normal draws behind every variation parameter, each read off a device where nothing else varies; they must
    be draws of the stream the seed starts, different for different devices"""
    stream = np.sort(mcrng.gauss_list(seed).astype(np.float64))
    found = {}
    for par, (shows, inv) in SHOWS.items():
        if par not in fields:
            continue
        kw = dict(base)
        kw.update(NEEDS.get(par, {}))
        s = 0.05  # small: nothing gets near zero
        kw[par] = s
        for bias in (False, True):
            dev = cls(name)(**kw)
            h = V.hidden(device_tile(dev, seed, bias))[shows]
            p = {f: getattr(dev, f) for f in fields}
            with np.errstate(all="ignore"):
                g = inv(h, p, s)
            rec.step(g.size)
            ok = np.isfinite(g).all()
            near = ok and all(np.abs(stream[max(0, np.searchsorted(stream, x) - 1):np.searchsorted(stream, x) + 1] - x
                                     ).min(initial=9.0) < 2e-2 for x in g.ravel())
            if not rec.check(bool(ok and near and len(set(np.round(g.ravel(), 4))) == g.size),
                             f"hidden:{name}:draws:{par}",
                             lambda: f"{name} {par} = {s}: {shows} of the devices {h.round(6).tolist()} are not "
                                     f"normal draws with this spread: {g.round(3).tolist()}"):
                return None
            found[par, bias] = g
    return found


def k_hidden(case, rec):
    name, seed = case["device"], case["seed"]
    c = cls(name)
    fields = {f.name for f in dataclasses.fields(c) if f.name not in ("drift", "construction_seed")}
    base = {k: v for k, v in BASE.items() if k in fields}
    base.update(OWN_BASE.get(name, {}))
    sets = SETS + OWN.get(name, [])
    pm = name == "SoftBoundsPmaxDevice"
    if pm:
        for k in ("w_min", "w_max", "dw_min", "up_down"):
            del base[k]
        sets = [s for s in SETS if not set(s) & {"w_min", "w_max", "dw_min", "up_down"} and len(s) < 2]
        found = {}
    else:
        found = draws_of(rec, name, base, seed, fields)
        if found is None:
            return
    for s in sets:
        kw = dict(base)
        kw.update(s)
        dev = c(**kw)
        p = {k: getattr(dev, k) for k in fields}
        if pm:
            if any(k.endswith("dtod") for k in s):
                continue
            b = (dev.range_max - dev.range_min) / (1 - math.exp(-dev.p_max * dev.alpha))
            p.update(w_min=dev.range_min, w_max=dev.range_min + b, dw_min=b * dev.alpha,
                     up_down=1 + 2 * dev.range_min / b)
        bias = bool(s.get("perfect_bias"))
        h = V.hidden(device_tile(dev, seed, bias))
        rec.step(h["max_bound"].size)
        rec.state((name, seed, json.dumps(s, sort_keys=True)))
        what = ",".join(s) or "base"
        if s.get("corrupt_devices_prob"):
            lo, hi = h["min_bound"], h["max_bound"]
            r = p["corrupt_devices_range"]
            rec.check(bool((lo == hi).all()) and bool((abs(hi) <= r + 1e-6).all()) and bool((h["dwmin_up"] == 0).all())
                      and bool((h["dwmin_down"] == 0).all()), f"hidden:{name}:corrupt",
                      lambda: f"{name} {s}: every device should be stuck within {r}; bounds {lo.tolist()} {hi.tolist()}")
            continue
        zero = np.zeros(h["max_bound"].shape)
        want = expected(name, p, lambda k: found.get((k, bias), zero), zero.shape, bias)
        for k, w in want.items():
            if k not in h:
                rec.fail(f"hidden:{name}:no-{k}", f"{name}: the core lists no {k}: {sorted(h)}")
                return
            key = f"hidden:{name}:{k}:{what}"
            if (s.get("up_down") or pm) and k in ("dwmin_up", "dwmin_down", "slope_up", "slope_down"):
                # the documented bias of the two directions; what the code does instead is a known finding
                gap = (h["dwmin_up"] - h["dwmin_down"]) / p["dw_min"]
                one_sided = np.maximum(h["dwmin_up"], h["dwmin_down"]) / p["dw_min"]
                as_known = mcrt.close(gap, np.full(gap.shape, p["up_down"]), 1e-4, 1e-5) and \
                    mcrt.close(one_sided, np.ones(gap.shape), 1e-4, 1e-5)
                key = f"hidden:up_down:{'one-sided' if as_known else k}"
            elif s.get("pow_up_down") and k in ("gamma_up", "gamma_down"):
                gap = (h["gamma_up"] - h["gamma_down"]) / p["pow_gamma"]
                one_sided = np.maximum(h["gamma_up"], h["gamma_down"]) / p["pow_gamma"]
                as_known = mcrt.close(gap, np.full(gap.shape, p["pow_up_down"]), 1e-4, 1e-5) and \
                    mcrt.close(one_sided, np.ones(gap.shape), 1e-4, 1e-5)
                key = f"hidden:pow_up_down:{'one-sided' if as_known else k}"
            m = ~np.isnan(w)
            if k in ("max_bound", "min_bound") and not m.all():
                far = abs(h[k][~m]) > abs(w[m]).max()
                rec.check(bool(far.all()), f"hidden:{name}:perfect-bias-bound", lambda: f"{name} {s}: {k} {h[k].tolist()}")
            if not rec.check(mcrt.close(h[k][m], w[m], 5e-3 if len(s) > 2 else 1e-3, 1e-6), key,
                             lambda: f"{name} {s}: {k} should be {w.round(6).tolist()}, the core has "
                                     f"{h[k].round(6).tolist()}"):
                break
        rec.trace()


# ----- lists of devices -----------------------------------------------------------------------------------------
def k_list(case, rec):
    name, n = case["root"], case["n"]
    w = [0.3, 0.5, 0.5] if not case["order"] else [0.5, 0.3, 0.3]
    st = [0.01, 0.02, 0.02] if not case["order"] else [0.02, 0.01, 0.01]
    if name == "VectorUnitCell":
        w[2], st[2] = 0.7, 0.04
    devs = [CD.ConstantStepDevice(w_max=w[i], w_min=-w[i] / 2, dw_min=st[i], w_max_dtod=0, w_min_dtod=0, dw_min_dtod=0,
                                  up_down_dtod=0, reset=0.1 * i) for i in range(n)]
    if name == "OneSidedUnitCell":
        w, st = [w[0]] * 3, [st[0]] * 3
        devs = [copy.deepcopy(devs[0]) for _ in range(n)]
    if name == "TransferCompound" and n == 3:
        devs[2].reset = devs[1].reset
    dev = cls(name)(unit_cell_devices=devs)
    cfg = C.UnitCellRPUConfig(device=dev)
    before = repr(cfg)
    mcrng.reset(3)
    t = AnalogTile(2, 2, cfg, bias=False)
    h = V.hidden(t)
    rec.step(n)
    rec.state((name, case["order"], n))
    rec.check(repr(cfg) == before, f"list:mutates:{name}", lambda: f"{name}: building a tile changed its configuration")
    for i in range(n):
        for k, x in (("max_bound", w[i]), ("min_bound", -w[i] / 2), ("dwmin_up", st[i]), ("dwmin_down", st[i]),
                     ("reset_bias", devs[i].reset)):
            kk = f"{k}_{i}"
            if not rec.check(kk in h and mcrt.close(h[kk], np.full((2, 2), x), 1e-5, 1e-7), f"list:{name}:{k}",
                             lambda: f"{name}: device {i} of {n} is configured with {k} = {x}, the core has "
                                     f"{h.get(kk, np.zeros(1)).tolist()}"):
                return
    rec.check(f"max_bound_{n}" not in h, f"list:{name}:more", lambda: f"{name}: more than {n} devices: {sorted(h)}")
    rec.trace()


def k_mp(case, rec):
    """the device of a mixed-precision cell"""
    name = case["device"]
    dev = cls(name)(**{"w_max_dtod": 0.0, "w_min_dtod": 0.0, **({} if "Pmax" in name else {"w_max": 0.35, "w_min": -0.25,
                                                                                        "dw_min": 0.0125})})
    cfg = C.DigitalRankUpdateRPUConfig(device=CC.MixedPrecisionCompound(device=dev))
    mcrng.reset(3)
    t = AnalogTile(2, 2, cfg, bias=False)
    mcrng.reset(3)
    t1 = AnalogTile(2, 2, C.SingleRPUConfig(device=cls(name)(**dev.__dict__) if "Pmax" not in name else dev), bias=False)
    h, h1 = V.hidden(t), V.hidden(t1)
    rec.step()
    rec.state((name,))
    for k in ("max_bound", "min_bound"):
        kk = [x for x in h if x.startswith(k)]
        rec.check(len(kk) == 1 and mcrt.close(h[kk[0]], h1[k], 1e-6, 1e-7), f"mp:{name}:{k}",
                  lambda: f"mixed precision of {name}: {k} {[h[x].tolist() for x in kk]}, alone {h1[k].tolist()}")
    rec.trace()
