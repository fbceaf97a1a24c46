"""Device tiles with their hidden state: the parts of a cell, their bounds and how they combine."""
import copy

import numpy as np
import torch

import mcconf as Z
import mclib as L
import mcrng
from aihwkit.simulator.configs import PulseType, UpdateParameters, SingleRPUConfig
from aihwkit.simulator.tiles.analog import AnalogTile

NX, ND = 3, 2


def make(cfg, pt="STOCHASTIC_COMPRESSED", bl=3, draw=None, lr=20.0, quiet=False, nx=NX, nd=ND, seed=11, sure=True):
    """A tile whose updates saturate: with inputs of 1, -1 and 0 all pulses are certain (or there is none)."""
    mcrng.reset(3)
    if draw is not None:
        mcrng.const(draw)
    cfg = Z.seeded(cfg, seed)
    if quiet:
        Z.quieten(cfg)
    L.plain_mapping(cfg)
    cfg.mapping.digital_bias = False
    if sure:
        cfg.update = UpdateParameters(pulse_type=PulseType[pt], desired_bl=bl, update_management=False,
                                      update_bl_management=False)
    t = AnalogTile(nd, nx, cfg, bias=False)
    t.tile.set_learning_rate(lr)
    return t


def names(t):
    n = getattr(t, "_mc_names", None)
    if n is None:
        n = t._mc_names = {x: i for i, x in enumerate(t.tile.get_hidden_parameter_names())}
    return n


def hidden(t):
    """named parameters of the core as matrices (double)"""
    vals = t.tile.get_hidden_parameters().numpy().astype(np.float64)
    vals = vals.reshape(len(vals), t.tile.get_d_size(), t.tile.get_x_size())
    return {n: vals[i] for n, i in names(t).items()}


def visible(t):
    return t.tile.get_weights().numpy().astype(np.float64)


def coefs(dev):
    """weight of every hidden device in the visible weight; None: one plain device"""
    name = type(dev).__name__
    if name == "VectorUnitCell":
        n = len(dev.unit_cell_devices)
        return list(dev.gamma_vec) or [1.0 / n] * n
    if name == "ReferenceUnitCell":
        return list(dev.gamma_vec)
    if name == "OneSidedUnitCell":
        return [-1.0, 1.0]
    if "Transfer" in name:
        n = len(dev.unit_cell_devices)
        if len(dev.gamma_vec):
            return list(dev.gamma_vec)
        return [dev.gamma ** (n - 1 - k) if k < n - 1 else 1.0 for k in range(n)]
    return None


def parts(t, dev):
    """[(stored weight, lower bound, upper bound, reference, name suffix)]"""
    hp = hidden(t)
    c = coefs(dev)
    out = []
    for k in range(len(c) if c else 1):
        s = "_%d" % k if c else ""
        w = hp.get("persistent_weights" + s)
        if w is None:
            w = hp["hidden_weights" + s] if c else visible(t)
        out.append((w, hp["min_bound" + s], hp["max_bound" + s], hp.get("reference" + s), s))
    return out


def update(t, x, d):
    t.tile.update(torch.tensor(x, dtype=torch.float32), torch.tensor(d, dtype=torch.float32),
                  False, False, False, False)


def clone(t):
    return copy.deepcopy(t)
