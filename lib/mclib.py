"""Shared vocabulary of the checks: configurations, layers, tiny alphabets, plain reference code."""
import copy
import itertools

import torch
from torch import nn

import aihwkit.simulator.configs as C
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, SingleRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig,
    UnitCellRPUConfig, DigitalRankUpdateRPUConfig, MappingParameter, IOParameters,
    UpdateParameters, PulseType)
from aihwkit.simulator.configs.devices import (
    FloatingPointDevice, IdealDevice, ConstantStepDevice, LinearStepDevice, SoftBoundsDevice,
    SoftBoundsPmaxDevice, SoftBoundsReferenceDevice, ExpStepDevice, PowStepDevice,
    PowStepReferenceDevice, PiecewiseStepDevice)
from aihwkit.simulator.tiles.custom import CustomRPUConfig


# ---------------------------------------------------------------- ideal configurations
def cfg_fp():
    return FloatingPointRPUConfig()


def cfg_single():
    c = SingleRPUConfig(device=IdealDevice())
    c.forward.is_perfect = True
    c.backward.is_perfect = True
    c.update.pulse_type = PulseType.NONE
    return c


def cfg_constant_none():
    """pulsed device, perfect periphery, expectation update: deterministic, but a real device."""
    c = SingleRPUConfig(device=quiet(ConstantStepDevice()))
    c.forward.is_perfect = True
    c.backward.is_perfect = True
    return c


def cfg_inference():
    c = InferenceRPUConfig()
    c.forward.is_perfect = True
    c.drift_compensation = None
    return c


def cfg_torch():
    c = TorchInferenceRPUConfig()
    c.forward.is_perfect = True
    c.drift_compensation = None
    return c


def cfg_custom():
    c = CustomRPUConfig()
    c.forward.is_perfect = True
    c.backward.is_perfect = True
    return c


IDEAL = {"fp": cfg_fp, "single": cfg_single, "inference": cfg_inference, "torch": cfg_torch,
         "custom": cfg_custom}


def plain_mapping(c, digital_bias=True, **kw):
    """No weight scaling at all: device weights are the layer's weights."""
    c.mapping.digital_bias = digital_bias
    c.mapping.weight_scaling_omega = 0.0
    c.mapping.weight_scaling_columnwise = False
    c.mapping.learn_out_scaling = False
    c.mapping.out_scaling_columnwise = False
    c.mapping.max_input_size = 0
    c.mapping.max_output_size = 0
    for k, v in kw.items():
        assert hasattr(c.mapping, k), k
        setattr(c.mapping, k, v)
    return c


# ---------------------------------------------------------------- devices
def quiet(dev, **kw):
    """The device without any device-to-device or cycle-to-cycle variation."""
    for name in list(vars(dev)):
        if name.endswith("_dtod") or name.endswith("_std") and name not in ("reset_std",):
            v = getattr(dev, name)
            if isinstance(v, (int, float)):
                setattr(dev, name, 0.0)
    if hasattr(dev, "reset_std"):
        dev.reset_std = 0.0
    for k, v in kw.items():
        assert hasattr(dev, k), (dev, k)
        setattr(dev, k, v)
    return dev


SIMPLE_DEVICES = {
    "ConstantStep": ConstantStepDevice, "LinearStep": LinearStepDevice,
    "SoftBounds": SoftBoundsDevice, "SoftBoundsPmax": SoftBoundsPmaxDevice,
    "SoftBoundsReference": SoftBoundsReferenceDevice, "ExpStep": ExpStepDevice,
    "PowStep": PowStepDevice, "PowStepReference": PowStepReferenceDevice,
    "PiecewiseStep": PiecewiseStepDevice,
}


def fix_seed(dev, seed=11):
    """Give every (sub)device a fixed construction seed."""
    if hasattr(dev, "construction_seed"):
        dev.construction_seed = seed
    for name in ("device",):
        if hasattr(dev, name) and not callable(getattr(dev, name)):
            fix_seed(getattr(dev, name), seed + 1)
    for i, d in enumerate(getattr(dev, "unit_cell_devices", []) or []):
        fix_seed(d, seed + 2 + i)
    return dev


# ---------------------------------------------------------------- numbers
def grid(*shape, k=1, lo=-0.4, hi=0.4):
    """A deterministic, generic (no ties, no symmetries) tensor."""
    n = 1
    for s in shape:
        n *= s
    t = torch.tensor([((i * 7919 * k + 104729 * (k + 1)) % 1009) / 1008.0 for i in range(n)])
    return (lo + (hi - lo) * t).reshape(shape)


def products(**axes):
    names = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(names, vals))


def words(alphabet, depth):
    """All operation sequences of length 0..depth, maximal ones only (prefixes are visited on the
    way of each run)."""
    return itertools.product(alphabet, repeat=depth)


def tiles_of(module):
    from aihwkit.nn.modules.base import AnalogLayerBase
    out = []
    for m in module.modules():
        if isinstance(m, AnalogLayerBase):
            out += list(m.analog_tiles())
    return out
