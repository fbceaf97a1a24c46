"""The configuration zoo shared by history checks: one builder per tile implementation / device family,
with every bit of hidden state the library can have switched on somewhere."""
import mclib as L
from aihwkit.simulator.configs import (
    SingleRPUConfig, UnitCellRPUConfig, InferenceRPUConfig, TorchInferenceRPUConfig,
    DigitalRankUpdateRPUConfig, PulseType, UpdateParameters, IOParameters)
from aihwkit.simulator.configs.configs import (
    TorchInferenceRPUConfigIRDropT, QuantizedTorchInferenceRPUConfig)
from aihwkit.simulator.configs.compounds import (
    VectorUnitCell, ReferenceUnitCell, OneSidedUnitCell, TransferCompound, BufferedTransferCompound,
    ChoppedTransferCompound, DynamicTransferCompound, MixedPrecisionCompound)
from aihwkit.simulator.configs.devices import (
    ConstantStepDevice, SoftBoundsDevice, LinearStepDevice, ExpStepDevice,
    SoftBoundsReferenceDevice, PowStepDevice)
from aihwkit.simulator.parameters.enums import (
    WeightModifierType, WeightClipType, WeightRemapType, VectorUnitCellUpdatePolicy,
    NoiseManagementType, BoundManagementType)
from aihwkit.simulator.tiles.transfer import TorchTransferTile


def small(dev, **kw):
    """Big pulses: every history moves visibly."""
    dev.dw_min = 0.02
    for k, v in kw.items():
        assert hasattr(dev, k), k
        setattr(dev, k, v)
    return dev


def single(dev, **kw):
    c = SingleRPUConfig(device=dev)
    c.update.desired_bl = 5
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def unit(dev):
    c = UnitCellRPUConfig(device=dev)
    c.update.desired_bl = 5
    return c


def quiet_io(c):
    c.forward.is_perfect = True
    c.backward.is_perfect = True
    return c


def _inference(kind, full):
    c = {"inference": InferenceRPUConfig, "torch": TorchInferenceRPUConfig,
         "irdropt": TorchInferenceRPUConfigIRDropT, "quant": QuantizedTorchInferenceRPUConfig}[kind]()
    if full:
        c.modifier.type = WeightModifierType.ADD_NORMAL
        c.modifier.std_dev = 0.1
        c.modifier.rel_to_actual_wmax = False
        c.clip.type = WeightClipType.FIXED_VALUE
        c.clip.fixed_value = 0.35
        c.remap.type = WeightRemapType.CHANNELWISE_SYMMETRIC
        c.pre_post.input_range.enable = True
        c.pre_post.input_range.init_from_data = 2
        c.pre_post.input_range.decay = 0.01
        c.mapping.weight_scaling_omega = 0.6
        c.mapping.learn_out_scaling = kind == "inference"
        if kind == "inference":
            c.remap.type = WeightRemapType.NONE
    return c


def _transfer(cls, n=2, dev=SoftBoundsDevice, torch_tile=False, **kw):
    d = cls(unit_cell_devices=[small(dev()) for _ in range(n)], **kw)
    c = unit(d)
    if torch_tile:
        c.tile_class = TorchTransferTile
    return c


def zoo():
    z = {}
    z["fp"] = L.cfg_fp
    z["fp-dev"] = lambda: L.FloatingPointRPUConfig(device=L.FloatingPointDevice(
        diffusion=0.01, lifetime=20.0))
    z["ideal"] = lambda: single(L.IdealDevice(lifetime=30.0))
    for n, cls in L.SIMPLE_DEVICES.items():
        z[n] = lambda cls=cls, n=n: single(small(cls(lifetime=50.0, lifetime_dtod=0.2, diffusion=0.01))
                                            if hasattr(cls(), "lifetime") and n != "SoftBoundsPmax"
                                            else cls())
    z["ConstantStep-corrupt"] = lambda: single(small(ConstantStepDevice(
        corrupt_devices_prob=0.3, corrupt_devices_range=10, reset_std=0.2)))
    z["SoftBounds-writenoise"] = lambda: single(small(SoftBoundsDevice(write_noise_std=0.3)))
    z["ExpStep-pp"] = lambda: single(small(ExpStepDevice(write_noise_std=0.2)))
    z["PowStep-count"] = lambda: single(small(PowStepDevice(count_pulses=True)))
    z["LinearStep-mean"] = lambda: single(small(LinearStepDevice(mean_bound_reference=False)),
                                          update=UpdateParameters(pulse_type=PulseType.MEAN_COUNT,
                                                                  desired_bl=5))
    for pol in ("ALL", "SINGLE_FIXED", "SINGLE_SEQUENTIAL", "SINGLE_RANDOM"):
        z["Vector-" + pol] = lambda pol=pol: unit(VectorUnitCell(
            # three devices: the update index is never back at its start after a batch of two
            unit_cell_devices=[small(ConstantStepDevice()), small(SoftBoundsDevice()),
                               small(LinearStepDevice())],
            update_policy=VectorUnitCellUpdatePolicy[pol], first_update_idx=0,
            gamma_vec=[0.7, 0.5, 0.3]))
    z["Reference"] = lambda: unit(ReferenceUnitCell(unit_cell_devices=[
        small(SoftBoundsDevice()), small(SoftBoundsDevice())]))
    z["OneSided"] = lambda: unit(OneSidedUnitCell(unit_cell_devices=[small(ConstantStepDevice())]))
    z["OneSided-refresh"] = lambda: unit(OneSidedUnitCell(
        unit_cell_devices=[small(SoftBoundsDevice())], refresh_every=3, units_in_mbatch=False,
        refresh_upper_thres=0.1, refresh_lower_thres=0.0))
    z["Transfer"] = lambda: _transfer(TransferCompound, transfer_every=2, units_in_mbatch=False)
    z["Transfer-3"] = lambda: _transfer(TransferCompound, 3, transfer_every=1, units_in_mbatch=True,
                                        gamma=0.3)
    z["Transfer-row"] = lambda: _transfer(TransferCompound, transfer_every=2.5, units_in_mbatch=False,
                                          transfer_columns=False)
    z["Transfer-random"] = lambda: _transfer(TransferCompound, transfer_every=2, units_in_mbatch=False,
                                             random_selection=True, n_reads_per_transfer=2)
    z["Buffered"] = lambda: _transfer(BufferedTransferCompound, transfer_every=1, units_in_mbatch=False,
                                      thres_scale=0.3, momentum=0.2)
    z["Buffered-3"] = lambda: _transfer(BufferedTransferCompound, 3, transfer_every=1,
                                        units_in_mbatch=False, forget_buffer=False)
    z["Chopped"] = lambda: _transfer(ChoppedTransferCompound, transfer_every=1, in_chop_prob=0.5,
                                     out_chop_prob=0.3)
    z["Chopped-auto"] = lambda: _transfer(ChoppedTransferCompound, transfer_every=2, in_chop_prob=0.5,
                                          in_chop_random=False, auto_scale=True, auto_momentum=0.5,
                                          auto_granularity=10.0)
    z["Dynamic"] = lambda: _transfer(DynamicTransferCompound, transfer_every=1, in_chop_prob=0.5)
    z["Dynamic-corr"] = lambda: _transfer(DynamicTransferCompound, transfer_every=2, in_chop_prob=0.3,
                                          buffer_cap=0.5, forget_buffer=False,
                                          experimental_correct_accumulation=True)
    z["MixedPrec"] = lambda: DigitalRankUpdateRPUConfig(device=MixedPrecisionCompound(
        device=small(SoftBoundsDevice()), transfer_every=2))
    z["MixedPrec-bins"] = lambda: DigitalRankUpdateRPUConfig(device=MixedPrecisionCompound(
        device=small(ConstantStepDevice()), transfer_every=1, n_rows_per_transfer=1, n_x_bins=5,
        n_d_bins=7))
    z["TorchTransfer-chop"] = lambda: _transfer(ChoppedTransferCompound, torch_tile=True, transfer_every=1,
                                                in_chop_prob=0.5, units_in_mbatch=True)
    z["TorchTransfer-auto"] = lambda: _transfer(ChoppedTransferCompound, torch_tile=True, transfer_every=1,
                                                in_chop_prob=0.0, units_in_mbatch=True, auto_scale=True)
    z["TorchTransfer-dyn"] = lambda: _transfer(DynamicTransferCompound, torch_tile=True, transfer_every=1,
                                               units_in_mbatch=True, in_chop_prob=0.3)
    for kind in ("inference", "torch", "irdropt", "quant"):
        z[kind] = lambda kind=kind: _inference(kind, False)
        z[kind + "-full"] = lambda kind=kind: _inference(kind, True)
    z["custom"] = L.cfg_custom
    return z


def kind_of(name):
    return "inference" if name.split("-")[0] in ("inference", "torch", "irdropt", "quant") else "training"


def seeded(cfg, seed=11):
    """Fixed construction seeds for all devices of the configuration."""
    if hasattr(cfg, "device"):
        L.fix_seed(cfg.device, seed)
    return cfg


_NOISE = ("out_noise", "inp_noise", "w_noise", "out_noise_std", "dw_min_std", "diffusion", "diffusion_dtod",
          "write_noise_std", "reset_std", "asymmetric_noise", "v_offset_std", "w_read_asymmetry_std",
          "n_std")


def quieten(obj, seen=None):
    """Remove every draw that a step makes from a generator inside the core (instances keep their
    device-to-device variation): then a run is a function of the state only."""
    seen = seen if seen is not None else set()
    if id(obj) in seen or isinstance(obj, (int, float, str, type)) or obj is None:
        return obj
    seen.add(id(obj))
    if isinstance(obj, (list, tuple)):
        for o in obj:
            quieten(o, seen)
        return obj
    if not hasattr(obj, "__dict__"):
        return obj
    for n in _NOISE:
        if isinstance(getattr(obj, n, None), float) and not isinstance(getattr(type(obj), n, None), property):
            setattr(obj, n, 0.0)
    for n in ("inp_sto_round", "out_sto_round", "sto_round", "random_selection", "with_reset_prob"):
        if isinstance(getattr(obj, n, None), (bool, float)):
            setattr(obj, n, type(getattr(obj, n))(0))
    if isinstance(getattr(obj, "w_noise_type", None), object) and hasattr(obj, "w_noise_type"):
        obj.w_noise_type = type(obj.w_noise_type).NONE
    if getattr(obj, "update_policy", None) == VectorUnitCellUpdatePolicy.SINGLE_RANDOM:
        obj.update_policy = VectorUnitCellUpdatePolicy.SINGLE_SEQUENTIAL
    if hasattr(obj, "in_chop_random"):
        obj.in_chop_random = False
    if hasattr(obj, "out_chop_prob"):
        obj.out_chop_prob = 0.0
    if isinstance(obj, UpdateParameters) and obj.pulse_type not in (PulseType.NONE,):
        obj.pulse_type = PulseType.DETERMINISTIC_IMPLICIT
    if type(obj).__name__ == "WeightModifierParameter" and obj.type != WeightModifierType.NONE:
        obj.type = WeightModifierType.DISCRETIZE
        obj.res = 0.05
        obj.sto_round = False
    for v in list(vars(obj).values()):
        quieten(v, seen)
    return obj
