"""L01: exporting an experiment and importing it back gives the same experiment."""
import contextlib
import io
import itertools
import math
import os

import torch
from torch import nn

import mcrt
import mclib as L
from m03 import settings
from torchvision.datasets import FashionMNIST, SVHN, MNIST
from aihwkit.cloud.converter.exceptions import ConversionError
from aihwkit.cloud.converter.v1 import i_mappings as IM
from aihwkit.cloud.converter.v1 import mappings as TM
from aihwkit.cloud.converter.v1.inferencing import BasicInferencingConverter, BasicInferencingResultConverter
from aihwkit.cloud.converter.v1.training import BasicTrainingConverter, BasicTrainingResultConverter
from aihwkit.cloud.converter.definitions.input_file_pb2 import TrainingInput
from aihwkit.cloud.converter.definitions.i_input_file_pb2 import InferenceInput
from aihwkit.cloud.converter.definitions.i_output_file_pb2 import InferencingOutput
from aihwkit.experiments.experiments.inferencing import BasicInferencing
from aihwkit.experiments.experiments.training import BasicTraining
from aihwkit.inference.compensation.drift import GlobalDriftCompensation
from aihwkit.inference.noise.custom import StateIndependentNoiseModel
from aihwkit.inference.noise.pcm import PCMLikeNoiseModel
from aihwkit.nn import AnalogConv2d, AnalogConv2dMapped, AnalogLinear, AnalogLinearMapped, AnalogSequential
from aihwkit.simulator import presets as PR
from aihwkit.simulator.configs import InferenceRPUConfig, SingleRPUConfig
from aihwkit.simulator.presets.web import OldWebComposerInferenceRPUConfig, WebComposerInferenceRPUConfig

RULE = ("Every network up to the bound over the supported layers and options, with every supported configuration, run "
        "setting, noise model and periphery setting, is converted to the transport format, serialised, parsed and "
        "converted back: same layer types, options, shapes, configuration and settings. Options the format has no "
        "field for are either refused or survive.")
BOUNDS = {"quick": {"layers": 3, "options": "all singles and pairs"},
          "thorough": {"layers": 4, "options": "all singles, pairs and triples"}}
ASSUMPTIONS = ["reals travel in single precision", "weights are not part of the transport format",
               "any exception counts as refusal"]
TRAIN_PRESETS = ["ReRamESPreset", "ReRamSBPreset", "CapacitorPreset", "EcRamPreset", "IdealizedPreset", "PCMPreset",
                 "MixedPrecisionReRamESPreset", "MixedPrecisionReRamSBPreset", "MixedPrecisionCapacitorPreset",
                 "MixedPrecisionEcRamPreset", "MixedPrecisionIdealizedPreset", "MixedPrecisionPCMPreset",
                 "TikiTakaReRamESPreset", "TikiTakaReRamSBPreset", "TikiTakaCapacitorPreset", "TikiTakaEcRamPreset",
                 "TikiTakaIdealizedPreset"]
INFER_PRESETS = {"InferenceRPUConfig": InferenceRPUConfig, "Web": WebComposerInferenceRPUConfig,
                 "OldWeb": OldWebComposerInferenceRPUConfig}
# class -> (constructor, supported options, options the format has no field for)
CONV = dict(kernel_size=[1, 2, 3, [2, 3]], stride=[1, 2, [1, 2]], padding=[0, 1, [1, 0]], dilation=[1, 2, [2, 1]],
            bias=[True, False], in_channels=[2, 3], out_channels=[2, 4])
LAYERS = {
    "AnalogLinear": (AnalogLinear, dict(in_features=[3, 1, 700], out_features=[2, 5], bias=[True, False]), {}),
    "AnalogConv2d": (AnalogConv2d, CONV, dict(padding_mode=["zeros", "circular"])),
    "AnalogLinearMapped": (AnalogLinearMapped, dict(in_features=[3, 1, 700], out_features=[2, 5],
                                                    bias=[True, False]), {}),
    "AnalogConv2dMapped": (AnalogConv2dMapped, CONV, dict(padding_mode=["zeros", "circular"])),
    "BatchNorm2d": (nn.BatchNorm2d, dict(num_features=[3, 1]),
                    dict(eps=[1e-5, 0.25], momentum=[0.1, 0.5], affine=[True, False],
                         track_running_stats=[True, False])),
    "Conv2d": (nn.Conv2d, CONV, dict(groups=[1, 2], padding_mode=["zeros", "circular"])),
    "ConvTranspose2d": (nn.ConvTranspose2d, dict(CONV, output_padding=[0, 1]), dict(groups=[1, 2])),
    "Flatten": (nn.Flatten, {}, dict(start_dim=[1, 2], end_dim=[-1, 2])),
    "Linear": (nn.Linear, dict(in_features=[3, 1], out_features=[2, 5], bias=[True, False]), {}),
    "MaxPool2d": (nn.MaxPool2d, dict(kernel_size=[2, 3], stride=[2, 1, None], padding=[0, 1], dilation=[1, 2],
                                     ceil_mode=[False, True]), dict(return_indices=[False, True])),
    "LeakyReLU": (nn.LeakyReLU, dict(negative_slope=[0.01, 0.25, -1.5]), {}),
    "LogSigmoid": (nn.LogSigmoid, {}, {}),
    "LogSoftmax": (nn.LogSoftmax, dict(dim=[1, 0, -1]), {}),
    "ReLU": (nn.ReLU, {}, {}),
    "Sigmoid": (nn.Sigmoid, {}, {}),
    "Softmax": (nn.Softmax, dict(dim=[1, 0, -1]), {}),
    "Tanh": (nn.Tanh, {}, {}),
}
ANALOG = [k for k in LAYERS if k.startswith("Analog")]
LOSSES = [nn.BCELoss, nn.CrossEntropyLoss, nn.MSELoss, nn.NLLLoss]
COMMON_INFO = dict(programming_noise_scale=[1.0, 0.25], read_noise_scale=[1.0, 0.5], drift_scale=[1.0, 0.75],
                   drift_compensation=[True, False], poly_first_order_coef=[1.9650, 0.5],
                   poly_second_order_coef=[-1.1731, 0.125], poly_constant_coef=[0.26348, 0.0625])


def tup(v):
    return tuple(v) if isinstance(v, list) else v


def preset(mode, name, omega=None):
    c = getattr(PR, name)() if mode == "train" else INFER_PRESETS[name]()
    if omega is not None:
        c.mapping.weight_scaling_omega = omega
    return c


def layer(mode, name, opts, cfg):
    cls, sup, _ = LAYERS[name]
    kw = {k: tup(v[0]) for k, v in sup.items()}
    kw.update({k: tup(v) for k, v in opts.items()})
    if name in ANALOG:
        kw["rpu_config"] = cfg
    return cls(**kw)


def pair(v):
    return (v, v) if isinstance(v, int) and not isinstance(v, bool) else v


def options(name, m):
    cls, sup, uns = LAYERS[name]
    out = {}
    for k in list(sup) + list(uns):
        v = getattr(m, k, None)
        if k == "bias":
            if name in ANALOG:
                v = any(l.get_weights()[1] is not None for l in m.analog_layers()) if hasattr(m, "analog_layers") \
                    else m.get_weights()[1] is not None
            else:
                v = m.bias is not None
        if k in ("kernel_size", "stride", "padding", "dilation", "output_padding") and name != "MaxPool2d":
            v = pair(v)
        if isinstance(v, list):
            v = tuple(v)
        out[k] = v
    return out


def config_of(m):
    t = next(m.analog_tiles())
    return t.rpu_config


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def same_value(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(b, (int, float)) and mcrt.close(float(a), float(b), 1e-6, 1e-9)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def compare_model(rec, mode, spec, old, new, where, cfg_want, tag=None):
    if not rec.check(type(new) is AnalogSequential and len(new) == len(old), "network:length", lambda: (where, new)):
        return
    for (name, opts), a, b in zip(spec, old, new):
        if not rec.check(type(a) is type(b), "network:type", lambda: (where, type(a), type(b))):
            continue
        oa, ob = options(name, a), options(name, b)
        for k in oa:
            key = f"silent:{name}.{k}" if k in LAYERS[name][2] else f"option:{name}.{k}"
            rec.check(same_value(oa[k], ob[k]), key, lambda: (where, k, oa[k], ob[k]))
        if name in ANALOG:
            sa, sb = [sorted((n, tuple(p.shape)) for n, p in m.named_parameters() if "analog_ctx" not in n)
                      for m in (a, b)]
            if tag is None:
                rec.check(sa == sb, "network:shapes", lambda: (where, sa, sb))
            cb = config_of(b)
            want = settings(cfg_want)
            have = settings(cb)
            rec.check(type(cb) is type(cfg_want), "config:type", lambda: (where, type(cb)))
            diff = [(k, want.get(k), have.get(k)) for k in sorted(set(want) | set(have))
                    if want.get(k) != have.get(k) and not near(want.get(k), have.get(k))]
            rec.check(not diff, tag or "config:content", lambda: (where, diff[:6]))
        else:
            sa = {k: tuple(v.shape) for k, v in a.state_dict().items()}
            sb = {k: tuple(v.shape) for k, v in b.state_dict().items()}
            if not any(k in LAYERS[name][2] for k in opts):
                rec.check(sa == sb, "network:shapes", lambda: (where, sa, sb))


def near(a, b):
    try:
        return mcrt.close(float(a), float(b), 1e-6, 1e-12)
    except (TypeError, ValueError):
        return False


def unsupported(spec):
    return [(n, k) for n, o in spec for k, v in o.items() if k in LAYERS[n][2] and v != LAYERS[n][2][k][0]]


def train_trip(rec, spec, preset_name="IdealizedPreset", omega=None, dataset=SVHN, batch=7, loss=nn.NLLLoss, epochs=3,
               lr=0.05, change=None):
    where = ("train", spec, preset_name, omega, dataset.__name__, batch, loss.__name__, epochs, lr, change)
    rec.state(*map(str, where))
    rec.step(2)
    cfg = preset("train", preset_name, omega)
    if change:
        setattr(getattr(cfg, change[0]), change[1], change[2])
    model = AnalogSequential(*[layer("train", n, o, cfg) for n, o in spec])
    exp = BasicTraining(dataset=dataset, model=model, batch_size=batch, loss_function=loss, epochs=epochs,
                        learning_rate=lr)
    conv = BasicTrainingConverter()
    try:
        proto = conv.to_proto(exp)
        data = proto.SerializeToString()
        back = TrainingInput()
        back.ParseFromString(data)
        new = conv.from_proto(back)
    except Exception as e:  # pylint: disable=broad-except
        if not (unsupported(spec) or change):
            rec.fail("refused", (where, repr(e)))
        rec.trace()
        return
    rec.check(exp.model is model and exp.batch_size == batch, "input-changed", lambda: where)
    for k in ("dataset", "batch_size", "loss_function", "epochs"):
        rec.check(getattr(new, k) == getattr(exp, k), "run:" + k, lambda: (where, getattr(new, k)))
    rec.check(same_value(float(lr), new.learning_rate), "run:learning_rate", lambda: (where, new.learning_rate))
    tag = f"silent:preset.{change[0]}" if change else None
    compare_model(rec, "train", spec, model, new.model, where, cfg, tag)
    rec.check(conv.to_proto(new).SerializeToString() == data, "second-export", lambda: where)
    rec.trace()


def infer_trip(rec, spec, preset_name="Web", nm=None, analog=None, dataset=SVHN, batch=7, loss=nn.NLLLoss,
               repeats=3, time=86400, template="tpl-1", remap=True, change=None):
    nm = dict({k: v[0] for k, v in COMMON_INFO.items()}, **dict(dict(device_id="pcm"), **(nm or {})))
    analog = analog or dict(output_noise_strength=0.05, adc=9, dac=7)
    where = ("infer", spec, preset_name, nm, analog, dataset.__name__, batch, loss.__name__, repeats, time, template,
             remap, change)
    rec.state(*map(str, where))
    rec.step(2)
    cfg = preset("infer", preset_name)
    if change:
        setattr(getattr(cfg, change[0]), change[1], change[2])
    model = AnalogSequential(*[layer("infer", n, o, cfg) for n, o in spec])
    exp = BasicInferencing(dataset=dataset, model=model, batch_size=batch, loss_function=loss,
                           weight_template_id=template, inference_repeats=repeats, inference_time=time,
                           remap_weights=remap)
    conv = BasicInferencingConverter()
    try:
        with quiet():
            proto = conv.to_proto(exp, dict(analog), dict(nm))
            data = proto.SerializeToString()
            back = InferenceInput()
            back.ParseFromString(data)
            new = conv.from_proto(back)
    except Exception as e:  # pylint: disable=broad-except
        if not (unsupported(spec) or change):
            rec.fail("refused", (where, repr(e)))
        rec.trace()
        return
    for k in ("dataset", "batch_size", "inference_repeats", "inference_time", "weight_template_id"):
        rec.check(getattr(new, k) == getattr(exp, k), "run:" + k, lambda: (where, getattr(new, k)))
    rec.check(new.loss_function is loss, "silent:inference.loss_function", lambda: (where, new.loss_function))
    rec.check(new.remap_weights == remap, "silent:inference.remap_weights", lambda: (where, new.remap_weights))
    # the configuration the information describes
    want = preset("infer", preset_name)
    if change:
        setattr(getattr(want, change[0]), change[1], change[2])
    want.forward.out_noise = analog["output_noise_strength"]
    want.forward.out_res = 1.0 / (2 ** analog["adc"] - 2)
    want.forward.inp_res = 1.0 / (2 ** analog["dac"] - 2)
    co = [nm["poly_constant_coef"], nm["poly_first_order_coef"], nm["poly_second_order_coef"]]
    model_cls = PCMLikeNoiseModel if nm["device_id"] == "pcm" else StateIndependentNoiseModel
    want.noise_model = model_cls(g_max=25.0, prog_coeff=co)
    if nm["device_id"] != "pcm":
        want.noise_model.drift_nu_mean = nm["drift_mean"]
        want.noise_model.drift_nu_std = nm["drift_std"]
    want.noise_model.prog_noise_scale = nm["programming_noise_scale"]
    want.noise_model.read_noise_scale = nm["read_noise_scale"]
    want.noise_model.drift_scale = nm["drift_scale"]
    want.drift_compensation = GlobalDriftCompensation() if nm["drift_compensation"] else None
    tag = f"silent:preset.{change[0]}" if change else None
    wn, want.noise_model = want.noise_model, None
    wd, want.drift_compensation = want.drift_compensation, None
    for l in new.model.analog_layers():
        for t in l.analog_tiles():
            c = t.rpu_config
            n = c.noise_model
            if rec.check(type(n) is type(wn), "noise:type", lambda: (where, type(n))):
                va, vb = vars(wn), vars(n)
                for k in va:
                    if isinstance(va[k], (int, float)):
                        rec.check(same_value(va[k], vb[k]), "noise:" + k, lambda: (where, va[k], vb[k]))
                    elif isinstance(va[k], (list, tuple)):
                        rec.check(mcrt.close(va[k], vb[k], 1e-6), "noise:" + k, lambda: (where, va[k], vb[k]))
            rec.check(type(c.drift_compensation) is type(wd), "noise:compensation",
                      lambda: (where, c.drift_compensation))
            c.noise_model = None
            c.drift_compensation = None
    compare_model(rec, "infer", spec, model, new.model, where, want, tag)
    with quiet():
        again = conv.to_proto(new, dict(analog), dict(nm))
    rec.check(again.SerializeToString() == data, "second-export", lambda: where)
    rec.check(conv._noise_model_from_proto(back.inferencing.noise_model_info).keys() >= set(COMMON_INFO),
              "noise:dict", lambda: where)
    d = conv._noise_model_from_proto(back.inferencing.noise_model_info)
    rec.check(all(same_value(nm[k], d[k]) for k in d), "noise:dict", lambda: (where, d))
    d = conv._analog_info_from_proto(back.inferencing.analog_info)
    rec.check(all(same_value(float(analog[k]), float(d[k])) for k in analog), "analog:dict", lambda: (where, d))
    with quiet():
        direct = conv.rpu_config_from_info(dict(analog), dict(nm))
    rec.check(type(direct) is WebComposerInferenceRPUConfig
              and same_value(direct.forward.out_noise, analog["output_noise_strength"])
              and same_value(direct.forward.out_res, 1.0 / (2 ** analog["adc"] - 2)), "info:direct", lambda: where)
    rec.trace()


def names_for(mode):
    return [n for n in LAYERS if mode == "infer" or n not in ("AnalogLinearMapped", "AnalogConv2dMapped")]


def trip(mode):
    return train_trip if mode == "train" else infer_trip


def run_options(case, rec):
    name, mode = case["name"], case["mode"]
    _, sup, uns = LAYERS[name]
    axes = {**sup, **uns}
    combos = {repr({}): {}}
    for n in range(1, case["size"] + 1):
        for ks in itertools.combinations(sorted(axes), n):
            for vs in itertools.product(*[axes[k] for k in ks]):
                o = dict(zip(ks, vs))
                if len(unsupported([(name, o)])) > 1:
                    continue
                combos[repr(sorted(o.items()))] = o
    for o in combos.values():
        try:
            layer(mode, name, o, preset(mode, "IdealizedPreset" if mode == "train" else "Web"))
        except (ValueError, RuntimeError, TypeError):
            continue
        spec = [(name, o)]
        trip(mode)(rec, spec + ([] if name in ANALOG else [("AnalogLinear", {})]))


def run_networks(case, rec):
    mode = case["mode"]
    names = names_for(mode)
    for rest in itertools.product(names, repeat=case["depth"] - 1):
        spec = [(n, {}) for n in (case["first"],) + rest]
        if mode == "infer" and not any(n in ANALOG for n, _ in spec):
            continue
        trip(mode)(rec, spec)


def run_presets(case, rec):
    spec = [("AnalogLinear", {}), ("ReLU", {}), ("AnalogConv2d", {})]
    if case["mode"] == "train":
        for omega in (None, 0.0, 0.3, 0.6, 1.0):
            train_trip(rec, spec, preset_name=case["preset"], omega=omega)
        for ch in (("mapping", "digital_bias", False), ("mapping", "learn_out_scaling", True),
                   ("mapping", "max_input_size", 3), ("forward", "out_noise", 0.5), ("backward", "inp_noise", 0.25),
                   ("update", "desired_bl", 3), ("update", "update_management", False)):
            c = preset("train", case["preset"])
            if getattr(getattr(c, ch[0]), ch[1]) != ch[2]:
                train_trip(rec, spec, preset_name=case["preset"], change=ch)
    else:
        spec += [("AnalogLinearMapped", {})] + [("AnalogConv2dMapped", {})] * (case["preset"] != "OldWeb")
        infer_trip(rec, spec, preset_name=case["preset"])
        for ch in (("mapping", "weight_scaling_omega", 0.4), ("clip", "fixed_value", 0.5), ("forward", "out_bound", 3.0),
                   ("modifier", "std_dev", 0.25)):
            infer_trip(rec, spec, preset_name=case["preset"], change=ch)


def run_settings(case, rec):
    spec = [("AnalogLinear", {}), ("LogSoftmax", {})]
    if case["mode"] == "train":
        for ds, b, loss, e, lr in itertools.product([SVHN, FashionMNIST], [1, 64], LOSSES, [1, 300],
                                                    [0.05, 1.0, 1e-6, 0.0]):
            train_trip(rec, spec, dataset=ds, batch=b, loss=loss, epochs=e, lr=lr)
    else:
        for ds, b, r, t, tpl in itertools.product([SVHN, FashionMNIST], [1, 64], [1, 25], [1, 86400, 31536000],
                                                  ["", "tpl-1", "x/y z\u00e9"]):
            infer_trip(rec, spec, dataset=ds, batch=b, repeats=r, time=t, template=tpl)
        for loss in LOSSES:
            infer_trip(rec, spec, loss=loss)
        infer_trip(rec, spec, remap=False)


def run_info(case, rec):
    spec = [("AnalogLinear", {})]
    axes = dict(COMMON_INFO)
    if case["device"] == "generic":
        axes = dict(axes, drift_mean=[0.05, 0.2], drift_std=[0.01, 0.3])
    keys = sorted(axes)
    base = {k: axes[k][0] for k in keys}
    for bits in itertools.product([0, 1], repeat=len(keys)):
        if not case["full"] and sum(bits) > 3:
            continue
        nm = dict(base, device_id=case["device"], **{})
        for k, b in zip(keys, bits):
            nm[k] = axes[k][b]
        infer_trip(rec, spec, preset_name=case["preset"], nm=nm)
    for o, adc, dac in itertools.product([0.0, 0.5], [2, 5, 9, 16], [2, 7, 12]):
        infer_trip(rec, spec, preset_name=case["preset"],
                   nm=dict(base, device_id=case["device"]), analog=dict(output_noise_strength=o, adc=adc, dac=dac))
    for bad in ("", "PCM", "reram"):
        nm = dict(base, device_id=bad, drift_mean=0.1, drift_std=0.1)
        conv = BasicInferencingConverter()
        try:
            with quiet():
                conv.rpu_config_from_info(dict(output_noise_strength=0.1, adc=9, dac=7), nm)
            rec.fail("device:accepted", bad)
        except Exception:  # pylint: disable=broad-except
            pass
        rec.state("device", bad)
    rec.trace()


class Sub(nn.ReLU):
    pass


def run_refuse(case, rec):
    """Content with no counterpart must not be converted."""
    lin = lambda c=None: AnalogLinear(3, 2, rpu_config=c or PR.IdealizedPreset())
    ilin = lambda c=None: AnalogLinear(3, 2, rpu_config=c or WebComposerInferenceRPUConfig())

    def refused(key, f):
        rec.state("refuse", key)
        rec.step(1)
        try:
            with quiet():
                f()
        except Exception:  # pylint: disable=broad-except
            rec.trace()
            return
        rec.fail("accepted:" + key, key)

    tc, ic = BasicTrainingConverter(), BasicInferencingConverter()
    info = (dict(output_noise_strength=0.1, adc=9, dac=7),
            dict({k: v[0] for k, v in COMMON_INFO.items()}, device_id="pcm"))
    T = lambda **k: tc.to_proto(BasicTraining(**dict(dict(dataset=SVHN, model=AnalogSequential(lin())), **k)))
    I = lambda **k: ic.to_proto(BasicInferencing(**dict(dict(dataset=SVHN, model=AnalogSequential(ilin())), **k)), *info)
    for tag, f, l in (("train", T, lin), ("infer", I, ilin)):
        refused(tag + ":dataset", lambda: f(dataset=MNIST))
        refused(tag + ":sequential", lambda: f(model=nn.Sequential(nn.Linear(2, 2))))
        refused(tag + ":bare", lambda: f(model=l()))
        refused(tag + ":dropout", lambda: f(model=AnalogSequential(l(), nn.Dropout(0.5))))
        refused(tag + ":subclass", lambda: f(model=AnalogSequential(l(), Sub())))
        refused(tag + ":nested", lambda: f(model=AnalogSequential(l(), AnalogSequential(l()))))
        refused(tag + ":config", lambda: f(model=AnalogSequential(l(SingleRPUConfig()))))
    refused("train:loss", lambda: T(loss_function=nn.L1Loss))
    refused("train:mapped", lambda: T(model=AnalogSequential(AnalogLinearMapped(3, 2, rpu_config=PR.PCMPreset()))))

    def two():
        m = AnalogSequential(ilin(), ilin(InferenceRPUConfig()))
        p = ic.to_proto(BasicInferencing(dataset=SVHN, model=m), *info)
        ic.from_proto(p)
    refused("infer:two-configs", two)


def run_results(case, rec):
    from aihwkit.cloud.converter.definitions.output_file_pb2 import TrainingOutput
    rc = BasicInferencingResultConverter()
    vals = [0.0, 0.5, 97.25]
    for n in range(0, 4):
        for combo in itertools.product(vals, repeat=2):
            for partial in (True, False):
                res = [dict(t_inference=float(i), avg_accuracy=combo[0], std_accuracy=combo[1], avg_error=100 - combo[0],
                            avg_loss=combo[1] / 2) for i in range(n)]
                body = dict(inference_repeat=n + 1, is_partial=partial, time_elapsed=2.5, inference_results=res)
                p = rc.to_proto({"inference_runs": body})
                q = InferencingOutput()
                q.ParseFromString(p.SerializeToString())
                rec.check(rc.to_json_from_pb(q) == {"inference_runs": body}, "result:json",
                          lambda: (body, rc.to_json_from_pb(q)))
                rec.check(rc.result_from_proto(q) == res, "result:list", lambda: (res,))
                rec.state("infer", n, combo, partial)
                rec.step(1)
    tr = BasicTrainingResultConverter()
    for n, m in itertools.product(range(4), range(3)):
        p = TrainingOutput()
        want = []
        for i in range(n):
            e = p.epochs.add()
            e.epoch = i
            d = {}
            for j in range(m):
                a = e.metrics.add()
                a.name, a.f = f"m{j}", 0.25 * i + j
                d[a.name] = a.f
            want.append({"epoch": i, "metrics": d})
        rec.check(tr.from_proto(p)["epochs"] == want, "result:epochs", lambda: (want, tr.from_proto(p)))
        rec.state("train", n, m)
        rec.step(1)
    rec.trace()


def run(case, rec):
    globals()["run_" + case["what"]](case, rec)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for mode in ("train", "infer"):
        for n in names_for(mode):
            out.append(dict(what="options", mode=mode, name=n, size=3 if deep else 2))
            for d in range(1, 5 if deep else 4):
                out.append(dict(what="networks", mode=mode, first=n, depth=d))
        out.append(dict(what="settings", mode=mode))
    out += [dict(what="presets", mode="train", preset=p) for p in TRAIN_PRESETS]
    out += [dict(what="presets", mode="infer", preset=p) for p in INFER_PRESETS]
    out += [dict(what="info", device=d, preset=p, full=deep) for d in ("pcm", "generic") for p in INFER_PRESETS]
    out += [dict(what="refuse"), dict(what="results")]
    return out
