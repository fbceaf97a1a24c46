"""Writes /verif/properties.jsonl.  The properties are maintained here, in a readable form."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
S = "src/aihwkit/"
C = "src/rpucuda/"
P = []


def prop(pid, title, statement, over, quant, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})


prop("T01", "Ideal analog layers compute exactly what the digital layer computes",
     "With a perfect (noise-free, unbounded) hardware configuration, every analog layer returns, up "
     "to float rounding, the output, the input gradient and - after one optimizer step - the weights "
     "and bias that the corresponding PyTorch layer returns for the same weights and inputs. This "
     "holds for every layer option, whatever sequence of input shapes and batch sizes the same layer "
     "instance has processed before, and for every way the layer can store its bias.",
     ["configurations", "histories", "inputs"],
     "All combinations of layer kind (linear, 1d/2d/3d convolution, plain and mapped), stride, "
     "padding, dilation, groups, bias placement, indexed or unfolded convolution and tile "
     "implementation, and all sequences of input shapes / train / eval calls up to the depth bound.",
     "The tests compare one fixed shape per layer and option; index tables and buffers cached between "
     "calls are only wrong for the second shape.",
     [S + "nn/modules/linear.py", S + "nn/modules/conv.py", S + "nn/modules/conv_mapped.py",
      S + "nn/modules/linear_mapped.py", S + "simulator/tiles/periphery.py",
      S + "simulator/tiles/functions.py", C + "rpu.cpp"],
     [("fold index cache of convolutions", S + "nn/modules/conv.py recalculate_indexes"),
      ("autograd bridge", S + "simulator/tiles/functions.py AnalogFunction"),
      ("SGD update through the optimizer", S + "optim/analog_optimizer.py")])

prop("T02", "An optimizer step applies every accumulated gradient exactly once",
     "For any interleaving of forward, backward, gradient reset and optimizer steps, an optimizer "
     "step changes the weights of an ideal analog layer by exactly minus the current learning rate "
     "of its parameter group times the sum of the gradients of all backward passes since the last "
     "step or gradient reset, and a step without pending gradients changes nothing. Digital "
     "parameters handled by the same optimizer follow the same rule.",
     ["histories", "configurations"],
     "All operation sequences over {train forward+backward, second forward before a backward, "
     "zero_grad, step, learning-rate change, eval forward} up to the depth bound, for all tile "
     "implementations, bias placements and shared/unshared layers.",
     "The tests run forward-backward-step loops only; lost or doubly applied gradients need other "
     "orders (accumulation, reset in between, several uses of one layer).",
     [S + "optim/analog_optimizer.py", S + "optim/context.py", S + "simulator/tiles/periphery.py",
      S + "simulator/tiles/functions.py"],
     [("gradient traces kept on the analog context", S + "optim/context.py AnalogContext"),
      ("analog update in step()", S + "optim/analog_optimizer.py AnalogOptimizerMixin.step")],
     [("analog_input / analog_grad_output", "pending outer products", S + "optim/context.py")])

prop("T03", "Only device updates change device weights",
     "Whatever ordinary tensor operations, module-wide casts or moves, copies, or digital optimizers "
     "a program applies to a model, the weights stored in its analog tiles do not change unless the "
     "program programs them or performs an analog update. The parameter that stands for a tile "
     "always shows either nothing or the current device weights in the documented orientation, and "
     "writing to what it returns never reaches the device.",
     ["histories", "programs"],
     "All sequences of parameter-view operations (read, in-place arithmetic on the result, cast, "
     "device move, deepcopy, digital optimizer step, state-dict export) up to the depth bound, in "
     "each view mode and tile implementation.",
     "The tests look at single operations; aliasing between a view and a device only shows after a "
     "particular pair of operations.",
     [S + "optim/context.py", S + "optim/weight_view.py", S + "simulator/tiles/rpucuda.py",
      S + "simulator/tiles/base.py"],
     [("weight view of the context", S + "optim/weight_view.py"),
      ("tile weight getters return copies", S + "simulator/tiles/base.py")])

prop("T04", "Observing a model never changes how it behaves afterwards",
     "Read-only requests - reading weights or hidden device parameters, exporting a state dict, "
     "printing or summarising the model, listing analog layers and tiles, reading the configuration, "
     "an evaluation-mode forward pass - leave every later training and inference result exactly as "
     "if they had not been made. With all random draws fixed, a run with such requests inserted is "
     "identical to the run without them.",
     ["histories", "configurations"],
     "All placements of each read-only operation into all bounded training and inference histories, "
     "for every tile implementation and device family.",
     "No test compares a run with its observed twin.",
     [S + "simulator/tiles/base.py", S + "simulator/tiles/periphery.py",
      S + "simulator/tiles/inference.py", S + "utils/analog_info.py", S + "nn/modules/base.py",
      C + "rpu_pulsed.cpp"],
     [("weights returned by value", S + "simulator/tiles/rpucuda.py"),
      ("test-mode forward", C + "rpu.cpp forward is_test")])

prop("T05", "Analog recurrent layers compute what the reference recurrences compute",
     "With ideal hardware, every analog recurrent network (plain, LSTM, combined-weight LSTM, GRU; "
     "any number of layers; one or two directions; given or default initial state) returns the same "
     "output sequence, final state and gradients as the textbook recurrence with the same weights. "
     "Splitting a sequence into chunks and feeding the returned state back gives the result of the "
     "unsplit sequence.",
     ["configurations", "inputs", "histories"],
     "All cell types, layer counts, directions, bias settings, sequence lengths, batch sizes and "
     "chunkings within the bounds.",
     "The tests check a few cell/length combinations and that the loss goes down.",
     [S + "nn/modules/rnn/cells.py", S + "nn/modules/rnn/layers.py", S + "nn/modules/rnn/rnn.py"],
     [("cell equations", S + "nn/modules/rnn/cells.py"),
      ("state threading and reversal", S + "nn/modules/rnn/layers.py")])

prop("W01", "Weights written to a layer are the weights read back",
     "After weights and bias are set on an analog layer, reading them returns the same values (as the "
     "layer's weight matrix) and the ideal response of the layer is the product with them, for every weight "
     "scaling configuration, bias placement and any earlier history of the layer. Reading with or "
     "without the digital scales, changing or folding scales and re-mapping never change the "
     "product of scale and device weight except where documented.",
     ["configurations", "histories", "inputs"],
     "All combinations of mapping options, bias placement and tile implementation; all sequences of "
     "set / get / rescale / remap operations up to the depth bound; weight matrices including zero, "
     "constant and extreme rows.",
     "The tests set random weights once on a fresh tile.",
     [S + "simulator/tiles/periphery.py", S + "simulator/parameters/mapping.py",
      S + "nn/modules/base.py", S + "simulator/tiles/array.py"],
     [("mapping scales", S + "simulator/tiles/periphery.py set_weights/get_weights"),
      ("out scaling", S + "simulator/tiles/periphery.py apply_out_scaling")])

prop("W02", "Splitting a layer over several tiles does not change what it computes",
     "A logical weight matrix that is split over an array of tiles because of a maximal tile size "
     "gives the same ideal outputs, input gradients, updates and read-back weights as the same "
     "matrix on one tile, and no tile exceeds the maximal size. This holds for every combination of "
     "matrix size and limits, including limits that do not divide the sizes.",
     ["configurations", "inputs"],
     "All matrix sizes and maximal input/output sizes within the bounds, bias placements, scaling "
     "options and convolution layouts.",
     "The tests use a handful of divisible sizes.",
     [S + "simulator/tiles/array.py", S + "nn/modules/linear_mapped.py",
      S + "nn/modules/conv_mapped.py"],
     [("split size computation and routing", S + "simulator/tiles/array.py")])

prop("W03", "Converting a model to analog and back preserves its function",
     "Converting a digital model to an ideal analog one converts exactly the supported layers that "
     "are not excluded, keeps the module tree, names, options, train/eval flags, parameters and the "
     "computed function, and leaves the source model untouched unless conversion in place was "
     "requested; converting back restores a digital model with the same function. Converting an "
     "already analog model, or one that shares a layer, follows the same rule.",
     ["programs", "configurations"],
     "All module trees up to the size bound over the supported and unsupported layer kinds, nested "
     "containers and excluded names, converted forth and back.",
     "The tests convert a few fixed networks (LeNet, ResNet).",
     [S + "nn/conversion.py", S + "nn/modules/base.py", S + "nn/modules/container.py"],
     [("recursive replacement", S + "nn/conversion.py convert_to_analog"),
      ("from_digital / to_digital", S + "nn/modules")])

prop("W04", "Weight clipping, modification and decay do what their settings say",
     "Weight clipping leaves every weight inside the configured bound and untouched if it already "
     "was; weight modification for training affects only the training passes until the next update, "
     "never the stored weights, and realises the configured transformation; weight decay and "
     "diffusion multiply or perturb weights by exactly the configured amount per step.",
     ["configurations", "histories", "inputs"],
     "All clip and modifier types with their parameters on a weight alphabet including boundary "
     "values; all short histories of train/eval forward, post-update step and update; all enumerated "
     "outcomes of the random draws.",
     "The tests check that outputs differ, not which weights are used in which pass.",
     [C + "weight_clipper.cpp", C + "weight_modifier.cpp", C + "rpu.cpp",
      S + "simulator/tiles/inference.py", S + "simulator/tiles/torch_tile.py",
      S + "simulator/parameters/inference.py"],
     [("clipper", C + "weight_clipper.cpp"), ("modifier", C + "weight_modifier.cpp"),
      ("forward/backward weight swap", C + "rpu.cpp modifyFBWeights")])

prop("W05", "Programming reaches its target and reading returns what is stored",
     "Programming a trainable tile by program-and-verify (program_weights or realistic writing) ends with "
     "outputs within the tolerance of those of the target weights: the established reference or, on request, "
     "the current weights, for unit vectors or given inputs, any start, once or repeatedly, with training and "
     "writing in between. It leaves scales, digital bias, learning rate and modes as they were. Realistic "
     "reading with noise-free products returns exactly what get_weights returns, for default and given "
     "inputs, every bias placement, scaling and layer kind, and changes nothing.",
     ["configurations", "histories", "inputs"],
     "All words over writing, programming and reading requests on every trainable tile kind, layer kind, bias "
     "placement and scaling.",
     "The tests program a freshly written tile once with the default arguments.",
     [S + "simulator/tiles/periphery.py", S + "simulator/tiles/custom.py", S + "nn/modules/base.py"],
     [("program_weights / read_weights", S + "simulator/tiles/periphery.py"),
      ("set_weights / get_weights with realistic", S + "nn/modules/base.py")])
prop("K01", "A checkpoint taken at any moment resumes the same run",
     "Saving a model (state dict, pickling or deep copy) at any point of any history and loading it "
     "into a freshly built model yields a model whose outputs, weights, scales, learning rates and "
     "hidden device state equal the original's, and which continues deterministic training or "
     "inference exactly like the original. Saving never disturbs the original, and copy and original "
     "never influence each other afterwards.",
     ["crash_points", "histories", "configurations"],
     "Every save point of every bounded training/inference history x every save method x every tile "
     "implementation and device family, followed by every bounded continuation.",
     "The tests save fresh or once-updated models of some devices and compare weights only.",
     [S + "simulator/tiles/base.py", S + "simulator/tiles/module.py", S + "nn/modules/base.py",
      S + "optim/analog_optimizer.py", C + "rpu_pulsed_device.cpp", C + "rpu_transfer_device.cpp"],
     [("tile pickling", S + "simulator/tiles/base.py __getstate__/__setstate__"),
      ("hidden parameter export", C + "rpu_pulsed.cpp"),
      ("extra state dump", C + "rpu.cpp dumpExtra/loadExtra")])

prop("K02", "Hidden device parameters round-trip and mean what their names say",
     "For every device type, writing back the hidden parameters that were read (possibly after "
     "further updates) restores the complete device state they describe, so that reading again gives "
     "the same values and further identical updates give identical weights; writing one named "
     "parameter changes only that parameter. Names and values always agree in number and order.",
     ["configurations", "histories"],
     "Every simple and compound device type x every bounded update history before and between the "
     "read and the write.",
     "The tests round-trip a few device types on fresh tiles.",
     [C + "rpu_pulsed_device.cpp", C + "rpu_simple_device.cpp", C + "rpu_vector_device.cpp",
      C + "rpu_transfer_device.cpp", C + "rpu_mixedprec_device.cpp", C + "rpu_onesided_device.cpp",
      S + "simulator/tiles/rpucuda.py", S + "simulator/tiles/base.py"],
     [("get/setDeviceParameter", C + "rpu_pulsed_device.cpp")])

prop("K03", "Hardware configurations are isolated values",
     "Building layers from a hardware configuration never changes that configuration, and changing "
     "the configuration object afterwards, or the configuration of one layer, never changes another "
     "layer. Every predefined configuration can be built, copied, printed and used, and two "
     "instances of it never share mutable parts.",
     ["programs", "configurations"],
     "Every predefined configuration and device preset; all bounded programs of build / mutate / "
     "copy / use steps over two layers sharing one configuration object.",
     "The presets are only smoke-tested; no test mutates a configuration that is in use elsewhere.",
     [S + "simulator/presets", S + "simulator/configs/configs.py", S + "simulator/configs/compounds.py",
      S + "simulator/parameters/helpers.py", S + "simulator/tiles/base.py"],
     [("deepcopy on tile construction", S + "simulator/tiles/base.py"),
      ("default factories", S + "simulator/configs")])

prop("K04", "Every configured parameter reaches the simulator core",
     "For every parameter of every device, input/output, update and modifier configuration, the "
     "value the user sets is the value the simulator core uses, and unset parameters keep their "
     "documented default. Changing any single parameter never changes another one in the core.",
     ["configurations"],
     "Every scalar parameter of every configuration class x a value alphabet different from the "
     "default, read back from the core's own description of itself.",
     "The tests set a handful of parameters and never read the core's copy.",
     [S + "simulator/parameters/helpers.py", S + "simulator/configs/devices.py",
      S + "simulator/configs/compounds.py", S + "simulator/rpu_base_src/rpu_base_devices.cpp"],
     [("field-by-field translation", S + "simulator/parameters/helpers.py parameters_to_bindings"),
      ("bindings", S + "simulator/rpu_base_src/rpu_base_devices.cpp")])

prop("D01", "Pulsed updates realise the outer-product gradient without bias",
     "For every pulse scheme, the average weight change of a pulsed update over all equally likely "
     "pulse outcomes equals minus the learning rate times the product of input and error, as long "
     "as no value is clipped; deterministic schemes realise it up to rounding to whole pulses. The number of coincidences never exceeds the pulse-train length, each changes the "
     "weight by one step in the direction opposite to the gradient, and zero inputs, zero errors or "
     "a zero learning rate change nothing.",
     ["inputs", "configurations"],
     "All values of a small input/error alphabet x learning rates x pulse types x "
     "pulse-train lengths x update management settings, with every outcome of the random pulses "
     "enumerated.",
     "The tests train and look at the loss; a bias of some per cent or a wrong sign in one corner "
     "is invisible to them.",
     [C + "rpu_weight_updater.cpp", C + "sparse_bit_line_maker.cpp", C + "dense_bit_line_maker.cpp",
      C + "rpu_pulsed_meta_parameter.cpp", C + "rpu_pulsed.cpp"],
     [("bit line makers", C + "sparse_bit_line_maker.cpp"),
      ("update management / scaling of probabilities", C + "rpu_pulsed_meta_parameter.cpp"),
      ("coincidence counting", C + "rpu_weight_updater.cpp")])

prop("D02", "Device weights never leave their bounds",
     "Whatever history of updates, programming, clipping, decay, diffusion, resets and transfers a "
     "device experiences, each stored weight of a bounded device stays within that device's own "
     "lower and upper bound, and visible weights stay within the range these bounds allow.",
     ["histories", "configurations"],
     "All operation sequences up to the depth bound over {up pulses, down pulses, set weights, "
     "decay, diffuse, reset, drift, batch update} for every bounded device type and device variation "
     "setting.",
     "The tests never push devices to saturation along mixed histories.",
     [C + "rpu_pulsed_device.cpp", C + "rpu_pulsed_device.h", C + "rpu_linearstep_device.cpp",
      C + "rpu_expstep_device.cpp", C + "rpu_powstep_device.cpp", C + "rpu_piecewisestep_device.cpp",
      C + "rpu_softbounds_reference_device.cpp", C + "rpu_powstep_reference_device.cpp"],
     [("saturation after each pulse", C + "rpu_*step_device.cpp"),
      ("onSetWeights clipping", C + "rpu_pulsed_device.cpp")])

prop("D03", "Each pulse moves a device by its documented response",
     "For every simple device type, one up or down pulse changes the weight by the device's "
     "documented step response at the present weight (constant, linear, soft-bound, exponential, "
     "power, piecewise), scaled by the device's own up/down step and clipped to its bounds. This "
     "holds at every weight a pulse history can reach and in every cell of a tile.",
     ["histories", "configurations"],
     "All pulse sequences up to the depth bound from a set of start weights, for all simple device "
     "types and a grid of their parameters.",
     "The tests check trend (weights change), not the response curve at every reachable state.",
     [C + "rpu_constantstep_device.cpp", C + "rpu_linearstep_device.cpp", C + "rpu_expstep_device.cpp",
      C + "rpu_powstep_device.cpp", C + "rpu_piecewisestep_device.cpp",
      C + "rpu_softbounds_reference_device.cpp", C + "rpu_powstep_reference_device.cpp",
      S + "simulator/configs/devices.py"],
     [("per-device update rule", C + "rpu_*step_device.cpp")])

prop("D04", "Tiki-Taka transfers happen on schedule, once per column, and land",
     "In a transfer compound, gradients accumulate on the fast device only, and after every "
     "configured number of updates exactly the configured number of next columns (or rows), in "
     "cyclic order, is read and transferred to the slower device with the configured transfer "
     "learning rate, buffering and momentum. Nothing else changes the slow device, nothing read is "
     "lost, and the schedule does not depend on how the updates are grouped into mini-batches.",
     ["histories", "configurations"],
     "All transfer configurations within the bounds (periods, reads per transfer, columns or rows, "
     "chained devices, buffered, chopped and dynamic variants, reset after transfer) x all bounded "
     "update histories with mini-batches of different size.",
     "The tests only train with the default transfer settings and look at the loss.",
     [C + "rpu_transfer_device.cpp", C + "rpu_buffered_transfer_device.cpp",
      C + "rpu_chopped_transfer_device.cpp", C + "rpu_dynamic_transfer_device.cpp",
      S + "simulator/tiles/transfer.py"],
     [("transfer counters", C + "rpu_transfer_device.cpp finishUpdateCycle/transfer"),
      ("buffer", C + "rpu_buffered_transfer_device.cpp")])

prop("D05", "A compound device's weight is always the reduction of its parts",
     "For every multi-device unit cell - vector, one-sided, reference-subtracting, transfer - the "
     "visible weight equals the configured reduction of the hidden device weights at every moment of "
     "every history. Each pulse reaches exactly the device(s) the update policy selects.",
     ["histories", "configurations"],
     "All unit-cell types, reduction settings and update policies x all bounded sequences of updates "
     "(positive, negative, mixed), weight programming and resets.",
     "The tests do not compare visible and hidden weights along histories.",
     [C + "rpu_vector_device.cpp", C + "rpu_onesided_device.cpp", C + "rpu_transfer_device.cpp",
      S + "simulator/configs/compounds.py"],
     [("reduceToWeights", C + "rpu_vector_device.cpp"),
      ("refresh", C + "rpu_onesided_device.cpp")])

prop("D06", "Mixed-precision updates conserve the gradient",
     "In mixed-precision devices the digital buffer plus what was written to the device always "
     "equals the accumulated (quantised) gradient: a cell is written only in multiples of its "
     "granularity once its own buffer reaches it, and the remainder stays in the buffer of the same "
     "cell. This holds for every binning of inputs and errors, batch size and row-by-row schedule.",
     ["histories", "configurations", "inputs"],
     "All binning settings for inputs and errors x update schedules x tile shapes (including "
     "non-square) x bounded update histories over a value alphabet.",
     "The tests use square tiles with one binning setting and look at the loss.",
     [C + "rpu_mixedprec_device_base.cpp", C + "rpu_mixedprec_device.cpp",
      C + "rpu_mixedprec_int_device.cpp"],
     [("gradient buffer", C + "rpu_mixedprec_device.cpp doDirectVectorUpdate"),
      ("transfer", C + "rpu_mixedprec_device_base.cpp forwardUpdate")])

prop("M01", "The analog product honours the converter model of the configuration",
     "With all noise off, forward and backward products equal the ideal product of the input after "
     "scaling, clipping and rounding to the DAC grid, followed by ADC clipping and rounding, for "
     "every resolution, bound, noise- and bound-management setting; batches are treated as their "
     "rows one by one, and a test-mode or training-mode product with the same settings agrees. "
     "Outputs never exceed the ADC range after undoing the input scale, and a perfect configuration "
     "gives the exact product.",
     ["configurations", "inputs"],
     "All combinations of converter resolutions, bounds, noise-management and bound-management modes "
     "and transposition on an alphabet of inputs and weights that covers zero, clipping and rounding "
     "borders, for the core and the PyTorch implementation.",
     "The tests cover single settings on random inputs with loose comparisons.",
     [C + "rpu_forward_backward_pass.cpp", C + "rpu_forward_backward_pass.h",
      S + "simulator/tiles/analog_mvm.py", S + "simulator/parameters/io.py"],
     [("core product", C + "rpu_forward_backward_pass.cpp"),
      ("torch product", S + "simulator/tiles/analog_mvm.py")])

prop("M02", "Analog noise has the configured strength and touches only its own term",
     "Each noise source of the analog product - input, output, weight, asymmetry, offset - adds to "
     "the ideal product exactly the documented function of the random draws and its configured "
     "strength, is absent when its strength is zero or the configuration is perfect, and is "
     "independent of the sample's position in a batch.",
     ["configurations", "inputs"],
     "Every single noise source and pairs of them x strengths x batch positions and tensor ranks, "
     "with the random draws fixed to enumerated values.",
     "The tests check variances of a few settings statistically.",
     [C + "rpu_forward_backward_pass.cpp", S + "simulator/tiles/analog_mvm.py"],
     [("noise stages", C + "rpu_forward_backward_pass.cpp")])

prop("M03", "Input ranges are learned, applied and calibrated consistently",
     "The input range of a layer clips and scales inputs so that values within it pass unchanged and "
     "values outside saturate at it; it changes only in training mode by the documented rule, with "
     "gradients that match the clipping. Calibration sets it from the data it saw and otherwise "
     "leaves the model exactly as it was.",
     ["histories", "configurations", "inputs"],
     "All input-range settings x all bounded histories of training/evaluation passes, decay, "
     "initialisation and calibration over an input alphabet.",
     "The tests check single calibrations.",
     [S + "simulator/tiles/periphery.py", S + "inference/calibration/calibration.py",
      S + "simulator/parameters/pre_post.py", S + "simulator/tiles/functions.py"],
     [("apply_input_range", S + "simulator/tiles/periphery.py"),
      ("calibration hooks", S + "inference/calibration/calibration.py")])

prop("I01", "Conductance conversion is exact and physical",
     "For every conductance converter, converting weights to conductances gives only conductances "
     "within the device range, and converting them back gives the original weights, for every weight "
     "matrix including all-zero and one-sided ones. Neither direction changes its arguments or "
     "depends on earlier conversions.",
     ["inputs", "configurations", "histories"],
     "All converters x parameter grids x all weight matrices over a value alphabet x repeated "
     "conversions.",
     "The tests convert a few random matrices.",
     [S + "inference/converter/conductance.py", S + "inference/converter/fusion.py"],
     [("convert_to_conductances / convert_back_to_weights", S + "inference/converter/conductance.py")])

prop("I02", "Inference time only ever acts on the programmed state",
     "Programming freezes target, noise and drift state; evaluating at any inference time gives a "
     "result that depends only on that programmed state, the time and fresh read noise - never on "
     "which other times were evaluated before - and with noise switched off reproduces the "
     "documented power law. Drift compensation rescales outputs by the ratio of the reference "
     "readout at programming to the present one, training mode is unaffected, and re-programming "
     "starts afresh.",
     ["histories", "configurations"],
     "All sequences of program / evaluate at time t / forward / set weights / train / reprogram up "
     "to the depth bound x noise models, compensation types and tile implementations.",
     "The tests drift once, forward in time.",
     [S + "simulator/tiles/inference.py", S + "simulator/tiles/inference_torch.py",
      S + "inference/noise", S + "inference/compensation", S + "nn/modules/base.py"],
     [("programmed weights and drift parameters", S + "simulator/tiles/inference.py"),
      ("baseline", S + "inference/compensation/base.py")])

prop("I03", "Noise models implement their documented statistics",
     "For each inference noise model, the programmed and drifted conductances are exactly the "
     "documented function of the target conductance, the time and the standard normal draws: zero "
     "draws give the documented mean, noise scales act linearly, conductances stay non-negative, "
     "drift never makes a conductance grow, and time zero means no drift.",
     ["inputs", "configurations"],
     "All noise models x parameter grids x a grid of conductances and times x an alphabet of normal "
     "draws.",
     "The tests check that weights change.",
     [S + "inference/noise/pcm.py", S + "inference/noise/custom.py", S + "inference/noise/reram.py",
      S + "inference/noise/hermes.py", S + "inference/noise/base.py"],
     [("noise formulas", S + "inference/noise")])

prop("Q01", "Quantizers return grid points, nearest ones, and stay put",
     "Every digital quantizer maps each value to the nearest point of its configured grid within the "
     "range, leaves grid points unchanged (so quantizing twice equals quantizing once), is monotone, "
     "and uses exactly the configured number of levels. Range estimators produce the documented "
     "range of the data they saw, and only while estimating.",
     ["inputs", "configurations", "histories"],
     "All quantizer types, bit widths, per-tensor and per-channel modes and range settings on dense "
     "value grids; all bounded sequences of estimate / fix / forward.",
     "The tests check a few values.",
     [S + "simulator/digital_low_precision/quantizers.py",
      S + "simulator/digital_low_precision/range_estimators.py",
      S + "simulator/digital_low_precision/quantization_manager.py"],
     [("quantizer forward", S + "simulator/digital_low_precision/quantizers.py"),
      ("quantization state machine", S + "simulator/digital_low_precision/quantization_manager.py")])

prop("L01", "Exporting an experiment and importing it back gives the same experiment",
     "Converting a training or inference experiment to its transport format and back yields an "
     "experiment with the same network structure, layer options, hardware configuration and run "
     "settings; unsupported content is rejected rather than changed silently.",
     ["programs", "configurations"],
     "All networks up to the size bound over the supported layer kinds and options, all supported "
     "configurations, optimiser and noise settings within an alphabet.",
     "The tests convert single fixed experiments and need a network for the rest.",
     [S + "cloud/converter/v1/training.py", S + "cloud/converter/v1/inferencing.py",
      S + "cloud/converter/v1/mappings.py", S + "cloud/converter/v1/i_mappings.py",
      S + "cloud/converter/v1/rpu_config_info.py"],
     [("protobuf mappings", S + "cloud/converter/v1/mappings.py")])

prop("L02", "Rejected operations leave everything as it was",
     "An operation that the library rejects with an error - wrong shapes, unsupported options, "
     "invalid settings, incompatible checkpoints - leaves weights, scales, hidden state, pending "
     "gradients and configuration unchanged, and the object stays usable. A checkpoint that cannot be "
     "loaded leaves each tile it does not fit unchanged (what PyTorch itself loads before it raises may "
     "stay), and an input range calibration whose data fails restores operating mode and settings.",
     ["fault_sequences", "histories"],
     "Every rejected request of an alphabet inserted at every position of bounded histories, for "
     "every tile implementation.",
     "The tests only assert that the error is raised.",
     [S + "simulator/tiles/base.py", S + "simulator/tiles/periphery.py", S + "optim/context.py",
      S + "simulator/rpu_base_src/rpu_base_tiles.cpp", S + "nn/modules/base.py"],
     [("argument validation before mutation", S + "simulator/rpu_base_src/rpu_base_tiles.cpp")])

prop("L03", "The analog matrix helper is linear algebra",
     "A matrix object placed on analog hardware multiplies vectors and matrices, from either side "
     "and transposed, like the plain matrix when the hardware is ideal (operands of the @ operator "
     "with two dimensions are batches of row vectors, as in the examples; the SciPy methods take "
     "columns). It is updated only by its own update operation, by the outer product given, and "
     "keeps its shape.",
     ["histories", "inputs"],
     "All bounded sequences of multiply / transpose-multiply / update / read over small shapes and a "
     "value alphabet.",
     "There is no test for every operator and shape.",
     [S + "linalg/matrix.py"], [("AnalogMatrix", S + "linalg/matrix.py")])

if __name__ == "__main__":
    with open(OUT, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
