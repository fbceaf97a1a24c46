SMC = ("stateless model checking of the implementation: every bounded operation sequence is executed "
       "on the real code in lock step with a reference model; ")
NOTES["T01"] = ("model_checking", SMC + "model = the PyTorch layer",
                "exhaustive over the enumerated layer options and all words of input shapes x modes to the depth bound")
NOTES["T02"] = ("model_checking", SMC + "model = sum of autograd gradients since the last step/reset",
                "all words over the operation alphabet to the depth bound, every tile implementation")
NOTES["D01"] = ("model_checking", "stateless model checking: the complete choice tree of all random draws of a "
                "pulsed update is executed on the real core and averaged; deterministic schemes against the outer product",
                "exhaustive over all outcomes of the draws on a K-grid on which the averages are exact")
NOTES["D03"] = ("model_checking", "explicit-state search (BFS over pulse histories, states = device weights) on the real "
                "core, every transition compared with the documented response function",
                "all pulse patterns to the depth bound from a set of start weights")
NOTES["T03"] = ("model_checking", "stateless model checking: every public tensor operation and argument tuple of an alphabet, and "
                "all histories of model-level operations, executed on the real tiles with the device weights as invariant",
                "exhaustive over the operation alphabet and all words to the depth bound")
NOTES["T04"] = ("model_checking", "stateless model checking of twin runs on the real code: every read-only request inserted at every "
                "position of every bounded history, with all draws owned by the harness; bitwise comparison of all later states",
                "exhaustive over configuration zoo x layouts x histories x positions x requests")
NOTES["K01"] = ("model_checking", "stateless model checking with crash points: every save point of every bounded history x every save "
                "method on the real code; original and restored model continue in lock step with the same draws, compared bitwise",
                "exhaustive over configuration zoo x layouts x histories x save points x save methods")
NOTES["W01"] = ("model_checking", SMC + "model = logical weights, raw weights and scales of the layer",
                "exhaustive over tiles x layers x bias x mapping options and all words over 20 operations to the depth bound")
NOTES["W02"] = ("model_checking", SMC + "model = the same layer on one tile and the PyTorch layer",
                "exhaustive over matrix sizes, all pairs of tile limits, ways to build, tiles and mapping options")
NOTES["I01"] = ("model_checking", "stateless model checking: every weight matrix over a value alphabet is driven through every sequence "
                "convert / convert another / convert back / convert again on the real converters",
                "exhaustive over converters x parameters x matrices")
NOTES["Q01"] = ("model_checking", SMC + "model = range estimator, quantizer mode and an independently computed grid",
                "exhaustive over quantizers x bit widths x ranges on dense value grids and all words of range operations")
NOTES["T05"] = ("model_checking", SMC + "model = an independent implementation of the recurrences with automatic gradients",
                "exhaustive over cells x layers x directions x bias x tiles, all words of sequence shapes and all chunkings")
NOTES["L03"] = ("model_checking", SMC + "model = a NumPy matrix",
                "all words over the operations of the matrix object to the depth bound")
NOTES["W03"] = ("model_checking", SMC + "model = the source module tree (names, classes, sharing, modes, parameters, function)",
                "exhaustive over all module trees to the size bound, conversion options and excluded names")
NOTES["W04"] = ("model_checking", SMC + "model = the configured transformation of an explicitly tracked stored matrix",
                "exhaustive over all words of train/eval passes, post-update steps, optimizer steps and set_weights, per modifier/clip type and parameter set; the noise numbers come from a twin tile with unit noise and, separately, their distribution is tested on one 16384-weight tile")
NOTES["K02"] = ("model_checking", SMC + "model = the named parameter array of every crosspoint and its documented effect on each device operation",
                "exhaustive over device configurations x parameter names x crosspoints x histories to the depth bound, and the full table parameter x operation")
NOTES["M01"] = ("model_checking", SMC + "model = scale / clip / round / product / round / clip per row with noise and bound management, in NumPy",
                "exhaustive over the product of the setting alphabets and all input vectors over the value alphabet; rows within rounding error of a decision are only compared between batch, row and layout")
NOTES["M02"] = ("model_checking", SMC + "model = closed formula of each noise term for given values of the normal and uniform draws",
                "exhaustive over sources and pairs of sources x strengths x product kinds x enumerated draws; the independence of actual draws is judged on their moments")
NOTES["D02"] = ("model_checking", SMC + "invariant = every stored weight within the bounds of its own device",
                "exhaustive over device models x parameter variants x compounds x words of operations (every word of three occurs in the history explored)")
NOTES["D05"] = ("model_checking", SMC + "invariant = visible weight equals the reduction of the hidden ones; every hidden device moves as a plain tile with the same device that received the pulse if and only if the policy selects it",
                "exhaustive over unit cells x devices x pulse types x words of operations (every word of three occurs in the history explored); refresh judged to two pulses")
NOTES["D04"] = ("model_checking", SMC + "differential against a reference that handles one vector update at a time; after every operation every hidden device, buffer, chopper and the visible weight",
                "exhaustive over compounds x schedules x buffer and learning rate options x words of operations (every word of three occurs in the history explored); random starts and switches are branched over; the amount written by the dynamic compound is not judged")
NOTES["I02"] = ("model_checking", SMC + "model = the programmed state (target, programmed weights, drift parameters, baseline) and "
                "the documented compensation; weights, state and both outputs compared after every operation",
                "all words over 12 operations to the depth bound x noise models x compensations x tiles")
NOTES["I03"] = ("model_checking", "exhaustive enumeration on the real noise models with every normal draw of torch owned by the "
                "checker: every (target, draws, time) tuple against a float64 transcription of the documentation",
                "exhaustive over the grids of conductances, draws, times and parameters; all weight matrices over a value alphabet")
NOTES["K04"] = ("model_checking", "exhaustive enumeration of configuration values on the real translation to the core: every "
                "(class, parameter, value) and pairs of parameters, the core's parameter objects, live tiles and hidden device "
                "parameters compared with what was set",
                "exhaustive over classes x parameters x value alphabet (all enumeration members); hidden parameters by the "
                "documented formulas over parameter sets and construction seeds")
NOTES["D06"] = ("model_checking", SMC + "model = digital buffer, schedule and weights in exact arithmetic",
                "exhaustive over binnings x schedules x shapes x rounding draws x words of updates (every word of the bound "
                "occurs in the history explored); random start rows are branched over; pulsed devices are judged exactly "
                "where a pulse is certain and by bounds elsewhere")
NOTES["M03"] = ("model_checking", SMC + "model = range, count of batches used and clipping in exact arithmetic",
                "exhaustive over settings x words of train/eval/set/calibrate/checkpoint steps over an input alphabet, and "
                "over calibration strategies x models x data x training flags (all pairs of axes)")
NOTES["L01"] = ("model_checking", SMC + "model = identity on supported content, refusal otherwise",
                "exhaustive over networks up to the bound x layer options (singles and pairs) x presets x run settings x "
                "noise and periphery settings, each through serialised bytes and back")
NOTES["L02"] = ("model_checking", SMC + "fault injection: model = the same history without the rejected request",
                "exhaustive over every invalid request of the alphabet x every position of the history x every tile "
                "implementation (zoo), plus pairs of requests on selected tiles")
NOTES["K03"] = ("model_checking", SMC + "model = independent copies (only the object acted on may change)",
                "exhaustive over every predefined and zoo configuration x every leaf changed on either side, words of "
                "build/change/use/copy steps, pairs of layer kinds, and every algorithm of the configuration builder")
NOTES["W05"] = ("model_checking", SMC + "model = the reference weights and the raw weights a twin tile was given",
                "exhaustive over tile x layer x bias x scaling and all words of requests to the depth bound; noise-free products, devices without variation")
