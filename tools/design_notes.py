"""Hand-written remarks per property for DESIGN.md (what was left open, what is not judged and why)."""
REMARKS = {
"T01": """The oracle is the PyTorch layer with the same weights; the tiles are made ideal (floating-point tiles, `is_perfect`, ideal
devices).  Tests use one image per layer; the words here present changing image sizes, batch sizes, missing batch dimensions and
train/eval switches to one instance (index caches, CUDA-free indexed convolution).""",
"T02": """Counting model: every back-propagated pair is applied exactly once by the next step.  Five recorded findings concern indexed
convolutions with two image sizes pending at once (one set of fold indices per tile) – a repair needs one index matrix per pending
call and was judged not small.""",
"T03": """Enumerates the public surface of `torch.Tensor`/`torch.nn.Parameter` on every tensor a user can get hold of, then writes into the
result; the device weights (read through the C++ tile) may change only by documented writing operations.""",
"T04": """Twin runs: the same program with and without the observing call, same random stream, bit-wise comparison of everything
afterwards.  An operation that is documented to write or to calibrate is not an observation and is not in the list.""",
"T05": """Reference: `torch.nn.RNN/LSTM/GRU` and a hand-written recurrence for options PyTorch lacks.  Chunkings (pass the sequence in
pieces handing over the state) must not change the result.""",
"W01": """`realistic` reads/writes are excluded except under ideal converters.  All mapping options (digital bias, weight scaling with
column-wise and learned scales, omega in {0, 0.6, 1.0}).""",
"W02": """Reference: the unsplit layer.  All size limits 0..size+1 for all seven ways in which a split layer can be built (constructor,
conversion, from_digital, mapped, grouped, reload ...).""",
"W03": """Trees of containers with named children, shared modules, exclusions and specific conversion maps; both directions, in place or
copied; the converted model must compute the same function and the source must be untouched unless `inplace`.""",
"W04": """Accepted either way because the documentation leaves it open: decay before or after the update; torch MULT_NORMAL without
`assumed_wmax`; LAYER_GAUSSIAN of a constant matrix.  Recorded: spacing of the C++ Discretize.""",
"W05": """With perfect products the loop's own stopping rule is exact, so the final deviation is compared with the tolerance (pulsed devices:
or 0.012, their granularity).  Which weights are the reference before the first programming is not said unambiguously; both readings are
accepted.""",
"K01": """Every save point of every history, six ways to save (state dict, pickle, copy.deepcopy, torch.save with and without the
configuration ...); the resumed run is compared bit-wise with the uninterrupted one under the same random stream.""",
"K02": """Names of hidden parameters are compared with the meaning: writing a single crosspoint of a parameter and then pulsing shows
whether the parameter with that name changed what its name says.""",
"K03": """Graph walk over all mutable leaves; two configurations built separately, a configuration and a tile, two tiles of different
layers must share nothing mutable.  Accepted: objects the caller himself passes to two constructors; tiles of one layer.""",
"K04": """Each Python parameter is set to each alphabet value alone and in pairs; the core object and the text/values the live tile
reports must show it, in the field of that name.  Normalisations of the live tile (resolutions, is_perfect <-> mv_type Ideal, forced
NONE of the backward bound management, update management implied by update bl management) are not judged.  Documented: the transfer
compound uses device 1's settings for all slow devices.""",
"D01": """The whole outcome tree of the random draws of one update is enumerated (4^6..4^8 leaves) and the *expected* update computed
exactly; it must be the outer product.""",
"D02": """Bounds are reconstructed from the hidden parameters.  Recorded: devices with reference devices apply the bounds to w instead of
w + reference, except when pulsed.""",
"D03": """Search over up/down pulse words to depth 3/5 plus long sweeps against a NumPy transcription of each documented response.
Soft-bounds, pow-step, exp-step, linear-step, piecewise, constant, ideal.""",
"D04": """Reference machine that handles one vector at a time: counters, columns, buffers, choppers, learning rates.  Undocumented and
accepted in both readings: gamma in the learning rate of buffered/chopped transfer.  `Dynamic` is judged on where, in which units and
when it writes, not on how much.  Random starts and random columns are branched over.""",
"D05": """After every operation the visible weight must be the reduction of the parts (vector, one-sided, transfer, reference).  The
refresh of one-sided devices is judged to two pulses.  Recorded: the inverted copy of ExpStep.""",
"D06": """Conservation ledger: rounded errors x rounded inputs = chi + pulses x granularity, at each step.  Pulse counts beyond
`desired_bl` are not judged.  A transfer from the second update on may include the current update.""",
"M01": """Inputs within 1e-4 of a rounding decision are only used for row/batch agreement.  Not judged: inp_asymmetry outside its documented
place, ITERATIVE_WORST_CASE of the torch tiles (behaves like ITERATIVE), `is_perfect` with out_scale in the core.""",
"M02": """Constant and scripted draws turn a noisy product into an exact function; each source is separated by the direction and the term
it may touch.  An all-zero row of the backward pass may be exactly zero even with input noise (a shortcut).""",
"M03": """Reference machine for the range (initialisation from data, moving average, gradient, decay, output clipping).  Accepted in both
readings: gradient of clipped inputs straight-through or masked; quantile signed or absolute; start of the moving average.""",
"I01": """Exact inverse and range of every converter over all small matrices, parameters and orders of calls.""",
"I02": """Programming, drifting, reading, compensation, training and reloading in every order.  Reference machine: one programmed state,
time only moves forward from it.  set_weights resets the reference (documented) but not the programmed state.""",
"I03": """Draws are scripted; each model's formula is transcribed from its documentation.  Accepted: negative drift coefficients may be
reflected or rectified where undocumented; `CMO` read noise below one second is not judged.""",
"Q01": """Grid, nearest point, idempotence, calibration estimators over all words of data sets.  The percentile asymmetry of the
current-min-max estimator is undocumented and not judged.""",
"L01": """Import(export(x)) == x for the training and the inference formats over all options singly and in pairs; bad inputs must be
rejected with the documented exception.  Findings: options of digital layers the format has no field for are silently defaulted.""",
"L02": """A request that raises must leave every observable as it was (fingerprint of the tile, the layer, its settings and a follow-up
program compared bit-wise with a twin that never saw the request).  `load_state_dict` follows PyTorch (loads what fits, then raises),
so it is judged per tile.  Calibration that fails on its data may keep ranges already seen.""",
"L03": """Reference: NumPy.  Findings: see the file.""",
}
BUGS = {  # planted change -> checks that were run on it and what they said
}
CHAPTERS = """## False alarms corrected on the way

A check that complained about correct code was corrected, not recorded.  The recurring kinds: relying on a Python tile that had been
collected while its core tile was still used; rounding decisions of inputs exactly on a grid border; draws of one operation counted
where the documentation promises nothing about their number; settings the live tile normalises on purpose; PyTorch semantics
(`load_state_dict` loads what fits before it raises); objects shared by the caller's own doing.  Each is mentioned under its property.

## Costs

The quick tier of all checks takes about 20 minutes on the 8 cores (2 s to 2.5 min each); a change of a C++ source adds 45 s
(one file) to 150 s (a header) for the build.  Thorough tiers are bounded to stay below 15 minutes each.

## What was not attempted

CUDA (no device; the code paths are compiled out).  Statistical quality of the random generators themselves.  Wall-clock performance.
The network part of the cloud client (there is no service to talk to; the transport formats are in L01).
"""
