"""the checks: which harness decides a property, in which builds, and what a run has to have observed"""
TOL = "floating point results are compared with a tolerance of at least 1e-9 relative to the values involved"
CHECKS = {
    "A01": dict(harness="a01", variants={"asan": 4, "rel": 2},
        rule="distinct random input arrays (by content hash) for which every operation was compared with its per-index definition",
        assumptions=[TOL, "values exactly equal to the limit of logical combinations are not used (documentation and code differ)"]),
    "A02": dict(harness="a02", variants={"asan": 4, "rel": 2},
        rule="distinct random input arrays (by content hash) rescaled, cut, extended and selected from, each compared with the definition",
        assumptions=[TOL, "scaling targets are only required when the input has a non-zero sum or maximum"]),
    "A03": dict(harness="a03", variants={"asan": 3, "rel": 1},
        rule="distinct sets, sums, bases, starting sequences and count arguments whose complete enumeration or count was compared with an independent one",
        assumptions=["permutations are of whole sets of distinct elements (size equals set_size); counts are compared where they fit sp_time_t"]),
    "A04": dict(harness="a04", variants={"asan": 3, "rel": 3},
        rule="distinct arrays, distributions and random states whose rearranged or selected result was checked, or whose outcome frequencies were tested",
        assumptions=["frequencies are rejected only beyond 9 standard deviations", "unique draws ask for no more values than have a non-zero weight"]),
    "R02": dict(harness="r02", variants={"asan": 4, "rel": 2},
        rule="distinct seeds whose mixed draws were compared with an independent implementation, and ranges tested for uniformity",
        assumptions=["uniformity is rejected only beyond 9 standard deviations"]),
    "Q01": dict(harness="q01", variants={"asan": 4, "rel": 2},
        rule="distinct random arrays (by content hash) whose statistics were compared with extended precision definitions",
        assumptions=[TOL, "moments are only compared if the data is not nearly constant; center of mass and inharmonicity only for positive values"]),
    "D01": dict(harness="d01", variants={"asan": 2, "rel": 1},
        rule="distinct pairs of description and name texts returned, and distinct allocation sizes whose injected failure was described",
        require={"failed allocations described": 100, "known ids": 100},
        assumptions=["the name of the general end of data status is only required to be a text", "the texts of the current revision are the specified ones"]),
    "B01": dict(harness="b01", variants={"asan": 3, "rel": 1},
        rule="distinct sizes, kernels, channel layouts and random argument groups compared with the formulas",
        assumptions=[TOL, "square waves are evaluated below 2^31 samples, triangles for periods below 2^32", "blocks have at least one sample and channel"]),
    "L01": dict(harness="l01", wrap=["pthread_create"], variants={"asan": 3, "rel": 3}, defines=["-Dsph_future_default_poll_interval={0,100000}"],
        rule="distinct combinations of processor count, channel count and sample rate that were initialised within a history of cycles",
        assumptions=["processor counts above the thread limit of the pool use as many threads as the limit allows"]),
    "F01": dict(harness="f01", variants={"asan": 4, "rel": 2},
        rule="distinct signals (by content hash), kernel lengths and segmentations convolved as a stream and compared with the definition",
        assumptions=[TOL, "the carryover array is zero before the first call"]),
    "F02": dict(harness="f02", variants={"asan": 4, "rel": 2}, require={"kernels shortened within a pending tail": 50},
        rule="distinct streams (by expected output) filtered with changing kernels",
        assumptions=[TOL, "the kernels of the sinc filters are taken from the kernel functions, which property F03 covers"]),
    "F04": dict(harness="f04", variants={"asan": 3, "rel": 2},
        rule="distinct inputs (by content hash) and radii smoothed and compared with the mean of the window",
        assumptions=[TOL, "the window is smaller than the array, as documented"]),
    "T01": dict(harness="t01", variants={"asan": 4, "rel": 2},
        rule="distinct transform lengths compared with the definition in extended precision",
        assumptions=[TOL, "above length 300 a random selection of bins is compared, and the complete round trip"]),
    "S02": dict(harness="s02", variants={"asan": 5, "rel": 3}, require={"ranges that start later": 300},
        rule="distinct trees of events with their block borders, rendered and compared sample by sample with the sum of their events",
        assumptions=["events have an end after their start; groups may be empty", "plain maps are used inside of isolated maps, where their input is the output of the wrapped event alone", "map functions are pointwise"]),
    "S01": dict(harness="s01", variants={"asan": 5, "rel": 3}, require={"renderings with noise in several blocks": 300},
        rule="distinct pairs of an event tree and block borders whose rendering was compared with the rendering in one call",
        assumptions=["map functions are pointwise", "results with noise are compared with a tolerance of 1e-9"]),
    "S03": dict(harness="s03", variants={"asan": 5, "rel": 3}, defines=["-Dsph_future_default_poll_interval={0,100000}"], require={"lists freed before their end": 300},
        rule="distinct pairs of an event tree and block borders whose callbacks were monitored until the list was freed, and list editing histories",
        assumptions=["events do not change their own end after they have been added", "custom free functions call sp_event_memory_free and set event.free to null, as documented"]),
    "S04": dict(harness="s04", variants={"asan": 5, "rel": 3}, defines=["-Dsph_future_default_poll_interval={0,100000}"],
        require={"failures in parallel lists": 300, "failures in sequential lists": 300, "failures of nested events": 300},
        rule="distinct pairs of an event tree and a reported failure",
        assumptions=["any of several failing events may be the one that is reported"]),
    "S05": dict(harness="s05", variants={"tsan": 4, "asan": 2, "rel": 2}, defines=["-Dsph_future_default_poll_interval={0,100000}"], timeout=300,
        technique="parallel executions of random event trees with injected delays under the thread sanitizer, compared with their sequential rendering",
        require={"parallel renderings": 1000, "renderings with nested parallel groups": 200, "parallel renderings with noise": 200},
        rule="distinct combinations of event tree, block borders, thread count and delay setting rendered in parallel and compared with the sequential rendering",
        assumptions=["the poll interval of futures is shortened to 0.1 ms with the library's own compile time setting", "noise events are created with the sp_noise_event macro, which draws their seed, by one thread"]),
    "S06": dict(harness="s06", variants={"tsan": 4, "asan": 2, "rel": 2}, defines=["-Dsph_future_default_poll_interval={0,100000}"], wrap=["pthread_create"], timeout=300,
        technique="stress executions with injected delays and failing thread creation under the thread sanitizer, with monitors on the number, order and effects of task executions",
        require={"futures": 5000, "tasks": 5000, "discard": 50, "failing thread creations": 100},
        rule="distinct combinations of delay seed, thread count, task count and history of operations",
        assumptions=["first in first out order is compared among the tasks of one producer", "allocations do not fail during shutdown"]),
    "P02": dict(harness="p02", variants={"asan": 5, "rel": 3}, require={"path": 500, "bezier1": 500, "bezier2": 500},
        rule="distinct whole paths (by content hash) whose sections were compared with the slice of the whole path",
        assumptions=["x values of segments do not decrease, nested paths start and end at integers", "between points with fractional x values a deviation of up to one step is accepted for the whole path, none for sections", "bezier values are compared with the range of the curve within the sampling resolution"]),
    "P01": dict(harness="p01", variants={"asan": 5, "rel": 3}, require={"segments with negative curvature": 2000, "segments with positive curvature": 2000, "steep descending curves": 200, "zero envelopes": 500, "scaled envelopes": 500},
        rule="distinct paths (by content hash) and envelopes compared with their points, lines and curves",
        assumptions=["x values do not decrease", "positive curvature starts slowly, as in the current revision", "between points with fractional x values a deviation of one step is accepted", "curves are compared with the exact curve within the resolution of their sampling"]),
    "W01": dict(harness="w01", variants={"asan": 4, "rel": 3}, require={"events in several parts": 1000, "sine_lfo": 300},
        rule="distinct expected outputs of oscillators and wave events (by content hash)",
        assumptions=["the initial phase is below the size of the waveform", "without amplitude modulation plain oscillators are called with amplitude 0 or 1", "phase and modulation sums stay below 2^32"]),
    "G01": dict(harness="g01", variants={"asan": 4, "rel": 3}, require={"failures": 500, "nested maps": 1000, "isolated chains": 1000, "chains without isolation": 100},
        rule="distinct chains of map events with their rendered output (by content hash)",
        assumptions=["chains without an isolated map are rendered into a cleared output, as plain maps also transform what other events wrote", "map functions are pointwise"]),
    "I01": dict(harness="i01", variants={"asan": 4, "rel": 2}, require={"files with more than two channels": 100, "files with chunks of odd size": 100},
        technique="files written by the code under test are parsed by an independent reader, and files built by an independent writer are read, in random pieces",
        rule="distinct combinations of length, rate, channel count and number of chunks that were written, parsed and read back, and distinct foreign files that were read",
        assumptions=["files stay below 4 gigabytes", "nothing follows the data chunk of foreign files and the format chunk comes first", "written values are in the range of 32 bit floating point numbers"]),
    "I02": dict(harness="i02", variants={"asan": 4, "rel": 2}, require={"writes beyond a limit": 1000, "writes to a full device": 100, "files that have to be rejected": 1000, "handles that failed": 100},
        technique="fault injection (file size limits at any byte, full device, failing handles, unusable paths) and malformed files judged by an independent parser",
        rule="distinct paths, limits, malformed files and failing events for which the reported status, the open handles and the allocations were checked",
        assumptions=["a failure may be reported by any of the calls that open, write and close a file", "files with other chunks before the format chunk may be accepted or rejected"]),
    "R01": dict(harness="r01", variants={"asan": 5, "rel": 3}, require={"files of ranges that start later": 1000, "files of whole blocks": 300, "events whose end is known after prepare": 50},
        technique="files and blocks rendered from random event trees are compared with the sequencing of the same events in one call, while life cycle monitors watch the events",
        rule="distinct combinations of event, range and block size rendered to a file or block and compared sample by sample with direct sequencing",
        assumptions=["block sizes are at least one and the end of a range is not before its start", "samples of files are compared at float precision"]),
    "F03": dict(harness="f03", variants={"asan": 4, "rel": 2}, require={"frequencies in pass bands": 10000, "frequencies in stop bands": 10000},
        technique="kernels computed for random cutoffs and transitions are judged by their measured frequency response and an extended precision definition",
        rule="distinct kernels (by content hash) whose length, symmetry, coefficients and frequency response were checked",
        assumptions=["transitions are between 0.004 and 0.5 of the sample rate", "gains in pass and stop bands beyond the transition width may deviate by 0.004"]),
    "N01": dict(harness="n01", variants={"asan": 6, "rel": 4}, require={"pass bands": 100, "stop bands": 100, "limited samples": 100, "long events": 5, "beginnings": 50, "open settings": 100},
        technique="metamorphic comparison of renderings with other blocks, amplitudes and seeds, and measured power spectra and correlations of the rendered noise",
        rule="distinct noise configurations whose renderings were compared with each other, or whose spectrum was measured",
        assumptions=["transitions are at least a hundredth of the sample rate", "power densities are measured beyond the transition width and may deviate by a factor of 2.5 in pass bands", "with modulation, filter parameters take effect with the update that follows, within one resolution"]),
    "M01": dict(harness="m01", variants={"asan": 6, "rel": 4}, defines=["-Dsph_future_default_poll_interval={0,100000}"], require={"failed allocations in rendering": 1000, "failed allocations in parallel rendering": 500, "failed allocations in filter": 100, "failed allocations in group": 50},
        technique="fault injection: every allocation made inside of a call fails once, under AddressSanitizer and an allocation ledger, with monitors on callbacks and retries",
        rule="distinct pairs of a call with its arguments and the allocation of it that failed",
        assumptions=["one allocation fails per call", "ownership after failure: added events belong to the group but not to lists, memory that could not be registered stays with the caller",
          "allocations of the C library (streams, thread stacks) do not fail, neither do those of shutting down thread pools"]),

 "U01": dict(harness="u01", variants={"asan": 2, "rel": 2}, rule="distinct rates and sets of arguments for which results were compared", assumptions=["arguments of the conversion macros are single variables or constants, since the macros do not parenthesise them"]),
 "V01": dict(harness="v01", variants={"asan": 3, "rel": 2}, rule="distinct plotted data (by content hash) whose file was read back", wrap=["fopen", "system"], assumptions=["gnuplot itself is not run: the command string and the data file are what is judged"]),

 "E01": dict(harness="e01", variants={"asan": 3, "rel": 2}, rule="distinct sequences of registered arrays with their sizes and failed allocations", require={"failed allocations": 500}, assumptions=["one allocation fails per call"]),
 "S07": dict(harness="s07", variants={"asan": 3, "rel": 2}, rule="distinct sequences of events added to a list whose structure was compared with a model after every step", require={"sequenced ranges": 1000, "failed allocations": 100}, assumptions=["finished events may leave the list with the range in which they end or with the next one"]),
 "K01": dict(harness="k01", variants={"asan": 3, "rel": 2}, rule="distinct sequences of operations on arrays, registers and queues that were compared with a model after every step", require={"operations on queues": 10000, "failed allocations": 500, "registers beyond 16 bits": 1, "large containers": 20}, assumptions=["capacities are at least one element and respected, as documented", "a queue contains a node once"]),
 "K02": dict(harness="k02", variants={"asan": 3, "rel": 2}, wrap=["fopen", "system"], rule="distinct strings, directory paths and printed texts", require={"created paths": 500, "slashes added": 500}, assumptions=["directories are only created below the scratch directory, creations elsewhere are recorded and refused", "displayed durations may be rounded to either neighbouring unit"]),
 "B02": dict(harness="b02", variants={"asan": 3, "rel": 2}, rule="distinct combinations of range and resolution", assumptions=["the resolution is at least one and the end is not before the start"]),
}
# every property is also watched for results that depend on uninitialised memory
for _id, _c in CHECKS.items():
    _c["variants"].setdefault("msan", 4 if _id in ("T01", "S03", "S04", "S05", "M01", "E01", "A01", "L01", "S06", "P01") else 2)
# how often the quick cases of fast harnesses are repeated with other random states
for _id, _k in dict(A02=4, A03=3, A04=4, R02=6, Q01=2, D01=5, B01=20, F01=8, F02=3, F04=10, S02=3, S01=2, W01=4, G01=6, I02=2, F03=2, U01=6, V01=3,
                    S07=8, B02=8).items():
    CHECKS[_id]["scale"] = _k
CHECKS["M02"] = dict(sweep=[p for p in CHECKS], harness="all", variants={"asan": 1, "msan": 1}, scale={"quick": 1, "thorough": 12}, part={"quick": 4, "thorough": 1}, timeout={"quick": 300, "thorough": 3000},
    technique="all harnesses, and so nearly all functions of the library, run under address, undefined behaviour and memory sanitizer with guarded and "
              "poisoned arrays and an allocation ledger; only findings about memory and undefined behaviour count",
    rule="distinct situations of all other harnesses that ran under a sanitizer",
    assumptions=["arguments keep to the documented sizes and ranges", "misaligned access is not counted, as wave headers are parsed in place"])
