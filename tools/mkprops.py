import json
P=[]
SEQ="source/c-precompiled/sph-sp/sequencer.c"; MAIN="source/c-precompiled/sph-sp/main.c"; FIL="source/c-precompiled/sph-sp/filter.c"
PATH="source/c-precompiled/sph-sp/path.c"; ARR="source/c-precompiled/sph-sp/arrays.c"; ART="source/c-precompiled/sph-sp/arrays-template.c"
STA="source/c-precompiled/sph-sp/statistics.c"; FILE="source/c-precompiled/sph-sp/file.c"
L="source/c/foreign/sph-sc-lib/sph-sp/"
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("S01","Rendering in blocks equals rendering in one call",
 "Rendering a list or group of events over a time range in consecutive calls of any sizes writes exactly the samples that a single call over the whole range writes. This holds for custom, wave, map and nested group events and for noise events whose filter parameters do not change, no matter where block borders fall relative to event starts and ends.",
 ["inputs","histories"],"all event trees (kinds, starts, ends, nesting, channel layouts) and all partitions of the rendered range into consecutive blocks, including one-sample blocks",
 "test_sp_seq, test_sp_group and test_sp_wave_event each split one fixed arrangement at one fixed position and look at a few samples; the guarantee is over all partitions and trees.",
 [SEQ,MAIN],[("sp_seq clips each event to the block and offsets the output",SEQ+": sp_seq"),("wave phase and noise filter state persist between generate calls",SEQ+": sp_wave_event_generate, sp_noise_event_generate_block")],["output blocks of sp_seq / group generate"])
p("S02","Every event sounds exactly at its scheduled place and events add up",
 "Each output sample is the previous content of the output plus the sum of the contributions of exactly the events whose half-open interval covers that time, each evaluated at event-relative time, including events nested in groups, added, appended one after another, or scheduled with an onset and duration. Times covered by no event keep their content, and a group is as long as its latest added event or the concatenation of appended ones.",
 ["inputs","histories"],"all insertion orders, starts, ends, overlaps, nesting depths, appends and schedule offsets, and all rendered ranges and block offsets, in all channels",
 "The tests place two or three non-overlapping events by hand; overlap, insertion order, nesting and offsets are combinatorial.",
 [SEQ],[("ordered insert and reversal before rendering",SEQ+": sp_event_list_add, sp_event_list_reverse"),("group end bookkeeping",SEQ+": sp_group_add, sp_group_append, sp_event_schedule"),("range clipping",SEQ+": sp_seq")],["arguments of generate callbacks","output blocks"])
p("S03","Events are prepared once, generated gaplessly and freed exactly once",
 "While a list of events is rendered forward in consecutive blocks, every event reached is prepared exactly once before its first generate call, its generate calls cover its rendered interval in order without gap or repetition, and its free function and every registered memory handler run exactly once, at the latest when the list is freed, with no callback after that. Events whose end has passed are freed and removed when the following block is processed, events never reached are still freed, and nothing allocated remains afterwards.",
 ["histories","inputs"],"all event lists and trees (custom, wave, noise, map, group, parallel group), event memory registration sequences and block sequences, including lists freed before, in the middle of and after rendering",
 "Tests never count callbacks or allocations, and check no history other than one straight rendering.",
 [SEQ],[("prepare pointer reset and event removal",SEQ+": sp_seq, sp_seq_parallel, sp_event_list_remove"),("event memory register",SEQ+": sp_event_memory_*"),("free functions of groups, maps, noise",SEQ+": sp_group_free, sp_map_event_free, sp_noise_event_free")],["prepare/generate/free callbacks","memory handlers","allocation ledger"])
p("S04","A failing event stops rendering, is reported, and everything is freed",
 "If the prepare or generate callback of any event, at any nesting depth, in sequential or parallel rendering, returns a failure, then the rendering call returns a failure status reported by an event that failed, unchanged in id and group. All events and the list are freed exactly once by then, the list is empty, no callback runs after the call has returned, and nothing stays allocated.",
 ["fault_sequences","histories","schedules"],"every position (event, callback, nesting depth, block) of a failing callback in every event tree, and every interleaving of the other workers",
 "No existing test makes a callback fail.",
 [SEQ,L+"futures.c"],[("exit label frees the list",SEQ+": sp_seq, sp_seq_parallel")],["status returned","callback log","allocation ledger","sanitizer reports"])
p("S05","Parallel rendering equals sequential rendering and is race free",
 "Rendering events with multiple threads produces the same samples as sequential rendering of the same events, for any number of worker threads, any thread timing and any block partition, including parallel groups nested in other events. Concurrent evaluation of independent events has no data race and always completes.",
 ["schedules","inputs"],"all schedules of 1..8 workers over all event trees of custom, wave, noise, map and group events, and all block partitions",
 "The only parallel test renders one fixed list once under one schedule, without a race detector.",
 [SEQ,L+"futures.c",L+"thread-pool.c",L+"queue.h"],[("one private block and future per active event, merged after touch",SEQ+": sp_seq_parallel"),("finished flag and queue mutex",L+"futures.c, "+L+"thread-pool.c")],["output blocks","ThreadSanitizer reports"])
p("S06","Futures and pool tasks run exactly once and touch returns the result",
 "Every future created runs its function exactly once with its own data, touching it blocks until that function has returned and yields its result together with all memory effects of the function, and every task enqueued in a pool runs exactly once, in first in first out order when there is one worker. Shutting down waits until all submitted work is finished and leaves no thread behind, discards exactly the queued tasks when that is requested, and initialisation can be repeated after shutdown.",
 ["schedules","histories"],"all numbers of workers, producers and tasks, all timings of touch, finish and shutdown, all sequences of init and deinit, all sequences of queue operations",
 "test_futures-like tests create three futures once; ordering, visibility and shutdown timing depend on the schedule.",
 [L+"futures.c",L+"thread-pool.c",L+"queue.h"],[("queue under mutex and condition variable",L+"thread-pool.c: sph_thread_pool_enqueue, sph_thread_pool_worker"),("finished flag",L+"futures.c: sph_future_eval, sph_future_touch")],["task execution log","ThreadSanitizer reports","thread count"])
p("W01","Wave oscillators keep phase and follow their modulation inputs",
 "An oscillator or wave event adds, for every sample and channel, amplitude times amplitude modulation times the waveform value at the accumulated phase, where phase advances by the current frequency (base frequency plus frequency modulation for events, modulation or base frequency for plain oscillators), is offset by phase modulation, wraps at the waveform size and continues across calls. Channels of an event without own settings repeat the first channel and channels with own settings inherit the missing ones, each writing only to its configured output channel.",
 ["inputs","histories"],"all waveforms and sizes, frequencies, phases, amplitudes, modulation arrays, channel configurations and call partitions",
 "The tests check the maximum of one configuration; phase accumulation, wrapping, pmod and inheritance are never compared with a reference.",
 [SEQ,MAIN],[("phase accumulation and wrap",SEQ+": sp_wave_event_generate; "+MAIN+": sp_wave"),("channel defaults",SEQ+": sp_wave_event_prepare, sp_wave_event_config_defaults")],["output samples","phase state"])
p("N01","Noise events are bounded, band limited, reproducible and split invariant",
 "A noise event adds to each configured output channel noise that never exceeds -1..1 per event, scales with its amplitude and amplitude modulation, has its energy inside the configured band (or outside of it for band reject) following modulation of the band over time, and depends only on configuration and random seed. This holds for every event duration, transition width, resolution and block size, and while the filter parameters are constant the samples do not depend on how the event is divided into blocks. The noise is there from the first sample, without the delay of the filter. A new configuration only needs an amplitude array for its first channel and is then full band noise at full scale on all channels; unused channels repeat the first, and widths, transitions and modulations that a channel with its own frequency leaves open are those of the first.",
 ["inputs","configurations","histories"],"all noise configurations (bands, transitions, modulation arrays, channels, amplitudes), durations, sample rates, block partitions and seeds",
 "One test renders one configuration in one call and checks the maximum of channel 0.",
 [SEQ,FIL],[("temp buffers sized at prepare",SEQ+": sp_noise_event_prepare"),("block-wise filtered white noise",SEQ+": sp_noise_event_generate_block, sp_event_block_generate")],["output samples","sanitizer reports","allocation ledger"])
p("G01","Map events transform exactly what their event wrote",
 "A map event calls its map function once per generate call of the wrapped event with the same time range and with the wrapped event's output, which for isolated maps is a cleared private buffer whose result alone reaches the shared output, so that nested maps form a filter chain. The wrapped event is prepared once, freed once together with the map event, and failures of the event or the map function are returned.",
 ["inputs","histories","fault_sequences"],"all chains of isolated and direct maps over all event kinds, ranges, block partitions and failure positions",
 "One test renders one isolated map once.",
 [SEQ],[("private block for isolation",SEQ+": sp_map_event_isolated_generate"),("in place map",SEQ+": sp_map_event_generate"),("lifetime",SEQ+": sp_map_event_prepare, sp_map_event_free")],["map callback arguments","output blocks","allocation ledger"])
p("F01","Streaming convolution equals one linear convolution",
 "Convolving a signal in consecutive segments of any lengths with carryover yields, sample for sample, the linear convolution of the whole signal with the kernel, and the final carryover is its tail. Segments may be shorter or longer than the kernel, and only the output range and carryover are written.",
 ["inputs","histories"],"all signals, kernel lengths and partitions into segments, including segments shorter than the kernel and kernels of length one",
 "Two tests use one fixed kernel and equal segment sizes.",
 [MAIN],[("out/carryover shifting and split convolution",MAIN+": sp_convolve, sp_convolve_one")],["output and carryover arrays"])
p("F02","Stateful filters apply the current kernel and keep all pending tails",
 "For a stream filtered in segments with a filter state, every segment is convolved with the impulse response that belongs to the filter function and arguments given with that segment, and the tails of earlier segments are added in full to later output, even when function, arguments or kernel length change between segments. The kernel is recomputed only when function or arguments change, and freeing the state releases everything.",
 ["histories","inputs"],"all sequences of segments with changing filter functions, argument values, argument sizes, kernel lengths (growing, shrinking) and segment lengths",
 "One test compares equal segments with unchanged parameters; parameter changes are never tested.",
 [FIL,MAIN],[("state comparison and update, carryover resize",FIL+": sp_convolution_filter_state_set"),("carryover hand-over",FIL+": sp_convolution_filter")],["output samples","calls of the kernel function","allocation ledger"])
p("F03","Windowed sinc kernels have the promised shape and frequency response",
 "For every valid cutoff and transition the low, high, band pass and band reject kernels have odd length given by the transition width, are symmetric and finite, have unit gain in the pass band and strong attenuation in the stop band outside of the transition widths. Cutoffs at or beyond the limits reduce to the low-pass, high-pass, pass-through or null kernel.",
 ["inputs"],"all cutoff frequencies 0..0.5, transition widths and filter types",
 "The tests check one kernel coefficient within 0.1 and otherwise only that calls succeed.",
 [FIL,MAIN],[("window, sinc, normalisation",FIL+": sp_windowed_sinc_lp_hp_ir"),("composition of low and high pass",FIL+": sp_windowed_sinc_bp_br_ir"),("spectral inversion",MAIN+": sp_spectral_inversion_ir")],["kernel arrays and their DFT"])
p("F04","Moving average is the exact mean of the surrounding window",
 "Each output value is the mean of the 2 * radius + 1 input values centered at its index, where values before the start come from the previous array or, if there is none, are the negated input reflected at the first value, and values after the end come from the next array or are the negated input reflected at the last value. With neighbouring arrays given, smoothing consecutive arrays equals smoothing their concatenation.",
 ["inputs"],"all inputs, sizes and radii with width smaller than the size, with and without previous and next arrays",
 "The test uses one symmetric input, for which several wrong boundary treatments give the same result.",
 [FIL],[("running sum with boundary cases",FIL+": sp_moving_average")],["output array"])
p("T01","Fourier transforms match the definition for every length",
 "The forward transform computes the discrete Fourier transform and the inverse computes the unscaled inverse, so that inverse after forward returns the input multiplied by the length, for every length including those that are not powers of two, and both report success. Only the two given arrays of that length are modified. Circular convolutions made with the transforms equal their definition, leave their inputs unchanged and report failed allocations, and the transform for powers of two refuses other lengths.",
 ["inputs"],"all lengths and all real and imaginary inputs",
 "One test transforms one length-6 input and only checks the returned status.",
 [MAIN,"source/c/foreign/nayuki-fft/fft.c"],[("radix-2 and Bluestein",  "source/c/foreign/nayuki-fft/fft.c: Fft_transform"),("status mapping",MAIN+": sp_fft, sp_ffti")],["transformed arrays"])
p("P01","Paths and envelopes pass through their points with bounded curves",
 "A sampled path starts at its first point, has exactly the requested length, follows straight lines between points when curvature is absent or zero, and for curvature from -1 to 1 bends monotonically inside the rectangle of the two points, to opposite sides for opposite signs. Time paths are the rounded sample paths, and envelopes are the paths with cumulative lengths scaled to the total length and with scaled or zero end values, computed without changing the arguments of array forms.",
 ["inputs"],"all point counts 2..24, positions, values, curvatures and lengths, in the array and fixed-count forms",
 "One test checks a few values of one three point path.",
 [PATH,L+"spline-path.c"],[("segment construction",PATH+": sp_path_samples"),("argument composition",PATH+": sp_define_path_n, sp_envelope_zero, sp_envelope_scaled"),("line and bezier generators",L+"spline-path.c")],["output arrays"])
p("P02","Sections of spline paths equal slices of the whole path",
 "Querying a path of move, line, constant, bezier, arc and nested path segments for any sub-range, in any order of queries, returns the same values as the corresponding slice of the whole path and writes only the requested range. Lines interpolate exactly, constants hold the last value, beziers start and end at their points, moves produce zeros, and a nested path is drawn from the preceding point.",
 ["inputs","histories"],"all segment sequences and all sequences of queried ranges",
 "The path tests query one whole range each.",
 [L+"spline-path.c"],[("segment lookup with cached index",L+"spline-path.c: spline_path_get"),("generators with partial ranges",L+"spline-path.c: spline_path_*_generate")],["output arrays","sanitizer reports"])
p("I01","Written wave files are well formed and read back identically",
 "Writing any number of chunks of samples for any channel count and rate creates a 32 bit float RIFF/WAVE file whose header fields agree with each other, with the arguments and with the data actually written. Reading it back in any chunk sizes yields, channel by channel, the written samples at float precision, then reports the end of the file, and the reader takes channel count and data position from the header even if other chunks precede the data.",
 ["inputs","histories"],"all channel counts, rates, sample values and sequences of write and read chunk sizes, files with extra header chunks",
 "One test writes and reads five samples in one chunk and sets the channel count itself through reuse of the file object.",
 [FILE],[("header construction and patching on close",FILE+": sp_file_open_write, sp_file_close_write"),("interleaving",FILE+": sp_file_write, sp_file_read"),("chunk search",FILE+": sp_file_open_read")],["file bytes","samples read"])
p("I02","File errors and malformed files are reported as failures",
 "Opening a path that can not be opened, reading a file that is truncated, is not a wave file or has another sample format, and writing to a full or limited device return a failure status with a non-zero id, and never crash, hang, leak memory or file handles, or report success. This includes rendering to a file, which also frees its events and blocks then.",
 ["fault_sequences","inputs"],"every open/read/write call that can fail at any point, all truncations and corruptions of a header, all unusable paths",
 "No test exercises a failing file operation.",
 [FILE,MAIN],[("status returns",FILE),("cleanup",MAIN+": sp_render_range_file")],["status","open file descriptors","allocation ledger","sanitizer reports"])
p("R01","Rendering to files and blocks equals direct sequencing of the range",
 "Rendering an event over a range start to end into a file or a new block contains exactly end minus start samples per channel which equal the samples that sequencing the event over that range writes, for every block size, channel count and rate in the configuration. The event is consumed and freed exactly once.",
 ["inputs","configurations"],"all events, ranges (including starts above zero and ranges that are no multiple of the block size), block sizes and channel counts",
 "One test renders a block from zero and checks a few samples; no test reads a rendered file back.",
 [MAIN,FILE],[("block loop and remainder",MAIN+": sp_render_range_file"),("block rendering",MAIN+": sp_render_range_block")],["file contents","blocks","callback log"])
p("A01","Element-wise array operations compute every element and nothing else",
 "The copying, setting, arithmetic, limiting, comparing, reversing, accumulating, interpolating, logical-combination and conversion operations on arrays of samples and times give for every index the documented value of that operation, including maximum, minimum and absolute maximum over fractional values, and write only the elements they are documented to write. Time subtraction never goes below zero, and operations documented to work in place give the same result in place.",
 ["inputs"],"all array lengths, values (including negative and fractional samples and extreme times) and in-place or separate outputs",
 "test_sp_times/test_sp_samples style tests call a few of the functions on one array each.",
 [ART,ARR],[("template instantiated for both types",ART),("type specific operations",ARR)],["output arrays with guard regions"])
p("A02","Rescaling and selecting array operations reach their target",
 "Scaling to a sum, to a maximum or to a gain reaches that target while keeping proportions, two-dimensional scaling interpolates linearly between the scaled values, and removing, inserting space, subdividing, extracting a value range, connecting arrays seamlessly, selecting by index and finding indices of larger values return exactly the documented elements in order with the right count. Inputs that are not documented as outputs stay unchanged.",
 ["inputs"],"all array contents, lengths, targets, indices and counts that are valid for the operation",
 "The tests call some of these functions on one tiny array each.",
 [ARR,STA],[("scaling",ARR+": sp_times_scale, sp_times_scale_sum, sp_samples_scale_y, sp_samples_set_gain"),("selection and restructuring",ARR+": sp_times_remove, sp_times_insert_space, sp_times_subdivide_difference, sp_times_extract_in_range")],["output arrays with guard regions"])
p("A03","Enumerations are complete, duplicate free and match their counts",
 "Generating permutations, compositions and digit sequences produces every member exactly once and no other, with the element arrays of the stated sizes, and the count functions return the number of members: factorials, powers, permutations of selections, compositions and sequence counts of statistics.",
 ["inputs"],"all sizes and sums for which the results fit the number type, all sets of values",
 "One test prints or checks sizes for one input; completeness is over all members.",
 [ARR,MAIN,STA],[("Heap's algorithm",ARR+": sp_times_permutations"),("ascending compositions",ARR+": sp_times_compositions"),("digit increment",ARR+": sp_times_sequence_increment, sp_times_sequences"),("counts",MAIN+": sp_time_factorial, sp_time_expt, sp_permutations_max, sp_compositions_max")],["enumerated members","allocation ledger"])
p("A04","Random array operations only rearrange or select, without bias",
 "Shuffling keeps the multiset of values and reaches every order equally often, random selection returns a subsequence in which each element appears independently half of the time, and discrete random numbers are in range and follow the given cumulative distribution, without repetition where uniqueness is promised. All of them depend only on the global random state.",
 ["inputs","histories"],"all array sizes and contents, cumulative distributions (including zero weights) and random states",
 "The tests call a few of these once and do not examine the distribution.",
 [ARR],[("Fisher-Yates",ARR+": sp_shuffle"),("cumulative search",ARR+": sp_times_random_discrete, sp_time_random_discrete"),("random bits",ARR+": sp_times_random_binary, sp_times_select_random")],["outputs and their frequencies"])
p("Q01","Statistics equal their mathematical definitions",
 "Range, mean, standard deviation, median, center of mass, skewness, kurtosis and inharmonicity of arrays of times and samples equal their definitions up to rounding, are independent of element order where the definition is, do not modify the input and leave nothing allocated. Mapping samples to times puts the smallest value to zero or above and the largest to the given maximum, preserving order.",
 ["inputs"],"all arrays of any size from one, with odd and even sizes, ties and negative samples",
 "Each statistic is tested on one fixed array with a tolerance.",
 [STA,L+"quicksort.h"],[("macro instantiated statistics",STA),("sorting for median",L+"quicksort.h")],["outputs","input arrays","allocation ledger"])
p("R02","Random number generation is reproducible, in range and uniform",
 "A random state created from the same seed always gives the same sequence, equal to the reference algorithms, drawing in arrays equals drawing one by one, and different states do not influence each other. Bounded integers are below the bound and unbiased for every bound, and floating point numbers stay in their half-open range and are uniform. Normally distributed numbers stay in their range and are centered in it with the deviation of a mean of 32 draws.",
 ["inputs","histories"],"all seeds, bounds, ranges and sequences of mixed draws",
 "One test compares the twentieth value of one seed within 0.1.",
 [L+"random.c",MAIN],[("splitmix64, xoshiro256** and +",L+"random.c"),("debiased bounded draw",L+"random.c: sph_random_u64_bounded"),("seeding",MAIN+": sp_random_state_new")],["draws"])
p("M01","Failing memory allocation is reported and leaks nothing",
 "If any single memory allocation made inside a call that returns a status fails, the call returns a failure with a non-zero id instead of success, does not crash, does not free or keep anything twice, and what it had allocated so far is released or still owned by an object that can be freed. Calls whose allocations all succeed return success.",
 ["fault_sequences"],"every single failing allocation position in every status-returning operation: blocks, arrays, paths, envelopes, filters, events, groups, sequencing, rendering, files, enumerations, initialisation",
 "No test makes an allocation fail.",
 [L+"helper.c",L+"helper.h",SEQ,FIL,ARR,PATH,MAIN,FILE],[("allocation helpers with status",L+"helper.c"),("memory registers and exit labels",L+"memreg.h")],["status","allocation ledger","sanitizer reports"])
p("B01","Basic waveforms, windows and block operations follow their formulas",
 "Sine tables hold exactly one period for every size, triangle, saw, square, sinc, window, phase accumulation and pan functions return the documented value for every argument, kernel inversion and reversal mirror the frequency response, and interleaving inverts deinterleaving. Blocks are created cleared with the requested size and channels, and clearing, copying and offsetting them affects exactly the samples addressed.",
 ["inputs"],"all sizes (even and odd), positions, cycle lengths, pan values, channels and block shapes",
 "Tests compare a handful of points for one even size, and channel 0 only.",
 [MAIN,FIL],[("tables and waveforms",MAIN+": sp_sine_period, sp_triangle, sp_square, sp_phase, sp_pan_to_amp"),("blocks",MAIN+": sp_block_new, sp_block_copy, sp_block_with_offset")],["outputs"])
p("L01","Initialisation can be repeated and always gives the same state",
 "Initialising with any processor count, channel count and sample rate sets the defaults, fills both sine tables for that rate, starts a working thread pool if processors are given and restarts the global random sequence, and deinitialising releases everything, so that any number of initialise/deinitialise cycles with changing arguments behave like the first.",
 ["histories","configurations"],"all sequences of initialise and deinitialise with all rates, channel counts and processor counts",
 "The test program initialises once and never deinitialises.",
 [MAIN,L+"futures.c"],[("setup and cleanup",MAIN+": sp_initialize, sp_deinitialize"),("pool lifetime",L+"futures.c: sph_future_init, sph_future_deinit")],["globals","tables","threads","allocation ledger"])
p("D01","Every failure status has a readable description and name",
 "For every status group and id that the library can return, the description and name functions return a valid, non-null text, with the specific text for each known id, including the errors of the allocation helpers, and the generic or empty text for all others. The macros for requiring and setting statuses leave a function at the first failure, with its id and group, and continue after successes.",
 ["inputs"],"all groups (own, helper, libc, unknown) and all integer ids, all sequences of successes and failures",
 "No test calls these functions with checks on the result.",
 [MAIN,L+"helper.c"],[("id to text mapping",MAIN+": sp_status_description, sp_status_name"),("helper texts",L+"helper.c")],["returned strings"])
p("U01","Conversions, rounding and number helpers follow their definitions",
 "Conversions between hertz, wavelengths, factors, radians, durations, samples and units give the defined value for every argument and sample rate and invert each other, and minimum, maximum, limiting, differences, guarded subtraction and division, defaults, rounding, linear interpolation, modulo matching and joining bytes return their defined value for every argument. Rounding to multiples gives multiples, and harmonizing moves a value by the given amount of its distance to the nearest multiple of the base.",
 ["inputs","configurations"],"all sample rates and all arguments in the range of the number types",
 "The tests use a few of these in passing and never judge their results.",
 ["source/c-precompiled/sph-sp/main.h",MAIN,ART],[("conversion and helper macros","source/c-precompiled/sph-sp/main.h"),("harmonizing and matching",MAIN+": sp_time_harmonize, sp_time_deharmonize, sp_modulo_match"),("rounding",ART+": round_to_multiple")],["returned values"])
p("V01","Plot data holds the plotted values and plotting is clean",
 "Writing plot data for samples, times, spectrums, blocks and rendered events creates a file with exactly one line per value that holds this value, for spectrums the scaled magnitudes of the Fourier transform of the samples. Plotting uses a new file each time and starts exactly one plot program with a complete command that names this file. The plotted data is not changed, and whether or not files can be opened or memory is available nothing stays open or allocated and nothing crashes.",
 ["inputs","fault_sequences"],"all arrays, events, unusable paths and failing allocations",
 "No test plots anything.",
 ["source/c-precompiled/sph-sp/plot.c",MAIN],[("plot data files","source/c-precompiled/sph-sp/plot.c: sp_plot_*_to_file"),("rendered plots",MAIN+": sp_render_plot")],["files","program invocations","open file descriptors","allocation ledger"])
p("E01","Memory of events and scopes lives exactly as long as its owner",
 "The macros that create paths, envelopes, arrays and other memory for an event return what the plain functions return and register it with the event, so that it stays valid and unchanged until the event is freed and is then freed exactly once, as are local and error memory of a scope when it is left normally or with a failure. If an allocation fails nothing leaks, and registered handlers run exactly once with their own address.",
 ["histories","inputs","fault_sequences"],"all sequences of registrations with all macros, all points of leaving a scope, and every failing allocation",
 "One test registers a few addresses and frees them; nothing counts frees or makes an allocation fail.",
 ["source/c-precompiled/sph-sp/sequencer.h",SEQ,L+"memreg.h"],[("event memory macros","source/c-precompiled/sph-sp/sequencer.h: sp_event_*_srq"),("register and growth",SEQ+": sp_event_memory_add_with_handler, sp_event_memory_ensure, sp_event_memory_free"),("scope registers",L+"memreg.h and source/c-precompiled/sph-sp/main.h: sp_local_*")],["contents","handler calls","allocation ledger"])
p("S07","Event lists keep all events sorted, linked and owned exactly once",
 "After any sequence of additions, reversals, removals by sequencing and failed allocations, an event list contains exactly the events added and not yet finished, unchanged, in descending order of start (ascending when prepared for sequencing), events with equal start in the order in which they were added, with consistent links in both directions. Freeing a list frees each of its events once and leaves it empty. Validating a list accepts every consistently linked list and ends the process for every other, including circular ones. Scheduling moves an event by the onset and extends it by the duration.",
 ["histories","inputs"],"all sequences of additions with all starts including equal ones, reversals, and sequenced ranges",
 "One test adds three events in one order and validates the links.",
 [SEQ],[("sorted insertion, reversal, removal, freeing",SEQ+": sp_event_list_add, sp_event_list_reverse, sp_event_list_remove, sp_event_list_free"),("scheduling",SEQ+": sp_event_schedule"),("event macros","source/c-precompiled/sph-sp/sequencer.h")],["list structure","free callbacks","allocation ledger"])
p("B02","Blockwise generation covers a range exactly, in order, within the resolution",
 "Generating an event in sub-blocks calls the generator for consecutive parts that cover the requested range exactly once and in order, with the offset in the output and the time belonging to each part, none longer than the resolution, without rounding errors for any size of range, passing output and event unchanged. The first failure of the generator ends the generation and is returned.",
 ["inputs","fault_sequences"],"all ranges, starts and resolutions in the range of the time type and all failing parts",
 "It is only reached by tests through noise events with the default resolution.",
 [SEQ],[("block loop and remainder",SEQ+": sp_event_block_generate")],["generator calls"])
p("K01","Arrays, registers and queues hold exactly what was put into them",
 "After any sequence of creating, adding, removing, setting, clearing, resizing and handing over, a growable array has the size and used length that follow from the operations, contains the values put into it in order also after growing and shrinking, and is unchanged by a failed allocation, which is reported. Memory registers free every registered address exactly once, with its own handler if it has one, independent of other registers. Queues return their elements first in first out and elements can be removed from any position. Sorting puts exactly the given range of an array of any type in order. Allocation helpers give memory of the requested size that is zeroed, terminated or keeps its content as promised, nearly equal comparisons and sums of floats follow their definitions.",
 ["histories","inputs","fault_sequences"],"all sequences of operations with all element types, sizes, positions and failing allocations",
 "The tests use arrays and registers in passing with a few elements and never remove from queues, shrink arrays or make an allocation fail.",
 [L+"array3.h",L+"memreg.h",L+"queue.h",L+"quicksort.h",L+"helper.c",L+"float.c",L+"float.h"],[("growable arrays",L+"array3.h"),("registers",L+"memreg.h"),("queue",L+"queue.h"),("sorting",L+"quicksort.h"),("allocation helpers",L+"helper.c: sph_helper_primitive_*"),("comparison and sums",L+"float.h, "+L+"float.c")],["structure after every operation","handler calls","allocation ledger"])
p("K02","String, directory and display helpers produce exactly the expected text",
 "Appending, cloning, joining and ending strings with a slash give exactly the expected bytes in new memory of sufficient size, or the given string where documented, report failed allocations and never change their input. The directory part of a path is a new string equal to that of posix dirname, and ensuring a directory creates all missing directories of relative and absolute paths and returns whether the path exists afterwards, also when a creation fails or another process creates a part at the same time. Displaying arrays, bits and event lists prints every value in order in one line or one line per element, and rendering prints the duration in the named unit, the path and the progress of each block.",
 ["inputs","schedules","fault_sequences"],"all strings, paths, existing parts, failing creations and allocations, all arrays and lists, all durations and rates",
 "The test program includes these helpers but does not call most of them, and nothing reads what is printed.",
 [L+"string.h",L+"filesystem.h",ART,MAIN,SEQ],[("strings",L+"string.h"),("paths",L+"filesystem.h"),("displays",ART+": sp_times_display, sp_samples_display; "+SEQ+": sp_event_list_display; "+L+"helper.c: sph_helper_display_bits"),("progress",MAIN+": sp_render_file, sp_render_plot, sp_render_range_file")],["returned strings","created directories","captured standard output"])
p("M02","No call leaks, overruns its arrays or depends on uninitialised memory",
 "For arguments of the documented sizes and ranges no function reads or writes outside the arrays it was given and the memory it owns, uses memory after it was freed or frees it twice, performs an operation whose behaviour is undefined, or lets a decision, an address, written data or a returned value depend on memory that nobody initialised. What a call allocated and does not hand out is released when it returns.",
 ["inputs","histories","fault_sequences"],"all arguments and sequences of calls of all parts: arrays, statistics, filters, transforms, paths, events, sequencing, rendering, files, plotting, initialisation",
 "The tests run without sanitizers and memory errors of a few bytes, or reads of memory that happens to be zero, do not change the few values they compare.",
 [ARR,FIL,PATH,SEQ,MAIN,FILE,L+"helper.c"],[("array operations",ARR),("filter states and carryovers",FIL),("events and rendering",SEQ+" and "+MAIN),("paths",PATH+" and "+L+"spline-path.c"),("permutations, sorting and random selection",L+"quicksort.h and "+ARR)],["address, undefined behaviour and memory sanitizer reports","guard bytes","allocation ledger"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
