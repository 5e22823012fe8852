"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01","Background prefetch delivers every frame once, in order, then ends",
  "Iterating a video through the background-thread iterator (video.threaded) yields exactly the frames of the source, each once, unchanged and in source order, and then ends normally, for every queue size, producer/consumer speed and thread schedule. The producer never runs further ahead of the consumer than the requested queue size allows (plus the one frame it is holding), and the consumer never waits forever once the source has ended. If the source raises, the consumer first receives every frame produced before the failure and then gets the source's exception, never a video that looks complete.",
  ["schedules","inputs","fault_sequences"],"every interleaving of producer and consumer, every queue size (unbounded included), source length (0 included), frame delay, stall, clock jump and source failure point",
  "The suite never calls threaded(); one run of it would sample one schedule of the OS and no failing source.",
  ["cddm/video.py"],[("worker thread + Queue + end marker","cddm/video.py: threaded")],[("q","frames in flight","cddm/video.py: threaded")],["frames yielded by threaded(video)"])
p("C02","Threaded playback delivers every frame whatever the display does",
  "Iterating video.play_threaded yields exactly the source's frames, each once, unchanged and in order, and then ends, whatever the fps setting (or none), the speed of the source, of the display and of the consumer, the thread schedule and jumps of the system clock. It finishes within a bounded number of steps after the source has ended, and a source failure reaches the consumer after the frames that preceded it. When playback ends or is abandoned no live figure stays registered, so a later playback shows only its own figures. While playback waits for a source it has caught up with, it draws the waiting image of every registered figure and lets the windows update.",
  ["schedules","inputs","fault_sequences"],"every interleaving, fps value, delay, display stall, forward/backward clock jump, failure point and abandonment point",
  "The suite never calls play_threaded(); the polling and blocking delivery loops depend on real clock and scheduler.",
  ["cddm/video.py"],[("worker thread + Queue + fps-paced delivery loops","cddm/video.py: play_threaded")],[("_FIGURES","live figures waiting to be drawn","cddm/video.py")],["frames yielded by play_threaded(video)"])
p("C03","Real-time playback never alters or loses frames and honours max_delay",
  "Iterating video.play yields exactly the source's frames, each once, unchanged, in order and without reading ahead, whatever fps, max_delay, display speed, consumer speed and system-clock behaviour are. Display work for frame i is done only while the time since playback started is below i/fps + max_delay, so a slow display makes playback skip drawing, never frames, and playback that keeps up draws every registered figure that has a new image and lets the windows update. Source failures and abandonment pass straight through and leave no live figure registered.",
  ["schedules","inputs","fault_sequences"],"every sequence of source, display and consumer delays, clock jumps, failure and abandonment points",
  "The suite never calls play(); its decisions depend on the wall clock, which a test cannot steer.",
  ["cddm/video.py"],[("elapsed-time gate","cddm/video.py: play")],[("_FIGURES","live figures","cddm/video.py")],["frames yielded; images handed to the display backend"])
p("C04","Live figures show true frames in order and never disturb the video",
  "show_video, show_fft and show_diff pass every frame of the video through unchanged, once and in order, without blocking on or failing because of a slow, stalled or never-polled display. Every image drawn in a live figure is the image of one frame of that figure's own stage (the selected camera, normalised as documented), images of one figure are drawn in video order, none is drawn twice, and at most one image per figure waits to be drawn. Figures created without a title get distinct titles, so several live views of one video never take each other's place, and each figure opens one window.",
  ["schedules","inputs"],"every interleaving of producing thread and displaying consumer, every display stall, any number and order of live stages in the pipeline (0 to 4 figures)",
  "The suite does not exercise live display; which frame is drawn depends on the schedule of two threads.",
  ["cddm/video.py"],[("one-slot queue per figure, filled only when empty","cddm/video.py: show_video, show_diff"),("ImageShow backend","cddm/video.py: ImageShow")],[("_FIGURES","title -> (viewer, one-slot queue)","cddm/video.py")],["images passed to the display backend; frames yielded"])
p("C05","Streaming correlation equals its definition for every chunking",
  "iccorr and iacorr (and the linear part of iccorr_multi and iacorr_multi) give, for every chunk size, number of frames, n, method, normalisation flag, thread divisor, mask, real or complex mode and integer frame times whose spacing keeps pairs with delay below n within one neighbouring chunk, the correlation (or difference), pair count and normalisation sums of the defining double sum over all frame pairs, each pair counted exactly once; with mode='chunk' exactly the pairs inside one chunk. The intermediate results handed out after each chunk equal the same definition over the frames consumed so far. It makes no difference whether the source yields fresh arrays, the same array several times or refills the same buffers, nor how the source is delayed, and the arrays of the source are left unchanged.",
  ["inputs","histories","configurations"],"every stream length, chunk boundary position, parameter combination and regular or irregular trigger history",
  "Tests compare a few fixed lengths and chunk sizes on one random data set, and never inspect results between chunks or in complex mode.",
  ["cddm/core.py","cddm/multitau.py","cddm/_core_nb.py"],[("ring buffer of two half chunks and pair accumulation","cddm/multitau.py: _compute_multi_iter"),("pair kernels with accumulation","cddm/core.py: ccorr, acorr; cddm/_core_nb.py")],[("fdata1, fdata2","last two half chunks of every level","cddm/multitau.py")],["results returned to the caller and to the viewer after every chunk"])
p("C06","Multi-tau levels are the recursive binning of the whole stream",
  "In the multi-level output of iccorr_multi and iacorr_multi, level j (j = 1, 2, ...) is the full correlation of the sequence obtained from the stream by halving it j times with the selected binning (mean of each pair; first of each pair, an unpaired last element included; or one randomly chosen element of each pair, the same one for both cameras and for the squared signal), with every pair of that sequence with delay below level_size counted exactly once. The result does not depend on the chunk size or on how many levels fit into a chunk, and for deterministic binning equals that of ccorr_multi and acorr_multi for the same data. This holds for every stream length, level_size, nlevel, method, normalisation flag, camera count and outcome of the random number generator, and the in-memory functions satisfy the same definition.",
  ["inputs","histories","configurations"],"every chunk size, length, number of levels, binning, method, flag, and every random-number outcome",
  "Tests compare streaming and in-memory results for single fixed sizes with mean binning; random selection cannot be compared without controlling the generator.",
  ["cddm/multitau.py"],[("per-level ring buffers","cddm/multitau.py: _add_data1, _add_data2"),("binning","cddm/multitau.py: mean/choose/slice_data")],[("out_slow","accumulated level data","cddm/multitau.py")],["multi part of the results"])
p("C07","Running background and variance are those of the frames seen",
  "With stats enabled the background and variance delivered with each intermediate and final result of the streaming correlators equal the mean and the variance (mean of the squared modulus of the deviation) over exactly the frames processed so far, per camera and per pixel, in the shape of the input frame with nan outside the mask. With auto_background the mean of exactly the first chunk is subtracted from every frame of that camera before anything is computed, so all results equal those obtained from explicitly subtracted frames.",
  ["inputs","histories","configurations"],"every length, chunk size, camera count, mask, thread divisor, and position in the stream",
  "Tests look at the final statistics of one or two fixed streams; values at intermediate chunks and auto_background with other options are never compared.",
  ["cddm/multitau.py","cddm/core.py","cddm/_core_nb.py"],[("running sums","cddm/multitau.py: _calc_stats, _calculate_background, _remove_background")],[("sum1, sqsum1, bg1","running statistics","cddm/multitau.py")],["background and variance in results"])
p("C08","A short or failing stream is an error, an over-long one is cropped",
  "A streaming correlation that receives fewer frames than it needs, or whose source raises, or whose viewer raises, ends with an exception (the source's or viewer's own in those cases) and never returns a result. Frames beyond the processed length never influence the result, and no frame beyond the first surplus one is taken from the source. After any such failure the next computation in the same process gives the same result as in a fresh one, and message verbosity is as the user set it.",
  ["fault_sequences","inputs","histories"],"every failure position (every frame, each chunk boundary, end of stream, each viewer update), stream length and later computation",
  "No test uses a source that fails or ends early.",
  ["cddm/multitau.py","cddm/core.py","cddm/print_tools.py"],[("length check after the loop","cddm/multitau.py: _compute_multi_iter")],[("CDDMConfig.verbose","switched off around inner computations","cddm/print_tools.py")],["return value or exception of iccorr, iacorr, iccorr_multi, iacorr_multi"])
p("C09","Concurrent computations do not influence each other",
  "Any number of correlation computations, streaming or in-memory, that run at the same time in different threads give each the result it gives when run alone, for every interleaving of the threads. The same holds for several video pipelines running side by side and for a prefetch thread feeding a computation. After all of them have finished the message verbosity is what the user last set.",
  ["schedules","inputs"],"every interleaving of two to four computations on different data and options",
  "The suite is single-threaded.",
  ["cddm/multitau.py","cddm/core.py","cddm/print_tools.py","cddm/video.py"],[("per-call buffers and accumulators","cddm/multitau.py: _compute_multi_iter; cddm/core.py: ccorr, acorr")],[("CDDMConfig.verbose","shared message level","cddm/conf.py"),("_VIEWERS","shared viewer registry","cddm/multitau.py")],["results of each computation; CDDMConfig.verbose"])
p("C10","Random triggering schedules are valid and cameras stay paired",
  "For every outcome of the random number generator, create_random_time returns strictly increasing integer trigger times, one per period of n and never closer than dt_min (1 <= dt_min <= n), and create_random_times1/2 return two sequences with one trigger per period of 2n whose offsets are those of the published schemes, so that no camera is triggered out of order. particles_video driven by such times yields exactly one frame (pair) per trigger (pair), the k-th pair showing the particle positions at t1[k] on camera 1 and at t2[k] on camera 2, for any strictly increasing trigger times, whichever camera fires first and however neighbouring pairs overlap; data_trigger yields exactly the elements at the requested distinct indices (possibly none), in order, and stops.",
  ["histories","inputs","fault_sequences"],"every random-number outcome (extremes included), trigger history, period, dt_min, and stream length, including streams that end early",
  "Tests use one random sequence; extreme draws (minimum spacing, coinciding triggers, camera 2 firing first) have vanishing probability in a fixed test.",
  ["cddm/sim.py"],[("trigger generators","cddm/sim.py: create_random_time, create_random_times1, create_random_times2"),("pairing of the two cameras","cddm/sim.py: particles_video"),("data_trigger","cddm/sim.py")],[("out1, out2","frame waiting for its partner","cddm/sim.py: particles_video")],["trigger arrays; frames yielded"])
p("C11","Loading a video stores every frame or reports failure",
  "asarrays, asmemmaps and load accept any iterable of multi-frames and return (for memmaps: leave on disk after flushing, readable with numpy.load) exactly the first-to-last frames of every camera, in order, with the frames' own shape and dtype. If the source ends early, fails, changes its frame shape or number of cameras, or the storage cannot be created or written, the call raises and never returns arrays that contain frames that were not delivered. Two videos stored under different base names, and the two cameras of one video, never mix, also when stored concurrently.",
  ["fault_sequences","inputs","schedules"],"every failure position, count, dtype, camera count, source type (list, tuple, generator, threaded), storage error (open, write, disk full) and interleaving of two loads",
  "Tests load complete in-memory generators only; no test uses a failing source or storage.",
  ["cddm/video.py"],[("allocate then fill","cddm/video.py: asarrays, asmemmaps, load")],[],["returned arrays; files on disk; exceptions"])
p("C12","Importing the configuration survives file faults, crashes and races",
  "Whatever happens to the user's configuration directory (missing, unwritable, full disk, I/O error on any operation, the importing process killed at any point, two processes importing for the first time at once, a configuration file left empty, truncated or garbled), importing the configuration module succeeds in that and in every later process (the home directory itself must exist), with every setting either the valid one in the user's file or its documented default. An existing user file is never modified, and once faults stop a first import leaves a complete copy of the template. Settings and environment variables with unusable values are ignored in favour of the file or default, and valid CDDM_* variables take precedence over the file. Afterwards each setter (FFT libraries, display library, verbosity, thread counts) returns the previous setting and changes only its own, and a value that is unsupported or whose library is missing changes nothing.",
  ["crash_points","fault_sequences","schedules","configurations"],"every file-system operation of the import as fault or crash point, every partial write, every interleaving of two importers, every content of the file and environment",
  "Import happens once per test process with a writable home; no fault or crash is ever injected.",
  ["cddm/conf.py"],[("copy template on first import, read, per-option fallback","cddm/conf.py")],[("~/.cddm/cddm.ini","user configuration","cddm/conf.py")],["outcome of import; settings; bytes of cddm.ini"])
p("C13","Video viewer stays truthful and responsive under any event history",
  "In VideoViewer, after any sequence of button, slider and play events on a source that can be indexed or only iterated, the image shown is the frame at the position the slider reports (for iterate-only sources never an earlier one than already shown), positions stay within the video, and the source of an iterate-only video is read strictly forward without skipping a frame silently. Playing or fast-forwarding ends after a bounded number of display updates by itself at the last frame, or promptly when stopped by the user at any moment, for every video length. A source that ends early or raises leaves the viewer usable with the last shown frame.",
  ["histories","schedules","inputs"],"every event sequence (events arriving during playback included), video length from 1 up, source kind and failure position",
  "No test drives the viewer.",
  ["cddm/viewer.py"],[("slider/button callbacks","cddm/viewer.py: VideoViewer")],[("id, index","position in the video","cddm/viewer.py")],["image artist data; slider value; number of GUI pauses"])
p("C14","Message control is restored after every operation",
  "The verbosity chosen by the user (set_verbose, disable_prints, enable_prints) is in force again after every computation, whether it returned, raised at any point, or was abandoned, and disabled printing stays disabled during and after any later computation: with printing disabled or verbosity 0 no progress or information message appears on standard output. Verbosity and printing never change any computed result.",
  ["histories","fault_sequences"],"every sequence of verbosity calls and computations, each with an exception injected at any message, kernel call, allocation or source frame",
  "Tests run with the default verbosity and without failures.",
  ["cddm/print_tools.py","cddm/multitau.py","cddm/core.py","cddm/conf.py"],[("disable/enable pair around inner calls","cddm/multitau.py; cddm/print_tools.py")],[("CDDMConfig.verbose","current level","cddm/conf.py")],["CDDMConfig.verbose; captured stdout"])
p("C15","Live correlation viewers get every k-th true intermediate result",
  "A viewer passed to iccorr, iacorr, iccorr_multi or iacorr_multi is updated (data set, then plotted) for the first available result and then for every viewer_interval-th one, in order and nothing else, and each update carries the data, and with stats the background and variance, of exactly the frames processed up to that moment. Attaching a viewer, whatever it does with what it is given except writing into it, and however slow it is, does not change the result, and the viewer is fed before further frames are taken from the source.",
  ["histories","configurations","schedules"],"every length, chunk size, viewer_interval, stats and mask option, viewer delay",
  "No test passes a viewer.",
  ["cddm/core.py","cddm/multitau.py"],[("viewer loop","cddm/core.py: iccorr, iacorr; cddm/multitau.py: iccorr_multi, iacorr_multi")],[("_VIEWERS","keeps viewers alive","cddm/multitau.py")],["calls received by the viewer object"])
p("C16","Seeding makes simulated experiments repeatable",
  "After sim.seed(s), building and reading the same simulated experiment in the same thread (random walk, particle video, camera noise, random trigger times, random video, random-selection binning) gives identical output every time, whatever random numbers were drawn before, however reading was interleaved with other deterministic work or delayed, and whether it was read at once or frame by frame. Reading a prefix gives the prefix of reading everything, and different seeds give different output.",
  ["histories","inputs","schedules"],"every prior history of draws, pipeline shape, seed, and pattern of delays and partial reads",
  "Tests check no repeatability after arbitrary histories; two generators (numpy's and numba's) must both be reset.",
  ["cddm/sim.py","cddm/_sim_nb.py","cddm/video.py"],[("seed both generators","cddm/sim.py: seed; cddm/_sim_nb.py: numba_seed")],[("numba per-thread generator state","random stream of compiled code","cddm/_sim_nb.py")],["frames and trigger times"])
p("C17","End-to-end live analysis equals offline analysis of the same frames",
  "A live pipeline (window, background subtraction, normalisation, Fourier transform with cropping, live figures, playback or background prefetch, streaming correlation) gives, for every thread schedule, delay, display stall and clock jump, the same result as performing each step on the stored frames with numpy and computing the correlation from its definition, and normalising, log-averaging or merging and k-selecting that result gives what the definitions of these steps give, without changing the result they were given. Every camera pair enters exactly once, and cameras are never swapped.",
  ["schedules","inputs","configurations"],"every interleaving of acquisition, display and analysis, pipeline composition, frame size and crop",
  "Examples run such pipelines but no test does; threads make each run different.",
  ["cddm/video.py","cddm/fft.py","cddm/multitau.py","cddm/core.py","cddm/norm.py","cddm/map.py","cddm/window.py"],[("generator pipeline over threads","cddm/video.py; cddm/fft.py")],[],["final correlation data, background and variance"])
p("C18","Video stages are lazy, one-to-one and leave the source intact",
  "Each video processing stage (crop, mask, subtract, add, multiply, normalize_video, rfft2_video, fft2_video, normalize_fft) produces for the k-th multi-frame of the source exactly one multi-frame with the documented operation applied to every camera, whichever FFT library is selected, without taking frame k+1 from the source before frame k has been delivered, so it works for live sources and sources that refill one buffer. Out-of-place stages never modify the frames of the source; in-place ones modify only the frames passed through them. A source exception reaches the consumer at its position and the frames before it are delivered, and stage arithmetic on two videos ends with the shorter one.",
  ["inputs","histories","fault_sequences"],"every composition of stages, source length, dtype, failure position, consumer stopping point and buffer reuse",
  "Tests compare one stage on a stored video; laziness, aliasing and failure position are never observed.",
  ["cddm/video.py","cddm/fft.py"],[("generator stages","cddm/video.py; cddm/fft.py")],[],["frames yielded; order of source reads; source arrays"])
p("C19","Correlation viewers show the current data under the current settings",
  "After any sequence of data updates, control events (indices, normalisation, scaling, k/angle/sector and averaging sliders, events handled while another is in progress included) and plots in DataViewer, CorrViewer, MultitauViewer and their array variants, the plotted curve equals the selected normalisation and average, computed from the latest data, background and variance for the settings currently shown by the controls. get_k and get_data answer for the same settings. No event raises, and no event changes the data it was given.",
  ["histories","inputs"],"every history of updates and control events, including updates arriving before the first plot and between events",
  "No test drives the viewers.",
  ["cddm/viewer.py","cddm/norm.py","cddm/map.py"],[("control callbacks","cddm/viewer.py: DataViewer, CorrViewer, MultitauViewer, *ArrayViewer")],[("norm, k, angle, sector","current settings","cddm/viewer.py")],["line data of the plot"])
p("C20","Accumulating results over many recordings is order-independent addition",
  "Passing earlier results as output (aout) of ccorr and acorr, for any sequence of recordings of any lengths computed with the same method, mode and flags, adds exactly the contribution of each recording: the accumulated correlation, counts and normalisation sums equal the sums of the separately computed ones, in whatever order recordings arrive and however several accumulations are interleaved. A call rejected for bad arguments or failing because the inputs do not fit leaves all accumulators exactly as they were.",
  ["histories","fault_sequences","inputs"],"every history of accepted and rejected calls on one or several accumulators, methods, flags, regular and irregular times",
  "Tests accumulate at most two recordings and never a rejected one.",
  ["cddm/core.py","cddm/_core_nb.py"],[("in-place accumulation into aout","cddm/core.py: ccorr, acorr and the functions they call")],[("aout","accumulated results","cddm/core.py")],["contents of the accumulator arrays after every call"])
p("C21","Precision, fastmath and parallel options change results by rounding only",
  "Whatever compile-time options are chosen before the package is imported (CDDM_DOUBLE_PRECISION, CDDM_TARGET_PARALLEL, CDDM_FASTMATH, or the entries of cddm.ini in the user's home directory, FFT libraries included), they are in force and every documented computation still works: streaming and accumulated correlations, statistics, normalisation, averaging, merging and their display, video processing, and simulated experiments give the values of the definition to within the rounding of the chosen precision. With the parallel target this holds for every way in which the work of a kernel is divided among worker threads and every order in which they proceed.",
  ["inputs","schedules","configurations","histories"],"every supported combination of the options (three are simulated), every input of the computations and every interleaving of the workers",
  "The tests run with the default options only, and a race of worker threads shows on some runs only.",
  ["cddm/conf.py","cddm/_core_nb.py","cddm/_sim_nb.py","cddm/core.py","cddm/multitau.py","cddm/norm.py","cddm/sim.py","cddm/fft.py"],[("dtype constants and numba options chosen at import","cddm/conf.py"),("kernels compiled for these","cddm/_core_nb.py, cddm/_sim_nb.py")],[("precision","FDTYPE, CDTYPE","cddm/conf.py"),("target","NUMBA_TARGET, NUMBA_PARALLEL","cddm/conf.py")],["values returned under each set of options; the options reported by cddm.conf"])
# pure-function properties: not simulation targets
def na(id,title,statement,text,files,mech):
    p(id,title,statement,["inputs"],text,"Tests sample a few inputs; the claim is over every input.",files,[(mech,files[0])])
na("N01","Correlation methods agree for in-memory data",
   "For in-memory data, method 'corr' and 'fft' of ccorr and acorr agree with each other and with the defining double sum, and the difference method with its algebraic identity, for all shapes, axes, alignments, masks and times.",
   "every array, axis, alignment and time vector",["cddm/core.py","cddm/fft.py","cddm/_core_nb.py"],"core correlation functions")
na("N02","Normalisations satisfy their algebraic definitions",
   "normalize with every supported flag, mode and scale equals its published formula, and every noise-free constant signal normalises to its known value.",
   "every data set and flag",["cddm/norm.py"],"normalize")
na("N03","Cropped Fourier transforms equal the full transform's centre",
   "rfft2_crop, fft2_crop and the k-map helpers select exactly the wave vectors up to kimax, kjmax, and k-selection and rotation functions partition the k-plane.",
   "every shape and crop",["cddm/fft.py","cddm/map.py"],"crop and map functions")
na("N04","Windows are symmetric and bounded",
   "Every window function returns an array in [0,1] of the requested shape with the documented symmetry and peak.",
   "every shape and parameter",["cddm/window.py"],"window functions")
na("N05","Log averaging and merging preserve counts and delay order",
   "multilevel, merge_multilevel, log_average and log_merge return strictly increasing delays whose values are the count-weighted averages of the linear data.",
   "every linear data set and size",["cddm/multitau.py","cddm/avg.py"],"log averaging functions")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
for d in P: assert len(d["title"])<=80, d["title"]
print(len(P))
