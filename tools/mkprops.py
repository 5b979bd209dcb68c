"""Regenerates properties.jsonl (the source of truth for ids, titles and statements)."""
import json, os
S="src/synthpix/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("D01","A finite pass delivers every stored sample exactly once, in order",
 "Without looping or shuffling, successive batches from a file scheduler, read until it signals exhaustion, contain every flow sample of every readable listed file exactly once, in list order (directories expanded in sorted order) and in slice order within a file, however the caller chops the pass into batch sizes. Only the last batch may be short: it is filled up with all-zero samples, and the validity mask and the per-sample file names mark exactly which entries are real and where each came from. After exhaustion further requests keep signalling exhaustion until a reset, after which the same pass is delivered again.",
 ["inputs","histories","configurations"],"all file lists (including repeated paths and directories), file formats, slice counts per file, batch-size sequences, and reset points",
 "Tests check shapes and one or two fixed batch sizes on mocks whose samples are mostly indistinguishable; they never tag samples, vary batch sizes within a pass, or list a path twice.",
 ["scheduler/base.py","scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py"],
 [("iteration cursor, per-file cache and slice index","scheduler/base.py:_get_next"),("batch stacking, padding, mask and file names","scheduler/base.py:get_batch")],
 ["return values of get_batch/reset of the three file schedulers"])
p("D02","Looping and shuffling deliver whole epochs: permutations, never losses",
 "With looping on, a file scheduler never signals exhaustion and its stream is a concatenation of complete passes over all samples, with fully valid batches. With shuffling on, every pass (the first, each later loop, and each pass after a reset) visits every file exactly once with its samples contiguous and in order, and only the order of files changes, as a function of the random key alone.",
 ["inputs","histories","configurations"],"all file counts and formats, batch sizes that straddle epoch boundaries, reset points, random keys",
 "Tests look at list lengths or one reshuffle; a lost, duplicated or interleaved sample at an epoch boundary depends on how the batch size divides the data.",
 ["scheduler/base.py"],[("loop wrap-around and reshuffle","scheduler/base.py:_get_next"),("permutation at construction and reset","scheduler/base.py:reset")],
 ["get_batch stream","file names in batches"])
p("D03","Unreadable files are skipped without disturbing the others",
 "Files that cannot be read (truncated, corrupted, wrong content, missing fields, deleted after listing) are skipped, wherever they stand in the list: all samples of the readable files are still delivered, complete, in order and with their right file names, and none of the damaged file's data or a stale copy of another file appears. The scheduler always makes progress: a request returns or signals exhaustion even when no file at all is readable, looping or not.",
 ["fault_sequences","inputs","histories"],"all placements, kinds and moments of file damage, with and without looping and shuffling",
 "Tests have one corrupt-file case; they never combine several faults, faults at epoch boundaries, files vanishing mid-run, or all files bad.",
 ["scheduler/base.py","scheduler/mat.py","scheduler/hdf5.py","scheduler/numpy.py"],[("skip on load failure","scheduler/base.py:_get_next")],
 ["get_batch stream with files damaged on disk"])
p("D04","Stored flow fields and images reach the batch bit for bit",
 "At native size, the flow field and images of each delivered sample equal what the file stores, for HDF5 volumes of two components (one sample per index of the second axis), NumPy flow files with their two neighbouring JPEG frames, and MATLAB files of either generation (including channel-first flow fields), with first and second image never swapped and sample shapes as announced. Handing out a sample never exposes the caller to later changes: samples already delivered keep their values, and modifying them does not alter what is delivered later.",
 ["inputs","histories"],"all array shapes (non-square included), dtypes and values representable in each format, and all orders of access",
 "Tests compare shapes and constant arrays; transposition, swapped frames, wrong slice axis or aliasing with the cache are invisible on constant square data.",
 ["scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py"],[("format readers and slice extraction","scheduler/*.py:load_file,get_next_slice")],
 ["arrays returned by get_batch against arrays written by an independent writer"])
p("D05","Resizing MATLAB data keeps the flow consistent with the resized image",
 "When MATLAB data are resized to a requested height and width, flow field and both images come out exactly in that shape, and pixel displacements are rescaled by the width ratio horizontally and the height ratio vertically, so that they describe the same physical motion on the new grid. Constant and linear flow fields are reproduced (up to resampling at borders), flow values never leave the range of the scaled input, and data already in the requested shape are untouched.",
 ["inputs","configurations"],"all source and target shapes, including non-square, anisotropic, upscaling and downscaling, with and without images",
 "Tests use square 256/512 constant data where swapped axes, swapped ratios and swapped channels all give the same numbers.",
 ["scheduler/mat.py"],[("resize and ratio scaling","scheduler/mat.py:load_file")],["get_batch of the MATLAB scheduler, real-image sampler batches"])
p("E01","Episodes are contiguous, step-aligned runs of one sequence per lane",
 "Within an episode, every batch lane delivers consecutive frames of a single directory, starting at an admissible start and advancing by exactly one listed frame per step, for all steps of the episode; lane i keeps its sequence throughout, and every delivered frame is the stored frame. This holds for every episode, with repeated starts, with shuffling or looping on in the underlying scheduler, after resets and early moves to the next episode, and a dataset whose directories are too short is rejected.",
 ["histories","inputs","configurations"],"all directory layouts, episode lengths, batch sizes (larger than the number of starts too), keys, and interleavings of steps, resets and skips",
 "Tests follow a single seeded episode with a plain configuration; collisions of starts, reshuffling and multi-episode histories are not sampled.",
 ["scheduler/episodic.py","scheduler/base.py","utils.py"],[("start enumeration","scheduler/episodic.py:_calculate_starts"),("interleaved file order injected in the base scheduler","scheduler/episodic.py:_sample_new_episodes")],
 ["files and flow contents of each batch"])
p("E02","Episode bookkeeping: exact length, one done flag, clean restarts",
 "An episode yields exactly its configured number of steps: the number of remaining steps decreases by one per delivered batch, the done flag is set for all lanes on the last step and on no other, and asking for more signals the end of the episode without consuming data until the next episode or a reset begins. Moving to the next episode or resetting at any step starts a full-length episode; the same holds through the prefetching wrapper and through samplers.",
 ["histories","configurations","schedules"],"all sequences of step, next-episode, reset and over-read, with and without prefetching, in both samplers",
 "Tests run one episode straight through; off-by-one behaviour after early skips, resets or over-reads needs long mixed histories.",
 ["scheduler/episodic.py","scheduler/prefetch.py","sampler/base.py"],[("step counters","scheduler/episodic.py:get_batch,steps_remaining"),("done flag","sampler/base.py:__next__,_make_done")],
 ["steps_remaining, done, EpisodeEnd"])
p("P01","Prefetching is invisible: same batches, same order, none lost",
 "The sequence of batches a consumer gets through the prefetching wrapper, until it signals the end, is exactly the sequence the wrapped scheduler produces: nothing lost, duplicated, reordered or altered, whatever the relative speed of producer and consumer (within the configured waiting times), the buffer size, and the pauses of the consumer. The end of the stream is signalled only after the last batch was delivered, and a failure of the wrapped scheduler is reported as a failure rather than as a normal end.",
 ["schedules","histories","configurations"],"all producer/consumer timings, buffer sizes, stream lengths, several consumers, resets in between",
 "Tests use instant producers and consumers with short streams; losing the oldest batch when the consumer is slow at the end of the stream needs a specific timing.",
 ["scheduler/prefetch.py"],[("worker loop, bounded queue and end-of-stream marker","scheduler/prefetch.py:_worker"),("consumer side","scheduler/prefetch.py:get_batch")],
 ["event log of produced and consumed batches"])
p("P02","Skipping an episode under prefetching never mixes episodes",
 "With prefetching over an episodic scheduler, after moving to the next episode (at any step, at any moment of the background loading, even when loading is slower than the allowed flush time) or after a reset, the consumer receives a complete episode from its first step; no batch of the abandoned episode is ever delivered after the skip, and no batch of the new episode is lost. A read that gives up waiting delivers nothing and counts as no step of the episode.",
 ["schedules","histories"],"all skip positions, loader speeds, buffer sizes smaller and larger than an episode, repeated skips, flush time limits",
 "Tests skip once with an instant loader and check counters, not the contents that follow.",
 ["scheduler/prefetch.py","scheduler/episodic.py"],[("flush of the remaining steps","scheduler/prefetch.py:next_episode"),("episode switch in the worker","scheduler/prefetch.py:_worker")],
 ["(episode, step) tags of delivered batches"])
p("P03","Prefetching lifecycle: reset and shutdown always complete cleanly",
 "Shutting down or resetting the prefetching wrapper at any moment returns in bounded time and leaves no background thread once the current load has finished; shutting down repeatedly, or before first use, is harmless, and shutting down releases a consumer blocked in a request. After a reset the stream restarts from the beginning with no leftover batch, and at most one background thread touches the wrapped scheduler at any time.",
 ["schedules","histories","fault_sequences"],"all interleavings of get, reset, next-episode and shutdown with the background thread in any state (idle, loading, blocked on a full buffer, at end of stream, failed)",
 "Tests stop an idle or freshly filled pipeline; the windows between freeing a slot and stopping the thread are microseconds wide unless delays are injected.",
 ["scheduler/prefetch.py"],[("stop event, slot release and join","scheduler/prefetch.py:shutdown,reset")],
 ["threading.enumerate, call log of the wrapped scheduler, wall-clock bounds"])
p("P04","Prefetching runs ahead of the consumer, within its buffer and its timeouts",
 "A prefetching scheduler loads ahead: while the consumer rests, as many batches as the buffer size become ready, and these are served even while the source is stalled. It never runs further ahead than the buffer plus the one batch waiting for a free place, counted from the last batch delivered or discarded, after resets and skipped episodes too. A first request (after construction or reset) waits up to the startup timeout, a later one up to the steady-state timeout; a request that gives up signals the end in bounded time and loses no batch. After shutdown nothing more is loaded.",
 ["schedules","configurations"],"all buffer sizes, source and consumer speeds, stalls, resets, skipped episodes and shutdown points",
 "Tests use immediate mock sources; how far ahead the worker runs and which timeout applies is invisible in the order of delivered batches.",
 ["scheduler/prefetch.py"],[("bounded queue and worker loop","scheduler/prefetch.py:_worker"),("startup and steady-state timeouts","scheduler/prefetch.py:get_batch")],["calls to an instrumented source vs batches delivered"])
p("R01","Same seed and data give the same stream, in every process",
 "Two pipelines built from the same configuration and files produce identical streams of images, flow fields, parameters, file names and episode layouts, in the same process, in another process, under another hash seed and with or without prefetching; resetting a sampler replays its image stream from the start. ",
 ["configurations","histories","schedules"],"all configurations (formats, shuffling, episodes, buffering), seeds, processes and reset points",
 "Tests compare at most two samplers in one process with one hash seed.",
 ["make.py","sampler/synthetic.py","scheduler/base.py","scheduler/episodic.py","utils.py"],[("key derivation","make.py:make"),("random state reset","sampler/synthetic.py:_reset"),("directory discovery order","utils.py:discover_leaf_dirs")],
 ["digests of whole streams from separate processes"])
p("R02","Randomness is fresh: seeds, batches, samples and devices all differ",
 "Different seeds give different image streams, shuffles and episode draws; within a run, image pairs of successive batches, of different batch entries and of different device shards come from independent particle populations, even when they share a flow field, and noise in the two images of a pair is independent. Start positions of episodes and shuffles cover all admissible choices rather than a fixed subset.",
 ["configurations","histories"],"all seeds, batch positions, batches, devices; statistical over many draws",
 "Tests never compare images across batch entries or seeds; correlated randomness leaves every shape assertion green.",
 ["sampler/synthetic.py","data_generate.py","generate.py","make.py","scheduler/episodic.py"],[("key splitting per batch, device and image","sampler/synthetic.py:_get_next; data_generate.py:scan_body")],
 ["image arrays, file orders"])
p("Q01","Reading never changes the data set and never holds on to it",
 "Whatever reads a data set (file schedulers with and without images, episodes, prefetching, speed calculation, whole pipelines), intact or with damaged files, no file or directory of it is created, removed, opened for writing or changed in content, time or mode, and data without write permission are read just as well. The number of its files open or mapped at any moment is small and does not grow with the number of files read, and after shutdown none is.",
 ["inputs","fault_sequences","histories"],"all formats, readers, kinds of damage, lengths and early stops",
 "Tests delete their temporary data right away; a leaked descriptor or a touched file shows only on large or shared read-only data sets.",
 ["scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py","scheduler/base.py","sanity.py"],[("file loaders","scheduler/mat.py:load_file; scheduler/hdf5.py:load_file; scheduler/numpy.py:load_file,get_next_slice")],["directory snapshots, audit events, /proc/self descriptors and mappings"])
p("Q02","Streaming is steady: requests cost no lasting memory, threads or compilations",
 "Once warmed up, a pipeline can serve any number of requests: with loops, resets and new episodes, buffered or not, the number of live device arrays, of threads, of open files and the memory in use do not grow with the number of requests served, nothing is compiled again for requests of the same shape, and the memory a file scheduler keeps does not grow with the number of files it has read.",
 ["histories","configurations"],"all lengths of runs, histories of resets and episodes, formats, buffers, device counts and generation options",
 "Tests draw a handful of batches; a leak or a recompilation per request leaves every delivered value right.",
 ["scheduler/base.py","scheduler/prefetch.py","scheduler/episodic.py","sampler/synthetic.py","sampler/real.py"],[("single-file cache","scheduler/base.py:_get_next"),("worker threads across resets","scheduler/prefetch.py:reset"),("compiled generation functions","sampler/synthetic.py:__init__")],["resource counters at checkpoints of long runs"])
p("M01","Every valid configuration yields a pipeline that honours all its options",
 "For every combination of file format, buffering, episode length, looping, shuffling, seed, number of flow fields per batch and batch size that the documentation allows, the factory returns a sampler that runs, delivers batches of the configured size and shape, draws the configured number of flow fields, and applies each option; a missing or ill-typed required setting is rejected with an error naming it, and what is no configuration at all (another type, no .yaml file, a missing one, one that holds no mapping) is refused. The caller's configuration is never modified, and a YAML file and the equivalent dictionary behave the same.",
 ["configurations","inputs"],"the product of all documented options, including unequal batch and flow-field counts under buffering or episodes",
 "Tests replace the schedulers and samplers by stubs when testing the factory, so the combinations are never run.",
 ["make.py","scheduler/__init__.py","sampler/synthetic.py","sampler/real.py"],[("wrapper construction","make.py:make"),("from_config constructors","scheduler/*.py:from_config")],
 ["batches from samplers built by the factory"])
p("S01","Images, flows, masks and file names of a batch entry belong together",
 "A synthetic batch entry i shows particles moved by exactly the flow field returned at position i; flow fields of a scheduler batch are assigned cyclically over the batch entries, each flow batch is used for exactly the configured number of consecutive image batches before the next one is fetched, and masks and file names are those of the flow batch in use. Real-image batches return images, flow, mask and file name of the same stored sample at the same position.",
 ["histories","configurations"],"all batch sizes, flow counts (dividing or not), reuse counts, resets and partial final batches",
 "Tests check counts or constant flows; a shifted tiling or stale metadata shows only with distinct flows per entry and a motion measurement.",
 ["sampler/synthetic.py","sampler/real.py","data_generate.py","utils.py"],[("flow reuse counter","sampler/synthetic.py:_get_next"),("tiling of returned flows vs cyclic selection in generation","utils.py:flow_field_adapter; data_generate.py:scan_body")],
 ["measured motion per entry vs returned flow, mask, files"])
p("S02","Every accepted geometry yields images and flows of the requested shape",
 "Whenever the sampler accepts a geometry, its batches contain image pairs of exactly the configured height and width and flow fields of exactly that shape times the configured velocities per pixel, all finite, with pixel values in [0, 255], in single precision; geometries whose image plus particle margin does not fit the flow field are rejected. This holds for every resolution, offset, time step, speed bound and diameter, whatever the rounding.",
 ["configurations","inputs"],"all real-valued resolutions, offsets, sizes, time steps, speed bounds; all odd/even/non-square shapes",
 "Tests use a handful of round numbers; off-by-one cropping appears only for particular floating-point combinations.",
 ["sampler/synthetic.py","data_generate.py","utils.py"],[("pixel rounding of bounds and offsets","sampler/synthetic.py:__init__"),("cropping","data_generate.py:scan_body")],
 ["shapes, dtypes and values of batches"])
p("S03","Spreading a batch over devices does not change what a batch means",
 "With any number of devices, a batch has the configured size (rounded up to a multiple of the device count), every image entry shows the motion of the flow field returned at the same position, every fetched flow field is used, and image content obeys the same contracts as on one device.",
 ["configurations","schedules"],"all device counts, device subsets, batch sizes and numbers of flow fields that the sharding accepts",
 "Tests check only the resulting batch size on several devices.",
 ["sampler/synthetic.py"],[("sharded generation and adaptation","sampler/synthetic.py:__init__,_get_next")],["batches on 4 virtual CPU devices"])
p("S04","Samplers deliver the scheduler's whole stream, then signal its end",
 "A sampler passes its scheduler's stream on completely and in order: a synthetic sampler uses each fetched batch of flow fields exactly the configured number of times, the real-image sampler once; after the last one it signals the end of the iteration, and keeps signalling it on every further request until it is reset, never repeating earlier data. A full reset restarts the scheduler and the iteration; a sampler-only reset drops the flow fields in hand and continues with the scheduler's next ones. A scheduler's failure surfaces as that failure, and the next request asks the scheduler again.",
 ["schedules","configurations"],"all histories of requests, resets and scheduler failures; all stream lengths, reuse counts and batch sizes",
 "Tests draw a few batches from endless schedulers and never iterate a finite stream to its end and beyond.",
 ["sampler/synthetic.py","sampler/real.py","sampler/base.py"],[("switching to the next flow fields","sampler/synthetic.py:_get_next"),("iteration and reset","sampler/base.py:__next__,reset")],["delivered tags vs a model of the scheduler's stream"])
p("G01","The second image shows the first moved by the returned flow",
 "In noise-free synthetic pairs, each particle seen in the first image reappears in the second displaced by the flow field at its position times the time step, converted with the image resolution: the horizontal component moves along columns, the vertical one along rows, signs included. The measured displacement agrees with the returned flow field in its announced unit (pixels, or measure units per second), for uniform, sheared and rotating fields, any resolution, offset, grid density and time step.",
 ["inputs","configurations"],"all flow fields within the speed bounds, all resolutions, anisotropic grids, offsets, time steps and output units",
 "Tests never measure motion in the images: shapes and statistics stay right when axes, signs or units are swapped.",
 ["data_generate.py","apply.py","utils.py","sampler/synthetic.py"],[("advection of particles","apply.py:apply_flow_to_particles"),("pixel/grid rescaling","data_generate.py:scan_body"),("unit conversion","utils.py:flow_field_adapter")],
 ["sub-pixel particle positions measured in both images vs returned flow"])
p("G02","Particles are rendered as the prescribed Gaussian spots",
 "A rendered image is the sum over particles of correlated two-dimensional Gaussians at the exact sub-pixel position, with peak equal to the particle's intensity, widths of half its diameters along columns and rows, and the given correlation; rendering is additive and order-independent, a moved particle set gives a moved image, and values are clipped to [0, 255] only at the end when requested. Pixels beyond a particle's patch are unaffected, and particles outside the image never corrupt it elsewhere (the renderer keeps spots whole: a centre nearer to the border of the rendered area than the patch radius is moved to that distance, so the samplers render a margin that is then cut away).",
 ["inputs","configurations"],"all particle sets, positions (borders and outside), diameters, correlations, intensities, image shapes",
 "Tests check one image's shape and value range.",
 ["generate.py"],[("patch rendering and scatter-add","generate.py:img_gen_from_data"),("Gaussian profile","generate.py:gaussian_2d_correlated")],["rendered arrays vs a float64 reference"])
p("G03","Particle populations follow the requested density and parameter ranges",
 "In every generated pair the number of particles over the seeded area equals the reported seeding density times that area (rounded down), the reported density lies in the requested range, and each particle's diameters, peak intensity and correlation lie within the range reported for that image, which is one of the requested ranges; over many images all requested ranges and the whole span of each range are used, and particle positions cover the seeded area uniformly.",
 ["inputs","configurations"],"all density, diameter, intensity and correlation ranges, numbers of ranges, batch sizes and keys",
 "Tests check output shapes; parameter values of individual particles are never measured.",
 ["data_generate.py"],[("sampling of ranges and particle parameters","data_generate.py:scan_body")],["parameters fitted to single-particle images vs reported ranges"])
p("G04","Hidden particles and frame-to-frame changes follow their settings",
 "Each particle is hidden in the first and in the second image independently with the two configured probabilities (never for 0, always for 1), without moving the others. Its diameters, intensity and correlation change between the frames by zero-mean variations of the configured variances, clipped to the image's ranges; with zero variance they are identical in both frames.",
 ["inputs","configurations"],"all probabilities and variances, statistical over many particles",
 "Tests only validate that the settings are within bounds.",
 ["data_generate.py"],[("visibility masks","data_generate.py:scan_body"),("second-frame perturbation","data_generate.py:scan_body")],["particles fitted in both frames"])
p("G05","Noise is added as configured and never leaves the valid range",
 "Uniform noise adds independent values in [0, amplitude), Gaussian noise adds the configured mean and standard deviation, each to both images independently and per pixel; with all noise settings at zero the image is only clipped. Results always stay within [0, 255], and noise never changes particle positions or parameters for the same seed.",
 ["inputs","configurations"],"all noise amplitudes, means, deviations, images and keys; statistical per pixel",
 "Tests reject invalid settings but never look at the noise.",
 ["generate.py","data_generate.py"],[("noise model and clipping","generate.py:add_noise_to_image")],["noisy minus noise-free images for the same key"])
p("G06","Masked pixels are black in both images, all others are untouched",
 "With an image mask (and no histogram), every pixel where the mask is zero is zero in both images of every pair, whatever the particles and the noise, and every other pixel equals the image that would have been generated without the mask; flow fields and parameters are unaffected. Masks of wrong shape or with values other than zero and one are rejected.",
 ["inputs","configurations"],"all binary masks, noise settings, image shapes, single and several devices",
 "Tests sum a few masked pixels for fixed masks.",
 ["data_generate.py","sampler/synthetic.py"],[("mask multiplication","data_generate.py:scan_body"),("mask checks","sampler/synthetic.py:from_config")],["masked vs unmasked runs with the same seed"])
p("G07","Histogram matching is a monotone remap onto the requested histogram",
 "Matching maps pixels of equal integer level to equal output level, preserves their order, and assigns to each level the smallest output level whose cumulative share in the template reaches the level's cumulative share in the source; the cumulative histogram of the result therefore never exceeds the template's by more than rounding, and matching to an image's own histogram changes nothing. In generated pairs this applies to both images, and templates that do not sum to the pixel count are rejected.",
 ["inputs"],"all images and all 256-bin templates (sparse, one-bin, non-integer) of matching total",
 "Tests check identity, one ramp and one constant image.",
 ["utils.py","data_generate.py","sampler/synthetic.py"],[("CDF matching","utils.py:match_histogram")],["outputs vs an exact rational-arithmetic reference"])
p("G08","The visible area is evenly seeded in both frames, up to its borders",
 "When all velocities stay within the configured speed bounds, with room for a particle's patch radius, both images of a pair are evenly covered by particles up to their borders: whatever the direction of motion and however different the bounds for the two axes and directions, no strip along a border is on average darker or brighter than the interior, in the first or in the second frame (particles that leave are made up for by particles that enter).",
 ["inputs","configurations"],"all uniform motions within the bounds, speed bounds per axis and direction, offsets, resolutions, time steps, densities and hiding probabilities; statistical over many images",
 "Tests never look where in an image particles are missing; a margin too small by a few pixels starves one border of the second frame only.",
 ["sampler/synthetic.py","data_generate.py"],[("seeded area around the image","sampler/synthetic.py:__init__"),("positions and cropping","data_generate.py:scan_body")],["border strips vs interior brightness over hundreds of images"])
p("F01","The returned flow is the imaged region of the stored field, in its units",
 "The flow field returned with a batch equals the stored field interpolated over the area covered by the image (given by offset, resolution and flow field size), with rows and columns in image orientation, sampled with the configured number of velocities per pixel, and scaled to pixels per frame or left in measure units per second as announced. Padding used to make room for particles near the edge never shifts or alters the imaged region by more than one grid cell.",
 ["inputs","configurations"],"all stored fields, grid densities (anisotropic), offsets, resolutions, margins requiring edge padding, output units",
 "Tests use uniform or central-vector fields, where crops from a wrong place look right.",
 ["utils.py","sampler/synthetic.py"],[("crop and resample","utils.py:flow_field_adapter"),("offsets and zero padding","sampler/synthetic.py:__init__")],["returned flow vs float64 reference on coordinate-encoding fields"])
p("A01","Interpolation is exact multilinear interpolation with edge clamping",
 "Bilinear and trilinear sampling return stored values at grid points, the multilinear blend of the surrounding values in between, and the nearest edge value outside; results stay within the range of the surrounding values, and linear fields are reproduced exactly inside.",
 ["inputs"],"all image and volume shapes (one-pixel axes too), coordinates inside, on and beyond the border",
 "Tests check a few points.",
 ["utils.py"],[("interpolators","utils.py:bilinear_interpolate,trilinear_interpolate")],["outputs vs float64 reference"])
p("A02","Image warps move content along the flow and conserve what they should",
 "Backward warping samples the image at each pixel minus velocity times time step; forward warping deposits each pixel at its position plus velocity times time step, conserving total brightness up to what leaves the image. For integer uniform flows both equal the shifted image, zero flow or zero time leaves it unchanged, and warping with an analytic flow function equals warping with that function sampled on the pixel grid (also as sampled by the array generator), horizontal coordinate first.",
 ["inputs"],"all images, flows, time steps, non-square shapes, analytic flow functions of time and position",
 "Tests move one pixel one step to the right and otherwise check shapes; position-dependent or vertical flows are never checked.",
 ["apply.py","utils.py"],[("warps","apply.py:apply_flow_to_image_*"),("array sampling of a flow function","utils.py:generate_array_flow_field")],["warped images vs float64 reference"])
p("A03","Particles are advected by the interpolated velocity in the right axes",
 "Each particle moves by the velocity interpolated at its position times the time step times the grid resolution of that axis, in two and in three dimensions, each velocity component acting on its own axis only; particles are independent of each other and of their order, and zero time or zero flow leaves them in place.",
 ["inputs"],"all particle sets, 2-D and 3-D flow fields, resolutions per axis, time steps",
 "Tests use constant fields with unit resolution; only shapes are checked for varying ones.",
 ["apply.py"],[("2-D and 3-D update","apply.py:apply_flow_to_particles")],["new positions vs float64 reference"])
p("V01","Generation settings are validated completely and updated faithfully",
 "A generation specification is accepted exactly when every documented constraint holds (types, shapes, signs, ordering of ranges, probabilities, open correlation interval, positive time step), and rejected with an error otherwise; the same check applies when a specification is derived from another, which changes the named fields and no other and leaves the original untouched.",
 ["inputs","configurations"],"all single- and multi-field mutations of valid specifications, including boundary values",
 "Tests try a few bad values per field; derived specifications are never compared field by field.",
 ["types.py"],[("validation","types.py:ImageGenerationSpecification.__post_init__"),("derivation","types.py:ImageGenerationSpecification.update")],["accept/reject decisions vs an independent table of constraints"])
p("V02","Batches and parameters survive JAX transformations and updates unchanged",
 "Batches and generation parameters keep every field in its place through flattening and rebuilding, tree mapping and (without file names) compiled functions, including absent optional fields; deriving an updated batch changes exactly the named fields, can set a field to nothing, and leaves the original untouched.",
 ["inputs"],"all combinations of present and absent fields and of updated fields",
 "No test round-trips these containers or updates more than one field.",
 ["types.py"],[("pytree registration","types.py:tree_flatten,tree_unflatten"),("update","types.py:update")],["field-by-field comparison"])
p("V03","Invalid requests are refused at the door, valid ones accepted",
 "Schedulers, wrappers, samplers and argument checkers accept every argument combination within their documented domain and refuse, with a value or type error at construction or on the call itself, each argument outside it: file lists that are not lists of existing files of the format (with their images when those are wanted), flags that are not booleans, sizes, lengths, timeouts, resolutions and seeds of wrong type or sign, episodes longer than a sequence, unordered speed bounds, unknown units and devices, masks and histograms of wrong shape, values or total, images that with the reach of their particles do not fit into the flow field, missing configuration entries, samplers of real images without images. Refused requests leave the stream undisturbed.",
 ["inputs","configurations"],"all arguments of the public constructors and checkers, each made invalid in turn in otherwise random valid calls; all image placements near their limits",
 "Tests try single invalid values around one fixed valid call; boundaries (exactly fitting geometry) and refusals in mid-stream are not explored.",
 ["scheduler/base.py","scheduler/mat.py","scheduler/numpy.py","scheduler/hdf5.py","scheduler/episodic.py","scheduler/prefetch.py","sampler/synthetic.py","sampler/real.py","data_generate.py","utils.py","apply.py"],
 [("constructor checks","sampler/synthetic.py:__init__; scheduler/base.py:__init__"),("argument checkers","utils.py:input_check_flow_field_adapter; data_generate.py:input_check_gen_img_from_flow; apply.py:input_check_apply_flow")],["accept/refuse decisions vs an independent table"])
p("K01","Updating a configuration file changes only the requested keys",
 "After updating a YAML configuration file, loading it gives the old configuration with exactly the requested keys replaced or added, all others unchanged in value and type, including nulls, booleans, strings that look like other types, lists, nested values and the file list; numeric array values are stored as plain numbers.",
 ["inputs"],"all YAML-representable configurations and updates",
 "Tests use one configuration of plain numbers.",
 ["sanity.py"],[("file rewriting","sanity.py:update_config_file")],["configuration loaded before and after"])
p("K02","Computed speed bounds enclose every stored velocity, tightly",
 "The speed bounds computed for a list of HDF5 files are exactly the minimum and maximum of the horizontal and vertical velocity components over all files and positions, independent of file order; when the configuration lacks bounds and the user asks to compute them, exactly these values are written and returned in the right order, existing bounds are returned untouched, and a sampler built with them accepts the flow fields they describe.",
 ["inputs","configurations"],"all file sets, array shapes (volumes and single fields), value ranges including all-negative and all-positive, and sets of missing bounds",
 "Tests only check that minimum is below maximum.",
 ["sanity.py"],[("running extrema","sanity.py:calculate_min_and_max_speeds"),("interactive completion","sanity.py:missing_speeds_panel")],["returned values vs NumPy over all data"])
# anchors of T01 lie outside the package
p("T01","Data set preparation keeps every complete sample, its motion and its split",
 "Run end to end, the preparation scripts turn every complete triplet found anywhere below the raw folder or in its archives (flow as .flo or .mat in either channel order, two images) into one packed file at the mirrored place, which the MATLAB scheduler reads back: flow and images unchanged at the original size, otherwise the flow resampled with its vectors scaled to the new size along each axis; incomplete or damaged triplets are left out without affecting others. The official training list is partitioned into train, validation and tuning lists of the requested shares, the same for the same seed, the test list is kept, and each listed sample, and no other, is copied unchanged into its split's folder.",
 ["inputs","configurations"],"all raw layouts, archives, flow formats and kinds of damage, target sizes, list styles, shares and seeds",
 "No test runs the scripts.",
 ["../../scripts/download_piv_1.py","../../scripts/download_piv_2.py","../../scripts/utils.py"],[("conversion and resampling","../../scripts/download_piv_1.py:convert,pack_triplet,resize_flow"),("splits","../../scripts/download_piv_1.py:fetch_splits,perform_split")],["files produced in a scratch directory, read back through the scheduler"])
a=P[-1]["anchors"]
a["files"]=[f.split("../../")[-1] for f in a["files"]]
for m in a["mechanism"]: m["where"]=m["where"].split("../../")[-1]
# C01 is anchored partly outside the package
p("C01","The command-line tools show the pipeline's own batches and judge configurations",
 "The visualiser (src/main.py) saves, for every batch the configured pipeline yields up to the one after which the user declines to go on, the first entries (as many as requested, at most the batch size): first and second image under their own name as grey pictures equal to the batch's images up to one increasing linear scale, and a quiver plot whose arrows equal the entry's flow at the pixels they stand for. It asks once per batch, goes on only for y or Y, asks and draws nothing when no picture is requested, creates the output folder, ends normally when the data end or the user stops, and leaves neither background loading nor changed inputs behind. The sanity script ends with success exactly for configurations from which a pipeline can be built (missing, unreadable and invalid ones end with an error), and leaves a complete configuration as it was.",
 ["inputs","configurations","histories"],"all pipelines without episodes, requested numbers of pictures, answers, image shapes and configurations",
 "No test runs either program.",
 ["../main.py","sanity.py"],[("batch loop, prompts and shutdown","../main.py:main"),("pictures and arrows","../main.py:visualize_and_save"),("verdict","sanity.py:main")],["files, prompts, exit status and threads of the running program against the same configuration's batches"])
a=P[-1]["anchors"]
a["files"]=["src/main.py","src/synthpix/sanity.py"]
for m in a["mechanism"]: m["where"]=m["where"].replace("src/synthpix/../main.py","src/main.py")
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P: q["statement"]=q["statement"].strip()
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
