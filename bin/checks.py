"""The checks: which drivers decide which property, in which build of the repository, and what they cover."""
T = "exhaustive bounded enumeration (stateless model checking) of the real code against an executable reference model"
CHECKS = {}
def check(pid, runs, bounds, rule, technique=T, assumptions=(), level="model_checking", note="", **kw):
    CHECKS[pid] = dict(runs=[dict(harness=r) if isinstance(r, str) else r for r in runs], bounds=bounds, rule=rule, technique=technique, assumptions=list(assumptions), level=level, note=note, **kw)
def R(h, flavour="asan", **kw): return dict(harness=h, flavour=flavour, **kw)
ASAN = "memory errors are those AddressSanitizer/UBSan report"

check("C10", [R("convolution"), R("convolution", "atlas")],
  "inputs 1..4 (thorough 5) wide/high, kernels 1..3 (4), padding 0..2, strides 1..2 (3), 8 group/map combinations, 1..2 samples; pass histories up to 5 (6)",
  "an execution is one layer geometry with a fixed history of passes, one geometry with every unit weight/gradient, or one pass history; geometries with a non-trivial kernel or padding and more than one output row and column, and histories longer than 2, count as non-trivial",
  assumptions=["small integer data, for which float arithmetic is exact, stands for all data (the computation is linear in each argument)", ASAN])

check("C11", [R("pooling")],
  "all pooling geometries on images up to 4x4 (thorough 5x5) incl. overlapping regions, all orderings of a value alphabet with ties, negatives and the lowest float within regions, pass histories; inputs of more than 2^24 pixels per map",
  "an execution is one geometry with one value assignment and pass history; geometries with more than one region or ties count as non-trivial", assumptions=[ASAN])
check("C12", [R("activation")],
  "all shapes up to 4x4, 4 maps, 3 samples; all pairs of a value alphabet incl. extremes and gradient signs; normalisation sizes 1..5 (7), both modes, three parameter sets, and all combinations of 6 scales, 6 exponents (zero, above one) and data with large, negative and zero values; all combinations of H-max sparsity parameters and gradients",
  "an execution is one layer, shape and value assignment, with repeated passes; more than one element counts as non-trivial", assumptions=["functions are compared up to a relative error of 1e-5 (2e-5 for normalisation gradients)", ASAN])
check("C13", [R("datamove")],
  "shapes up to 6x6, 3 maps, 3 samples; borders 0..5 (7), factors 1..4, 1..4 accumulated outputs; every unit impulse in every input element and every unit gradient in every output element",
  "an execution is one layer geometry with all unit impulses and dense integer data; more than two output elements counts as non-trivial", assumptions=["layers are linear, so unit impulses determine them", ASAN])
check("C15", [R("loss")],
  "all shapes up to a bound, all assignments of a value alphabet to output, label and weight (also negative) of up to 2 pixels, dense data on larger shapes, more than 2^24 elements",
  "an execution is one shape and value assignment; several pixels count as non-trivial", assumptions=[ASAN])
check("C16", [R("matrix"), R("matrix", "atlas")],
  "matrix sizes 1..4 each, all transpositions, alpha/beta in a set, leading dimensions beyond the minimum, sample selections; all patch unrolling geometries up to 4x4; all scaling factors; both builds",
  "an execution is one kernel call with one geometry compared element by element with the definition; results with more than one element count as non-trivial", assumptions=["the ATLAS library is the BLAS implementation", ASAN])
check("C01", [R("tensor")],
  "all sequences of up to 3 (thorough 4) tensor operations over an alphabet of shapes, fills, copies of samples and maps, transpositions, moves; all sequences of up to 4 (5) ownership operations (resize, move, shadow, memory-map, destroy) over three tensors",
  "an execution is one operation sequence, compared after every step with a plain array model; sequences that change shape or ownership count as non-trivial", assumptions=[ASAN])
check("C02", [R("serial", tools=dict(TENSORSTREAMTOOL="tensorStreamTool"))],
  "all sequences of up to 3 tensors of 6 shapes (incl. empty and larger than a page) behind 0, 4060 or 4096 other bytes x all combinations of 5 reading modes with fresh or reused targets; files of up to 4 (5) tensors through the stream reader; the truncation tool for all counts; all page offsets of the beginning and end of two mapped tensors",
  "an execution is one file with all its reading mode combinations; more than one tensor counts as non-trivial", assumptions=["bit patterns cover signed zeros, NaN payloads, infinities and denormals", ASAN])
check("C03", [R("compress")],
  "all sequences of up to 5 (6) elements over 9 bit patterns chosen around the escape codes, all run lengths 1..600 around code boundaries, all byte values, all shapes",
  "an execution is one tensor compressed and decompressed in several ways; more than one element counts as non-trivial", assumptions=[ASAN])
check("C32", [R("torn")],
  "every prefix length of every file of up to 3 (4) tensors over 4 shapes and 2 patterns, float and compressed, by stream reader and by the three direct reading modes; files beyond a page cut around every page and record boundary",
  "an execution is one file cut at every byte; each cut inside the file counts as non-trivial", assumptions=["a crash during writing leaves a prefix of the file", ASAN])
check("C04", [R("streams", tools=dict(COMPRESSTENSORSTREAM="compressTensorStream"))],
  "all datasets of up to 2 (thorough 3) pairs of small shapes, three storage kinds (plain, compressed, converted by the tool), opened by content and directly, all CopySample requests (tensor index, sample, target shape, target sample) inside and outside the valid ranges",
  "an execution is one dataset with all its requests, or one dataset compared across its storage formats; more than one request or tensor counts as non-trivial", assumptions=[ASAN])
check("C05", [R("lists", tools=dict(MAKETENSORSTREAM="makeTensorStream", MAKECOMPRESSEDTENSORSTREAM="makeCompressedTensorStream"))],
  "all label images of up to 2 pixels over class colours and near-miss colours for all class tables of a set, all gray intensities, all lists of up to 3 pairs in different directories, three import paths",
  "an execution is one class table with one label image through the three import paths; more than one pixel or pair counts as non-trivial", assumptions=[ASAN])
check("C06", [R("images")],
  "all 256 values in each channel, all image shapes up to 4x4 with 1..4 channels and all file names of a set, all score maps of up to 2 pixels over a value alphabet with 1..3 classes, every prefix of and every single-byte damage to small PNG and JPG files",
  "an execution is one image written, read back and compared with independent PNG and JPG code, one score map, or one damaged file; all count except one-pixel images", assumptions=[ASAN, "libpng and libjpeg themselves are correct"])
check("C07", [R("fulldata")],
  "all datasets of up to 2 training and 2 testing images (thorough 3) over sizes around multiples of 64 and one-pixel sizes, class weights, error functions, every index and one beyond, every batch slot and one beyond",
  "an execution is one dataset configuration with all its requests; more than one image counts as non-trivial", assumptions=[ASAN])
check("C08", [R("patchdata")],
  "all datasets of up to 3 images over sizes from below the patch size to two patches wide, all patch sizes up to 4x4, every index and one beyond, training and testing; configuration files in 4 orders with all selections, 1..3 classes, colours, weights and error functions, streams of odd length",
  "an execution is one dataset with one patch size, all its indices enumerated; more than one patch counts as non-trivial", assumptions=[ASAN])
check("C09", [R("input")],
  "all histories of 8 (thorough 9) operations (batch, switch to testing, switch to training) for 1..4 (5) training and 0..3 testing samples and batch sizes 1..4 (5), both methods, with and without loss sampling; 24 passes with interleaved tests for up to 8 samples, batch sizes to 9, 4 seeds and 4 loss sampling probabilities; empty training or testing sets",
  "an execution is one history on one configuration, each batch compared with the stored samples and with the model of the order; histories with a mode switch and a complete pass count as non-trivial", assumptions=[ASAN])
check("C26", [R("stats")],
  "all call sequences of up to 6 (thorough 7) of register, initialise, start, stop, reset, update, snapshot, generate, set experiment over 2..3 statistics and sinks; all experiment names and file states of the CSV log (also files of earlier sessions), values that need all digits, under a controlled clock; all sequences of up to 7 (8) of new, delete, start/stop, forward, iteration, report over up to two layers with statistics of their own",
  "an execution is one call sequence compared with a model of the recorder; sequences with an update outside or inside recording followed by a report count as non-trivial", assumptions=["time is the controlled clock's", ASAN])
check("C27", [R("measures")],
  "all assignments of a score alphabet, label and weight to up to 2 pixels for 1..3 classes; all sequences of up to 5 (6) batches, updates, resets, reports, mode switches; dense batches of up to 3 samples of 5x5; counts beyond 2^24 pixels",
  "an execution is one assignment or sequence, measures compared with their definitions over the pixels seen; several pixels count as non-trivial", assumptions=["measures are compared up to a relative error of 1e-5", ASAN])
check("C29", [R("parsing")],
  "all lines of up to 7 (8) characters over two alphabets of 7; all lines of up to 3 settings out of 11 names and 17 values with 5 heads; 49152 numbers of three kinds",
  "an execution is one line queried for up to 6 settings by every parsing function; lines with an assignment or more than one setting count as non-trivial", assumptions=[ASAN])
check("C23", [R("factory"), R("factory", "plain", only="texts")],
  "all texts of up to 6 (thorough 7) characters over an alphabet of 8, and up to 5 (6) after 5 prefixes; every byte inserted or replaced at every position of 4 descriptions; all lists of up to 3 (4) of 14 settings with 4 seeds; 2700 parameter combinations of all known layers in several orders on 3 inputs, training and testing",
  "an execution is one text, list of settings or layer; valid texts with settings count as non-trivial", assumptions=["layers built by their constructors are right (C10 to C13)", ASAN])
check("C30", [R("segment", tools=dict(TENSORTOOL="tensorTool"))],
  "all images up to 5x5 (thorough 7x7) with 1..3 maps and 2 samples, all patch sizes up to 8x8 (10x10), with and without mean, 4 ignored classes; all sequences of up to 3 (4) of 8 commands of the tool on two tensors",
  "an execution is one image and patch size with all positions, or one tool session; more than one position and pixel or command counts as non-trivial", assumptions=[ASAN])
check("C31", [R("shapes"), R("shapes", "atlas")],
  "46 layer configurations of all layer classes; all input shapes up to 2 samples, 6x6, 4 maps, including empty ones; for layers of two and three inputs all combinations of small shapes differing in up to 2 (thorough 3) dimensions; 0..4 inputs with all null patterns; declared outputs and outputs changed, reshaped, swapped, missing, additional or null; both builds",
  "an execution is one layer with one list of inputs, connected to the declared and all altered outputs, two forward and backward passes where accepted; refused or valid combinations count as non-trivial", assumptions=[ASAN])
check("C17", [R("graph")],
  "all acyclic graphs of an input and 3 layers with 1..2 outputs and 1..2 inputs, every gradient flag, two (thorough four) insertion orders; all graphs of 4 (5) single-output layers in all 120 (24 of 720) insertion orders; all sequences of 4 (5) passes and mode changes with up to 3 inputs; all single defects for completeness and refusal",
  "an execution is one graph with a history of passes of instrumented layers; graphs in which an output is used more than once count as non-trivial", assumptions=[ASAN])
check("C18", [R("netgrad")],
  "all networks of 3 (thorough 4) layers over convolution, two activations, parametrised activation, sum and concatenation with every source and gradient flag, every set of loss layers, two losses on one output and a loss without gradient; repeated passes in several orders",
  "an execution is one network: all parameter gradients compared with forward-mode derivatives in double of an independent evaluation; networks in which an output is used more than once count as non-trivial", assumptions=["layers themselves are right (C10 to C15)", "gradients are compared up to a relative error of 2e-5; points within 1e-3 of a kink are left out", ASAN])
check("C19", [R("save")],
  "all chains of 1..3 (thorough 4) layers over two convolutions, ReLU, parametrised activation, forked and doubly used outputs in two insertion orders; all histories of 3 (4) out of initialise, save, load, partial load, change on two networks; every partial load, every cut of a file and files of all other networks of up to 2 layers",
  "an execution is one network with one history, all parameters of both networks compared bit by bit after each step; histories that end with equal parameters count as non-trivial", assumptions=["tensor files are right (C02)", ASAN])
check("C20", [R("trainrule")],
  "7 settings of both methods; all sequences of 4 (thorough 5) of 5 gradient vectors on 4 weights with 3 local learning rates; all histories of 5 (6) of epoch, two epochs, reset, set epoch, test with 1..3 sequential batches and 0..2 iterations; all label sizes, batch sizes, sequential batches up to 4, sampling probabilities and training ratios of a set",
  "an execution is one history through the real trainer with scripted gradients, all weights compared with the rule in double after each operation; more than one update counts as non-trivial", assumptions=["weights are compared up to a relative error of 3e-4; states within rounding of a QuickProp branch are left out", ASAN])
check("C21", [R("session")],
  "all sequences of 5 (thorough 6) of one epoch with report, two epochs, test, reset, set epoch, toggle training statistics under 3 settings of both methods with 1..2 sequential batches; all of 1..4 training, 1..5 testing samples, batches of 1..4, 1..3 sequential batches, 0..3 iterations, both methods, 1..2 losses, with and without training statistics and loss sampling in three mixed sessions",
  "an execution is one session on a real network with the real trainer and data layer; parameters are compared bit by bit with a twin session without the tests; sessions that train after a test count as non-trivial", assumptions=["the order of samples is that of C09", ASAN])
check("C22", [R("seeds")],
  "4 configurations in both methods, 2 (thorough 3) seeds, with and without loss sampling: all interleavings of build, initialise, train, test, train of two sessions with one (two) disturbances of 3 kinds, fresh memory filled with 2 pairs of patterns; all kernel shapes up to 3x3, 1..3 maps and kernels and pairs of 8 seeds for layers; pairs of 8 seeds for networks of 1..4 layers; pairs of 6 seeds in descriptions",
  "an execution is one interleaving of two sessions whose parameters, gradients and batches are compared bit by bit after each step, or one pair of seeds; interleavings and pairs of different seeds count as non-trivial", assumptions=["memory comes from operator new", ASAN])

check("C24", [R("netconfig")],
  "all programs of up to 3 (thorough 4) layer lines over all layer kinds in training and testing, patchwise and fully convolutional mode with several endings; all stack programs, all comment and unknown lines at all places, up to 4 (5) lines with several weighted outputs, manual receptive fields at all pairs of places with the method before or after them, 3 to 5 (6) reductions in a row up to 256 times, image sizes around the receptive field, all training settings with values of all kinds",
  "an execution is one configuration file: nodes, wiring, layer parameters, receptive field, output size and settings compared with an independent parser of the format; programs of more than one line count as non-trivial", assumptions=["layers built from descriptions are right (C23)", ASAN])
check("C25", [R("netmodes")],
  "all programs of up to 3 (thorough 4) convolution, pooling and activation lines over a set of kernel, stride and padding shapes, one and two classes; all image sizes of a set around the receptive field; every pixel inside the image",
  "an execution is one configuration built in both modes with the same parameters, every inner pixel compared with the output for its patch; programs with pooling or more than one convolution count as non-trivial", assumptions=["within-map local response normalisation and padded convolutions see beyond the patch and are left out", "values are compared up to a relative error of 1e-5", ASAN])
check("C28", [R("parallel", "omp", tools=dict(SEQUENTIAL="driver:parallel:plain"))],
  "every parallel loop of every layer, kernel and dataset at small shapes, run by a controlled scheduler with teams of 1, 2, 3 (thorough 4) and 250 threads in all orders of up to 4 threads and forwards and backwards beyond; per-byte read and write sets of every iteration checked for conflicts between all pairs, which makes all interleavings equivalent",
  "an execution is one layer, kernel, dataset, training run or image with all schedules, results compared bit by bit with each other and with the sequential build; loops with more than one iteration count as non-trivial", technique="stateless model checking of the real code under a controlled scheduler for its parallel regions, conflict detection on all iteration pairs (partial order reduction), comparison with the sequential build", assumptions=["memory accesses of library calls without instrumentation are those of memcpy, memset and BLAS arguments"])
check("C33", [R("gpu", "gpu", tools=dict(WITHOUT="driver:gpu:plain")), R("gpu", "gpublas", tools=dict(WITHOUT="driver:gpu:plain"))],
  "every kernel and every GPU-aware layer and matrix operation at all shapes of a set, on an emulated device with separate memory: work items in 4 orders, commands executed at once or as late as allowed, every placement of tensors on host or device; all sequences of up to 4 (thorough 5) moves, accesses and operations on tensors and shadows; both matrix libraries",
  "an execution is one kernel, layer, operation or sequence under all schedules compared with the CPU computation; more than one work item counts as non-trivial", technique="stateless model checking of the real host code and kernels on an emulated device under a controlled scheduler, conflict detection on all work-item pairs, comparison with the CPU code", assumptions=["kernels are compiled as C++ by the host compiler; the emulated device follows the OpenCL memory model for buffers and in-order queues"])
check("C34", [R("program", tools=dict(TRAINNETWORK="trainNetwork", CLASSIFYIMAGE="classifyImage"))],
  "all sessions of up to 3 (thorough 4) of 9 commands (train, train 2, test, save, load, partial load, reset, set epoch, statistics) on fully convolutional and hybrid networks of one and two classes, ended by quit, end of input, or no line end; 31 unknown, incomplete or damaged commands at 3 places; images of all sizes up to 10x10 (18x18) through the classification program, and of up to 50x50 (70x70) with networks that pool by 16 and 32 and step",
  "an execution is one session of the real program, all parameter files compared bit by bit with the same session through the library, or one image; more than one command counts as non-trivial", assumptions=["the library is right (C17 to C21)", ASAN])
check("C35", [R("gradtest", tools=dict(TRAINNETWORK="trainNetwork"))],
  "all layers of up to 5 (thorough 6) parameters in 1..2 sets with gradients wrong by 9 kinds of factors and 0..3 skipped; all networks of 2..3 of 4 (6) such layers in 3 wirings with one or several losses, with layers not to be tested; all layers of up to 14 (16) elements with up to 3 wrong gradients at all places; the training program's gradient check on 4 networks",
  "an execution is one network or layer checked by the real gradient checker: parameters seen in every forward pass, verdict and summary compared with the known factors; networks with wrong gradients count as non-trivial", assumptions=["losses are linear in the parameters, so that central differences are exact up to rounding", ASAN])
check("C37", [R("damage")],
  "every byte of every file of 1..2 (thorough 3) tensors over 4 shapes and 3 patterns, plain and compressed, changed by every bit and to the extreme values (thorough: to all 255 others); all pairs of header bytes with 9 pairs of values; all compressed texts of up to 6 (7) bytes over the encoder's alphabet for 1..3 declared elements; a tensor of one large dimension (to 300, thorough 1025) between two small ones, with every header byte and bytes at the ends and around multiples of 64 changed",
  "an execution is one file with all its changes; each changed file read in all ways counts as non-trivial", assumptions=["memory beyond a megabyte is refused, like on a machine without it", ASAN])
check("C36", [R("report", tools=dict(TRAINNETWORK="trainNetwork", TENSORSTREAMSTATS="tensorStreamStats", RUNBENCHMARK="spy:runBenchmark"))],
  "all graphs of up to 3 (thorough 4) layers with 0..2 outputs and 1..2 inputs and every gradient flag; all networks of up to 2 (3) of 9 layer lines; all tensors of up to 5 (6) elements over an alphabet of 8; the reporting commands on every node of 4 networks after 1..2 epochs; the benchmark program with 1..5 (9) parallel inputs and the built-in network, its passes and statistics calls recorded; all datasets of up to 2 images of 4 (5) sizes with 1..3 classes, 3 sets of weights and 5 label patterns; tensors of more than 2^24 elements",
  "an execution is one graph, tensor, session or dataset: the printed text is parsed and compared with the structure, the elements or a recount; graphs of more than one layer and more than one class count as non-trivial", assumptions=["printed numbers have 6 digits", ASAN])
check("C38", [R("initw")],
  "all networks of up to 3 (thorough 4) of 14 layers, with and without losses at their ends, of 3 of 6 layers with every gradient flag, and of 4 (5) of 5 (4) layers, each with every wiring and inserted in 3 orders, initialised twice; the spread of large layers",
  "an execution is one network: the range, scale and count of all weights, biases and the gain of every layer compared with the definition; layers read by several others count as non-trivial", assumptions=[ASAN])

check("C39", [R("startup", "gpu", tools=dict(WITHOUT="driver:startup:plain")), R("startup", "gpublas", tools=dict(WITHOUT="driver:startup:plain"))],
  "all machines of up to 3 platforms with 0..2 devices x configuration files of up to 2 settings beside the program, one folder up, or nowhere, or at both with the one above to be ignored; every placement of every kernel file; every single failing call of start-up with every error code of a set; every single failing call of every matrix operation, tensor move, shadow and GPU-aware layer, both matrix libraries, and of a training run of 4 networks (16 of 64 settings, thorough all); all log levels",
  "an execution is one start of one machine, or one operation run once for each device call it makes with that call failing; starts with a choice and operations with at least one call count as non-trivial", technique="exhaustive fault injection into the real host code on an emulated OpenCL device, enumeration of machines and configuration files", assumptions=["a failing call has no effect on the device"])

FAULTY = "compressTensorStream makeTensorStream makeCompressedTensorStream tensorStreamTool tensorTool classifyImage trainNetwork tensorStreamStats".split()
check("C40", [R("iofaults", tools={t.upper(): "fault:" + t for t in FAULTY})],
  "15 runs of 8 programs on files of up to some kilobytes: every open, read, write, map and close of a file failing once and from then on; files limited to every length (thorough; quick every 3rd or 7th for the long ones); every input missing or a folder, every output a folder; reads and writes of 1..14 (40) bytes at a time",
  "an execution is one run of a program disturbed at some points, one run for each, compared with the undisturbed run; each counts as non-trivial", technique="exhaustive fault injection into the real programs (every file operation, every disk size), with the undisturbed run as the oracle", assumptions=["failing operations have no effect", ASAN])

# bodies that let sizes grow: one at a time over 5..40 and around powers of two up to 300 (thorough 5..300 and up to 1025), pairs of them over 7..33
LARGE = {"C10": "image, kernel, maps, samples, groups", "C11": "image, region, maps, samples", "C12": "image, maps, samples, normalisation", "C13": "image, maps, samples, borders, factors, number of inputs and outputs", "C15": "image, maps, samples",
  "C16": "all matrix, vector and patch dimensions", "C01": "all dimensions", "C02": "tensors in a file and their dimensions", "C03": "elements and runs", "C04": "tensors and their dimensions", "C05": "entries, classes and image size", "C06": "image size, classes, samples", "C07": "images, classes, batch, image size", "C08": "images, classes, patch and image size, batch",
  "C09": "samples, batch, image size", "C26": "statistics, sinks, reports", "C27": "classes, image, samples, batches", "C29": "names, values, settings, text in front", "C23": "names, settings, values, kernels, kernel size", "C30": "image, patch, maps, samples", "C17": "layers in a row, consumers, inputs and outputs of a layer, ladders", "C19": "layers",
  "C20": "weights, parameter tensors, iterations, sequential batches, batch, label size, epochs", "C21": "samples, batch, sequential batches, iterations", "C24": "layers, kernels, kernel size, classes, stacked outputs, lines", "C34": "commands in a session", "C35": "elements, parameter sets, layers, skipped elements", "C36": "tensor dimensions", "C38": "layers in a row, consumers of a layer"}
LARGE.update(C18="image, maps, samples, length of a chain, consumers", C22="kernels, maps, layers, epochs, every bit of a seed", C25="kernels, kernel and pooling size, stride, neurons, classes, maps, image, layers in a row", C28="image, maps, samples, matrix and patch dimensions", C31="image, maps, samples")
LARGE["C33"] = "image, maps, samples, matrix and patch dimensions, kernels, layers and operations"
for _k, _v in LARGE.items(): CHECKS[_k]["bounds"] += "; grown sizes (one to " + ("257" if _k == "C34" else "300, thorough 1025") + (", pairs to 33" if _k not in ("C34", "C17", "C19", "C38", "C35", "C20", "C21", "C23", "C24", "C05", "C07") else "") + (", images past 2^16 elements" if _k in ("C01", "C02", "C32", "C08", "C10", "C11", "C12", "C13", "C15", "C16", "C27", "C30", "C35", "C36") else "") + "): " + _v
