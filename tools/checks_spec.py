"""What each check builds, runs and claims."""
ASAN = ["-O1", "-g1", "-DNDEBUG", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off"]
FLAVOURS = {
    # ade: also compile the files that need the graph library, against /verif/shim
    "core": dict(cxx=ASAN, ade=False, link=["-fsanitize=address", "-fopenmp"]),
    "full": dict(cxx=ASAN, ade=True, link=["-fsanitize=address", "-fopenmp"]),
    # optimised like the official build, for the large value enumerations
    "fast": dict(cxx=["-O2", "-g1", "-DNDEBUG"], ade=False, link=["-fopenmp"]),
    # random engines replaced by the enumerator (harness/rng.hpp)
    "rng": dict(cxx=ASAN + ["-include", "@VERIF@/harness/rng.hpp"], ade=False, link=["-fsanitize=address", "-fopenmp"], deps=["harness/rng.hpp"]),
    "fullrng": dict(cxx=ASAN + ["-include", "@VERIF@/harness/rng.hpp"], ade=True, link=["-fsanitize=address", "-fopenmp"], deps=["harness/rng.hpp"]),
    # compiled for harness/sched.cpp, which is the OpenMP runtime, the scheduler and the race detector
    "sched": dict(cxx=["-O1", "-g1", "-DNDEBUG", "-ffp-contract=off", "-fsanitize=thread", "-DEIGEN_DONT_VECTORIZE", "-mmemcpy-strategy=libcall:-1:noalign", "-mmemset-strategy=libcall:-1:noalign", "-include", "@VERIF@/harness/rng.hpp"],
                  ade=True, deps=["harness/rng.hpp"], link=["-no-pie"] + ["-Wl,--wrap=" + f for f in "malloc calloc realloc posix_memalign aligned_alloc free memcpy memmove memset __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once".split()]),
}
def b(*src, flavour="core", **k): return dict(src=["mc.cpp"] + list(src), flavour=flavour, **k)
BUILDS = {
    "conv": b("h_conv.cpp", reuse=True),
    "pool": b("h_pool.cpp", reuse=True),
    "tensor": b("h_tensor.cpp"),
    "shapes": b("h_shapes.cpp"),
    "softmax": b("h_softmax.cpp", reuse=True),
    "bn": b("h_bn.cpp", reuse=True),
    "affine": b("h_affine.cpp", reuse=True),
    "layout": b("h_layout.cpp"),
    "vjp": b("h_vjp.cpp", reuse=True),
    "pgrad": b("h_pgrad.cpp", reuse=True),
    "hist": b("h_hist.cpp", reuse=True),
    "dropout": b("h_dropout.cpp", flavour="rng", reuse=True),
    "init": b("h_init.cpp", flavour="rng"),
    "loader": b("h_loader.cpp", reuse=True),
    "shuffle": b("h_shuffle.cpp", flavour="rng", reuse=True),
    "opt": b("h_opt.cpp", reuse=True),
    "adam": b("h_adam.cpp", reuse=True),
    "loss": b("h_loss.cpp", reuse=True),
    "metric": b("h_metric.cpp", reuse=True),
    "png": b("h_png.cpp"),
    "jpeg": b("h_jpeg.cpp"),
    "imgfault": b("h_imgfault.cpp"),
    # under valgrind, which sees decisions on undefined bytes (the library's own and libpng's/libjpeg's)
    "imguninit": b("h_imguninit.cpp", flavour="fast", prefix=["env", "VP_NOASLR=1", "valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=99", "--leak-check=no"]),
    "fwd": b("h_fwd.cpp", flavour="full"),
    "bwd": b("h_bwd.cpp", flavour="full"),
    "eval": b("h_eval.cpp", flavour="fullrng"),
    "names": b("h_names.cpp", flavour="full"),
    "cfg": b("h_cfg.cpp", flavour="full"),
    "ser": b("h_ser.cpp", flavour="full"),
    "serfault": b("h_serfault.cpp", flavour="full"),
    "savefault": b("h_savefault.cpp", flavour="full"),
    "dot": b("h_dot.cpp", flavour="full"),
    "param": b("h_param.cpp"),
    "print": b("h_print.cpp"),
    "train": b("h_train.cpp", flavour="full"),
    "fresh": b("h_fresh.cpp", flavour="fullrng"),
    "error": b("h_error.cpp"),
    "misuse": b("h_misuse.cpp"),
    "sched": b("h_sched.cpp", flavour="sched", plain=["sched.cpp"], instrument_engine=True, budget=240),
    "conc": b("h_conc.cpp", flavour="sched", plain=["sched.cpp"], instrument_engine=True, budget=240),
    # the samples' own sources, each under names of its own
    "samples": b("h_samples.cpp", flavour="fullrng", repo=[("samples/%s/*.cpp" % n, ["-Dcustom=custom_" + n, "-Dmain=main_" + n]) for n in ("mnist", "cifar10", "cifar100", "iris")]),
    "act": b("h_act.cpp", reuse=True),
    "act_sweep": b("h_act_sweep.cpp", flavour="fast"),
    "actgrad": b("h_actgrad.cpp", reuse=True),
    "actgrad_sweep": b("h_actgrad_sweep.cpp", flavour="fast"),
}
CHECKS = {}
NA = {}
NOTES = ""
TRUST = ["gcc, libstdc++, Eigen, libpng, libjpeg and the kernel behave as documented",
         "the oracle is an independent plain-loop implementation of the documented formula"]
def check(pid, builds, technique, note, bounds, states_are, transitions_are, assumptions=(), level="model_checking"):
    CHECKS[pid] = dict(technique=technique, level=level, level_note=note,
        run=dict(builds=builds, bounds=bounds, states_are=states_are, transitions_are=transitions_are, assumptions=TRUST + list(assumptions)))

EXPL = "exhaustive enumeration of bounded executions of the real code"
check("C01", ["tensor"], EXPL + " (all operation sequences) in lock-step with a reference heap model",
      "Every operation sequence within the bounds runs on real Tensors next to a reference model of descriptors; geometry, sharing, addresses, elements and user buffers are compared after every step under AddressSanitizer.",
      dict(quick="3 handles x 10 shapes (incl. rank 0, zero and negative dims) depth 3; 2 handles x 4 shapes depth 4; sharing histories depth 4; all shapes of rank<=4 over {-2..3}; ranks up to 10; 1M-element tensors; element counts beyond 2^32; every word of 1-2 operations repeated 300 times", thorough="same alphabets, depths 4, 5 and 6"),
      "distinct reference-model states (sharing pattern, shapes, contents)", "Tensor operations executed on the real code")
check("C02", ["shapes"], EXPL + " (all layer types x attribute/shape grids) against the documented formula",
      "Every layer type is built directly (both call forms) and by type name for every attribute/shape combination in the bounds; output shape, recorded inputs, parameters, buffers, attributes, initial values and rejections are compared.",
      dict(quick="Convolution/MaxPooling H,W<=5, kernel<=3, padding<=2, stride<=3 and a grid up to 224x224; other layers ranks 1-5 over dims {1,2,3,5} x attribute values; all Add shape pairs of rank<=4", thorough="H,W<=7"),
      "distinct (layer type, attributes, input shapes)", "layer constructions")
check("C03", ["conv"], EXPL + " (all geometries) against a reference semantics",
      "Every geometry within the bounds is executed on the real layer under AddressSanitizer with poisoned output memory and compared element by element, exactly. Values are integer/dyadic patterns, so float rounding cannot hide or fake a difference; linearity is not assumed but values are not enumerated.",
      dict(quick="H,W<=5, N<=3, Cin<=2, Cout<=2, kernel<=3x3, padding<=3, stride<=3, all combinations that fit; larger shapes (batch/channels up to 1030, 260x255 images, rows of 2100, kernels 30x30); one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them; layers differing in one attribute used in every order", thorough="H,W<=6, N,Cin,Cout<=3, same kernels, 4 data patterns; larger shapes (batch/channels up to 1030, 260x255 images, rows of 2100, kernels 30x30)"),
      "distinct layer configurations (input shape, channels, kernel, padding, stride)", "forward executions of the real layer")
check("C04", ["pool"], EXPL + " (all geometries x all value assignments) against a reference semantics",
      "Every geometry within the bounds with every assignment of a signed value set to small planes; output compared exactly, gradients attributed per output by unit gradients.",
      dict(quick="planes up to 6 elements with all assignments of 3-4 signed values; H,W<=5, N<=2, C<=3, kernel<=3, padding<kernel, stride<=3; larger runs (batch/channels up to 1030, planes up to 65k elements); one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them; layers differing in one attribute used in every order", thorough="as quick with 6 values incl. extremes, H,W<=7, kernel<=4"),
      "distinct (configuration, input values)", "forward and backward executions of the real layer")
ACT = "10 layer configurations (ReLU; LeakyReLU alpha 0,.01,.5,3; ELU alpha 1,.25,0,2; Sigmoid) x "
check("C05", ["act", "act_sweep"], EXPL + " (value grid x length x position) against the formula in double precision",
      "Every float of the grid goes through the real optimised kernels; every length, position and neighbour pattern within bounds runs under AddressSanitizer. Tolerance: rounding of the formula in float (exact for ReLU, 1 ulp for LeakyReLU, 4e-7*alpha absolute for ELU, 1e-6 relative for Sigmoid). NaN inputs are outside the property.",
      dict(quick=ACT + "all floats whose low 9 mantissa bits are 0 (8.4M) and 16 dense windows of 65536 consecutive floats; lengths 1-35 x every position x 24 special values x 5 neighbour patterns; lengths up to 1048583; negative and large slopes; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules", thorough=ACT + "all 2^32 floats; lengths 1-70"),
      "distinct (layer, input value or length/position/neighbour case)", "forward executions of the real layer")
check("C06", ["actgrad", "actgrad_sweep"], EXPL + " (value grid x length x position x existing gradient) against the derivative in double precision",
      "As C05 for the backward pass after a real forward pass, with non-zero existing gradients.",
      dict(quick=ACT + "all finite floats whose low 10 mantissa bits are 0 and 14 dense windows; lengths 1-35 x every position x 22 special values x neighbour patterns x existing gradients; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules", thorough=ACT + "all finite floats (2^32 bit patterns); lengths 1-70"),
      "distinct (layer, input value, grad_output, existing gradient) cases", "forward and backward executions of the real layer")

check("C07", ["softmax"], EXPL + " (all small value assignments x shapes) against the formula in double precision",
      "Every assignment of a value set with extreme magnitudes to every matrix of up to 6 elements, plus a shape grid; gradients by every unit grad_output. Tolerance a few float ulps of the formula.",
      dict(quick="matrices up to 4 elements x 10 values incl. +-3.4e38, up to 6 elements x 5 values; 299 shapes up to 100x1000 x 6 patterns; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them", thorough="6-element matrices x 7 values"),
      "distinct (shape, input values)", "forward and backward executions of the real layer")
check("C08", ["bn"], EXPL + " (all histories of passes and mode switches) in lock-step with a reference state machine",
      "Every history up to the depth over {train pass, eval pass} x batches of different shapes and backward, for 24 configurations of each layer type; outputs and running statistics compared after every step, eval and backward must leave the statistics bit-identical.",
      dict(quick="histories of depth 4 over 7 (1-D) and 9 (2-D) operations, with gamma and beta switched together or apart; 48 configurations; grids over batch/feature/plane sizes; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them; layers differing in one attribute used in every order", thorough="histories of depth 6"),
      "distinct (configuration, mode, running statistics, shape)", "passes executed on the real layer", ["backward of BatchNorm is only specified after a training-mode forward pass"])
check("C09", ["affine"], EXPL + " (all small shapes and unit inputs) against a reference semantics",
      "Integer data, so float arithmetic is exact and comparison is exact for Linear and Add (1e-6 for the division of GlobalAvgPooling); poisoned outputs under AddressSanitizer.",
      dict(quick="Linear n<=6, units<=9, ranks 2-4, features<=20/4^k; 1859 larger size triples up to 2M multiply-adds; Add all shapes of rank<=5 over small dims and lengths 1-150; GlobalAvgPooling n<=4,c<=6,h,w<=8 and large ones; zero/special value at every position; sizes up to 20000 rows, 5000 features, 4100 units, 1.1M elements; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them", thorough="all larger triples (up to 256x784x300)"),
      "distinct (layer, shape, unit input)", "forward executions of the real layer")
check("C33", ["layout"], EXPL + " (all shapes) against the index permutation",
      "Bit-exact comparison of every element for every shape in the bounds, including NaN payloads.",
      dict(quick="n<=4, c,h,w<=6, 3 data patterns; large shapes up to 1030 rows/channels; repeated conversions of tensors changed in place, depth 5", thorough="n<=4, c,h,w<=9"),
      "distinct (shape, pattern)", "conversions executed")

check("C10", ["vjp"], EXPL + " (all configurations x all unit grad_outputs x existing gradients) against the transpose Jacobian",
      "For each configuration the real backward is run with every unit grad_output (the map is linear, so these determine it) and dense ones, on zero and non-zero existing gradients; exact comparison for Linear, Convolution and Add (integer data), float tolerance for BatchNorm and GlobalAvgPooling. Everything else must be bit-identical afterwards.",
      dict(quick="Linear n<=4, units<=6, features<=27 and 216 large; Convolution H,W<=4, kernel<=3, padding<=2, stride<=3, 3 batch/channel triples and large ones (dims up to 2100); BatchNorm1D n<=6,C<=9; BatchNorm2D n<=3,C,H,W<=4 and large ones up to 1030; GlobalAvgPooling n<=4,c<=5,h,w<=6; Add rank<=4, lengths up to 70000; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them; layers differing in one attribute used in every order", thorough="Convolution H,W<=5 with 6 triples"),
      "distinct layer configurations", "forward/backward executions of the real layer")
check("C11", ["pgrad"], EXPL + " (all configurations x multi-pass histories x frozen subsets) against the derivative",
      "Histories of at least five passes with changing batch/image sizes on one layer, gradient buffers poisoned with NaN or large values before and between passes, every frozen subset of the parameters along the history; gradients compared after every pass (exactly for integer data).",
      dict(quick="Linear n<=4, units<=6, features<=27 and 216 large; Convolution H,W<=4, kernel<=3, padding<=2, stride<=3, 3 triples and large ones (dims up to 2100); BatchNorm1D n<=6,C<=9; BatchNorm2D n<=3,C,H,W<=4 and large ones up to 1030; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them; layers differing in one attribute used in every order", thorough="Convolution H,W<=5 with 6 triples"),
      "distinct layer configurations", "forward/backward executions of the real layer", ["freezing gamma/beta of BatchNorm means evaluation mode, so frozen subsets are explored for Linear and Convolution only"])
check("C12", ["hist"], EXPL + " (all pass histories) against a fresh layer",
      "Every sequence of passes (forward, forward+backward, forward+parameter gradients) over 4-5 input shapes per layer; after each pass outputs, gradients and buffers must equal those of a newly created layer with the same parameters. AddressSanitizer watches every access.",
      dict(quick="15 layer configurations, depth 3-4 (4 for BatchNorm and padded layers); every element of every input, gradient, parameter and buffer changed alone between two passes, in place and not; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them, also where one lives at the other's former address", thorough="depth 5"),
      "distinct histories (prefixes)", "passes executed on the real layer")

RNG = " with the answers of the random generator as choices"
check("C13", ["dropout"], EXPL + RNG,
      "The library is compiled with its random engine replaced by the enumerator; drop/keep patterns, draws at the threshold, tensor lengths and pass/mode histories are enumerated under AddressSanitizer.",
      dict(quick="11 values of p from 1e-7 to 0.999; all 2^n draw patterns for shapes up to 8 elements; all draw combinations around the threshold for n<=4; lengths 1-40 x every position; sizes up to 131075 with 64 passes each (no two elements share their history); histories of depth 5; one layer through every sequence of changing shapes with tensors fresh or overwritten in place; runs of 2100-5000 passes on one object under 5 schedules; two layers with overlapping lives: every interleaving of creating, destroying and running them; all sequences of drawing operations: no engine state is used twice", thorough="n<=5, lengths 1-70, histories of depth 7"),
      "distinct (p, shape, draws or history)", "forward and backward executions of the real layer", ["libstdc++'s uniform_real_distribution maps engine answers as in the installed version"])
check("C27", ["loader"], EXPL + " (all pull histories) in lock-step with a reference protocol",
      "Every pull history over valid, rejected and failing pulls within the bounds, plus plain epochs for every dataset/batch size; rows, requests, addresses and results compared after every pull.",
      dict(quick="dataset 0-14, batch 1-16, 5 item shapes, 3 epochs; histories of depth 4 (+3 pulls) over 6 kinds of pull for dataset 0-5, batch 1-4, 3 item shapes; large ones up to 131075 items, items of up to 300k elements; three datasets and loaders after one another at one address; runs of 2100-5000 passes on one object under 5 schedules", thorough="dataset 0-24; histories of depth 6"),
      "distinct (configuration, history)", "pulls executed on the real loader")
check("C28", ["shuffle"], EXPL + RNG,
      "The first draws of a loader's life are enumerated (every item's bucket and both ends of the generator range), later draws are fair so that rejection loops must terminate; reachability of every item is decided by search.",
      dict(quick="dataset 1-4, batch 1-5, first 6 draws enumerated over dataset+2 answers, 2 epochs; reachability for dataset 1-24, batch 1-6, and for 17 sizes up to 70001; runs of 2100-5000 passes on one object under 5 schedules; all sequences of drawing operations: no engine state is used twice", thorough="dataset 1-5, 7 draws; reachability up to 40"),
      "distinct (configuration, draws, batches)", "pulls executed on the real loader", ["libstdc++'s uniform_int_distribution maps engine answers as in the installed version"])
check("C29", ["init"], EXPL + RNG,
      "Every shape in the bounds x every initializer, in-place (in user memory with canaries, under AddressSanitizer) and factory; range ends decided with the generator at its extremes, independence with all low/high draw patterns.",
      dict(quick="shapes of rank<=4, dims<=4; 2-D sizes up to 64x64, convolution-like up to 16x16x5x3, 6 larger; 7 random initializers; 11 constants; all 2^n draw patterns up to 8 elements; sequences of 4 initializers in every order; all sequences of drawing operations: no engine state is used twice", thorough="dims<=6"),
      "distinct (initializer, shape, draw pattern)", "initializer executions")

OPT = "Every history within the bounds runs on the real optimizer next to the recurrence in double precision; parameters, gradients, flags and learning rate are compared after every step."
check("C23", ["opt"], EXPL + " (all training histories) in lock-step with the recurrence",
      OPT + " Values are dyadic, so the comparison is exact (plus one scenario with rounding values and tolerance 1e-6).",
      dict(quick="6 configurations (incl. momentum 0 and 1); all histories of depth 5 over 10 operations; 4 training steps x 18 decisions each; sizes 1-70 and up to 1050001; up to 300 parameters; a run of 1200 steps; two optimizers depth 8; three optimizers that come and go at one address", thorough="histories of depth 6, 5 training steps"),
      "distinct (configuration, history)", "optimizer steps executed on the real code")
check("C24", ["adam"], EXPL + " (all training histories) in lock-step with the recurrence",
      OPT + " Tolerance 1e-6 relative plus 2e-5*lr for float rounding.",
      dict(quick="6 configurations (incl. defaults, beta 0, start counts 3 and 1000); all histories of depth 5 over 10 operations; 4 training steps x 18 decisions each; sizes 1-70 and up to 1050001; up to 300 parameters; counters up to 70000; two optimizers depth 8; three optimizers that come and go at one address; 200-step runs", thorough="histories of depth 6, 5 training steps"),
      "distinct (configuration, history)", "optimizer steps executed on the real code")
check("C25", ["loss"], EXPL + " (all targets, value assignments, call histories) against the formula in double precision",
      "Loss compared to 4e-6 of its magnitude (more for batches of thousands, where float summation rounds), gradients to 1e-6, non-target gradients exactly 0; grad_output poisoned before each call; AddressSanitizer.",
      dict(quick="all targets for batch,classes<=4; all assignments of 8 probabilities to matrices of up to 4; batch,classes<=40; large ones up to 1050000 and one beyond 2^24 elements; histories of depth 4 over 5 shapes x 3 calls; 12 kinds of mismatch; a single target or probability changed between two calls; runs of 2100-5000 passes on one object under 5 schedules; two loss objects with overlapping lives, depth 5", thorough="batch,classes<=5 and <=70; histories of depth 5"),
      "distinct (shape, targets, probabilities) and histories", "loss calls executed", ["probabilities are 0 or normal floats"])
check("C26", ["metric"], EXPL + " (all row orderings x labels) against counting",
      "Every ordering of the rows and every label vector for small matrices; maximum at every position for wide ones.",
      dict(quick="1x6, 2x4, 3x3 all orderings x labels x 3 value sets; widths 1-70 x 1-4 rows; 1-150 rows x 4 widths; 4 large; 9 kinds of mismatch; repeated calls on tensors changed in place, depth 5", thorough="widths up to 130"),
      "distinct (shape, ordering, labels)", "metric calls executed")

IMG = " (read with an empty tensor, in place, other shape of equal size, too large, too small), with allocated bytes and file descriptors balanced around every read, under AddressSanitizer."
check("C30", ["png"], EXPL + " (all format variants x sizes x output states) against an independent encoder",
      "PNG files are written by the harness's own encoder (filters, Adam7, bit packing over zlib), so the expected pixels do not come from libpng; every file is read in 6 ways" + IMG,
      dict(quick="15 colour type/depth pairs x interlace x 6 filter choices x w,h<=5 x 2 patterns; widths 6-33, heights 6-20; 4 larger sizes; ancillary and split chunks; 32 path views; read sequences of depth 4", thorough="w,h<=9 x 4 patterns; sequences of depth 6"),
      "distinct image files and read sequences", "ReadImage calls", ["palette and transparency: images without tRNS"])
check("C31", ["jpeg"], EXPL + " (all format variants x sizes x output states) against libjpeg driven by the harness",
      "JPEG files of every variant; every file is read in 6 ways" + IMG,
      dict(quick="grey, 5 colour samplings, CMYK x baseline/progressive x w,h<=11 x 2 patterns; sizes around block boundaries up to 33; 4 qualities x restart intervals; 4 larger sizes; path views; sequences of depth 4", thorough="w,h<=20; sequences of depth 6"),
      "distinct image files and read sequences", "ReadImage calls")
check("C32", ["imgfault", "imguninit"], "exhaustive fault enumeration (every truncation point, every corrupted byte, chunk surgery, kind confusion) on the real reader",
      "Every damaged file is judged by what libpng/libjpeg themselves report on those bytes (fatal error: must throw; accepted: equal pixels); allocated bytes and descriptors must balance around the failing read and a valid PNG and JPEG must read correctly afterwards; crashes, exits and hangs of the worker are violations. The truncated files are read once more under valgrind, where any decision on undefined bytes is a violation.",
      dict(quick="30 PNGs: every cut, every byte x 4 corruptions; every chunk removed/repeated/swapped; 5 JPEGs: every cut, every byte x 3 corruptions; missing/empty/directory/foreign files; sequences of depth 5; under valgrind: 3 PNGs and a JPEG at every cut, under both extensions", thorough="10 corruptions per byte; sequences of depth 6"),
      "distinct damaged files and read sequences", "ReadImage calls")

check("C38", ["samples"], EXPL + " (all small datasets x directory listing orders x request orders; whole program runs)",
      "The samples' sources are compiled as they are; readdir is replaced so that the listing order is a choice. Every item must be one of the files with its class's label; train and test runs of the four programs are compared with each other and with the saved model.",
      dict(quick="MNIST: 5 class sets x 0-2 files x all orders; CIFAR-10: singles, triples, all classes; unknown folders; CIFAR-100: up to 4 classes, second set with a class missing, all pairs of orders across processes; iris: all files of up to 3 of 11 rows; programs: iris 12 sizes x 9, MNIST 36 runs, CIFAR 10 runs", thorough="iris files of 4 rows; more program runs"),
      "distinct (dataset, orders)", "items delivered and program runs")

SHIM = "the ADE graph library (absent here) is replaced by a stand-in that may return any topological order"
check("C15", ["fwd"], EXPL + " (all graphs x output lists x topological orders x call histories) against a reference evaluator",
      "Every graph within the bounds is built, compiled and run on the real Model/GraphBuilder/CPUBackend with integer data and compared exactly with a plain evaluator; the order returned by the graph library is a choice point. Chains over every layer type are compared with one-layer models.",
      dict(quick="all DAGs with 1-2 ops (5 kinds, 1-2 inputs, up to 3 order deviations), 3 ops (3 kinds, 1-3 inputs, 0-1 deviations), 4 ops (1 input, sinks as outputs); every output set and order, every input order; deep graphs up to 40 ops; call histories of depth 4; 3 graphs x 8 tensor sizes up to 1030 rows or 300 columns and 600 successive passes; all pairs and a third of the triples of 21 layer configurations; 2-4 layers of one type (12 shape-preserving ones) in a row, alternating with another type, with and without residual", thorough="all topological orders for 2 ops, 3 deviations for 3 ops, 5 ops; all triples; histories of depth 6"),
      "distinct graphs with input/output lists, and call histories", "model forward/backward calls", [SHIM])
check("C16", ["bwd"], EXPL + " (all graphs x output lists x topological orders x pass histories) against reverse-mode differentiation",
      "Every graph within the bounds is built, compiled and differentiated by the real Model/CPUBackend with integer data and compared exactly with a plain reverse-mode evaluator, with poisoned gradient buffers and one grad_output at a time; chains over every layer type are compared with driving the layers one by one.",
      dict(quick="all DAGs with 1-2 ops (5 kinds, 1-2 inputs, up to 2 order deviations), 3 ops (3 kinds, 1-2 inputs, 0-1 deviations), 4 ops (1 input, sinks as outputs); every output set and order; pass histories of depth 4; 3 graphs x 8 tensor sizes up to 1030 rows or 300 columns and 600 successive passes; backward on equal copies of the forward tensors; all pairs and a third of the triples of 19 layer configurations; 2-4 layers of one type (12 shape-preserving ones) in a row, alternating with another type, and 2-3 of them side by side", thorough="all topological orders for 2 ops, 3 deviations for 3 ops, 5 ops; all triples; histories of depth 6"),
      "distinct graphs with input/output lists, and pass histories", "model forward/backward calls", [SHIM, "chains: the layers themselves are judged by C04-C11"])
check("C17", ["eval"], EXPL + " (all histories of mode switches, passes, optimizer steps, save/load) in lock-step with a reference",
      "Every history within the bounds runs on real models with BatchNorm1D/2D and Dropout; outputs are compared with a double-precision evaluation in the mode in force, evaluation passes and optimizer steps in evaluation mode must leave every state entry bit-identical and draw no random number.",
      dict(quick="4 models x 3 optimizers x all histories of depth 4 over 8 operations and depth 6 over 5; all pairs of 21 layer configurations switched, saved and loaded", thorough="depth 6 over 8 operations, depth 8 over 5"),
      "distinct (model, optimizer, history)", "model calls and optimizer steps", [SHIM, "backward is only specified after a training-mode forward pass"])
check("C18", ["names"], EXPL + " (all graphs x name assignments x orders x write views) against the stated invariants",
      "Every assignment of names (empty, ordinary, generated-like) to every small graph is built on the real Model; lookup, types, placeholders, key sets and storage identity are checked, values are written through each view and read through all others and by forward.",
      dict(quick="2 layers of 5 types x 9 names each, all orders, all views; 3-layer chains x 7 names; 3-layer graphs x 3 names; up to 40 unnamed layers; models over layers of earlier models, trainable or frozen; all pairs of odd names (up to 300 characters, sharing long prefixes or suffixes); all pairs of 21 layer configurations", thorough="3-layer graphs x 5 names in every order; 4-layer chains"),
      "distinct (graph, names)", "model constructions, writes and forward calls", [SHIM])
check("C19", ["cfg"], EXPL + " (all graphs x input/output orders x topological orders x attribute grid) against the original model",
      "Every model within the bounds is rebuilt from its config on the real code; structure is compared by a canonical form that does not depend on ids or order, forward results bit by bit; the rebuilt model is rebuilt again.",
      dict(quick="all DAGs with 1-2 ops (4-5 kinds, 1-2 inputs, up to 1 order deviation), 3 ops (1-3 inputs), a third of 4 ops; every output set, every output and input order, named and unnamed; 1-4 inputs and outputs of different shapes in every order; 10 layer types x attribute grid; all pairs of 21 layer configurations", thorough="all orders for 2 ops; all 4-op graphs with every output set"),
      "distinct models", "rebuilds and forward calls", [SHIM])
check("C20", ["ser"], EXPL + " (all graphs x attribute grid x save/modify/load histories) against the saved values",
      "Every model within the bounds goes through five kinds of round trip on real files (whole model, config+state, state into the changed model, stream overloads in either order, another instance and over existing longer files); values compared bit by bit, architecture by canonical form, outputs bit by bit.",
      dict(quick="all DAGs with 1-2 ops (1-2 inputs), 3 ops (1 input), every output set and order x 5 ways; 10 layer types x attribute grid x 5 ways x 3 value sets; 18 special bit patterns; 15 odd names (up to 70000 bytes); up to 60 layers; hand-made configs (attribute values of 4 kinds x special values, ids, shapes, lists and names of boundary sizes, up to 1000 layers) and states (0-300 entries, ranks 1-6, up to 70000 elements); histories of depth 5 over 7 operations", thorough="3 inputs, 3 kinds; histories of depth 7"),
      "distinct (model, way, values) and histories", "save and load calls", [SHIM])
check("C21", ["serfault"], "exhaustive fault enumeration (every crash point of the writer, kind confusion, entry mismatches) on the real loaders",
      "Every saved file of seven models is cut after every byte; every loader is run on every other kind of file, foreign contents, unopenable paths, and states with one mismatching entry; a valid load must work afterwards. AddressSanitizer, crash and hang detection.",
      dict(quick="7 models x 3 kinds of file x every cut x path/stream loaders; 14 foreign contents; 6 unopenable paths; every entry x 8 mismatches; 10 shapes x every dimension x 8 changes; all pairs of models; sequences of depth 4", thorough="sequences of depth 6"),
      "distinct damaged files", "load calls", [SHIM])
check("C22", ["savefault"], "exhaustive fault enumeration (write failure after every byte) on the real save functions",
      "The process's file size limit makes every write beyond k bytes fail, for every k; uncreatable paths and /dev/full; successful saves are loaded back.",
      dict(quick="7 models x 6 save functions x every k (new and existing file); two large models at every 61st/997th byte; 7 unwritable paths; fault/success sequences of depth 4", thorough="large models at every byte (10 kB) and every 17th (50 kB); depth 6"),
      "distinct (model, function, fault position)", "save calls", [SHIM, "write errors: EFBIG from RLIMIT_FSIZE and ENOSPC from /dev/full stand for all"])
check("C34", ["train"], EXPL + " (all training histories) in lock-step with gradient descent in double precision",
      "The whole documented loop (DataLoader, Model, CrossEntropyLoss, optimizer, save/load) runs on the real code; batches, predictions, losses, parameters and running statistics are compared with a double-precision reference after every step, evaluation passes and reloads must be bit-exact, interrupted runs must equal uninterrupted ones bit by bit.",
      dict(quick="4 networks x 3 optimizers x all histories of depth 5 over {train step, evaluation pass, freeze/unfreeze first or last parameter, save+load}; 10-step loops x batch 1-4 x 4-7 items x every frozen subset; all 4-step sequences of row subsets with zero loss weight; 8-step runs interrupted after every pair of steps", thorough="depth 6; 30-step loops; 12-step interruptions"),
      "distinct (network, optimizer, history)", "loop steps executed", [SHIM, "the reference continues from the rounded parameters after each step (tolerance 2e-4 per step)"])

check("C35", ["dot"], EXPL + " (all graphs x input/output lists x name pairs) against an independent DOT reader",
      "Every model within the bounds is written by the real save_dot and read back by a parser of the DOT grammar; nodes, labels, edges and ports are compared with the model's config as sets.",
      dict(quick="all DAGs with 1-2 ops (3-5 kinds, 1-2 inputs) x output sets x orders, named and unnamed; 3 ops; arbitrary input/output lists with up to 2 ops; all pairs of 42 odd names x 2 shapes; all pairs of 21 layer configurations; 1-60 layers", thorough="all orders for 2 ops; 3 kinds for 3 ops with every output set"),
      "distinct (graph, names)", "save_dot calls", [SHIM])
check("C36", ["param"], EXPL + " (all operation sequences) in lock-step with a reference heap",
      "Every sequence of creating, copying, freezing and writing parameters runs on the real code; after every step all handles are compared with a model of shared cells (values, gradients, flags, addresses).",
      dict(quick="two handles depth 4 and three handles depth 3 over 7 kinds of operation; all shapes of rank 1-4 over 5 dimension values; sizes up to 1000003; every word of 1-2 operations repeated 300 times", thorough="depth 5"),
      "distinct (handle partition, shapes, values, flags)", "operations executed")
check("C37", ["print"], EXPL + " (all value tuples, shapes and stream formats) against formatting element by element",
      "Every printed text is compared with the text obtained by streaming the elements one by one into a stream with the same flags.",
      dict(quick="all tuples of up to 3 of 13 special values; all shapes of rank 1-5 with dimensions 0-4 (0-2); lengths 1-140 and up to 140001; 6 stream formats; shapes of rank 0-5 over 5 values; sequences of 4 prints", thorough="tuples of 4"),
      "distinct tensors and shapes", "prints")
check("C39", ["fresh"], EXPL + " (all sequences of operations that draw) with engines that report every state they use up",
      "The library is compiled with its random engines replaced by ones that hand every draw's engine state (stream named by its seed, position) to the checker; a draw from a state that was used before, by whoever, is a violation. Copies, reseeding and engines created per call are seen by what they draw.",
      dict(quick="all sequences of 5 out of 9 operations (initializers, layers, Dropout passes, two shuffled loaders, model passes in either mode); every operation 2000 times; every pair in turn 200 times", thorough="sequences of 6; 20000 times"),
      "distinct operation sequences", "operations executed", [SHIM, "engines are those of <random>; std::random_device never repeats a value"])
check("C40", ["error"], EXPL + " (all message parts x ways an exception travels; all rejected calls) against the streamed text",
      "Every error text is compared with what the same parts give on a plain stream, after every way of catching, copying and rethrowing, under AddressSanitizer.",
      dict(quick="messages of 0-3 parts out of 11 kinds (numbers, texts with line breaks and zero bytes, shapes, user types, 5000 characters) x 9 ways to travel; all outcomes of 5 assertions; all sequences of 3 out of 12 rejected calls; growing messages; line numbers up to 2^31-1", thorough="4 parts; sequences of 4"),
      "distinct (message, way) and call sequences", "exceptions raised")
check("C42", ["misuse"], EXPL + " (all histories of valid and rejected calls) against a twin that sees the valid calls alone",
      "Two layers with equal parameters go through one history; only one of them also gets the wrong calls. Each wrong call must throw and leave every tensor it was given and every parameter, gradient and buffer bit-identical; each valid pass must give the same bits on both. AddressSanitizer watches every access.",
      dict(quick="11 layer types x 2 input shapes; histories of depth 3 over {2 forward passes, backward, 7 to 20 wrong calls} followed by forward and backward passes of both shapes; every wrong call once, twice and 300 times at each of 10 points of a longer life", thorough="histories of depth 4"),
      "distinct histories (prefixes)", "calls made", ["wrong calls that no layer checks for (such as a Linear input with another number of features) are outside the property"])
check("C14", ["sched"], "stateless model checking of the real code under a controlled scheduler (all thread orders, preemption-bounded interleavings) with a happens-before race detector",
      "The library is compiled with thread instrumentation and linked with a scheduler that implements the OpenMP runtime: one thread runs at a time and every scheduling decision is a choice of the exploration engine. Every schedule's results are compared with the single-threaded run and every memory access inside a region is checked against the vector-clock happens-before relation, byte by byte, so a race is found even in schedules where its effect does not show.",
      dict(quick="about 110 cases (every layer forward/backward, losses, metrics, optimizers, initializers, layout conversions, loader, 4 models) x teams of 2, 3, 4 threads: every order of the threads of every parallel region (one region at a time), one preemption at synchronisation points; large shapes with 2 and 3 threads; tiny shapes: one preemption at every access outside the thread's own stack", thorough="two preemptions at synchronisation points, one preemption at every access for small shapes and 3 threads, large shapes with 4 threads"),
      "distinct (case, team size, region, schedule)", "executions of a case under one schedule",
      ["threads are started through OpenMP only (GOMP interface); a thread started otherwise is run but not controlled", "sequential consistency between scheduling points; weaker behaviours are covered by race freedom", "code of shared libraries (libstdc++, libpng, libjpeg) is not instrumented"])
check("C41", ["conc"], "stateless model checking of the real code under a controlled scheduler (all thread orders, preemption-bounded interleavings) with a happens-before race detector",
      "Two operations run on two threads of the scheduler that C14 uses; only one thread runs at a time and every switch is a choice of the exploration engine. Every memory access of the library is checked against the happens-before relation (nothing orders two independent threads, so any shared mutable state shows up in every schedule), and the results are compared bit for bit with those of the operation alone. For first uses each pair runs in a process of its own.",
      dict(quick="70 operations (every layer forward and backward, losses, metrics, optimizers, initializers, layouts, tensors, loaders, images, models, model files, errors; 35 of them read shared tensors or a shared dataset): all pairs with either thread first, again as first use in a process; one preemption at every synchronisation point for every operation beside itself and beside its neighbour (models left out)", thorough="one preemption at every synchronisation point for every pair next to each other, models included"),
      "distinct (pair of operations, schedule)", "executions of a pair",
      ["sequential consistency between scheduling points; weaker behaviours are covered by race freedom", "code of shared libraries (libstdc++, libpng, libjpeg) is not instrumented"])
