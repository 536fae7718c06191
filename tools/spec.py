#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/spec.py` after editing; both files are committed.
"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

K = "src/runtime/cpu/kernels/kernels.cpp"
L = "src/runtime/cpu/layers/"
NN = "src/expression/nn.cpp"
MOD = "src/model/model.cpp"
GB = "src/model/graphbuilder.cpp"
BE = "src/runtime/cpu/cpubackend.cpp"
SER = "src/serialization.cpp"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Tensor geometry and handle sharing survive every operation sequence",
 "After any sequence of constructing, wrapping user memory, copying handles, allocate, reshape and copyTo, every tensor reports a shape, strides (row-major), total (product of dims) and emptiness that agree with each other, all handles copied from one another see the same shape, data and elements, and handles that are not copies never share memory or metadata. allocate gives every sharing handle fresh memory, reshape changes geometry but no element and no address, copyTo copies every element and changes nothing else, a wrapped user buffer is used in place and never freed. A rejected operation (negative dimension in any position, reshape to a different element count, copyTo between different shapes or into an empty tensor) throws and leaves every tensor exactly as it was.",
 ["histories", "inputs"], "every operation sequence up to a depth over several handles and every shape of a small domain (ranks 0-5, dims including 0 and negative)",
 "Tests build one tensor and call one operation; handle aliasing and failed operations in longer histories are never combined.",
 ["src/runtime/tensor.cpp", "include/deepworks/tensor.hpp", "documentation/tensor.md"],
 [("shared descriptor behind every copied handle", "src/runtime/tensor.cpp: Tensor::Descriptor"), ("shape validation and stride computation", "src/runtime/tensor.cpp: init/calculateStrides/reshape/copyTo")],
 ["Tensor::shape/strides/total/empty/data"])

prop("C02", "Layer shape inference and parameter shapes are exact; bad inputs rejected",
 "Applying a layer to placeholders yields a placeholder with the documented output shape (Linear {N,units} with the trailing dimensions flattened; Convolution and MaxPooling floor((in+2*pad-kernel)/stride)+1 per axis independently; GlobalAvgPooling {N,C,1,1}; all others the input shape) and creates exactly the documented parameters and buffers with the documented names, shapes and initial values (biases, beta, running mean and variance 0, gamma 1). Convolution, MaxPooling, GlobalAvgPooling and BatchNorm2D on a non-4D input, Linear on a 1D input and Add on two different shapes throw. Building a layer by type name from its attributes is equivalent to building it directly, for every layer type, and an unknown type throws.",
 ["inputs", "configurations"], "every layer type x every attribute combination x every input shape in a bounded grid with unequal height/width values",
 "No passing test calls any layer constructor (the model tests are not linked in this build); the sampled configurations are mostly square.",
 [NN, "include/deepworks/base_op.hpp", "include/deepworks/nn.hpp", "documentation/layers.md"],
 [("outShape/init of each op", NN), ("make_layer table", NN), ("operator() wiring", "include/deepworks/base_op.hpp")],
 ["Placeholder::shape, LayerInfo params/buffers"])

prop("C03", "Convolution forward equals the mathematical cross-correlation",
 "For every input, weight, bias, kernel, padding and stride whose window fits the padded input, every output element of Convolution equals bias plus the sum over the window of weight times zero-padded input, for every sample, channel and position, whatever the shapes and regardless of what the output tensor contained before. Input, weight and bias tensors are not modified.",
 ["inputs", "configurations"], "all small shapes (batch, channels, unequal H/W), kernels, paddings (up to and beyond the kernel), strides; data on which float arithmetic is exact",
 "Not reached by any passing test; a test would sample a few square geometries.",
 [K, L+"cpuconvolution.cpp"], [("im2col + GEMM + bias per sample", K+": CPUConvolutionalForward, im2col"), ("scratch buffer sizing", L+"cpuconvolution.cpp: forward")],
 ["output tensor of a Convolution layer"])

prop("C04", "MaxPooling returns the true window maximum and routes gradients to it",
 "For every input of finite values, kernel, padding (less than the kernel on each axis) and stride whose window fits, each MaxPooling output is the maximum over the elements of the window that lie inside the input, whatever their sign, and padding never contributes a value. The backward pass adds each output's gradient to exactly one input position of its window, one that attains the maximum, and adds nothing anywhere else.",
 ["inputs", "configurations"], "all small shapes x kernels x paddings x strides x all value patterns over a signed value set, including ties and all-negative windows",
 "Not reached by any passing test; random positive-and-negative data rarely has an all-negative window touching the padding.",
 [K, L+"cpumaxpooling.cpp"], [("window maximum with argmax record", K+": CPUMaxPoolingForward"), ("scatter through recorded argmax", K+": CPUMaxPoolingInputGrad")],
 ["output and grad_input of MaxPooling"])

prop("C05", "Activations match their formula on every float, in every position",
 "ReLU, LeakyReLU, ELU and Sigmoid return, element by element and for every finite float and both infinities, max(0,x); x for x>=0 and alpha*x otherwise; x for x>=0 and alpha*(exp(x)-1) otherwise; and 1/(1+exp(-x)), up to float rounding of the formula. The result of an element does not depend on its position, on its neighbours or on the length and shape of the tensor, and inputs are not modified.",
 ["inputs"], "every float bit pattern of a dense grid (all 2^16 high halves quick, all 2^32 thorough) x every tensor length around the vector width x every position",
 "Not reached by any passing test; boundary values, infinities, saturation and vector tail positions are not sampled.",
 [K, L+"cpurelu.cpp", L+"cpuleakyrelu.cpp", L+"cpuelu.cpp", L+"cpusigmoid.cpp", "documentation/layers.md"],
 [("vectorised select/exp expressions", K+": CPU*Forward")], ["layer outputs"])

prop("C06", "Activation gradients match the derivative on every float and accumulate",
 "The backward pass of ReLU, LeakyReLU, ELU and Sigmoid adds grad_output times the derivative at that element to the input gradient already present, for every finite input (at exactly 0: 0 for ReLU, 1 for LeakyReLU and ELU), independent of position, neighbours and tensor length. Inputs, outputs and grad_output are not modified.",
 ["inputs"], "every float of a dense grid (2^16 quick, 2^32 thorough) x tensor lengths x positions x existing gradient contents",
 "Not reached by any passing test.",
 [K, L+"cpurelu.cpp", L+"cpuleakyrelu.cpp", L+"cpuelu.cpp", L+"cpusigmoid.cpp"],
 [("select/derivative expressions accumulated with +=", K+": CPU*InputGrad")], ["grad_input"])

prop("C07", "Softmax rows are probability distributions with the right gradient",
 "For every finite 2-D input, each Softmax output row lies in [0,1], sums to 1 and equals exp(x_j)/sum_k exp(x_k) up to rounding, without overflow or NaN for any magnitude of finite inputs, and is unaffected by the other rows. Backward adds y_j*(g_j - sum_k g_k*y_k), row by row, to the existing input gradient.",
 ["inputs", "configurations"], "all small row/column counts x all assignments of a value set with huge magnitudes, ties and infinitely spread values",
 "Not reached by any passing test; overflow needs extreme magnitudes in specific positions.",
 [K, L+"cpusoftmax.cpp", "documentation/layers.md"], [("max-subtraction before exp", K+": CPUSoftmaxForward"), ("row-wise Jacobian product", K+": CPUSoftmaxInputGrad")],
 ["output, grad_input"])

prop("C08", "BatchNorm follows its train/eval state machine over every history",
 "In training mode BatchNorm1D and BatchNorm2D output gamma*(x-mean)/sqrt(var+eps)+beta with the mean and biased variance of the current batch per feature (per channel over N,H,W for 2D) and update running_mean and running_var to alpha*old+(1-alpha)*batch; in evaluation mode they use the running statistics and change nothing. This holds after every history of train passes, eval passes, mode switches and changes of batch size or image size, and the statistics of one feature never affect another. A pass with gamma and beta flagged differently is in neither mode: it is rejected and changes nothing.",
 ["histories", "inputs"], "every sequence up to a depth of {train pass, eval pass, backward, mode switch, batch-shape change} over several batches and shapes",
 "Not reached by any passing test; a test runs one pass with one shape.",
 [K, L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp", "documentation/layers.md"],
 [("train/eval branch and running statistics", K+": CPUBatchNorm1DForward"), ("scratch sized per input", L+"cpubatchnorm1d.cpp / cpubatchnorm2d.cpp: forward")],
 ["outputs, running_mean, running_var"], [dict(name="running_mean/running_var", meaning="inference statistics", where="LayerInfo buffers")])

prop("C09", "Linear, Add and GlobalAvgPooling compute their affine maps exactly",
 "Linear yields y = x*W^T + b per sample with all trailing input dimensions flattened in row-major order, Add yields the element-wise sum of its two inputs, and GlobalAvgPooling yields the mean of each (sample, channel) plane, for every shape and value. Inputs and parameters are not modified, and previous contents of the output tensor do not matter.",
 ["inputs", "configurations"], "all small shapes (ranks 2-4 for Linear, any rank for Add) plus sizes around vector and blocking thresholds; exact-arithmetic data",
 "Not reached by any passing test.",
 [K, L+"cpulinear.cpp", L+"cpuadd.cpp", L+"cpuglobalavgpooling.cpp"], [("GEMM and row-wise bias", K+": CPULinearForward/AddBias"), ("mean over plane", K+": CPUGlobalAvgPoolingForward")],
 ["layer outputs"])

prop("C10", "Every layer's input gradient is the exact transpose-Jacobian product, added",
 "After a training-mode forward pass, the backward pass of Linear, Convolution, BatchNorm1D, BatchNorm2D, GlobalAvgPooling and Add adds to the gradient of each of its inputs exactly the product of grad_output with the Jacobian of the forward function at that input; what was already in the input gradient is kept and added to, never overwritten. Inputs, outputs, parameters and grad_output are left unchanged.",
 ["inputs", "configurations"], "all small shapes and configurations x all unit grad_outputs (hence all of them by linearity) x existing gradient contents; Add also with both inputs the same tensor",
 "Not reached by any passing test; a finite-difference test samples directions and zero-initialised gradients.",
 [K, L+"cpulinear.cpp", L+"cpuconvolution.cpp", L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp", L+"cpuglobalavgpooling.cpp", L+"cpuadd.cpp"],
 [("accumulating input-gradient kernels", K+": *InputGrad, col2im")], ["grad_inputs after backward"])

prop("C11", "Parameter gradients are exact and belong to the latest pass only",
 "After forward and backward, the gradient of every Linear and Convolution weight and bias and of every BatchNorm gamma and beta is exactly the derivative of sum(grad_output*output) summed over the whole batch, for every shape and configuration. It depends only on the latest forward and backward pass: earlier passes, earlier gradients and the frozen/trainable flag leave no trace in it, and computing it changes no parameter value.",
 ["inputs", "configurations", "histories"], "all small shapes/configurations x two-pass histories x pre-poisoned gradient buffers",
 "Not reached by any passing test.",
 [K, L+"cpulinear.cpp", L+"cpuconvolution.cpp", L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp"],
 [("gradient buffers overwritten (zeroed, then summed over the batch)", K+": *WeightGrad/*BiasGrad/*ParamGrad")], ["Parameter::grad"])

prop("C12", "A layer's results never depend on what it processed before",
 "For every layer type other than Dropout (and apart from the BatchNorm running statistics), the outputs, input gradients and parameter gradients of a pass are the same as those of a freshly created layer with the same parameters, whatever sequence of forward and backward passes with other batch sizes, image sizes and values it went through before, and whatever other layers of the same or another type did in between. No pass reads or writes outside the tensors involved.",
 ["histories", "configurations"], "every sequence of passes up to a depth over a set of differently sized inputs, for every layer type and several configurations",
 "Not reached by any passing test: internal scratch buffers only matter when shapes change between passes.",
 [L+"cpuconvolution.cpp", L+"cpumaxpooling.cpp", L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp", L+"cpudropout.cpp", K],
 [("scratch buffers re-sized when the shape changes", L+"cpu*.cpp: forward")], ["outputs and gradients of repeated passes"],
 [dict(name="im2col_buf, max_indices, m_input_centered, nhwc_in/out", meaning="scratch carried between passes", where=L)])

prop("C13", "Dropout drops, scales and back-propagates consistently; eval is identity",
 "For every p in [0,1): in training mode each Dropout output element is either 0 or input/(1-p), an element is dropped exactly when its own uniform draw is below p (so p=0 keeps all), and fresh draws are made on every training pass; backward adds grad_output/(1-p) for the elements kept by the latest training pass and nothing for the dropped ones. In evaluation mode the output equals the input bit for bit, whatever happened before.",
 ["inputs", "histories"], "every possible sequence of random-generator answers (drop/keep pattern) for small tensors x p values x pass/mode histories",
 "Not reached by any passing test; random draws sample a few masks and gradients are usually compared against the same unscaled formula.",
 [K, L+"cpudropout.cpp", "src/initializers.cpp", "documentation/layers.md"],
 [("mask drawn per training pass", K+": CPUDropoutForward"), ("mask reused by backward", K+": CPUDropoutInputGrad"), ("mode flag", L+"cpudropout.cpp: forward")], ["outputs, grad_input"])

prop("C14", "Parallel kernels give the sequential result under every schedule",
 "Wherever the library runs a computation on several threads (the parallel loops of Convolution forward/backward and Add backward), the result is the single-threaded result for every number of threads and every interleaving (bit for bit where the arithmetic is exact, up to float rounding where sums are regrouped), and no two threads touch the same memory location without synchronisation when one of them writes.",
 ["schedules"], "all interleavings of the parallel regions up to a preemption bound at every conflicting access, for every team size up to the bound, several shapes",
 "A test runs one schedule, and batch sizes in tests are small enough that races hide.",
 [K, L+"cpuadd.cpp", L+"cpuconvolution.cpp"], [("each iteration owns its sample's slice", K+": omp parallel for in CPUConvolutionalForward/InputGrad"), ("element-wise ownership", L+"cpuadd.cpp: backward")],
 ["outputs/gradients after the parallel region; every memory access inside it"])

prop("C15", "Model forward equals composing its layers, for every graph",
 "For every acyclic graph of layers built from placeholders (fan-out, the same placeholder used twice, several inputs and outputs in any order, outputs that also feed other layers, that repeat or that are inputs, inputs that nothing uses or that lie in the middle of an expression), compiling and running forward writes into the i-th output tensor the value of the i-th output placeholder computed from the i-th input tensors, for every valid execution order the graph library may choose. Repeated calls with different tensors give the results of those tensors, input tensors are not modified, and forward or backward on a model that was not compiled throws.",
 ["programs", "histories", "schedules"], "every DAG up to a bounded number of operations and inputs x every choice of output list x every topological order x call sequences",
 "dw::Model is not even linked into the test build here; the upstream tests use one fixed residual graph and one order.",
 [GB, MOD, BE, "src/expression/placeholder.cpp", "src/expression/call.cpp"],
 [("graph discovery from outputs", GB+": unroll/build"), ("port-indexed ids", MOD+": initNodeId"), ("binding and in-order execution", BE+": bind/forward")], ["output tensors"])

prop("C16", "Back-propagation through any graph computes the exact total gradient",
 "For every acyclic graph of layers, backward after forward leaves in every parameter's gradient the exact derivative of sum over outputs of grad_output*output, with contributions summed over all paths (fan-out, a placeholder used twice by one layer, outputs that also feed other layers, that repeat or that are inputs, several outputs), for every execution order. Repeating the pair of passes gives the same gradients again, and the tensors passed by the user (inputs, outputs, grad_outputs) are not modified.",
 ["programs", "histories"], "every DAG up to a bounded size x every output list x every topological order x repeated passes",
 "dw::Model is not linked into the test build; upstream tests cover one fixed graph.",
 [BE, GB, MOD, L+"cpuadd.cpp"], [("gradients zeroed then accumulated in reverse order", BE+": backward"), ("each layer adds to its input gradients", K)], ["Parameter::grad for every parameter"])

prop("C17", "Evaluation mode is pure; train/eval switching reaches every layer",
 "After model.train(false), forward is a deterministic function of the inputs, the parameters and the running statistics: it changes no parameter, buffer or state entry, applies no dropout, and any number of repeated calls give identical outputs; an optimizer step changes nothing. model.train(true) switches every parameter of every layer back, and this holds after any history of switches, passes and optimizer steps, also for models obtained by loading.",
 ["histories"], "every sequence up to a depth of {train(true), train(false), forward, backward, optimizer step, save/load} on models containing BatchNorm1D/2D and Dropout",
 "Not linked into the test build; interactions of mode switches with passes are histories.",
 [MOD, L+"cpubatchnorm1d.cpp", L+"cpubatchnorm2d.cpp", L+"cpudropout.cpp", "src/optimizer.cpp"],
 [("trainable flag on every parameter is the mode", MOD+": Model::train; src/model/parameter.cpp")], ["outputs, state(), params()"])

prop("C18", "Layer names are unique and every view of a model shares one storage",
 "Building a model with two layers of the same explicit name throws; layers without a name get generated names that differ from each other and from the names the other layers of the model already have, and every layer is found by getLayer under its name, with the right type and its own input and output placeholders, while an unknown name throws. params(), state(), layer params/buffers and the running backend all refer to the same storage under '<layer>.<name>' keys, with no entry missing or extra, so a write through any view is seen by all others and by the next forward.",
 ["programs", "histories"], "every assignment of names from a small alphabet (including empty and collisions with generated ones) to every graph up to a bound x every write view x every read view",
 "Not linked into the test build; upstream tests check single names.",
 [MOD, "src/model/layer.cpp", "src/model/layer_info.cpp", "src/model/parameter.cpp"],
 [("unique-name check and name generation", MOD+": checkNamesAreUnique/initNodeId"), ("shared Tensor/Parameter handles", MOD+": Model::Impl::Impl")], ["Model::getLayer/params/state/layers"])

prop("C19", "A model rebuilt from its config computes the same function",
 "For every model, building a new model from its config and copying the state by name gives a model with the same inputs and outputs in the same order and shapes, the same layer names, types, attributes, parameters and state keys, and bit-identical forward results. The config of the rebuilt model again rebuilds the same function.",
 ["programs", "configurations"], "every DAG up to a bound, every layer type with varied attributes, every input/output order, every topological order",
 "Not linked into the test build; upstream tests use single-input single-output chains.",
 [MOD, NN], [("config extraction", MOD+": createConfig"), ("rebuild through make_layer", MOD+": Model::Build; "+NN+": make_layer")], ["Model::cfg, forward results"])

prop("C20", "Saving and loading restores exactly the saved model",
 "save followed by load, and save_cfg/save_state followed by load_cfg/load_state, restore architecture, names, attributes, parameter and buffer values bit for bit (including infinities, NaNs, negative zero and denormals) and therefore bit-identical outputs in evaluation mode; state may be loaded into a model with the same layers whose values were changed in any way in between. Saving does not modify the model, and saving the loaded model and loading again is a fixed point.",
 ["programs", "inputs", "histories"], "every DAG up to a bound x every layer type and attribute values x special float values in every tensor x save/modify/load sequences",
 "Serialization is not linked into the test build.",
 [SER, MOD], [("length-prefixed binary records", SER)], ["files and reloaded models"])

prop("C21", "Damaged or foreign model files are rejected, never half-accepted",
 "Loading a model, config or state from a file that is missing, empty, cut off at any byte, or of the wrong kind throws an exception without crashing, hanging or reading out of bounds. Loading a state with an entry the model does not have, or has with another shape, throws.",
 ["fault_sequences", "crash_points"], "truncation at every byte offset of saved files (crash points of a writer), every kind confusion, every single-entry name/shape mismatch, missing file",
 "Serialization is not linked into the test build; tests never damage files.",
 [SER], [("kind tag, name and shape checks; stream state checks", SER+": load_*")], ["exception or success of load*"])

prop("C22", "A failed save is reported",
 "If the file cannot be created or any write to it fails (missing directory, no permission to create, disk full after any number of bytes), save, save_cfg, save_state and save_dot throw; if they return normally the file holds everything needed to load it back.",
 ["fault_sequences"], "every write-fault position (disk full after k bytes, for every k) plus uncreatable paths, for each save function",
 "Tests never inject write errors.",
 [SER], [("stream state checks after writing", SER+": save_*")], ["exception or success of save*"])

prop("C23", "SGD and momentum follow their recurrence over every training history",
 "After any sequence of gradient changes, steps, learning-rate changes and freeze/unfreeze of individual parameters, every parameter equals the textbook recurrence (SGD: w -= lr*g; momentum: v = gamma*v + lr*g, w -= v with one velocity per parameter) applied with the learning rate in force at each step; a frozen parameter and its velocity do not change in that step. get_lr returns the last value set, gradients are never modified, and parameters never influence each other.",
 ["histories"], "every operation sequence up to a depth over two parameters of different sizes (around the vector width), exact dyadic values",
 "The passing optimizer tests run one fixed parameter set with a constant learning rate for a few steps.",
 ["src/optimizer.cpp", "include/deepworks/optimizers.md"], [("per-name velocity map, trainable check", "src/optimizer.cpp: SGD/SGDMomentum::step")], ["Parameter::data after step"])

prop("C24", "Adam follows its bias-corrected recurrence over every training history",
 "After any sequence of gradient changes, steps, learning-rate changes and freeze/unfreeze of individual parameters, every parameter equals the Adam recurrence with one first and second moment per parameter, bias correction by the number of steps taken by the optimizer (starting from the given iteration count), and update lr*m_hat/(sqrt(v_hat)+epsilon). A frozen parameter and its moments do not change in that step, gradients are never modified, and get_lr returns the last value set.",
 ["histories"], "every operation sequence up to a depth over two parameters, several betas/epsilon/start counts",
 "The passing Adam test runs one fixed configuration.",
 ["src/optimizer.cpp", "include/deepworks/optimizers.md"], [("moment maps, shared step counter", "src/optimizer.cpp: Adam::step")], ["Parameter::data after step"])

prop("C25", "Cross-entropy loss and gradient are exact for every batch and history",
 "CrossEntropyLoss forward returns -1/B * sum_i log p[i][t_i] and backward writes exactly -1/(B*p[i][t_i]) at the target positions and 0 elsewhere, overwriting grad_output, for every batch size, class count, targets in range and probabilities (0 or normal floats). Results depend only on the arguments (not on earlier calls with other shapes, nor on forward being called before backward), arguments other than grad_output are unchanged, and mismatching shapes throw without touching grad_output.",
 ["inputs", "histories"], "all target assignments for all small batch/class counts x probability patterns x call sequences with changing shapes",
 "The passing loss tests sample one shape with random data.",
 ["src/loss.cpp", K], [("flattened target index", K+": MatchTargetTo1dMatrix"), ("cached log buffer re-sized on shape change", "src/loss.cpp")], ["return value, grad_output"])

prop("C26", "Accuracy equals the fraction of rows whose argmax is the label",
 "accuracy returns the fraction of rows whose largest prediction is at the label's column, and accuracyOneHot the fraction of rows whose largest prediction is at the column of the largest one-hot entry, for every number of rows, every prediction matrix with distinct values per row and every label vector. Arguments are unchanged and mismatching shapes throw.",
 ["inputs"], "all orderings of each row x all labels for all small row/column counts, plus widths beyond the vector width",
 "The passing metric tests use a handful of fixed matrices.",
 ["src/metrics.cpp"], [("per-row argmax compare", "src/metrics.cpp")], ["return value"])

prop("C27", "Sequential DataLoader delivers each full batch once per epoch, in order",
 "Without shuffling, successive pulls return true and fill row i of X and y with consecutive dataset items 0,1,2,..., then return false exactly once when fewer than batch_size items remain, after which the next pull starts again at item 0; a partial batch is never delivered and a false pull writes no data. Empty tensors are allocated to {batch, item shape}, tensors of the right shape are reused in place, a tensor of a wrong shape is rejected with an exception before any item is consumed or any row written, so the next valid pull continues where the loader was.",
 ["histories", "configurations"], "every pull sequence up to several epochs x every dataset size x batch size (also larger than the dataset) x tensor states x item ranks 0-3 x datasets that throw",
 "The DataLoader has no passing test here.",
 ["src/dataloader.cpp", "include/deepworks/dataloader.hpp", "documentation/data.md"], [("position counter, reset at epoch end", "src/dataloader.cpp: pull/reset")], ["pull result, X, y"],
 [dict(name="m_pos", meaning="items consumed in this epoch", where="DataLoader")])

prop("C28", "Shuffled DataLoader batches hold distinct valid items for every random draw",
 "With shuffling, for every behaviour of the random generator, each delivered batch consists of batch_size distinct items of the dataset, each row's X and y coming from the same item, and every item can be drawn, including the first and the last; draws are never replayed from an earlier batch; the number of batches per epoch and the end-of-epoch protocol are the same as without shuffling. Items outside the dataset are never requested.",
 ["inputs", "histories"], "every sequence of random-generator answers up to a depth x dataset size x batch size",
 "No passing test; a random test cannot cover generator answers at the range ends.",
 ["src/dataloader.cpp", "src/utils/generator.hpp"], [("distinct indices drawn within [0,size-1]", "src/dataloader.cpp: randomIndices")], ["indices requested from the dataset, X, y"])

prop("C29", "Initializers fill every element with the promised values and nothing else",
 "zeros and constant set every element to the exact value; uniform(lower, upper) sets every element within [lower, upper] and reaches both ends of that range as the generator answers vary; xavierUniform sets every element within [-a, a], a = sqrt(6/(fan_in+fan_out)), and uses the whole range (fan_in+fan_out is the sum of the two dimensions of a 2-D tensor, otherwise the leading dimension plus the number of elements per leading index). This holds for the in-place functions and the Tensor factories, for every shape, each element comes from its own draw, never used before, and no memory outside the tensor is touched.",
 ["inputs", "configurations"], "every shape of a bounded grid (ranks 1-4) x every extreme/mid generator answer per element",
 "The passing tests only check zeros/constant on one shape; range ends need specific generator answers.",
 ["src/initializers.cpp", "src/runtime/tensor.cpp", "src/utils/generator.hpp", "README.md"], [("distribution over the shared generator", "src/initializers.cpp")], ["tensor elements"])

prop("C30", "PNG images decode to their exact pixel values in HWC order",
 "Reading a valid PNG yields a {height, width, channels} tensor of 8-bit sample values as floats in row-major HWC order for every colour type, bit depth and interlacing: 8-bit samples unchanged, 16-bit samples reduced to their high byte, 1/2/4-bit grey samples expanded to the 0-255 range, palette images (without transparency) expanded to RGB. Reading into a non-empty tensor fills it in place when the element count matches and throws otherwise, leaving it unchanged; no memory or file descriptor is leaked and the path may be any string view.",
 ["inputs", "configurations"], "every colour type x bit depth x interlace x filter x small width/height (odd widths for sub-byte depths) x pixel patterns x output-tensor states",
 "The passing tests read a few 8-bit RGB files.",
 ["src/io/image_reader.cpp", "include/deepworks/image_reader.hpp"], [("libpng row reading and copy-out", "src/io/image_reader.cpp: ReadPngFile")], ["returned tensor"])

prop("C31", "JPEG images decode to the decoder's exact samples in HWC order",
 "Reading a valid JPEG (extensions jpg and jpeg) yields a {height, width, channels} tensor whose values equal the samples the JPEG library decodes, in row-major HWC order, for grey and colour, baseline and progressive, every subsampling and every size. Reading into a non-empty tensor fills it in place when the element count matches and throws otherwise, leaving it unchanged; repeated reads leak no memory or file descriptor.",
 ["inputs", "configurations"], "grey/colour x baseline/progressive x subsampling x quality x small sizes around block boundaries x output-tensor states",
 "The passing tests read a few files.",
 ["src/io/image_reader.cpp"], [("scan-line loop", "src/io/image_reader.cpp: ReadJpegFile")], ["returned tensor"])

prop("C32", "Unreadable or corrupt images raise an exception, never crash or leak",
 "Reading an image that is missing, a directory, empty, of an unsupported extension, of another format than its extension says, a PNG cut off anywhere before the end of its pixel data, or a JPEG cut off inside or without its headers, throws an exception: the process neither crashes, exits nor hangs, no memory or file descriptor is leaked, and the next read of a valid image succeeds. A PNG or JPEG with corrupted bytes throws whenever the image library reports a fatal error for it.",
 ["fault_sequences", "inputs"], "truncation at every byte, every single-byte corruption (several values) of sample files of each colour type, every format/extension mismatch, missing paths; each followed by a valid read",
 "The passing tests check only an unsupported extension or missing data superficially.",
 ["src/io/image_reader.cpp"], [("error callbacks turned into exceptions with cleanup", "src/io/image_reader.cpp")], ["exception, process survival, open descriptors"])

prop("C33", "Layout conversions are exact inverse permutations",
 "Converting NCHW to NHWC places element (n,c,h,w) at (n,h,w,c) and NHWC to NCHW does the reverse, for every shape; converting back and forth restores the tensor bit for bit, the source is unchanged and every destination element is written.",
 ["inputs", "configurations"], "every shape in a 4-D grid including dimensions of 1 and unequal dimensions",
 "No passing test.",
 [K, "include/deepworks/utils/utils.hpp"], [("index permutation", K+": utils::NCHW2NHWC/NHWC2NCHW")], ["destination tensor"])

prop("C34", "A training loop equals gradient descent on the composed function, step by step",
 "Running the documented loop (loader pull, model forward, loss forward/backward, model backward, optimizer step) for any number of steps gives the losses and parameters of exact gradient descent on the same function and batches, whichever optimizer is used and whatever is frozen, with evaluation passes in between having no effect. Interrupting after any step by saving the model, loading it and continuing with plain SGD gives the same parameters as not interrupting.",
 ["histories", "crash_points"], "every sequence up to a depth of {train step on batch k, eval pass, freeze/unfreeze, save+load+continue} on small networks, against a double-precision reference",
 "dw::Model is not linked into the test build; end-to-end samples need data and only look at accuracy.",
 [MOD, BE, "src/loss.cpp", "src/optimizer.cpp", "src/dataloader.cpp", SER], [("shared parameter storage between backend, optimizer and state", MOD)], ["loss values, params(), state()"])

prop("C35", "save_dot describes exactly the model's graph in valid DOT",
 "For every model, save_dot writes a file in the DOT language with exactly one node per placeholder (its id and shape in the label) and one per layer (label '<name> (<type>)'), and exactly one edge per layer input and per layer output, labelled with its port, connecting that layer with that placeholder. This holds for every layer name except 'Placeholder_<number>', whatever characters it contains, and saving does not change the model's config.",
 ["programs", "inputs"], "every DAG up to a bound x input/output lists x every pair of names from a set with spaces, punctuation, keywords, quotes and line breaks",
 "save_dot has no test; a test would use tame names.",
 [SER, MOD], [("node and edge lines from the config", SER+": save_dot")], ["the written file"])

prop("C36", "All copies of a Parameter share one value, gradient and trainable flag",
 "A new Parameter holds the very tensor it was given (same memory), a gradient of the same shape filled with zeros in memory of its own, and the given trainable flag (true by default). After any sequence of creating, copying (also through maps), freezing, unfreezing and writing, all copies of one parameter show the same data, gradient and flag, parameters that are not copies never share any of these, and reading or switching the flag changes no value.",
 ["histories"], "every operation sequence up to a depth over two and three handles, every shape of a bounded grid",
 "No passing test constructs more than one handle of a parameter.",
 ["src/model/parameter.cpp", "include/deepworks/parameter.hpp", "documentation/parameter.md"], [("shared Impl behind every copy", "src/model/parameter.cpp")], ["Parameter::data/grad/is_trainable"])

prop("C37", "Printing a tensor or shape shows every element in order and nothing else",
 "Streaming a Tensor writes '[' , the elements in row-major order separated by ', ' in the stream's current number format, and ']' ('[ ]' for an empty tensor); streaming a Shape writes '{', the dimensions separated by ', ' and '}' ('{ }' for an empty shape). Neither changes the tensor, the shape or the stream's format.",
 ["inputs"], "all tuples of special values, all small shapes including empty ones, lengths up to thousands, several stream formats",
 "The passing test prints one 2x2 tensor and an empty one.",
 ["src/runtime/tensor.cpp", "include/deepworks/shape.hpp"], [("element loop", "src/runtime/tensor.cpp: operator<<")], ["stream contents"])

prop("C38", "Sample datasets deliver each file once with its class, in any listing order",
 "Each sample dataset (samples/) holds every file (iris: every row) of its folder exactly once; pulling an item, any number of times and in any order, writes exactly the file's pixels divided by 255 (CIFAR: in CHW order; iris: the four features) and its class's label into the tensors given and nothing else. Labels are the digit (MNIST), the documented class number (CIFAR-10, iris) or a numbering 0..n-1 of the class folders that depends on their names only (CIFAR-100) and is shared by all sets of the process. Unknown class folders (CIFAR-10), malformed rows, unknown species and unreadable files (iris) are rejected. Running a sample program's test mode on the model its train mode saved reports the accuracy training reported last, which is the share of test items the saved model gets right, whatever order directories are listed in.",
 ["inputs", "histories"], "all small folder trees and CSV files, every order in which readdir may list them, request histories, train/test runs of the four programs",
 "No test covers the samples, and a run sees one listing order only.",
 ["samples/mnist/utility.cpp", "samples/cifar10/utility.cpp", "samples/cifar100/utility.cpp", "samples/iris/utility.cpp", "samples/iris/main.cpp"],
 [("label tables", "samples/cifar10/utility.cpp: label2digit; samples/cifar100/utility.cpp: dir2label_"), ("transposition", "samples/cifar10/utility.cpp: HWC2CHW"), ("rows", "samples/iris/utility.cpp: IrisCSVDataset")], ["items pulled", "what the programs print"])

prop("C39", "Random draws are never replayed, whoever makes them",
 "Initializers, Dropout masks and shuffled batches never use random numbers that were used before: in one process, no state of a random engine yields two draws, across all tensors, layers, loaders and models and in any order of calls. So two initialised tensors, two training passes of a Dropout layer or two shuffled batches are never copies of one another by construction. Evaluation passes, constants and sequential loaders draw nothing that changes this.",
 ["histories"], "every sequence up to a depth of operations that draw, on real initializers, layers, loaders and models, plus long repetitions",
 "Tests draw once and only look at ranges; a rewound or copied engine still gives plausible values.",
 ["src/utils/generator.hpp", "src/initializers.cpp", "src/dataloader.cpp", K], [("the process-wide engine", "src/utils/generator.hpp: generator"), ("drawing by reference", "src/initializers.cpp, src/dataloader.cpp")], ["uniform, xavierUniform, Dropout forward, DataLoader::pull"])

prop("C40", "An error's text names the place and the whole message, however it travels",
 "Every exception raised through DeepWorks_Throw or DeepWorks_Assert is a std::exception whose what() names file, function and line and then ends with exactly what was streamed into it, in order; copies, exceptions stored, rethrown, moved between threads or outliving the original show the same text, and reading it changes nothing. DeepWorks_Assert evaluates its expression once, throws exactly when it is false and names the expression. A rejected call leaves the tensors involved as they were.",
 ["inputs", "histories"], "all tuples of message parts x ways of catching, copying and rethrowing; all assertion outcomes; all sequences of rejected calls",
 "Tests only check that something is thrown.",
 ["include/deepworks/utils/assert.hpp", "src/utils/assert.cpp"], [("shared message buffer", "include/deepworks/utils/assert.hpp: DeepWorksException")], ["what()"])

prop("C41", "Threads using different objects never disturb one another",
 "Operations on different objects (layers, models, optimizers, losses, metrics, loaders, datasets, initializers, tensors, image files, model files, printing, rejected calls) may run on different threads of a program at the same time, also when they read the same tensors or dataset and when it is the first use of the library in the process: under every interleaving each gives bit for bit the result it gives alone (operations that draw random numbers: a valid result), none fails or deadlocks, and no memory is accessed by two threads without synchronisation unless both only read it. One object is used by one thread at a time.",
 ["schedules", "inputs"], "all pairs of operations, either thread first, also as the first use in a process; every preemption at synchronisation points",
 "Tests use the library from a single thread.",
 ["src/utils/generator.hpp", "src/runtime/cpu/kernels/kernels.cpp", "src/runtime/cpu/layers", "src/runtime/tensor.cpp", "src/dataloader.cpp", "src/optimizer.cpp", "src/loss.cpp", "src/io/image_reader.cpp"], [("one random generator per thread", "src/utils/generator.hpp: generator()"), ("no hidden state shared by kernels", "src/runtime/cpu/kernels/kernels.cpp")], ["results of both threads, and every memory access of the library"])

prop("C42", "Layers reject the uses they cannot serve, and a rejected call leaves no trace",
 "A layer called wrongly throws: a forward pass with no or two input or output tensors (activations, Dropout, Softmax, Linear, BatchNorm), with tensors of a rank the layer does not handle (Softmax 2D, BatchNorm1D 2D, BatchNorm2D 4D, Linear not 1D), with an output of another shape than the input (activations, Dropout), with gamma and beta in different train modes, or with kernel, padding or stride values that make no sense (Convolution, MaxPooling); a backward pass or parameter gradients of Convolution, MaxPooling or BatchNorm before any forward pass; a backward pass of MaxPooling whose gradient has another shape than the latest output. A rejected call, however often it is made and wherever in a history, changes no tensor given to it, no parameter, gradient or buffer, and nothing later passes depend on: every later pass, also the backward pass of an earlier forward pass, gives bit for bit what it would have given without it.",
 ["histories", "inputs"], "every misuse at every point of every history of forward and backward passes up to a depth",
 "Tests only make valid calls.",
 [L, K], [("validation before anything is touched", L + "*.cpp: validate and the start of forward/backward")], ["exceptions; outputs, gradients and buffers of the passes around them"])

def design(CHECKS):
    """Fills the generated parts of DESIGN.md."""
    import re
    path = os.path.join(HERE, "DESIGN.md"); s = open(path).read()
    def fill(tag, text):
        nonlocal s
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
    out = ""
    for p in P:
        c = CHECKS.get(p["id"])
        out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
        if not c: out += "Not claimed (see not_applicable).\n\n"; continue
        r = c["run"]; b = r["bounds"]
        out += "* Decided by: %s. %s\n" % (c["technique"], c["level_note"])
        out += "* Enumerated (quick): %s.\n* Thorough: %s.\n" % (b["quick"], b["thorough"])
        out += "* States: %s; transitions: %s. Harness: %s.\n" % (r["states_are"], r["transitions_are"], ", ".join("harness/h_%s.cpp" % x for x in r["builds"]))
        out += "* Beyond the tests: %s\n" % p["why_tests_cant"]
        if len(r["assumptions"]) > 2: out += "* Assumes: %s.\n" % "; ".join(r["assumptions"][2:])
        out += "\n"
    fill("properties", out)
    fx = ""
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m: fx += "* %s, %s: %s\n" % m.groups()
    fill("fixes", fx)
    sd = os.path.join(HERE, "seeded"); t = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        t += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), NOTED.get(d, m["property"]))
    fill("seeded", t)
    fill("refactorings", "".join("* %s\n" % x for x in REFACT))
    open(path, "w").write(s)

# planted bugs that need a remark
NOTED = {"C34-idle-backward": "C34 (missed at first; scenario weighted added), C16", "C17-train-early-exit": "C17 (missed at first; scenario individual_flags added)"}
REFACT = [
 "kernels.cpp: `schedule(dynamic)` on the convolution loops, `schedule(guided, 2)` and `if(...)`, `num_threads`, `schedule(runtime)` on Add backward, parallel sections in Add backward, `single` + `for schedule(static,1)` in convolution forward (C14)",
 "kernels.cpp: convolution weight gradient parallelised with a critical section, bias gradient with atomics or per-thread partial sums, thread_local scratch buffer (C14)",
]
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
    for p in P: assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    try:
        from checks_spec import CHECKS, NA, NOTES
    except ImportError:
        CHECKS, NA, NOTES = {}, {}, ""
    man = dict(version=1, setup_cmd="python3 /verif/tools/run.py --setup",
               hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the checks compile /repo's sources unmodified", source_commits=[]),
               checks=[dict(property=i, quick_cmd=f"python3 /verif/tools/run.py {i}",
                            thorough_cmd=f"VERIF_TIER=thorough python3 /verif/tools/run.py {i}",
                            evidence_file=f"evidence/{i}.json", **{k: v for k, v in CHECKS[i].items() if k != "run"}) for i in ids if i in CHECKS],
               not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in CHECKS],
               notes=NOTES)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
    design(CHECKS)
