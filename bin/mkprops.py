import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
NT="No test in the repository touches this code; "
p("C01","Tensors behave as 4-D arrays over any operation history",
 "Whatever sequence of operations (create, resize, reshape, clear all or one sample, write, copy sample, copy map, copy, move, shadow, transpose, maximum queries) is applied to tensors, every element read back is the one a plain samples x maps x height x width array would hold, resizing to an equal element count keeps the contents, and a shadow and its target always see the same values. Copying into a larger image zero-fills the rest; copies whose map count, size or sample index do not fit are refused and change nothing. No operation reads or writes outside the tensor's storage or frees it twice.",
 ["histories","inputs"],"every sequence of the operations above over tensors with tiny dimensions",
 NT+"aliasing, reshaping in place and move/shadow ownership depend on the order of operations, and the number of orders grows exponentially.",
 ["src/util/Tensor.cpp","include/cn24/util/Tensor.h"],[("ownership flags and in-place reshape","Tensor::Resize/Reshape/Shadow/DeleteIfPossible"),("bounds and zero padding","Tensor::CopySample/CopyMap")],["data pointers and accessors of the tensors, AddressSanitizer"])
p("C02","Tensor files read back exactly what was written, in every reading mode",
 "Any sequence of tensors written one after the other to a stream or file is read back with the same count, order, dimensions and bit patterns, whether the reader copies, memory-maps or only scans headers first, and whether it is read directly or through a tensor stream. Reading one tensor always leaves the stream at the start of the next one. Reading never modifies the file, and nothing of it stays mapped once the tensors are gone.",
 ["inputs","histories"],"every short sequence of tensors of small shapes and all special float bit patterns, and every assignment of reading modes to the tensors",
 NT+"positions and page offsets of later tensors depend on all the earlier ones and on how they were read.",
 ["src/util/Tensor.cpp","src/util/FloatTensorStream.cpp","tools/tensorStreamTool.cpp"],[("header + raw data layout","Tensor::Serialize/Deserialize"),("mmap offset arithmetic","Tensor::Deserialize"),("load until end of file","FloatTensorStream::LoadFiles")],["tensor contents after reading"])
p("C03","Tensor compression is lossless for every data pattern",
 "Compressing a tensor and decompressing it yields the same dimensions and exactly the same numbers for every content, including runs of every length, values whose bytes look like the encoder's own markers, and negative zero. Writing the compressed form to a file and reading it back (copied or memory-mapped) changes nothing. The compressor never writes past its buffers.",
 ["inputs"],"every word over an adversarial value alphabet up to a length bound, and every run length across the encoder's limits in every combination of neighbours",
 NT+"run-length limits and marker escapes interact only for particular adjacent patterns.",
 ["src/util/CompressedTensor.cpp","include/cn24/util/CompressedTensor.h"],[("run-length encoder with escape marker","CompressData"),("decoder","DecompressData")],["decompressed tensor"])
p("C04","The storage format of a tensor stream is invisible to its users",
 "The same images stored as plain floats, compressed, or converted by the command-line tools give the same number of tensors, the same dimensions and identical sample contents through the stream interface, whichever way the file is opened. Copying a sample into a larger tensor zero-fills the border; a request that does not fit (other map count, too small target, tensor or sample index out of range) is refused with a failure result and leaves the target untouched. The format of a file is recognised from its contents.",
 ["inputs","configurations"],"all small datasets x all stream kinds x all copy requests (index, sample, target shape), valid and invalid",
 NT+"format equivalence is a relation over all datasets and request combinations.",
 ["src/util/TensorStream.cpp","src/util/FloatTensorStream.cpp","src/util/CompressedTensorStream.cpp","tools/compressTensorStream.cpp"],[("format dispatch","TensorStream::FromFile"),("sample copy","*TensorStream::CopySample")],["CopySample result and target contents"])
p("C05","Image lists and import tools turn label colours into the right classes",
 "Importing a list of image and label files gives, for every pixel, the image's channel values and a label with exactly the classes set whose configured colour the label pixel has (for a single class: a foreground score from -1 to 1 by colour distance). A dataset read directly from image lists, one imported to a plain tensor file and one imported to a compressed file are identical. Image k is always paired with label k, and files are taken relative to the listed directories.",
 ["inputs","configurations"],"all small label images over the class colours plus near-miss colours, all class tables up to a bound, all three import paths",
 NT+"the colour-to-class mapping is a function of every pixel colour and class table.",
 ["src/util/ListTensorStream.cpp","tools/makeTensorStream.cpp","tools/makeCompressedTensorStream.cpp"],[("colour matching","ListTensorStream::CopySample, make*TensorStream main")],["label tensors"])
p("C06","Images survive saving, loading and colourising unchanged",
 "A colour image loaded from an 8-bit file and saved again as PNG has exactly the same pixel values, and loading an image puts every pixel's channel at the matching position of the tensor. Colourising a network output paints each pixel with the configured colour of its highest-scoring class whatever the sign of the scores, (for one class: a shade proportional to the score), so reading the colours back recovers the classes. Loading or saving chooses the format by file name, and never crashes on names or files it cannot handle.",
 ["inputs"],"all 256 values per channel, all small image shapes and channel counts, all small score maps with sign combinations",
 NT+"rounding at single intensities and sign-dependent class choice only show up for particular pixel values.",
 ["src/util/PNGUtil.cpp","src/util/JPGUtil.cpp","src/util/Colorize.cpp","src/util/Tensor.cpp","include/cn24/util/Config.h"],[("float/byte conversion","UCHAR_FROM_DATUM, DATUM_FROM_UCHAR"),("class colouring","Dataset::Colorize"),("format by extension","Tensor::LoadFromFile/WriteToFile")],["pixel values"])
p("C07","Full-image datasets deliver exactly the stored samples",
 "For every training and testing index, the dataset delivers the stored image and label of that index in the requested batch slot, zero-padded to the dataset size, with the normalised pixel coordinates as spatial information and a weight of zero exactly outside the image and otherwise the localised error times the weight of the pixel's class. The dataset size is that of the largest training or testing image, rounded up to a multiple of 64 in each direction; counts and class tables match the configuration file, and out-of-range requests are refused. Other batch slots are not touched.",
 ["inputs","configurations"],"all small datasets (mixed image sizes, training/testing splits, class weights, error functions) x all indices x all batch slots",
 NT+"mixed-size padding and training/testing offsets need particular combinations of image sizes.",
 ["src/util/TensorStreamDataset.cpp","include/cn24/util/Dataset.h","src/util/KITTIData.cpp"],[("sample, helper and weight filling","TensorStreamDataset::GetTrainingSample/GetTestingSample"),("size computation","TensorStreamDataset constructor")],["data, label, helper and weight tensors"])
p("C08","Patch datasets present every image patch exactly once with its own label",
 "Enumerating all training (or testing) indices of a patchwise dataset yields every patch position of every image exactly once, with the patch's pixels, the label and weight of the pixel that patch stands for, and the normalised coordinates of its top left corner. Training indices only deliver training images and testing indices only testing images; out-of-range requests are refused. Images smaller than a patch contribute no patches.",
 ["inputs","configurations"],"all small datasets x all patch sizes x all indices, in training and testing",
 NT+"the index arithmetic must be right for every combination of image sizes and splits.",
 ["src/util/TensorStreamPatchDataset.cpp"],[("index to image/position mapping","TensorStreamPatchDataset::GetTrainingSample/GetTestingSample")],["patch, label, weight and helper tensors"])
p("C09","Training visits every sample once per pass and testing visits all in order",
 "In training, each pass over the data uses every training sample exactly once in shuffled order before any is used again; in testing, samples are used in storage order from the first one, each exactly once, and batch slots beyond the end carry zero weight. Switching between training and testing, in any order and number of times, restarts testing from the first sample and does not make training repeat or skip samples. Loss sampling only ever zeroes weights, never in testing.",
 ["histories","configurations"],"all sequences of batches and mode switches up to a depth x dataset sizes x batch sizes",
 NT+"pass boundaries inside a batch and mode switches in the middle of a pass need particular histories.",
 ["src/net/DatasetInputLayer.cpp"],[("shuffled permutation and positions","DatasetInputLayer::FeedForward/SetTestingMode/RedoPermutation")],["samples and weights in the batch outputs"])
p("C10","Convolution layers compute the exact convolution and its exact gradients",
 "For every input size, kernel size, stride, padding, group count, kernel count and batch size that fits, the forward pass of a convolution layer is the mathematical (cross-correlation) definition with zero padding plus bias. Its backward pass delivers exactly the derivatives with respect to input, weights and bias, overwriting rather than adding to old gradients. Repeating passes with other data leaves no trace of earlier passes. In testing mode a dropout fraction only scales the output by the keep probability; training with dropout, which is not implemented, is refused.",
 ["inputs","configurations","histories"],"all layer geometries up to a bound x every weight impulse x pass sequences",
 "The gradient test covers three fixed geometries without padding, on square images, with a 15% failure allowance and never checks the forward value.",
 ["src/net/ConvolutionLayer.cpp","src/math/TensorMath.cpp"],[("im2col + matrix product","ConvolutionLayer::FeedForward/BackPropagate")],["output, input gradient, weight and bias gradient"])
p("C11","Pooling layers forward the maximum and route gradients only to it",
 "For every geometry that fits, a max-pooling layer outputs the maximum of each pooling region of each map and sample independently. In the backward pass the gradient of every output goes to exactly one input of its region holding that maximum, overlapping regions add up, and all other inputs receive zero. Repeated passes leave no trace of earlier ones.",
 ["inputs","configurations","histories"],"all pooling geometries up to a bound x all orderings of values (ties, negatives) within regions x pass sequences",
 "The gradient test uses four fixed geometries with random inputs, so ties, all-negative regions, non-square and overlapping regions with several samples are not settled.",
 ["src/net/MaxPoolingLayer.cpp","src/net/AdvancedMaxPoolingLayer.cpp"],[("argmax mask","FeedForward/BackPropagate")],["output and input gradient"])
p("C12","Activation and normalisation layers compute their function and derivative",
 "Sigmoid, tanh, rectifier, h-max, softmax and local response normalisation layers output their mathematical function of the input at every element, for every image shape, and their backward pass delivers the function's derivative applied to the incoming gradient (h-max also for its two parameters, with the sparsity rule on top, and without the local learning rate, which belongs to the trainer; softmax, which works on vectors, hands the gradient through unchanged). Every element of every sample and map is treated, also on non-square images. A forward pass depends on the current input only.",
 ["inputs","configurations"],"all small shapes x value alphabets over each element position x normalisation sizes and modes",
 "The gradient test checks a few activations at one square shape with a failure allowance; normalisation and softmax are never run.",
 ["src/net/NonLinearityLayer.cpp","src/net/ActivationFunctions.cpp","src/net/LocalResponseNormalizationLayer.cpp","include/cn24/net/HMaxActivationFunction.h"],[("elementwise loops","FeedForward/BackPropagate of each layer")],["output and input gradient"])
p("C13","Layers that move data around are exact copies and exact adjoints",
 "Border resizing (centred, zero border), upscaling, averaging input down-sampling, concatenation, summation, gradient accumulation and spatial prior layers place every input value at its defined output position(s), for all shapes, map counts and batch sizes. Their backward passes return to every input exactly the sum of the gradients of the outputs it went to; input down-sampling, which has none, refuses when asked for one. Nothing else is written.",
 ["inputs","configurations"],"all shapes up to a bound x every input/output position",
 "Only one resize and one accumulation geometry is gradient-tested; the others never run.",
 ["src/net/ResizeLayer.cpp","src/net/UpscaleLayer.cpp","src/net/InputDownSamplingLayer.cpp","src/net/ConcatenationLayer.cpp","src/net/SumLayer.cpp","src/net/GradientAccumulationLayer.cpp","src/net/SpatialPriorLayer.cpp"],[("index mapping","FeedForward/BackPropagate of each layer")],["outputs and gradients"])
p("C15","The training loss and its gradient belong together",
 "The loss reported for a batch is half the weighted sum of squared differences between network output and label, scaled by the loss weight, and the gradient handed to the network is exactly its derivative, for every shape and every per-pixel weight. A pixel with zero weight contributes neither loss nor gradient. Computing the loss changes nothing.",
 ["inputs","configurations"],"all small shapes x values of output, label and weight",
 "No test exercises the loss layer.",
 ["src/net/ErrorLayer.cpp","include/cn24/net/LossFunctionLayer.h"],[("loss and delta computation","ErrorLayer::FeedForward/CalculateLossFunction")],["loss value and gradient"])
p("C16","Matrix kernels match their definition in every build variant",
 "Matrix-matrix and matrix-vector products (all transposition and scaling combinations) in row-major order, patch unrolling and its adjoint, up- and down-scaling, sample fill and vector addition compute their textbook definition for all sizes. The dependency-free build and the BLAS build give the same results, except that the dependency-free build refuses column-major order. Output rows and samples not addressed are left unchanged.",
 ["inputs","configurations"],"all sizes up to a bound x all transposition/order/scaling/offset combinations x both builds",
 "Tests only reach the kernels indirectly through a few layer gradients; leading dimensions, offsets and scaling factors are never varied.",
 ["src/math/TensorMath.cpp","include/cn24/math/TensorMath.h"],[("reference loops and BLAS calls","TensorMath::*")],["result tensors"])
p("C17","A network evaluates every layer once, after everything it depends on",
 "For every acyclic network and every order in which its layers were added, a forward pass runs each layer needed by the outputs, losses and statistics exactly once and only after all layers feeding it; a backward pass runs each participating layer exactly once and only after all layers consuming its gradients. Layers behind connections that do not propagate gradients take no part in the backward pass through those connections. Training/testing mode is seen by all layers. Every layer receives for each of its outputs the sum of the gradients sent by the layers that take gradients from it, zero if there are none. A network is reported complete exactly if every connection leads to an existing output of a layer in the network and it has inputs and outputs; initialisation fails with an error if a layer refuses its inputs.",
 ["programs","histories"],"all small graphs (shapes, multi-output layers, gradient flags, insertion orders) x sequences of forward/backward passes",
 "No test builds a network graph with more than a chain.",
 ["src/net/NetGraph.cpp","include/cn24/net/NetGraphNode.h"],[("depth-first evaluation with visited flags","NetGraph::FeedForward/BackPropagate")],["call log of instrumented layers"])
p("C18","Network gradients are the true derivatives for any wiring",
 "For every network wiring, including outputs consumed by several layers, by none, or through connections without gradient, the parameter gradients after a forward and backward pass are the exact derivatives of the total loss. Loss aggregation is the sum over all loss layers. Running the passes again gives the same gradients.",
 ["programs","configurations"],"all small wirings of convolution, activation, sum, concatenation and loss layers",
 "The gradient tests check single layers in isolation, never shared or branching outputs.",
 ["src/net/NetGraph.cpp","src/net/GradientAccumulationLayer.cpp"],[("gradient accumulation nodes for shared outputs","NetGraph::Initialize/InitializeNode")],["parameter gradients"])
p("C19","Saved network parameters restore the network exactly",
 "Saving a network's parameters and loading them into any network built from the same configuration restores bit-identical parameters, so both compute the same outputs. Loading only the first layers changes exactly the parameters of those layers. Saving changes nothing, and repeated save/load/initialise sequences always end with the last loaded or initialised state; initialising covers all parameters. Stored tensors that do not fit the network, and those missing from a damaged file, leave the parameters they stand for as they were.",
 ["histories","configurations"],"all small architectures x all sequences of save/load/partial load/initialise",
 "No test saves or loads parameters.",
 ["src/net/NetGraph.cpp","src/util/Tensor.cpp"],[("parameter order","NetGraph::SerializeParameters/DeserializeParameters/GetParameters")],["parameter tensors, network output"])
p("C20","Optimiser steps follow the documented update rule",
 "Every weight update equals the configured rule applied to the batch gradient averaged over the label pixels (times the loss sampling probability): gradient descent with momentum, L1 and L2 regularisation and local learning rate, or QuickProp with its step limits; the learning rate follows the annealing formula of the global iteration number. Splitting a batch into sequential parts gives the same step as the average over the parts. Resetting or setting the epoch clears momentum and slope memory.",
 ["histories","configurations","inputs"],"all sequences of training steps, resets and epoch changes up to a depth x optimiser settings x gradient values",
 "No test runs the trainer.",
 ["src/net/Trainer.cpp","include/cn24/net/Trainer.h"],[("update rule","Trainer::ApplyGradients/CalculateLR/Epoch")],["parameters after each step"])
p("C21","Training and testing sessions do not disturb each other",
 "For every sequence of train, test, reset and set-epoch commands: testing never changes parameters or optimiser memory, training afterwards continues as if no test had happened, the epoch number advances by one per trained epoch, and layers are in training mode during training and in testing mode during testing. Each testing run evaluates every test sample and reports the average loss over them. Statistics layers take part in every test, and in training only if statistics during training are enabled. Each training epoch performs the configured number of iterations and sequential batches.",
 ["histories"],"all command sequences up to a depth x small settings",
 "No test runs the trainer.",
 ["src/net/Trainer.cpp","tools/trainNetwork.cpp"],[("mode switching and counters","Trainer::Train/Test/Epoch")],["parameters, epoch, layer modes, statistics"])
p("C22","The same seed gives the same network and the same training run",
 "Two networks built from the same configuration, seed and data have bit-identical initial parameters, batches and parameters after any number of training steps, regardless of what else the process did before. Different convolution seeds give different initial weights, and a seed given in a layer description determines that layer's initial weights.",
 ["configurations","histories"],"all small configurations x seeds x interleavings of building, initialising and training two networks",
 "No test compares two runs.",
 ["src/net/ConvolutionLayer.cpp","src/factory/ConfigurableFactory.cpp","src/net/LayerFactory.cpp","src/net/DatasetInputLayer.cpp"],[("per-layer generators seeded from the configuration","constructors and OnLayerConnect")],["parameters and batches"])
p("C23","Layer descriptions are accepted, split and built exactly per grammar",
 "A layer description is valid exactly if it is a layer name optionally followed by one parenthesised list of space separated name=value settings; its name and settings are recovered unchanged. Adding a seed leaves exactly one seed setting, the new one, and all other settings unchanged. A valid description of a known layer builds that layer with exactly the given settings; any other text is refused without crashing.",
 ["inputs"],"all strings over a grammar alphabet up to a length bound, and all parameter combinations of the known layers",
 "The tests check a dozen example strings.",
 ["src/net/LayerFactory.cpp","src/util/ConfigParsing.cpp"],[("regular expressions","LayerFactory::IsValidDescriptor/ExtractConfiguration/ExtractLayerType/InjectSeed/ConstructLayer")],["returned strings and layers"])
p("C24","Network configuration files build the described architecture",
 "For every network configuration, the built network contains exactly the described layers with their parameters in the described order and wiring (including stacks, concatenation, sums, outputs and loss layers), the receptive field and scaling factors match the layers' geometry, and the network's output has the size of the input image in fully convolutional mode. Training settings are taken from the file unchanged. Comments and unknown lines have no effect.",
 ["programs","configurations"],"all configuration files up to a number of lines over the layer alphabet",
 "No test parses a network configuration.",
 ["src/factory/ConfigurableFactory.cpp","src/util/ConfigParsing.cpp"],[("two-pass parser","ConfigurableFactory constructor/AddLayers/InitOptimalSettings")],["graph nodes, shapes, settings"])
p("C25","Fully convolutional and patchwise evaluation agree at every pixel",
 "For every network configuration of convolutions, pooling layers and activations that work pixel by pixel or across maps, the value the fully convolutional network outputs at a pixel inside the image equals, given the same parameters and the same position prior, the value the patch network outputs for the patch whose label pixel it is. Parameters transfer one to one between the two networks. This holds for every scaling factor up to the up-scaling granularity.",
 ["programs","inputs"],"all small configurations of convolution, pooling and activation layers x all pixels",
 "No test builds either mode.",
 ["src/factory/ConfigurableFactory.cpp","src/net/ResizeLayer.cpp","src/net/UpscaleLayer.cpp","src/util/TensorStreamPatchDataset.cpp"],[("receptive field computation","ConfigurableFactory constructor")],["network outputs"])
p("C26","Statistics are recorded only while recording and reported faithfully",
 "For every sequence of register, initialise, start, stop, reset, update, snapshot and generate calls, reported values are those accumulated by updates since the last reset while recording was on; updates outside recording and unknown statistics are ignored. Each report reaches every registered sink once with one value per statistic in registration order. The CSV log has one header and one well-formed line per report, with empty cells for missing values, and an experiment whose file cannot be created does not stop the program.",
 ["histories"],"all call sequences up to a depth over several statistics and sinks",
 "No test uses the statistics subsystem beyond construction.",
 ["src/util/StatAggregator.cpp","include/cn24/util/StatAggregator.h","src/util/CSVStatSink.cpp","include/cn24/util/ConsoleStatSink.h"],[("recording state machine","StatAggregator"),("CSV formatting","CSVStatSink")],["values received by sinks, CSV file"])
p("C27","Segmentation quality measures equal their definitions",
 "For every sequence of evaluated batches and resets, the confusion-matrix measures (overall and average recognition rate, intersection over union) and the binary measures (precision, recall, F1, accuracy, false positive and negative rates at the best threshold) equal their textbook definitions over the weighted pixels seen since the last reset. Pixels with zero weight do not count. Undefined ratios are left out rather than reported as numbers or crashing (a class that neither occurs nor is predicted counts as zero in the average intersection over union).",
 ["inputs","histories"],"all small prediction/label/weight assignments x class counts x batch and reset sequences",
 "No test evaluates a measure.",
 ["src/net/ConfusionMatrixLayer.cpp","src/net/BinaryStatLayer.cpp"],[("counting and ratio computation","FeedForward/UpdateAll/Reset")],["reported statistics"])
p("C28","Results do not depend on how parallel loops are scheduled",
 "In builds with multi-threading enabled, every forward and backward pass, data-loading step and measure gives bit-identical results for every number of threads and every interleaving of the parallel loop iterations. No two iterations of a parallel loop conflict on memory, one of them writing. The multi-threaded build gives the same results as the sequential build.",
 ["schedules"],"all interleavings of the parallel loop iterations of every layer and data path at small shapes",
 "The tests are built without multi-threading, and a race only shows under particular schedules.",
 ["src/math/TensorMath.cpp","src/net","src/util/TensorStreamDataset.cpp"],[("independent loop iterations","loops marked parallel in src/")],["memory accesses per iteration, results per schedule"])
p("C29","Configuration lines yield exactly the values written in them",
 "A value setting in a configuration line is recognised exactly when its name stands as a name at the start of the line or as a parameter within it, and its value is returned unchanged for integers, decimals, sizes and strings wherever it stands among the others. Lines without the setting leave the default untouched. No line makes the parser crash or read another setting's value.",
 ["inputs"],"all short lines over an alphabet of setting names (including names that are prefixes or suffixes of each other), values and separators",
 NT+"confusions between settings need particular neighbouring names.",
 ["src/util/ConfigParsing.cpp","include/private/ConfigParsing.h"],[("substring search and conversion","Parse*IfPossible")],["parsed values"])
p("C30","Patch extraction cuts the patch and label belonging to each position",
 "Extracting patches from an image gives, for every position, the pixels of the window around it with mirrored borders, in a fixed scan order, with matching label and coordinates, the label being that of the pixel the patch stands for. Borders are mirrored at the first pixel on the left and top and behind the last pixel on the right and bottom, as often as needed. Subtracting the mean leaves patches with mean zero and changes nothing else. The tensor tool writes back exactly the tensor its commands define. Nothing outside the given tensors is accessed.",
 ["inputs","configurations"],"all image and patch sizes up to a bound x all positions",
 NT+"border mirroring needs particular sizes and positions.",
 ["src/util/Segmentation.cpp","tools/tensorTool.cpp"],[("window copy","Segmentation::ExtractPatches/ExtractLabels")],["patch tensors"])
p("C31","Layers refuse inputs and outputs that do not fit instead of corrupting memory",
 "For every layer and every combination of input count, input shapes and output shapes, connecting either is refused or leads to forward and backward passes that stay inside the tensors and produce the declared output shape. The output shape a layer declares for given inputs is always accepted when connecting. Connecting succeeds for every geometry the layer documents as valid.",
 ["inputs","configurations"],"all layers x all small combinations of input/output shapes, including empty and mismatched ones",
 "Tests only connect matching shapes.",
 ["src/net"],[("validation","CreateOutputs/Connect of each layer")],["return values, AddressSanitizer"])
p("C32","Interrupted or damaged tensor files never yield invented data",
 "For every point at which writing a tensor or compressed tensor file can have been cut off, opening the file presents exactly the tensors completely contained in it, or fails cleanly; it never presents a partly written tensor as a complete one, crashes or hangs. The tensors before the cut are unaffected. The same holds in copying and memory-mapping readers.",
 ["crash_points","fault_sequences"],"every prefix length of every small tensor file in every format and reading mode",
 NT+"the cut point decides the outcome, and tests would have to try every byte.",
 ["src/util/Tensor.cpp","src/util/FloatTensorStream.cpp","src/util/CompressedTensor.cpp","src/util/CompressedTensorStream.cpp"],[("end-of-file handling","LoadFiles, Deserialize")],["tensor count and contents"])
p("C33","GPU kernels compute the same as the CPU code",
 "In builds with OpenCL, every GPU kernel, and every layer and matrix operation using them, produces the values of the corresponding CPU computation for all sizes, for every order in which the device executes the work items and commands. No kernel accesses memory outside its buffers, and no two work items of a kernel conflict on memory. Tensors keep their values however they are moved between the host and the device.",
 ["schedules","inputs"],"all sizes up to a bound x work-item orders",
 "The OpenCL tests need a device and are not part of the stable tests.",
 ["kernels","src/math/TensorMath.cpp","src/util/Tensor.cpp","src/net/NonLinearityLayer.cpp","src/net/MaxPoolingLayer.cpp","src/net/AdvancedMaxPoolingLayer.cpp","src/net/ConvolutionLayer.cpp"],[("kernels","kernels/*.cl"),("moves between host and device","Tensor::MoveToGPU/MoveToCPU"),("kernel calls","TensorMath, layers with BUILD_OPENCL")],["kernel output buffers"])
p("C34","The training program's command sessions do what each command says",
 "For every sequence of commands given to the training program (train, test, save, load, reset, set epoch, set experiment), the saved parameter file after the session is the one the commands define: save then load restores parameters, test does not change them, reset re-initialises them, and hybrid patchwise sessions test with the trained parameters. Tests report the loss and measures the current parameters have on the testing set. Unknown or incomplete commands change nothing; a session ends at quit or at the end of its commands. The classification program applied with a saved parameter file labels the image as the trained network does.",
 ["histories"],"all command scripts up to a length on tiny datasets and networks",
 "No test starts the programs.",
 ["tools/trainNetwork.cpp","tools/classifyImage.cpp"],[("command interpreter","parseCommand")],["saved parameter files, CSV logs, output image"])
p("C35","The gradient checker finds exactly the wrong gradients and changes nothing",
 "For every network, the numerical gradient check tests every (n+1)-th parameter of every set of every layer that allows it, n being the number of parameters to skip, and reports a gradient as okay, tolerable or failed if the layer's gradient is within 2 %, within 20 % or further away from the true derivative of the sum of all losses. It fails with an error exactly if that was asked for and at least one tested gradient failed. The check of a single layer passes exactly if all, or more than 85 %, of its gradients are within 20 %. During the check only one parameter at a time differs from its value; afterwards all parameters are bit for bit what they were.",
 ["inputs","configurations"],"all small networks of layers with gradients wrong by known factors, in all wirings, with all skip counts",
 "The existing tests use the checker on right gradients only; a checker that accepts wrong gradients passes them all.",
 ["src/util/GradientTester.cpp","include/cn24/util/GradientTester.h","tools/trainNetwork.cpp"],[("central differences over all parameters","GradientTester::TestGradient"),("check of one layer","GradientTester::DoGradientTest")],["parameters seen by every forward pass, verdict, printed summary"])
p("C36","Printed graphs and statistics show the network and the data as they are",
 "For every initialised network, the printed graph lists each node exactly once under a name of its own with its layer's description and the name and shape of each output, marks inputs and outputs, and has one edge per connection from the output it takes, dotted exactly if the connection carries no gradients. The statistics of a tensor are the minimum, maximum, average, norm and variance of its elements. The training program's commands graph, wstat and dstat report these for the network or node they name, and change nothing. The dataset statistics program reports, for every class, the pixels it has over all training images (without and with the class weights), its share, and the factor that would equalise the shares, over classes that occur; class weights are positive. The benchmark program evaluates as many frames per pass as the configuration asks for in parallel, and the throughput it reports is the frames its passes evaluate per second.",
 ["inputs","configurations"],"all small graphs, tensors, datasets with class tables and weights, numbers of parallel inputs",
 NT+"what is printed depends on the whole network or dataset.",
 ["src/net/NetGraph.cpp","src/util/Tensor.cpp","tools/trainNetwork.cpp","tools/tensorStreamStats.cpp","tools/runBenchmark.cpp"],[("benchmark","tools/runBenchmark.cpp main"),("graph output","NetGraph::PrintGraph"),("tensor statistics","Tensor::PrintStats"),("reporting commands","parseCommand"),("class statistics","tools/tensorStreamStats.cpp main")],["printed text and files"])
p("C37","Changed bytes in a tensor file cannot make a reader leave the file or the tensor",
 "Whatever bytes of a plain or compressed tensor file are changed, every reader (tensor stream, direct reading by copying, memory mapping or headers only, decompression, sample copies) either refuses the tensor or presents one whose number of elements is the product of its dimensions and whose data lies inside the file; it never reads or writes outside its buffers, loops or fails with an unexpected exception. A decompression yields exactly the declared elements or is refused, and a refusal leaves the stream usable. Tensors before the change are read as written, and a change of values changes exactly those values.",
 ["fault_sequences","inputs"],"every single changed byte (all or the most adversarial values), pairs of changed header bytes, and every short compressed text over the encoder's alphabet",
 NT+"sizes read from a file can overflow, and only the particular byte values that do so show it.",
 ["src/util/Tensor.cpp","src/util/CompressedTensor.cpp","src/util/CompressedTensorStream.cpp","src/util/FloatTensorStream.cpp"],[("completeness of a tensor","Tensor::Deserialize, CompressedTensor::Deserialize"),("decoder limits","DecompressData"),("direct decompression","CompressedTensorStream::CopySample")],["tensors read"])
p("C38","Networks start from weights in the range their wiring defines",
 "For every network and every order in which its layers were added, initialising the weights gives every weight of a convolution a value between plus and minus the square root of 6 / (its own gain + the gains of the layers that read its output and return gradients to it, one for each connection), and every bias zero. The gain of a convolution is its kernel area times its number of input maps; pooling and down-sampling layers have the gain of their readers divided by the region's area (rounded down), all others that of their readers; losses have none. On first initialisation the weights are those the layer would get alone, scaled to that range; initialising again draws new weights in the same range, not all equal.",
 ["configurations"],"all small networks of real layers in every wiring and insertion order",
 NT+"the range depends on all layers behind it, through layers without weights, and on the order in which the graph visits them.",
 ["src/net/NetGraph.cpp","src/net/ConvolutionLayer.cpp","include/cn24/net/Layer.h","include/cn24/net/MaxPoolingLayer.h"],[("order of initialisation","NetGraph::InitializeWeights"),("range and biases","ConvolutionLayer::OnLayerConnect"),("gain through other layers","Layer::Gain")],["parameters, gains"])
p("C39","Start-up uses the configured OpenCL device, and OpenCL failures never become results",
 "In builds with OpenCL, start-up uses the platform and device the configuration file beside the program or one folder above it names (the last setting wins, the first ones without settings), and builds on it every kernel from the file beside the program or one folder above it. A missing platform, device or kernel file, or a failing OpenCL call later ones need, ends start-up with an error, build logs being printed completely, and a later start works. When any single OpenCL call of a computation, tensor move or layer fails, it is reported as an error or the results are right. Log messages appear exactly at the levels asked for, and fatal ones always end the operation.",
 ["configurations","fault_sequences"],"all machines of few platforms and devices x configuration files; every single failing OpenCL call of every operation",
 "The tests are built without OpenCL, and no test makes a device call fail.",
 ["src/util/Init.cpp","include/cn24/util/Log.h","src/util/Tensor.cpp","src/math/TensorMath.cpp","src/net"],[("platform, device and kernel selection","System::Init, GetExecutablePath"),("error checks of device calls","callers of the OpenCL API")],["devices and sources used, exceptions, results"])
p("C40","Files that cannot be opened, read or written are reported, not passed over",
 "When a file a program of the repository needs cannot be opened, read, mapped, written or closed at any single point or from some point on (because it is missing, a folder has its name, or the disk becomes full at any byte), the program neither crashes nor runs forever, and it ends with an exception or an error status or prints an error message, unless everything it wrote is what it writes undisturbed. Reads and writes that only transfer a part of what they were asked to are not failures: the outputs stay the same.",
 ["fault_sequences","crash_points"],"every file operation failing once or from then on, every limit of bytes per file, every input missing or a folder, for 15 runs of 8 programs",
 "The tests read and write files that exist, on disks with space left.",
 ["tools","src/util","src/io","src/net/NetGraph.cpp","src/factory/ConfigurableFactory.cpp"],[("programs","tools/*.cpp"),("streams, images, configuration and parameter files","Tensor, CompressedTensor, TensorStream, PNGUtil, JPGUtil, Dataset, ConfigurableFactory, NetGraph, CSVStatSink")],["exit status","messages","files written"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), max(len(x['title']) for x in P))
