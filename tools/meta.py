#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
G = "src/acetone_nnet/generator/"
PY = "/opt/venv/bin/python"


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=("output file of the generated program",)):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=list(observe))


PROPS = [
    P("P01", "Generated C code computes the function of the ONNX model",
      "For every ONNX model made of documented operators (static shapes, batch size one, tensors of rank two to four), "
      "the C program generated with default options prints, for every input sample, the outputs defined by the ONNX "
      "specification, up to floating-point rounding.",
      ["inputs", "programs"],
      "All models over the supported operators, their attributes, shapes and constants; all input samples.",
      "The tests check about one fixed configuration per layer; attributes, shapes, ranks, padding sides, strides and "
      "broadcasts multiply, and many were wrong in the configurations no test samples.",
      ["src/acetone_nnet/importers/ONNX_importer/create_layer.py", G + "layers", "src/acetone_nnet/templates",
       G + "neural_network.py"],
      [("one layer and one template per operator", G + "layers, src/acetone_nnet/templates/layers"),
       ("ONNX import", "src/acetone_nnet/importers/ONNX_importer/create_layer.py")],
      "property-based testing: generated ONNX models, differential oracle (ONNX Runtime, arbitrated by onnx.reference)",
      "Search over drawn models and samples; trusts ONNX Runtime and gcc. The tolerance follows the conditioning of "
      "each model, so only rounding-size errors escape."),
    P("P02", "Python reference inference computes the function of the ONNX model",
      "For every ONNX model made of documented operators, the reference inference in Python writes, for every sample "
      "of the test data set, the outputs defined by the ONNX specification, up to floating-point rounding.",
      ["inputs", "programs"],
      "All models over the supported operators, their attributes, shapes and constants; all input samples.",
      "The reference inference is what users validate the C code against; tests sample one configuration per layer.",
      ["src/acetone_nnet/importers/ONNX_importer/create_layer.py", G + "layers", G + "neural_network.py"],
      [("reference inference of each layer", G + "layers/**: forward_path_layer"),
       ("propagation along the graph", G + "neural_network.py: compute_inference")],
      "property-based testing: generated ONNX models, differential oracle (ONNX Runtime, arbitrated by onnx.reference)",
      "Search over drawn models and samples; trusts ONNX Runtime.",
      ("output_python.txt",)),
    P("P03", "Every convolution algorithm computes the same convolution",
      "Whatever convolution algorithm the user selects for the whole network or for a given layer (six loops, and the "
      "four transposition variants of both the standard and the indirect matrix-product algorithms), the outputs of "
      "the generated program are those of the model up to rounding, for all kernel sizes, strides, dilations, "
      "paddings, channel counts, activations and precisions.",
      ["inputs", "programs", "configurations"],
      "All convolution configurations, all nine channels-first algorithms, and mixes of them in one network.",
      "Tests run each algorithm on a few square kernels with stride one; strides, dilation, asymmetric padding and "
      "mixes of algorithms in one network are not sampled.",
      [G + "layers/convolution", "src/acetone_nnet/templates/layers/Conv", "src/acetone_nnet/templates/layers/Gemm"],
      [("algorithm variants", G + "layers/convolution/Conv2D*.py"),
       ("patch extraction and matrix products", "src/acetone_nnet/templates/layers/Conv"),
       ("selection per layer or type", G + "neural_network.py: select_layers_implementation")],
      "property-based testing: generated convolutions x algorithms, differential oracle (ONNX Runtime)",
      "Search over drawn convolutions; grouped convolutions only with the six-loops algorithm (others reject them)."),
    P("P04", "Optimization pass preserves the outputs",
      "Generating code with the optimization pass enabled never changes the outputs of the network beyond rounding: "
      "fusing a batch normalization or an activation into its predecessor, or x*sigmoid(x) into one layer, is done "
      "only where it preserves the function of the whole graph, including for the other readers of the tensors "
      "involved, in the C code as in the reference inference.",
      ["inputs", "programs"],
      "All graphs containing the rewritten motifs, near misses of them, and other operators around them.",
      "Tests apply each rewrite to one hand-written graph; a fusion is unsound only in specific surroundings.",
      ["src/acetone_nnet/pattern_matching", G + "neural_network.py", "src/acetone_nnet/graph/graph_interpretor.py"],
      [("rewrite rules", "src/acetone_nnet/pattern_matching/patterns"),
       ("matching and rewiring", "src/acetone_nnet/pattern_matching/PatternMatcher.py")],
      "property-based testing: generated motif-rich graphs, differential oracle (ONNX Runtime) on optimized output",
      "Search; counts only cases in which the pass logged a rewrite as non-trivial."),
    P("P05", "Branching graphs: every reader gets the value of its producer",
      "In any directed acyclic graph of operators, every operator reads the values which the producers of its inputs "
      "computed, in the C code as in the reference inference: whatever the number of readers of a tensor and their "
      "distance, inputs repeated in one operator, constants shared between operators, and whatever the (topological) "
      "order of the nodes in the file and the names of tensors and nodes.",
      ["programs", "inputs"],
      "All graph shapes with shared tensors and joins, all topological orders and names.",
      "Buffer reuse goes wrong only for specific lifetimes; the tests have a handful of small branching graphs.",
      ["src/acetone_nnet/graph/graph_interpretor.py", "src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py",
       "src/acetone_nnet/ir/layer.py", "src/acetone_nnet/templates/template_source_file.c.tpl"],
      [("topological sort, buffer allocation from liveness", "src/acetone_nnet/graph/graph_interpretor.py"),
       ("copy of outputs with several readers", "src/acetone_nnet/templates/template_source_file.c.tpl")],
      "property-based testing: generated DAGs with shuffled orders and names, differential oracle (ONNX Runtime)",
      "Search over drawn graphs of up to 24 operators, and a few of more than a hundred."),
    P("P06", "Generated code is memory safe and free of undefined behaviour",
      "The generated program never reads or writes outside the arrays it declares, never uses an uninitialized value "
      "and never executes undefined behaviour, for every supported model, algorithm, precision and sample.",
      ["inputs", "programs", "configurations"],
      "All supported models, convolution algorithms, precisions, optimization on or off, all samples.",
      "No test runs the generated code under a memory checker; an overflow inside the context structure is silent.",
      [G + "layers", "src/acetone_nnet/templates", G + "neural_network.py"],
      [("sizes of the buffers of a context", G + "neural_network.py: generate_function_header_file"),
       ("index computations", "src/acetone_nnet/templates/layers")],
      "fuzzing generated models under ASan+UBSan (poisoned padding between buffers) and MSan",
      "Dynamic checkers on drawn models: only executed paths are judged.",
      ("exit code and reports of the instrumented program",)),
    P("P07", "Inference is a pure, reentrant function of the sample",
      "The output for a sample depends on that sample only: not on the other samples, their number and order, nor on "
      "what the working memory held before, nor on inferences running concurrently on other contexts. The inference "
      "leaves its input unmodified and allocates no memory dynamically; the generated program processes every sample "
      "of the data set, whatever their number. The reference inference too depends on the samples only, not on its "
      "previous runs.",
      ["histories", "schedules", "inputs"],
      "All histories of inferences over the contexts, all data set sizes, all interleavings of distinct contexts.",
      "Tests run each network once on a few samples with a zeroed context.",
      ["src/acetone_nnet/templates/template_main_file.c.tpl", "src/acetone_nnet/templates/template_source_file.c.tpl",
       "src/acetone_nnet/templates/template_global_var_file.c.tpl", "src/acetone_nnet/templates/layers"],
      [("context structure passed to the inference", "src/acetone_nnet/templates/template_header_file.c.tpl"),
       ("blocks of samples", "src/acetone_nnet/templates/template_main_file.c.tpl")],
      "stateful property-based testing: drawn histories of calls, contexts and threads, compared bit for bit",
      "Search over histories and native thread schedules (ThreadSanitizer on a part of them)."),
    P("P08", "Parameters and samples reach the generated program exactly",
      "The generated program and the reference inference work on exactly the parameters of the model and the samples "
      "given by the user, converted to the type of the network: bit for bit the same outputs whether the parameters "
      "are written in hexadecimal source, decimal source (to the digits printed) or a binary file, and whether the "
      "samples come from an array of any numeric type, shape or memory layout, a text file of any number of samples, "
      "random generation, or the external input file read by the generated program.",
      ["inputs", "configurations"],
      "All finite parameter and sample values, all ways to give samples, all ways to emit parameters, all algorithms.",
      "Tests use benign values and one way of giving samples; the binary and external paths of most shapes never ran.",
      [G + "neural_network.py", "src/acetone_nnet/templates/template_global_var_file.c.tpl",
       "src/acetone_nnet/templates/template_main_file.c.tpl", "src/acetone_nnet/templates/template_test_dataset_source.c.tpl"],
      [("writing of parameters", G + "neural_network.py: data2c, flatten_array, generate_binary"),
       ("samples", G + "neural_network.py: ready_dataset, compute_inference"),
       ("external input", "src/acetone_nnet/templates/template_main_file.c.tpl")],
      "property-based testing: metamorphic relation between ways of giving and emitting, and exact echo networks",
      "Search; decimal output is compared once read in the type of the network; NaN and infinite parameters are excluded.",
      ("output file of the generated program", "output_python.txt")),
    P("P09", "NNET networks are computed as their file defines",
      "For every network in the NNET format, the C program and the reference inference output, for every sample, the "
      "values which the file defines: dense layers with ReLU on all but the last, and, when normalization is asked "
      "for, inputs clamped to their bounds and normalized, outputs denormalized, up to rounding.",
      ["inputs", "programs"],
      "All NNET files (layer counts, sizes, headers, constants) and samples inside or outside of the bounds.",
      "Tests load one trained file whose inputs are never out of bounds.",
      ["src/acetone_nnet/importers/NNET_importer", G + "neural_network.py",
       "src/acetone_nnet/templates/normalization"],
      [("NNET import", "src/acetone_nnet/importers/NNET_importer"),
       ("normalization", "src/acetone_nnet/importers/NNET_importer/nnet_normalize.py, src/acetone_nnet/templates/normalization")],
      "property-based testing: generated NNET files, reference model with a rigorous rounding bound",
      "Search over files of one to four layers."),
    P("P10", "JSON networks are computed as their file describes",
      "For every sequential or branching network in the JSON description of ACETONE made of Dense, Conv2D, pooling, "
      "ZeroPadding2D, BatchNormalization, Flatten, Reshape, Dropout, merging (Add, Subtract, Multiply, Maximum, "
      "Minimum, Average) and Concatenate layers with their activations, in channels-last or channels-first format, "
      "in single or double precision, the C program and the reference inference output, for every sample, the values "
      "of the Keras semantics of these layers, in the format of the file, up to rounding.",
      ["inputs", "programs"],
      "All such networks: graphs, shapes, attributes, parameters, formats, precisions, algorithms; all samples.",
      "Tests load two sequential files; branches, skipped layers, axes and layouts were wrong in most other networks.",
      ["src/acetone_nnet/importers/JSON_importer/parser_JSON.py", G + "layers", "src/acetone_nnet/templates",
       G + "neural_network.py"],
      [("JSON import", "src/acetone_nnet/importers/JSON_importer/parser_JSON.py: load_json"),
       ("channels-last input, output and Flatten", G + "neural_network.py, src/acetone_nnet/templates/memory_layout")],
      "property-based testing: generated JSON networks, reference model of the Keras semantics",
      "Search; the reference model (pbt/kjson.py) is ours, Keras itself is not installed.",
      ("output file of the generated program", "output_python.txt")),
    P("P18", "Debug mode records the intermediate tensors of the model",
      "In ONNX debug mode, the debug file written by the generated program, the tensors returned by the reference "
      "inference and those returned by debug_onnx (for all the layers, or for the selected targets) are, in the same "
      "number and order, the intermediate tensors the model defines for this sample, whatever the graph and the order "
      "of its nodes; compare_result accepts them and notices a tensor which differs. In time mode the program computes "
      "the same outputs, and prints for every sample one time per layer, whose sum is the total it prints.",
      ["inputs", "programs"],
      "All models over the supported operators, single sample, both precisions.",
      "The only test of the debug mode runs the reference inference on one sequential model; the C side was not even "
      "compiled.",
      ["src/acetone_nnet/debug", "src/acetone_nnet/templates/template_source_file.c.tpl", G + "neural_network.py"],
      [("debug file", "src/acetone_nnet/templates/template_source_file.c.tpl"),
       ("extraction and ordering of tensors", "src/acetone_nnet/debug/debug_tools.py, debug_onnx.py")],
      "property-based testing: generated graphs, differential oracle (ONNX Runtime) on every intermediate tensor",
      "Search over drawn graphs; the keras debug mode is not reachable here, and the counter of the time mode is a stand-in.",
      ("debug_file.txt", "values returned by compute_inference and debug_onnx")),
    P("P19", "Channels-last code computes the function of the model",
      "Generated with gen_data_format channels_last and the channels-last implementations (direct_block convolutions, "
      "channels_last poolings), a convolutional network of convolutions (dense or depthwise, same stride and origin "
      "padding on both axes, no dilation), poolings, activations and dropouts outputs, in the layout of the model, the "
      "values the model defines, up to rounding, in C as in Python.",
      ["inputs", "programs"],
      "All such networks, kernel sizes, strides, paddings, channel counts, precisions, samples.",
      "Tests cover few shapes of one convolution; blocks, borders and layouts go wrong for specific sizes.",
      [G + "layers/convolution/Conv2Ddirect_block.py", G + "layers/pooling", "src/acetone_nnet/templates/layers/Conv",
       "src/acetone_nnet/templates/memory_layout", G + "neural_network.py"],
      [("direct convolution by blocks", "src/acetone_nnet/templates/layers/Conv/template_Conv_direct_block.c.tpl"),
       ("layout of inputs and outputs", "src/acetone_nnet/templates/memory_layout")],
      "property-based testing: generated convolutional networks, differential oracle (ONNX Runtime)",
      "Search; other operators have no channels-last implementation."),
    P("P20", "Double precision models are computed in double precision",
      "A model whose tensors are in double precision is imported, generated, run and printed in double precision: "
      "neither the C code nor the reference inference rounds parameters, inputs or intermediate results to single "
      "precision.",
      ["inputs", "programs"],
      "All double precision models over the supported operators, all samples.",
      "Tests only compare with tolerances of single precision; a single-precision temporary is invisible to them.",
      [G + "neural_network.py", "src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py", G + "activation_functions.py",
       "src/acetone_nnet/templates"],
      [("choice of the C and numpy types", "src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py: find_data_type"),
       ("typed templates", "src/acetone_nnet/templates")],
      "property-based testing: generated double precision models, differential oracle at 1e-11",
      "Search; trusts the double kernels of ONNX Runtime and onnx.reference, cross-checked in single precision."),
    P("P11", "A PyTorch program is refused, or computed as PyTorch defines it",
      "For every program exported by torch.export, the import fails with an error, or the C program and the reference "
      "inference compute the outputs of PyTorch (samples and image outputs of channels-last programs being in channels-last "
      "order); programs of convolutions (square strides and dilations), batch normalizations, linear layers, ReLU and clamp "
      "after a layer, sums, concatenations of channels, max pooling, global average pooling, dropout and flatten, in "
      "evaluation mode and single precision, are accepted.",
      ["inputs", "programs"],
      "All exported programs, in channels-first or channels-last memory format, inside or outside of what is supported.",
      "Tests import three networks and one convolution: sharing of tensors, default arguments, rectangular shapes and "
      "unsupported functions are not sampled.",
      ["src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py", G + "neural_network.py"],
      [("reading of the functions", "src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py: visit_call_function"),
       ("layout of the data", G + "neural_network.py")],
      "property-based testing: generated PyTorch modules, exported, differential oracle (PyTorch in double precision)",
      "Search over more than fifty functions and modules; reading an error as a refusal outside of the accepted programs."),
    P("P13", "Quantized networks compute their fixed-point definition",
      "With a target configuration giving fixed-point formats (Qn.m), for networks of products by constant matrices, "
      "additions of constants and of tensors, and ReLU, the generated C program and the reference inference both write "
      "exactly the integers of the fixed-point definition: parameters rounded to the nearest multiple of 2^-m (ties to the even one), products "
      "summed in the temporary type, the sum shifted right (arithmetically) by the fraction bits of the input plus those "
      "of the parameters minus those of the output, then the activation; as long as no value leaves its type. This does "
      "not depend on how the samples (array, text file, external file) and the parameters (text, binary) are given, nor "
      "on the optimizations. The compiler and the flags of the target configuration are those of the Makefile.",
      ["inputs", "programs"],
      "All such networks, formats, integer types (8, 16, 32, 64 bits) and samples for which no value leaves its type.",
      "Tests quantize one network with one set of 16-bit formats; roundings, shifts and widths only matter for values "
      "and formats they do not use.",
      ["src/acetone_nnet/quantize/activation.py", "src/acetone_nnet/quantize/qform.py", G + "neural_network.py",
       G + "layers/matmul/MatMulDefault.py"],
      [("quantization of the parameters", G + "neural_network.py: quantize_layers"),
       ("shift of the sums", "src/acetone_nnet/quantize/activation.py"), ("formats", "src/acetone_nnet/quantize/qform.py")],
      "property-based testing: generated quantized networks, oracle: exact evaluation of the formats with integers",
      "Search; cases where a value leaves its type are rejected, as the behaviour is then not specified."),
    P("P14", "acetone_compare reports the worst difference of the compared inferences",
      "For any two output files of the same network, the absolute and relative errors printed by acetone_compare, and "
      "returned by compare_files, are the largest ones over the requested inferences, computed in the precision of the "
      "network; identical values (infinities included) differ by nothing, NaN and missing values are never reported as "
      "an agreement, and the lines after the requested inferences do not matter.",
      ["inputs"],
      "All pairs of files written by the C program or by the reference inference, in both precisions.",
      "Tests only compare files which agree: whether a disagreement is reported depends on where and how they differ.",
      ["src/acetone_nnet/cli/compare.py"],
      [("comparison of the outputs", "src/acetone_nnet/cli/compare.py: compare_result, compare_files")],
      "property-based testing: generated pairs of files, reference model in exact rational arithmetic",
      "Search; relative errors of denormal or overflowing quotients are not judged.",
      ("lines printed by acetone_compare", "value returned by compare_files")),
    P("P15", "The generated directory is complete, builds as asked, and is never overwritten",
      "generate_c_files writes every file of the documented layout (sources, headers, Makefile, datasets, binary "
      "parameters), under the asked names, and nothing else; the Makefile runs exactly the compiler and flags asked "
      "for on the generated sources, all of them, and builds the program and the library, which run as described; an "
      "existing file is never overwritten: the generation stops before changing any of them.",
      ["inputs", "programs"],
      "All networks, program names, directories, targets, compilers and flags, number formats of the output.",
      "Tests check that a few files exist; a wrong name, flag or overwritten file shows for specific options only.",
      [G + "neural_network.py", "src/acetone_nnet/templates/template_makefile.tpl", "src/acetone_nnet/templates/template_main_file.c.tpl"],
      [("files written", G + "neural_network.py: generate_c_files"), ("Makefile", "src/acetone_nnet/templates/template_makefile.tpl")],
      "property-based testing: generated options, reference model of the layout and of the commands of make (recording "
      "compiler)",
      "Search; one version of make and of gcc."),
    P("P16", "Each layer is generated by the implementation selected for it",
      "With versions given by layer index, by layer name, by both or by none, every layer is generated by the "
      "implementation selected for it (the index having priority over the name, the default otherwise), including the "
      "ones the user registers, whatever optimizations rewrite the network; unknown implementations are refused, and so are "
      "second registrations of a name; the selection changes neither the code of the other layers nor the outputs.",
      ["inputs", "programs"],
      "All networks over the supported operators, all selections among existing and user-defined implementations.",
      "Tests select convolution algorithms by name on a few networks; selections by index mix with rewritten graphs.",
      [G + "neural_network.py", "src/acetone_nnet/versioning"],
      [("selection", "src/acetone_nnet/versioning/layer_factories.py, versioning.py"),
       ("application to the layers", G + "neural_network.py: select_layers_implementation")],
      "property-based testing: generated networks and selections, instrumented implementations registered by the check, "
      "differential oracle (ONNX Runtime)",
      "Search; selections by index refer to the indices of the imported network."),
    P("P17", "An ONNX model is refused, or computed as ONNX defines it",
      "For every valid ONNX model with one floating-point input and output, whatever its operators, opset, attributes, "
      "optional inputs and shapes, the import fails with an error, or the Python inference and the C program both compute "
      "what the ONNX standard defines; no node, attribute or input is silently ignored or misread. Chains of the "
      "supported operators, in their ordinary form at any opset from 7 to 21 (square pooling windows and strides, 4D tensors "
      "of batch 1), are accepted.",
      ["inputs", "programs"],
      "All valid models, inside or outside of what is supported.",
      "Tests import a few models per operator, written with the opset and attributes the importer expects; they cannot "
      "show that all the others are refused.",
      ["src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py", "src/acetone_nnet/importers/ONNX_importer/create_layer.py",
       G + "neural_network.py"],
      [("reading of the nodes", "src/acetone_nnet/importers/ONNX_importer/create_layer.py"),
       ("graph and its order", "src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py")],
      "property-based testing: models drawn from the ONNX standard (attributes at and beyond the supported ones, opsets 7 "
      "to 21), differential oracle (ONNX Runtime or the ONNX reference implementation)",
      "Search over 23 families of operators and generated graphs; reading an error as a refusal, its message is not judged."),
    P("P22", "The acetone_generate command generates what the API generates",
      "Whatever the options, their order and their spelling, the acetone_generate command and the function cli_acetone write, byte for byte, the "
      "files which CodeGenerator writes when called with the values these options describe.",
      ["inputs", "programs"],
      "All command lines over the documented options, for models of every format.",
      "Tests do not run the command; an option which is lost or misread only shows in what it should have changed.",
      ["src/acetone_nnet/cli/generate.py", G + "neural_network.py"],
      [("options", "src/acetone_nnet/cli/generate.py: parse_args, generate")],
      "property-based testing: generated command lines, differential oracle (the Python API)",
      "Search; the options are those of the parser, with the defaults of the documentation."),
    P("P23", "The shared library runs batches, saves and replaces the weights",
      "The library built by make computes, with batch_loop, for every sample of a batch of any size, called any number "
      "of times, the outputs of the generated program; save_weights writes the parameters of the network, in its "
      "precision, in the order of copy_weights; after copy_weights, batch_loop computes the outputs of the network with "
      "these parameters.",
      ["inputs", "programs", "histories"],
      "All networks, batch sizes, sequences of calls; flags of the compiler, with or without OpenMP.",
      "The one test of the library uses a fixed fully-connected network with small batches.",
      ["src/acetone_nnet/templates/template_train_hook_file.c.tpl", G + "neural_network.py", "src/acetone_nnet/templates/template_makefile.tpl"],
      [("batch_loop, save_weights, copy_weights", "src/acetone_nnet/templates/template_train_hook_file.c.tpl"),
       ("order of the parameters", G + "neural_network.py: generate_function_source_file")],
      "property-based testing: generated networks and sequences of calls, differential oracle (the generated program, "
      "the program generated with the other weights)",
      "Search; copy_weights on parameters compiled from text is a known finding.",
      ("return values and outputs of the functions of the library", "file written by save_weights")),
    P("P24", "Generation is deterministic and leaves its arguments untouched",
      "The files written depend only on the arguments: the same generator called twice, another generator with the "
      "same arguments, the same model given by path or in memory, another process, another hash seed, or "
      "generators alive together, write the same bytes; the models, arrays, lists and dictionaries given by the caller are left as they were.",
      ["inputs", "histories"],
      "All models of every format and all options of CodeGenerator.",
      "Tests never generate twice: state kept between calls, sets and dictionaries iterated in hash order, or a "
      "modified argument go unnoticed.",
      [G + "neural_network.py", "src/acetone_nnet/importers", "src/acetone_nnet/versioning"],
      [("generation", G + "neural_network.py"), ("import of the given models", "src/acetone_nnet/importers/parser.py")],
      "property-based testing: metamorphic relations between generations (repetition, hash seeds, representation of "
      "the arguments)",
      "Search; absolute paths, which the files contain nowhere, are kept constant."),
    P("P25", "The program contains the parameters of the network, on the chosen pages",
      "Whatever the page size, the notation of the parameters (hexadecimal, decimal, binary file) and the algorithm of "
      "the convolutions, the program and the library built by make contain, under the name of each layer, exactly the "
      "parameters used by the reference inference, with their size, in the precision of the network; each array starts "
      "at a multiple of target_page_size, and no two arrays overlap.",
      ["inputs", "programs"],
      "All networks, page sizes (powers of two), notations, precisions and algorithms.",
      "Tests run the program with the default page size; a misplaced array shows only in the memory layout, a rounded "
      "parameter only below their tolerances.",
      [G + "neural_network.py", "src/acetone_nnet/templates/template_parameter_file.c.tpl", "src/acetone_nnet/templates/template_makefile.py"],
      [("parameters as text", G + "neural_network.py: generate_parameter_file"),
       ("parameters as a binary file, and its symbols", G + "neural_network.py: generate_bin_parameter_file")],
      "property-based testing: generated networks and options, the built program read back and compared with the "
      "parameters of the network",
      "Search; trusts readelf and the linker.", ("symbols and sections of the built program and library",)),
    P("P26", "The memory of a context is bounded by the tensors still to be read",
      "The context of a generated program holds no more buffers than the largest number of tensors alive together (a "
      "tensor stays alive until its last reader starts), no more buffers of shared tensors than shared tensors alive "
      "together, and no buffer larger than the largest tensor, or matrix of patches, of the network.",
      ["inputs", "programs"],
      "All networks, orders of their operators, implementations of the convolution, with or without optimization.",
      "Tests look at outputs: a buffer which is never reused changes none of them, but the memory of an embedded "
      "program is dimensioned by it.",
      ["src/acetone_nnet/graph/graph_interpretor.py", G + "neural_network.py", "src/acetone_nnet/templates/template_header_file.c.tpl"],
      [("allocation of the buffers", "src/acetone_nnet/graph/graph_interpretor.py: assign_liveliness_index, assign_cst"),
       ("sizes of the buffers", G + "neural_network.py: generate_function_header_file")],
      "property-based testing: generated graphs, the buffers of the compiled context against the liveness of the tensors "
      "computed from the edges",
      "Search; the order of execution is the one ACETONE chose.", ("inference_t in the generated header",)),
]

NOT_APPLICABLE = []


def main():
    lines, checks = [], []
    for p in PROPS:
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}))
        if p["technique"]:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"{PY} run.py {p['id']} --tier quick",
                "thorough_cmd": f"{PY} run.py {p['id']} --tier thorough",
                "evidence_file": f"evidence/{p['id']}.json",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": f"{PY} tools/selftest.py",
        "checks": checks,
        "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
        "notes": "Checks import the library from /repo/src (no build step) and compile the C code it generates with "
                 "gcc/clang. run.py P01 --replay FILE replays a reported case. No hook is needed in /repo.",
    }, indent=1) + "\n")


if __name__ == "__main__":
    main()
