"""Writes properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["outputs of the converted model under onnxruntime, next to the outputs of the original under TensorFlow"],
                          "hook_needed": None}})
OPS = "tf2onnx/onnx_opset/"
p("C01", "Element-wise, comparison, cast and reduction operators keep their results",
  "A converted model that uses arithmetic, comparison, logical, bitwise, rounding, casting, selection, activation, cumulative, arg-min/max or reduction operators returns the values, shapes and types that TensorFlow returns for the same inputs. This holds for every data type, rank, broadcast, axis choice (negative, repeated-absent, keepdims) and operator attribute the converter accepts.",
  ["programs", "inputs", "configurations"], "for every such operator, attribute setting, data type, shape (including size-0 and size-1 dimensions and broadcasts) and input value, at every target opset from 14 to 18",
  "The backend tests fix one or two shapes, one dtype and a handful of values per operator; sign, integer, negative-axis, broadcast and boundary-value combinations are sampled only where a bug was once reported.",
  [OPS + "math.py", OPS + "logical.py", OPS + "reduction.py", OPS + "common.py", OPS + "controlflow.py", OPS + "tensor.py"],
  [("per-operator conversion handlers", "tf2onnx/onnx_opset/math.py"), ("reduction handlers", "tf2onnx/onnx_opset/reduction.py"), ("comparison handlers", "tf2onnx/onnx_opset/logical.py"), ("select and where", "tf2onnx/onnx_opset/controlflow.py")])
p("C02", "Indexing, slicing and layout operators keep their results",
  "A converted model that reshapes, transposes, slices, strides, gathers, scatters, concatenates, splits, stacks, pads, tiles, rolls, reverses, broadcasts, one-hot-encodes, sorts or selects top elements returns the values, shapes and types TensorFlow returns. This holds whether the index, shape, axis and size arguments are constants or computed at run time, for every mask and attribute combination the converter accepts.",
  ["programs", "inputs", "configurations"], "for every such operator, every valid argument combination (begin/end/stride masks, negative axes and indices, batch dims, duplicate indices, empty results), element type and shape, with arguments given as constants or as model inputs",
  "Tests enumerate some tens of slicing and gathering forms with fixed arguments; the space of masks x strides x ranks x constant-or-dynamic arguments is only touched.",
  [OPS + "tensor.py", OPS + "generator.py", OPS + "nn.py", "tf2onnx/graph_builder.py"],
  [("structural operator handlers", "tf2onnx/onnx_opset/tensor.py"), ("pad handler", "tf2onnx/onnx_opset/nn.py"), ("slice/squeeze/reduce builder", "tf2onnx/graph_builder.py")])
p("C03", "Neural-network layer operators keep their results",
  "A converted model that uses convolutions (plain, grouped, depthwise, transposed, 1D to 3D), pooling, normalisation, bias, padding, space/batch/depth rearrangement, softmax or loss operators returns the values, shapes and types TensorFlow returns. This holds for every kernel size, stride, dilation, padding mode (same, valid, explicit), data layout and channel count the converter accepts.",
  ["programs", "inputs", "configurations"], "for every layer operator, attribute combination, spatial size (odd, even, smaller than the stride, equal to the kernel), layout and input values, with static or unknown spatial sizes",
  "Tests use a few image sizes and kernels; output sizes, SAME-padding asymmetry, dilation with stride and layout combinations depend on arithmetic over all of them together.",
  [OPS + "nn.py", OPS + "tensor.py", OPS + "quantize.py", OPS + "math.py"],
  [("conv/pool/pad attribute translation", "tf2onnx/onnx_opset/nn.py"), ("NHWC to NCHW conversion", "tf2onnx/onnx_opset/nn.py"), ("space/batch handlers", "tf2onnx/onnx_opset/tensor.py")])
p("C04", "Image and detection operators keep their results",
  "A converted model that resizes, crops, extracts patches, adjusts colour or contrast, or suppresses overlapping boxes returns the values, shapes and types TensorFlow returns. This holds for up- and down-scaling by any factor, every alignment mode, any box coordinates, and every threshold and padding option the converter accepts.",
  ["programs", "inputs", "configurations"], "for every source and target size, coordinate mode, interpolation method, crop box, box set, score set and threshold in the accepted domain",
  "Image tests use a handful of integral scale factors and hand-picked boxes; coordinate mapping goes wrong for particular size ratios only.",
  [OPS + "nn.py", OPS + "tensor.py"],
  [("resize / crop / patch / colour handlers", "tf2onnx/onnx_opset/nn.py"), ("non-max-suppression handlers", "tf2onnx/onnx_opset/tensor.py")])
p("C05", "Matrix, einsum, diagonal and Fourier operators keep their results",
  "A converted model that multiplies matrices (batched, transposed), evaluates einsum equations, builds, reads or overwrites diagonals and bands, takes determinants, or computes discrete Fourier transforms returns what TensorFlow returns. This holds for every equation, batch shape, diagonal range, alignment and transform length the converter accepts.",
  ["programs", "inputs", "configurations"], "for every einsum equation (repeated, summed, broadcast and permuted labels, with ellipsis where accepted), matrix shape, diagonal offset range, alignment mode and signal length",
  "The einsum and diagonal tests list fixed equations and offsets; the decomposition handles arbitrary label patterns, where a wrong permutation shows only when sizes differ.",
  [OPS + "math.py", OPS + "tensor.py", OPS + "signal.py", OPS + "nn.py", "tf2onnx/optimizer/einsum_optimizer.py"],
  [("einsum decomposition", "tf2onnx/optimizer/einsum_optimizer.py"), ("matrix diag family", "tf2onnx/onnx_opset/tensor.py"), ("DFT as matrix products", "tf2onnx/onnx_opset/signal.py")])
p("C06", "Ragged, sparse, segment and set operators keep their results",
  "A converted model that uses segment reductions, unique, bin counting, dynamic partition and stitch, sequence reversal, ragged tensors, sparse tensors, set operations or permutation inversion returns the values, order, shapes and types TensorFlow returns. This holds for every segment layout, row partition and index pattern, including empty rows, empty segments and duplicates.",
  ["programs", "inputs"], "for every row-split / segment-id / index pattern and data shape accepted by the operator",
  "Each of these operators has one or two fixed-data tests; emptiness, duplicates, gaps and orderings are data-dependent and cannot be enumerated.",
  [OPS + "tensor.py", OPS + "reduction.py", OPS + "math.py"],
  [("segment reductions", "tf2onnx/onnx_opset/reduction.py"), ("ragged/sparse handlers", "tf2onnx/onnx_opset/tensor.py")])
p("C07", "Control flow keeps its results for every branch, trip count and nesting",
  "A converted model with conditionals, switches, while loops, mapped functions, tensor arrays or nested combinations of them computes what TensorFlow computes. This holds for whichever branch the inputs select, any number of iterations including zero, loop variables that are unchanged, swapped or shape-changing, and values captured from enclosing scopes.",
  ["programs", "inputs"], "for every generated control-flow program (nesting up to three levels, captured tensors and constants, several loop variables, accumulated arrays) and every input that steers it",
  "Loop and cond tests are fixed programs run on one input each, so one branch and one trip count; liveness, capture and loop-invariant handling depend on the program's shape.",
  [OPS + "controlflow.py", "tf2onnx/rewriter/loop_rewriter.py", "tf2onnx/rewriter/loop_rewriter_base.py", "tf2onnx/rewriter/cond_rewriter.py", "tf2onnx/optimizer/loop_optimizer.py", "tf2onnx/tf_loader.py"],
  [("while to Loop/Scan translation", "tf2onnx/onnx_opset/controlflow.py"), ("tensor-list to scan-output rewriting", "tf2onnx/onnx_opset/controlflow.py"), ("legacy control-flow rewriters", "tf2onnx/rewriter/loop_rewriter.py")])
p("C08", "Recurrent layers keep their results",
  "A converted model with LSTM, GRU or simple recurrent layers (stacked, bidirectional, reversed, returning sequences or states, with initial states, masks or time-major layout) computes what the original computes. This holds for every cell option, unit count, batch size and sequence length, including lengths not known at conversion time.",
  ["programs", "inputs", "configurations"], "for every recurrent configuration, weight set, batch size and sequence length",
  "Recurrent tests fix units, batch and time steps, mostly with default activations; gate order, direction and state wiring depend on option combinations.",
  ["tf2onnx/rewriter/lstm_tf2_rewriter.py", "tf2onnx/rewriter/gru_tf2_rewriter.py", "tf2onnx/rewriter/lstm_rewriter.py", "tf2onnx/rewriter/gru_rewriter.py", "tf2onnx/rewriter/bilstm_rewriter.py", "tf2onnx/rewriter/bigru_rewriter.py", "tf2onnx/rewriter/rnn_utils.py", OPS + "rnn.py"],
  [("LSTM/GRU pattern recognition", "tf2onnx/rewriter/lstm_tf2_rewriter.py"), ("bidirectional merging", "tf2onnx/rewriter/bilstm_rewriter.py")])
p("C09", "Keras models predict the same after conversion",
  "For any Keras model assembled from supported layers (sequential, branching, shared layers, several inputs and outputs), the converted model maps inputs to the same predictions as the Keras model in inference mode. Outputs keep the model's order and names.",
  ["programs", "inputs", "configurations"], "for every generated layer graph, layer options, random weights and batch size",
  "Keras tests convert one small model per layer; interactions (layout moves, folding of batch norm, merging of equal subgraphs, shared weights) appear only in combinations.",
  ["tf2onnx/convert.py", "tf2onnx/tf_loader.py", "tf2onnx/keras2onnx_api.py", "tf2onnx/optimizer/transpose_optimizer.py"],
  [("Keras tracing and output naming", "tf2onnx/convert.py"), ("whole conversion pipeline", "tf2onnx/tfonnx.py")])
p("C10", "TFLite models compute the same after conversion",
  "A model converted from a TFLite file produces the outputs of the TFLite interpreter for the same inputs, for float models and for quantised models (to within one quantisation step per quantised operator), and with the dequantise option to within the quantisation error of a float computation. Input and output tensor names, order and types are those of the TFLite model, or their float counterparts when dequantising.",
  ["programs", "inputs", "configurations"], "for every TFLite operator the converter accepts, its fused activations and options, every quantisation scale and zero point, and input values",
  "TFLite coverage piggybacks on the TensorFlow tests at one opset with fixed data; quantisation parameters, fused activations and option fields vary independently.",
  ["tf2onnx/tflite_utils.py", "tf2onnx/tflite_handlers/tfl_math.py", "tf2onnx/tflite_handlers/tfl_nn.py", "tf2onnx/tflite_handlers/tfl_tensor.py", "tf2onnx/tflite_handlers/tfl_direct.py", "tf2onnx/tflite_handlers/tfl_controlflow.py", "tf2onnx/rewriter/quantization_ops_rewriter.py"],
  [("flatbuffer parsing", "tf2onnx/tflite_utils.py"), ("operator option translation", "tf2onnx/tflite_handlers/tfl_nn.py")],
  ["outputs of the converted model under onnxruntime, next to the TFLite interpreter"])
p("C11", "Model optimisation never changes what a model computes",
  "Optimising any valid ONNX model yields a valid model with the same input and output names, order and types that computes the same outputs for every input. This holds for the whole optimiser pipeline and for each pass on its own, on models that did not come from the converter too, and optimising an already optimised model changes nothing it computes.",
  ["programs", "inputs", "configurations"], "for every generated ONNX graph (shared constants, several consumers, graph outputs on inner tensors, subgraphs, transposes and reshapes around every operator class, foldable constants, quantise/dequantise pairs), any subset of passes, opsets 13 to 18",
  "Optimiser tests assert the result of one pass on a hand-drawn graph each; passes must be sound on all graphs, including ones sharing nodes the rewrite touches.",
  ["tf2onnx/optimizer/__init__.py", "tf2onnx/optimizer/transpose_optimizer.py", "tf2onnx/optimizer/const_fold_optimizer.py", "tf2onnx/optimizer/back_to_back_optimizer.py", "tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py", "tf2onnx/optimizer/identity_optimizer.py", "tf2onnx/optimizer/reshape_optimizer.py", "tf2onnx/optimizer/q_dq_optimizer.py", "tf2onnx/optimizer/const_dequantize_optimizer.py", "tf2onnx/optimizer/global_pool_optimizer.py", "tf2onnx/optimizer/upsample_optimizer.py", "tf2onnx/optimizer/loop_optimizer.py", "tf2onnx/optimizer/einsum_optimizer.py"],
  [("pass pipeline", "tf2onnx/optimizer/__init__.py"), ("graph edits under passes", "tf2onnx/graph.py")],
  ["outputs of the model before and after optimisation under onnxruntime"])
p("C12", "Graph editing keeps the graph consistent with its model",
  "After any sequence of public graph edits (adding, removing, inserting and replacing nodes, inputs, outputs, constants, names, shapes and types), queries about producers, consumers, shapes and types agree with the graph's actual connections, and the exported model contains exactly the live computation in a valid order. Loading an ONNX model into a graph and exporting it again preserves its computation, initialisers, attributes, types and interface (an initialiser that doubles as an input becomes a constant; one that is directly an output is refused).",
  ["histories", "programs"], "for every sequence of editing operations on every small graph, with nested subgraphs",
  "Graph tests check single edits on one fixed graph; index corruption needs particular histories, such as a node using one tensor twice before an input is replaced.",
  ["tf2onnx/graph.py", "tf2onnx/graph_builder.py"],
  [("consumer index maintenance", "tf2onnx/graph.py"), ("graph import and export", "tf2onnx/graph.py"), ("topological ordering", "tf2onnx/graph.py")],
  ["public graph queries and the exported model after each edit"])
p("C13", "The produced model is valid and honours the requested opset and target",
  "Every model the converter returns passes the ONNX checker with full shape inference, declares the requested opset and a matching format version, imports every operator domain it uses, and contains only operators defined at those versions. The same source converted for different opsets or deployment targets computes the same results.",
  ["programs", "configurations"], "for every supported program, each opset from 9 to 18 the operators allow, and each deployment target and extra opset",
  "CI runs one opset per job and checks values, not declarations; each handler has several version variants and only one is exercised per run.",
  ["tf2onnx/handler.py", "tf2onnx/schemas.py", "tf2onnx/constants.py", "tf2onnx/graph.py", "tf2onnx/tfonnx.py", "tf2onnx/late_rewriters/channel_order_rewriters.py"],
  [("version-specific handler selection", "tf2onnx/handler.py"), ("opset and IR version stamping", "tf2onnx/graph.py"), ("target rewriters", "tf2onnx/tfonnx.py")],
  ["opset imports, operator versions and checker result of the produced model; outputs across opsets"])
p("C14", "The model's inputs and outputs are exactly those the caller asked for",
  "The converted model has the inputs and outputs the caller named or the model defines, in the same order, with the same names (or the requested new names), types and compatible shapes, whatever optimisation happens inside. Inputs or outputs requested in channel-first layout differ from the default conversion only by that transposition, and a shape override changes only declared shapes, never results.",
  ["programs", "configurations"], "for every signature (several inputs and outputs, outputs that repeat, pass an input through or are constants, unused inputs), renaming, layout request and shape override",
  "Interface tests use one or two outputs with distinct producers; aliasing outputs, unused inputs, renamed pass-throughs and channel-first requests interact with optimisation.",
  ["tf2onnx/convert.py", "tf2onnx/tfonnx.py", "tf2onnx/graph.py", "tf2onnx/tf_loader.py", "tf2onnx/utils.py"],
  [("output renaming and identity insertion", "tf2onnx/graph.py"), ("channel-first request handling", "tf2onnx/tfonnx.py"), ("signature handling", "tf2onnx/convert.py")],
  ["declared inputs and outputs of the produced model and its results"])
p("C15", "Every way of handing over a model gives the same result",
  "A computation converted from a Python function, a Keras model, a frozen graph, a SavedModel, a checkpoint or a TensorFlow.js model, through the Python API or the command line, yields models that compute the same outputs. The file written equals the model returned, and selecting a subset of inputs or outputs computes exactly that part.",
  ["programs", "configurations"], "for every generated computation and variable values, each loading path, and every naming, signature, opset and output option of that path",
  "Each loading path has its own few end-to-end examples; nothing compares the paths, and the TensorFlow.js path is not run in this environment's suite at all.",
  ["tf2onnx/convert.py", "tf2onnx/tf_loader.py", "tf2onnx/tfjs_utils.py", "tf2onnx/keras2onnx_api.py"],
  [("loaders and freezing", "tf2onnx/tf_loader.py"), ("command line", "tf2onnx/convert.py"), ("TensorFlow.js weight and graph decoding", "tf2onnx/tfjs_utils.py")],
  ["models produced through each path and their outputs"])
p("C16", "Models with unknown dimensions work for every concrete size",
  "When input dimensions are left unspecified, or the rank of an intermediate tensor is only known at run time, the one converted model computes what TensorFlow computes for every concrete input size that TensorFlow accepts. It agrees with the model obtained by fixing those sizes before conversion.",
  ["programs", "inputs"], "for every supported program, every choice of which dimensions are unknown, and several concrete sizes per converted model (including 1, and 0 where the operator allows it)",
  "Dynamic-shape tests leave the batch unknown and run one size; handlers branch on whether each shape component is known.",
  ["tf2onnx/onnx_opset/tensor.py", "tf2onnx/onnx_opset/nn.py", "tf2onnx/shape_inference.py", "tf2onnx/tf_utils.py", "tf2onnx/optimizer/transpose_optimizer.py"],
  [("dynamic-shape branches of handlers", "tf2onnx/onnx_opset/tensor.py"), ("shape inference", "tf2onnx/shape_inference.py")])
p("C17", "Constants and inputs are interchangeable",
  "Replacing any operand of a model by a constant of the same value leaves its results unchanged, whether the conversion folds it, keeps it or specialises on it. Computations on constants evaluated during conversion give the values TensorFlow gives.",
  ["programs", "inputs"], "for every supported program and every subset of its operands turned into constants",
  "Folding and constant-specialised branches are tested on single hand-written chains; the property relates two conversions of one program, which no test compares.",
  ["tf2onnx/tf_utils.py", "tf2onnx/tf_loader.py", "tf2onnx/tfonnx.py", "tf2onnx/optimizer/const_fold_optimizer.py", "tf2onnx/rewriter/random_uniform.py", "tf2onnx/rewriter/eye_rewriter.py"],
  [("folding with TensorFlow", "tf2onnx/tf_utils.py"), ("shape-driven folding", "tf2onnx/tf_utils.py"), ("ONNX constant folding", "tf2onnx/optimizer/const_fold_optimizer.py")])
p("C18", "Conversion is deterministic, isolated and leaves its inputs alone",
  "Converting a model gives the same result regardless of what was converted before in the process, including failed conversions, and converting it twice gives interchangeable models. Conversion does not modify the caller's model, variables, graph, name lists or option dictionaries.",
  ["histories"], "for every sequence of conversions of varied programs, options, targets and failing models in one process",
  "Tests look at one conversion at a time and never compare a conversion with the same conversion after other ones; the converter keeps process-wide tables.",
  ["tf2onnx/tfonnx.py", "tf2onnx/handler.py", "tf2onnx/utils.py", "tf2onnx/convert.py", "tf2onnx/graph.py", "tf2onnx/optimizer/__init__.py"],
  [("function registry reset", "tf2onnx/tfonnx.py"), ("handler registry", "tf2onnx/handler.py"), ("copying of the source graph", "tf2onnx/tf_loader.py")],
  ["models produced by identical conversions at different points of a history; caller objects before and after"])
p("C19", "Unsupported models are refused, and custom operators are passed through intact",
  "A model containing an operator, type or attribute the converter cannot express is never turned into a model that runs and silently computes something else: the converter reports it and either raises an error or leaves the operator in a model that the runtime rejects. An operator declared as custom appears in the result under its given name and domain, with all of its inputs, outputs and attributes and with that domain declared, and the rest of the model is unaffected.",
  ["programs", "configurations"], "for every program mixing supported, unsupported and declared-custom operators, at every opset",
  "Failure tests cover a few operators; silent wrong output cannot be enumerated because the space of unsupported attribute combinations is open.",
  ["tf2onnx/tfonnx.py", "tf2onnx/handler.py", "tf2onnx/convert.py", "tf2onnx/utils.py"],
  [("mapping with failure collection", "tf2onnx/tfonnx.py"), ("custom operator registration", "tf2onnx/convert.py")],
  ["exception or produced model; custom nodes in the produced model"])
p("C20", "Shapes and types declared in the model are true of every run",
  "Every tensor shape and element type declared in a converted model or recorded by the converter in its graph, for inputs, outputs and intermediate tensors, agrees with the tensor that exists when the model runs: a known dimension has that size and a known type is that type. This holds for every input consistent with the declared input shapes.",
  ["programs", "inputs"], "for every supported program, opset, mix of known and unknown input dimensions and concrete input sizes",
  "Tests compare final values only; a false intermediate shape is invisible until a consumer or an optimisation relies on it.",
  ["tf2onnx/graph.py", "tf2onnx/shape_inference.py", "tf2onnx/schemas.py", "tf2onnx/onnx_opset/tensor.py", "tf2onnx/symbolic_executor.py"],
  [("shape/type bookkeeping", "tf2onnx/graph.py"), ("shape inference", "tf2onnx/shape_inference.py"), ("inference from ONNX schemas", "tf2onnx/schemas.py")],
  ["value info of the produced model against the actual intermediate tensors"])
p("C21", "Fusing and rewriting operator patterns never changes results",
  "Programs composed of many supported operators compute the same after conversion, including programs that contain the operator patterns the converter fuses or rewrites (activations, normalisations, dense layers, padded, dilated or biased convolutions, identity matrices, quantise pairs, dropout). A program that merely resembles such a pattern - other constants, other axes, extra consumers, swapped operands - is converted to what it actually computes.",
  ["programs", "inputs"], "for every composed program and every mutation of a recognised pattern",
  "Rewriter tests present each pattern exactly as its author saw it; near misses, which a loose match would miscompile, are absent.",
  ["tf2onnx/rewriter/gemm_rewriter.py", "tf2onnx/rewriter/layer_normalization_rewriter.py", "tf2onnx/rewriter/leakyrelu_rewriter.py", "tf2onnx/rewriter/thresholded_relu_rewriter.py", "tf2onnx/rewriter/flatten_rewriter.py", "tf2onnx/rewriter/eye_rewriter.py", "tf2onnx/rewriter/dropout_rewriter.py", "tf2onnx/rewriter/conv2d_with_pad_rewriter.py", "tf2onnx/rewriter/conv2d_with_add_rewriter.py", "tf2onnx/rewriter/conv_dilations_rewriter.py", "tf2onnx/rewriter/transpose_rewriter.py", "tf2onnx/rewriter/fused_op_rewriter.py", "tf2onnx/rewriter/quantization_ops_rewriter.py", "tf2onnx/graph_matcher.py"],
  [("pattern matcher", "tf2onnx/graph_matcher.py"), ("rewriters run before mapping", "tf2onnx/tfonnx.py")])
p("C22", "String operators and lookup tables keep their results",
  "Models using string comparison, case change, joining, splitting, replacing, number/string conversion, or lookup tables produce the strings, numbers and default values TensorFlow produces. This holds for all keys and texts, present or absent, empty, repeated or non-ASCII, in tables of any size and key/value type the converter accepts.",
  ["programs", "inputs"], "for every table content, query batch, text, separator and option accepted by the converter, with the ONNX runtime extensions where needed",
  "String tests use a few ASCII words; table handling is tested with two or three entries.",
  ["tf2onnx/custom_opsets/string_ops.py", "tf2onnx/custom_opsets/onnx_ml.py", "tf2onnx/onnx_opset/tensor.py", "tf2onnx/tf_loader.py"],
  [("string operator handlers", "tf2onnx/custom_opsets/string_ops.py"), ("table extraction and lookup", "tf2onnx/custom_opsets/onnx_ml.py")])
p("C23", "Serialised custom-option data is decoded exactly",
  "Any well-formed FlexBuffer (the format carrying the options of custom TFLite operators) decodes to the value that was encoded, whatever the nesting, element widths, key order, vector kinds and sharing. Malformed data is rejected or decoded without corrupting or hanging the conversion.",
  ["inputs"], "for every nested value of maps, typed and untyped vectors, strings, blobs, integers and floats of every width, under every encoder layout option",
  "The decoder has no direct tests; only one post-processing operator's options pass through it.",
  ["tf2onnx/flexbuffers.py", "tf2onnx/tflite_utils.py"],
  [("recursive decoder", "tf2onnx/flexbuffers.py")], ["decoded Python value next to the encoder's input"])
p("C24", "Large-model packaging loses nothing",
  "Converting with external tensor storage produces a package whose model, once unpacked and loaded with its data files, computes what the ordinary conversion computes, with every large tensor stored exactly once and restored bit for bit. Saving a model to a file, with or without external data, and loading it again returns the same model.",
  ["programs", "inputs"], "for every set of constants (sizes around the threshold, all element types, equal and shared tensors, awkward tensor names), inside and outside subgraphs",
  "One test converts one matrix; thresholds, naming collisions, element types and subgraph constants are not sampled.",
  ["tf2onnx/graph.py", "tf2onnx/utils.py", "tf2onnx/convert.py", "tf2onnx/optimizer/const_fold_optimizer.py"],
  [("external tensor storage", "tf2onnx/graph.py"), ("zip packaging", "tf2onnx/utils.py")], ["the unpacked package and its results"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
