#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this to regenerate it)."""
import json, os
T, H, C = "src/tensor.rs", "src/tensor/helper.rs", "src/tensor/operations/convolution.rs"
LY, FC, CV, MP, SM, NW = "src/layer.rs", "src/layer/fully_connected.rs", "src/layer/convolutional.rs", "src/layer/max_pool.rs", "src/layer/softmax.rs", "src/network.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- tensors
p("T01", "Tensor elements are stored independently of each other",
  "For every tensor, writing an in-range element makes that element read back bit for bit and leaves every other element unchanged. Reading an out-of-range index yields zero, and writing one changes nothing at all; neither ever panics.",
  ["inputs", "configurations"], "every shape, every pair of indices (including out of range up to the full 32-bit range), every 32-bit pattern of value including NaN and infinities",
  "The tests set and read a handful of fixed indices in one shape and never look at the other elements.",
  [T, H], [("Tensor::set_item/get_item guard with TensorShape::fits_index", T), ("TensorStride * TensorIndex gives the flat position", H)],
  state=[("data", "flat element storage, first dimension fastest", T)], observe=["Tensor::get_item"])
p("T02", "Element positions are unique and dense for any representable shape",
  "For every shape whose element count fits in 32 bits, every in-range index has a flat position smaller than the element count, and two different in-range indices never share a position. The reported element count is the product of the three dimensions, and a shape built from zero dimensions treats them as one.",
  ["inputs", "configurations"], "all 32-bit dimensions with a representable product, all pairs of in-range indices",
  "The tests evaluate one position in one shape; overflow and collisions only show for dimensions no test allocates.",
  [H, T], [("TensorStride::new_from_shape", H), ("Mul for TensorStride", H), ("TensorShape::total_size / fits_index", H)], observe=["Tensor::get_data_index", "Tensor::total_items"])
p("T03", "Elementwise arithmetic is exact per element and all-or-nothing",
  "Adding, multiplying and scaling tensors, in place or into a destination, gives for every element exactly the IEEE single-precision result of that one operation on the corresponding elements, and changes no operand other than the destination. When the shapes differ the destination is left exactly as it was.",
  ["inputs", "configurations"], "all element bit patterns (NaN, infinities, signed zeros, subnormals), all matching and mismatching shapes",
  "Tests use one shape filled with one constant, so misrouted elements, special values and mismatches are invisible to them.",
  [T], [("Tensor::add/add_to_self/scale/scale_self/multiply_elementwise/multiply_elementwise_self", T)])
p("T04", "Matrix products match their mathematical definition in every form",
  "The plain, first-transposed, second-transposed and fused product-plus-bias-plus-clamp operations all give, for every row, column and depth slice, the sum over the shared dimension of the products of the corresponding elements (plus bias and clamped at zero for the fused form). When the shapes do not allow the product the result tensor is left untouched, and the transposed forms report an error.",
  ["inputs", "configurations"], "all element values, all compatible and incompatible shape triples",
  "Tests check one or two tiny products with constant or symmetric contents, where swapped or repeated indices give the same numbers.",
  [T], [("Tensor::matrix_multiply, matrix_multiply_transpose_first, matrix_multiply_transpose_second, matrix_multiply_add_relu", T), ("Tensor::check_matrix_multiply_dimensions", T)])
p("T05", "Transposition swaps the first two dimensions and nothing else",
  "Transposing a tensor moves the element at row i, column j of every depth slice to row j, column i of the same slice, bit for bit, so transposing twice restores the original. When the destination does not have the transposed shape an error is returned and the destination is unchanged.",
  ["inputs", "configurations"], "all element bit patterns, all shapes and destination shapes",
  "One fixed shape is tested.", [T], [("Tensor::transpose_ij", T), ("TensorShape::transpose_ij", H)])
p("T06", "Rectification and its mask always agree",
  "Rectifying a tensor keeps every element that is greater than zero unchanged with mask value one, and sets every other element to zero with mask value zero. If the mask has a different shape an error is returned and neither tensor changes.",
  ["inputs", "configurations"], "all element bit patterns including NaN, negative zero and infinities; any previous mask contents; all shapes",
  "A test shows one tensor with ordinary values.", [T], [("Tensor::relu_self_and_store_mask", T)])
p("T07", "Forward convolution equals its definition and touches one channel only",
  "Convolving an image with a kernel at a stride gives, at every output position, the sum of products over the kernel window that starts at the position times the stride, across all image channels, plus the bias, clamped at zero in the rectifying form. Only the requested output channel is written. Inconsistent shapes, channel or bias shape give an error with the output unchanged.",
  ["inputs", "configurations"], "all image, kernel and bias values; all combinations of image size, kernel size, depth, stride and output channel that fit, and those that do not",
  "The tests use few fixed shapes with constant contents; index mix-ups between rows, columns, channels and stride are invisible there.",
  [C], [("convolution_bias / convolution_bias_relu loops", C), ("check_convolution_dimensions", C)])
p("T08", "The convolution input gradient is the exact adjoint of convolution",
  "For every output gradient, the gradient passed back to the image assigns each image element the sum, over every kernel and every output position whose window covers that element, of the output gradient there times the kernel element it was multiplied with. This holds for every stride, kernel size, depth and number of kernels, and no valid combination panics.",
  ["inputs", "configurations"], "all gradient and kernel values, all fitting image, kernel, stride, depth and kernel-count combinations",
  "The tests use one shape with constant contents and a stride of one; windows that overlap partially or strides above one never occur.",
  [C], [("convolution_backprop_outgoing_gradient window bounds", C)])
p("T09", "The convolution kernel gradient is exact for each kernel separately",
  "The gradient computed for a kernel assigns each kernel element the sum, over all output positions of that kernel's own output channel, of the output gradient there times the image element the kernel element was multiplied with. Gradients arriving on other output channels have no influence on it.",
  ["inputs", "configurations"], "all image and gradient values, all fitting shapes and strides, all channel counts and channel choices",
  "The tests have a single output channel or constant data.", [C], [("convolution_backprop_kernel", C)])
p("T10", "Max pooling yields the window maximum and its true origin",
  "Max pooling gives at every output position the largest element of the window that starts at the position times the stride in the same depth slice, and the tracking form additionally records an input position inside that window which holds that largest value. Both forms give the same output, and the tracking form reports an error instead of writing anything when shapes or the record's length do not match.",
  ["inputs", "configurations"], "all finite element values including ties and all-negative windows, all fitting shapes and strides",
  "Tests use a few fixed tensors with positive, distinct values.", [T], [("Tensor::max_pool, max_pool_track_origin", T), ("check_max_pooling_dimensions", T)])
p("T11", "Softmax always produces a probability distribution",
  "For every finite input the softmax output has no NaN, every element lies between zero and one, the elements sum to one up to rounding, and each element is proportional to the exponential of its input, so larger inputs never get smaller outputs. When the output shape differs the output is left untouched.",
  ["inputs", "configurations"], "all finite 32-bit float inputs (not just small ones), all shapes within the bound",
  "A test checks two small vectors; saturation and overflow need inputs no test contains.", [T, SM], [("Tensor::softmax", T)])
p("T12", "Scatter-add routes every value to its listed position",
  "Adding values through an index list adds the n-th source element to the destination position named by the n-th index, accumulating when positions repeat, and changes no other destination element. An index outside the destination or a list longer than the source gives an error and never a panic.",
  ["inputs", "configurations"], "all index values in the 32-bit range, all source and destination values, list lengths within the bound",
  "One fixed index list is tested.", [T], [("Tensor::add_from_index_list", T)])
p("T13", "The norm is the Euclidean norm of all elements",
  "Up to single-precision rounding, the norm of a tensor is the square root of the sum of the squares of all its elements, so it is never negative, is zero exactly when all elements are zero, and does not depend on the order or sign of the elements. Computing it changes nothing.",
  ["inputs", "configurations"], "all integer-valued element contents within the exact range, all shapes within the bound",
  "One vector is tested.", [T], [("Tensor::get_norm", T)])
p("T14", "Tensor equality and filling follow shape and contents exactly",
  "Two tensors are equal exactly when their shapes are the same and all corresponding elements compare equal as floats, and inequality is always the opposite. Filling with a value sets every element, filling with a list of the right length stores that list in order, and a list of the wrong length is rejected leaving the tensor unchanged.",
  ["inputs", "configurations"], "all element bit patterns, all shape pairs and list lengths within the bound",
  "Tests compare one equal and one unequal pair.", [T], [("PartialEq for Tensor", T), ("Tensor::fill_with_vec, fill_with_value", T)])
p("T15", "A tensor saved to a file loads back bit for bit",
  "Saving any tensor to a file and loading it gives a tensor with the same shape whose elements are bit-identical, including NaN payloads, infinities and signed zeros, and which behaves identically in later use. If the file cannot be written, read or fully stored, an error is returned rather than success or a panic.",
  ["inputs", "configurations", "fault_sequences"], "all shapes and element bit patterns within the bound; failing, short and interrupted file operations",
  "One tensor is round-tripped on a healthy filesystem.", [T], [("Tensor::save_to_file / from_file through bincode and std::fs", T)])
p("T16", "Uniform random filling stays within the requested range",
  "After filling a tensor with uniform random numbers every element lies between the requested minimum and maximum inclusive and is finite, whatever the random source delivers. Every element is overwritten.",
  ["inputs"], "all outputs of the random word source, several ranges including degenerate and sign-crossing ones",
  "A test draws from the real generator once, and rounding at the upper end needs specific random words.", [T], [("Tensor::fill_with_uniform via the rand crate's inclusive uniform distribution", T)])
p("T17", "Window-fitting checks are exact for every size and never panic",
  "The checks that decide whether a window with a stride tiles an image accept exactly when the stride is positive, the window is not empty or larger than the image in either direction, and the leftover is a multiple of the stride; the full shape checks additionally require the matching depth, output size and channel. For every combination of 32-bit sizes they give an answer, never a panic, and the reported output size is the number of window positions.",
  ["inputs"], "all 32-bit image, window, output sizes, strides and channels",
  "Tests try a few small fitting and non-fitting sizes; windows larger than the image and a zero stride are not tried.",
  [T, C], [("Tensor::does_kernel_stride_fit_image, get_convolution_dim_fit, check_max_pooling_dimensions", T), ("check_convolution_dimensions", C)])
# ---------------------------------------------------------------- layers
p("L01", "Layers accept exactly the configurations they can run",
  "Building or refilling a layer succeeds exactly when its parts fit together: window and stride tile the image, all kernels have one shape with the input's depth, there is one single-element bias per kernel, and a dense layer's bias matches its weights. A layer that was accepted runs forward, in both modes, on every input of the shape it announces and fills an output of the shape it announces; a refused refill leaves the layer unchanged, and none of this panics.",
  ["inputs", "configurations", "histories"], "all combinations of sizes, depths, strides, kernel and bias counts and shapes within the bound",
  "Tests build a few valid layers and hardly any invalid ones.", [CV, FC, MP, SM],
  [("ConvolutionalLayer::fill_from_state/new", CV), ("FullyConnectedLayer::fill_from_state", FC), ("MaxPoolLayer::fill_from_state/new", MP), ("SoftmaxLayer::fill_from_state", SM)])
p("L02", "A layer's forward result does not depend on its run mode",
  "For every layer kind, parameters and input, running forward in training mode and in inference mode gives the same output. Switching modes any number of times, in any order, never changes the parameters or the announced shapes.",
  ["inputs", "configurations", "histories"], "all parameter and input values, all layer kinds and shapes within the bound, all short sequences of mode switches",
  "The two modes run separate code; tests compare them on at most one constant input.", [FC, CV, MP, SM, T, C],
  [("forward matches on run_state in each layer", CV), ("fused and stepwise kernels", T)])
p("L03", "A dense layer computes the rectified affine map",
  "The output of a dense layer is, for every neuron, the weighted sum of the inputs plus the bias, clamped below at zero. It overwrites every output element, does not depend on the output's previous contents or on earlier calls, and leaves input, weights and bias unchanged.",
  ["inputs", "configurations", "histories"], "all weights, biases and inputs, all layer sizes within the bound, both modes, any preceding forward call",
  "Tests use constant weights.", [FC, T], [("FullyConnectedLayer::forward", FC)])
p("L04", "A convolutional layer computes every output channel from its own kernel",
  "Channel c of a convolutional layer's output is the input convolved with kernel c at the layer's stride plus bias c, clamped below at zero. Every output element is overwritten regardless of the output's previous contents or earlier calls.",
  ["inputs", "configurations", "histories"], "all kernels, biases and inputs, all fitting shapes, strides and channel counts within the bound, both modes",
  "Tests use identical kernels and constant images.", [CV, C], [("ConvolutionalLayer::forward", CV)])
p("L05", "Dense layer backpropagation is the true derivative",
  "After a forward pass in training mode, propagating a gradient back through a dense layer yields the true derivative of the layer's rectified output: the gradient handed on to its input, and the weight and bias gradients, where neurons that were clamped contribute nothing. Outside training mode it returns an error.",
  ["inputs", "configurations"], "all weights, biases, inputs and incoming gradients, all sizes within the bound",
  "Tests check constant weights where all neurons are active.", [FC, T], [("FullyConnectedLayer::backward", FC), ("Tensor::matrix_multiply_transpose_first/second", T)],
  state=[("weights_gradients/bias_gradients", "accumulated parameter gradients", FC), ("relu_mask", "which neurons were active in the last forward", FC)], hook="read access to accumulated gradients")
p("L06", "Convolutional layer backpropagation is the true derivative",
  "After a forward pass in training mode, propagating a gradient back through a convolutional layer yields the true derivative of the layer's rectified output: the gradient handed on to its input, and the kernel and bias gradients of every channel, where clamped outputs contribute nothing. Outside training mode it returns an error.",
  ["inputs", "configurations"], "all kernels, biases, images and incoming gradients, all fitting shapes, strides and channel counts within the bound",
  "Tests only exercise single-channel constant data with no clamped outputs.", [CV, C], [("ConvolutionalLayer::backward", CV), ("convolution_backprop_outgoing_gradient / convolution_backprop_kernel", C)],
  state=[("kernel_gradients/bias_gradients", "parameter gradients per kernel", CV)], hook="read access to accumulated gradients")
p("L07", "Max pooling layer backpropagation routes gradients to the maxima",
  "After a forward pass in training mode, each incoming gradient element is added to the position of the largest element of its window and to no other; positions that are no window's maximum get exactly zero, whatever the outgoing tensor held before. Summed over all positions the gradient is preserved.",
  ["inputs", "configurations", "histories"], "all inputs with distinct window maxima or ties, all gradients, overlapping and non-overlapping windows within the bound",
  "Tests use one non-overlapping example.", [MP, T], [("MaxPoolLayer::backward", MP), ("Tensor::max_pool_track_origin, add_from_index_list", T)])
p("L08", "Softmax layer backpropagation is the true derivative",
  "For every softmax output and incoming gradient, the gradient handed on is, per element, the output times the difference of its incoming gradient and the output-weighted sum of all incoming gradients. Outside training mode it returns an error.",
  ["inputs", "configurations"], "all output and gradient vectors, all vector lengths within the bound, any earlier calls",
  "One vector is tested.", [SM, T], [("SoftmaxLayer::backward", SM)])
p("L09", "Gradients accumulate across passes until cleared",
  "In training mode the parameter gradients of a layer are the sum over all forward/backward passes since they were last cleared, or since training mode was last entered. Clearing makes all of them, weights and biases alike, zero again, and neither clearing nor backpropagation changes parameters.",
  ["inputs", "histories"], "all sequences of passes, clears and mode switches within the bound, all values",
  "Tests run a single backward pass.", [FC, CV], [("clear_gradients, update_gradient_and_intermediate_tensors", FC), ("clear_gradients, backward", CV)],
  hook="read access to accumulated gradients")
p("L10", "Every layer survives serialization unchanged",
  "A layer restored from its serialized form has the same name, shapes and run behaviour as the original and produces bit-identical outputs for every input, for every layer kind. Restoring from another kind's data or from data with a missing entry gives an error and leaves the layer as it was.",
  ["inputs", "configurations"], "all parameter bit patterns, names and shapes within the bound, all layer kinds",
  "Tests restore one layer of each kind with constant contents and mostly compare names.", [FC, CV, MP, SM, LY], [("get_serialized / load_from_serialized per layer", FC)])
# ---------------------------------------------------------------- network
p("N01", "Inference is exactly the composition of the layers",
  "Running a network on an input gives the result of applying its layers one after another in the order they were added, and each intermediate state equals the output of that many layers. Its announced input and output shapes are those of the first and last layer.",
  ["inputs", "configurations", "programs"], "all parameters and inputs, all short stacks of layer kinds within the bound, both modes",
  "Tests run one or two fixed networks with constant weights.", [NW], [("Network::infer", NW), ("Network::add_layer", NW)])
p("N02", "Inference depends only on parameters and the current input",
  "Repeating an inference gives the bit-identical result, whatever inferences, failed calls, backward passes or mode switches happened in between. A wrongly shaped input or an empty network is answered with an error and leaves the last result in place.",
  ["inputs", "histories"], "all pairs of inputs, all short call histories",
  "Tests infer once per network.", [NW, FC, CV, MP, SM], [("Network::infer", NW)])
p("N03", "Network backpropagation follows the chain rule through all layers",
  "After an inference in training mode, propagating a loss gradient back gives every layer the gradient its successor produced, so the gradient at the network's input is the true derivative of the output along that gradient. This holds again after any number of further inferences, backward passes or mode switches.",
  ["inputs", "configurations", "histories"], "all parameters, inputs and gradients, all short stacks of layer kinds, short histories within the bound",
  "One fixed network is propagated without checking numbers against a derivative.", [NW], [("Network::backward", NW)],
  state=[("intermediate_gradients", "gradient at every layer boundary", NW)], hook="read access to intermediate gradients")
p("N04", "Backpropagation is refused, not crashed, when it is not possible",
  "Asking a network to propagate backwards returns an error when it has no layers, is not in training mode, or the gradient has the wrong shape, after any sequence of calls; it never panics. Otherwise, after an inference, it succeeds.",
  ["histories", "inputs"], "all sequences of construction, layer addition, mode switches, inference and backward calls within the bound",
  "The tests never call backward after switching modes.", [NW], [("Network::backward guards", NW), ("Network::switch_to_inference / switch_to_training", NW)])
p("N05", "The network and all its layers always agree on the run mode",
  "The reported run mode is the one last requested, and every layer of the network is in that same mode, after any sequence of mode switches and layer additions. Layers added in one mode and layers added in another behave alike after the next switch.",
  ["histories"], "all sequences of mode switches and layer additions within the bound, both initial modes, all layer kinds",
  "A test switches once and looks at one field.", [NW, LY], [("Network::switch_to_training/switch_to_inference/add_layer", NW)])
p("N06", "Layers are added only when shapes chain, and refusals change nothing",
  "Adding a layer succeeds exactly when the network is empty or the layer's input shape equals the network's current output shape. A refused layer leaves the network's layers, shapes and behaviour exactly as they were.",
  ["configurations", "histories", "inputs"], "all shape pairs in the 32-bit range for layers that store only shapes, all short sequences of additions",
  "One mismatch is tested.", [NW], [("Network::add_layer", NW)])
p("N07", "A saved network loads back as the same network",
  "Loading a saved network into a fresh network restores the layers in the same order with the same kinds, names, shapes and bit-identical parameters, so every input gives the bit-identical output. This does not depend on the iteration order of hash maps or on the mode of either network.",
  ["inputs", "configurations", "programs"], "all parameter bit patterns and inputs, short stacks of all layer kinds, several hash seeds",
  "Tests round-trip one network and compare only shapes.", [NW, LY, FC, CV, MP, SM], [("SerializedNetwork", NW), ("SerializedLayer::add_to_network", LY)])
p("N08", "Damaged or hostile files are rejected without a panic",
  "Loading a tensor or a network from any file contents either returns an error or gives an object that is consistent with its announced shape and can be used without panicking. No corruption, truncation or inconsistency of the file crashes the program.",
  ["inputs", "fault_sequences"], "all byte values in any single field or nested length of a saved file, all truncation points, within the bound",
  "Tests only load files that were just written.", [T, NW, LY, FC, CV, MP, SM], [("bincode::deserialize call sites", LY), ("Tensor deserialization", T)])
p("N09", "A failed load leaves the network untouched",
  "When loading a network from a file fails for any reason the network keeps exactly the layers, shapes, mode and behaviour it had before the call. A successful load adds the stored layers in order after the existing ones when shapes chain.",
  ["inputs", "histories", "fault_sequences"], "all stored layer stacks whose n-th layer is invalid or does not chain, all truncations, existing networks with zero or more layers",
  "No test makes a load fail.", [NW, LY], [("Network::load_from_file -> populate_network", NW)])
p("N10", "File errors are always reported",
  "Saving or loading a tensor or network reports an error whenever the file cannot be opened, read, or completely written, and reports success only after all bytes were handed to the operating system. Interrupted and partial system calls are retried without corrupting the data.",
  ["fault_sequences", "inputs"], "all placements of an open, read, write error, interruption or short transfer among the file operations",
  "Tests run on a healthy filesystem.", [T, NW], [("fs::write / fs::read use in save_to_file, from_file, load_from_file", NW)])
p("N11", "Saving a network never changes it",
  "After a save, successful or failing, the network has the same layers, shapes, mode, parameters and last results as before, and every later inference, backward pass and save gives what it would have given without the save. Saving repeatedly, in any mode and at any point of a training step, produces files that all load as the same network.",
  ["histories", "inputs", "fault_sequences"], "all parameters, inputs and gradients, saves at every point between inference and backward pass, well or failing, both modes",
  "Tests save a fresh network once and only look at the loaded copy.", [NW, LY, FC, CV], [("Network::save_to_file -> get_serialized_network", NW), ("Layer::get_serialized_layer", LY)])
p("N12", "Networks and layers do not influence one another",
  "What a network or layer computes, stores and reports depends only on its own parameters, mode and calls. Creating, running, training, switching, saving or dropping another network or layer in between changes none of its results, gradients or parameters, even when both have the same names, shapes or inputs.",
  ["histories", "inputs"], "all parameters and inputs of two networks or layers, sequences of interleaved calls on both, equal and different shapes",
  "Each test builds one network and runs it alone.", [NW, LY, FC, CV, MP, SM], [("all layer buffers are owned fields", CV), ("Network::states", NW)])
p("T18", "Gaussian filling gives every element mean plus deviation times its own draw",
  "Filling a tensor from a normal distribution overwrites every element with the requested mean plus the requested standard deviation times a standard normal draw, uses a different draw for every element, and changes neither the shape nor any other tensor. A deviation of zero gives the mean everywhere.",
  ["inputs", "configurations"], "all finite means and deviations, all previous contents, shapes within the bound, listed streams of random words",
  "The tests only look at the sample mean of one large tensor.", [T], [("Tensor::fill_with_gaussian", T)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
