"""Which harnesses decide which property, how they are run and what their bounds are."""


class J:
    """One harness.  shards: parallel pieces per tier; optional: a query the solver does not
    decide in time is recorded but does not spoil the check (a bounded twin decides it);
    canon: sums and products are compared in a canonical form before they reach the solver."""

    def __init__(self, name, bounds, shards=(1, 1), optional=False, canon=False, qt=(40, 120), secs=(400, 3000), hooks=False):
        self.name, self.bounds, self.shards, self.optional, self.canon, self.qt, self.secs, self.hooks = name, bounds, shards, optional, canon, qt, secs, hooks


PLAN = {
    "T01": [J("t01_elements", "shapes up to 2x2x2, any index, any element bits"),
            J("t01_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), any element bits"),
            J("t01_large", "eleven large shapes (65 to 4422 elements), any element bits")],
    "T02": [
        J("t02_position", "all 32-bit dimensions whose product fits in 32 bits, any two in-range indices; the dimensions are split by their bit lengths", shards=(8, 8)),
        J("t02_product", "all 32-bit dimensions"),
        J("t02_layout", "all 32-bit dimensions"),
        J("t02_tensor", "allocated tensors with dimensions up to 3 (4)"),
    ],
    "T03": [J("t03_elementwise", "shapes up to 2x2x2 (3x2x2), any element bits"), J("t03_mismatch", "pairs and triples of seven different small shapes, any element bits"),
            J("t03_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), any element bits", shards=(2, 2)),
            J("t03_large", "eleven large shapes (65 to 4422 elements), any element bits", shards=(4, 4)),
            J("t03_same", "one tensor as both operands, five shapes up to 3x3x2, any element bits")],
    "T04": [J("t04_product", "rows, columns <= 2 (3), shared dimension <= 3, depth <= 2, elements integers in [-31,31]"),
            J("t04_mismatch", "all shape triples with dimensions <= 2 that do not fit"),
            J("t04_long", "twelve larger products (up to 17 terms per element, 9 rows or columns, depth 5), elements integers in [-31,31], in tiny, fractional, ordinary and large units", canon=True),
            J("t04_large", "fifteen large products (up to 300 terms, 70 rows, 66 columns, depth 33, 12x12x12, 34x35x3, 67x1x66), elements integers in [-31,31]", canon=True, shards=(2, 2)),
            J("t04_stale", "dimensions <= 2, all four forms, any element bits, into destinations that held any bits"),
            J("t04_same", "a matrix and itself or its copy, all four forms, dimensions <= 3, depth <= 2, elements integers in [-31,31]", canon=True)],
    "T05": [J("t05_transpose", "shapes up to 3x3x2, any element bits"), J("t05_mismatch", "all pairs of seven small shapes, any element bits"),
            J("t05_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), any element bits"),
            J("t05_large", "eleven large shapes (65 to 4422 elements), any element bits", shards=(2, 2))],
    "T06": [J("t06_relu", "shapes up to 2x2x2, any element bits"), J("t06_mismatch", "all pairs of seven small shapes, any element bits"),
            J("t06_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), any element bits"),
            J("t06_large", "eleven large shapes (65 to 4422 elements), any element bits", shards=(8, 8))],
    "T07": [J("t07_forward", "strides <= 3, windows <= 2 (3) and window positions <= 2 (3) per direction, depth <= 2, channels <= 2, elements integers in [-31,31]", shards=(2, 8)),
            J("t07_refuse", "sixteen disturbances of every fitting configuration with stride, window and positions <= 2; any channel number", shards=(2, 2)),
            J("t07_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-31,31], in tiny, fractional, ordinary and large units", shards=(4, 4)),
            J("t07_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7), elements integers in [-31,31]", canon=True),
            J("t07_stale", "windows <= 2x1, positions and strides <= 2, depth and channels <= 2, both forms, any element bits, into destinations that held any bits"),
            J("t07_same", "images that are their own kernel or bias, four shapes up to 2x2x2, elements integers in [-31,31]", canon=True)],
    "T08": [J("t08_input_gradient", "strides <= 3, windows <= 3 (4), positions <= 2 (3) per direction, depth <= 2, kernels <= 2, elements integers in [-31,31]", shards=(2, 8)),
            J("t08_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-31,31], in tiny, fractional, ordinary and large units", shards=(4, 4)),
            J("t08_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7), elements integers in [-31,31]", canon=True, shards=(2, 2)),
            J("t08_stale", "windows <= 2x1, positions and strides <= 2, depth and channels <= 2, any element bits, into destinations that held any bits")],
    "T09": [J("t09_kernel_gradient", "strides <= 3, windows <= 3 (4), positions <= 2 (3) per direction, depth <= 2, channels <= 3, elements integers in [-31,31]", shards=(2, 8)),
            J("t09_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-31,31], in tiny, fractional, ordinary and large units", shards=(4, 4)),
            J("t09_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7), elements integers in [-31,31]", canon=True, shards=(2, 2)),
            J("t09_stale", "windows <= 2x1, positions and strides <= 2, depth and channels <= 2, any element bits, into destinations that held any bits"),
            J("t09_same", "images that are their own gradient, four shapes up to 2x2x2, elements integers in [-31,31]", canon=True)],
    "T10": [J("t10_max_pool", "strides <= 3, windows <= 2 (3), positions <= 2 per direction, depth <= 2, all finite floats", shards=(2, 8)),
            J("t10_refuse", "thirteen disturbances of every fitting configuration with stride, window and positions <= 2, any element bits"),
            J("t10_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), all finite floats", shards=(4, 4)),
            J("t10_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7), all finite floats", shards=(8, 8)),
            J("t10_bits", "eight configurations of up to 4 elements, all finite bit patterns including subnormals and signed zeros, into destinations that held any bits")],
    "T11": [J("t11_proportion", "up to 3 elements along each dimension, inputs integers in [-6,6], exponential by its real contract", shards=(4, 8)),
            J("t11_range", "up to 3 (4) elements along each dimension, every finite float, exponential by its IEEE contract", shards=(6, 8), optional=True),
            J("t11_order", "2 to 3 (4) elements along each dimension, every finite float", shards=(6, 8), optional=True),
            J("t11_mismatch", "all pairs of different shapes up to 2x2x2, any element bits"),
            J("t11_long", "eight larger shapes (2x2, 3x2x2, 9 and 17 in a row, 2x2x5), the same integer in [-3,3] everywhere but at one position, exponential by its real contract", shards=(4, 4)),
            J("t11_stale", "shapes up to 2x2x2, any element bits, into destinations that held any bits")],
    "T12": [J("t12_scatter", "sources up to 2x2, destinations up to 2x2x2, any list of 32-bit indices up to one longer than the source, elements integers in [-99,99]", shards=(2, 8)),
            J("t12_long", "sources and destinations of sixteen longer shapes, four strides through the destination, elements integers in [-99,99], in tiny, fractional, ordinary and large units", shards=(8, 8)),
            J("t12_large", "eleven large shapes (65 to 4422 elements), elements integers in [-99,99]", canon=True, shards=(2, 2))],
    "T13": [J("t13_norm", "shapes up to 2x2x2, elements integers in [-7,7]"), J("t13_sign", "up to 2 elements, any bits"),
            J("t13_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), elements integers in [-3,3], in tiny, fractional, ordinary and large units", shards=(2, 2)),
            J("t13_large", "eleven large shapes (65 to 4422 elements), elements integers in [-3,3]", shards=(4, 4))],
    "T14": [J("t14_equality", "all pairs of shapes up to 2x2x2, any element bits"), J("t14_fill", "shapes up to 2x2x2, lists up to two longer than the tensor, any bits"),
            J("t14_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), any element bits"),
            J("t14_large", "eleven large shapes (65 to 4422 elements), any element bits", shards=(8, 8)),
            J("t14_self", "shapes up to 2x2x2, any element bits; a tensor and itself or its copy")],
    "T15": [J("t15_roundtrip", "shapes up to 2x2x2 (2x2x3), any element bits"), J("t15_overwrite", "all pairs of shapes up to 2x2x2, any element bits"),
            J("t15_faults", "one fault (error, interruption, partial or zero transfer) at any of the first six file operations of saving or loading, shapes up to 2x1x2, any element bits"),
            J("t15_missing", "absent file, absent directory"),
            J("t15_long", "sixteen longer shapes (up to 33 elements in a row, 3x3x3, 5x3x2), any element bits"),
            J("t15_large", "eleven large shapes (65 to 4422 elements), any element bits"),
            J("t15_names", "two tensors in files of any two of nine similar names, any element bits"),
            J("t15_big", "files of more than a mebibyte (263000 elements, five of them any bits, the others fixed)")],
    "T16": [J("t16_uniform", "eight (twelve) ranges, up to two elements, every output of the random word source"),
            J("t16_long", "six longer shapes, two ranges, every output of the random word source", shards=(4, 4)),
            J("t16_large", "two large shapes (65 and 135 elements), every output of the random word source", shards=(4, 4))],
    "T17": [J("t17_fit", "all 32-bit sizes and strides", optional=True), J("t17_fit_small", "sizes and strides <= 31 (255)"),
            J("t17_dim_fit", "all 32-bit sizes and strides that fit", optional=True), J("t17_dim_fit_small", "sizes, strides and counts <= 31 (255)"),
            J("t17_pool_check", "all 32-bit sizes, strides and result shapes", optional=True), J("t17_pool_check_small", "sizes, strides <= 15 (63)"),
            J("t17_conv_check", "all 32-bit sizes, strides, result shapes and channels", optional=True), J("t17_conv_check_small", "sizes, strides, channels <= 15 (63)"),
            J("t17_twice", "every check asked three times with arguments of which one part differs, sizes and strides <= 4 (12)", shards=(8, 8))],
    "L01": [J("l01_conv", "kernel dimensions <= 2, images <= 3x3x2, strides <= 2, up to 2 kernels and biases, including empty ones and mixed kernel and bias shapes; refilled from a valid layer; any element bits", shards=(8, 8)),
            J("l01_dense", "weights <= 2x3x2, bias <= 2x2x2, including empty ones; any element bits", shards=(4, 4)),
            J("l01_pool", "images <= 4x3x2, windows <= 3x2x2, strides <= 3, including zeros; any element bits in images of up to 4 elements, fixed elements in larger ones", shards=(4, 4)),
            J("l01_refill_runs", "one accepted or refused refill of every kind in both modes, before and after use, any element bits", shards=(2, 2)),
            J("l01_pool_sizes", "all 32-bit sizes and strides", optional=True), J("l01_pool_sizes_small", "sizes and strides <= 15 (63)"),
            J("l01_conv_sizes", "all 32-bit image sizes and strides, kernels <= 2x3", optional=True, shards=(6, 6)), J("l01_conv_sizes_small", "image sizes and strides <= 15 (63), kernels <= 2x3", shards=(2, 6)),
            J("l01_soft", "all 32-bit sizes"), J("l01_new", "images <= 3x3x2, windows and neurons <= 3, strides <= 2, any input bits")],
    "L02": [J("l02_modes", "small layers of every kind, up to 3 (5) mode switches, elements integers in [-9,9]", shards=(4, 8)),
            J("l02_bits", "very small layers of every kind, all finite floats", shards=(4, 4)),
            J("l02_long", "ten larger dense layers (up to 17 inputs or neurons, depth 4), twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-9,9], in tiny, fractional, ordinary and large units", shards=(4, 4)),
            J("l02_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7) and nine large dense layers (up to 300 inputs or outputs, 33x34, 36x33, depth 17), elements integers in [-9,9]", canon=True),
            J("l02_repeat", "one layer of every kind, 150 (300) rounds of forward passes in five patterns of modes, backward passes and images, elements integers in [-3,3] (fixed numbers for pooling)", canon=True),
            J("l02_stale", "small pooling and softmax layers, both modes, with an earlier call or not, any element bits (fixed numbers for pooling images above 4 elements), into destinations that held any bits")],
    "L03": [J("l03_dense", "up to 2 (3) inputs and neurons, depth <= 2, an earlier call or not, elements integers in [-9,9]", shards=(2, 8)),
            J("l03_fill", "up to 3 inputs and neurons, elements integers in [-9,9]"),
            J("l03_long", "ten larger dense layers (up to 17 inputs or neurons, depth 4), elements integers in [-9,9], in tiny, fractional, ordinary and large units", canon=True),
            J("l03_large", "nine large dense layers (up to 300 inputs or outputs, 33x34, 36x33, depth 17), elements integers in [-9,9]", canon=True),
            J("l03_stale", "small dense layers, both modes, with an earlier call or not, any element bits, into destinations that held any bits")],
    "L04": [J("l04_conv", "windows <= 2x2 (2x3), positions <= 2x2 (2x3), depth <= 2, channels <= 2, strides <= 2 (3), an earlier call or not, elements integers in [-9,9]", shards=(8, 8)),
            J("l04_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-9,9], in tiny, fractional, ordinary and large units", canon=True),
            J("l04_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7), elements integers in [-9,9]", canon=True),
            J("l04_stale", "small convolutional layers, both modes, with an earlier call or not, any element bits, into destinations that held any bits")],
    "L05": [J("l05_outgoing", "up to 2 (3) inputs and neurons, depth <= 2, with an earlier pass, a clear or a second pass, elements integers in [-9,9]", shards=(2, 8)),
            J("l05_refuse", "up to 2 (3) inputs and neurons, depth <= 2"),
            J("l05_parameters", "up to 2 (3) inputs and neurons, depth <= 2, elements integers in [-5,5]", hooks=True),
            J("l05_long", "ten larger dense layers (up to 17 inputs or neurons, depth 4), elements integers in [-9,9], in tiny, fractional, ordinary and large units", shards=(4, 4)),
            J("l05_long_parameters", "ten larger dense layers (up to 17 inputs or neurons, depth 4), elements integers in [-5,5]", hooks=True, canon=True),
            J("l05_large", "nine large dense layers (up to 300 inputs or outputs, 33x34, 36x33, depth 17), elements integers in [-9,9]", canon=True),
            J("l05_repeat", "a dense layer, 150 (300) rounds of forward and backward passes in four patterns with second passes, inferences and clears in between, against a new layer, elements integers in [-3,3]", canon=True),
            J("l05_large_parameters", "a dense layer of 17 inputs and 18 neurons, elements integers in [-5,5]", canon=True, hooks=True),
            J("l05_stale", "small dense layers, with an earlier pass, a clear or none, any element bits, into destinations that held any bits")],
    "L06": [J("l06_outgoing", "windows <= 2x2, positions <= 2x1 (2x2), depth 1 (2), channels <= 2, strides <= 2, with an earlier pass, a clear or a second pass, elements integers in [-9,9]", shards=(6, 8)),
            J("l06_refuse", "windows <= 2x1, positions <= 2x1, depth and channels <= 2"),
            J("l06_parameters", "windows and positions <= 2x2, depth <= 2, channels <= 2 (3), strides <= 2, elements integers in [-5,5]", hooks=True, shards=(8, 8)),
            J("l06_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-9,9], in tiny, fractional, ordinary and large units", shards=(4, 4)),
            J("l06_long_parameters", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), elements integers in [-5,5]", hooks=True, canon=True),
            J("l06_large", "eleven large configurations (28x28 images, 66 positions, depth 17, 18 kernels, windows up to 6x5 and 1x17, stride 7), elements integers in [-9,9]", canon=True, shards=(2, 2)),
            J("l06_repeat", "a convolutional layer, 150 (300) rounds of forward and backward passes in four patterns with second passes, inferences and clears in between, against a new layer, elements integers in [-3,3]", canon=True),
            J("l06_large_parameters", "four larger configurations (10x10 image, 33 positions, depth 9, 18 kernels), elements integers in [-5,5]", canon=True, hooks=True),
            J("l06_stale", "small convolutional layers, with an earlier pass, a clear or none, any element bits, into destinations that held any bits")],
    "L07": [J("l07_routes", "windows and positions <= 2x2 (3x2), depth <= 2, strides <= 2, inputs integers in [-99,99], gradients in [-9,9], with an earlier pass, a clear or a second pass", shards=(2, 8)),
            J("l07_long", "twelve larger configurations (windows up to 5x1 and 3x3, up to 5 positions per direction, depth and kernels up to 4, strides up to 4), inputs increasing by a symbolic step in one of four directions, gradients in [-9,9], in tiny, fractional, ordinary and large units", shards=(2, 2)),
            J("l07_large", "ten large configurations (images up to 24x18 and 66x1, depth 17, windows up to 6x5 and 1x17, stride 7)", shards=(4, 4)),
            J("l07_repeat", "a pooling layer, 150 (300) rounds of forward and backward passes in four patterns with second passes, inferences and clears in between, against a new layer, elements integers in [-3,3]", canon=True),
            J("l07_stale", "small pooling layers, with an earlier pass, a clear or none, any element bits, into destinations that held any bits")],
    "L08": [J("l08_derivative", "shapes up to 3 elements (2x2x2), integers in [-9,9]"), J("l08_forward_backward", "2 (3) elements, integers in [-4,4], exponential by its real contract"),
            J("l08_long", "five shapes up to 9 elements, integers in [-3,3], in tiny, fractional, ordinary and large units"),
            J("l08_repeat", "a softmax layer, 150 (300) rounds of forward and backward passes in four patterns with second passes, inferences and clears in between, against a new layer, elements integers in [-3,3]", canon=True),
            J("l08_large", "three shapes of up to 65 elements, integers in [-3,3]", canon=True),
            J("l08_stale", "small softmax layers, with an earlier pass, a clear or none, any element bits, into destinations that held any bits")],
    "L09": [J("l09_history", "every sequence of up to 3 (5) passes, repeated backward passes, clears and mode switches on a 2x2 dense layer and a two-channel convolution, inputs and gradients integers in [-5,5]", hooks=True, shards=(8, 8)),
            J("l09_long", "three small dense and convolutional layers, 3 to 6 (12) passes, repeated backward passes or not, a clear after any of the first three or never, elements integers in tiny, fractional, ordinary and large units", hooks=True, canon=True),
            J("l09_repeat", "one small layer of either kind, 149 (299) passes with one or two backward passes and clears every second, every ninth or no time", canon=True, hooks=True),
            J("l09_stale", "small dense and convolutional layers, gradients of any bits cleared in three ways and followed by a pass", hooks=True)],
    "L10": [J("l10_roundtrip", "small layers of every kind, before and after use, both modes, two (four) hash seeds, any element bits (fixed numbers for pooling images above 4 elements)", shards=(4, 8)),
            J("l10_orders", "one layer of every kind, every order of the stored entries, any element bits", shards=(4, 4)),
            J("l10_refuse", "data of every kind into every kind, every single entry missing, any element bits"),
            J("l10_damaged", "every truncation and every damaged byte of every entry (any value for a byte of a number, eight for a byte of a size or text)", shards=(4, 4)),
            J("l10_large", "one large layer of every kind with a long name, both modes, any element bits"),
            J("l10_any_name", "one layer of every kind, names of up to 2 (3) characters of up to three bytes each, any characters", shards=(4, 4)),
            J("l10_sizes", "pooling, 1x1-convolution and softmax layers of any 32-bit sizes and strides", optional=True),
            J("l10_sizes_small", "pooling, 1x1-convolution and softmax layers with sizes and strides up to 511 (2047)")],
    "N01": [J("n01_mocks", "every chain of up to 3 (4) mock layers over three shapes, in either mode and with switches while it is built; the layers' outputs are any bits", shards=(2, 8)),
            J("n01_layers", "four chains of up to 4 of the library's layers, both modes, two inferences, any element bits"),
            J("n01_long", "chains of 5 to 9 (17) mock layers over three shapes, with switches while they are built; the layers' outputs are any bits"),
            J("n01_long_layers", "five chains of up to 9 of the library's layers or with up to 17 neurons, both modes, any element bits"),
            J("n01_deep", "chains of 33 and 70 (260) mock layers, the layers' outputs are any bits")],
    "N02": [J("n02_history", "four chains of 2 to 3 layers, every sequence of up to 3 (4) inferences, refused calls, backward passes and switches in between, any element bits", shards=(8, 8)),
            J("n02_modes", "four chains of 2 to 3 layers, elements integers in [-3,3]"),
            J("n02_refusals", "empty networks; one mock layer of nine shape pairs and every input shape up to 3x3x3"),
            J("n02_failing_layer", "up to 3 mock layers, any of them failing"),
            J("n02_repeat", "four chains of two layers, 150 (300) rounds of inferences in five patterns of modes, backward passes, refused and repeated images, any element bits (fixed images before pooling layers)", shards=(2, 2))],
    "N03": [J("n03_mocks", "every chain of up to 3 (4) mock layers over three shapes, built in either mode or across a switch; gradients are any bits", shards=(2, 8)),
            J("n03_history", "up to 3 mock layers, every sequence of up to 3 (5) inferences, backward passes, switches and additions", shards=(1, 8)),
            J("n03_layers", "four chains of up to 4 layers, with an earlier pass, a switch or a second backward pass, any element bits"),
            J("n03_derivative", "two dense layers with up to 2 inputs, 2 hidden and 1 (2) outputs, elements integers in [-3,3] ([-5,5])", shards=(1, 4)),
            J("n03_long", "chains of 4 to 9 (17) mock layers over three shapes, gradients are any bits"),
            J("n03_long_layers", "five chains of up to 9 of the library's layers or with up to 17 neurons, any element bits"),
            J("n03_deep", "chains of 70 (260) mock layers, gradients are any bits"),
            J("n03_repeat", "three mock layers, 150 (300) rounds of passes in four patterns", shards=(2, 2))],
    "N04": [J("n04_sequences", "every sequence of up to 4 (6) additions, inferences, switches and right or wrong backward calls, with mock and with real layers", shards=(2, 8))],
    "N05": [J("n05_sequences", "every sequence of up to 5 (7) switches and additions of layers that were in either mode, accepted or refused", shards=(2, 8)),
            J("n05_alike", "one layer of every kind, alone or behind another, every pair of modes, any element bits"),
            J("n05_repeat", "150 (300) rounds of switches and additions in sixteen rhythms")],
    "N06": [J("n06_chain", "up to 2 (3) mock layers and one more with any 32-bit input shape", shards=(1, 2)),
            J("n06_layers", "every pairing of twelve layers of all kinds, both modes, any element bits", shards=(1, 2))],
    "N07": [J("n07_roundtrip", "four chains of up to 4 layers, every pair of modes, before and after use, two (four) hash seeds, any element bits", shards=(2, 8)),
            J("n07_orders", "two layers of which one has its entries in every order, any element bits", shards=(2, 8)),
            J("n07_overwrite", "every pair of four chains of up to 4 layers, any element bits", shards=(1, 2)),
            J("n07_grow", "four chains of up to 3 (4) layers, saved after every added layer and after another file was loaded into them, both modes, one file or several"),
            J("n07_names", "chains of up to 4 layers whose names are every combination of three (four) names including equal and empty ones; loaded once and twice", shards=(4, 4)),
            J("n07_any_name", "layers of every kind with names of up to 3 (5) ASCII characters, any characters", shards=(2, 2)),
            J("n07_long", "five chains of up to 9 layers or with up to 17 neurons, every pair of modes, any element bits"),
            J("n07_large", "four networks with large or many layers (files of 18 KiB, 131 (260) layers, sizes and strides of 300), every pair of modes, any element bits"),
            J("n07_big", "a layer of 263000 weights, five of them any bits, the others fixed", shards=(2, 2))],
    "N08": [J("n08_tensor_shape", "up to 4 (6) stored elements of any bits, any strides, dimensions up to 63 (255), six kinds of length fields"),
            J("n08_tensor_use", "up to 4 (6) stored elements of any bits, any strides, dimensions from eight values up to 2^32-1, four kinds of length fields; used with any 32-bit indices", shards=(4, 8)),
            J("n08_tensor_damaged", "tensors of up to 4 elements, every truncation, every damaged byte, every inserted byte (any value for a byte of an element, eight for the others)", shards=(8, 8)),
            J("n08_network_damaged", "two layers, every truncation and every damaged byte of every entry of one of them or of the first 20 (40) bytes", shards=(8, 8)),
            J("n08_inconsistent", "layers of every kind from parts that do not fit: shapes up to 2x2x2, up to 2 kernels and biases, sizes and strides from small values and 2^32-1", shards=(6, 8)),
            J("n08_any_bytes", "files of up to 31 bytes (tensors) or 35 bytes (networks, frames from lists of values)", shards=(2, 2))],
    "N09": [J("n09_append", "four chains of up to 3 layers into up to 2 layers, fitting or not, both modes", shards=(1, 2)),
            J("n09_bad_tail", "files of up to 2 good layers and one of six bad ones into up to 2 layers, both modes"),
            J("n09_damaged", "a good layer and one with any entry truncated or any byte damaged, into up to 2 layers, both modes", shards=(8, 8)),
            J("n09_faults", "one fault at any of the first six file operations of loading")],
    "N10": [J("n10_network", "up to two faults (error, interruption, partial or zero transfer) at the first six file operations of saving or loading, with or without an older file", shards=(1, 2)),
            J("n10_tensor", "up to two faults at the first six file operations of saving or loading, with or without an older file"),
            J("n10_missing", "absent files and directories, empty names"),
            J("n10_large", "one fault at any of the first ten file operations of saving or loading a file of 18 KiB", shards=(4, 4))],
    "N11": [J("n11_saving", "four chains of up to 3 (4) layers, both modes, before and after an inference, one or two saves, well, into an absent directory or with an error at one of the first three file operations"),
            J("n11_again", "four chains of 3 layers, both modes, with or without an inference, a backward pass and a mode switch between two saves"),
            J("n11_failed", "four chains of 2 layers, both modes, two saves with an error at one of the first three (six) file operations or into an absent directory, over an older file or none, then a save that succeeds")],
    "N12": [J("n12_apart", "four chains of 2 layers beside a chain of the same shapes with other parameters or of other shapes, both modes, six sequences of up to 6 calls"),
            J("n12_layers", "one layer of every kind beside another of the same or larger shapes, both modes"),
            J("n12_files", "two chains of up to 2 layers each, six saves and loads of one or two files by turns, both modes"),
            J("n12_alike", "four chains of up to 2 layers beside the same with negated, reversed or partly different parameters, with the same or a resembling image, both modes"),
            J("n12_definition", "two small dense or convolutional layers with negated, reversed, partly different or unrelated parameters used by turns, every pair of modes, elements integers in [-3,3]"),
            J("n12_products", "every product of two matrices of up to 2x2 three times with operands that resemble each other (scaled, negated, reversed, partly different or unrelated), integers in [-3,3]", canon=True),
            J("n12_convolutions", "every form of convolution of up to 3 elements three times with images, kernels or gradients that resemble each other, integers in [-3,3]", canon=True),
            J("n12_pools", "both poolings of up to 3 elements three times with images that resemble each other, integers in [-3,3]"),
            J("n12_softmaxes", "softmax of 2 elements three times with inputs that resemble each other, integers in [-3,3], exponential by its real contract", shards=(2, 2)),
            J("n12_sizes", "two convolutional or pooling layers of eight sizes that share image, window or stride, both modes, built one after the other or by turns", canon=True, shards=(4, 4)),
            J("n12_stems", "two networks in files of any two of nine similar names")],
    "T18": [J("t18_gaussian", "one or two tensors of up to 2x2x2, three (eight) lists of random words that need no rejection, all finite means and deviations"),
            J("t18_fixed", "2x2x1, seven pairs of mean and deviation including 0, negative and denormal ones"),
            J("t18_long", "seven shapes of up to 514 elements, all finite means and deviations")],
}
NA = {}
