NOT_APPLICABLE = []
T_MODEL = "property-based testing against a reference model, coverage-guided mutation, shrinking"
T_STATE = "stateful property-based testing against a model of the history, shrinking"
T_META = "property-based testing of metamorphic relations, shrinking"
T_FAULT = "fault enumeration over generated calls, with a differential oracle, shrinking"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, note, technique=T_MODEL):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=note, technique=technique))


p("C01", "A created tensor is exactly what its description says until it is destroyed",
  "A tensor created from a data type, device, shape and optional buffer reports exactly that description through every "
  "accessor and through resolve, uses the buffer it was given (or a writable one of its own of the full size), and keeps its "
  "own copy of the shape. Creating, writing and destroying other tensors changes neither its description nor its data. "
  "Destroying it releases everything it held, the adopted buffer included, and clears the handle; destroying a null handle succeeds.",
  ["inputs", "histories"],
  "All 10 types, 0-20 dimensions with zero extents, with and without buffer, any device; histories of creations, writes and "
  "destructions of up to 6 live tensors, and crowds of up to 4000; single tensors of up to 2^46 bytes.",
  "The tests create a handful of small tensors one at a time; they cannot reach interleaved lifetimes, tensors of more than 2^31 "
  "elements or bytes, or see memory that is not released.",
  ["src/core/tensor.c", "src/core/tensor.h", "src/core/shape.c", "src/core/storage.c"],
  [("aitisa_create, aitisa_destroy, aitisa_resolve", "src/core/tensor.c"), ("storage and shape constructors", "src/core/storage.c, src/core/shape.c")],
  ["tensor accessors", "aitisa_resolve", "allocator hooks"],
  "Oracle: a model of the live tensors; huge tensors are backed by address space only.", T_STATE)

p("C02", "Descriptions that no tensor can have are rejected without side effects",
  "Creating a tensor with an unknown data type is reported as not supported, and one with a negative number of dimensions, a "
  "negative extent, a byte count that does not fit in 63 bits or a buffer whose length is not the tensor's byte count as an invalid argument. "
  "The output handle stays as it was, nothing stays allocated, and the caller keeps its untouched buffer. Filled tensors are rejected for the same descriptions.",
  ["inputs"], "Valid descriptions (10 types, 0-8 dimensions) with one thing made wrong, at random positions, with boundary and overflowing values.",
  "The tests only create valid tensors; overflow and off-by-one lengths need chosen extremes combined with types and positions.",
  ["src/core/tensor.c", "src/basic/factories.c"],
  [("checks at the start of aitisa_create", "src/core/tensor.c")], ["status", "output handle", "allocator hooks"],
  "Oracle: the exact status, the untouched handle and buffer, and the count of live blocks.")

p("C03", "A filled tensor holds the given value in every element",
  "A tensor made by the fill factory has the given type, device and shape, and every element equals the given value converted to the type, for every value the type can hold.",
  ["inputs"], "10 types, 0-20 dimensions with zero extents, up to 70000 elements, values over the whole range of the type, fractions, infinities, NaN and signed zero.",
  "The tests fill one small shape per type with one small value.",
  ["src/basic/factories.c", "src/core/types.c"], [("fill loop over typed setters", "src/basic/factories.c")], ["tensor data"],
  "Oracle: the C++ conversion of the value.")

p("C04", "Index maps are the row-major bijection between coordinates and positions",
  "For every shape, linear index, offset and coordinates convert into each other as the row-major bijection between the coordinates "
  "inside the shape and the positions 0 to size-1, and every reported stride is the product of the later extents.",
  ["inputs"], "All coordinates of random shapes of 0-20 dimensions and up to 800 elements, and random coordinates of shapes of up to 2^46 bytes.",
  "The tests convert two or three coordinates of one 3-dimensional shape; a wrong stride in one position or a 32-bit product shows only for other ranks and sizes.",
  ["src/basic/index_utils.c"], [("stride and coordinate loops", "src/basic/index_utils.c")], ["results of the index functions"],
  "Oracle: independent row-major arithmetic; small shapes are enumerated completely.")

p("C05", "Typed access reads and writes exactly one element of the right type",
  "Reading, writing or converting a double into an element by the typed access functions or by set-item touches exactly the bytes "
  "of that element, preserves its bit pattern (conversions truncate toward zero), and leaves every other byte and the source unchanged.",
  ["inputs", "histories"], "Random sequences of up to 12 accesses by pointer, by index and by set-item, for the 10 types, any bit pattern, indices over the whole tensor.",
  "The tests read back a few values of some types; a wrong element size or table entry shows only for particular type, index and bit pattern.",
  ["src/core/types.c", "src/core/types.h", "src/core/tensor.h"], [("tables of typed functions", "src/core/types.c"), ("set-item", "src/core/tensor.h")],
  ["tensor bytes", "guard bytes around the value"], "Oracle: a byte mirror of the tensor.", T_STATE)

p("C06", "Type conversion preserves every value the target type can represent",
  "Converting a tensor to another type keeps shape and device and converts each element as a C conversion does: exactly when the target "
  "holds the value, rounded once or truncated toward zero otherwise, and modulo the range between integer types. The input is unchanged, and converting to "
  "the same type succeeds without producing a tensor.",
  ["inputs"], "All 100 pairs of types, 0-20 dimensions, integers over the whole range, floating-point values within the target's range, infinities and NaN between float types.",
  "The tests convert a few small values for a few pairs; the 90 conversions each have their own code.",
  ["src/basic/cast.c"], [("per-pair conversion kernels", "src/basic/cast.c")], ["output tensor"],
  "Oracle: 128-bit integer and long double arithmetic.")

p("C07", "A slice contains exactly the selected elements, in order",
  "Slicing takes, along every dimension, the positions begin, begin+step, ... below begin+size, in order, and drops the dimensions of which nothing is selected. "
  "A range that is not inside the tensor, or a step below 1, is rejected as an invalid argument and leaves the output handle unset. The input and the argument arrays are unchanged and the output shares no memory with the input.",
  ["inputs"], "10 types, 0-6 dimensions, tensors of up to 80000 elements, begin, size and step over and around the valid range and at the limits of int.",
  "The tests take a few fixed slices; the combinations of rank, begin, size and step that go wrong are particular.",
  ["src/basic/slice.c"], [("range check and recursive copy", "src/basic/slice.c")], ["output tensor", "status"],
  "Oracle: independent coordinate arithmetic.")

p("C08", "A duplicate is equal to and independent of its original",
  "Duplicating a tensor, with or without elements, gives a tensor of the same type, device, shape and bytes. Overwriting or destroying either of them never affects the other.",
  ["inputs", "histories"], "10 types, 0-20 dimensions, extents of 0, up to 80000 elements, any bit pattern; chains of duplicates overwritten and destroyed in any order.",
  "The tests duplicate one small tensor and look at it once.",
  ["src/basic/duplicate.c"], [("copy", "src/basic/duplicate.c")], ["tensor data"], "Oracle: a model of the copies.", T_STATE)

p("C09", "Reshaping keeps every element and rejects shapes of another size",
  "Reshaping to a shape with the same number of elements gives a new tensor of that shape with the same type, device and elements in the same order, and reshaping back gives the original. "
  "A shape with another number of elements or with a negative extent is rejected and leaves the output handle unset. The input is unchanged and shares no memory with the output.",
  ["inputs"], "10 types, 0-20 dimensions, zero extents, up to 80000 elements; random re-factorisations, other sizes, negative extents with a matching product, and extreme extents.",
  "The tests reshape one tensor to one shape.",
  ["src/basic/reshape.c"], [("size check and copy", "src/basic/reshape.c")], ["output tensor", "status"], "Oracle: the same bytes under the new shape.")

p("C10", "Squeezing removes exactly the selected dimensions of extent 1",
  "Squeezing removes the dimensions of extent 1 that are listed (all of them when the list is empty), in whatever order or multiplicity they are listed, and keeps type, device, and elements in order. "
  "A negative count or an axis the tensor does not have is rejected as an invalid argument. The input and the list are unchanged and the output shares no memory with the input.",
  ["inputs"], "10 types, 0-20 dimensions, zero extents, axis lists that are empty, partial, repeated, unordered or out of range.",
  "The tests squeeze one tensor with one list.",
  ["src/basic/squeeze.c"], [("axis check and dimension filter", "src/basic/squeeze.c")], ["output tensor", "status"], "Oracle: independent filtering of the shape.")

p("C11", "The broadcast shape follows the right-aligned broadcasting rule",
  "Broadcasting two shapes aligns them at the last dimension, treats missing extents as 1, gives the other extent where one is 1, and reports a dimension mismatch where they differ otherwise. "
  "The result is written right-aligned into the output without touching anything else, does not depend on the order of the inputs, and the inputs are unchanged.",
  ["inputs"], "Pairs of shapes of 0-20 dimensions with extents 0, 1 and up to 2^63-1, related and unrelated, and output arrays of the needed length or longer.",
  "The tests broadcast a few pairs of similar rank.",
  ["src/basic/broadcast.c"], [("broadcast loop", "src/basic/broadcast.c")], ["output extents", "status"], "Oracle: an independent implementation of the rule.")

p("C12", "Element-wise arithmetic computes every element in the operand type",
  "Adding, subtracting, multiplying and dividing two tensors of one type and shape gives in each position the result of the operation in that type: IEEE for floating point, modulo the range for unsigned, 8- and 16-bit integers, "
  "exact for other integers when it fits, and the quotient truncated toward zero. The operands, also when they are the same tensor, are unchanged and share no memory with the output.",
  ["inputs"], "10 types, 4 operations, 0-20 dimensions, zero extents, up to 70000 elements, small, extreme and arbitrary values.",
  "The tests use one small shape with small values for some of the types; each type and operation has its own kernel.",
  ["src/math/binary_op.c", "src/math/binary_op.h"], [("per-type kernels", "src/math/binary_op.c")], ["output tensor"],
  "Oracle: 128-bit integer arithmetic and IEEE arithmetic of the compiler.")

p("C13", "Undefined integer quotients are reported, floating-point ones follow IEEE",
  "An integer division in which any position divides by zero, or (32 and 64 bits) the smallest value by -1, reports a math error, sets no output and leaves nothing allocated, wherever in the tensor it occurs. "
  "A floating-point division by zero gives the IEEE infinities and NaN, and one with infinite, NaN or subnormal operands the IEEE result.",
  ["inputs"], "8 integer and 2 floating-point types, up to 70000 elements, the offending position anywhere.",
  "No existing test divides by zero.", ["src/math/binary_op.c"], [("check before the division", "src/math/binary_op.c")], ["status", "output tensor"],
  "Oracle: the exact status, and IEEE results.")

p("C14", "Element-wise operations reject operands that do not match",
  "Adding, subtracting, multiplying or dividing tensors of different types, of different shapes (also when the sizes agree or the shapes could be broadcast), or on another device than the CPU fails with the status of that fault. "
  "It sets no output, leaves nothing allocated and changes neither operand.",
  ["inputs"], "All pairs of types, shapes of 0-20 dimensions related by permutation, padding, truncation or a changed extent, either operand on a device.",
  "The tests reject one or two fixed pairs.", ["src/math/binary_op.c"], [("operand checks", "src/math/binary_op.c")], ["status", "output handle", "allocator hooks"],
  "Oracle: the exact status for single faults, any failure for several at once.")

p("C15", "Matrix multiplication computes the broadcast matrix product",
  "Multiplying tensors of one type with one or more dimensions gives the matrix product over the last two dimensions, where a one-dimensional operand is a row or a column that is dropped again and the leading dimensions are broadcast; the product of two vectors has one element. "
  "Integers are exact modulo the range of the type and floats within the rounding error of the sum. The operands are unchanged.",
  ["inputs"], "10 types, every combination of 1-6 dimensions, now and then up to 12, extents up to 40, now and then 70000, zero extents, vectors of thousands of elements, broadcast on either or both sides.",
  "The tests multiply a few float tensors of fixed shapes with small values.", ["src/math/matmul.c", "src/basic/broadcast.c"],
  [("per-rank kernels and batch offsets", "src/math/matmul.c")], ["output tensor"], "Oracle: exact modular integers, or long double sums with a rounding bound.")

p("C16", "Matrix multiplication rejects operands that cannot be multiplied",
  "Multiplying by a scalar, tensors whose contracted or leading extents do not match, tensors of different types, or tensors on another device fails with the status of that fault, sets no output, leaves nothing allocated and changes neither operand.",
  ["inputs"], "10 types, 0-5 dimensions, one fault at a random dimension, zero extents included.",
  "The tests reject one or two fixed pairs.", ["src/math/matmul.c"], [("operand checks", "src/math/matmul.c")], ["status", "output handle", "allocator hooks"],
  "Oracle: the exact status.")

p("C17", "The dot product contracts the documented dimensions",
  "The dot product of two vectors, two matrices, a scalar and a tensor, a tensor and a vector, or two tensors of three or more dimensions is the sum of products over the last dimension of the first and the last (vector) or second to last dimension of the second operand. "
  "Integers are exact modulo the range of the type and floats within the rounding error of the sum. Other combinations, types that differ and other devices are rejected without an output.",
  ["inputs"], "10 types, 0-6 dimensions, zero extents, all the listed combinations and others.",
  "The tests compute a few float products of fixed shapes.", ["src/math/dot.c"], [("cases by rank", "src/math/dot.c")], ["output tensor", "status"],
  "Oracle: exact modular integers, or long double sums with a rounding bound.")

p("C18", "Matrix and dot products satisfy their algebraic laws",
  "For tensors whose sums are exact, the identity matrix is neutral, the product is associative and distributive, scaling commutes with it, dot and matmul agree where both are defined, a batched product is the product of each of its matrices, and splitting the contracted dimension and adding gives the same result.",
  ["inputs"], "10 types, small integers, extents of up to 90 per dimension.",
  "The tests compare single products with constants.", ["src/math/matmul.c", "src/math/dot.c", "src/math/binary_op.c"], [("kernels", "src/math/matmul.c, src/math/dot.c")], ["output tensors"],
  "No reference model: relations between calls of the library.", T_META)

p("C19", "Square roots are correct to the last place and negative inputs are reported",
  "The square root of a tensor has its type, device and shape, and each element is the square root within one rounding (truncated for integers, within 1 where the value exceeds 2^52). "
  "If any element is negative the call reports a math error, sets no output and leaves nothing allocated. The input is unchanged.",
  ["inputs"], "10 types, 0-20 dimensions, zero extents, up to 70000 elements, the whole range of values, the negative element anywhere.",
  "The tests take roots of a few small positive values of one type.", ["src/math/sqrt.c"], [("per-type kernels", "src/math/sqrt.c")], ["output tensor", "status"],
  "Oracle: long double and integer square roots.")

p("C20", "Relu, sigmoid and tanh compute their functions over the whole range",
  "Relu (all types), sigmoid and tanh (float and double) give a tensor of the same type, device and shape whose elements are max(x,0), 1/(1+exp(-x)) and tanh(x) within a few rounding errors, also for huge arguments and infinities, where no overflow turns the result into NaN; sigmoid stays in [0,1] and tanh in [-1,1]. "
  "Sigmoid and tanh of integers are not supported. The input is unchanged and shares no memory with the output.",
  ["inputs"], "10 types, 0-20 dimensions, zero extents, up to 70000 elements, arbitrary finite values, infinities and (sigmoid, tanh) NaN.",
  "The tests evaluate a few small values.", ["src/nn/relu.c", "src/nn/sigmoid.c", "src/nn/tanh.c"], [("per-type kernels", "src/nn/relu.c, src/nn/sigmoid.c, src/nn/tanh.c")],
  ["output tensor"], "Oracle: long double functions with a relative bound of 16 roundings (and 1e-15 absolute for tanh).")

p("C21", "Softmax gives a probability distribution along the chosen axis",
  "Softmax of a float or double tensor of finite values gives, along the chosen axis (all elements for -1), the exponentials divided by their sum within the rounding error: values in [0,1] that add up to 1, for any magnitude of the input. "
  "An axis the tensor does not have is rejected without an output. The input is unchanged and shares no memory with the output.",
  ["inputs"], "float and double, 0-20 dimensions, zero extents, up to 20000 elements, values of any magnitude, every axis.",
  "The tests evaluate one or two shapes with small values.", ["src/nn/softmax.c"], [("per-axis loop", "src/nn/softmax.c")], ["output tensor"],
  "Oracle: long double exponentials relative to the maximum.")

p("C22", "Convolution computes the documented sum of products",
  "The convolution of a float input with a filter gives in each output position the sum, over the channels of its group and the cells of its window that lie on the input, of input times filter, for any strides, zero padding, dilations and number of groups; the output shape is [batch, output channels, (in+2*padding-dilation*(k-1)-1)/stride+1 ...]. "
  "The general, 2-d and 3-d entry points agree on this, and input, filter and parameter arrays are unchanged.",
  ["inputs"], "1-4 spatial dimensions, windows 1-5 (and of up to 70000 cells), strides 1-40, padding 0-9, dilation 1-4 independently per dimension, 1-4 groups, empty batches and channels.",
  "The tests compute three or four fixed convolutions with equal parameters per dimension and one group.", ["src/nn/conv.c", "src/nn/conv.h"],
  [("convolution loop", "src/nn/conv.c")], ["output tensor"], "Oracle: a direct sum in long double with a rounding bound.")

p("C23", "Convolution is linear, local and independent across groups and samples",
  "For values whose sums are exact: convolution is linear in input and filter; padding equals an explicit border of zeros, dilation a filter spread with zeros, a stride every n-th element of stride 1; each group, sample and output channel is the convolution of its own part; "
  "a dimension of extent 1 adds nothing; and a 1x1 convolution is the matrix product over channels.",
  ["inputs"], "Random convolutions as for the values, with small integers.",
  "The tests compare single convolutions with constants.", ["src/nn/conv.c"], [("convolution loop", "src/nn/conv.c")], ["output tensors"],
  "No reference model: relations between calls of the library.", T_META)

p("C24", "Malformed convolutions and poolings are rejected without side effects",
  "A convolution or pooling with a wrong rank, mismatching types or channels, channels not divisible by the groups, a stride, dilation, window or group count below 1, negative padding, a window that exceeds the padded input (computed without overflow), an unknown pooling mode, or (2-d and 3-d convolution) parameter arrays of another length fails with an error status. "
  "It sets no output, leaves nothing allocated, reads nothing outside its arguments and changes none of them.",
  ["inputs"], "Random valid calls with one or several faults at random positions, off by one and at the limits of int.",
  "The tests contain no malformed call of either.", ["src/nn/conv.c", "src/nn/pooling.c"], [("parameter checks", "src/nn/conv.c, src/nn/pooling.c")],
  ["status", "output handle", "allocator hooks"], "Oracle: the exact status for single faults, any failure for several at once.")

p("C25", "Pooling gives the maximum or average of every window",
  "Pooling a tensor of 3 to 5 dimensions gives for each window the maximum, or the sum divided by the number of cells of the window (truncated for integers), where cells on the padding count as zero, for any window, stride, padding and dilation per dimension; the output shape is the one of a convolution with that window. "
  "Elements of all types are exact for maxima up to 2^53 in magnitude, and averages are within rounding error. The input and the parameter arrays are unchanged.",
  ["inputs"], "10 types, 1-3 spatial dimensions, windows 1-5 (and of up to 70000 cells), strides 1-40, padding 0-9, dilation 1-4 independently per dimension, all-negative inputs.",
  "The tests pool two fixed inputs with equal parameters per dimension.", ["src/nn/pooling.c"], [("window loop", "src/nn/pooling.c")], ["output tensor"],
  "Oracle: a direct model, and relations (explicit padding, stride, convolution with ones).")

p("C26", "Batch normalisation applies each channel's parameters to that channel",
  "Batch normalisation of a non-empty tensor of 2 to 5 dimensions gives (x-mean)/sqrt(variance+epsilon)*scale+bias with the parameters of the element's channel, the channel axis being the second or the last one, within rounding error (step by step in the type for integers); samples are independent and both layouts agree. "
  "A wrong rank, axis, parameter type or shape, a negative epsilon, or a negative variance plus epsilon in any channel fails with the status of that fault, sets no output and leaves nothing allocated. No input is changed.",
  ["inputs"], "10 types, rank 2-5, both axes, epsilon 0-2, values for which no integer step overflows; single and multiple faults.",
  "The tests normalise a few fixed inputs; the channel of a multi-dimensional element, and failures half-way through the channels, need other shapes.",
  ["src/nn/batch_norm.c"], [("per-sample and per-channel loops", "src/nn/batch_norm.c")], ["output tensor", "status", "allocator hooks"],
  "Oracle: the formula in long double with a rounding bound, and relations.")

p("C27", "Dropout zeroes elements at the given rate and keeps the others",
  "Dropout of a tensor gives a new tensor of the same type, device and shape in which every element is either the original bit pattern or zero: none is zeroed at rate 0, all at rate 1, and otherwise about that share, evenly over the tensor whatever the position. "
  "A rate below 0 or above 1 is rejected as an invalid argument without an output. The input is unchanged.",
  ["inputs"], "10 types, 0-20 dimensions, any bit pattern, rates over [0,1] and outside, any clock time; shares counted over 4000-20000 elements within 0.021 plus 7 standard deviations; of 1-2 million elements, also per block, per residue of 19 periods, and of pairs at 16 distances.",
  "The tests run one tensor once and cannot judge a random result.", ["src/nn/dropout.c"], [("random choice per element", "src/nn/dropout.c")], ["output tensor", "status"],
  "The clock the library seeds its generator from is replaced by a generated one. Shares are judged with bounds that a correct rate exceeds with negligible probability.")

p("C28", "Tensors are independent values throughout any history of calls",
  "In any history of operations that build tensors from each other, write elements and destroy tensors in any order, every live tensor always has the type, device, shape and elements that the call which made it and the later writes to it define. "
  "No operation, write or destruction changes any other tensor, and destroying a tensor never invalidates one that was built from it.",
  ["histories"], "Histories of up to 25 steps over up to 7 live tensors, the 22 operations used on each other's results, every tensor read in full after each step.",
  "Each test makes one call on fresh tensors; shared or overwritten storage shows only when results outlive or precede their operands.",
  ["src/basic", "src/math", "src/nn", "src/core"], [("storage of every operation's output", "src/basic, src/math, src/nn")], ["tensor elements", "accessors"],
  "Oracle: a model of all live tensors, with address sanitizer and guarded blocks.", T_STATE)

p("C29", "Memory comes from the configured allocator and all of it goes back",
  "Every block the library takes, for a tensor or for its own use, comes from the allocator that is configured for the CPU and goes back to that one, exactly once. A successful call leaves behind only its result's blocks and a failed call none; destroying the result returns the count of live blocks to what it was.",
  ["inputs", "histories"], "Sequences of up to 8 random calls of the 22 operations, a third of them invalid, with recording allocators and with the built-in one; two allocators configured in turns between and around the calls.",
  "The tests do not count memory; a leak on one path of one operation changes no result.",
  ["src/core/allocator.c", "src/core/storage.c", "src/basic", "src/math", "src/nn"], [("allocator table", "src/core/allocator.c"), ("release of temporaries", "src/math, src/nn")],
  ["allocator hooks", "malloc hooks"], "Oracle: a conservation law over live blocks and bytes of a recording allocator.", T_STATE)

p("C30", "A failed call has no effect",
  "A call of any operation whose arguments are invalid returns an error status, leaves its output handle as it was, leaves no memory allocated and changes none of its operands or parameter arrays; and only such calls fail: an operation on valid arguments succeeds and sets its output.",
  ["inputs"], "Random calls of the 22 operations with one to three arguments changed to boundary, extreme or mismatching values.",
  "The tests check the status of a handful of failing calls and nothing of what they leave behind.",
  ["src/basic", "src/math", "src/nn", "src/core"], [("argument checks of every operation", "src/basic, src/math, src/nn")], ["status", "output handle", "operands", "allocator hooks"],
  "Oracle: an independent model of validity of every operation.")

p("C31", "No arguments make the library touch memory that is not its own",
  "Whatever tensors and parameters of the right C types an operation is given, valid or not, it neither reads nor writes outside its operands, its parameter arrays and its own allocations, neither divides by zero nor overflows signed arithmetic on shapes and parameters, terminates, and returns a defined status.",
  ["inputs"], "Unrelated operands of any type, shape and bit pattern with parameters from small numbers to the extremes of their type, for the 22 operations, in a sanitized build.",
  "The tests give valid arguments in unsanitized builds, where an access out of bounds is usually silent.",
  ["src/basic", "src/math", "src/nn", "src/core"], [("bounds and parameter checks", "src/basic, src/math, src/nn")], ["address sanitizer", "undefined-behaviour sanitizer", "guarded blocks", "status"],
  "Oracle: sanitizers and guard bytes; coverage-guided mutation. Arithmetic on element values that C leaves undefined (signed 32- and 64-bit overflow) is out of scope.")

p("C32", "Results depend on the arguments only",
  "The same call on equal arguments gives the same status and a bit-identical result, whatever is in fresh memory, in the stack and in the output variable, and whichever calls were made in between (dropout at rates other than 0 and 1 excepted).",
  ["inputs", "histories"], "Random calls of the 22 operations and variations of them, made up to nine times in any order under different noise in heap and stack.",
  "In a test program fresh memory is mostly zero, which hides elements that are never written.",
  ["src/basic", "src/math", "src/nn", "src/core"], [("initialisation of outputs and temporaries", "src/basic, src/math, src/nn")], ["status", "tensor bytes"],
  "No model of the operations: a call is compared with itself.", T_META)

p("C33", "Calls on different threads do not disturb each other",
  "When several threads call operations other than dropout, or the typed access, index, broadcast, inspection, shape and storage functions, at the same time, on tensors of their own and on tensors they all only read, every call gives the status and the bits it gives alone, and no two threads race for the same memory.",
  ["schedules", "inputs"], "2-4 threads with up to 6 calls each, repeated, on private and shared operands, under a thread sanitizer and in optimised builds; pairs of calls of which one is held at chosen allocations and releases while the other runs; 2-3 threads that use the functions below the operations.",
  "All tests are single-threaded.", ["src/basic", "src/math", "src/nn", "src/core"], [("absence of hidden shared state", "src")], ["status", "tensor bytes", "thread sanitizer"],
  "Oracle: the single-threaded results, and the thread sanitizer's happens-before analysis. The interleavings at allocations are generated; inside a computation schedules are those the operating system gives, where a race is found by analysis rather than by its effect.",
  "property-based testing over generated concurrent programs, with a differential oracle and a race detector")

p("C34", "Every allocation failure is reported and undone",
  "When the allocator refuses any one of the allocations of a call, or all from some point on, the call returns an error status, leaves its output handle as it was, frees everything it had allocated and changes no operand (a creation leaves the buffer with the caller). The same call succeeds as usual when memory is available again.",
  ["fault_sequences", "inputs"], "Every allocation of random calls of the 22 operations refused in turn, singly and from there on; and faults in the middle of histories.",
  "The tests run with memory to spare; the failure paths are never executed.",
  ["src/basic", "src/math", "src/nn", "src/core"], [("checks of allocations and cleanup paths", "src/basic, src/math, src/nn, src/core")], ["status", "output handle", "allocator hooks"],
  "Oracle: the count of live blocks, and the result of the same call without a fault. Allocations that do not go through the configured allocator cannot be refused.", T_FAULT)

p("C35", "Every result has the type, shape and device its operation defines",
  "The result of every operation has the data type, element size, shape, number of elements and device that the operation defines for its operands' types, shapes and devices, and storage of its own that overlaps no operand and is big enough for its elements.",
  ["inputs"], "Random valid calls of the 22 operations, 10 types, up to 20 dimensions, zero extents and other devices.",
  "The tests look at the shape and type of a few results and never at devices or storage.",
  ["src/basic", "src/math", "src/nn"], [("construction of every operation's output", "src/basic, src/math, src/nn")], ["accessors", "aitisa_resolve"],
  "Oracle: an independent shape and type calculus.")

p("C36", "The auto-test fillers and handles keep their contents and own their buffers",
  "The auto-test fillers write exactly the whole elements that fit into a buffer: 1, 2, 3, ... (0.1, 0.2, ... for floats), or values that are the same on every run and stay in range; numbers and types convert into each other. "
  "Inputs, results and samples keep their description and data through copies, moves and assignments, share buffers with their copies, and free them with the last owner and not before.",
  ["inputs", "histories"], "Buffers of 0 to 66000 elements of every type between guard bytes; histories of up to 30 steps over up to 8 handles that are made, copied, moved, assigned, changed and destroyed.",
  "No test uses the auto-test framework.", ["auto_test/basic.cpp", "auto_test/basic.h", "auto_test/sample.cpp", "auto_test/sample.h"],
  [("natural_assign, random_assign", "auto_test/basic.cpp"), ("reference counts", "auto_test/sample.cpp, auto_test/sample.h")], ["buffers", "accessors", "address sanitizer"],
  "Oracle: a model of owners; a buffer counts as freed when the address sanitizer has poisoned it. Steps that hit a known defect of the handles are not generated (see DESIGN.md).", T_STATE)

p("C37", "The conformance suites pass conforming implementations and report all others",
  "A conformance suite gives the library and the implementation under test the same operation on the same operands, for each of its samples. It passes when every answer has the library's type, shape, length, the expected device, and elements within the suite's tolerance (equal for integers), and reports a failure when any answer deviates in any of these, in any element.",
  ["inputs"], "An implementation that answers as the library does, or with one deviation anywhere in one answer of one of the 16 samples of the four suites.",
  "No test runs the suites, and a suite that compares too little passes everything.",
  ["auto_test/test_code/binary_op_test.h", "auto_test/test_code/matmul_test.h", "auto_test/test_code/conv_test.h", "auto_test/test_code/activation_test.h", "auto_test/basic.h"],
  [("comparisons of each suite", "auto_test/test_code")], ["verdict of the test run", "operands given to the implementation"],
  "Oracle: the planted deviation. The big matrix product and the convolutions are replaced by stand-ins, since only the comparison is judged.",
  "property-based mutation testing of the suites: generated deviations must be reported, shrinking")

p("C38", "Operations handle tensors of more than 2^31 elements",
  "Filling, casting, duplicating, reshaping, squeezing and slicing a tensor of more than 2^31 elements, element-wise arithmetic, square root and the activation functions, softmax, dropout at rates 0 and 1, dot products of vectors and with scalars, matrix products, and pooling give every element of the result its value, the ones past the position 2^31 too; a zero divisor or a negative element past it is found.",
  ["inputs"], "One call per case on 1-4 dimensions of 2^31 to 2^32+3000 elements, of one byte each (4 for sigmoid, tanh and softmax), with up to 40 elements at random and critical positions that differ from the others; matrix products with a vector or a column; pooling with windows of one element (thorough tier).",
  "The tests use tensors of at most a few thousand elements; a counter, a product of indices or a size of 32 bits goes unnoticed there.",
  ["src/basic", "src/math", "src/nn"], [("element loops and index arithmetic", "src/basic, src/math, src/nn")], ["output tensor", "status"],
  "Oracle: all elements are the same but for the chosen ones, and every element is compared (a sample of 2 million for softmax). Operands are sparse zero pages, so that a case takes 2-8 GB.")

p("C39", "The parts of a tensor are what they were made from",
  "A storage made directly holds the given type, device and number of elements, and the given buffer or a writable one of its own of the full size; a shape made directly holds its own copy of the extents and a dense layout. "
  "Destroying either returns all its memory and clears it, and destroying a null storage succeeds. A sparse layout is refused with NOT_SUPPORTED; refusals and failed allocations leave nothing allocated and the given buffer with the caller. "
  "The number of elements of a shape, and of the dimensions from, before, and strictly between given ones, are the products of exactly those extents. "
  "The element function of a binary operation and type writes exactly one element, the result in that type.",
  ["inputs", "histories", "fault_sequences"], "All 10 types, any device, 0-20 dimensions with zero extents and extents beyond 2^31; buffers given or not, with allocations refused; every operation and type on random and extreme elements.",
  "The tests use these functions through tensors only, on small shapes with memory to spare.",
  ["src/core/storage.c", "src/core/shape.c", "src/core/utils.h", "src/math/binary_op.c"],
  [("aitisa_create_storage, aitisa_destroy_storage", "src/core/storage.c"), ("aitisa_create_shape, aitisa_destroy_shape", "src/core/shape.c"), ("products of extents", "src/core/utils.h"), ("aitisa_binary_op_func", "src/math/binary_op.c")],
  ["members", "status", "allocator hooks", "written bytes"],
  "Oracle: the arguments, __int128 products, and the scalar model of arithmetic. Undefined integer quotients and signed overflow of 32 and 64 bits are out of scope.", T_STATE)

p("C40", "Selection by data type, logging and status checks do exactly what they announce",
  "Selecting code by a data type runs it exactly once, for the C type that the type code names and with the given arguments; the floating forms accept float and double only. "
  "For any other code nothing runs: the returning forms return NOT_SUPPORTED, the aborting forms end the process by abort with a message on the standard error output. "
  "An ERROR message goes to the standard error output and aborts; WARNING and INFO messages go to the standard output and the program continues; every message names its level and file and holds its text unchanged. "
  "A check of a condition evaluates it once and aborts, naming it, exactly if it is false. A status check evaluates its call once and returns its status exactly if it is not SUCCESS.",
  ["inputs", "histories"], "The four forms for every known code and unknown codes of either sign, with 0 to 2 arguments, up to 8 in a row; messages of up to 300 characters with format directives; conditions and sequences of statuses.",
  "The tests reach these macros through successful operations only; the aborting forms, the messages and unknown codes are never executed.",
  ["src/core/dispatch.h", "src/core/log.h", "src/core/status.h"],
  [("AITISA_DISPATCH_*", "src/core/dispatch.h"), ("AITISA_LOG, AITISA_CHECK", "src/core/log.h"), ("CHECK_STATUS", "src/core/status.h")],
  ["which code ran", "standard output and error output", "how the process ended"],
  "Oracle: the C++ type of the kernel, and the arguments. What may abort runs in a process of its own.", T_STATE)
