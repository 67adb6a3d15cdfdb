MN, CI = 'source/parser/mnist.hpp', 'source/parser/cifar.hpp'
TY = 'source/parser/type_checker.hpp'
CV = 'source/parser/csv.hpp'
prop('C01', 'CSV random access returns the row of the file', 'For a readable CSV file of n >= 1 lines, every separator, and any history of earlier accesses, constructing a CSV reports n rows, as many columns as the header line has separators plus one, header() = line 0, and one resolved type per column (the given types when complete, otherwise the types of the fields of the second line); operator[](i) returns the row whose line, index, column count, types and separator are those of line i mod n, entry(i) its values converted to numbers for line (i+1) mod n, and neither changes what a later access returns. entries_amount is n-1, feature_size the column count, labels_idx the given columns; a missing file is rejected with runtime_error.',
  ['inputs', 'histories'], 'every file, separator, type list, index and sequence of earlier accesses', 'tests read two fixed sample files at a few indices; the one-row cache, circular indexing, missing final newline and one-line files are not sampled', [CV], [('CSV constructor, operator[], entry, header, types, sizes', CV)], note='Proof over all files (any number of lines and fields) and any cached row, relative to a line/field contract on std::getline, ignore, seekg and clear; type and number of a field text are named functions decided by C04.', state=[('_row_cache', 'row returned by the last access, reused when the same index is asked again', CV)], observe=['CSV::operator[]', 'CSV::entry', 'CSV::header', 'CSV::types', 'CSV::rows_size', 'CSV::cols_size'])
prop('C02', 'CSV rows and file views split every line into exactly its fields', 'For every line, separator and column count, a CSVRow as a list of texts, numbers or fields has one element per column, element j being the text between separators j-1 and j (empty when the line has fewer fields), converted to the requested type; operator[](j) returns that field with its index and type exactly when j is below the column count and the line has more than j fields (also when it is empty and last), and throws runtime_error otherwise. A type list that is empty, of another length or containing AUTO is replaced by the types of the fields, any other is kept. Row assignment copies line, index, columns, separator and types; rows compare by line. A CSV as lines, rows, matrix or flat vector holds row i and column j of the file at exactly that place.',
  ['inputs'], 'every line, separator, column count, type list and file', 'tests split a handful of rows; empty last fields, short rows, one-column files and other separators combine without bound', [CV], [('CSVRow and CSVField constructors, operator[], conversions, comparison, assignment', CV), ('CSV conversions to lines, rows, matrix and flat vector', CV)], note='Proof for all lines and files; a line cut at the separator is its count+1 fields (contract on std::getline).')
prop('C03', 'CSV iterators visit every data row once and dereference to the requested row', 'After any sequence of increments, decrements (pre and post form), copies and dereferences that stays between line 0 and the end, dereferencing a CSVIterator (* or ->) at a line of the file returns exactly that line with its index, columns, types and separator, leaving the position and the column types alone; a copy starts at the same position and moves independently; iterators compare equal exactly when they are at the same line. begin() is at the line after the header and end() past the last line, so a range-for visits lines 1..n-1 once each, in order.',
  ['inputs', 'histories'], 'every file and every history of moves and dereferences', 'tests walk one sample file forwards; moving backwards after reading, jumping several lines and re-reading depend on the hidden stream position', [CV], [('CSVIterator', CV), ('CSV::begin / end', CV)], note='Proof: a representation invariant linking the stream position to the row last read is established by the constructors and preserved by every operation.', state=[('_stream, _row', 'file position and row last read, behind the requested row index', CV)], observe=['CSVIterator::operator*', 'CSVIterator::operator->', 'CSVIterator::operator=='])
prop('C04', 'Every text has exactly the type its grammar says', 'For every text, TypeChecker::parse (and operator(), is_int, is_float, is_bool, is_string) classifies it as NONE when empty, BOOL when it is true or false, INT when it is an optional sign and a decimal integer without leading zeros, FLOAT when it is any other decimal number (optional sign, digits with an optional point followed by digits, optional exponent) and STRING otherwise; a list of texts is classified position by position, and two type lists compare equal exactly when they have the same length and the same type at each place. Conversion to bool is true exactly for "true" and "1", conversion to string is the text itself, bool converts to "true" or "false", and a number text converts to the number it denotes.',
  ['inputs'], 'every text of every length', 'tests classify some thirty texts; signs, exponents, leading zeros and quoted text combine without bound', [TY], [('TypeChecker::parse, is_*, operator(), operator== / != of type lists, convert', TY)], note='Proof over all texts: the regular expressions are read from the source and their languages compared with an independently written grammar; numeric conversions (formatted streams) by the bounded replay only.')
prop('C06', 'MNIST random access returns the stored record', 'For a well-formed pair of MNIST files announcing n >= 1 records and any history of earlier reads (including reads that failed because the file is shorter than announced), the image, label, item and entry read at index i are exactly the 784 pixel bytes and the label byte of record i mod n, the reported index is i mod n, and entry(i) lists the pixels in file order followed by the label. The reported size, geometry, feature count and label column never depend on what was read before.',
  ['inputs', 'histories'], 'every well-formed file pair, every index, every sequence of earlier reads', 'tests read a few fixed indices of one sample file in one order; the seek arithmetic and the stream state after failures are only exercised there', [MN], [('Mnist::image / label / operator[] / entry', MN), ('MnistImage / MnistLabel constructors', MN)],
  note='Proof over all files, indices and stream states (arbitrary position, eof and fail flags), relative to the assumed std::ifstream contract; records are assumed present in the file for content claims.', state=[('_imgs_ifs, _labels_ifs', 'input streams whose position and flags persist between reads', MN)], observe=['Mnist::image', 'Mnist::label', 'Mnist::operator[]', 'Mnist::entry'])
prop('C07', 'MNIST files are accepted exactly when their headers are consistent', 'Opening an image/label file pair succeeds if and only if both files exist and hold complete headers, the image magic is 0x803 and the label magic 0x801 (big endian), the two record counts are equal and the image geometry is 28 by 28; otherwise a runtime_error is thrown. When accepted, the size is the big-endian record count.',
  ['inputs'], 'every pair of byte strings as file contents, and missing files', 'tests open one valid pair; no malformed, truncated, byte-swapped or swapped headers', [MN], [('Mnist constructor header checks', MN), ('read_uint32_endian_order', MN)], note='Proof over all file contents, relative to the assumed std::ifstream contract (little-endian host).')
prop('C08', 'CIFAR random access returns the stored record and labels', 'For a CIFAR-10 or CIFAR-100 batch file, any index i and any history of earlier reads, image, label, item and entry at i return the 3072 image bytes and the label byte(s) of record i mod 10000 (record = 1 or 2 label bytes then 3072 image bytes); entry ends with the class label (the fine label for CIFAR-100); a dataset opened as CIFAR-100 without a fine-label file is read as CIFAR-10. Size, shape, feature count and label column are constant, and the label names are the non-empty lines of the label files.',
  ['inputs', 'histories'], 'every batch file content, dataset kind, order, index and sequence of earlier reads', 'tests read a few fixed indices of one sample file', [CI], [('Cifar constructor, image, label, operator[], entry', CI)], note='Proof over all files, indices and stream states relative to the assumed std::ifstream contract; label names are checked by the bounded replay only.')
prop('C09', 'CIFAR channel interleaving is the exact permutation', 'With row-column-channel order, value 3*p+c of any image (and of the entry built from it) is the byte of pixel p in stored plane c; with channel-row-column order the values are the stored planar bytes unchanged; the reported shape matches the order. No value is lost, duplicated or read out of bounds, for every image content.',
  ['inputs', 'configurations'], 'every image content and both orders', 'tests compare a few pixels of one image', [CI], [('CifarImage::data', CI), ('Cifar::shape', CI)], note='Proof for all contents: the loops\' invariants are inferred and checked inductively.')
prop('C10', 'Images render to text inside the ink table, two characters per pixel', 'Converting any MNIST or CIFAR image to text yields a newline, one line per image row with exactly two identical characters per pixel and a final newline; the character for luminance g (0..255) is entry floor(g*L/256) of the fixed ink table of L characters, so no value ever indexes outside it; CIFAR luminance is the truncated 0.21/0.72/0.07 weighted sum of that pixel\'s red, green and blue bytes.',
  ['inputs'], 'every image content', 'tests only print images; none looks at the text or at extreme luminances', [MN, CI], [('MnistImage / CifarImage text conversion', MN), ('perception_brightness', CI)], note='Proof for all contents; binary64 products are bounded by the standard relative error, so the truncated luminance may be one below the exact truncation.')
DL = 'source/dnn/dlmath.hpp'
prop('C21', 'Elementwise kernels compute their formula for every length, in place too', 'For any array length and contents, every elementwise routine of DLMath (array product and sum with an array or a scalar; relu, elu, tanh, sigmoid and their derivatives) writes exactly its scalar formula at each position 0..length-1 and nothing else, returns the destination pointer, and gives the same result when the destination is one of the sources. softmax writes exp(x_i) (stable variant: exp(x_i - max)) divided by the sum of those exponentials, and softmax_1 / softmax_1_opt write the softmax gradient sum_j s_i*([i=j]-s_j)*g_j (softmax_1_opt rejects src == dst).',
  ['inputs', 'configurations'], 'every length and array content, separate and aliased destinations', 'the dnn tests (not built here) use a few short vectors; unrolled tails, aliasing and out-of-range writes depend on length', [DL], [('arr_mul, arr_sum, relu*, elu*, tanh*, sigmoid*, softmax*, stable_softmax', DL)], note='Proof with binary64 operations as uninterpreted functions (same formula, not numeric accuracy).')
prop('C22', 'Matrix-array product and dense forward/backward compute the exact index arithmetic', 'For all sizes and contents: matarr_mul computes y_i = sum_j M[i,j]*x_j (row-major) and throws when destination and array coincide; dense (and dense_simd_opt) computes dst_i = bias_i + sum_j w[i*in+j]*src_j; dense_1 leaves input_gradient_j = sum_i g_i*w[i*in+j], adds g_i*x_j to weight gradient [i*in+j] and g_i to bias gradient i. Each cell of the destination is written from its own row only and nothing outside the destinations changes.',
  ['inputs'], 'every input/output size, including zero, and every content', 'a transposed or off-by-one index is invisible on the square or symmetric samples unit tests use', [DL], [('matarr_mul, dense, dense_1, dense_simd_opt', DL)], note='Proof: sums are folds over all indices with inferred invariants; floating-point operations uninterpreted.')
prop('C23', 'The thread-pool dense kernels are race free and equal the sequential ones', 'dense_thread_opt and dense_1_thread_opt give, under every schedule of their tasks, the result of the sequential dense and dense_1: no two tasks access a common element of which one is written, no task depends on a loop variable that moves on, every task is waited for before returning, and the combined effect of the tasks is the sequential result.',
  ['schedules', 'inputs'], 'every schedule of the tasks, all sizes and contents', 'a test run samples a handful of schedules, on which lost updates rarely show', [DL], [('dense_thread_opt, dense_1_thread_opt', DL)], note='Proof of task isolation (each task reads and writes only elements it owns) plus the sequential effect; the thread pool itself (BetterThreads) is assumed.')
prop('C24', 'append/extract and concatenate/separate are exact inverse re-indexings', 'For an array of any rank, any axis and any admissible offset, append writes source element (i,a,k) to destination element (i,offset+a,k) and changes nothing else; extract reads it back, so extract after append returns the source. concatenate and separate of two cubes, or of a list of cubes, along any of the three axes place and recover every element exactly once; an axis out of range (also in append_check/extract_check) or shapes that differ off the axis are rejected with runtime_error.',
  ['inputs', 'configurations'], 'every rank, shape (also zero extents), axis, offset and number of parts', 'unit tests use one or two fixed cubes', [DL], [('append, extract, append_check, extract_check, concatenate, separate', DL)], note='Proof for any rank (append/extract) and any pair; lists are proved for up to 3 (quick) / 4 (thorough) cubes, longer lists by the bounded replay.')
prop('C25', 'Cross-correlation equals the zero-padded definition for every geometry', 'For every image, kernel, stride and padding with the kernel fitting the padded image, 2-D, 3-D and multi-filter cross_correlation write exactly the output cells ((H-kh+2ph)/sh+1) x ((W-kw+2pw)/sw+1) (x filters), cell (i,j,f) being the sum over kernel row, column and channel of source times kernel, source cells outside the image counting as zero; nothing outside the destination is written and nothing outside the image is read.',
  ['inputs', 'configurations'], 'every image shape, kernel shape, stride, padding, channel and filter count', 'unit tests use small square images; stride/padding/rectangular combinations and out-of-bounds reads are not sampled', [DL], [('_conv4d_op, kernel_slide, cross_correlation', DL)], note='Proof: the window operation and the sliding driver are verified separately against contracts.')
prop('C26', 'Pooling reduces exactly its window for every geometry', 'For every image, kernel and stride with the kernel inside the image, max_pool and avg_pool write, per output cell and channel, the maximum (respectively the mean) of exactly the kernel_rows x kernel_cols window starting at (i*stride_rows, j*stride_cols) of that channel, and nothing else.',
  ['inputs', 'configurations'], 'every image shape, kernel shape, stride and channel count', 'unit tests use a few images', [DL], [('_max_pool_op, _avg_pool_op, kernel_slide, max_pool, avg_pool', DL)], note='Proof: the window operation and the sliding driver are verified separately against contracts.')
prop('C27', 'Loss functions and their derivatives follow their formulas index by index', 'For every length and content: cross_entropy is the sum of -y_i*log(max(p_i, epsilon)); mean_squared_error the mean of (y_i-p_i)^2; cross_entropy_1 writes -norm*y_i/max(p_i, smallest positive normal) and mean_squared_error_1 writes -2*norm*(y_i-p_i) at each position 0..length-1 and nowhere else, returning the destination; the scalar forms agree with the array forms.',
  ['inputs'], 'every length and content', 'unit tests compare a few vectors', [DL], [('cross_entropy, cross_entropy_1, squared_error, squared_error_1, mean_squared_error, mean_squared_error_1', DL)], note='Proof with uninterpreted floating-point operations.')
prop('C28', 'max and argmax return the maximum and its first position', 'For every non-empty array, max returns an element that no element exceeds, argmax the lowest index holding that value and max_and_argmax both, for any contents without NaN; nothing is written.',
  ['inputs'], 'every length and content', 'unit tests use a few arrays without ties or all-negative contents', [DL], [('max, argmax, max_and_argmax', DL)], note='Proof over all lengths.')
PA = 'source/parser/parser.hpp'
prop('C11', 'The default encoding lists every value once, row by row', 'For every data set behind the DatasetParser interface, data_to_encoding() and data_to_encoding(DEFAULT_ENCODING) return entries x features values, value i*features+j being feature j of entry i; encoding_feature_size and encoding_labels_idx are the feature size and the label columns of the data set.',
  ['inputs'], 'every number of entries and features, every content, every set of label columns', 'tests encode one small CSV file', [PA], [('DatasetParser::data_to_encoding, encoding_feature_size, encoding_labels_idx', PA)],
  note='Proof over all data sets, relative to a contract on the virtual methods (entry(i) gives feature_size() values and depends on i only).')
prop('C12', 'One-hot encoding replaces each label by the indicator of its value', 'unique(c) is exactly the set of values in column c and unique_map(c) gives each of them its rank in ascending order. With one-hot encoding each encoded row holds the non-label columns in ascending order, then for every label column in ascending order one value per distinct value of that column: one at the rank of the value of the entry and zero elsewhere. encoding_feature_size is that row width and encoding_labels_idx exactly the columns after the inputs.',
  ['inputs'], 'every data set, any number of labels at any columns, any number of distinct values', 'tests encode one label column of a small file; several labels, labels before inputs or single-valued labels are not covered', [PA], [('DatasetParser::unique, unique_map, data_to_encoding, encoding_feature_size, encoding_labels_idx', PA)],
  note='Proof over all data sets, relative to a contract on the virtual methods (entry(i) gives feature_size() values and depends on i only); values without NaN; sizes below 2^28.')
DSF = 'source/data/dataset.hpp'
prop('C17', 'A Dataset always satisfies its shape invariant and keeps its values', 'However it is built (empty, from a vector, a matrix or a cube) and whatever sequence_size and label columns are later set, a Dataset holds a whole number of sequences of whole entries: the value count is entries x features, the entries are sequences x sequence size, the requested label columns below the feature size and the remaining columns partition the features, the feature size (and, for cubes, the sequence size) never exceeds the shortest input row (matrix), and the values kept are the leading ones of the input in order, only an incomplete tail being dropped.',
  ['inputs', 'histories'], 'every input shape (ragged included), every feature and sequence size, every set of label columns', 'no test of this class is built here; ragged rows, tails and out-of-range labels are only sampled by its test file', [DSF], [('Dataset constructors, sequence_size(s), label_idx(set)', DSF)], state=[('_data, _feature_size, _sequence_size, _dataset_size, _feature_amount, _sequence_amount, _labels_idx, _input_idx', 'values and the derived shape', DSF)],
  note='Proof over all shapes and contents; sequence_size >= 1 given to constructors; matrix and cube extents below 2^28.')
prop('C18', 'Dataset projections return exactly the addressed rows and columns', 'For every dataset, entry(i) and entry_seq(s) return the i-th row and the s-th sequence, input(i)/label(i), inputs_seq(s)/labels_seq(s) their input and label columns in ascending column order, an index out of range gives an empty result, inputs()/labels() are datasets with the same rows and sequences holding exactly those columns, input_idx()/label_idx() list the columns in ascending order, and none of them modifies the dataset.',
  ['inputs', 'histories'], 'every dataset, index and set of label columns', 'tests use one small matrix with one or two label columns', [DSF], [('entry, entry_seq, input, inputs, inputs_seq, label, labels, labels_seq, input_idx, label_idx', DSF)], note='Proof over all datasets satisfying the invariant of C17.')
prop('C19', 'subdata, split, shuffle, concatenate and parse lose, duplicate or mix no entry', 'subdata(a,b) holds the entries a..min(b,n) (an inverted range is rejected), subdata(p) the leading floor(p*n) entries with p clamped to [0,1]; split puts every entry, in order and in whole sequences, in exactly one of the two sets; shuffle moves whole rows by a permutation; concatenate along axis 0, 1 or 2 places every value of both datasets at its coordinates, an empty dataset being neutral and incompatible shapes, label columns or axes being rejected; parse builds the dataset of the values, feature size and label columns the parser gives for the same encoding. Sizes, feature columns and label columns are preserved.',
  ['inputs', 'histories'], 'every dataset, range, fraction, permutation and pair of datasets', 'tests use one small dataset; percentages that do not divide evenly, sequences and unequal parts are not covered', [DSF], [('subdata, split, shuffle, concatenate, parse', DSF)], note='Proof over all datasets satisfying the invariant of C17, relative to contracts of DLMath::concatenate blocks (C24) and of the parser encoding (C11, C12); std::shuffle is an arbitrary permutation; IEEE monotone rounding at the entry counts.')
prop('C20', 'Min-max normalisation rescales each chosen column and nothing else', 'min_max_normalization(min, max, columns) replaces each value x of the chosen columns (all of them when none is given) by (x-min)/(max-min), keeps every other value and the shape, and rejects min == max with runtime_error leaving the dataset unchanged; min_max_normalization() does the same with the minimum and the maximum of each column over all entries.',
  ['inputs'], 'every dataset, bounds and set of columns', 'tests normalise one matrix whose extremes are in convenient rows', [DSF], [('min_max_normalization', DSF)], note='Proof with floating-point operations uninterpreted (a constant column divides 0 by 0 as IEEE does); columns listed without repetition.')
JS = 'source/parser/json.hpp'
prop('C05', 'Reading a written JSON document gives the document back', 'For every JSON document made of leaves without double quotes inside their text, non-empty items and any nesting of lists and dicts (empty ones included), reading its compact text with operator>> gives a document equal to the one written, with the same leaf types, the same order and number of items and the same keys, whose text is again the same; reading stops right after the closing bracket or quote (or after the comma that follows), leaving what follows unread. JsonList, JsonDict and JsonLeaf read their own kind in the same way.',
  ['inputs'], 'every document: any depth, any width, any leaf text without quotes', 'tests read a few literal documents', [JS], [('operator>> of JsonItem, JsonLeaf, JsonList, JsonDict', JS)], level='exploration', note='Bounded: generated documents, written by an independent writer, read back and compared.')
prop('C13', 'Every JSON document is written in its one compact form', 'A string leaf is written as its text between double quotes and any other leaf as its bare text; a list as "[", the texts of its items in order separated by ",", and "]"; a dict as "{", for every key in ascending order the quoted key, ":" and the text of its item, separated by ",", and "}". Empty lists and dicts have no separator. operator<< on the object or on the item appends exactly that text to the stream, conversion to std::string gives it, and writing changes nothing in the document.',
  ['inputs'], 'every document, any number of items and keys', 'tests write a few literal documents; zero and one item, nested and last-position separators combine without bound', [JS], [('operator<< and std::string conversions of JsonLeaf, JsonList, JsonDict, JsonItem', JS)], note='Proof by structural induction: the text of the held items is named, the text of a list or dict is their join for any number of items.')
prop('C14', 'Copies of a JSON document are deep and independent', 'Copying or assigning a JsonItem, JsonList, JsonDict or JsonLeaf (also over a document of another kind, from a temporary, from itself or into a list or dict) gives a document equal to the source that shares nothing with it: no later change, replacement or destruction of one is visible in the other, and the source is unchanged.',
  ['inputs', 'histories'], 'every pair of documents and every later history of changes', 'tests copy one small document; sharing shows only after a later change through the other copy', [JS], [('copy construction and assignment of JsonItem, JsonList, JsonDict, JsonLeaf', JS)], note='Proof: the copy owns a new object whose content equals the content of the source, for every kind on both sides.')
prop('C15', 'JSON equality is structural', 'Two JSON documents compare equal exactly when both are empty items, or leaves with the same text, or lists of the same length with equal items at every place, or dicts with the same keys and equal items under every key; != is the negation, on items, on values and on lists, dicts and leaves themselves; documents of different kinds are different. Equality is therefore reflexive, symmetric and transitive.',
  ['inputs'], 'every pair of documents', 'tests compare a few documents that differ in one obvious place', [JS], [('operator== / != of JsonItem, JsonLeaf, JsonList, JsonDict, JsonObject', JS)], note='Proof by structural induction over all pairs of documents.')
prop('C16', 'JSON access, append and conversion do what the kind allows and reject the rest', 'Indexing a list below its size, or a dict at a present key, gives a reference to exactly that item; writing through it changes nothing else. operator[](key) on a dict adds an empty item for an absent key; on an empty item append makes a list of one item and operator[](key) a dict of one key; append adds the item at the end. at() with an absent key or an index out of range, any access of the wrong kind, value() of an empty item and conversions of non-leaves throw runtime_error and leave the document unchanged. size() and empty() count the items; as<T>, as_vec and as_map convert every leaf in order or under its key. Lists and dicts built from vectors and maps hold one leaf per element, with its text and type.',
  ['inputs', 'histories'], 'every document, key, index and value', 'tests access a few places of a few documents', [JS], [('at, operator[], append, size, empty, value, as, as_vec, as_map, constructors from vectors and maps', JS)], note='Proof over all documents with opaque held items.')
DN = 'source/dnn/'
prop('C29', 'One optimizer step moves every parameter by its rule once and clears the gradients used', 'For any layer and any parameter count, gradient descent replaces every parameter p by p - eta*g, g being the gradient of the same index of the layer the gradients come from, and Adam by p - eta*m/(sqrt(v)+epsilon) with the bias-corrected running moments of the optimizer advanced by exactly one step per parameter in index order; afterwards every gradient used is zero and nothing else has changed (the parameters of the layer the gradients come from, the gradients of the trained layer when it is another one, the settings of the optimizer). train_check rejects two layers of different parameter counts with runtime_error, changing nothing, and otherwise trains; reset puts the moments and the step counter back.',
  ['inputs', 'histories'], 'every layer behind the virtual interface, parameter count, value and number of earlier steps', 'the test files of dnn/ are not built; they train one layer a few times', [DN + 'optimizer.cpp', DN + 'gd_optimizer.cpp', DN + 'adam_optimizer.cpp'], [('Optimizer::train, train_check', DN + 'optimizer.cpp'), ('GradientDescentOptimizer::_train', DN + 'gd_optimizer.cpp'), ('AdamOptimizer::_train, reset', DN + 'adam_optimizer.cpp')], state=[('_m, _v, _t', 'running moments and step counter of Adam', DN + 'adam_optimizer.cpp')], note='Proof relative to the layer interface (param(i) and gradient(i) designate distinct places for distinct indices: C31).')
prop('C30', 'Loss layers report the loss, its gradient and the score they define', 'Given a target, forward of the mean-squared and the cross-entropy loss layers adds the loss of that prediction to the running total, counts it as exactly one correct or one incorrect prediction (mean-squared: correct when the loss is within the tolerance; cross-entropy: correct when the first maximum of the prediction is at the first non-zero target) and returns its input; without a target it is rejected with runtime_error and changes nothing. backward returns the derivative of the loss of the last training input scaled by the inverse batch size, -2(y-x) or -y/x per element. accuracy() is correct over all, avg_loss() total over all; reset_score clears the total and both counts; set_target keeps a copy of the target.',
  ['inputs', 'histories'], 'every length, target, prediction, batch size, tolerance and number of earlier passes', 'the test files of dnn/ are not built', [DN + 'loss.cpp', DN + 'mse_loss.cpp', DN + 'cce_loss.cpp'], [('LossLayer::set_target, accuracy, avg_loss, reset_score', DN + 'loss.cpp'), ('MeanSquaredLossLayer::forward, backward', DN + 'mse_loss.cpp'), ('CategoricalCrossEntropyLossLayer::forward, backward', DN + 'cce_loss.cpp')], state=[('_cumulative_loss, _correct, _incorrect', 'running score', DN + 'loss.hpp')], note='Proof over all lengths and contents; predictions and targets of the size of the layer.')
prop('C31', 'Parameters and gradients are addressed by one index: the weights in order, then the biases', 'For dense and convolutional layers of any size param_count() is the number of weights plus the number of biases; param(i) and gradient(i) give a reference to weight (or weight gradient) i below the weight count and to bias (or bias gradient) i minus the weight count from there on, so that the indices below param_count() cover every parameter exactly once; an index from param_count() on is rejected with runtime_error.',
  ['inputs'], 'every layer size and every index', 'the test files of dnn/ are not built; they touch index 0 and the first bias', [DN + 'dense.cpp', DN + 'convolutional.cpp'], [('DenseLayer::param_count, param, gradient', DN + 'dense.cpp'), ('ConvolutionalLayer::param_count, param, gradient', DN + 'convolutional.cpp')], note='Proof over all sizes and indices.')
prop('C32', 'Dense and activation layers compute their function forward and its derivative backward', 'For every size and input, forward of the ReLU, ELU, tanh, sigmoid, linear and softmax layers gives the function of the inputs and of a dense layer W x + b (softmax: only the values of its DLMath function, C21, are claimed); training_forward gives the same and remembers its input. backward then gives the gradient with respect to that input (the incoming gradient times the derivative, for dense W^T g, for softmax the full Jacobian) and a dense layer adds g x^T to its weight gradients and g to its bias gradients, once each, on top of what was accumulated. Inputs, incoming gradients and parameters are left untouched.',
  ['inputs', 'histories'], 'every layer size, parameters, input, incoming gradient and number of accumulated passes', 'the test files of dnn/ are not built; they check sizes and a few values', [DN + 'activation.cpp', DN + 'dense.cpp', DN + 'layer.cpp'], [('forward, backward of the activation layers', DN + 'activation.cpp'), ('DenseLayer::forward, backward', DN + 'dense.cpp'), ('Layer::training_forward, forward, backward', DN + 'layer.cpp')], note='Proof over all sizes and contents; the values of softmax forward are decided by C21 for the array function and by the harness for the layer.')
prop('C33', 'The shapes of a layer always agree with its buffers and parameters', 'After construction and after any later change of the input shape, a dense, ReLU, dropout, convolutional, average- or max-pooling layer records that input shape, has one output and one input gradient place per element of its output and input shapes, and as many weights, biases and gradients of them as its shapes define (dense: inputs x outputs and outputs; convolutional: kernel cells x channels x filters and filters). The output shape of a window layer counts the window positions: the last one fits in the (padded) input and one more would not; its channels are the filters, or the input channels for pooling. calculate_output_shape gives the same shape.',
  ['inputs', 'histories'], 'every input shape, kernel, stride, padding and number of filters the window fits in', 'the test files of dnn/ are not built; they use one shape, mostly with stride 1', [DN + 'layer.cpp', DN + 'feedforward.cpp', DN + 'dense.cpp', DN + 'convolutional.cpp', DN + 'pooling.cpp'], [('constructors, _set_input_shape, calculate_output_shape', DN + 'convolutional.cpp'), ('constructors, _set_input_shape, calculate_output_shape', DN + 'pooling.cpp'), ('constructor, _set_input_shape', DN + 'dense.cpp'), ('Layer::input_shape', DN + 'layer.cpp')], note='Proof over all shapes with extents below 2^20 in which the window fits.')
prop('C34', 'Pooling layers send every gradient back to the elements it came from', 'For every input shape, kernel and stride, training a pooling layer gives the pooled output of its input, and backward, starting from zero, gives every input element the sum over the windows it lies in of the gradient of that window: its equal share (gradient over the number of window cells) for average pooling, the whole gradient for max pooling when the element is the first largest of its window and nothing otherwise. The operation runs exactly once for every output cell. Inputs and incoming gradients are left untouched.',
  ['inputs'], 'every input shape, kernel, stride, overlap of windows, content and incoming gradient', 'the test files of dnn/ are not built; they check sizes only', [DN + 'avg_pooling.cpp', DN + 'max_pooling.cpp', DN + 'dlmath.hpp'], [('AveragePoolingLayer::forward, backward', DN + 'avg_pooling.cpp'), ('MaxPoolingLayer::forward, backward', DN + 'max_pooling.cpp'), ('DLMath::kernel_slide', DN + 'dlmath.hpp')], note='Proof: kernel_slide runs its operation once per output cell; the effect of the operation on an arbitrary cell; forward relative to C26.')
prop('C35', 'Convolutional layers add the bias forward and accumulate exact gradients backward', 'For every input shape, kernel, stride, padding and number of filters, forward gives for every output cell and filter the correlation of the window with the filter plus the bias of the filter. backward gives every input element the sum of weight times gradient over all kernel cells, windows and filters that read it (starting from zero) and adds to every weight gradient the sum of input times gradient over the windows, padding contributing nothing, and to every bias gradient the sum of the gradients of its filter, on top of what was accumulated. Inputs, incoming gradients and parameters are left untouched.',
  ['inputs', 'histories'], 'every shape, kernel, stride, padding, number of filters, content and number of accumulated passes', 'the test files of dnn/ are not built; they check sizes only', [DN + 'convolutional.cpp', DN + 'dlmath.hpp'], [('ConvolutionalLayer::forward, backward', DN + 'convolutional.cpp'), ('DLMath::kernel_slide', DN + 'dlmath.hpp')], note='Proof: kernel_slide runs its operation once per output cell; the effect of the operation on an arbitrary cell; forward relative to C25.')
prop('C36', 'Dropout drops the same elements forward and backward and only in training', 'For every size, drop probability and state of the random generator, training_forward draws one number per element in order and gives zero for the elements whose draw does not exceed the drop probability and the input times the scale for the others; the scale is 1/(1-p), or 1 when p is 1. The backward pass that follows gives zero for exactly the dropped elements and the gradient times the scale for the others, whatever earlier passes dropped. forward passes its input on unchanged. Inputs and incoming gradients are left untouched.',
  ['inputs', 'histories'], 'every size, probability, generator state, content and number of earlier passes', 'the test files of dnn/ are not built; they only check how many elements are zero', [DN + 'dropout.cpp', DN + 'dropout.hpp'], [('DropoutLayer constructor, training_forward, backward', DN + 'dropout.cpp'), ('forward', DN + 'dropout.hpp')], state=[('_zero_mask_idxs', 'elements dropped by the last training pass', DN + 'dropout.hpp')], note='Proof for every sequence of random numbers (the generator is an arbitrary sequence read one value at a time).')
