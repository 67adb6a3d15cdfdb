"""Which contracts and harnesses decide which property."""
ASSUMPTIONS = [
 'binary64 values are modelled as reals and each IEEE operation as an uninterpreted function of its operands (same operation on same operands gives the same value; commutativity of + and *; exactness of 0/1 identities and of small-integer products); NaN, infinities and signed zero are outside the model',
 'integer arithmetic of size_t is mathematical below 2^62 (sizes of real objects); signed overflow, narrowing casts, division by zero, bounds of every subscript and pointer access, and reads of indeterminate values are obligations',
 'the C++ standard library entities used are represented by assumed contracts (listed per run under trusted_base)',
 'memory allocation succeeds; distinct pointer parameters designate distinct objects unless the contract says in place',
 'the translation from the clang AST to verification conditions (cppv) is trusted',
]
def M(*fns): return [('mnist', 'mnist', f) for f in fns]
def D(*fns): return [('dlmath', 'dlmath', f) for f in fns]
def E(*fns): return [('encoding', 'encoding', f) for f in fns]
def S(*fns): return [('dataset', 'dataset', f) for f in fns]
def TCK(*fns): return [('typecheck', 'typecheck', f) for f in fns]
def CSV_(*fns): return [('csv', 'csv', f) for f in fns]
def J(*fns): return [('jsondoc', 'json', f) for f in fns]
def LY(*fns): return [('layers', 'dnn', f) for f in fns]
JS = ['the items a list or dict holds are opaque documents with equality, copy and written text as functions of the document (structural induction on the nesting depth: the contracts of JsonItem are what is assumed of the held items)', 'each JsonItem owns its object exclusively (unique_ptr); no item is reachable from itself', 'type and conversions of a text are named functions (decided by C04); std::to_string is not interpreted']
TEXTS = ['std::getline, ignore up to the newline, seekg(0) and clear on a text stream are specified at the granularity of lines and fields: a file is its n lines, a line cut at the separator is its count+1 fields', 'files have at least one line; the separator is a character 0..127 other than newline', 'the type and the number of a field text are named functions (decided by C04)']
PROPS = {
 'C01': dict(contracts=CSV_('c01'), harness=['csv'], assumptions=TEXTS),
 'C02': dict(contracts=CSV_('c02'), harness=['csv'], assumptions=TEXTS),
 'C03': dict(contracts=CSV_('c03'), harness=['csv'], assumptions=TEXTS + ['iterators are dereferenced at lines of the file only']),
 'C04': dict(contracts=TCK('c04'), harness=['typecheck'], assumptions=['std::regex_match decides membership of the whole text in the language of the (translated) ECMAScript expression, whatever its length; std::to_string and formatted stream extraction are not interpreted'], bounded=['conversions from text to int and double (std::stringstream extraction) and from int and double to text are decided by the replay harness only']),
 'C05': dict(contracts=[], harness=['json'], level='exploration', bounded=['reading is decided by the replay harness on generated documents up to depth 5 and 60, lists up to 400 items; no contract yet']),
 'C06': dict(contracts=M('c06'), harness=['mnist']),
 'C07': dict(contracts=M('c07'), harness=['mnist']),
 'C08': dict(contracts=M('c08'), harness=['mnist'], bounded=['the label-name lists (text lines of the two label files) are decided by the replay harness only']),
 'C09': dict(contracts=M('c09'), harness=['mnist']),
 'C10': dict(contracts=M('c10'), harness=['mnist']),
 'C11': dict(contracts=E('c11'), harness=['encoding']),
 'C12': dict(contracts=E('c12'), harness=['encoding']),
 'C13': dict(contracts=J('c13'), harness=['json'], assumptions=JS),
 'C14': dict(contracts=J('c14'), harness=['json'], assumptions=JS),
 'C15': dict(contracts=J('c15'), harness=['json'], assumptions=JS + ['dictionaries that differ: a finite-set case split on whether the key sets differ']),
 'C16': dict(contracts=J('c16'), harness=['json'], assumptions=JS),
 'C17': dict(contracts=S('c17'), harness=['dataset']),
 'C18': dict(contracts=S('c18'), harness=['dataset']),
 'C19': dict(contracts=S('c19', 'c19_concat_all'), harness=['dataset']),
 'C20': dict(contracts=S('c20'), harness=['dataset']),
 'C21': dict(contracts=D('c21'), harness=['dlmath']),
 'C22': dict(contracts=D('c22'), harness=['dlmath']),
 'C23': dict(contracts=D('c23'), harness=['dlmath'], tsan=['dlmath'],
   assumptions=['BetterThreads (not in the repository) is assumed: enqueue runs the task exactly once with the given argument, get() waits for it; schedules are decided by non-interference (isolation) of the tasks']),
 'C24': dict(contracts=D('c24_all'), thorough=D('c24_four'), harness=['dlmath'], bounded=['lists of more than three cubes (quick) or four cubes (thorough) in concatenate / separate are decided by the replay harness']),
 'C25': dict(contracts=D('c25'), harness=['dlmath']),
 'C26': dict(contracts=D('c26'), harness=['dlmath']),
 'C27': dict(contracts=D('c27'), harness=['dlmath']),
 'C28': dict(contracts=D('c28'), harness=['dlmath']),
 'C29': dict(contracts=LY('c29'), harness=['dnn'], assumptions=['param(i) and gradient(i) of a layer designate distinct places for distinct indices below param_count() and calling them changes nothing (C31)']),
 'C30': dict(contracts=LY('c30'), harness=['dnn']),
 'C31': dict(contracts=LY('c31'), harness=['dnn']),
 'C32': dict(contracts=LY('c32'), harness=['dnn'], bounded=['the values of the softmax layer forward are decided by the replay harness (its array function is under contract in C21)']),
 'C33': dict(contracts=LY('c33'), harness=['dnn']),
 'C34': dict(contracts=LY('c34', 'c34s'), harness=['dnn'], assumptions=['the sum over the windows is the composition of one run of the operation per output cell (kernel_slide, under contract) with the effect of one run on an arbitrary cell (under contract)']),
 'C35': dict(contracts=LY('c35', 'c34s'), harness=['dnn'], assumptions=['the sum over the windows is the composition of one run of the operation per output cell (kernel_slide, under contract) with the effect of one run on an arbitrary cell (under contract)']),
 'C36': dict(contracts=LY('c36'), harness=['dnn'], assumptions=['std::mt19937_64 is an arbitrary sequence of 64-bit values read one at a time']),
}
