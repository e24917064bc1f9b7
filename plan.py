"""What each check runs: legs are (workload, build variant, runs in the quick tier, processes)."""
REAL = ['every source file of src/mlio (stores, streams, S3 client, record readers, instance readers, data readers, parsers, memory blocks)',
        'the insights module (src/mlio-py/mlio/contrib/insights)',
        'oneTBB flow-graph and parallel_for header templates', 'zlib', 'protobuf', 'OpenCV PNG codec', 'glibc iconv converters', 'libstdc++']
STUB = ['oneTBB scheduler runtime (tbb::detail::r1): simulated arena and workers', 'pthread scheduling, mutexes and condition variables',
        'clock, nanosleep, select', 'file system, FIFOs and their writers, mmap/mremap, fts', 'std::random_device',
        'AWS SDK for C++ and the S3 service behind it', 'pybind11 (binding tables only, for the insights module)']
# The Python bindings run for real in an embedded interpreter.
REAL_PY = ['pybind11 and the binding module (src/mlio-py/mlio/core)', 'CPython 3 with its real GIL, NumPy', 'mlio.integ.numpy, scipy and pandas']
STUB_PY = ['SciPy and pandas (the two classes that the integration uses)']
def P(asan, oracle, race=0, assumptions=(), wl=None, py=0):
    def f(pid):
        legs = []
        if py:
            return dict(legs=[(wl or pid, 'py', py, 8)], oracle=oracle, assumptions=list(assumptions), real=REAL + REAL_PY, stub=[x for x in STUB if 'pybind11' not in x] + STUB_PY)
        if asan: legs.append((wl or pid, 'asan', asan, 6 if race else 8))
        if race: legs.append((wl or pid, 'race', race, 2 if asan else 8))
        return dict(legs=legs, oracle=oracle, assumptions=list(assumptions))
    return f

PLAN = {
    'C01': P(18000, 'reference model: the generated rows cut into consecutive batches; each example compared value by value', race=6000),
    'C02': P(22000, 'executable model of line, CSV and RecordIO records over the whole byte string; every access path compared with it and with the one-piece read'),
    'C03': P(16000, 'the model sequence from its first example after every reset; bytes read is zero after a reset', race=4000),
    'C04': P(16000, 'every operation returns within the step limit, no operation is left waiting when nothing can run (deadlock detection)', race=4000),
    'C05': P(18000, 'model prefix; error sticky until reset; complete epoch after the faults stop', race=3000),
    'C06': P(20000, 'bounds on input consumed at rest and on batches in flight computed from the configuration'),
    'C07': P(18000, 'copies of every held example, record and slice taken at delivery, compared later; sanitizer', race=4000),
    'C08': P(20000, 'model of the channel: FIFO k delivers exactly the scripted bytes of writer k', race=3000),
    'C09': P(22000, 'the original bytes before compression; damaged sources must end in an error or in the original bytes'),
    'C10': P(22000, 'independent encoders: the text as code points encoded by the workload, expected UTF-8 computed from the code points'),
    'C11': P(20000, 'executable model of range, shard, sample and shuffle-window selection over numbered rows'),
    'C12': P(18000, 'model sequence with the rule that looking ahead consumes nothing', race=3000),
    'C13': P(20000, 'model of batches under every bad-example and last-example policy', race=4000),
    'C14': P(18000, 'sum of the instance sizes of the batches the model delivers', race=4000),
    'C15': P(16000, 'model of every slice as bytes; copies compared after later operations; mappings and heap accounted', race=4000),
    'C16': P(12000, 'counts of threads, descriptors, mappings, temporary files and heap blocks before and after', race=2000),
    'C17': P(0, 'happens-before race detection over every memory access of the library on the simulated schedules', race=14000),
    'C18': P(18000, 'model of every stream as a byte string and a position; failed operations leave the position alone', race=4000),
    'C19': P(9000, 'model of the directory tree walked in natural order; any injected failure of the walk must come out as an error', race=2000),
    'C20': P(6000, 'each reader is compared with its own model, as if it ran alone', race=3000),
    'C21': P(14000, 'address and undefined-behaviour sanitizers, step and memory bounds, model of the rows stored in front of the damage, agreement of repeated readings', race=2000),
    'C23': P(14000, 'every number computed from the text by 128-bit integers and strtof/strtod; a field that is malformed or out of range must be rejected', race=3000),
    'C24': P(14000, 'shape, strides, type, device and every element of each export compared with the tensor as it was delivered; coverage of shape and strides decided by 128-bit arithmetic; heap balance', race=2000),
    'C25': P(14000, 'the contents given to the simulated S3 service under every key and version, and the kinds of error it answered with', race=3000),
    'C26': P(8000, 'statistics of every column computed from the generated cells; estimates within 3 % + 3', race=600),
    'C27': P(16000, 'executable model of header, names, prefixes, duplicates, selection, type inference and overrides; every row of every column compared', race=3000),
    'C29': P(16000, 'executable model of schema inference and of which messages fit it; every value compared bit by bit, every coordinate recomputed from its key', race=3000),
    'C28': P(16000, 'floating-point model of colour conversion, bilinear scaling of the shorter edge and centre crop; every byte of every image compared (exact unless converted or scaled)', race=3000),
    'C30': P(0, 'the same reader used from C++ with the same parameters: every example, schema, error and count compared; no operation is left waiting', py=7000),
    'C31': P(0, 'every buffer computed from the tensor, array or bytes it was made from, compared while all owners come and go; reference counts; sanitizer over every Python object', py=9000),
    'C22': P(16000, 'the files that were concatenated; damage that can be told must end in an error after exactly the files in front of it'),
}
PLAN = {k: f(k) for k, f in PLAN.items()}

NOT_APPLICABLE = {}
