#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well formed)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
R='src/mlio/'; I='include/mlio/'
SCH="The tests run each reader once on whatever interleaving the machine happens to produce, with a handful of small files and no fault; "
prop('C01','Ordered, complete, exactly-once batch delivery under every schedule',
 "For any dataset and any batch size, prefetch depth, parallelism and thread schedule, the sequence of examples a data reader returns is exactly the input's instances in store order, grouped in consecutive batches of the configured size, each instance once, with its correct values. "
 "After the last example, every further read reports end of data. Reader settings that only tune performance never change the sequence.",
 ['schedules','configurations','inputs'],"every interleaving of source, decode, ordering, hand-off and consumer threads x every prefetch/parallel setting x every store layout, for the CSV, text-line, RecordIO-protobuf and image readers",
 SCH+"out-of-order completion of decode tasks, queue swaps racing a full queue and wake-ups are never steered.",
 [R+'parallel_data_reader.cc',R+'instance_batch_reader.cc',R+'instance_readers/core_instance_reader.cc',R+'csv_reader.cc',R+'recordio_protobuf_reader.cc',R+'image_reader.cc',R+'text_line_reader.cc'],
 [('sequencer node orders decoded batches by index',R+'parallel_data_reader.cc:init_graph'),('double queue swap under the queue lock',R+'parallel_data_reader.cc:read_example_core')],
 [('fill/read queue','decoded examples waiting for the consumer',I+'parallel_data_reader.h')],['Data_reader::read_example'])
prop('C02','Record and line boundaries do not depend on how bytes arrive',
 "The records a record reader or data reader extracts from a byte source depend only on the bytes, never on how reads split them: short reads, one-byte reads, internal buffer sizes, memory-mapped versus streamed access and in-memory versus file stores all give the same records. "
 "This covers line ends of every kind, quoted CSV fields with embedded line breaks, comment and blank lines, byte-order marks, and RecordIO headers, padding and multi-part records.",
 ['fault_sequences','inputs','configurations'],"every way of splitting a byte sequence into read results x every internal chunk size",
 "The tests read small files whose whole content arrives in one read into a 32 MiB buffer, so a record, a CR-LF pair or a header never straddles a chunk.",
 [R+'record_readers/detail/default_chunk_reader.cc',R+'record_readers/detail/in_memory_chunk_reader.cc',R+'record_readers/detail/text_line.cc',R+'record_readers/csv_record_reader.cc',R+'record_readers/text_record_reader.cc',R+'record_readers/recordio_record_reader.cc',R+'record_readers/detail/recordio_header.cc'],
 [('left-over bytes carried into the next chunk',R+'record_readers/detail/default_chunk_reader.cc:read_chunk'),('incremental record scanners ask for a bigger chunk',R+'record_readers/stream_record_reader.cc')],
 (),['Record_reader::read_record','Data_reader::read_example'],'knob for the initial chunk size')
prop('C03','Resetting a reader replays the dataset from the start',
 "Calling reset on a data reader at any moment - before the first read, with batches in flight, blocked on a full queue, at the end, or after a failed read - discards every in-flight batch and error, and the following reads return the complete sequence from the first example again. "
 "No example from before the reset ever appears after it, and with per-epoch reshuffling off the two epochs are identical.",
 ['schedules','histories','fault_sequences'],"every point of a reader's history at which reset can be called x every schedule of its background work",
 SCH+"reset is tested at most after a completed pass, never against in-flight tasks.",
 [R+'parallel_data_reader.cc',R+'data_reader_base.cc',R+'instance_batch_reader.cc',R+'instance_readers/*.cc'],
 [('cancel the task group, drain queues, join the thread',R+'parallel_data_reader.cc:stop'),('re-arm graph, sequence counter and instance readers',R+'parallel_data_reader.cc:reset')],
 [('run state','not started / running / stopped / faulted',I+'parallel_data_reader.h')],['Data_reader::reset','Data_reader::read_example'])
prop('C04','Reading, resetting and destroying a reader always make progress',
 "Once input sources deliver or end, every call to read, peek, read the schema, reset or destroy a data reader finishes within a bounded number of steps under every schedule, including a consumer that stops early, a full prefetch queue, failed stores and failed thread creation. "
 "No caller or background thread waits forever for a wake-up that was lost.",
 ['schedules','fault_sequences','histories'],"every fair schedule, spurious wake-up and fault sequence, at every operation of the reader",
 SCH+"a lost wake-up or a shutdown race shows in a tiny share of schedules and would look like a rare hang.",
 [R+'parallel_data_reader.cc',R+'detail/thread.h',R+'streams/sagemaker_pipe_input_stream.cc'],
 [('condition variables with predicates over run state and queue size',R+'parallel_data_reader.cc'),('stop cancels, clears and notifies before joining',R+'parallel_data_reader.cc:stop')],
 (),['Data_reader::*'])
prop('C05','Failures surface as errors and never silently lose or corrupt data',
 "When opening, reading, mapping, allocating or converting fails at any point, the caller gets an error rather than an early end of data, a hang or a crash; every example delivered before the error is a correct prefix of the dataset. "
 "The error repeats on later reads until reset, no wrong, skipped or duplicated example follows it, and once the fault is gone a reset reader delivers the complete dataset. If only the start of the background thread fails, that read fails and the next read tries again.",
 ['fault_sequences','schedules','inputs'],"every system call, allocation, thread creation and stored byte at which a failure can be injected x every schedule",
 "No test injects an I/O, allocation or thread-creation failure.",
 [R+'parallel_data_reader.cc',R+'data_reader_base.cc',R+'record_readers/stream_record_reader.cc',R+'record_readers/detail/default_chunk_reader.cc',R+'streams/*.cc',R+'data_stores/*.cc',R+'instance.cc'],
 [('background exception stored and rethrown to the consumer',R+'parallel_data_reader.cc:run_pipeline'),('system call results turned into exceptions',R+'streams/file_input_stream.cc')],
 [('faulted state','error is sticky until reset',R+'parallel_data_reader.cc')],['Data_reader::read_example','Data_reader::peek_example','Data_reader::read_schema'])
prop('C06','Read-ahead and parallelism stay within the configured bounds',
 "While the consumer does not read, the reader consumes only a bounded amount of input: at most twice the prefetch limit of finished batches, plus the batches being processed at once, plus one. At no time are more batches being decoded or waiting to be delivered in order than the configured parallel-read limit.",
 ['schedules','configurations'],"every schedule and every prefetch and parallelism setting",
 "The tests use inputs smaller than any prefetch window and never look at how far ahead the reader has consumed.",
 [R+'parallel_data_reader.cc'],
 [('limiter node with decrement edge',R+'parallel_data_reader.cc:init_graph'),('producer waits while the fill queue is full',R+'parallel_data_reader.cc:init_graph')],
 (),['input position of the store','peak number of live batches'])
prop('C07','Delivered examples and records are stable while they are held',
 "The contents of an example, tensor, instance, record or memory slice handed to a caller never change and stay readable for as long as the caller holds it, whatever the reader does afterwards: reading on, growing or recycling its buffers, resetting, or being destroyed, and whichever thread drops the last reference.",
 ['histories','schedules'],"every history of later reads, resets and destruction while earlier results are held, and every schedule of reference drops",
 "The tests look at each example straight after reading it and drop it before reading the next.",
 [R+'record_readers/detail/default_chunk_reader.cc',R+'memory/*.cc',I+'memory/memory_slice.h',I+'intrusive_ptr.h',I+'intrusive_ref_counter.h',R+'instance.cc'],
 [('copy-on-grow: a buffer that is still shared is replaced, not reused',R+'record_readers/detail/default_chunk_reader.cc'),('atomic intrusive reference count',I+'intrusive_ref_counter.h')],
 (),['bytes of held slices and tensors'])
prop('C08','SageMaker pipe channels are read in sequence, once per epoch',
 "Each opened stream of a pipe channel reads one FIFO of the channel and the next open moves to the next FIFO number, however slowly or in whatever pieces the writer delivers; data before the writer's close is delivered completely and in order and the end is reported only after the writer has written and closed. "
 "A FIFO that never appears or a writer that stays silent past the configured timeout gives an error, and closing a stream never disturbs the channel position of other or later streams.",
 ['schedules','fault_sequences','histories'],"every interleaving of writer opens, writes, delays and closes with the reader's open, select and read, over several epochs, channels and threads",
 "No test uses a pipe store.",
 [R+'data_stores/sagemaker_pipe.cc',R+'streams/sagemaker_pipe_input_stream.cc'],
 [('process-wide table of the next FIFO id per channel',R+'streams/sagemaker_pipe_input_stream.cc'),('non-blocking open, select with timeout, short-read loop',R+'streams/sagemaker_pipe_input_stream.cc')],
 [('FIFO id table','next FIFO number per channel path',R+'streams/sagemaker_pipe_input_stream.cc')],['Input_stream::read','Data_store::open_read'])
prop('C09','Compressed sources decompress exactly or fail loudly',
 "Reading a gzip, zlib or multi-member gzip source yields exactly the original bytes, whatever the sizes of the underlying reads and of the caller's reads (a source of no bytes counts as no members). If the compressed data is truncated, corrupted or the underlying read fails, the caller gets an error before the end of data is reported; it never gets a shortened stream that looks complete.",
 ['inputs','fault_sequences'],"every split of the compressed bytes into reads x every truncation point and byte corruption x every failure of the underlying stream",
 "No test reads compressed data.",
 [R+'streams/gzip_inflate_stream.cc',R+'streams/detail/zlib.cc',R+'data_stores/compression.cc'],
 [('inflate loop fed from a refillable buffer',R+'streams/gzip_inflate_stream.cc:read'),('truncation check at end of input',R+'streams/gzip_inflate_stream.cc')],
 (),['Input_stream::read'],'knob for the inflate buffer size')
prop('C10','Text decoding is exact whatever the encoding and fragmentation',
 "Text in any supported encoding is delivered as its exact UTF-8 form, whether the encoding is configured or detected from a byte-order mark, and however the bytes are split across reads and internal buffers. A byte-order mark is removed at the start of a source and nowhere else. "
 "Converted input that is not valid in its encoding, or that ends inside a character, gives an error rather than dropped or invented text.",
 ['inputs','fault_sequences'],"every text x every encoding x every split of its bytes x every truncation or corruption",
 "One test reads one small ISO-8859-5 file in a single read.",
 [R+'streams/utf8_input_stream.cc',R+'streams/detail/iconv.cc',R+'text_encoding.cc',R+'record_readers/text_record_reader.cc',R+'streams/util.cc'],
 [('preamble sniffing then streaming conversion with carried-over partial characters',R+'streams/utf8_input_stream.cc')],
 (),['Input_stream::read','text records'],'knob for the conversion buffer size')
prop('C11','Shuffling, sampling, sharding and skipping select exactly the right rows',
 "Shuffling returns a permutation of the dataset within its window: every instance exactly once per epoch, the same order for the same seed, and a new order on each reset only when per-epoch reshuffling is on. "
 "Sharding splits the dataset into disjoint shards that together cover it, first-N and skip select exactly that range, and sampling keeps the requested fraction (of each block of 100 instances, rounded down); the selection is the same for every schedule and stays correct after reset at any point.",
 ['inputs','histories','configurations'],"every combination of shuffle window, seed, shard count and index, range, sampling ratio and store layout x every point of reset",
 "No test combines these options, runs more than one epoch or compares shards.",
 [R+'instance_readers/shuffled_instance_reader.cc',R+'instance_readers/sampled_instance_reader.cc',R+'instance_readers/sharded_instance_reader.cc',R+'instance_readers/ranged_instance_reader.cc',R+'instance_readers/instance_reader.cc',R+'instance_readers/core_instance_reader.cc'],
 [('stacked instance readers each with its own reset',R+'instance_readers/instance_reader.cc')],
 (),['Data_reader::read_example'])
prop('C12','Looking ahead consumes nothing',
 "Peeking an example or record and reading or inferring the schema, any number of times and at any point including after a failed attempt, never changes what later reads return: the peeked item is returned by the next read, exactly once. Peeking repeatedly returns the same item.",
 ['histories','schedules','fault_sequences'],"every interleaving of peek, schema, read and reset calls, with faults during any of them",
 "The tests call at most one look-ahead operation before reading, and never after an error.",
 [R+'data_reader_base.cc',R+'record_readers/record_reader_base.cc',R+'instance_readers/instance_reader_base.cc',R+'parallel_data_reader.cc',R+'csv_reader.cc'],
 [('one-item peek slot returned by the next read',R+'data_reader_base.cc')],
 [('peeked item','item already produced and not yet consumed',I+'data_reader_base.h')],['Data_reader::peek_example','Data_reader::read_schema','Record_reader::peek_record'])
prop('C13','Bad rows and the last batch follow the configured policy',
 "Depending on policy an invalid row raises an error, is skipped, drops its whole batch, or is padded over, with the same result whether a batch is decoded serially or in parallel and under every schedule; all valid rows that the policy keeps appear in order with their own values and no trace of an invalid row. "
 "A short final batch is kept, dropped or padded to full size as configured, and the reported padding count equals the number of missing rows. "
 "The warning variants of a policy report each example they drop or pad, bad rows are reported if and only if that was asked for, and the other policies are silent.",
 ['schedules','inputs','configurations'],"every placement of invalid rows x every policy x serial and parallel decoding x every schedule",
 "The tests exercise one policy with one bad image; parallel decoding of a batch never runs because batches are too small.",
 [R+'csv_reader.cc',R+'recordio_protobuf_reader.cc',R+'image_reader.cc',R+'instance_batch_reader.cc',R+'coo_tensor_builder.cc',R+'example.cc'],
 [('per-row decode result checked against the policy',R+'csv_reader.cc:decode'),('atomic flags joined across decode tasks',R+'csv_reader.cc')],
 (),['Example::padding','tensor contents','Data_reader::read_example'],'knob for the parallel decode threshold')
prop('C14','The count of bytes read matches what was decoded',
 "The number of bytes read that a data reader reports never decreases between resets, never exceeds the size of the input handed to decoding, and once the dataset has been delivered completely equals the total size of the instances in the successfully decoded batches under every schedule. Reset returns it to zero.",
 ['schedules','histories'],"every schedule of parallel decodes and every point of reset",
 "No test looks at the counter while decodes run in parallel or after a reset.",
 [R+'parallel_data_reader.cc',R+'instance_batch.cc'],[('atomic counter incremented per decoded batch',R+'parallel_data_reader.cc:init_graph')],(),['Data_reader::num_bytes_read'])
prop('C15','Memory blocks keep their bytes through growth, spill and failure',
 "A heap-, file- or hybrid-backed memory block keeps its bytes when it is resized in either direction, including when it moves from heap to file; it is never smaller than asked, and a failed allocation, mapping or file extension leaves the block usable with its old contents and size. "
 "Temporary backing files never remain visible on disk and every mapping and descriptor is released with the block.",
 ['histories','fault_sequences'],"every history of allocations and resizes across the spill threshold x every failing call",
 "No test touches the file-backed or hybrid allocators.",
 [R+'memory/heap_memory_block.cc',R+'memory/file_backed_memory_block.cc',R+'memory/file_backed_memory_allocator.cc',R+'memory/file_mapped_memory_block.cc',R+'memory/memory_allocator.cc'],
 [('hybrid block migrates to a file once over the threshold',R+'memory/file_backed_memory_allocator.cc'),('unlink right after creation',R+'memory/file_backed_memory_block.cc')],
 (),['Mutable_memory_block::resize','data()','size()'])
prop('C16','No descriptor, mapping, thread, memory or temporary file is leaked',
 "When a reader, store, stream or memory block has been destroyed and the examples it produced have been dropped, every descriptor, mapping, temporary file and thread it created is gone and all its memory is released, on success and after any injected failure, at any point of its life and under every schedule. No descriptor is closed twice and none is used after being closed.",
 ['fault_sequences','histories','schedules'],"every fault sequence and every point of early destruction",
 "No test counts resources, destroys a reader mid-stream or injects a failure.",
 [I+'detail/file_descriptor.h',R+'streams/file_input_stream.cc',R+'memory/*.cc',R+'streams/sagemaker_pipe_input_stream.cc',R+'data_stores/file_list.cc',R+'parallel_data_reader.cc'],
 [('RAII descriptors, mappings and directory handles',I+'detail/file_descriptor.h'),('stop and join in every reader destructor',R+'*_reader.cc')],(),['open/close, mmap/munmap, mkstemp/unlink, thread create/join, heap at exit'])
prop('C17','The library is free of data races under its documented use',
 "When each reader is used from one thread at a time, and stores, examples, tensors, schemas, allocators and process-wide settings (set before use) are shared between threads, no two accesses to the same memory, at least one of them a write, are ever unordered by synchronisation, in any schedule. This includes the reader's own background threads and decode tasks.",
 ['schedules'],"every interleaving of the library's own threads and of independent caller threads",
 "The tests are not run under a race detector and use one caller thread.",
 [R+'parallel_data_reader.cc',R+'csv_reader.cc',R+'recordio_protobuf_reader.cc',R+'streams/sagemaker_pipe_input_stream.cc',R+'memory/memory_allocator.cc',R+'logger.cc',I+'intrusive_ref_counter.h'],
 [('queue mutex, atomics and thread join',R+'parallel_data_reader.cc')],(),['happens-before over instrumented memory accesses'])
prop('C18','Streams honour read, seek, position and close',
 "For every stream kind the bytes returned by any sequence of reads are the consecutive bytes of the source from the current position, a read returns zero only at its end, seeks move exactly (a position beyond the end means the end, or is refused for S3 objects), and size and position agree with the bytes. Operations on a closed stream fail, operations a stream does not support say so, and zero-copy reads return the same bytes as copying reads.",
 ['histories','fault_sequences'],"every sequence of read, seek, size, position and close calls with short reads and failing calls",
 "The tests never use streams directly.",
 [R+'streams/file_input_stream.cc',R+'streams/memory_input_stream.cc',R+'streams/input_stream_base.cc',R+'data_stores/file.cc',R+'data_stores/in_memory_store.cc',R+'instance.cc'],
 [('seek and size cached over lseek/fstat',R+'streams/file_input_stream.cc'),('bounds-checked slices',R+'streams/memory_input_stream.cc')],(),['Input_stream::*'])
prop('C19','Listing files is complete, naturally ordered and never silently partial',
 "Listing one or more paths returns every regular file under them, once for every given path it lies under, that matches the pattern and predicate, with the entries of each directory in natural order, whatever order the file system reports entries in. If a directory cannot be read or an entry cannot be examined the caller gets an error, never a silently shortened list.",
 ['inputs','fault_sequences'],"every directory tree, entry order and failing directory operation",
 "No test lists a directory.",
 [R+'data_stores/file_list.cc'],[('fts walk with natural comparison',R+'data_stores/file_list.cc')],(),['list_files'])
prop('C20','Independent readers used concurrently do not affect each other',
 "Any number of readers driven by different threads, sharing stores, memory allocators, examples and process-wide settings, each return exactly what they would return alone, and a failure, early destruction, reset or cancellation of one never disturbs another.",
 ['schedules','fault_sequences'],"every interleaving of several readers and of faults in any of them",
 "Every test uses a single reader.",
 [R+'parallel_data_reader.cc',R+'memory/memory_allocator.cc',R+'data_stores/*.cc',R+'streams/*.cc'],
 [('per-reader task graph, context and queues',R+'parallel_data_reader.cc')],(),['Data_reader::read_example'])
prop('C21','Damaged input never causes memory errors, hangs or invented data',
 "Reading a source with arbitrarily truncated, flipped, duplicated, swapped or zeroed bytes, or a streamed file that shrinks while it is read, never reads or writes outside valid memory, never crashes and never loops. It either succeeds or reports an error that stays until a reset; what is delivered of the rows stored before the damage is unchanged, and all of it is delivered unless an error is reported.",
 ['inputs','fault_sequences'],"every stored-byte corruption, truncation point and mid-read shrink of CSV, text, RecordIO, image, gzip and Parquet sources x every read fragmentation",
 "One test uses one hand-made corrupted RecordIO file.",
 [R+'record_readers/*.cc',R+'recordio_protobuf_reader.cc',R+'csv_record_tokenizer.cc',R+'image_reader.cc',R+'streams/*.cc'],
 [('header validation and length checks before slicing',R+'record_readers/detail/recordio_header.cc')],(),['sanitizer, step bound, delivered prefix'])
prop('C22','Concatenated Parquet files split exactly into their files',
 "A stream of concatenated Parquet files is split into records that are exactly the individual files, however the bytes arrive and whatever the payload contains, including payload bytes that look like a file marker without completing a plausible footer. A file that is truncated, whose opening marker is damaged, or that is followed by other bytes gives an error, and the files in front of it come out unchanged.",
 ['inputs','fault_sequences'],"every sequence of files x payload look-alikes x read fragmentation x truncation point",
 "No test reads Parquet records.",
 [R+'record_readers/parquet_record_reader.cc'],[('magic and footer length scan',R+'record_readers/parquet_record_reader.cc')],(),['Record_reader::read_record'])
prop('C23','Numeric fields parse to the exact value or are rejected',
 "A text field parsed as an integer (in the requested base) or floating-point type gives exactly the value it denotes - the nearest float or double, NaN for the configured NaN values - or is rejected when it is malformed or out of range; nothing is wrapped, truncated or saturated. "
 "The parser of a data type gives the same answers however many threads share it, whatever happened to the options it was made from, and whether fields are parsed alone or through a reader under any schedule.",
 ['inputs','schedules'],"every text field x every data type, base and NaN value x every schedule of threads that share parsers",
 "Tests parse a handful of literals from one thread.",
 [R+'util/number.cc',R+'parser.cc',R+'csv_reader.cc'],[('strict full-match number parsing',R+'util/number.cc')],(),['Parser','Data_reader::read_example'])
prop('C24','Tensors and their DLPack exports carry the data they claim',
 "A tensor exported through DLPack has the same element type, shape, strides, device and values as the source, stays valid until its deleter is called - however long the example, the reader and the stores have been gone and whichever thread calls it - and is released exactly once. A dense, COO or CSR tensor can be built from, and only from, parts that fit together: data that does not cover the shape and strides, and coordinate or row-pointer arrays that do not match, are refused. What cannot be exported (strings, sparse tensors, other versions) is refused without a leak.",
 ['inputs','schedules'],"every data type, shape, strides and layout, every order and thread of release","Tests export no tensor and build no sparse one from parts.",
 [R+'integ/dlpack.cc',R+'tensor.cc',R+'tensor.h',R+'tensor_visitor.cc'],[('field by field conversion',R+'integ/dlpack.cc'),('validation of the parts of a tensor',R+'tensor.cc')],(),['as_dlpack','Dense_tensor','Coo_tensor','Csr_tensor'])
prop('C25','Reading S3 objects is equivalent to reading local files',
 "An S3 object store delivers exactly the bytes of the requested version of the object (of the object as it is, when it does not change and no version is named), at any position and for any read size, and a read never ends early in place of an error. Missing objects and buckets, denied access, an unavailable service and time-outs are told apart. Listing returns every key under a prefix that matches the pattern and predicate, across all pages and in natural order, or fails. A client is built with the given profile, region, proxy and time-outs.",
 ['fault_sequences','inputs'],"every object, version, read range, page split and failing or slow request","No test reaches S3.",
 [R+'s3_client.cc','src/mlio/detail/s3_utils.cc',R+'streams/s3_input_stream.cc',R+'data_stores/s3_object.cc'],[('ranged GET per read',R+'streams/s3_input_stream.cc'),('paged listing',R+'s3_client.cc')],(),['Input_stream::read','list_s3_objects'])
prop('C26','Column statistics equal those of the whole column',
 "Whatever the batch size, last-example handling, stores, schedule and failed earlier attempts, the insights module's counts, lengths, extremes, mean and captured values of a column equal those of the whole column of the dataset, and its cardinality estimates and median are within their stated approximation. An analysis that cannot read the whole dataset fails, and analyses running at the same time do not affect each other.",
 ['inputs','schedules','fault_sequences'],"every column content, batch split, schedule and failure","No test covers the insights module.",
 ['src/mlio-py/mlio/contrib/insights/column_analyzer.cc','src/mlio-py/mlio/contrib/insights/column_statistics.h','src/mlio-py/mlio/contrib/insights/module.cc','src/mlio-py/mlio/contrib/insights/hll/hyperloglog.h'],[('per-column accumulators over batches',"src/mlio-py/mlio/contrib/insights/column_analyzer.cc")],(),['analyze_dataset'])
prop('C27','A CSV dataset has the columns, names and types its settings define',
 "The schema of a CSV dataset is exactly the one its header (or numbering), name prefix, duplicate-name policy, column selection and type settings define, with types inferred from the first row where none is given; every row of every file lands in these columns with the values of its fields, the header of every file is skipped exactly when it should be, and datasets that contradict the settings are refused. None of this depends on stores, chunking, batch size, resets, the schedule or earlier failures.",
 ['inputs','schedules','fault_sequences'],"every combination of CSV settings, headers, files, resets and schedules","Tests read a few files with one or two settings each.",
 [R+'csv_reader.cc',R+'csv_reader.h',R+'schema.cc'],[('names and types settled on the first row',R+'csv_reader.cc')],(),['Csv_reader::read_schema','Csv_reader::read_example'])
prop('C28','Images come out with the configured size, channels and colour order',
 "Each image of a dataset becomes one uint8 entry of the configured height, width and channels in NHWC layout: decoded, brought to the channels asked for, its shorter edge scaled to the resize value with the aspect ratio kept, in BGR or RGB order as configured with alpha untouched, and cropped from its centre. An image that is damaged, too small or of the wrong channels is handled by the bad-example policy, and nothing else is - a failure of the machine is never taken for a bad image. Settings that cannot be met are refused.",
 ['inputs','schedules','fault_sequences'],"every image, setting, policy, schedule and failure","Tests read one kind of image with one setting.",
 [R+'image_reader.cc',I+'image_reader.h'],[('decode, resize, convert, crop',R+'image_reader.cc')],(),['Image_reader::read_example'])
prop('C29','RecordIO-protobuf features are delivered bit for bit',
 "The first selected RecordIO-protobuf message fixes the schema: one attribute per label (prefixed label_) and feature with its number type, shape and density; a message no schema can be had from is refused. A later message is accepted exactly if it has those attributes, each once, with that type, density and shape, as many values as the shape or the keys say and every key inside the shape; any other one is handled by the bad-example policy. Values of accepted messages arrive bit for bit, dense or at the coordinates of their keys, serially or in parallel; a failure of the machine is never taken for a bad message.",
 ['inputs','schedules','fault_sequences'],"every message, attribute set, policy, schedule and failure","Tests read a few well-formed messages.",
 [R+'recordio_protobuf_reader.cc',R+'coo_tensor_builder.cc',R+'schema.cc'],[('infer_schema, decode_feature',R+'recordio_protobuf_reader.cc'),('coordinates from keys',R+'coo_tensor_builder.cc:append_indices')],(),['Recordio_protobuf_reader::read_schema','Recordio_protobuf_reader::read_example'])
M='src/mlio-py/mlio/'
prop('C30','A Python program gets what a C++ program gets, and never hangs',
 "A data reader used from Python with some parameters returns exactly the examples, schemas, byte counts and end of data that the same reader returns in C++ with these parameters, and raises the Python exception that corresponds to each C++ error, with its message and cause. This holds while several Python threads work, while a Python function handles the library's log messages - whatever it does and whenever it is replaced - and however readers, stores and examples are reset, dropped or collected: no call hangs, crashes or leaks because a library thread needs the interpreter.",
 ['schedules','configurations','fault_sequences'],"every reader, parameter, log handler, order of operations and release, and every interleaving of Python threads, the interpreter lock and library threads",
 "The tests use one Python thread, no log handler and a few parameters; whether a library thread wants the interpreter lock at the moment it is held is a matter of the schedule.",
 [M+'core/data_reader.cc',M+'core/logging.cc',M+'core/error.cc',M+'core/data_store.cc',M+'core/py_memory_block.cc','src/mlio/logger.cc'],[('interpreter lock released around blocking calls',M+'core/data_reader.cc'),('translation of exceptions',M+'core/error.cc'),('log handler called with the lock held',M+'core/logging.cc')],(),['DataReader.read_example','DataReader.reset','set_log_message_handler'])
prop('C31','What Python and the library share keeps its contents and its owner',
 "Every buffer that Python gets from a tensor, device array, memory slice, record or DLPack capsule has the type, shape, strides and contents of the object it comes from, keeps them however long it is held and whatever is dropped meanwhile, and cannot be used to write to data that is not the caller's. A tensor made from a Python buffer has exactly the elements of that buffer, in its order and whatever its strides, shares its memory only if asked to, and is refused otherwise. Each side holds what it uses, and lets go of it, on whatever thread, with the interpreter lock held and without a leak.",
 ['inputs','schedules'],"every array type, shape and layout, every text, every order in which tensors, arrays, examples, readers, streams and buffers are dropped, and the thread that drops them last",
 "The tests convert a few tensors and drop nothing early.",
 [M+'core/py_buffer.cc',M+'core/py_device_array.cc',M+'core/tensor.cc',M+'core/example.cc',M+'core/memory.cc',M+'core/record_reader.cc',M+'core/stream.cc',M+'core/integ.cc',M+'integ/numpy.py',M+'integ/scipy.py',M+'integ/pandas.py',M+'integ/tensorflow.py'],[('copy or share a Python buffer',M+'core/py_buffer.cc:make_device_array'),('buffer of a string tensor',M+'core/py_device_array.cc'),('ownership of a DLPack capsule',M+'core/integ.cc')],(),['DenseTensor','CooTensor','DeviceArray','MemorySlice','as_dlpack','as_numpy','to_tensor'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+'\n')
