// Shared workload library: dataset generators, stores, decoders and the
// reference model of what a data reader has to deliver.
#pragma once
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <optional>
#include <string>
#include <vector>

#include <mlio.h>
#include <mlio/data_reader_error.h>
#include <mlio/record_readers/record_error.h>
#include <mlio/streams/input_stream_base.h>
#include <mlio/streams/stream_error.h>

#include "rt/rt.h"

namespace wk {
using Str = std::string;

Str esc(const Str &s, std::size_t max = 60);
Str gz(const Str &data, int window_bits);  // 15+16 gzip, 15 zlib
// One or more gzip members / a zlib stream chosen by the workload stream.
Str gz_random(const Str &data);
mlio::Memory_slice to_slice(const Str &s);
Str from_slice(const mlio::Memory_slice &s);

// ---------------------------------------------------------------- datasets
enum class Fmt { csv, text, recordio, image, image_rec };
inline const char *fmt_name(Fmt f)
{
    static const char *n[] = {"csv", "text", "recordio", "image", "image-recordio"};
    return n[static_cast<int>(f)];
}

struct Row {
    Str canon;              // canonical value
    bool bad = false;       // must be rejected by decoding
    std::size_t size = 0;   // bytes of the instance
};

struct Store_data {
    Str bytes;
    std::vector<Row> rows;
    // [begin, end) of each row's bytes in the store, line end or padding included
    std::vector<std::pair<std::size_t, std::size_t>> extent;
};

struct Dataset {
    Fmt fmt{};
    std::vector<Store_data> stores;
    mlio::Csv_params csv{};
    mlio::Image_reader_params img{};
    bool sparse = false;
    std::vector<Row> rows() const;
    std::size_t num_rows() const;
};

struct Gen {
    std::vector<Fmt> fmts{Fmt::csv, Fmt::text, Fmt::recordio, Fmt::image, Fmt::image_rec};
    int max_stores = 3;
    int max_rows = 30;      // whole dataset
    int min_rows = 0;
    int bad_one_in = 0;     // 0 = no bad rows; otherwise one row in about n
    bool first_bad_ok = false;  // bad rows allowed where the schema is inferred
    bool simple = false;    // plain rows: no exotic syntax
    bool allow_sparse = true;
    bool split_records = true;
};
Dataset make_dataset(const Gen &g);

// ---------------------------------------------------------------- stores
// A caller-supplied store whose stream hands the bytes out in pieces.
struct Frag_cfg {
    int max_piece = 0;           // 0 = as asked
    bool seekable = false;
    bool zero_copy = false;
    std::uint64_t fail_at = UINT64_MAX;  // read at this offset throws ...
    int fail_times = 0;                  // ... this many times
    int fail_kind = 0;                   // 0 system_error, 1 Stream_error, 2 Not_supported, 3 runtime_error
    int open_fail_times = 0;
    std::uint64_t delay_us = 0;          // per read
};
class Frag_store final : public mlio::Data_store {
public:
    Frag_store(Str id, Str data, Frag_cfg cfg) : id_{std::move(id)}, data_{std::move(data)}, cfg_{cfg} {}
    mlio::Intrusive_ptr<mlio::Input_stream> open_read() const override;
    std::string repr() const override { return id_; }
    const std::string &id() const override { return id_; }
    // Observations
    mutable std::uint64_t consumed = 0;  // bytes handed out, all opens
    mutable std::uint64_t opens = 0;
    mutable int live_streams = 0;
    mutable int fail_left = -1;
    mutable int open_fail_left = -1;
    mutable std::uint64_t failures = 0;
    Str id_;
    Str data_;
    Frag_cfg cfg_;
};

enum class Kind { mem, file_mmap, file_stream, gz_file, gz_file_mmap, gz_mem, frag, frag_seek, s3, gz_s3, pipe };
const char *kind_name(Kind k);
std::vector<Kind> all_kinds(bool pipes = false);

struct Stores {
    std::vector<mlio::Intrusive_ptr<mlio::Data_store>> list;
    std::vector<Kind> kinds;
    std::vector<Str> paths;  // empty for in-memory
    bool has_pipe = false;
};
// The client of the simulated S3 service; made when it is needed first.
mlio::Intrusive_ptr<const mlio::S3_client> s3_client();
// Puts every store of the dataset behind a store kind chosen from kinds.
Stores make_stores(const Dataset &d, const std::vector<Kind> &kinds, const Str &prefix = "d");
mlio::Intrusive_ptr<mlio::Data_store> make_store(const Str &bytes, Kind k, const Str &name, Str *path = nullptr);

// ---------------------------------------------------------------- readers
mlio::Intrusive_ptr<mlio::Data_reader> make_reader(const Dataset &d, mlio::Data_reader_params p);

// Chooses internal buffer sizes, hardware threads and legal read fragmentation.
void random_knobs();
void random_legal_io();  // short reads, spurious wake-ups
// Prefetch / parallel / batch.
void random_tuning(mlio::Data_reader_params &p);
Str params_text(const mlio::Data_reader_params &p);

struct Ex {
    std::vector<Str> rows;  // good rows, then the rest
    std::size_t size = 0;   // batch dimension
    std::size_t padding = 0;
    bool operator==(const Ex &o) const { return rows == o.rows && size == o.size && padding == o.padding; }
    Str text() const;
};
Ex decode(const mlio::Example &e, const Dataset &d);
extern const char *const pad_row;  // canonical value of a zero row

// ---------------------------------------------------------------- model
struct Expected {
    std::vector<Ex> ex;      // delivered examples, in order
    bool error = false;      // ends with an error (bad row under policy error)
    std::vector<std::vector<std::size_t>> batch_rows;  // global row numbers per delivered example
    std::uint64_t bytes = 0; // bytes of the decoded batches
};
// Selected row numbers (ranged, sharded; not sampled or shuffled).
std::vector<std::size_t> select_rows(const Dataset &d, const mlio::Data_reader_params &p);
Expected expect(const Dataset &d, const mlio::Data_reader_params &p);
Expected expect_rows(const Dataset &d, const mlio::Data_reader_params &p, const std::vector<std::size_t> &rows);

// ---------------------------------------------------------------- running
struct Outcome {
    std::vector<Ex> ex;
    bool error = false;
    Str what, type;
};
// Calls fn; returns false and fills the outcome if it throws.
bool guarded(Outcome &o, const std::function<void()> &fn);
// Reads to the end (or the first error), at most max examples.
Outcome read_all(mlio::Data_reader &r, const Dataset &d, std::size_t max = SIZE_MAX);
// Reads one example: 1 = example, 0 = end, -1 = error.
int read_one(mlio::Data_reader &r, const Dataset &d, Ex &out, Outcome &err, bool peek = false);

// Compares what was delivered with the model; raises a violation on mismatch.
// prefix: fewer examples than expected is fine (the run stopped early).
void check_prefix(const std::vector<Ex> &got, const Expected &want, const char *cls, bool complete);

std::vector<int> interesting_sizes();
}  // namespace wk
