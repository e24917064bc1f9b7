// Reference splitters for the record formats, written from the format
// descriptions, and a driver for the record readers.
#pragma once
#include "work/common.h"
#include "mlio/record_readers/csv_record_reader.h"
#include "mlio/record_readers/text_line_record_reader.h"
#include "mlio/record_readers/recordio_record_reader.h"

namespace wk {
struct Rec {
    Str data;
    int kind = 0;
    bool operator==(const Rec &o) const { return data == o.data && kind == o.kind; }
};
struct Recs {
    std::vector<Rec> recs;
    bool error = false;    // the source ends with an error after recs
    bool fuzzy = false;    // the model leaves open whether a line is too long
    Str what, type;
};

// Text: one record per line; line ends are \n, \r\n and \r.
Recs model_lines(const Str &bytes, bool skip_blank);
Recs model_csv(const Str &bytes, const mlio::Csv_params &p);
Recs model_recordio(const Str &bytes);

enum class Rk { text, csv, recordio };
mlio::Intrusive_ptr<mlio::Record_reader> make_records(Rk k, mlio::Intrusive_ptr<mlio::Input_stream> s, const mlio::Csv_params &p, bool skip_blank);
// Reads to the end or the first error. peek: look ahead before some reads.
Recs read_records(mlio::Record_reader &r, bool peek, std::size_t max = 100000);
Str nasty_text(const mlio::Csv_params &p, std::uint32_t max_pieces);
Str put_recordio(const Str &payload, bool split);  // one well-formed (multi-part) record
void compare_records(const Recs &got, const Recs &want, const char *cls, const char *what);
}  // namespace wk
