// C21: damaged input never causes memory errors, hangs or invented data.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/record_readers/parquet_record_reader.h"
using namespace mlio;
using namespace wk;

namespace {
std::uint64_t touch_array(const Device_array_view &v)
{
    std::uint64_t h = v.size();
    if (v.data_type() == Data_type::string) {
        for (auto &s : v.as<Str>())
            for (char c : s) h = h * 31 + static_cast<unsigned char>(c);
        return h;
    }
    std::size_t w = 8;
    switch (v.data_type()) {
    case Data_type::uint8: case Data_type::int8: w = 1; break;
    case Data_type::uint16: case Data_type::int16: case Data_type::float16: w = 2; break;
    case Data_type::uint32: case Data_type::int32: case Data_type::float32: w = 4; break;
    default: break;
    }
    auto *p = static_cast<const unsigned char *>(v.data());
    for (std::size_t i = 0; i < v.size() * w; ++i) h = h * 31 + p[i];
    return h;
}
// Looks at every value of an example; what the tensors claim has to be there.
std::uint64_t touch(const Example &e)
{
    std::uint64_t h = e.padding;
    auto &attrs = e.schema().attributes();
    SIM_CHECK(attrs.size() == e.features().size(), "schema-mismatch", "%zu attributes, %zu features", attrs.size(), e.features().size());
    std::size_t size = SIZE_MAX;
    for (std::size_t k = 0; k < attrs.size(); ++k) {
        auto &t = *e.features()[k];
        SIM_CHECK(!t.shape().empty(), "bad-shape", "tensor without dimensions");
        if (size == SIZE_MAX) size = t.shape()[0];
        SIM_CHECK(t.shape()[0] == size, "bad-shape", "features with batch dimensions %zu and %zu", size, t.shape()[0]);
        SIM_CHECK(t.data_type() == attrs[k].data_type(), "schema-mismatch", "data type of %s", attrs[k].name().c_str());
        std::size_t n = 1;
        bool huge = false;
        for (auto s : t.shape()) huge = huge || __builtin_mul_overflow(n, s, &n);
        if (auto *d = dynamic_cast<const Dense_tensor *>(&t)) {
            SIM_CHECK(!huge && d->data().size() == n, "bad-shape", "a dense tensor of %zu values claims %zu", d->data().size(), n);
            h = h * 31 + touch_array(d->data());
        }
        else if (auto *c = dynamic_cast<const Coo_tensor *>(&t)) {
            std::size_t nnz = c->data().size();
            h = h * 31 + touch_array(c->data());
            for (std::size_t dim = 0; dim < t.shape().size(); ++dim) {
                auto ix = c->indices(dim);
                SIM_CHECK(ix.size() == nnz, "coo-mismatch", "%zu coordinates for %zu values", ix.size(), nnz);
                auto v = ix.as<std::size_t>();
                for (std::size_t i = 0; i < nnz; ++i) {
                    SIM_CHECK(v[i] < t.shape()[dim], "coo-mismatch", "coordinate %zu in dimension %zu of %zu", v[i], dim, t.shape()[dim]);
                    h = h * 31 + v[i];
                }
            }
        }
        else h = h * 31 + Str{t.repr()}.size();
    }
    SIM_CHECK(size == SIZE_MAX || e.padding <= size, "bad-padding", "padding %zu of a batch of %zu", e.padding, size);
    return h;
}

// One way of damaging bytes; returns the offset from which they differ.
std::size_t damage(Str &b, Fmt f)
{
    Str o = b;
    auto n = static_cast<std::uint32_t>(b.size());
    auto at = [&] { return static_cast<std::size_t>(sim::w(n)); };
    sim::fault_injected(sim::f_corrupt);
    switch (sim::w(9)) {
    case 0: b.resize(at()); break;
    case 1: b[at()] ^= static_cast<char>(1u << sim::w(8)); break;
    case 2: {  // special bytes of the formats
        static const Str special{"\n\r\",'#\0\xff\x7f\x80 P\x0a\x12\xef", 16};
        for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) b[at()] = special[sim::w(static_cast<std::uint32_t>(special.size()))];
        break;
    }
    case 3: {  // a part twice
        std::size_t p = at(), l = 1 + sim::w(40);
        b.insert(at(), b.substr(p, l));
        break;
    }
    case 4: {  // a part is lost
        b.erase(at(), 1 + sim::w(40));
        break;
    }
    case 5: {  // zeroed
        std::size_t p = at(), l = std::min<std::size_t>(b.size() - p, 1 + sim::w(64));
        for (std::size_t i = 0; i < l; ++i) b[p + i] = 0;
        break;
    }
    case 6: {  // two parts swapped
        std::size_t l = 1 + sim::w(16);
        if (b.size() < 2 * l) { b.pop_back(); break; }
        std::size_t p = sim::w(static_cast<std::uint32_t>(b.size() - 2 * l + 1)), q = p + l + sim::w(static_cast<std::uint32_t>(b.size() - p - 2 * l + 1));
        std::swap_ranges(b.begin() + static_cast<long>(p), b.begin() + static_cast<long>(p + l), b.begin() + static_cast<long>(q));
        break;
    }
    case 7: {  // a number of four bytes
        static const std::vector<std::uint32_t> v{0, 1, 0x1fffffff, 0x20000000, 0x3fffffff, 0x5fffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x60000004, 0x20000004, 0x40000000, 3, 5};
        std::size_t p = at() & ~std::size_t{3};
        std::uint32_t x = sim::wpick(v);
        for (int i = 0; i < 4 && p + static_cast<std::size_t>(i) < b.size(); ++i) b[p + static_cast<std::size_t>(i)] = static_cast<char>(x >> 8 * i);
        break;
    }
    default: {  // the payloads of two records in one, or a shortened one
        if (f != Fmt::recordio && f != Fmt::image_rec) {
            for (std::uint32_t i = 1 + sim::w(8); i > 0; --i) b[at()] ^= static_cast<char>(1 + sim::w(255));
            break;
        }
        Recs r = model_recordio(b);
        if (r.recs.empty()) break;
        std::size_t k = sim::w(static_cast<std::uint32_t>(r.recs.size())), j = sim::w(static_cast<std::uint32_t>(r.recs.size()));
        Str out;
        for (std::size_t i = 0; i < r.recs.size(); ++i) {
            Str p = r.recs[i].data;
            if (i == k) {
                if (sim::wone_in(3)) p.resize(sim::w(static_cast<std::uint32_t>(p.size() + 1)));
                else if (sim::wflip()) p += r.recs[j].data;
                else p = r.recs[j].data + p;
            }
            Str one = put_recordio(p, false);
            // The kind of the part stays.
            one[7] = static_cast<char>((one[7] & 0x1f) | r.recs[i].kind << 5);
            out += one;
        }
        b = out;
    }
    }
    std::size_t d = 0;
    while (d < b.size() && d < o.size() && b[d] == o[d]) ++d;
    return b == o ? SIZE_MAX : d;
}

void data_readers()
{
    Session s;
    Gen g;
    g.max_rows = sim::wone_in(4) ? 30 : 12;
    g.min_rows = 1;
    s.d = make_dataset(g);
    Dataset hurt = s.d;
    std::size_t safe = 0;       // rows in front of the damage
    std::size_t k = sim::w(static_cast<std::uint32_t>(s.d.stores.size()));
    Store_data &sd = hurt.stores[k];
    std::size_t off = SIZE_MAX;
    bool gz_damage = false, shrink = sim::wone_in(8);
    Kind kind = sim::wpick(all_kinds(true));
    Str packed;
    if (shrink) kind = Kind::file_stream;
    else if (sim::wone_in(6)) {
        // The compressed form of the store is damaged.
        gz_damage = true;
        packed = gz_random(sd.bytes);
        if (!packed.empty())
            for (std::uint32_t i = 1 + sim::w(2); i > 0; --i) damage(packed, Fmt::text);
        off = 0;
    }
    else if (!sd.bytes.empty())
        for (std::uint32_t i = 1 + sim::w(3); i > 0 && !sd.bytes.empty(); --i) off = std::min(off, damage(sd.bytes, s.d.fmt));
    for (std::size_t i = 0; i < k; ++i) safe += s.d.stores[i].rows.size();
    std::size_t in_store = 0;
    bool image = s.d.fmt == Fmt::image;
    for (auto &x : s.d.stores[k].extent)
        if (!image && off != SIZE_MAX && x.second <= off) in_store++;
    if (off == SIZE_MAX && !shrink) safe = s.d.num_rows();
    else safe += in_store;

    random_knobs();
    if (sim::wflip()) sim::set_knob("parallel_decode_cut_off", 1);
    random_legal_io();
    for (std::size_t i = 0; i < hurt.stores.size(); ++i) {
        Kind kd = i == k ? kind : sim::wpick(all_kinds());
        Str name = "d" + std::to_string(i);
        if (i == k && gz_damage) {
            if (sim::wflip()) s.st.list.push_back(make_intrusive<In_memory_store>(to_slice(packed), Compression::gzip));
            else {
                sim::fs::add_file("/sim/" + name + ".gz", packed);
                s.st.list.push_back(make_intrusive<File>("/sim/" + name + ".gz", sim::wflip()));
            }
        }
        else s.st.list.push_back(make_store(hurt.stores[i].bytes, kd, name));
    }
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    random_policies(s.p);
    s.want = expect(s.d, s.p);
    std::size_t whole = safe / s.p.batch_size;
    if (off == SIZE_MAX && !shrink) whole = s.want.ex.size();
    sim::describe("%s damage at %zu of store %zu (%s), %zu rows in front %s", shrink ? "shrinking" : gz_damage ? "compressed" : "", off, k, kind_name(kind), safe, params_text(s.p).c_str());
    if (shrink) {
        sim::faults.p[sim::f_shrink] = 0.5;
        sim::faults.budget[sim::f_shrink] = 1 + static_cast<int>(sim::w(2));
        whole = 0;   // any store of this kind may shrink: only a prefix is known
    }
    Outcome o;
    std::vector<std::uint64_t> first;
    if (!guarded(o, [&] { sim::Op_scope sc("construct"); s.open(); })) return;
    bool first_error = false;
    for (int ep = 0; ep < 2; ++ep) {
        std::vector<std::uint64_t> seen;
        bool error = false, end = false;
        std::size_t got = 0;
        for (std::size_t i = 0; i < 400; ++i) {
            Intrusive_ptr<Example> e;
            std::uint32_t what = sim::w(8);
            if (!guarded(o, [&] {
                    sim::Op_scope sc("read_example");
                    if (what == 0) s.r->peek_example();
                    if (what == 1) s.r->read_schema();
                    e = s.r->read_example();
                })) {
                error = true;
                break;
            }
            if (!e) { end = true; break; }
            seen.push_back(touch(*e));
            if (got < whole) {
                Ex x = decode(*e, s.d);
                SIM_CHECK(got < s.want.ex.size() && x == s.want.ex[got], "wrong-example", "example %zu in front of the damage is %s, expected %s", got, x.text().c_str(),
                          got < s.want.ex.size() ? s.want.ex[got].text().c_str() : "none");
            }
            got++;
        }
        SIM_CHECK(error || end, "endless", "%zu examples", got);
        if (end) SIM_CHECK(got >= whole, "lost-examples", "a clean end after %zu examples, %zu are in front of the damage", got, whole);
        if (error) {
            sim::probe("ends in an error");
            // The error stays.
            bool again = guarded(o, [&] { sim::Op_scope sc("read_example"); s.r->read_example(); });
            SIM_CHECK(!again, "error-forgotten", "a read after the error succeeds");
        }
        else sim::probe("ends cleanly");
        // The damage is the same, and so is the outcome.
        if (ep == 1 && !shrink) {
            SIM_CHECK(first_error == error, "not-repeatable", "the second epoch ends %s", error ? "in an error" : "cleanly");
            for (std::size_t i = 0; i < std::min(first.size(), seen.size()); ++i)
                SIM_CHECK(first[i] == seen[i], "not-repeatable", "example %zu differs in the second epoch", i);
            if (!error) SIM_CHECK(first.size() == seen.size(), "not-repeatable", "%zu examples, in the first epoch %zu", seen.size(), first.size());
        }
        first = seen;
        first_error = error;
        for (auto &st : s.st.list)
            if (dynamic_cast<Sagemaker_pipe *>(st.get()) != nullptr) return;
        s.reset();
    }
    s.destroy();
}

void record_readers()
{
    // Bytes that make no sense for the format.
    int k = static_cast<int>(sim::w(4));
    Str bytes;
    Csv_params p;
    p.allow_quoted_new_lines = sim::wflip();
    if (sim::wflip()) p.comment_char = '#';
    if (sim::wone_in(3)) p.max_line_length = 3 + sim::w(20);
    if (k == 2) {
        for (std::uint32_t i = sim::w(6); i > 0; --i) bytes += put_recordio(Str(sim::w(40), 'p'), sim::wone_in(3));
    }
    else if (k == 3) {
        for (std::uint32_t i = sim::w(4); i > 0; --i) bytes += "PAR1" + Str(sim::w(20), 'q') + Str("\x15mmmmmmm\0\x09\0\0\0PAR1", 17);
    }
    else bytes = nasty_text(p, 30);
    std::uint32_t hits = 1 + sim::w(4);
    for (std::uint32_t i = 0; i < hits && !bytes.empty(); ++i) damage(bytes, k == 2 ? Fmt::recordio : Fmt::text);
    if (sim::wone_in(8)) {
        bytes.clear();
        for (std::uint32_t i = sim::w(200); i > 0; --i) bytes += static_cast<char>(sim::w(256));
    }
    random_legal_io();
    sim::describe("record reader %d, %zu bytes ", k, bytes.size());
    if (sim::tracing()) sim::note("bytes: %s", esc(bytes, 400).c_str());
    Recs base;
    for (int i = 0; i < 3; ++i) {
        random_knobs();
        auto st = make_store(bytes, i == 0 ? Kind::mem : sim::wpick(all_kinds(true)), "r" + std::to_string(i));
        Intrusive_ptr<Record_reader> r;
        auto stream = st->open_read();
        if (k == 3) r = make_intrusive<mlio::detail::Parquet_record_reader>(std::move(stream));
        else r = make_records(static_cast<Rk>(k), std::move(stream), p, false);
        Recs got = read_records(*r, sim::wflip(), 4000);
        if (i == 0) {
            base = got;
            if (k == 2) compare_records(got, model_recordio(bytes), "wrong-records", "recordio");
            if (k == 0) compare_records(got, model_lines(bytes, false), "wrong-records", "text");
            if (got.error) sim::probe("ends in an error");
        }
        else compare_records(got, base, "split-dependent", "damaged source");
        // The error stays: nothing is invented afterwards.
        if (got.error)
            for (int n = 0; n < 2; ++n) {
                Outcome o;
                std::optional<Record> rec;
                bool ok = guarded(o, [&] { sim::Op_scope sc("read_record"); rec = r->read_record(); });
                SIM_CHECK(!ok || !rec, "invented-record", "a record after the error '%s': '%s'", got.what.c_str(), rec ? esc(from_slice(rec->payload())).c_str() : "");
            }
    }
}
}  // namespace

static void run()
{
    if (sim::w(3)) data_readers();
    else record_readers();
}
SIM_WORKLOAD("C21", run);
