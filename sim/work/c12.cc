// C12: looking ahead consumes nothing.
#include "work/records.h"
#include "work/session.h"
#include "mlio/instance_readers/instance_reader.h"
#include "mlio/instance.h"
using namespace mlio;
using namespace wk;

static void examples()
{
    Session s;
    Gen g;
    g.max_rows = 20;
    if (sim::wone_in(4)) g.bad_one_in = 3 + static_cast<int>(sim::w(8));
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    bool failing = sim::wone_in(3);
    if (failing) {
        int i = 0;
        for (auto &sd : s.d.stores) {
            Frag_cfg c;
            c.seekable = sim::wflip();
            if (sim::wflip()) {
                c.fail_at = sim::w(static_cast<std::uint32_t>(sd.bytes.size() + 1));
                c.fail_times = 1;
                c.fail_kind = static_cast<int>(sim::w(4));
            }
            if (sim::wone_in(4)) c.open_fail_times = 1;
            s.st.list.push_back(make_intrusive<Frag_store>("f" + std::to_string(i++), sd.bytes, c));
        }
    }
    else s.st = make_stores(s.d, all_kinds(true));
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(3)) random_policies(s.p);
    if (sim::wone_in(4)) random_selection(s.p, s.d);
    sim::describe("%s", params_text(s.p).c_str());
    s.want = expect(s.d, s.p);
    s.open();
    Intrusive_ptr<const Schema> first;
    bool have = false;
    std::uint32_t epochs = s.st.has_pipe ? 1 : 1 + sim::w(2);
    for (std::uint32_t ep = 0; ep < epochs; ++ep) {
        std::size_t guard = 0;
        while (guard++ < 200) {
            switch (sim::w(4)) {
            case 0: case 1: {
                int rc = s.read(false);
                if (rc < 0) SIM_CHECK(failing || s.want.error, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
                if (rc <= 0 && sim::wflip()) guard = 1000;
                break;
            }
            case 2: {
                int rc = s.read(true);
                if (rc < 0) SIM_CHECK(failing || s.want.error, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
                if (rc <= 0 && sim::wone_in(4)) guard = 1000;
                break;
            }
            default: {
                Intrusive_ptr<const Schema> sc;
                bool was_failed = s.failed;
                if (s.schema(sc)) {
                    if (have && first) SIM_CHECK(sc && *sc == *first, "schema-changed", "read_schema returned a different schema");
                    if (sc) first = sc;
                    have = true;
                    (void)was_failed;
                }
                else SIM_CHECK(failing || s.want.error, "unexpected-error", "%s: %s", s.err.type.c_str(), s.err.what.c_str());
                break;
            }
            }
        }
        if (ep + 1 < epochs || failing) s.reset();
    }
    if (failing) {
        // all failures have been used up or are switched off now
        for (auto &st : s.st.list) {
            auto &f = static_cast<Frag_store &>(*st);
            f.fail_left = f.open_fail_left = 0;
        }
        s.finish();
    }
}

namespace {
class Line_reader final : public Record_reader_base {
public:
    Line_reader(Str data) : data_{std::move(data)} {}
protected:
    std::optional<Record> read_record_core() override
    {
        if (pos_ >= data_.size()) return {};
        Str l(1, data_[pos_++]);
        return Record{to_slice(l)};
    }
private:
    Str data_;
    std::size_t pos_ = 0;
};
}  // namespace

// The internal instance reader stack.
static void instances()
{
    std::uint32_t n = sim::w(20), ns = 1 + sim::w(3);
    Str all;
    for (std::uint32_t i = 0; i < n; ++i) all += static_cast<char>('A' + i);
    Data_reader_params p{};
    std::size_t pos = 0;
    std::vector<Str> parts;
    for (std::uint32_t i = 0; i < ns; ++i) {
        std::size_t len = i + 1 == ns ? all.size() - pos : sim::w(static_cast<std::uint32_t>(all.size() - pos + 1));
        parts.push_back(all.substr(pos, len));
        pos += len;
        p.dataset.push_back(make_intrusive<In_memory_store>(to_slice("s" + std::to_string(i))));
    }
    p.batch_size = 1;
    random_selection(p, n);
    if (sim::wone_in(3)) p.sample_ratio = 0.5F;
    if (sim::wone_in(3)) {
        p.shuffle_instances = true;
        p.shuffle_window = sim::w(5);
        p.shuffle_seed = sim::w(9);
    }
    if (sim::wflip()) p.reshuffle_each_epoch = false;
    sim::describe("instances %u: %s", n, params_text(p).c_str());
    auto make = [&] {
        return mlio::detail::make_instance_reader(p, [&](const Data_store &st) {
            for (std::size_t i = 0; i < p.dataset.size(); ++i)
                if (p.dataset[i].get() == &st) return wrap_intrusive(static_cast<Record_reader *>(new Line_reader(parts[i])));
            return Intrusive_ptr<Record_reader>{};
        });
    };
    auto plain = make(), peeky = make();
    for (int ep = 0; ep < 3; ++ep) {
        std::size_t stop = sim::w(30);
        for (std::size_t k = 0;; ++k) {
            auto a = plain->read_instance();
            Str pk;
            bool did = sim::wflip(), some = false;
            if (did)
                for (std::uint32_t j = 0; j <= sim::w(3); ++j) {
                    auto x = peeky->peek_instance();
                    Str v = x ? from_slice(x->bits()) : "";
                    if (j) SIM_CHECK(v == pk && some == x.has_value(), "peek-changes", "instance peeks differ: '%s' and '%s'", pk.c_str(), v.c_str());
                    pk = v;
                    some = x.has_value();
                }
            auto b = peeky->read_instance();
            Str va = a ? from_slice(a->bits()) : "end", vb = b ? from_slice(b->bits()) : "end";
            SIM_CHECK(va == vb, "peek-consumes", "instance %zu is '%s', without peeking '%s'", k, vb.c_str(), va.c_str());
            if (did) SIM_CHECK((b ? vb : "") == pk, "peek-mismatch", "peeked '%s', read '%s'", pk.c_str(), vb.c_str());
            if (!a || k == stop) break;
        }
        plain->reset();
        peeky->reset();
    }
}

// Readers of records, the library's own and one built on its base class.
static void records()
{
    std::uint32_t kind = sim::w(4);
    Csv_params cp;
    cp.allow_quoted_new_lines = sim::wflip();
    cp.skip_blank_lines = sim::wflip();
    if (sim::wflip()) cp.comment_char = '#';
    Str bytes;
    if (kind == 2)
        for (std::uint32_t i = sim::w(6); i > 0; --i) bytes += put_recordio(Str(sim::w(40), static_cast<char>('a' + i)), sim::wone_in(3));
    else if (kind == 3) bytes = Str("abcdefghijkl", sim::w(12));
    else bytes = nasty_text(cp, 16);
    auto make = [&](Intrusive_ptr<Input_stream> s) {
        return kind == 3 ? wrap_intrusive(static_cast<Record_reader *>(new Line_reader(bytes))) : make_records(static_cast<Rk>(kind), std::move(s), cp, cp.skip_blank_lines);
    };
    random_knobs();
    auto plain = read_records(*make(make_intrusive<In_memory_store>(to_slice(bytes))->open_read()), false);
    Frag_cfg cfg;
    cfg.max_piece = 1 + static_cast<int>(sim::w(9));
    bool failing = kind != 3 && sim::wone_in(3);
    if (failing) {
        cfg.fail_at = sim::w(static_cast<std::uint32_t>(bytes.size() + 1));
        cfg.fail_times = 1 + static_cast<int>(sim::w(2));
        cfg.fail_kind = static_cast<int>(sim::w(4));
    }
    auto st = make_intrusive<Frag_store>("s", bytes, cfg);
    random_knobs();
    auto r = make(st->open_read());
    sim::describe("records of kind %u, %zu bytes%s", kind, bytes.size(), failing ? ", failing" : "");
    std::size_t pos = 0;
    bool had_peek = false;
    for (std::uint32_t ops = 4 + sim::w(60), ends = 0; ops > 0 && ends < 3; --ops) {
        bool peek = sim::wflip();
        std::optional<Record> x;
        Outcome o;
        if (!guarded(o, [&] { x = peek ? r->peek_record() : r->read_record(); })) {
            SIM_CHECK(!had_peek, "peek-lost", "a record was peeked, but %s fails: %s", peek ? "the next peek" : "reading it", o.what.c_str());
            SIM_CHECK(failing || (plain.error && pos == plain.recs.size()), "unexpected-error", "%s after %zu of %zu records: %s", peek ? "peek_record" : "read_record", pos, plain.recs.size(), o.what.c_str());
            continue;
        }
        if (!x) {
            SIM_CHECK(pos == plain.recs.size() && !plain.error, "early-end", "the end after %zu records, %zu without peeking", pos, plain.recs.size());
            ++ends;
            continue;
        }
        Rec got{from_slice(x->payload()), static_cast<int>(x->kind())};
        SIM_CHECK(pos < plain.recs.size(), "extra-record", "record %zu is '%s', but there are %zu without peeking", pos, esc(got.data, 60).c_str(), plain.recs.size());
        SIM_CHECK(got == plain.recs[pos], "peek-consumes", "record %zu is '%s', without peeking '%s'", pos, esc(got.data, 60).c_str(), esc(plain.recs[pos].data, 60).c_str());
        had_peek = peek;
        if (!peek) ++pos;
    }
}

static void run()
{
    if (sim::wone_in(5)) records();
    else if (sim::wone_in(4)) instances();
    else examples();
}
SIM_WORKLOAD("C12", run);
