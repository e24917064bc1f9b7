// C02: records depend on the bytes only, never on how they arrive.
#include "work/records.h"
#include <mlio/streams/utf8_input_stream.h>
using namespace mlio;
using namespace wk;

static void records()
{
    Rk k = static_cast<Rk>(sim::w(3));
    Csv_params p;
    bool skip_blank = sim::wflip();
    Str bytes;
    Recs want;
    if (k == Rk::recordio) {
        std::uint32_t n = sim::w(8);
        for (std::uint32_t i = 0; i < n; ++i) {
            Str pay;
            std::uint32_t len = sim::w(4) ? sim::w(24) : sim::w(120);
            for (std::uint32_t j = 0; j < len; ++j) pay += static_cast<char>(sim::w(7) == 0 ? 0x0a : 'a' + static_cast<int>(j % 26));
            if (sim::wone_in(4)) pay += "\x0a\x23\xd7\xce";
            bytes += put_recordio(pay, sim::wone_in(4));
        }
        if (sim::wone_in(4) && !bytes.empty()) {  // damaged tail
            if (sim::wflip()) bytes.resize(bytes.size() - 1 - sim::w(static_cast<std::uint32_t>(std::min<std::size_t>(bytes.size(), 20))));
            else bytes += Str(1 + sim::w(20), '\x0a');
        }
        want = model_recordio(bytes);
    }
    else {
        if (sim::wone_in(3)) p.delimiter = ';';
        if (sim::wone_in(3)) p.quote_char = '\'';
        if (sim::wflip()) p.comment_char = '#';
        p.allow_quoted_new_lines = sim::wflip();
        p.skip_blank_lines = sim::wflip();
        if (sim::wone_in(4)) p.max_line_length = 4 + sim::w(30);
        bytes = nasty_text(p, sim::wone_in(4) ? 80 : 16);
        want = k == Rk::text ? model_lines(bytes, skip_blank) : model_csv(bytes, p);
    }
    random_legal_io();
    sim::describe("%s records, %zu bytes", k == Rk::text ? "text" : k == Rk::csv ? "csv" : "recordio", bytes.size());
    if (sim::tracing()) sim::note("bytes: %s", esc(bytes, 400).c_str());
    // Reference: the bytes in one piece in memory.
    random_knobs();
    Recs base;
    {
        auto st = make_intrusive<In_memory_store>(to_slice(bytes));
        auto r = make_records(k, st->open_read(), p, skip_blank);
        base = read_records(*r, false);
    }
    if (!want.fuzzy) compare_records(base, want, "wrong-records", "in memory");
    auto kinds = all_kinds(true);
    for (int i = 0; i < 2; ++i) {
        random_knobs();
        Kind kd = sim::wpick(kinds);
        auto st = make_store(bytes, kd, "s" + std::to_string(i));
        Recs got;
        {
            auto s = st->open_read();
            if (k != Rk::recordio && sim::wflip()) s = make_utf8_stream(std::move(s));
            auto r = make_records(k, std::move(s), p, skip_blank);
            if (sim::wone_in(8)) static_cast<Stream_record_reader &>(*r).set_record_size_hint(1 + sim::w(200));
            got = read_records(*r, sim::wflip());
        }
        compare_records(got, base, "split-dependent", kind_name(kd));
    }
}

// Whole data readers: the same bytes behind different stores and settings.
static void readers()
{
    Gen g;
    g.max_rows = 24;
    g.fmts = {Fmt::csv, Fmt::text, Fmt::recordio, Fmt::image_rec};
    Dataset d = make_dataset(g);
    Data_reader_params p{};
    p.batch_size = 1 + sim::w(5);
    p.num_prefetched_examples = 1 + sim::w(2);
    p.num_parallel_reads = 1 + sim::w(2);
    auto want = expect(d, p);
    random_legal_io();
    for (int i = 0; i < 2; ++i) {
        random_knobs();
        Stores st = make_stores(d, all_kinds(true), "d" + std::to_string(i) + "_");
        auto q = p;
        q.dataset = st.list;
        auto r = make_reader(d, q);
        auto o = read_all(*r, d);
        SIM_CHECK(!o.error, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
        check_prefix(o.ex, want, "wrong-rows", true);
    }
}

// Data readers on text with arbitrary structure.
static void odd_text()
{
    Csv_params p;
    p.header_row_index = std::nullopt;
    p.skip_blank_lines = true;
    p.allow_quoted_new_lines = sim::wflip();
    if (sim::wflip()) p.comment_char = '#';
    bool csv = sim::wflip();
    Str bytes = nasty_text(p, 40);
    p.default_data_type = Data_type::string;
    sim::describe("odd text, %s reader", csv ? "csv" : "text");
    if (sim::tracing()) sim::note("bytes: %s", esc(bytes, 400).c_str());
    Dataset d;
    d.fmt = csv ? Fmt::csv : Fmt::text;
    d.csv = p;
    d.stores.resize(1);
    d.stores[0].rows.resize(bytes.size() + 3);
    random_legal_io();
    Data_reader_params dp{};
    dp.batch_size = 1 + sim::w(3);
    dp.num_prefetched_examples = 1;
    dp.num_parallel_reads = 1;
    dp.bad_example_handling = sim::wflip() ? Bad_example_handling::error : Bad_example_handling::pad;
    dp.warn_bad_instances = false;
    Outcome base;
    for (int i = 0; i < 2; ++i) {
        random_knobs();
        auto q = dp;
        q.dataset.push_back(make_store(bytes, i == 0 ? Kind::mem : sim::wpick(all_kinds(true)), "o" + std::to_string(i)));
        auto r = make_reader(d, q);
        auto o = read_all(*r, d);
        if (i == 0) { base = o; if (o.error) sim::probe("odd text: error"); continue; }
        for (std::size_t j = 0; j < o.ex.size() && j < base.ex.size(); ++j)
            SIM_CHECK(o.ex[j] == base.ex[j], "split-dependent", "example %zu is %s, in memory %s", j, o.ex[j].text().c_str(), base.ex[j].text().c_str());
        // Decoded examples still queued when an error occurs may be dropped.
        if (!base.error && !o.error)
            SIM_CHECK(o.ex.size() == base.ex.size(), "split-dependent", "%zu examples, in memory %zu", o.ex.size(), base.ex.size());
        SIM_CHECK(o.error == base.error, "split-dependent", "%s, in memory %s", o.error ? o.what.c_str() : "clean end", base.error ? base.what.c_str() : "clean end");
    }
    if (!csv && !base.error) {
        auto m = model_lines(bytes, false);
        std::vector<Str> rows;
        for (auto &e : base.ex) rows.insert(rows.end(), e.rows.begin(), e.rows.end());
        SIM_CHECK(rows.size() == m.recs.size(), "wrong-lines", "%zu lines, expected %zu", rows.size(), m.recs.size());
        for (std::size_t i = 0; i < rows.size(); ++i)
            SIM_CHECK(rows[i] == m.recs[i].data, "wrong-lines", "line %zu is '%s', expected '%s'", i, esc(rows[i]).c_str(), esc(m.recs[i].data).c_str());
    }
}

static void run()
{
    switch (sim::w(4)) {
    case 0: case 1: records(); break;
    case 2: odd_text(); break;
    default: readers(); break;
    }
}
SIM_WORKLOAD("C02", run);
