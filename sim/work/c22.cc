// C22: concatenated Parquet files are split exactly into their files.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/record_readers/parquet_record_reader.h"
using namespace mlio;
using namespace wk;

namespace {
std::uint32_t le32(const Str &s, std::size_t p)
{
    return static_cast<std::uint32_t>(static_cast<unsigned char>(s[p])) | static_cast<std::uint32_t>(static_cast<unsigned char>(s[p + 1])) << 8 |
           static_cast<std::uint32_t>(static_cast<unsigned char>(s[p + 2])) << 16 | static_cast<std::uint32_t>(static_cast<unsigned char>(s[p + 3])) << 24;
}
Str put32(std::size_t v)
{
    Str s;
    for (int i = 0; i < 4; ++i) s += static_cast<char>(v >> 8 * i & 255);
    return s;
}
const Str magic = "PAR1";
// First bytes of the fields of the metadata.
const std::vector<char> first{0x15, 0x29, 0x36, 0x49, 0x59, 0x68, 0x79};

// Whether the bytes in front of position p could be the metadata and its
// length: then the file could just as well end there.
bool footer_like(const Str &f, std::size_t p)
{
    if (p < 8 || f.compare(p, 4, magic) != 0) return false;
    std::uint64_t n = le32(f, p - 4);
    return n >= 9 && n + 4 <= p - 4 && f[p - 5] == 0 && std::find(first.begin(), first.end(), f[p - 4 - n]) != first.end();
}
Str make_file()
{
    for (;;) {
        Str f = magic;
        auto junk = [&](std::uint32_t pieces) {
            Str s;
            for (std::uint32_t i = sim::w(pieces + 1); i > 0; --i)
                switch (sim::w(7)) {
                case 0: s += magic; break;
                case 1: s += Str(sim::w(12), '\0'); break;
                case 2: s += put32(sim::w(40)) + magic; break;          // a length and the marker
                case 3: s += '\0' + put32(9 + sim::w(4)) + magic; break;  // ... behind a stop field
                case 4: s += magic.substr(0, 1 + sim::w(3)); break;
                case 5: s += sim::wpick(first); break;
                default: s += Str(1 + sim::w(30), static_cast<char>('a' + sim::w(3)));
                }
            return s;
        };
        f += junk(sim::wone_in(5) ? 60 : 8);
        Str meta(1, sim::wpick(first));
        meta += junk(3);
        while (meta.size() < 8) meta += 'm';
        meta += '\0';
        if (sim::wone_in(6)) {
            // No payload, the smallest metadata there can be.
            f = magic;
            meta = Str(1, sim::wpick(first)) + Str(7, sim::wflip() ? '\0' : 'P') + '\0';
        }
        f += meta + put32(meta.size());
        std::size_t end = f.size();
        f += magic;
        bool twice = false;
        for (std::size_t p = 8; p < end; ++p) twice = twice || footer_like(f, p);
        if (!twice) return f;
        sim::probe("a look-alike footer avoided");
    }
}
struct Held {
    Record r;
    Str copy;
};
Recs read_some(Record_reader &r, std::vector<Held> &held)
{
    Recs out;
    for (;;) {
        Outcome o;
        std::optional<Record> rec;
        bool look = sim::wone_in(4), had = false;
        Str seen;
        if (!guarded(o, [&] {
                sim::Op_scope sc("read_record");
                if (look) {
                    auto p = r.peek_record();
                    had = p.has_value();
                    if (p) seen = from_slice(p->payload());
                }
                rec = r.read_record();
            })) {
            out.error = true;
            out.what = o.what;
            out.type = o.type;
            return out;
        }
        if (look) SIM_CHECK(had == rec.has_value() && (!rec || seen == from_slice(rec->payload())), "peek-mismatch", "peek_record and read_record disagree");
        if (!rec) return out;
        out.recs.push_back({from_slice(rec->payload()), static_cast<int>(rec->kind())});
        SIM_CHECK(rec->kind() == Record_kind::complete, "wrong-kind", "a record of kind %d", static_cast<int>(rec->kind()));
        SIM_CHECK(out.recs.size() <= 1000, "too-many-records", "%zu records", out.recs.size());
        if (sim::wone_in(3)) held.push_back({*rec, out.recs.back().data});
    }
}
Intrusive_ptr<Record_reader> reader(Intrusive_ptr<Input_stream> s)
{
    auto r = make_intrusive<mlio::detail::Parquet_record_reader>(std::move(s));
    if (sim::wone_in(6)) r->set_record_size_hint(1 + sim::w(300));
    return std::move(r);
}
}  // namespace

static void run()
{
    random_legal_io();
    std::vector<Str> files;
    Str bytes;
    std::vector<std::size_t> end;
    for (std::uint32_t n = sim::w(6); n > 0; --n) {
        files.push_back(make_file());
        bytes += files.back();
        end.push_back(bytes.size());
    }
    // What becomes of the source.
    Recs want;
    std::size_t whole = files.size();
    bool open_end = false;   // damage that the format cannot tell
    std::uint32_t dmg = bytes.empty() ? 0 : sim::w(8);
    const char *label = "intact";
    if (dmg == 1 || dmg == 2) {
        std::size_t cut = sim::w(static_cast<std::uint32_t>(bytes.size()));
        if (dmg == 2) {  // inside the footer or the opening marker of some file
            std::size_t e = end[sim::w(static_cast<std::uint32_t>(end.size()))];
            std::size_t d = sim::w(18);
            cut = sim::wflip() ? e - std::min<std::size_t>(d, e) : std::min(bytes.size(), e + d % 5);
        }
        bytes.resize(cut);
        whole = static_cast<std::size_t>(std::upper_bound(end.begin(), end.end(), cut) - end.begin());
        want.error = cut != (whole ? end[whole - 1] : 0);
        label = "truncated";
        if (want.error) sim::fault_injected(sim::f_truncate);
    }
    else if (dmg == 3) {
        // An opening marker is damaged.
        whole = sim::w(static_cast<std::uint32_t>(files.size()));
        std::size_t at = whole ? end[whole - 1] : 0;
        bytes[at + sim::w(4)] ^= static_cast<char>(1u << sim::w(8));
        want.error = true;
        label = "damaged marker";
        sim::fault_injected(sim::f_corrupt);
    }
    else if (dmg == 4) {
        for (std::uint32_t i = 1 + sim::w(4); i > 0; --i) bytes[sim::w(static_cast<std::uint32_t>(bytes.size()))] ^= static_cast<char>(1u << sim::w(8));
        open_end = true;
        label = "corrupted";
        sim::fault_injected(sim::f_corrupt);
    }
    else if (dmg == 5 && files.size() > 0) {
        // Something behind the last file that is no file.
        bytes += sim::wflip() ? Str(1 + sim::w(20), 'x') : magic + Str(sim::w(12), '\0');
        want.error = true;
        label = "trailing bytes";
        sim::fault_injected(sim::f_corrupt);
    }
    for (std::size_t i = 0; i < whole; ++i) want.recs.push_back({files[i], static_cast<int>(Record_kind::complete)});
    sim::describe("%s, %zu files, %zu bytes ", label, files.size(), bytes.size());
    if (sim::tracing()) sim::note("bytes: %s", esc(bytes, 500).c_str());
    std::vector<Held> held;
    random_knobs();
    Recs base;
    {
        auto st = make_intrusive<In_memory_store>(to_slice(bytes));
        auto r = reader(st->open_read());
        base = read_some(*r, held);
    }
    if (!open_end) compare_records(base, want, "wrong-records", "in memory");
    if (want.error) sim::probe("ends in an error");
    if (whole > 1) sim::probe("several files");
    std::uint64_t rounds = 2;
    for (std::uint64_t i = 0; i < rounds; ++i) {
        random_knobs();
        Kind kd = sim::wpick(all_kinds(true));
        auto st = make_store(bytes, kd, "p" + std::to_string(i));
        auto r = reader(st->open_read());
        Recs got = read_some(*r, held);
        compare_records(got, base, "split-dependent", kind_name(kd));
    }
    // With failures: a prefix, then an error.
    if (sim::wone_in(3)) {
        random_knobs();
        Kind kd = sim::wpick(all_kinds(true));
        auto st = make_store(bytes, kd, "q");
        random_allocator();
        random_hard_faults(false);
        Recs got;
        Outcome o;
        Intrusive_ptr<Record_reader> r;
        if (guarded(o, [&] { sim::Op_scope sc("open"); r = reader(st->open_read()); })) {
            auto before = sim::hard_faults_fired();
            (void)before;
            got = read_some(*r, held);
            for (int again = 0; again < 3 && got.error && sim::hard_faults_fired() > 0; ++again) {
                // A later attempt goes on where the failed one stopped, or fails as well.
                Recs more = read_some(*r, held);
                got.recs.insert(got.recs.end(), more.recs.begin(), more.recs.end());
                got.error = more.error;
                got.what = more.what;
                sim::probe("read again after a failure");
            }
            for (std::size_t i = 0; i < got.recs.size(); ++i)
                SIM_CHECK(i < base.recs.size() && got.recs[i] == base.recs[i], "wrong-after-failure", "%s: record %zu of %zu is '%s'", kind_name(kd), i, base.recs.size(), esc(got.recs[i].data).c_str());
            if (got.error) SIM_CHECK(base.error || sim::hard_faults_fired() > 0, "unexpected-error", "%s", got.what.c_str());
            else SIM_CHECK(got.recs.size() == base.recs.size() && !base.error, "lost-records", "%s: a clean end after %zu records of %zu", kind_name(kd), got.recs.size(), base.recs.size());
            r = nullptr;
        }
        else SIM_CHECK(sim::hard_faults_fired() > 0, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
        sim::faults.armed = false;
    }
    for (auto &h : held)
        SIM_CHECK(from_slice(h.r.payload()) == h.copy, "record-changed", "a held record changed");
}
SIM_WORKLOAD("C22", run);
