// C25: reading S3 objects is the same as reading local files.
#include "aws/fake_aws.h"
#include "work/faulty.h"
#include "work/names.h"
#include "mlio/data_stores/s3_object.h"
#include "mlio/streams/s3_input_stream.h"
using namespace mlio;
using namespace wk;

namespace {
using E = Aws::S3::S3Errors;
std::errc kind_of(E e)
{
    switch (e) {
    case E::SERVICE_UNAVAILABLE: return std::errc::host_unreachable;
    case E::ACCESS_DENIED: return std::errc::permission_denied;
    case E::RESOURCE_NOT_FOUND: case E::NO_SUCH_BUCKET: case E::NO_SUCH_KEY: return std::errc::no_such_file_or_directory;
    case E::REQUEST_TIMEOUT: return std::errc::timed_out;
    default: return std::errc::io_error;
    }
}
struct Result {
    bool ok = true, system = false;
    std::error_code code{};
    Str what;
};
Result attempt(const char *op, const std::function<void()> &fn)
{
    Result r;
    try {
        sim::Op_scope sc(op);
        fn();
    }
    catch (const std::system_error &e) {
        r.ok = false;
        r.system = true;
        r.code = e.code();
        r.what = e.what();
    }
    catch (const std::exception &e) {
        r.ok = false;
        r.what = e.what();
    }
    return r;
}
// Whether an operation that failed was allowed to.
void check_failure(const Result &r, std::uint64_t s3_before, std::uint64_t all_before, bool single)
{
    std::uint64_t s3 = sim::fault_fired(sim::f_s3_fail);
    SIM_CHECK(sim::hard_faults_fired() > all_before, "unexpected-error", "%s", r.what.c_str());
    sim::probe("a request failed");
    // Several threads may have failures of their own.
    if (single && s3 > s3_before && sim::hard_faults_fired() - all_before == s3 - s3_before) {
        E e = static_cast<E>(sim::s3::last_error());
        SIM_CHECK(r.system && r.code == kind_of(e), "error-kind", "error %d of the service comes out as %s", static_cast<int>(e), r.what.c_str());
    }
}
Str random_bytes(std::uint32_t max)
{
    Str s;
    for (std::uint32_t i = sim::w(max + 1); i > 0; --i) s += static_cast<char>(sim::w(256));
    return s;
}
void random_service()
{
    if (sim::wflip()) sim::s3::set_delays({0, 50, 0, 3000, 7, 100});
}
void random_failures()
{
    sim::faults.p[sim::f_s3_fail] = std::vector<double>{0.1, 0.4, 1.0}[sim::w(3)];
    sim::faults.budget[sim::f_s3_fail] = 1 + static_cast<int>(sim::w(4));
    if (sim::wone_in(3)) random_hard_faults(false);
}

// ---- a stream or the client, while other versions come and go
struct Obj {
    Str key, pinned;      // the version asked for
    Str data;
};
void drive(const Obj &o, bool single)
{
    Intrusive_ptr<Input_stream> st;
    auto fired = [] { return std::make_pair(sim::fault_fired(sim::f_s3_fail), sim::hard_faults_fired()); };
    auto f = fired();
    auto run = [&](const char *op, const std::function<void()> &fn) {
        f = fired();
        Result r = attempt(op, fn);
        if (!r.ok) check_failure(r, f.first, f.second, single);
        return r.ok;
    };
    S3_object store{s3_client(), "s3://bucket/" + o.key, o.pinned, Compression::none};
    if (!run("open", [&] { st = store.open_read(); })) return;
    std::size_t pos = 0, n = 0;
    SIM_CHECK(st->seekable(), "seekable", "an S3 stream is not seekable");
    for (std::uint32_t i = 4 + sim::w(24); i > 0; --i) {
        std::size_t want = sim::wone_in(4) ? o.data.size() - pos : sim::w(static_cast<std::uint32_t>(o.data.size() + 4));
        Str b(want + 4, '\x5a');
        auto span = Mutable_memory_span{reinterpret_cast<std::byte *>(b.data()), want};
        std::size_t r = 0, at = pos;
        switch (sim::w(8)) {
        case 0: case 1: case 2: case 3:
            if (!run("read", [&] { r = st->read(span); })) break;
            SIM_CHECK(r <= want && b.substr(want) == Str(4, '\x5a'), "overrun", "a read of %zu returns %zu", want, r);
            SIM_CHECK(b.compare(0, r, o.data, pos, r) == 0 && pos + r <= o.data.size(), "wrong-bytes", "a read of %zu at %zu of %zu returns %s", want, pos, o.data.size(), esc(b.substr(0, r)).c_str());
            SIM_CHECK(r > 0 || want == 0 || pos == o.data.size(), "false-end", "a read of %zu at %zu of %zu returns nothing", want, pos, o.data.size());
            pos += r;
            break;
        case 4:
            at = sim::w(static_cast<std::uint32_t>(o.data.size() + 1));
            if (run("seek", [&] { st->seek(at); })) pos = at;
            break;
        case 5:
            if (run("size", [&] { n = st->size(); })) SIM_CHECK(n == o.data.size(), "wrong-size", "size %zu of %zu", n, o.data.size());
            if (run("position", [&] { n = st->position(); })) SIM_CHECK(n == pos, "wrong-position", "position %zu, want %zu", n, pos);
            break;
        case 6:
            // The client itself.
            at = sim::w(static_cast<std::uint32_t>(o.data.size() + 1));
            if (at == o.data.size() || want == 0) break;
            if (!run("read_object", [&] { r = s3_client()->read_object("bucket", o.key, o.pinned, at, span); })) break;
            SIM_CHECK(r == std::min(want, o.data.size() - at) && b.compare(0, r, o.data, at, r) == 0, "wrong-bytes", "read_object of %zu at %zu of %zu returns %zu", want, at, o.data.size(), r);
            break;
        default:
            if (!run("read_object_size", [&] { n = s3_client()->read_object_size("bucket", o.key, o.pinned); })) break;
            SIM_CHECK(n == o.data.size(), "wrong-size", "read_object_size returns %zu of %zu", n, o.data.size());
        }
    }
    // The rest.
    for (int guard = 0; guard < 2000; ++guard) {
        Str b(1 + sim::w(300), 0);
        std::size_t r = 0;
        if (!run("read", [&] { r = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(b.data()), b.size()}); })) continue;
        SIM_CHECK(pos + r <= o.data.size() && b.compare(0, r, o.data, pos, r) == 0, "wrong-bytes", "a read at %zu of %zu returns %s", pos, o.data.size(), esc(b.substr(0, r)).c_str());
        pos += r;
        if (r == 0) break;
    }
    SIM_CHECK(pos == o.data.size(), "false-end", "the stream ends after %zu of %zu bytes", pos, o.data.size());
    st->close();
    Result r = attempt("read", [&] { char c; st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(&c), 1}); });
    SIM_CHECK(!r.ok, "closed-works", "a read of a closed stream succeeds");
    sim::probe("object read to its end");
}
void versions()
{
    std::vector<Obj> objs;
    std::uint32_t n = 1 + sim::w(3);
    for (std::uint32_t i = 0; i < n; ++i) {
        Obj o;
        o.key = (sim::wflip() ? "a/b c/" : "") + Str("k") + std::to_string(i);
        o.data = random_bytes(sim::wone_in(3) ? 1500 : 100);
        bool pinned = sim::wflip();
        if (sim::wone_in(3)) sim::s3::put("bucket", o.key, random_bytes(100), "old");
        sim::s3::put("bucket", o.key, o.data, "it");
        if (pinned) o.pinned = "it";
        if (pinned && sim::wflip()) sim::s3::put("bucket", o.key, random_bytes(100), "new");
        if (pinned && sim::wone_in(3)) {
            // Overwritten or deleted while it is read.
            bool del = sim::wflip();
            Str key = o.key, data = random_bytes(50);
            sim::at(1 + sim::w(5000), [=] { del ? sim::s3::remove("bucket", key) : sim::s3::put("bucket", key, data, "newer"); });
        }
        objs.push_back(o);
    }
    random_service();
    bool threads = sim::wone_in(3);
    sim::describe("%u objects%s ", n, threads ? ", threads" : "");
    if (sim::wflip()) random_failures();
    s3_client();
    if (threads) {
        std::vector<std::unique_ptr<sim::Thread>> th;
        for (auto &o : objs) th.push_back(std::make_unique<sim::Thread>([&o] { drive(o, false); }));
        th.push_back(std::make_unique<sim::Thread>([&objs] { drive(objs[0], false); }));
        for (auto &t : th) t->join();
    }
    else
        for (auto &o : objs) drive(o, true);
}

// ---- the current version is replaced while it is read
void replaced()
{
    Str a = random_bytes(400), b = random_bytes(400);
    if (sim::wflip()) b.resize(sim::w(static_cast<std::uint32_t>(b.size() + 1)));
    sim::s3::put("bucket", "k", a);
    random_service();
    sim::describe("replaced: %zu by %zu bytes ", a.size(), b.size());
    bool gone = sim::wone_in(4), done = false;
    auto st = S3_object{s3_client(), "s3://bucket/k", "", Compression::none}.open_read();
    std::size_t pos = 0;
    for (int guard = 0; guard < 500; ++guard) {
        if (!done && sim::wone_in(4)) {
            gone ? sim::s3::remove("bucket", "k") : sim::s3::put("bucket", "k", b);
            done = true;
        }
        Str buf(1 + sim::w(60), 0);
        std::size_t r = 0;
        Result res = attempt("read", [&] { r = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(buf.data()), buf.size()}); });
        if (!res.ok) {
            SIM_CHECK(res.system && done && (gone || pos >= b.size()), "unexpected-error", "at %zu: %s", pos, res.what.c_str());
            sim::probe("the rest of a replaced object is missing");
            return;
        }
        if (r == 0) {
            SIM_CHECK(pos == a.size(), "false-end", "the stream ends after %zu of %zu bytes", pos, a.size());
            return;
        }
        const Str &now = done ? b : a;
        SIM_CHECK(pos + r <= now.size() && buf.compare(0, r, now, pos, r) == 0, "wrong-bytes", "a read at %zu returns %s", pos, esc(buf.substr(0, r)).c_str());
        pos += r;
    }
}

// ---- data readers
void readers()
{
    Session s;
    Gen g;
    g.max_rows = 20;
    s.d = make_dataset(g);
    random_knobs();
    random_legal_io();
    if (sim::wflip()) random_allocator();
    s.st = make_stores(s.d, {Kind::s3, Kind::s3, Kind::gz_s3, Kind::file_stream});
    random_service();
    s.p.dataset = s.st.list;
    random_tuning(s.p);
    if (sim::wone_in(3)) random_policies(s.p);
    s.want = expect(s.d, s.p);
    sim::describe("reader %s ", params_text(s.p).c_str());
    s.open();
    bool faulty = sim::wflip();
    if (faulty) random_failures();
    for (std::uint32_t k = sim::w(3); k > 0; --k) {
        for (std::size_t i = 0; i < s.want.ex.size() + 3; ++i) {
            int rc = s.read(sim::wone_in(5));
            if (rc < 0) {
                SIM_CHECK(s.want.error || sim::hard_faults_fired() > 0, "unexpected-error", "%s", s.err.what.c_str());
                if (s.failed) break;
            }
            if (rc == 0) break;
        }
        s.reset();
    }
    sim::faults.armed = false;
    s.reset();
    s.finish();
    sim::probe("dataset read to its end");
}

// ---- listing
void listing()
{
    std::vector<Str> buckets{"b1", "bucket-2"};
    std::map<Str, std::set<Str>> keys;
    for (auto &b : buckets) {
        sim::s3::make_bucket(b);
        std::uint32_t n = sim::w(30);
        if (sim::wone_in(8)) n += 40;
        for (std::uint32_t i = 0; i < n; ++i) {
            Str k;
            for (std::uint32_t j = sim::w(3); j > 0; --j) k += Str{"d"} + std::to_string(1 + sim::w(11)) + "/";
            k += make_name();
            if (sim::wone_in(10)) k = make_name() + "/";
            if (keys[b].insert(k).second) sim::s3::put(b, k, "x");
        }
        // Deleted ones are not listed.
        if (sim::wone_in(3)) { sim::s3::put(b, "zz-deleted", "x"); sim::s3::remove(b, "zz-deleted"); }
    }
    std::vector<int> pages;
    for (std::uint32_t i = sim::w(4); i > 0; --i) pages.push_back(1 + static_cast<int>(sim::w(12)));
    sim::s3::set_pages(pages);
    random_service();
    std::vector<Str> uris, prefixes, bs;
    for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) {
        Str b = sim::wpick(buckets), p;
        switch (sim::w(5)) {
        case 0: break;
        case 1: p = "d1"; break;
        case 2: p = "d1/"; break;
        case 3:
            if (!keys[b].empty()) {
                auto it = keys[b].begin();
                std::advance(it, sim::w(static_cast<std::uint32_t>(keys[b].size())));
                p = it->substr(0, sim::w(static_cast<std::uint32_t>(it->size() + 1)));
            }
            break;
        default: p = "none";
        }
        bs.push_back(b);
        prefixes.push_back(p);
        uris.push_back("s3://" + b + (p.empty() && sim::wflip() ? "" : "/") + p);
    }
    Str pattern = sim::wpick(std::vector<Str>{"", "", "*.csv", "*x*", "s3://b1/*", "*/d1/*", "nothing"});
    bool pred = sim::wone_in(3);
    std::set<Str> seen;
    S3_object_list_options::Predicate_callback fn = [](const Str &u) { return u.size() % 2 == 0; };
    S3_object_list_options opt;
    opt.pattern = pattern;
    if (pred) opt.predicate = &fn;
    bool single_form = uris.size() == 1 && !pred && sim::wflip();
    // Objects that come or go meanwhile may be listed or not.
    std::set<Str> volatile_;
    if (sim::wone_in(4)) {
        for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) {
            Str b = sim::wpick(buckets);
            if (sim::wflip() || keys[b].empty()) {
                Str k = make_name() + "-late";
                volatile_.insert("s3://" + b + "/" + k);
                keys[b].insert(k);
                sim::at(1 + sim::w(4000), [=] { sim::s3::put(b, k, "x"); });
            }
            else {
                auto it = keys[b].begin();
                std::advance(it, sim::w(static_cast<std::uint32_t>(keys[b].size())));
                Str k = *it;
                volatile_.insert("s3://" + b + "/" + k);
                sim::at(1 + sim::w(4000), [=] { sim::s3::remove(b, k); });
            }
        }
        sim::probe("objects come and go");
    }
    std::vector<Str> want;
    auto match = [&](const Str &u) {
        auto has = [&](const Str &x) { return u.find(x) != Str::npos; };
        bool m = pattern.empty() || (pattern == "*.csv" && u.size() >= 4 && u.compare(u.size() - 4, 4, ".csv") == 0) || (pattern == "*x*" && has("x")) ||
                 (pattern == "s3://b1/*" && u.compare(0, 8, "s3://b1/") == 0) || (pattern == "*/d1/*" && has("/d1/"));
        return m && (!pred || u.size() % 2 == 0);
    };
    for (std::size_t i = 0; i < uris.size(); ++i)
        for (auto &k : keys[bs[i]]) {
            Str u = "s3://" + bs[i] + "/" + k;
            if (k.compare(0, prefixes[i].size(), prefixes[i]) == 0 && match(u)) want.push_back(u);
        }
    std::sort(want.begin(), want.end(), [](const Str &x, const Str &y) { return natural(x, y) < 0; });
    sim::describe("listing of %zu, %zu objects, pattern '%s'%s ", uris.size(), want.size(), pattern.c_str(), pred ? ", predicate" : "");
    if (sim::wflip()) random_failures();
    auto client = s3_client();
    for (int round = 0; round < 2; ++round) {
        auto f3 = sim::fault_fired(sim::f_s3_fail), fa = sim::hard_faults_fired();
        std::vector<Intrusive_ptr<Data_store>> got;
        Result r = attempt("list_s3_objects", [&] {
            got = single_form ? list_s3_objects(*client, uris[0], pattern) : list_s3_objects(*client, uris, opt);
        });
        if (!r.ok) {
            check_failure(r, f3, fa, true);
            continue;
        }
        std::vector<Str> ids, exp = want;
        for (auto &s : got) ids.push_back(s->id());
        auto drop = [&](std::vector<Str> &v) { v.erase(std::remove_if(v.begin(), v.end(), [&](const Str &u) { return volatile_.count(u) != 0; }), v.end()); };
        drop(ids);
        drop(exp);
        SIM_CHECK(ids.size() == exp.size(), "incomplete", "%zu objects listed, %zu are there", ids.size(), exp.size());
        for (std::size_t i = 0; i < ids.size(); ++i) SIM_CHECK(ids[i] == exp[i], "wrong-listing", "entry %zu is %s, want %s", i, ids[i].c_str(), exp[i].c_str());
        if (!pages.empty() && exp.size() > 12) sim::probe("listing of several pages");
    }
}

// ---- clients, addresses, missing objects
void edges()
{
    sim::describe("edges ");
    // Clients are made from what they are given; any number of them.
    std::uint32_t n = 1 + sim::w(3);
    for (std::uint32_t i = 0; i < n; ++i) {
        S3_client_options o;
        bool own = sim::wflip(), token = sim::wflip(), prof = sim::wflip(), reg = sim::wflip();
        if (own) { o.access_key_id = "AKIA"; o.secret_key = "shh"; }
        if (own && token) o.session_token = "tok";
        if (prof) o.profile = "prof";
        if (reg) o.region = "eu-west-1";
        o.use_https = sim::wflip();
        Intrusive_ptr<S3_client> c;
        { sim::Op_scope sc("make_s3_client"); c = make_s3_client(o); }
        auto &l = sim::s3::last_client();
        SIM_CHECK(l.id == (own ? "AKIA" : "default-id") && l.secret == (own ? "shh" : "default-secret") && l.token == (own ? (token ? "tok" : "") : "default-token"), "credentials", "client with the credentials %s", l.id.c_str());
        SIM_CHECK(l.profile == (prof ? "prof" : "") && l.region == (reg ? "eu-west-1" : "us-east-1") && l.https == o.use_https, "configuration", "client for %s/%s", l.profile.c_str(), l.region.c_str());
        int before = sim::s3::clients();
        c = nullptr;
        SIM_CHECK(sim::s3::clients() == before - 1, "client-leak", "the client outlives its last owner");
    }
    static const std::vector<Str> wrong{"", "s3:/", "s3://", "s3:///key", "s3://bucket", "s3://bucket/", "/local/file", "S3://bucket/key", "s3"};
    auto u = sim::wpick(wrong);
    Outcome o;
    SIM_CHECK(!guarded(o, [&] { S3_object{s3_client(), u}; }) && o.type.find("invalid_argument") != Str::npos, "bad-uri-accepted", "'%s'", u.c_str());
    sim::s3::put("bucket", "denied", "data");
    sim::s3::set_error("bucket", "denied", static_cast<int>(E::ACCESS_DENIED));
    sim::s3::put("bucket", "versioned", "data", "v");
    struct Case { Str uri, version; std::errc e; };
    static const std::vector<Case> cases{{"s3://bucket/missing", "", std::errc::no_such_file_or_directory}, {"s3://nowhere/k", "", std::errc::no_such_file_or_directory},
                                         {"s3://bucket/denied", "", std::errc::permission_denied}, {"s3://bucket/versioned", "w", std::errc::no_such_file_or_directory}};
    auto &c = sim::wpick(cases);
    auto st = make_intrusive<S3_object>(s3_client(), c.uri, c.version, Compression::none);
    SIM_CHECK(st->id() == (c.version.empty() ? c.uri : c.uri + "@" + c.version), "wrong-id", "%s", st->id().c_str());
    Result r = attempt("open", [&] { st->open_read(); });
    SIM_CHECK(!r.ok && r.system && r.code == c.e, "error-kind", "opening %s: %s", c.uri.c_str(), r.ok ? "works" : r.what.c_str());
    r = attempt("list_s3_objects", [&] { list_s3_objects(*s3_client(), Str{"s3://nowhere/x"}); });
    SIM_CHECK(!r.ok && r.system && r.code == std::errc::no_such_file_or_directory, "error-kind", "listing a missing bucket: %s", r.ok ? "works" : r.what.c_str());
    // A reader names the store.
    Data_reader_params p;
    p.dataset = {st};
    p.batch_size = 1;
    auto rd = make_intrusive<Text_line_reader>(std::move(p));
    SIM_CHECK(!guarded(o, [&] { sim::Op_scope sc("read_example"); rd->read_example(); }) && o.type.find("Data_reader_error") != Str::npos && o.what.find(st->id()) != Str::npos, "reader-error", "%s: %s",
              o.type.c_str(), o.what.c_str());
}
}  // namespace

static void run()
{
    sim::s3::make_bucket("bucket");
    switch (sim::w(8)) {
    case 0: case 1: case 2: versions(); break;
    case 3: replaced(); break;
    case 4: case 5: readers(); break;
    case 6: listing(); break;
    default: edges();
    }
}
SIM_WORKLOAD("C25", run);
