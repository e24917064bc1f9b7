// C19: listing files is complete, naturally ordered and never silently partial.
#include <fts.h>
#include "work/faulty.h"
#include "work/names.h"
#include "mlio/data_stores/file.h"
using namespace mlio;
using namespace wk;

namespace {
struct Node {
    enum Kind { file, dir, fifo, file_link, dir_link, broken_link, loop_link } kind = file;
    Str name;
    Str data;                     // of the file it is or points to
    Node *target = nullptr;       // of a link to a directory
    std::vector<std::unique_ptr<Node>> kids;
    bool volatile_ = false;       // comes or goes while the listing runs
};
std::vector<Node *> dirs, files;
void fill(Node &d, const Str &path, int depth)
{
    std::set<Str> used;
    std::uint32_t n = sim::w(depth == 0 ? 8 : 5);
    if (sim::wone_in(10)) n += 8;
    for (std::uint32_t i = 0; i < n; ++i) {
        auto k = std::make_unique<Node>();
        k->name = make_name();
        if (!used.insert(k->name).second) continue;
        Str p = path + "/" + k->name;
        std::uint32_t r = sim::w(12);
        if (r < 2 && depth < 3) {
            k->kind = Node::dir;
            sim::fs::add_dir(p);
            dirs.push_back(k.get());
            fill(*k, p, depth + 1);
        }
        else if (r == 2) {
            k->kind = Node::fifo;
            sim::fs::add_fifo(p, {});
        }
        else if (r == 3) {
            k->kind = Node::broken_link;
            sim::fs::add_link(p, "/sim/nowhere");
        }
        else if (r == 4) {
            k->kind = Node::file_link;
            k->data = "linked " + k->name;
            sim::fs::add_file("/sim/store/" + std::to_string(files.size()), k->name.size() > 3 && k->name.substr(k->name.size() - 3) == ".gz" ? gz(k->data, 31) : k->data);
            sim::fs::add_link(p, "/sim/store/" + std::to_string(files.size()));
            files.push_back(k.get());
        }
        else if (r == 5 && depth > 0) {
            k->kind = Node::loop_link;
            sim::fs::add_link(p, path.substr(0, path.find('/', 5)));
        }
        else if (r == 6) {
            // The directory beside the tree.
            k->kind = Node::dir_link;
            sim::fs::add_link(p, "/sim/other");
        }
        else {
            k->data = "content of " + p;
            bool gzip = k->name.size() > 3 && k->name.substr(k->name.size() - 3) == ".gz";
            sim::fs::add_file(p, gzip ? gz(k->data, 31) : k->data);
            files.push_back(k.get());
        }
        d.kids.push_back(std::move(k));
    }
}
struct Item {
    Str path;
    Str data;
    bool sure = true;
};
// The listing of a directory, in natural order.
void expect_list(const Node &d, const Node &other, const Str &path, std::vector<Item> &out, int depth = 0)
{
    std::vector<const Node *> k;
    for (auto &x : d.kids) k.push_back(x.get());
    std::sort(k.begin(), k.end(), [](const Node *a, const Node *b) { return natural(a->name, b->name) < 0; });
    for (auto *x : k) {
        Str p = path + "/" + x->name;
        if (x->kind == Node::file || x->kind == Node::file_link) out.push_back({p, x->data, !x->volatile_});
        else if (x->kind == Node::dir) expect_list(*x, other, p, out, depth + 1);
        else if (x->kind == Node::dir_link && depth < 50) expect_list(other, other, p, out, depth + 100);
    }
}
bool gz_name(const Str &p) { return p.size() > 3 && p.substr(p.size() - 3) == ".gz"; }
}  // namespace

static void run()
{
    random_legal_io();
    dirs.clear();
    files.clear();
    std::uint32_t nroots = 1 + sim::w(3);
    Node other;
    std::vector<std::unique_ptr<Node>> roots;
    sim::fs::add_dir("/sim/store");
    sim::fs::add_dir("/sim/other");
    for (int i = 1; i <= 11; i += 5) {
        auto k = std::make_unique<Node>();
        k->name = "o" + std::to_string(i);
        k->data = "other " + std::to_string(i);
        sim::fs::add_file("/sim/other/" + k->name, k->data);
        other.kids.push_back(std::move(k));
    }
    std::vector<Str> paths;
    std::vector<Item> want;
    for (std::uint32_t i = 0; i < nroots; ++i) {
        // Named so that the order of the paths is the order they are given in.
        Str p = "/sim/r" + std::to_string(std::vector<int>{2, 9, 10, 100}[i]);
        roots.push_back(std::make_unique<Node>());
        roots.back()->name = p;
        if (sim::wone_in(5)) {
            roots.back()->data = "root file " + p;
            sim::fs::add_file(p, roots.back()->data);
            roots.back()->kind = Node::file;
        }
        else {
            roots.back()->kind = Node::dir;
            sim::fs::add_dir(p);
            dirs.push_back(roots.back().get());
            fill(*roots.back(), p, 0);
        }
        paths.push_back(p);
    }
    bool concurrent = sim::wone_in(4);
    // Files that come or go while the listing runs.
    std::vector<std::pair<Str, bool>> moves;
    if (concurrent)
        for (auto &r : roots)
            if (r->kind == Node::dir)
                for (std::uint32_t i = sim::w(3); i > 0; --i) {
                    auto k = std::make_unique<Node>();
                    k->name = "v" + std::to_string(i);
                    k->volatile_ = true;
                    Str p = r->name + "/" + k->name;
                    bool leaves = sim::wflip();
                    if (leaves) sim::fs::add_file(p, "");
                    moves.emplace_back(p, leaves);
                    r->kids.push_back(std::move(k));
                }
    for (auto &r : roots) {
        if (r->kind == Node::file) want.push_back({r->name, r->data});
        else expect_list(*r, other, r->name, want);
    }
    // The roots given in any order come out in natural order.
    for (std::size_t i = paths.size(); i > 1; --i) std::swap(paths[i - 1], paths[sim::w(static_cast<std::uint32_t>(i))]);

    static const std::vector<Str> pats{"*.csv", "*part-*", "*1*", "*/x*", "*", "/sim/r2/*", "*[ab].csv", "nothing", "*.gz"};
    Str pat = sim::wflip() ? Str{} : sim::wpick(pats);
    auto match = [&](const Str &p) {
        auto has = [&](const char *s) { return p.find(s) != Str::npos; };
        auto ends = [&](const Str &s) { return p.size() >= s.size() && p.substr(p.size() - s.size()) == s; };
        if (pat.empty() || pat == "*") return true;
        if (pat == "*.csv") return ends(".csv");
        if (pat == "*part-*") return has("part-");
        if (pat == "*1*") return has("1");
        if (pat == "*/x*") return has("/x");
        if (pat == "/sim/r2/*") return p.compare(0, 8, "/sim/r2/") == 0;
        if (pat == "*[ab].csv") return ends("a.csv") || ends("b.csv");
        if (pat == "*.gz") return ends(".gz");
        return false;
    };
    bool use_pred = sim::wone_in(3), pred_throws = false;
    std::uint32_t mod = 2 + sim::w(3), rem = sim::w(2), calls = 0, throw_at = sim::wone_in(6) ? sim::w(6) : 1000;
    std::vector<Str> asked;
    File_list_options::Predicate_callback pred = [&](const Str &p) {
        sim::yield_point("predicate");
        asked.push_back(p);
        if (calls++ == throw_at) {
            pred_throws = true;
            throw std::runtime_error{"predicate"};
        }
        return p.size() % mod != rem;
    };
    File_list_options opt{};
    opt.pattern = pat;
    if (use_pred) opt.predicate = &pred;
    opt.memory_map = sim::wflip();
    opt.compression = sim::wone_in(3) ? Compression::none : Compression::infer;
    std::vector<Item> sel;
    for (auto &i : want)
        if (match(i.path) && (!use_pred || i.path.size() % mod != rem)) sel.push_back(i);

    // Failing directories and entries.
    bool must_fail = false;
    if (sim::wone_in(3)) {
        std::uint32_t r = sim::w(4);
        if (r == 0) {
            paths.insert(paths.begin() + sim::w(static_cast<std::uint32_t>(paths.size() + 1)), "/sim/missing");
            must_fail = true;
        }
        else if (r == 1) {
            Node &n = *roots[sim::w(static_cast<std::uint32_t>(roots.size()))];
            bool examine = sim::wflip();
            sim::fs::set_dir_error(n.name, examine ? FTS_NS : FTS_DNR, EACCES);
            // Reading the entries of a file cannot fail.
            must_fail = examine || n.kind == Node::dir;
        }
        else {
            sim::faults.p[sim::f_fts_fail] = std::vector<double>{0.1, 0.02, 0.5}[sim::w(3)];
            sim::faults.budget[sim::f_fts_fail] = 1 + static_cast<int>(sim::w(2));
        }
    }
    bool alloc = sim::wone_in(8);
    if (alloc) {
        sim::new_fail_min = 1;
        sim::faults.p[sim::f_new_fail] = 0.05;
        sim::faults.budget[sim::f_new_fail] = 1;
    }
    sim::describe("%zu roots, %zu files, pattern '%s'%s%s%s ", paths.size(), want.size(), pat.c_str(), use_pred ? ", predicate" : "", concurrent ? ", changing tree" : "", must_fail ? ", missing path" : "");

    std::unique_ptr<sim::Thread> mover;
    if (concurrent)
        mover = std::make_unique<sim::Thread>([&] {
            for (auto &m : moves) {
                sim::yield_point("mover");
                if (m.second) sim::fs::remove(m.first);
                else sim::fs::add_file(m.first, "");
            }
        });
    std::vector<Intrusive_ptr<Data_store>> got;
    Outcome o;
    bool ok = guarded(o, [&] {
        sim::Op_scope sc("list_files");
        if (paths.size() == 1 && !use_pred && opt.memory_map && opt.compression == Compression::infer && sim::wflip()) got = list_files(paths[0], pat);
        else got = list_files(paths, opt);
    });
    if (mover) mover->join();
    sim::faults.armed = false;
    bool fts_failed = sim::fault_fired(sim::f_fts_fail) != 0;
    SIM_CHECK(sim::fs::open_fts() == 0, "fts-left", "%d directory traversals are open", sim::fs::open_fts());
    if (!ok) {
        sim::probe("an operation failed");
        bool vanished = concurrent && o.type.find("system_error") != Str::npos;
        SIM_CHECK(must_fail || fts_failed || pred_throws || sim::fault_fired(sim::f_new_fail) || vanished, "unexpected-error", "%s: %s", o.type.c_str(), o.what.c_str());
        if (pred_throws && !fts_failed && !must_fail && !alloc && !vanished) SIM_CHECK(o.what == "predicate", "wrong-error", "the exception of the predicate is lost: %s", o.what.c_str());
        got.clear();
        return;
    }
    SIM_CHECK(!must_fail, "silent-failure", "a missing path is not reported: %zu files listed", got.size());
    SIM_CHECK(!fts_failed, "silent-failure", "a failed directory operation is not reported: %zu of %zu files listed", got.size(), sel.size());
    SIM_CHECK(!pred_throws, "silent-failure", "the exception of the predicate is lost");
    std::vector<Item> seen;
    std::size_t g = 0;
    for (auto &i : sel) {
        bool here = g < got.size() && got[g]->id() == i.path;
        if (!here && !i.sure) continue;
        SIM_CHECK(here, "wrong-list", "file %zu of the list is %s, want %s (%zu of %zu)", g, g < got.size() ? got[g]->id().c_str() : "missing", i.path.c_str(), got.size(), sel.size());
        seen.push_back(i);
        ++g;
    }
    SIM_CHECK(g == got.size(), "wrong-list", "an extra file: %s", got[g]->id().c_str());
    if (!got.empty()) sim::probe("listed");
    if (got.size() > 10) sim::probe("long list");
    // Each store is the file it is named after, opened the way that was asked for.
    for (std::size_t i = 0; i < got.size() && i < 6; ++i) {
        if (!seen[i].sure) continue;
        std::size_t at = sim::w(static_cast<std::uint32_t>(got.size()));
        if (!seen[at].sure) continue;
        auto st = got[at]->open_read();
        Str b(seen[at].data.size() + 200, 0), all;
        bool inflate = opt.compression == Compression::infer && gz_name(seen[at].path);
        for (;;) {
            std::size_t n = st->read(Mutable_memory_span{reinterpret_cast<std::byte *>(b.data()), b.size()});
            if (n == 0) break;
            all.append(b, 0, n);
        }
        Str w = gz_name(seen[at].path) && !inflate ? gz(seen[at].data, 31) : seen[at].data;
        SIM_CHECK(all == w, "wrong-file", "%s delivers %s, want %s", seen[at].path.c_str(), esc(all).c_str(), esc(w).c_str());
        if (!inflate) SIM_CHECK(st->supports_zero_copy() == opt.memory_map, "wrong-options", "%s: memory-mapped %d, want %d", seen[at].path.c_str(), st->supports_zero_copy(), opt.memory_map);
    }
}
SIM_WORKLOAD("C19", run);
