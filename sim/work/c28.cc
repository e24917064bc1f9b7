// C28: images come out as the configuration says.
#include "work/faulty.h"
#include "work/records.h"
#include "mlio/schema.h"
#include <opencv2/core.hpp>
#include <opencv2/imgcodecs.hpp>
using namespace mlio;
using namespace wk;

namespace {
// Fails the matrices of OpenCV on demand, the way OpenCV reports it.
class Mat_alloc final : public cv::MatAllocator {
public:
    cv::UMatData *allocate(int dims, const int *sizes, int type, void *data, std::size_t *step, cv::AccessFlag flags, cv::UMatUsageFlags usage) const override
    {
        if (data == nullptr) {
            double n = CV_ELEM_SIZE(type);
            for (int i = 0; i < dims; ++i) n *= sizes[i];
            if (n > 256e6 || (on && sim::fault(sim::f_alloc_fail))) throw cv::Exception{cv::Error::StsNoMem, "Failed to allocate", "OutOfMemoryError", "alloc.cpp", 73};
        }
        return cv::Mat::getStdAllocator()->allocate(dims, sizes, type, data, step, flags, usage);
    }
    bool allocate(cv::UMatData *data, cv::AccessFlag flags, cv::UMatUsageFlags usage) const override { return cv::Mat::getStdAllocator()->allocate(data, flags, usage); }
    void deallocate(cv::UMatData *data) const override { cv::Mat::getStdAllocator()->deallocate(data); }
    bool on = false;
};
Mat_alloc mat_alloc;

struct Img {
    int h = 0, w = 0, ch = 0;  // channels in the file: 1, 3 (BGR) or 4 (BGRA)
    bool deep = false, jpeg = false, bad = false;
    std::vector<int> px;
    Str bytes;
    int at(int y, int x, int c) const { return px[static_cast<std::size_t>((y * w + x) * ch + c)]; }
};

Img make_img(int id, int h, int w, int ch, bool jpeg, bool deep)
{
    Img m;
    m.h = h;
    m.w = w;
    m.ch = ch;
    m.jpeg = jpeg;
    m.deep = deep && !jpeg;
    cv::Mat mat(h, w, CV_MAKETYPE(m.deep ? CV_16U : CV_8U, ch));
    std::uint64_t z = static_cast<std::uint64_t>(id) * 0x9e3779b97f4a7c15ull + 12345;
    auto rnd = [&] {
        z ^= z << 13, z ^= z >> 7, z ^= z << 17;
        return static_cast<int>((z >> 20) & 0xffff);
    };
    int flat[4];
    for (int &f : flat) f = rnd() & 0xff;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
            for (int c = 0; c < ch; ++c) {
                int v = jpeg ? flat[c] : m.deep ? rnd() : rnd() & 0xff;
                m.px.push_back(v);
                if (m.deep) mat.ptr<std::uint16_t>(y)[x * ch + c] = static_cast<std::uint16_t>(v);
                else mat.ptr(y)[x * ch + c] = static_cast<std::uint8_t>(v);
            }
    std::vector<uchar> out;
    if (jpeg) cv::imencode(".jpg", mat, out, {cv::IMWRITE_JPEG_QUALITY, 100});
    else cv::imencode(".png", mat, out, {cv::IMWRITE_PNG_COMPRESSION, 1});
    m.bytes = Str(out.begin(), out.end());
    return m;
}

// What has to come out, computed in floating point.
struct Want {
    bool bad = false;
    double tol = 0;
    std::vector<double> px;  // height x width x channels
};
Want want_of(const Img &m, const Image_reader_params &p)
{
    Want o;
    int C = static_cast<int>(p.image_dimensions[0]), H = static_cast<int>(p.image_dimensions[1]), W = static_cast<int>(p.image_dimensions[2]);
    if (m.bad || (C == 4 && m.ch != 4)) return o.bad = true, o;
    // the channels asked for, eight bits each
    std::vector<double> a;
    if (m.deep) o.tol += 1;
    if (m.jpeg) o.tol += 4;
    for (int y = 0; y < m.h; ++y)
        for (int x = 0; x < m.w; ++x) {
            auto v = [&](int c) { return m.deep ? m.at(y, x, c) / 257.0 : m.at(y, x, c); };
            if (C == 1) a.push_back(m.ch == 1 ? v(0) : 0.114 * v(0) + 0.587 * v(1) + 0.299 * v(2));
            else
                for (int c = 0; c < C; ++c) a.push_back(m.ch == 1 ? v(0) : v(p.to_rgb && c < 3 ? 2 - c : c));
        }
    if (C == 1 && m.ch != 1) o.tol += 2;
    int h = m.h, w = m.w;
    if (p.resize) {
        long r = static_cast<long>(*p.resize);
        if (r == 0 || *p.resize > 100000) return o.bad = true, o;
        // the shorter edge gets the size, the other one keeps the ratio
        int nh = static_cast<int>(h <= w ? r : r * h / w), nw = static_cast<int>(h <= w ? r * w / h : r);
        if (nh != h || nw != w) {
            o.tol += 2;
            std::vector<double> b;
            auto pos = [](int i, int n, int from, int &lo, int &hi) {
                double f = (i + 0.5) * from / n - 0.5;
                f = std::max(0.0, std::min(f, from - 1.0));
                lo = static_cast<int>(f);
                hi = std::min(lo + 1, from - 1);
                return f - lo;
            };
            for (int y = 0; y < nh; ++y)
                for (int x = 0; x < nw; ++x) {
                    int y0, y1, x0, x1;
                    double fy = pos(y, nh, h, y0, y1), fx = pos(x, nw, w, x0, x1);
                    for (int c = 0; c < C; ++c) {
                        auto g = [&](int yy, int xx) { return a[static_cast<std::size_t>((yy * w + xx) * C + c)]; };
                        b.push_back((1 - fy) * ((1 - fx) * g(y0, x0) + fx * g(y0, x1)) + fy * ((1 - fx) * g(y1, x0) + fx * g(y1, x1)));
                    }
                }
            a = b;
            h = nh;
            w = nw;
        }
    }
    if (h < H || w < W) return o.bad = true, o;
    int y0 = (h - H) / 2, x0 = (w - W) / 2;
    for (int y = 0; y < H; ++y)
        for (int x = 0; x < W; ++x)
            for (int c = 0; c < C; ++c) o.px.push_back(a[static_cast<std::size_t>(((y0 + y) * w + x0 + x) * C + c)]);
    return o;
}

struct Run {
    Dataset d;
    Data_reader_params p{};
    std::vector<Want> wants;
    Expected want;
    bool too_large = false;   // images that cannot be held: an error, or every image is a bad one
    bool impossible = false;  // a configuration that must not deliver anything
    Intrusive_ptr<Data_reader> r;
    std::size_t pos = 0;
    Intrusive_ptr<Example> peeked;

    void check_schema(const Schema &s, const char *where)
    {
        auto &at = s.attributes();
        auto &dim = d.img.image_dimensions;
        SIM_CHECK(at.size() == 1 && at[0].name() == "value" && at[0].data_type() == Data_type::uint8 && !at[0].sparse(), "schema-mismatch", "%s: wrong attribute", where);
        Size_vector w{p.batch_size, dim[1], dim[2], dim[0]};
        SIM_CHECK(at[0].shape() == w, "schema-mismatch", "%s: shape %zu x %zu x %zu x %zu", where, at[0].shape()[0], at[0].shape()[1], at[0].shape()[2], at[0].shape()[3]);
    }
    void compare(const Example &e)
    {
        SIM_CHECK(!impossible, "error-missing", "an example from a configuration that cannot be met");
        SIM_CHECK(pos < want.ex.size(), "extra-example", "example %zu delivered, %zu expected", pos, want.ex.size());
        const Ex &x = want.ex[pos];
        check_schema(e.schema(), "example");
        SIM_CHECK(e.features().size() == 1, "bad-shape", "%zu features", e.features().size());
        auto *t = dynamic_cast<const Dense_tensor *>(e.features()[0].get());
        SIM_CHECK(t && t->data_type() == Data_type::uint8, "bad-shape", "not a dense tensor of bytes");
        auto &dim = d.img.image_dimensions;
        Size_vector shape{x.size, dim[1], dim[2], dim[0]};
        SIM_CHECK(t->shape() == shape, "bad-shape", "example %zu has the shape %zu x %zu x %zu x %zu, expected %zu x %zu x %zu x %zu", pos, t->shape()[0], t->shape()[1], t->shape()[2],
                  t->shape()[3], shape[0], shape[1], shape[2], shape[3]);
        Ssize_vector st{static_cast<std::ptrdiff_t>(dim[0] * dim[1] * dim[2]), static_cast<std::ptrdiff_t>(dim[0] * dim[2]), static_cast<std::ptrdiff_t>(dim[0]), 1};
        SIM_CHECK(t->strides() == st, "bad-shape", "the strides of example %zu are not those of NHWC", pos);
        std::size_t n = dim[0] * dim[1] * dim[2];
        auto px = t->data().as<std::uint8_t>();
        SIM_CHECK(px.size() == n * x.size, "bad-shape", "example %zu has %zu bytes, expected %zu", pos, px.size(), n * x.size);
        auto &rows = want.batch_rows[pos];
        SIM_CHECK(e.padding == x.size - rows.size(), "bad-padding", "example %zu has padding %zu, expected %zu", pos, e.padding, x.size - rows.size());
        for (std::size_t i = 0; i < x.size; ++i)
            for (std::size_t k = 0; k < n; ++k) {
                double v = px[i * n + k];
                if (i >= rows.size()) SIM_CHECK(v == 0, "bad-padding", "byte %zu of padding row %zu of example %zu is %g", k, i, pos, v);
                else {
                    auto &w = wants[rows[i]];
                    SIM_CHECK(std::abs(v - w.px[k]) <= w.tol + 1e-9, "wrong-pixel", "image %zu in example %zu: byte %zu (y=%zu x=%zu c=%zu) is %g, expected %g +- %g", rows[i], pos, k,
                              k / (dim[2] * dim[0]), k / dim[0] % dim[2], k % dim[0], v, w.px[k], w.tol);
                }
            }
    }
    int read(bool peek, Outcome &o)
    {
        Intrusive_ptr<Example> e;
        if (!guarded(o, [&] {
                sim::Op_scope s(peek ? "peek_example" : "read_example");
                e = peek ? r->peek_example() : r->read_example();
            })) {
            SIM_CHECK(!peeked, "peek-lost", "after a peek: %s", o.what.c_str());
            return -1;
        }
        if (peeked) SIM_CHECK(e == peeked, "peek-mismatch", "not the example that was peeked");
        if (!e) return 0;
        compare(*e);
        if (peek) peeked = e;
        else peeked = nullptr, ++pos;
        return 1;
    }
    void reset()
    {
        sim::Op_scope s("reset");
        r->reset();
        pos = 0;
        peeked = nullptr;
    }
    void epoch()
    {
        while (true) {
            if (sim::wone_in(10)) {
                Outcome o;
                Intrusive_ptr<const Schema> s;
                bool good = guarded(o, [&] { sim::Op_scope sc("read_schema"); s = r->read_schema(); });
                SIM_CHECK(good || impossible, "unexpected-error", "read_schema: %s", o.what.c_str());
                if (good && s) check_schema(*s, "read_schema");
            }
            if (sim::wone_in(40)) return;
            Outcome o;
            bool peek = sim::wone_in(6);
            int rc = read(peek, o);
            if (rc > 0) continue;
            if (rc < 0) {
                SIM_CHECK(impossible || too_large || want.error, "unexpected-error", "after %zu examples: %s: %s", pos, o.type.c_str(), o.what.c_str());
                sim::probe("refused image");
                return;
            }
            if (!impossible) {
                SIM_CHECK(!want.error, "error-missing", "the end after %zu examples although there is a bad image", pos);
                SIM_CHECK(pos == want.ex.size(), "early-end", "the end after %zu of %zu examples", pos, want.ex.size());
            }
            return;
        }
    }
};

void run()
{
    sim::report_races = true;
    cv::setNumThreads(0);
    mat_alloc.on = false;
    cv::Mat::setDefaultAllocator(&mat_alloc);
    Run x;
    auto &ip = x.d.img;
    bool framed = sim::wflip();
    x.d.fmt = framed ? Fmt::image_rec : Fmt::image;
    ip.image_frame = framed ? Image_frame::recordio : Image_frame::none;
    int C = std::vector<int>{3, 1, 4}[sim::w(3)];
    int big = sim::wone_in(4) ? 24 : 7;
    int H = 1 + static_cast<int>(sim::w(static_cast<std::uint32_t>(big))), W = 1 + static_cast<int>(sim::w(static_cast<std::uint32_t>(big)));
    ip.image_dimensions = {static_cast<std::size_t>(C), static_cast<std::size_t>(H), static_cast<std::size_t>(W)};
    ip.to_rgb = sim::wflip();
    if (sim::wflip()) ip.resize = static_cast<std::size_t>(std::max(H, W)) + sim::w(4);
    if (sim::wone_in(5)) ip.resize = sim::w(12);
    if (sim::wone_in(24)) {
        // configurations that cannot be met
        x.impossible = true;
        switch (sim::w(4)) {
        case 0: ip.image_dimensions[0] = std::vector<std::size_t>{0, 2, 5, (std::size_t{1} << 32) + 3}[sim::w(4)]; break;
        case 1: ip.image_dimensions[1 + sim::w(2)] += std::size_t{1} << (32 + sim::w(31)); break;
        case 2: ip.image_dimensions[1] = ip.image_dimensions[2] = std::size_t{1} << 32; break;
        default: ip.resize = std::vector<std::size_t>{(std::size_t{1} << 32) + 8, std::size_t{1} << 31, std::size_t{1} << 30, SIZE_MAX}[sim::w(4)]; x.too_large = true; x.impossible = false; break;
        }
    }
    else if (sim::wone_in(40)) {
        // the wrong number of dimensions
        auto dims = ip.image_dimensions;
        if (sim::wflip()) dims.pop_back();
        else dims.push_back(1);
        if (sim::wone_in(3)) dims.clear();
        Image_reader_params q = ip;
        q.image_dimensions = dims;
        Outcome o;
        Intrusive_ptr<Data_reader> r;
        Data_reader_params dp{};
        dp.batch_size = 1;
        bool good = guarded(o, [&] { r = make_intrusive<Image_reader>(dp, q); });
        SIM_CHECK(!good && o.type.find("invalid_argument") != Str::npos, "error-missing", "%zu dimensions: %s", dims.size(), good ? "accepted" : o.type.c_str());
        sim::probe("wrong number of dimensions");
        return;
    }
    int total = static_cast<int>(sim::w(9)), bad_one_in = sim::wflip() ? 0 : 1 + static_cast<int>(sim::w(6));
    std::size_t ns = framed ? 1 + sim::w(3) : 0;
    x.d.stores.resize(ns);
    for (int i = 0; i < total; ++i) {
        int h = H + static_cast<int>(sim::w(6)), w = W + static_cast<int>(sim::w(6));
        if (ip.resize && sim::wflip()) h = 1 + static_cast<int>(sim::w(16)), w = 1 + static_cast<int>(sim::w(16));
        if (ip.resize && sim::wone_in(8)) (sim::wflip() ? h : w) = 1;
        bool want_bad = bad_one_in && sim::wone_in(static_cast<std::uint32_t>(bad_one_in));
        int how = want_bad ? static_cast<int>(sim::w(6)) : -1;
        if (how == 0) (sim::wflip() ? h : w) = sim::wflip() ? 1 : std::max(1, (sim::wflip() ? H : W) - 1);
        int ch = C == 4 ? 4 : std::vector<int>{C, 3, 1, 4}[sim::w(4)];
        if (how == 1) ch = std::vector<int>{1, 3}[sim::w(2)];  // wrong for four channels only
        bool jpeg = ch != 4 && sim::wone_in(5);
        Img m = make_img(i + 7 * static_cast<int>(sim::w(1000)), h, w, ch, jpeg, sim::wone_in(5));
        switch (how) {
        case 2: m.bytes = m.bytes.substr(0, 8); m.bad = true; break;
        case 3: m.bytes = "not an image at all"; m.bad = true; break;
        case 4: if (!jpeg) m.bytes[13] = 'X', m.bad = true; break;
        case 5: if (framed) m.bytes.clear(), m.bad = true; break;
        default: break;
        }
        Str payload = m.bytes;
        if (framed) payload = Str(24, static_cast<char>(i)) + payload;
        if (how == 5 && framed && sim::wflip()) payload = Str(sim::w(24), 'h');  // even the frame is cut short
        Row row;
        Want wnt = x.impossible ? Want{} : want_of(m, ip);
        row.bad = wnt.bad;
        row.canon = std::to_string(i);
        row.size = payload.size();
        x.wants.push_back(wnt);
        if (wnt.bad) sim::probe("bad image");
        else {
            if (m.deep) sim::probe("16-bit image");
            if (m.jpeg) sim::probe("JPEG image");
            if (ip.resize) sim::probe("resized image");
            if (m.ch != C) sim::probe("channels converted");
        }
        if (framed) {
            // the images of a store are behind each other
            std::size_t k = i * static_cast<int>(ns) / total;
            x.d.stores[k].bytes += put_recordio(payload, sim::wone_in(4));
            x.d.stores[k].rows.push_back(row);
        }
        else {
            Store_data one;
            one.bytes = payload;
            one.rows.push_back(row);
            x.d.stores.push_back(one);
        }
        if (sim::tracing())
            sim::note("image %d: %d x %d x %d %s%s%s", i, h, w, ch, jpeg ? "jpeg " : "png ", m.deep ? "16 bit " : "", wnt.bad ? "bad" : "");
    }
    random_knobs();
    random_legal_io();
    if (sim::wone_in(3)) sim::set_knob("parallel_decode_cut_off", 1);
    Stores st = make_stores(x.d, all_kinds());
    x.p.dataset = st.list;
    random_tuning(x.p);
    random_policies(x.p);
    if (sim::wone_in(5)) random_selection(x.p, x.d.num_rows());
    sim::describe("%zu x %zu x %zu rgb=%d resize=%zd impossible=%d %s", ip.image_dimensions[0], ip.image_dimensions[1], ip.image_dimensions[2], static_cast<int>(ip.to_rgb),
                  ip.resize ? static_cast<std::ptrdiff_t>(*ip.resize) : -1, static_cast<int>(x.impossible), params_text(x.p).c_str());
    if (!x.impossible) x.want = expect(x.d, x.p);
    Outcome o;
    bool made = guarded(o, [&] { x.r = make_reader(x.d, x.p); });
    if (!made) {
        SIM_CHECK(x.impossible || x.too_large, "unexpected-error", "%s", o.what.c_str());
        sim::probe("configuration refused");
        return;
    }
    if (sim::wone_in(3)) {
        random_allocator();
        random_hard_faults();
        if (sim::wflip()) {
            mat_alloc.on = true;
            sim::faults.p[sim::f_alloc_fail] = std::vector<double>{0.3, 0.05, 1.0}[sim::w(3)];
            sim::faults.budget[sim::f_alloc_fail] = 1 + static_cast<int>(sim::w(3));
            sim::describe(" matrices may fail ");
        }
        sim::faults.armed = true;
        for (std::uint32_t i = sim::w(10); i > 0; --i) {
            Outcome e;
            int rc = x.read(sim::wone_in(5), e);
            if (rc < 0) {
                SIM_CHECK(x.impossible || x.too_large || x.want.error || sim::hard_faults_fired(), "unexpected-error", "%s: %s", e.type.c_str(), e.what.c_str());
                if (sim::wone_in(3)) x.reset();
                continue;
            }
            if (rc == 0) {
                if (!x.impossible) {
                    SIM_CHECK(!x.want.error, "error-missing", "the end after %zu examples although there is a bad image", x.pos);
                    SIM_CHECK(x.pos == x.want.ex.size(), "early-end", "the end after %zu of %zu examples", x.pos, x.want.ex.size());
                }
                break;
            }
        }
        sim::faults.armed = false;
        x.reset();
        mat_alloc.on = false;
    }
    for (std::uint32_t i = 1 + sim::w(3); i > 0; --i) {
        x.epoch();
        x.reset();
    }
}
}  // namespace
SIM_WORKLOAD("C28", run);
