// Properties of the SEG-D writer.
#include "segd_out.hpp"
#include "sercel_golden.hpp"
using namespace segd;

static XMaps any_maps(Gen& g)
{
    switch (g.choice(5)) {
    case 0: return golden_sercel_428xl;
    case 1: return golden_sercel_408;
    case 2:
    case 3: return gen_xmaps(g);
    default: return {};
    }
}

// ---------------------------------------------------------------------- C26
PROPERTY("C26", "headers", 27000, 675000,
         "generated general headers 1, 2 and N, channel set descriptors (up to 260 per scan "
         "type), skew, extended and external headers with boundary-heavy values and escaped "
         "counts; oracle: bytes of the reference encoder and field values read back; non-trivial "
         "= more than one descriptor or additional header or extended block")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.big = true;
    o.max_traces = 3;
    o.max_samples = 4;
    o.random_sets = g.chance(30);
    o.any_chans = g.chance(40);
    Record r = gen_record(g, o, {});
    g.describe(describe(r));
    Args a = args(r, {});
    // any number that does not fit the basic field stands for the escape
    auto big = [&](auto& v) {
        if (v == 165 && g.chance(50)) v = (std::remove_reference_t<decltype(v)>)g.edgy(100, 9999);
    };
    big(a.gh.channel_sets_per_scan_type);
    big(a.gh.extended_hdr_blocks);
    big(a.gh.external_hdr_blocks);
    if (a.gh.file_number == 16665 && g.chance(50)) a.gh.file_number = (int)g.edgy(10000, 0xffffff);
    if (a.gh2.ext_record_len && g.chance(50)) a.gh.record_length = (int)g.edgy(0, 999);
    std::string p = g.path("a.sgd");
    { auto w = a.open(p); }
    Bytes got = read_file(p);
    CHECK(got.size() == r.headers().size(), "file of ", got.size(), " bytes instead of ",
          r.headers().size());
    check_header_bytes(got, r);
    ISEGD s(p);
    check_record(s, r, "read back");
    size_t n = 0;
    for (auto& x : r.sets) n += x.size();
    if (n > 1 || r.blocks.size() || r.extd.size() || r.extl.size()) g.nontrivial();
}
PROPERTY("C26", "trace_headers", 20000, 500000,
         "generated traces (header values held as integer or floating point, zero values left "
         "out), standard extension block or maps of all value types; oracle: header bytes of the "
         "reference encoder; non-trivial = at least one trace")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.big = g.chance(20);
    o.max_traces = 6;
    o.max_samples = 8;
    o.no_ext = true;
    XMaps m = any_maps(g);
    Record r = gen_record(g, o, m);
    g.describe(describe(r));
    std::string p = g.path("a.sgd");
    {
        auto w = args(r, m).open(p);
        for (auto& d : r.traces) {
            Trace t = to_trace(g, r, d, m);
            if (g.chance(8)) { // a number that does not fit is escaped
                t.header().set("CHAN", Value { (int64_t)g.edgy(10000, 99999) });
                put(d.hdr, 4, 0xffff, 2, false);
            }
            w->write_trace(t);
        }
    }
    Bytes got = read_file(p), want = r.encode();
    CHECK(got.size() == want.size(), "file of ", got.size(), " bytes instead of ", want.size());
    check_header_bytes(got, r);
    size_t pos = r.headers().size();
    for (size_t i = 0; i < r.traces.size(); ++i) {
        auto& d = r.traces[i];
        Bytes h = d.hdr;
        for (auto& e : d.ext) h += e;
        check_bytes(got.substr(pos, h.size()), h, cat("header of trace ", i));
        pos += h.size() + d.samp.size();
    }
    if (r.traces.size()) g.nontrivial();
}

// ---------------------------------------------------------------------- C27
struct Prec {
    double max; // largest magnitude
    double unit; // distance of the nearest representable value
};
// precision of a format near x (before de-scaling)
static Prec precision(int code, double x)
{
    x = std::fabs(x);
    auto packed = [&](int base, int max_exp, int frac) {
        double m = std::ldexp(1.0, frac) - 1;
        Prec p { std::ldexp(m, base * max_exp - frac), 0 };
        int e = 0;
        while (e < max_exp && x > std::ldexp(m, base * e - frac)) ++e;
        p.unit = std::ldexp(0.5, base * e - frac);
        return p;
    };
    switch (code) {
    case 8015: return packed(1, 15, 15);
    case 8022: return packed(2, 7, 4);
    case 8024: return packed(2, 7, 12);
    case 8042: return packed(4, 3, 5);
    case 8044: return packed(4, 3, 13);
    case 8036:
    case 9036: return { 8388607, 0.5 };
    case 8038:
    case 9038: return { 2147483647, 0.5 };
    case 8048: {
        int e = -64;
        while (e < 63 && x >= std::ldexp(1.0, 4 * e)) ++e;
        return { std::ldexp(1 - std::ldexp(1.0, -24), 252), std::ldexp(1.0, 4 * e - 24) };
    }
    case 8058:
    case 9058:
        return { std::numeric_limits<float>::max(),
                 std::max(x * std::ldexp(1.0, -24), std::ldexp(1.0, -150)) };
    default: return { 1e280, x * std::ldexp(1.0, -51) + 1e-300 };
    }
}
static bool packed_format(int code)
{
    return code == 8015 || code == 8022 || code == 8024 || code == 8042 || code == 8044;
}
static double gen_value(Gen& g, Rng& q, int code)
{
    (void)g;
    double max = precision(code, 0).max;
    double v;
    switch (q.below(6)) {
    case 0: v = 0; break;
    case 1: v = (double)q.below(40) / 8; break;
    case 2: v = max * ((double)(q.next() >> 11) / 9007199254740992.0); break;
    case 3: v = std::ldexp(1.0, (int)q.below(40) - 20); break;
    case 4: v = max; break;
    default: {
        double l = std::log2(max);
        v = std::exp2((double)(q.next() >> 11) / 9007199254740992.0 * (l + 20) - 20);
    }
    }
    v = std::min(v, max);
    return q.below(2) ? -v : v;
}
static bool plain_descale(Record const& r)
{
    for (auto& s : r.sets)
        for (auto& c : s)
            if (dec(c, SMAG, 6, 2) != std::floor(dec(c, SMAG, 6, 2))) return false;
    return true;
}
// de-scale exponents of the writer's records: all kinds, or integral ones
static void plain(Gen& g, Record& r)
{
    for (auto& s : r.sets)
        for (auto& c : s) {
            uint64_t e = g.choice(31) << 10;
            put(c, 6, e && g.chance(40) ? e | 0x8000 : e, 2, false);
        }
}

PROPERTY("C27", "round_trip", 9000, 225000,
         "generated record and traces in one of 14 formats with boundary-heavy representable "
         "samples, standard or mapped extensions, written, read back and re-written; oracle: "
         "reference header values and samples, re-written file byte-identical; non-trivial = at "
         "least one sample")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 8;
    o.max_samples = g.chance(5) ? 400 : 40;
    XMaps m = any_maps(g);
    Record r = gen_record(g, o, m);
    bool f64 = r.format == 8080 || r.format == 9080, ibm = r.format == 8048;
    if (f64 || ibm || g.chance(50)) plain(g, r);
    g.describe(describe(r));
    g.tag(cat("format ", r.format));
    std::string p = g.path("a.sgd"), p2 = g.path("b.sgd");
    {
        auto w = args(r, m).open(p);
        for (auto& d : r.traces) {
            Trace t = to_trace(g, r, d, m);
            w->write_trace(t);
        }
    }
    size_t n = 0;
    {
        ISEGD s(p, lib(m));
        check_record(s, r, "read back");
        auto w = args(s, lib(m)).open(p2);
        bool exact = plain_descale(r);
        for (size_t i = 0; i < r.traces.size(); ++i) {
            CHECK(s.has_trace(), "trace ", i, " not found");
            Trace t = s.read_trace();
            check_header(t, expect_header(r, r.traces[i], m), cat("trace ", i));
            auto want = values(r, r.traces[i]);
            auto& got = t.samples();
            CHECK(got.size() == want.size(), "trace ", i, " has ", got.size(), " samples");
            for (size_t k = 0; k < want.size(); ++k)
                CHECK(exact ? same(got[k], want[k]) || (got[k] == 0 && want[k] == 0)
                            : close(got[k], want[k]),
                      "trace ", i, " sample ", k, " is ", got[k], " instead of ", want[k],
                      " format ", r.format);
            n += got.size();
            w->write_trace(t);
        }
        CHECK(!s.has_trace() && !s.has_record(), "more traces than written");
    }
    check_bytes(read_file(p2), read_file(p), "re-written file");
    if (n) g.nontrivial();
}
PROPERTY("C27", "precision", 9000, 225000,
         "traces of arbitrary real samples within the format's range (any number of samples), "
         "written and read back; oracle: the format's resolution at that magnitude; then "
         "re-written byte-identically; non-trivial = at least one sample")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 4;
    o.max_samples = 30;
    Record r = gen_record(g, o, {});
    bool f64 = r.format == 8080 || r.format == 9080, ibm = r.format == 8048;
    if (f64 || ibm || g.chance(70)) plain(g, r);
    g.describe(describe(r));
    g.tag(cat("format ", r.format));
    std::string p = g.path("a.sgd"), p2 = g.path("b.sgd");
    std::vector<std::vector<double>> vals;
    size_t n = 0;
    {
        auto w = args(r, {}).open(p);
        for (auto& d : r.traces) {
            double f = std::pow(2.0, descale(r, d.scan, d.set));
            d.nsamp += g.choice(3); // incomplete groups of packed samples too
            put(d.ext[0], 7, d.nsamp, 3, false);
            d.samp = Bytes(samp_bytes(r.format, d.nsamp), '\0');
            Rng q = g.sub();
            vals.push_back({});
            bool clip = packed_format(r.format) && g.chance(20);
            for (size_t k = 0; k < d.nsamp; ++k) {
                double v = gen_value(g, q, r.format), max = precision(r.format, 0).max;
                if (clip && q.below(4) == 0) // beyond what the format can hold
                    v = (v < 0 ? -1 : 1) * max * (1 + (double)q.below(4096) / 256);
                vals.back().push_back(v * f);
            }
            Trace t = to_trace(g, r, d, {}, &vals.back());
            w->write_trace(t);
        }
    }
    {
        ISEGD s(p);
        auto w = args(s, {}).open(p2);
        for (size_t i = 0; i < r.traces.size(); ++i) {
            CHECK(s.has_trace(), "trace ", i, " not found");
            Trace t = s.read_trace();
            check_header(t, expect_header(r, r.traces[i], {}), cat("trace ", i));
            double f = std::pow(2.0, descale(r, r.traces[i].scan, r.traces[i].set));
            auto& got = t.samples();
            CHECK(got.size() == vals[i].size(), "trace ", i, " has ", got.size(), " samples");
            for (size_t k = 0; k < got.size(); ++k) {
                double v = vals[i][k], u = precision(r.format, v / f).unit * f;
                if (packed_format(r.format)) { // nearest value
                    double max = precision(r.format, 0).max * f;
                    v = std::clamp(v, -max, max);
                }
                CHECK(std::fabs(got[k] - v) <= u * (1 + 1e-9) + std::fabs(v) * 1e-15, "trace ", i,
                      " sample ", k, " is ", got[k], " instead of ", v, " resolution ", u,
                      " format ", r.format, " factor ", f);
            }
            n += got.size();
            w->write_trace(t);
        }
        CHECK(!s.has_trace() && !s.has_record(), "more traces than written");
    }
    check_bytes(read_file(p2), read_file(p), "re-written file");
    if (n) g.nontrivial();
}
PROPERTY("C27", "records", 3000, 75000,
         "2 to 4 written records put one after another, read by one reader; oracle: reference "
         "records; each re-written from what was read is byte-identical; non-trivial = always")
{
    XMaps m = any_maps(g);
    size_t n = 2 + g.size(2);
    std::vector<Record> rs;
    Bytes all, again;
    std::string p = g.path("a.sgd"), p2 = g.path("b.sgd");
    for (size_t i = 0; i < n; ++i) {
        DOpts o;
        o.writer = true;
        o.rev = 1 + (int)g.choice(1);
        o.max_traces = 4;
        o.max_samples = 12;
        Record r = gen_record(g, o, m);
        plain(g, r);
        auto w = args(r, m).open(p);
        for (auto& d : r.traces) {
            Trace t = to_trace(g, r, d, m);
            w->write_trace(t);
        }
        w.reset();
        all += read_file(p);
        g.describe(describe(r));
        rs.push_back(r);
    }
    write_file(p, all);
    ISEGD s(p, lib(m));
    for (size_t i = 0; i < n; ++i) {
        check_record(s, rs[i], cat("record ", i));
        auto w = args(s, lib(m)).open(p2);
        for (size_t k = 0; k < rs[i].traces.size(); ++k) {
            CHECK(s.has_trace(), "record ", i, " trace ", k, " not found");
            Trace t = s.read_trace();
            check_header(t, expect_header(rs[i], rs[i].traces[k], m), cat("record ", i, " trace ", k));
            w->write_trace(t);
        }
        w.reset();
        again += read_file(p2);
    }
    CHECK(!s.has_trace() && !s.has_record(), "more traces than written");
    check_bytes(again, all, "re-written records");
    g.nontrivial();
}

PROPERTY("C26", "many_blocks", 300, 7500,
         "254 to 65535 extended or external header blocks written; oracle: bytes of the reference "
         "encoder and blocks read back; non-trivial = always")
{
    static std::vector<int64_t> const n { 254, 255, 256, 257, 999, 1000, 9999, 10000, 32767,
                                          32768, 65534, 65535 };
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 2;
    bool extd = g.choice(1);
    if (extd || g.chance(20)) o.extd = g.pick(n);
    if (!extd) o.extl = g.pick(n);
    Record r = gen_record(g, o, {});
    g.describe(describe(r));
    std::string p = g.path("a.sgd");
    { auto w = args(r, {}).open(p); }
    Bytes got = read_file(p);
    CHECK(got.size() == r.headers().size(), "file of ", got.size(), " bytes instead of ",
          r.headers().size());
    check_header_bytes(got, r);
    ISEGD s(p);
    check_record(s, r, "read back");
    g.nontrivial();
}
// writes the record, compares the file's headers and what is read back
static void write_many(Gen& g, Record const& r, XMaps const& m)
{
    std::string p = g.path("a.sgd");
    {
        auto w = args(r, m).open(p);
        for (auto& d : r.traces) {
            Trace t = to_trace(g, r, d, m);
            w->write_trace(t);
        }
    }
    Bytes got = read_file(p), want = r.encode();
    CHECK(got.size() == want.size(), "file of ", got.size(), " bytes instead of ", want.size());
    check_header_bytes(got, r);
    size_t pos = r.headers().size();
    for (size_t i = 0; i < r.traces.size(); ++i) {
        auto& d = r.traces[i];
        Bytes h = d.hdr;
        for (auto& e : d.ext) h += e;
        check_bytes(got.substr(pos, h.size()), h, cat("header of trace ", i));
        pos += h.size() + d.samp.size();
    }
    ISEGD s(p, lib(m));
    check_record(s, r, "read back");
    for (size_t i = 0; i < r.traces.size(); ++i) {
        CHECK(s.has_trace(), "trace ", i, " not found");
        Trace t = s.read_trace();
        check_header(t, expect_header(r, r.traces[i], m), cat("trace ", i));
        CHECK(t.samples().size() == r.traces[i].nsamp, "trace ", i, " has ", t.samples().size(),
              " samples");
    }
    CHECK(!s.has_trace() && !s.has_record(), "more traces than written");
    g.nontrivial();
}
PROPERTY("C26", "many_sets", 60, 1500,
         "254 to 65535 channel sets per scan type written and some traces in them; oracle: bytes "
         "of the reference encoder and values read back; non-trivial = always")
{
    static std::vector<size_t> const n { 254, 255, 256, 257, 511, 512, 999, 1000 };
    static std::vector<size_t> const big { 9999, 10000, 32767, 32768, 65535 };
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 4;
    o.max_samples = 4;
    o.nsets = g.chance(15) ? g.pick(big) : g.pick(n);
    Record r = gen_record(g, o, {});
    g.describe(describe(r));
    write_many(g, r, {});
}
PROPERTY("C27", "many_extensions", 1500, 40000,
         "traces with 8 to 255 extension blocks, standard or with maps for some or all of them, "
         "written and read back; oracle: bytes of the reference encoder and values read back; "
         "non-trivial = always")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 3;
    o.max_samples = 8;
    o.ext = many_ext(g);
    XMaps m = many_xmaps(g, o.ext);
    Record r = gen_record(g, o, m);
    g.describe(describe(r) + cat(", ", o.ext, " extension blocks, ", m.size(), " maps"));
    write_many(g, r, m);
}
PROPERTY("C27", "large", 180, 6250,
         "traces of 1000 to 70000 samples, or 9999 to 70000 traces of none, written and read back; "
         "oracle: reference header values and samples; non-trivial = always")
{
    std::string p = g.path("a.sgd");
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    if (!g.chance(15)) {
        static std::vector<int64_t> const n { 1000, 4096, 9999, 10000, 32764, 32767, 32768, 32769,
                                              65532, 65535, 65536, 65537, 70000 };
        o.max_traces = 2;
        o.samples = g.pick(n);
        Record r = gen_record(g, o, {});
        bool f64 = r.format == 8080 || r.format == 9080, ibm = r.format == 8048;
        if (f64 || ibm || g.chance(50)) plain(g, r);
        g.describe(describe(r) + cat(", ", o.samples, " samples"));
        g.tag(cat("format ", r.format));
        {
            auto w = args(r, {}).open(p);
            for (auto& d : r.traces) {
                Trace t = to_trace(g, r, d, {});
                w->write_trace(t);
            }
        }
        ISEGD s(p);
        bool exact = plain_descale(r);
        for (size_t i = 0; i < r.traces.size(); ++i) {
            CHECK(s.has_trace(), "trace ", i, " not found");
            Trace t = s.read_trace();
            check_header(t, expect_header(r, r.traces[i], {}), cat("trace ", i));
            auto want = values(r, r.traces[i]);
            auto& got = t.samples();
            CHECK(got.size() == want.size(), "trace ", i, " has ", got.size(), " samples");
            for (size_t k = 0; k < want.size(); ++k)
                CHECK(exact ? same(got[k], want[k]) || (got[k] == 0 && want[k] == 0)
                            : close(got[k], want[k]),
                      "trace ", i, " sample ", k, " is ", got[k], " instead of ", want[k],
                      " format ", r.format);
        }
        CHECK(!s.has_trace() && !s.has_record(), "more traces than written");
        g.nontrivial();
        return;
    }
    o.max_traces = 1;
    Record r = gen_record(g, o, {});
    static std::vector<size_t> const totals { 9999, 10000, 32767, 32768, 65535, 65536, 70000 };
    size_t total = g.pick(totals), left = total, slots = 0;
    for (auto& x : r.sets) slots += x.size();
    total = left = std::min(total, slots * 9999);
    std::vector<std::pair<int, int>> where;
    for (size_t i = 0; i < r.sets.size(); ++i)
        for (size_t j = 0; j < r.sets[i].size(); ++j) {
            size_t k = std::min<size_t>(left, 9999);
            put_bcd(r.sets[i][j], 16, 4, k);
            left -= k;
            for (size_t m = 0; m < k; ++m) where.push_back({ (int)i + 1, (int)j + 1 });
        }
    g.describe(describe(r) + cat(", in fact ", total));
    {
        auto w = args(r, {}).open(p);
        for (size_t i = 0; i < total; ++i) {
            Trace t({ { "FFID", (int64_t)i }, { "SCAN_TYPE_NUM", (int64_t)where[i].first },
                      { "CH_SET_NUM", (int64_t)where[i].second }, { "CHAN", (int64_t)(i % 9999) },
                      { "TR_HDR_EXT", (int64_t)1 }, { "SAMP_NUM", (int64_t)0 } }, {});
            w->write_trace(t);
        }
        Trace t({ { "SCAN_TYPE_NUM", (int64_t)1 }, { "CH_SET_NUM", (int64_t)1 },
                  { "TR_HDR_EXT", (int64_t)1 }, { "SAMP_NUM", (int64_t)0 } }, {});
        CHECK(throws_std([&] { w->write_trace(t); }), "more than ", total, " traces accepted");
    }
    ISEGD s(p);
    for (size_t i = 0; i < total; ++i) {
        CHECK(s.has_trace(), "trace ", i, " of ", total, " not found");
        Trace t = s.read_trace();
        auto& h = t.header();
        CHECK(h.get("FFID") == std::optional<Value>(Value((int64_t)i)) &&
                  h.get("CHAN") == std::optional<Value>(Value((int64_t)(i % 9999))) &&
                  h.get("CH_SET_NUM") == std::optional<Value>(Value((int64_t)where[i].second)),
              "trace ", i, " is another one");
    }
    CHECK(!s.has_trace() && !s.has_record(), "more traces than written");
    g.tag("many traces");
    g.nontrivial();
}

// ---------------------------------------------------------------------- C29
PROPERTY("C29", "headers", 28000, 700000,
         "consistent headers with one inconsistency of 15 kinds (counts, block sizes, classes, "
         "ranges, format, extension maps): the constructor must throw; without it, it must not; "
         "non-trivial = inconsistency present")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 3;
    XMaps m = g.chance(50) ? XMaps {} : gen_xmaps(g);
    Record r = gen_record(g, o, m);
    Args a = args(r, m);
    std::string p = g.path("a.sgd"), what;
    bool bad = true;
    auto declare = [&](std::vector<std::vector<char>>& v, auto& basic, auto& ext,
                       char const* name) {
        using B = std::remove_reference_t<decltype(basic)>;
        using E = std::remove_reference_t<decltype(ext)>;
        size_t k = 1 + g.size(20);
        if (g.chance(50) && !v.empty()) v.resize(v.size() - 1 - g.choice(v.size() - 1));
        else if (v.size() + k > 99 || g.chance(30)) {
            basic = (B)165;
            ext = (E)(v.size() + k);
        } else
            basic = (B)(v.size() + k);
        what = cat("fewer ", name, " headers");
    };
    switch (g.choice(15)) {
    case 0: bad = false; what = "consistent"; break;
    case 1: {
        int c = (int)g.edgy(-1, 9999);
        if (g.chance(50)) c = g.pick(dformats()).code + (int)g.range(-1, 1);
        if (dbits(c)) c = 8000;
        a.gh.format_code = c;
        what = cat("format ", c);
        break;
    }
    case 2: declare(a.extd, a.gh.extended_hdr_blocks, a.gh2.extended_hdr_blocks, "extended"); break;
    case 3: declare(a.extl, a.gh.external_hdr_blocks, a.gh2.external_hdr_blocks, "external"); break;
    case 4: {
        auto& v = g.chance(50) ? a.extd : a.extl;
        if (v.empty()) {
            v.push_back(std::vector<char>(32));
            (&v == &a.extd ? a.gh.extended_hdr_blocks : a.gh.external_hdr_blocks) = 1;
        }
        static std::vector<int> const sz { 0, 1, 16, 31, 33, 64, 4096 };
        v[g.choice(v.size() - 1)].resize(g.pick(sz));
        what = "block size";
        break;
    }
    case 5:
        a.gh.scan_types_per_record += g.chance(50) ? 1 + (int)g.choice(3)
            : -1 - (int)g.choice(a.gh.scan_types_per_record - 1);
        what = cat("scan types ", a.gh.scan_types_per_record);
        break;
    case 6: {
        auto& v = a.sets[g.choice(a.sets.size() - 1)];
        if (g.chance(50)) v.push_back(v[0]);
        else v.pop_back();
        what = "channel sets of a scan type";
        break;
    }
    case 7:
        if (g.chance(50) || a.add.empty()) a.add.push_back(std::make_shared<GHN>());
        else a.add.pop_back();
        what = "number of additional headers";
        break;
    case 8: {
        if (a.add.empty()) {
            a.add.push_back(nullptr);
            a.gh.add_gen_hdr_blocks = 2;
        }
        a.add[g.choice(a.add.size() - 1)] = nullptr;
        what = "null additional header";
        break;
    }
    case 9: {
        auto& k = g.pick(kinds());
        if (a.add.empty()) {
            a.add.push_back(nullptr);
            a.gh.add_gen_hdr_blocks = 2;
        }
        auto o2 = k.object();
        what = cat("block of revision 3: ", k.name);
        a.add[g.choice(a.add.size() - 1)] = o2;
        break;
    }
    case 10:
        a.gh2.segd_rev_major = (uint8_t)g.edgy(3, 255);
        what = "revision";
        break;
    case 11: {
        static std::vector<VT> const t { VT::uint8_t, VT::int16_t, VT::uint24_t, VT::int32_t,
                                         VT::ibm, VT::ieee_single, VT::ieee_double,
                                         VT::uint64_t, VT::int64_t };
        VT v = g.pick(t);
        if (a.maps.empty()) a.maps.push_back({});
        uint32_t off = 33 - xsize(v) + (uint32_t)g.edgy(0, 300);
        if (g.chance(10)) off = 0xffffffffu - (uint32_t)g.choice(10);
        a.maps[g.choice(a.maps.size() - 1)][off] = { "BAD", v };
        what = cat("map field at ", off);
        break;
    }
    case 12: {
        static std::vector<int> const n { 0, -1, 16, 17, 99, 255, 256, 257 };
        a.gh.add_gen_hdr_blocks = g.pick(n);
        if (g.chance(50)) a.add.resize(a.gh.add_gen_hdr_blocks > 0 ? a.gh.add_gen_hdr_blocks - 1 : 0);
        for (auto& x : a.add)
            if (!x) x = std::make_shared<GHN>();
        what = cat("additional blocks ", a.gh.add_gen_hdr_blocks);
        break;
    }
    case 13: {
        auto& v = a.sets[g.choice(a.sets.size() - 1)];
        v[g.choice(v.size() - 1)].number_of_channels = (uint32_t)g.edgy(10000, 0xffffff);
        what = "channels";
        break;
    }
    case 14:
        a.gh.skew_blocks = g.chance(30) ? -1 - (int)g.choice(300) : (int)g.edgy(100, 5000);
        what = cat("skew blocks ", a.gh.skew_blocks);
        break;
    default:
        a.sets.resize(100 + g.choice(20), a.sets[0]);
        a.gh.scan_types_per_record = (int)a.sets.size();
        what = "more than 99 scan types";
    }
    g.describe(what);
    bool threw = throws_std([&] { a.open(p); });
    CHECK(threw == bad, what, threw ? " refused" : " accepted", ", record ", describe(r));
    g.tag(what.substr(0, 12));
    if (bad) g.nontrivial();
}
PROPERTY("C29", "traces", 22000, 550000,
         "history of good traces and bad ones (unknown scan type or channel set, impossible "
         "number of extensions, mapped key missing, number of samples not the stored one, more "
         "traces than channels): each bad one throws, the file equals that of the good ones "
         "alone; non-trivial = at least one bad and one good trace")
{
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 6;
    o.max_samples = 12;
    XMaps m = any_maps(g);
    Record r = gen_record(g, o, m);
    plain(g, r);
    g.describe(describe(r));
    std::string p = g.path("a.sgd"), p2 = g.path("b.sgd");
    size_t bad = 0, good = 0;
    size_t stop = g.chance(20) ? g.choice(r.traces.size()) : r.traces.size();
    auto make_bad = [&](DTrace const& d) -> std::pair<Trace, std::string> {
        std::unordered_map<std::string, Value> h;
        for (auto& kv : expect_header(r, d, m)) h[kv.first] = kv.second;
        auto s = values(r, d);
        std::string what;
        auto out = [&](size_t n) -> int64_t {
            switch (g.choice(5)) {
            case 0: return 0;
            case 1: return (int64_t)n + 1;
            case 2: return -1 - (int64_t)g.choice(5);
            case 3: return (int64_t)n + 1 + (int64_t)g.choice(300);
            case 4: return 65536 + 1 + (int64_t)g.choice(n ? n - 1 : 0);
            default: return (int64_t)0x100000000 + 1;
            }
        };
        switch (g.choice(4)) {
        case 0:
            h["SCAN_TYPE_NUM"] = Value { out(r.sets.size()) };
            what = cat("scan type ", show(h["SCAN_TYPE_NUM"]));
            break;
        case 1:
            h["CH_SET_NUM"] = Value { out(r.sets[0].size()) };
            what = cat("channel set ", show(h["CH_SET_NUM"]));
            break;
        case 2: {
            static std::vector<int64_t> const n { -1, 256, 257, 300, 65536, -256 };
            h["TR_HDR_EXT"] = Value { g.pick(n) };
            what = cat("extensions ", show(h["TR_HDR_EXT"]));
            break;
        }
        case 3: {
            std::vector<std::string> keys;
            for (size_t i = 0; i < d.ext.size() && i < m.size(); ++i)
                for (auto& f : m[i])
                    if (f.key != "TR_HDR_EXT") keys.push_back(f.key);
            if (!keys.empty()) {
                auto k = g.pick(keys);
                if (k != "SAMP_NUM" || !s.empty()) {
                    h.erase(k);
                    what = "missing " + k;
                    break;
                }
            }
        }
            [[fallthrough]];
        default: {
            if (g.chance(50) || s.empty()) s.resize(s.size() + 1 + g.choice(5));
            else s.resize(g.choice(s.size() - 1));
            what = cat(s.size(), " samples, header ", d.nsamp);
        }
        }
        return { Trace(h, s), what };
    };
    {
        auto w = args(r, m).open(p);
        for (size_t i = 0; i < stop; ++i) {
            for (size_t k = g.size(2); k; --k, ++bad) {
                auto b = make_bad(r.traces[i]);
                CHECK(throws_std([&] { w->write_trace(b.first); }), b.second, " accepted before trace ", i);
            }
            Trace t = to_trace(g, r, r.traces[i], m);
            w->write_trace(t);
            ++good;
        }
        if (stop == r.traces.size())
            for (size_t k = g.size(2); k; --k, ++bad) {
                Trace t = to_trace(g, r, g.pick(r.traces), m);
                CHECK(throws_std([&] { w->write_trace(t); }), "trace ", stop, " of ", stop, " accepted");
            }
        else
            for (size_t k = g.size(2); k; --k, ++bad) {
                auto b = make_bad(r.traces[stop]);
                CHECK(throws_std([&] { w->write_trace(b.first); }), b.second, " accepted at the end");
            }
    }
    {
        auto w = args(r, m).open(p2);
        for (size_t i = 0; i < stop; ++i) {
            std::unordered_map<std::string, Value> h;
            for (auto& kv : expect_header(r, r.traces[i], m)) h[kv.first] = kv.second;
            Trace t(h, values(r, r.traces[i]));
            w->write_trace(t);
        }
    }
    check_bytes(read_file(p), read_file(p2), "file with refused traces");
    ISEGD s(p, lib(m));
    check_record(s, r, "read back");
    for (size_t i = 0; i < stop; ++i) {
        CHECK(s.has_trace(), "trace ", i, " not found");
        Trace t = s.read_trace();
        check_header(t, expect_header(r, r.traces[i], m), cat("trace ", i));
        CHECK(t.samples().size() == r.traces[i].nsamp, "trace ", i, " samples");
    }
    if (bad && good) g.nontrivial();
}
