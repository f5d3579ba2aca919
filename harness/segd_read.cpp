// Properties of the SEG-D reader.
#include "sercel_golden.hpp"
using namespace segd;

// reads every trace of one record and compares header and samples
static void read_all(ISEGD& s, Record const& r, XMaps const& maps, std::string const& what)
{
    for (size_t i = 0; i < r.traces.size(); ++i) {
        CHECK(s.has_record(), what, ": no record before trace ", i);
        CHECK(s.has_trace(), what, ": trace ", i, " of ", r.traces.size(), " not found");
        Trace t = s.read_trace();
        check_trace(r, r.traces[i], maps, t, cat(what, " trace ", i));
    }
}
static Record make(Gen& g, DOpts const& o, XMaps const& maps, std::string const& p)
{
    Record r = gen_record(g, o, maps);
    g.describe(describe(r));
    write_file(p, r.encode());
    return r;
}

// ---------------------------------------------------------------------- C20
PROPERTY("C20", "general_headers", 140000, 3500000,
         "generated record of revision 0 to 2 with boundary-heavy digits, nibbles and bytes in "
         "every field of general headers 1, 2 and up to 14 further ones, counts given directly or "
         "escaped; oracle: reference field tables; non-trivial = general header 2 present")
{
    DOpts o;
    o.rev = (int)g.choice(2);
    o.max_traces = 3;
    o.max_samples = 6;
    o.big = true;
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    check_record(s, r, "opened");
    // headers stay as they are while traces are read
    size_t keep = r.traces.size() ? g.choice(r.traces.size() - 1) : 0;
    for (size_t i = 0; i < keep; ++i) s.read_trace();
    check_record(s, r, cat("after ", keep, " traces"));
    if (r.has_gh2) g.nontrivial();
}

// ---------------------------------------------------------------------- C21
PROPERTY("C21", "descriptors", 27000, 675000,
         "generated record of any revision, random content of every descriptor field (numbers "
         "unrelated to position included), skew blocks, up to 99 scan types or 260 sets; oracle: "
         "reference field tables; non-trivial = more than one descriptor")
{
    DOpts o;
    o.max_traces = 4;
    o.max_samples = 6;
    o.big = true;
    o.random_sets = g.chance(50);
    o.any_chans = g.chance(20);
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    check_record(s, r, "opened");
    if (!o.any_chans) {
        read_all(s, r, {}, "record");
        CHECK(!s.has_trace(), "more traces than channels");
        CHECK(!s.has_record(), "more records than written");
    }
    size_t n = 0;
    for (auto& x : r.sets) n += x.size();
    if (n > 1) g.nontrivial();
}

PROPERTY("C21", "channel_counts", 1500, 40000,
         "record whose channel sets hold boundary numbers of channels (up to 2000, four digits "
         "or three bytes) of traces without samples; the reader delivers exactly their sum; "
         "non-trivial = more than 99 channels")
{
    DOpts o;
    o.max_traces = 0;
    o.empty_ok = true;
    o.rev = (int)g.choice(3);
    Record r = gen_record(g, o, {});
    bool rev3 = r.rev3();
    r.traces.clear();
    size_t total = 0;
    for (size_t i = 0; i < r.sets.size(); ++i)
        for (size_t j = 0; j < r.sets[i].size(); ++j) {
            Bytes& c = r.sets[i][j];
            static std::vector<int> const n { 0, 1, 2, 9, 10, 11, 90, 99, 100, 101, 255, 256,
                                              257, 990, 999, 1000, 1001, 1100, 1999, 2000 };
            size_t k = (size_t)g.pick(n);
            if (total + k > 3000) k = 0;
            if (rev3) put(c, 20, k, 3, false), put(c, 12, 0, 4, false);
            else put_bcd(c, 16, 4, k);
            total += k;
            for (size_t m = 0; m < k; ++m) {
                DTrace t;
                t.scan = (int)i + 1;
                t.set = (int)j + 1;
                t.hdr = Bytes(20, '\0');
                put_bcd(t.hdr, 4, 2, i + 1);
                put_bcd(t.hdr, 6, 2, j + 1);
                put_bcd(t.hdr, 8, 4, m + 1);
                if (!rev3) put(t.hdr, 9, 1, 1, false), t.ext.push_back(Bytes(32, '\0'));
                r.traces.push_back(t);
            }
        }
    g.describe(describe(r));
    std::string p = g.path("a.sgd");
    write_file(p, r.encode());
    ISEGD s(p);
    if (total) check_record(s, r, "opened");
    for (size_t i = 0; i < total; ++i) {
        CHECK(s.has_trace(), "trace ", i, " of ", total, " not found");
        Trace t = s.read_trace();
        auto& h = t.header();
        CHECK(std::get<0>(*h.get("CHAN")) == (int64_t)dec(r.traces[i].hdr, BCD, 8, 4) &&
                  std::get<0>(*h.get("CH_SET_NUM")) == r.traces[i].set &&
                  std::get<0>(*h.get("SCAN_TYPE_NUM")) == r.traces[i].scan,
              "trace ", i, " is another one");
        CHECK(t.samples().empty(), "trace ", i, " has samples");
    }
    CHECK(!s.has_trace() && !s.has_record(), "more than ", total, " traces");
    if (total > 99) g.nontrivial();
}

// ---------------------------------------------------------------------- C22
PROPERTY("C22", "rev3_blocks", 90000, 2250000,
         "generated revision 3 record with any subset of the 24 block kinds in random order, "
         "unknown kinds between, block count direct or escaped; oracle: reference field tables; "
         "non-trivial = at least one block of a known kind")
{
    DOpts o;
    o.rev = 3;
    o.max_traces = 2;
    o.max_samples = 4;
    o.big = true;
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    check_record(s, r, "opened");
    for (auto& b : r.blocks)
        for (auto& k : kinds())
            if ((unsigned char)b[31] == k.type) {
                g.tag(k.name);
                g.nontrivial();
            }
}

// ---------------------------------------------------------------------- C23
PROPERTY("C23", "standard_headers", 40000, 1000000,
         "generated traces of any revision, boundary-heavy header bytes, 0 to 7 extension blocks "
         "read per the standard; oracle: reference decoder; non-trivial = some trace has an "
         "extension block")
{
    DOpts o;
    o.max_traces = 8;
    o.big = g.chance(30);
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    read_all(s, r, {}, "record");
    CHECK(!s.has_trace(), "more traces than channels");
    for (auto& t : r.traces)
        if (t.ext.size()) g.nontrivial();
}
PROPERTY("C23", "extension_maps", 40000, 1000000,
         "generated extension maps (1 to 7 blocks, all 13 value types, gaps, any place of the "
         "number of samples), more or fewer blocks than maps; oracle: reference decoder; "
         "non-trivial = some mapped block besides the number of samples")
{
    DOpts o;
    o.max_traces = 8;
    o.big = g.chance(20);
    XMaps m = gen_xmaps(g);
    std::string p = g.path("a.sgd");
    Record r = make(g, o, m, p);
    ISEGD s(p, lib(m));
    read_all(s, r, m, "record");
    CHECK(!s.has_trace(), "more traces than channels");
    for (auto& t : r.traces)
        if (t.ext.size() && (t.ext.size() > 1 || m[0].size() > 1)) g.nontrivial();
}
PROPERTY("C23", "built_in_maps", 18000, 450000,
         "generated traces read with one of the library's built-in Sercel maps; oracle: reference "
         "decoder with an independent copy of the documented layout; non-trivial = always")
{
    DOpts o;
    o.max_traces = 5;
    o.max_samples = 10;
    int k = (int)g.choice(2);
    XMaps const& m = k == 0 ? golden_sercel_428xl : k == 1 ? golden_sercel_428
                                                          : golden_sercel_408;
    ExtMaps const& l = k == 0 ? CommonSEGD::sercel_428xl
        : k == 1 ? CommonSEGD::sercel_428 : CommonSEGD::sercel_408;
    std::string p = g.path("a.sgd");
    Record r = make(g, o, m, p);
    ISEGD s(p, l);
    read_all(s, r, m, "record");
    CHECK(!s.has_trace(), "more traces than channels");
    g.describe(cat("map ", k));
    g.nontrivial();
}

// ---------------------------------------------------------------------- C24
PROPERTY("C24", "samples", 130000, 3250000,
         "generated record in one of 14 formats, boundary-heavy raw sample bits, any de-scale "
         "exponent (integral, fractional, negative), several channel sets; oracle: reference "
         "decoder; non-trivial = at least one sample")
{
    DOpts o;
    o.max_traces = 6;
    o.max_samples = g.chance(5) ? 600 : 60;
    bool own = g.chance(20);
    XMaps m = own ? gen_xmaps(g) : XMaps {};
    std::string p = g.path("a.sgd");
    Record r = make(g, o, m, p);
    g.tag(cat("format ", r.format));
    ISEGD s(p, lib(m));
    size_t n = 0;
    for (size_t i = 0; i < r.traces.size(); ++i) {
        CHECK(s.has_trace(), "trace ", i, " not found");
        Trace t = s.read_trace();
        check_samples(r, r.traces[i], t, cat("trace ", i));
        n += t.samples().size();
    }
    CHECK(!s.has_trace() && !s.has_record(), "more traces than channels");
    if (n) g.nontrivial();
}
PROPERTY("C24", "unsupported_format", 23000, 575000,
         "record with a format code other than the 14 supported ones (near misses, digits "
         "swapped, non-digits): opening, or going on to such a second record, must throw; "
         "non-trivial = always")
{
    DOpts o;
    o.max_traces = 3;
    o.max_samples = 6;
    Record r = gen_record(g, o, {});
    Bytes code(2, '\0');
    if (g.chance(50)) put_bcd(code, 0, 4, (uint64_t)g.pick(dformats()).code);
    else put(code, 0, g.pattern(16), 2, false);
    if (g.chance(70)) put_nib(code, g.choice(3), (int)g.choice(15));
    int v = (int)dec(code, BCD, 0, 4);
    if (dbits(v)) code = Bytes(2, '\0');
    Record bad = gen_record(g, o, {});
    bad.gh1.replace(2, 2, code);
    std::string p = g.path("a.sgd");
    g.describe("code " + hex(code));
    g.nontrivial();
    if (g.chance(30)) { // good record first
        write_file(p, r.encode() + bad.encode());
        ISEGD s(p);
        bool threw = false;
        size_t n = 0;
        try {
            while (s.has_record()) {
                CHECK(n < r.traces.size(), "trace of unsupported format delivered");
                s.read_trace();
                ++n;
            }
        } catch (Fail&) {
            throw;
        } catch (std::exception&) {
            threw = true;
        }
        CHECK(threw, "second record with format ", hex(code), " accepted");
        return;
    }
    write_file(p, bad.encode());
    CHECK(throws_std([&] { ISEGD s(p); }), "format ", hex(code), " accepted");
}

// ---------------------------------------------------------------------- C25
PROPERTY("C25", "history", 27000, 675000,
         "file of 1 to 5 records of independent revisions, formats and structure (trailers and "
         "channel-less records included), random history of has_record, has_trace, header getters "
         "and read_trace; oracle: list of records; non-trivial = more than one record")
{
    bool own = g.chance(25);
    XMaps m = own ? gen_xmaps(g) : XMaps {};
    size_t n = 1 + g.size(4);
    std::vector<Record> rs;
    Bytes b;
    for (size_t i = 0; i < n; ++i) {
        DOpts o;
        o.max_traces = 6;
        o.max_samples = 12;
        o.empty_ok = g.chance(30);
        o.big = g.chance(10);
        rs.push_back(gen_record(g, o, m));
        b += rs.back().encode();
        g.describe(describe(rs.back()));
    }
    std::string p = g.path("a.sgd");
    write_file(p, b);
    ISEGD s(p, lib(m));
    size_t total = 0;
    for (size_t i = 0; i < n; ++i) {
        Record const& r = rs[i];
        for (size_t k = 0; k < r.traces.size(); ++k, ++total) {
            if (k == 0 || g.chance(15)) check_record(s, r, cat("record ", i, " trace ", k));
            for (size_t q = g.choice(2); q; --q) {
                CHECK(s.has_record(), "record ", i, " trace ", k, ": has_record is false");
                CHECK(s.has_trace(), "record ", i, " trace ", k, ": has_trace is false");
            }
            Trace t = s.read_trace();
            check_trace(r, r.traces[k], m, t, cat("record ", i, " trace ", k));
        }
    }
    CHECK(!s.has_trace(), "has_trace is true after ", total, " traces");
    CHECK(!s.has_record(), "has_record is true after ", total, " traces");
    for (size_t q = g.choice(2); q; --q) {
        CHECK(throws_std([&] { s.read_trace(); }), "trace behind the last record delivered");
        CHECK(!s.has_trace() && !s.has_record(), "state changed by failing read_trace");
    }
    if (n > 1) g.nontrivial();
}
PROPERTY("C25", "record_independence", 13000, 325000,
         "metamorphic: every record of a file of 2 to 4 records, read in sequence, gives the same "
         "headers and traces as in a file of its own; non-trivial = always")
{
    size_t n = 2 + g.size(2);
    std::vector<Record> rs;
    Bytes b;
    DOpts o;
    o.max_traces = 4;
    o.max_samples = 10;
    for (size_t i = 0; i < n; ++i) {
        rs.push_back(gen_record(g, o, {}));
        b += rs.back().encode();
    }
    std::string p = g.path("a.sgd"), q = g.path("b.sgd");
    write_file(p, b);
    ISEGD all(p);
    for (size_t i = 0; i < n; ++i) {
        write_file(q, rs[i].encode());
        ISEGD one(q);
        auto same_n = [](auto const& x, auto const& y) { return x.size() == y.size(); };
        CHECK(all.general_header().file_number == one.general_header().file_number &&
                  all.general_header2().has_value() == one.general_header2().has_value() &&
                  all.general_header3().has_value() == one.general_header3().has_value() &&
                  same_n(all.general_headerN(), one.general_headerN()) &&
                  all.extended_headers() == one.extended_headers() &&
                  all.external_headers() == one.external_headers() &&
                  same_n(all.channel_set_headers(), one.channel_set_headers()),
              "headers of record ", i, " depend on the records before");
        for (auto& k : kinds())
            CHECK(k.present(all) == k.present(one), k.name, " block of record ", i);
        for (size_t k = 0; one.has_trace(); ++k) {
            CHECK(all.has_trace(), "record ", i, " trace ", k);
            Trace a = all.read_trace(), c = one.read_trace();
            CHECK(a.header().keys().size() == c.header().keys().size(), "keys");
            for (auto& key : a.header().keys())
                CHECK(c.header().get(key) && same(*a.header().get(key), *c.header().get(key)),
                      "record ", i, " trace ", k, " header ", key);
            CHECK(a.samples().size() == c.samples().size(), "samples of record ", i);
            for (size_t j = 0; j < a.samples().size(); ++j)
                CHECK(same(a.samples()[j], c.samples()[j]), "record ", i, " trace ", k,
                      " sample ", j);
        }
    }
    CHECK(!all.has_trace() && !all.has_record(), "traces left");
    g.describe(cat(n, " records"));
    g.nontrivial();
}

PROPERTY("C25", "large_trailers", 900, 22500,
         "sparse file of 2 to 4 records with trailers of up to 2^16-1 (revision 1, 2) or tens of "
         "gigabytes (revision 3) of blocks between them; oracle: list of records; non-trivial = "
         "file larger than 2 GiB")
{
    size_t n = 2 + g.choice(2);
    std::vector<Record> rs;
    std::string p = g.path("a.sgd");
    uint64_t size;
    {
        Sparse o(p);
        DOpts d;
        d.max_traces = 3;
        d.max_samples = 10;
        for (size_t i = 0; i < n; ++i) {
            rs.push_back(gen_record(g, d, {}));
            Record& r = rs.back();
            uint64_t blocks = r.trailer;
            if (r.has_gh2 && g.chance(80)) {
                static std::vector<uint64_t> const edge3 { 0x3ffffff, 0x4000000, 0x4000001,
                    0x7ffffff, 0x8000000, 0x10000000, 0xffff, 0x10000 };
                static std::vector<uint64_t> const edge2 { 255, 256, 0x7fff, 0x8000, 0xffff };
                blocks = g.pick(r.rev3() ? edge3 : edge2);
                r.trailer = 0;
                put(r.gh2, 12, blocks, r.rev3() ? 4 : 2, false);
                o.put(r.encode());
                o.skip(blocks * 32);
            } else
                o.put(r.encode());
            g.describe(describe(r) + cat(", trailer blocks ", blocks));
        }
        size = o.pos;
    }
    ISEGD s(p);
    for (size_t i = 0; i < n; ++i) {
        Record const& r = rs[i];
        check_record(s, r, cat("record ", i));
        for (size_t k = 0; k < r.traces.size(); ++k) {
            CHECK(s.has_record() && s.has_trace(), "record ", i, " trace ", k, " not found");
            Trace t = s.read_trace();
            check_trace(r, r.traces[k], {}, t, cat("record ", i, " trace ", k));
        }
    }
    CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
    g.tag(size >> 32 ? "beyond 4 GiB" : size >> 31 ? "beyond 2 GiB" : "smaller");
    if (size >> 31) g.nontrivial();
}

// -------------------------------------------------------------- large numbers
static size_t many_blocks(Gen& g, bool rev3)
{
    static std::vector<size_t> const n { 254, 255, 256, 257, 999, 1000, 9999, 10000, 32767,
                                         32768, 65534, 65535 };
    return rev3 && g.chance(20) ? 65536 + g.choice(5000) : g.pick(n);
}
PROPERTY("C20", "many_blocks", 400, 10000,
         "record of revision 1 or 2 with 254 to 65535 extended or external header blocks; oracle: "
         "the generated blocks; non-trivial = always")
{
    DOpts o;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 2;
    o.max_samples = 4;
    bool extd = g.choice(1);
    if (extd || g.chance(20)) o.extd = (int64_t)many_blocks(g, false);
    if (!extd) o.extl = (int64_t)many_blocks(g, false);
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    check_record(s, r, "record");
    read_all(s, r, {}, "record");
    CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
    g.nontrivial();
}
PROPERTY("C21", "many_sets", 300, 9000,
         "record of revision 1 to 3 with 254 to 65535 channel sets in a scan type, or (revision 3) "
         "255 to 65535 skew blocks; oracle: reference field tables and the generated traces; "
         "non-trivial = always")
{
    DOpts o;
    o.rev = 1 + (int)g.choice(2);
    o.max_traces = 4;
    o.max_samples = 4;
    if (o.rev == 3 && g.chance(30)) {
        static std::vector<int64_t> const n { 165, 255, 256, 2047, 2048, 32767, 65535 };
        o.skew = g.pick(n);
    } else
        o.nsets = many_blocks(g, false);
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    check_record(s, r, "record");
    read_all(s, r, {}, "record");
    CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
    g.nontrivial();
}
PROPERTY("C23", "many_extensions", 2500, 60000,
         "traces of any revision with 8 to 255 extension blocks, read per the standard or with "
         "maps for some or all of them, the number of samples in any block; oracle: reference "
         "decoder; non-trivial = always")
{
    DOpts o;
    o.max_traces = 3;
    o.max_samples = 8;
    o.ext = many_ext(g);
    XMaps m = many_xmaps(g, o.ext);
    std::string p = g.path("a.sgd");
    Record r = make(g, o, m, p);
    g.describe(cat(o.ext, " extension blocks, ", m.size(), " maps"));
    ISEGD s(p, lib(m));
    read_all(s, r, m, "record");
    CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
    g.nontrivial();
}
PROPERTY("C22", "many_blocks", 400, 10000,
         "revision 3 record with up to 65535 general header blocks, most of unknown kinds, or up "
         "to 70000 extended or external header blocks; oracle: the generated blocks; non-trivial "
         "= always")
{
    DOpts o;
    o.rev = 3;
    o.max_traces = 2;
    o.max_samples = 4;
    switch (g.choice(2)) {
    case 0: o.extd = (int64_t)many_blocks(g, true); break;
    case 1: o.extl = (int64_t)many_blocks(g, true); break;
    default: o.fillers = std::min<size_t>(many_blocks(g, false), 65400);
    }
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    ISEGD s(p);
    check_record(s, r, "record");
    read_all(s, r, {}, "record");
    CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
    g.nontrivial();
}
PROPERTY("C24", "long_traces", 400, 10000,
         "traces of 1000 to 100000, seldom 2^23 or more samples in one of 14 formats; oracle: "
         "reference decoder; non-trivial = always")
{
    static std::vector<int64_t> const n { 1000, 4096, 9999, 10000, 32764, 32767, 32768, 32769,
                                          65532, 65535, 65536, 65537, 70000, 100000 };
    static std::vector<int64_t> const huge { 8388604, 8388607, 8388608, 8388612 };
    DOpts o;
    o.max_traces = 2;
    o.samples = g.pick(n);
    if (g.chance(1)) {
        o.samples = g.pick(huge);
        o.max_traces = 1;
        o.format = g.choice(1) ? 8022 : 8042;
    }
    std::string p = g.path("a.sgd");
    Record r = make(g, o, {}, p);
    g.tag(cat("format ", r.format));
    g.describe(cat(o.samples, " samples"));
    ISEGD s(p);
    for (size_t i = 0; i < r.traces.size(); ++i) {
        CHECK(s.has_trace(), "trace ", i, " not found");
        Trace t = s.read_trace();
        check_samples(r, r.traces[i], t, cat("trace ", i));
    }
    CHECK(!s.has_trace() && !s.has_record(), "more traces than channels");
    g.nontrivial();
}
PROPERTY("C25", "many", 60, 1500,
         "file of up to 1000 records or a record of up to 70000 channels; oracle: list of records "
         "and traces; non-trivial = always")
{
    std::string p = g.path("a.sgd");
    if (g.choice(1)) {
        static std::vector<size_t> const counts { 99, 100, 127, 128, 255, 256, 257, 999, 1000 };
        size_t n = g.pick(counts);
        std::vector<Record> few;
        DOpts o;
        o.max_traces = 3;
        o.max_samples = 4;
        for (int i = 0; i < 5; ++i) few.push_back(gen_record(g, o, {}));
        Rng q = g.sub();
        std::vector<size_t> which;
        Bytes b;
        for (size_t i = 0; i < n; ++i) {
            which.push_back(q.below(few.size()));
            Record& r = few[which.back()];
            b += r.encode();
        }
        write_file(p, b);
        g.describe(cat(n, " records"));
        ISEGD s(p);
        for (size_t i = 0; i < n; ++i) {
            if (i % 16 == 0) check_record(s, few[which[i]], cat("record ", i));
            read_all(s, few[which[i]], {}, cat("record ", i));
        }
        CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
        g.nontrivial();
        return;
    }
    DOpts o;
    o.max_traces = 0;
    o.empty_ok = true;
    o.rev = (int)g.choice(3);
    Record r = gen_record(g, o, {});
    bool rev3 = r.rev3();
    r.traces.clear();
    if (r.sets.empty()) return;
    static std::vector<size_t> const totals { 9999, 10000, 32767, 32768, 65535, 65536, 70000 };
    size_t total = g.pick(totals), slots = 0, left = total, i = 0;
    for (auto& x : r.sets) slots += x.size();
    if (!rev3) total = left = std::min(total, slots * 9999);
    for (auto& x : r.sets)
        for (auto& c : x) {
            --slots;
            size_t k = slots == 0 ? left : rev3 ? g.choice(left) : std::min<size_t>(left, 9999);
            if (rev3) put(c, 20, k, 3, false), put(c, 12, 0, 4, false);
            else put_bcd(c, 16, 4, k);
            left -= k;
        }
    g.describe(describe(r));
    Bytes b = r.encode(), h(20, '\0');
    if (!rev3) put(h, 9, 1, 1, false), h += Bytes(32, '\0');
    // the trailer comes after the traces
    Bytes tail = b.substr(b.size() - r.trailer * 32);
    b.resize(b.size() - r.trailer * 32);
    for (i = 0; i < total; ++i) {
        put_bcd(h, 8, 4, i % 9973);
        put_bcd(h, 4, 2, 1);
        put_bcd(h, 6, 2, 1);
        b += h;
    }
    DOpts small;
    small.max_traces = 2;
    Record next = gen_record(g, small, {});
    write_file(p, b + tail + next.encode());
    ISEGD s(p);
    for (i = 0; i < total; ++i) {
        CHECK(s.has_trace(), "trace ", i, " of ", total, " not found");
        Trace t = s.read_trace();
        auto id = t.header().get("CHAN");
        CHECK(id && same(*id, Value((int64_t)(i % 9973))), "trace ", i, " is ",
              id ? show(*id) : "none");
    }
    check_record(s, next, "next record");
    read_all(s, next, {}, "next record");
    CHECK(!s.has_trace() && !s.has_record(), "something left at the end");
    g.nontrivial();
}
