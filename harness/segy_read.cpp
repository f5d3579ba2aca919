// Properties of the SEG-Y readers.
#include "segy_ref.hpp"
using namespace ref;

static std::string const FILE_RULE =
    "a generated SEG-Y file (all revisions, formats, byte orders, header maps) "
    "encoded by the reference encoder";

// ---------------------------------------------------------------------- C01
PROPERTY("C01", "samples", 36000, 900000,
         "generated file in any of 13 formats x 2 byte orders x fixed/variable "
         "length, boundary-heavy raw sample bit patterns; oracle: reference "
         "decoder; non-trivial = at least one trace with at least one sample")
{
    Opts o;
    File f = gen_file(g, o);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(f.maps));
    size_t n = 0;
    for (size_t i = 0; i < f.traces.size(); ++i) {
        CHECK(s.has_trace(), "trace ", i, " of ", f.traces.size(), " not found");
        Trace t = s.read_trace();
        check_samples(t.samples(), f.samples(f.traces[i]), cat("trace ", i));
        n += t.samples().size();
    }
    CHECK(!s.has_trace(), "more than ", f.traces.size(), " traces");
    if (n) g.nontrivial();
}

PROPERTY("C01", "unsupported_format", 6000, 150000,
         "file with a format code outside the 13 supported ones; opening must "
         "throw; non-trivial = always")
{
    Opts o;
    o.big = false;
    File f = gen_file(g, o);
    Bytes b = f.encode();
    int code;
    do {
        code = (int)g.edgy(-40, 40);
        if (g.chance(20)) code = (int)sext(g.pattern(16), 16);
        bool ok = true;
        for (auto& x : formats()) ok &= x.code != code;
        if (ok) break;
        code = 4;
    } while (0);
    put(b, 3224, (uint64_t)(int64_t)code, 2, f.le);
    std::string p = g.path("a.sgy");
    write_file(p, b);
    bool thrown = throws_std([&] { ISEGY s(p, lib(f.maps)); });
    CHECK(thrown, "format code ", code, " accepted");
    thrown = throws_std([&] { ISEGY::read_binary_header(p); });
    CHECK(thrown, "format code ", code, " accepted by read_binary_header");
    g.describe(cat("format code ", code));
    g.nontrivial();
}

// ---------------------------------------------------------------------- C03
PROPERTY("C03", "read", 23000, 575000,
         "file with boundary-heavy random values in every binary header field "
         "and junk in unassigned bytes; oracle: reference offset table; "
         "non-trivial = some binary header field besides counts is non-zero")
{
    Opts o;
    o.big = false;
    File f = gen_file(g, o);
    for (auto& b : bin_fields()) {
        // fields without influence on where things are
        static std::vector<std::string> const fixed { "samp_per_tr",
            "format_code", "ext_samp_per_tr", "SEGY_rev_major_ver",
            "fixed_tr_length", "ext_text_headers_num", "max_num_add_tr_headers",
            "num_of_tr_in_file", "byte_off_of_first_tr", "num_of_trailer_stanza" };
        if (std::find(fixed.begin(), fixed.end(), b.name) != fixed.end()) continue;
        if (b.tail && f.bh.SEGY_rev_major_ver < 2) continue;
        uint64_t v = g.pattern(b.size * 8);
        if (b.size == 8 && b.off < 96) v = canonical_float(F64, v);
        b.set(f.bh, v);
    }
    if (f.bh.SEGY_rev_major_ver == 2 && g.chance(20))
        f.bh.SEGY_rev_major_ver = (uint8_t)g.range(2, 255);
    if (f.bh.ext_samp_per_tr) f.bh.samp_per_tr = (int16_t)g.pattern(16);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    BH want = reported(f);
    ISEGY s(p, lib(f.maps));
    check_bin(s.binary_header(), want, "opened reader");
    BH st = ISEGY::read_binary_header(p);
    check_bin(st, want, "read_binary_header");
    for (auto& t : f.traces) (void)t, s.read_trace();
    check_bin(s.binary_header(), want, "after reading");
    if (want.job_id || want.line_num || want.ens_fold) g.nontrivial();
}

PROPERTY("C03", "marker", 6500, 162500,
         "file whose endianness word is a random non-marker pattern (near "
         "misses included) must be refused; non-trivial = always")
{
    Opts o;
    o.big = false;
    o.max_traces = 3;
    File f = gen_file(g, o);
    Bytes b = f.encode();
    uint32_t w;
    switch (g.choice(3)) {
    case 0: w = (uint32_t)g.pattern(32); break;
    case 1: w = MARK_LE ^ (1u << g.choice(31)); break;
    case 2: w = MARK_BE ^ (1u << g.choice(31)); break;
    default: {
        static std::vector<uint32_t> const near { 0x02010403, 0x03040102, 1,
            2, 0x01000000, 0x00000001, 0xffffffff, 0x01020300, 0x00020304 };
        w = g.pick(near);
    }
    }
    if (w == 0 || w == MARK_LE || w == MARK_BE) w = 0x02010403;
    put(b, 3296, w, 4, true);
    std::string p = g.path("a.sgy");
    write_file(p, b);
    CHECK(throws_std([&] { ISEGY s(p, lib(f.maps)); }), "endianness word ", w,
          " accepted");
    CHECK(throws_std([&] { ISEGY s(p, f.bh, lib(f.maps)); }),
          "endianness word ", w, " accepted with override");
    g.describe(cat("word ", w));
    g.nontrivial();
}

// ---------------------------------------------------------------------- C04
PROPERTY("C04", "decode", 19000, 475000,
         "file whose trace headers are random bytes, read with a random valid "
         "map (1-7 headers, 13 types, gaps, repeated keys, fewer or more maps "
         "than headers); oracle: reference decoder; non-trivial = a trace and "
         "at least two mapped fields")
{
    Opts o;
    o.big = false;
    File f = gen_file(g, o);
    HMaps use = f.maps;
    if (f.fixed) {
        // the reader may know fewer, more or entirely different maps
        switch (g.choice(4)) {
        case 0:
            use.resize(g.choice(use.size()));
            break;
        case 1:
            use.push_back(gen_map(g, 9));
            break;
        case 2: {
            size_t n = g.choice(use.size() + 1);
            use.clear();
            for (size_t i = 0; i < n; ++i) use.push_back(gen_map(g, (int)i));
            gen_collisions(g, use);
            break;
        }
        default: break;
        }
    }
    // values of 2^63 and more cannot be represented by the API
    bool u64 = false;
    for (auto& m : use)
        for (auto& x : m.fields) u64 |= x.type == VT::uint64_t;
    if (u64)
        for (auto& t : f.traces) {
            Bytes own = f.header_bytes(t, f.le);
            bool changed = false;
            for (size_t m = 0; m < use.size() && m < f.hdrs(); ++m)
                for (auto& x : use[m].fields)
                    if (x.type == VT::uint64_t) {
                        size_t o2 = 240 * m + x.off + (f.le ? 7 : 0);
                        if (own[o2] & 0x80) {
                            // keep it if it belongs to the original map
                            own[o2] = (char)(own[o2] & 0x7f);
                            changed = true;
                        }
                    }
            if (changed) {
                // re-import the bytes
                for (size_t m = 0; m < f.hdrs(); ++m) {
                    t.fill[m] = own.substr(240 * m, 240);
                    for (size_t k = 0; k < f.maps[m].fields.size(); ++k)
                        t.vals[m][k] = get(t.fill[m], f.maps[m].fields[k].off,
                                           vt_size(f.maps[m].fields[k].type), f.le);
                }
            }
        }
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY a(p, lib(use)), b(p, lib(use));
    size_t fields = 0;
    for (size_t m = 0; m < use.size() && m < f.hdrs(); ++m)
        fields += use[m].fields.size();
    for (size_t i = 0; i < f.traces.size(); ++i) {
        HdrVals want = f.header(f.traces[i], use);
        Trace t = a.read_trace();
        check_header(t.header(), want, cat("read_trace ", i));
        check_samples(t.samples(), f.samples(f.traces[i]), cat("trace ", i));
        Trace::Header h = b.read_header();
        check_header(h, want, cat("read_header ", i));
    }
    CHECK(!a.has_trace() && !b.has_trace(), "traces left");
    g.describe("read with " + show(use));
    if (use.size() < f.hdrs()) g.tag("fewer maps than headers");
    if (use.size() > f.hdrs()) g.tag("more maps than headers");
    if (!f.traces.empty() && fields > 1) g.nontrivial();
}

PROPERTY("C04", "default_map", 3200, 80000,
         "file of default-map traces with random header bytes read with the "
         "default map; oracle: table of the SEG-Y standard's fields kept in the "
         "harness; non-trivial = at least one trace")
{
    struct E { int off; char const* key; int size; };
    static E const std_fields[] = {
        { 0, "TRC_SEQ_LINE", 4 }, { 4, "TRC_SEQ_SGY", 4 }, { 8, "FFID", 4 },
        { 12, "CHAN", 4 }, { 16, "ESP", 4 }, { 20, "ENS_NO", 4 },
        { 24, "SEQ_NO", 4 }, { 28, "TRACE_ID", 2 }, { 30, "VERT_SUM", 2 },
        { 32, "HOR_SUM", 2 }, { 34, "DATA_USE", 2 }, { 36, "OFFSET", 4 },
        { 40, "R_ELEV", 4 }, { 44, "S_ELEV", 4 }, { 48, "S_DEPTH", 4 },
        { 52, "R_DATUM", 4 }, { 56, "S_DATUM", 4 }, { 60, "S_WATER", 4 },
        { 64, "R_WATER", 4 }, { 68, "ELEV_SCALAR", 2 }, { 70, "COORD_SCALAR", 2 },
        { 72, "SOU_X", 4 }, { 76, "SOU_Y", 4 }, { 80, "REC_X", 4 },
        { 84, "REC_Y", 4 }, { 88, "COORD_UNITS", 2 }, { 108, "DELAY_TIME", 2 },
        { 110, "MUTE_START", 2 }, { 112, "MUTE_END", 2 }, { 114, "SAMP_NUM", 2 },
        { 116, "SAMP_INT", 2 }, { 156, "YEAR", 2 }, { 158, "DAY", 2 },
        { 160, "HOUR", 2 }, { 162, "MINUTE", 2 }, { 164, "SECOND", 2 },
        { 180, "CDP_X", 4 }, { 184, "CDP_Y", 4 }, { 188, "INLINE", 4 },
        { 192, "XLINE", 4 }, { 196, "SP_NUM", 4 }, { 200, "SP_NUM_SCALAR", 2 },
    };
    Opts o;
    o.big = false;
    o.variable = 0;
    o.map = Opts::DEFAULT;
    o.max_hdrs = false;
    File f = gen_file(g, o);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p);
    for (size_t i = 0; i < f.traces.size(); ++i) {
        Trace t = s.read_trace();
        Bytes raw = f.header_bytes(f.traces[i], f.le);
        for (auto& e : std_fields) {
            auto v = t.header().get(e.key);
            int64_t want = sext(get(raw, e.off, e.size, f.le), 8 * e.size);
            CHECK(v && same(*v, Value(want)), "trace ", i, ": ", e.key, " is ",
                  v ? show(*v) : "missing", " expected ", want);
        }
    }
    if (!f.traces.empty()) g.nontrivial();
}

// ---------------------------------------------------------------------- C06
PROPERTY("C06", "texts_stanzas", 23000, 575000,
         "file with 0-40 extended text headers and 0-4 stanzas, counted or "
         "terminated (-1), fixed or variable traces between; oracle: the "
         "generated blocks; non-trivial = an extended header or a stanza")
{
    Opts o;
    o.big = false;
    if (g.chance(70)) o.rev = 1 + (int)g.choice(1);
    if (g.chance(50)) o.rev = 2;
    File f = gen_file(g, o);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(f.maps));
    check_reader(s, f, f.maps, "reader");
    check_texts(s.text_headers(), f.texts, "text headers after reading");
    check_texts(s.trailer_stanzas(), f.stanzas, "stanzas after reading");
    if (f.texts.size() > 1 || !f.stanzas.empty()) g.nontrivial();
}

// ---------------------------------------------------------------------- C08
PROPERTY("C08", "interleaving", 24000, 600000,
         "random sequence of has_trace/read_header/read_trace over a generated "
         "file; oracle: position counter in the model; non-trivial = both "
         "reading calls used and at least 3 traces read")
{
    Opts o;
    o.big = g.chance(10);
    o.min_traces = g.choice(4);
    File f = gen_file(g, o);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    bool over = g.chance(20);
    std::unique_ptr<ISEGY> s;
    if (over) {
        BH b = reported(f);
        s = std::make_unique<ISEGY>(p, b, lib(f.maps));
    } else
        s = std::make_unique<ISEGY>(p, lib(f.maps));
    size_t nh = 0, nt = 0, i = 0;
    std::string ops;
    while (true) {
        for (uint64_t k = g.choice(2); k; --k) {
            CHECK(s->has_trace() == (i < f.traces.size()), "has_trace at ", i,
                  " of ", f.traces.size(), " after ", ops);
            ops += '?';
        }
        if (i == f.traces.size()) break;
        auto const& t = f.traces[i];
        if (g.choice(1)) {
            Trace::Header h = s->read_header();
            check_header(h, f.header(t), cat("read_header ", i, " after ", ops));
            ops += 'h';
            ++nh;
        } else {
            Trace x = s->read_trace();
            check_trace(x, f.header(t), f.samples(t),
                        cat("read_trace ", i, " after ", ops));
            ops += 't';
            ++nt;
        }
        ++i;
    }
    CHECK(!s->has_trace(), "has_trace at the end after ", ops);
    g.describe("ops " + ops.substr(0, 60));
    if (nh && nt && nh + nt >= 3) g.nontrivial();
}

// ---------------------------------------------------------------------- C12
PROPERTY("C12", "sorted", 19000, 475000,
         "file with few distinct key values, random query/reading history on "
         "ISEGYSorted1D; oracle: grouping of the generated traces; non-trivial "
         "= at least 2 distinct keys, one of them repeated, and a query")
{
    Opts o;
    o.big = false;
    o.max_traces = 60;
    o.min_traces = g.choice(8);
    File f = gen_file(g, o);
    // choose a key among mapped fields
    std::vector<std::pair<size_t, size_t>> cand;
    for (size_t m = 0; m < f.maps.size(); ++m)
        for (size_t k = 0; k < f.maps[m].fields.size(); ++k) cand.push_back({ m, k });
    std::string p = g.path("a.sgy");
    if (cand.empty() || g.chance(5)) {
        write_file(p, f.encode());
        if (f.traces.empty()) {
            ISEGYSorted1D s(p, "NO_SUCH_KEY", lib(f.maps));
            CHECK(!s.has_trace(), "trace in an empty file");
            CHECK(s.get_keys().empty(), "keys in an empty file");
            g.tag("absent key, empty file");
        } else {
            CHECK(throws_std([&] { ISEGYSorted1D s(p, "NO_SUCH_KEY", lib(f.maps)); }),
                  "absent header name accepted");
            g.tag("absent key refused");
        }
        return;
    }
    auto w = cand[g.choice(cand.size() - 1)];
    std::string key = f.maps[w.first].fields[w.second].key;
    if (key != "SAMP_NUM") {
        // few distinct values, never NaN; the last map with the key counts
        for (size_t m = 0; m < f.maps.size(); ++m)
            for (size_t k = 0; k < f.maps[m].fields.size(); ++k)
                if (f.maps[m].fields[k].key == key) w = { m, k };
        VT vt = f.maps[w.first].fields[w.second].type;
        size_t nv = 1 + g.choice(4);
        std::vector<uint64_t> vals;
        for (size_t i = 0; i < nv; ++i) {
            uint64_t v = vt_canonical(vt, g.pattern(vt_size(vt) * 8));
            if (vt == VT::uint64_t) v &= ~0ull >> 1;
            vals.push_back(v);
        }
        // the count of additional headers guides the search for stanzas: not any value
        if (f.bh.num_of_trailer_stanza != -1 || w.first != 1 ||
            f.maps[w.first].fields[w.second].off != 156)
            for (auto& t : f.traces) t.vals[w.first][w.second] = g.pick(vals);
    }
    write_file(p, f.encode());
    auto less = [](Value const& a, Value const& b) {
        return a.index() != b.index() ? a.index() < b.index() : a < b;
    };
    std::vector<std::pair<Value, std::vector<size_t>>> groups;
    for (size_t i = 0; i < f.traces.size(); ++i) {
        Value v = f.header(f.traces[i])[key];
        bool done = false;
        for (auto& x : groups)
            if (x.first == v) { x.second.push_back(i); done = true; }
        if (!done) groups.push_back({ v, { i } });
    }
    std::sort(groups.begin(), groups.end(),
              [&](auto& a, auto& b) { return less(a.first, b.first); });
    std::vector<size_t> order;
    bool repeated = false;
    for (auto& x : groups) {
        repeated |= x.second.size() > 1;
        order.insert(order.end(), x.second.begin(), x.second.end());
    }
    std::unique_ptr<ISEGYSorted1D> s;
    if (g.chance(20))
        s = std::make_unique<ISEGYSorted1D>(p, key, reported(f), lib(f.maps));
    else
        s = std::make_unique<ISEGYSorted1D>(p, key, lib(f.maps));
    auto check_keys = [&] {
        auto ks = s->get_keys();
        CHECK(ks.size() == groups.size(), ks.size(), " keys, expected ", groups.size());
        for (auto& x : groups) {
            bool found = false;
            for (auto& k : ks) found |= same(k, x.first);
            CHECK(found, "key ", show(x.first), " not listed");
        }
    };
    check_keys();
    size_t pos = 0, queries = 0, steps = 3 + g.choice(20);
    std::string ops;
    for (size_t st = 0; st < steps; ++st) {
        switch (g.choice(4)) {
        case 0: { // query
            bool traces = g.choice(1);
            Value v = (int64_t)0;
            std::vector<size_t> want;
            if (!groups.empty() && !g.chance(15)) {
                auto& x = groups[g.choice(groups.size() - 1)];
                v = x.first;
                want = x.second;
            } else {
                v = g.chance(50) ? Value((int64_t)g.range(-3, 3))
                                 : Value((double)g.range(-3, 3) + 0.25);
                for (auto& x : groups)
                    if (x.first == v) want = x.second;
            }
            uint64_t max = g.chance(40) ? g.choice(3)
                : g.chance(30) ? want.size() : UINT64_MAX;
            if (g.chance(20)) max = want.size() + 1;
            bool dflt = g.chance(15); // default limit, far above these files
            if (dflt) max = UINT64_MAX;
            if (want.size() > max) want.resize(max);
            ++queries;
            ops += cat(traces ? "T(" : "H(", show(v), ",", max, ") ");
            if (traces) {
                auto r = dflt ? s->get_traces(v) : s->get_traces(v, max);
                CHECK(r.size() == want.size(), "get_traces returned ", r.size(),
                      " expected ", want.size(), " ops ", ops);
                for (size_t i = 0; i < r.size(); ++i)
                    check_trace(r[i], f.header(f.traces[want[i]]),
                                f.samples(f.traces[want[i]]),
                                cat("get_traces item ", i, " ops ", ops));
            } else {
                auto r = dflt ? s->get_headers(v) : s->get_headers(v, max);
                CHECK(r.size() == want.size(), "get_headers returned ", r.size(),
                      " expected ", want.size(), " ops ", ops);
                for (size_t i = 0; i < r.size(); ++i)
                    check_header(r[i], f.header(f.traces[want[i]]),
                                 cat("get_headers item ", i, " ops ", ops));
            }
            break;
        }
        case 1:
            CHECK(s->has_trace() == (pos < order.size()), "has_trace at ", pos,
                  " of ", order.size(), " ops ", ops);
            break;
        case 2:
            check_keys();
            break;
        default:
            if (pos == order.size()) break;
            // order of keys is the reader's choice; order inside a key is not
            if (g.choice(1)) {
                Trace t = s->read_trace();
                check_trace(t, f.header(f.traces[order[pos]]),
                            f.samples(f.traces[order[pos]]),
                            cat("sorted read_trace ", pos, " ops ", ops));
                ops += "t ";
            } else {
                Trace::Header h = s->read_header();
                check_header(h, f.header(f.traces[order[pos]]),
                             cat("sorted read_header ", pos, " ops ", ops));
                ops += "h ";
            }
            ++pos;
        }
    }
    CHECK(s->has_trace() == (pos < order.size()), "has_trace finally");
    g.describe("key " + key + " ops " + ops.substr(0, 200));
    if (groups.size() > 1 && repeated && queries) g.nontrivial();
}

// ---------------------------------------------------------------------- C18
PROPERTY("C18", "read_both_orders", 4500, 112500,
         "one logical file encoded in both byte orders and read with both; "
         "results must be equal; non-trivial = at least one trace with samples")
{
    Opts o;
    o.unmapped_fill = false;
    File a = gen_file(g, o);
    a.le = false;
    if ((uint32_t)a.bh.endianness == MARK_LE) a.bh.endianness = MARK_BE;
    File b = a;
    b.le = true;
    b.bh.endianness = MARK_LE;
    std::string pa = g.path("be.sgy"), pb = g.path("le.sgy");
    write_file(pa, a.encode());
    write_file(pb, b.encode());
    ISEGY x(pa, lib(a.maps)), y(pb, lib(a.maps));
    check_bin(x.binary_header(), y.binary_header(), "big vs little endian", false);
    check_texts(x.text_headers(), y.text_headers(), "texts");
    check_texts(x.trailer_stanzas(), y.trailer_stanzas(), "stanzas");
    size_t n = 0;
    for (size_t i = 0; i < a.traces.size(); ++i) {
        CHECK(x.has_trace() && y.has_trace(), "trace ", i);
        Trace t = x.read_trace(), u = y.read_trace();
        HdrVals h;
        for (auto& k : u.header().keys()) h[k] = *u.header().get(k);
        check_trace(t, h, u.samples(), cat("trace ", i, " big vs little"));
        check_header(t.header(), a.header(a.traces[i]), cat("trace ", i));
        n += t.samples().size();
    }
    CHECK(!x.has_trace() && !y.has_trace(), "traces left");
    if (n) g.nontrivial();
}

PROPERTY("C18", "convert", 3500, 87500,
         "generated content written by the writer of its revision in one byte "
         "order, converted to the other and back through reader and writer: "
         "the first and third file are identical and the second equals the "
         "reference encoding; non-trivial = at least one trace with samples")
{
    Opts o;
    o.u64_big = true;
    File a = gen_writer_file(g, o);
    std::string p1 = g.path("1.sgy"), p2 = g.path("2.sgy"), p3 = g.path("3.sgy");
    bool first_le = a.le;
    if (!a.bh.endianness) a.bh.endianness = MARK_BE;
    write_lib(p1, a);
    auto convert = [&](std::string const& from, std::string const& to, bool le) {
        ISEGY in(from, lib(a.maps));
        BH h = in.binary_header();
        h.endianness = le ? MARK_LE : MARK_BE;
        Writer w(a.bh.SEGY_rev_major_ver, to, in.text_headers(), h,
                 in.trailer_stanzas(), lib(a.maps));
        while (in.has_trace()) {
            Trace t = in.read_trace();
            w.write(t);
        }
    };
    convert(p1, p2, !first_le);
    convert(p2, p3, first_le);
    File b = a;
    b.le = !first_le;
    b.bh.endianness = b.le ? MARK_LE : MARK_BE;
    check_bytes(read_file(p1), a.encode(), "written file");
    check_bytes(read_file(p2), b.encode(), "converted file");
    check_bytes(read_file(p3), read_file(p1), "file converted back");
    for (auto& t : a.traces)
        if (!t.raw.empty()) g.nontrivial();
}

// ---------------------------------------------------------------------- C19
PROPERTY("C19", "override", 15000, 375000,
         "file whose binary header (except the byte order word) was damaged, "
         "opened with the correct header; oracle: the generated content; "
         "non-trivial = damage changed at least one field and there are traces")
{
    Opts o;
    o.big = g.chance(10);
    File f = gen_file(g, o);
    Bytes b = f.encode();
    size_t damaged = 0;
    if (g.chance(80)) {
        Rng r = g.sub();
        bool all = r.below(2);
        for (int i = 0; i < 400; ++i)
            if ((i < 96 || i >= 100) && (all || r.below(10) == 0)) {
                char c = (char)r.next();
                damaged += c != b[3200 + i];
                b[3200 + i] = c;
            }
    }
    std::string p = g.path("a.sgy");
    write_file(p, b);
    BH h = reported(f);
    BH given = h;
    // the byte order is the file's business
    if (g.chance(50)) given.endianness = (int32_t)g.pattern(32);
    if (g.chance(30)) given.endianness = f.le ? MARK_BE : MARK_LE;
    ISEGY s(p, given, lib(f.maps));
    check_reader(s, f, f.maps, "override");
    BH got = s.binary_header();
    got.endianness = h.endianness;
    check_bin(got, h, "header in effect");
    if (damaged && !f.traces.empty()) g.nontrivial();
}

PROPERTY("C19", "self_override", 6400, 160000,
         "file opened with the header read_binary_header returned for it must "
         "read like without override; non-trivial = at least one trace")
{
    Opts o;
    o.big = false;
    File f = gen_file(g, o);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    BH h = ISEGY::read_binary_header(p);
    ISEGY s(p, h, lib(f.maps));
    check_bin(s.binary_header(), reported(f), "self override");
    check_reader(s, f, f.maps, "self override");
    if (!f.traces.empty()) g.nontrivial();
}

// ------------------------------------------------------ files beyond 4 GiB
struct Large {
    File f;                    // traces without their samples
    std::vector<uint64_t> num; // samples of each trace, zeros unless small
    std::string key;
    size_t key_map;
};
static Large gen_large(Gen& g, std::string const& p)
{
    Large l;
    File& f = l.f;
    f.le = g.choice(1);
    Format const& fm = g.pick(formats());
    bool variable = g.chance(60);
    f.fixed = !variable;
    BH& h = f.bh;
    h.endianness = f.le ? MARK_LE : MARK_BE;
    h.format_code = (int16_t)fm.code;
    h.samp_int = 1000;
    h.SEGY_rev_major_ver = 2;
    h.fixed_tr_length = variable ? 0 : 1;
    h.max_num_add_tr_headers = 1;
    VT snt = g.choice(1) ? VT::int32_t : VT::uint32_t;
    f.maps = { { "HDR00000", { { 4, "K_A", VT::int32_t }, { 236, "K_B", VT::int32_t } } },
               { "HDR00001", { { 8, "K_C", VT::int16_t }, { 136, "SAMP_NUM", snt } } } };
    size_t ntr = variable ? 1 + g.choice(6) : 1 + g.choice(40);
    uint64_t fix = 0;
    if (!variable) {
        static std::vector<uint64_t> const sz { 7, 1 << 16, 1 << 20, 1 << 22, 1 << 24 };
        fix = g.pick(sz);
        if (fix * fm.size > (64u << 20)) fix = (64u << 20) / fm.size;
        h.ext_samp_per_tr = (int32_t)fix;
        if (fix > (1 << 20)) ntr = 60 + g.choice(100);
    }
    f.texts.push_back(gen_text(g));
    uint64_t gap = 0;
    if (g.chance(40)) {
        static std::vector<uint64_t> const offs { 0x7fffffff, 0x80000000ull,
            0xffffffffull, 0x100000000ull, 0x100000001ull, 0x234567890ull };
        gap = g.pick(offs);
        h.byte_off_of_first_tr = 3600 + gap;
    }
    size_t nst = g.choice(2);
    for (size_t i = 0; i < nst; ++i) f.stanzas.push_back(gen_text(g));
    h.num_of_trailer_stanza = (int32_t)nst;
    if (nst && g.choice(1)) {
        h.num_of_trailer_stanza = -1;
        h.num_of_tr_in_file = ntr;
        f.stanzas.back().replace(0, 16, end_text());
    }
    // further headers per trace, never mapped: their bytes are skipped
    uint64_t add = 1;
    if (g.chance(35)) {
        static std::vector<uint64_t> const adds { 2, 32768, 65535, 65536, 65537, 70000,
            131073, 8947848, 8947849, 8947850, 9000000, 17895698, 20000000 };
        add = g.pick(adds);
    }
    Sparse o(p);
    h.max_num_add_tr_headers = (int32_t)add;
    o.put(f.head());
    h.max_num_add_tr_headers = 1; // what the model decodes
    o.skip(gap);
    uint64_t nv = 1 + g.choice(2);
    for (size_t i = 0; i < ntr; ++i) {
        uint64_t n = fix;
        if (variable) {
            static std::vector<uint64_t> const edge { 0, 3, 40, 0xffff, 0xfffffff,
                0x10000000, 0x20000000, 0x20000001, 0x40000000, 0x55555556,
                0x7fffffff };
            n = g.pick(edge);
            if (snt == VT::uint32_t && g.chance(20)) n = 0x80000000u + g.choice(0x7fffffff);
        }
        Tr t;
        t.vals = { { (uint64_t)i, (uint64_t)g.choice(nv) - 1 }, { 7 * i, n } };
        t.fill = { Bytes(240, (char)i), Bytes(240, (char)~i) };
        put(t.fill[1], 156, add > 65535 ? 0 : g.choice(1) * add, 2, f.le);
        if (n * fm.size <= 4096) t.raw = gen_samples(g, fm, n, false);
        o.put(f.header_bytes(t, f.le));
        o.skip((add - 1) * 240);
        if (t.raw.size() == n) {
            Bytes b(n * fm.size, 0);
            for (size_t k = 0; k < n; ++k) put(b, k * fm.size, t.raw[k], fm.size, f.le);
            o.put(b);
        } else
            o.skip(n * fm.size);
        l.num.push_back(n);
        f.traces.push_back(t);
    }
    for (auto& s : f.stanzas) o.put(s);
    g.tag(cat(o.pos >> 32 ? "beyond 4 GiB" : o.pos >> 31 ? "beyond 2 GiB" : "smaller",
              variable ? ", variable" : ", fixed"));
    g.describe(cat("file of ", o.pos, " bytes, ", ntr, " traces, format ", fm.code,
                   variable ? " variable" : cat(" of ", fix, " samples"),
                   " gap ", gap, ", ", add, " additional headers, stanzas ", nst, "(", h.num_of_trailer_stanza, ")"));
    if (o.pos >> 31) g.nontrivial();
    return l;
}

PROPERTY("C08", "large_file", 700, 17500,
         "sparse file with traces or a first-trace offset beyond 2 and 4 GiB, "
         "headers and small traces read; oracle: the generated traces; "
         "non-trivial = file larger than 2 GiB")
{
    std::string p = g.path("a.sgy");
    Large l = gen_large(g, p);
    File& f = l.f;
    ISEGY s(p, lib(f.maps));
    check_texts(s.trailer_stanzas(), f.stanzas, "stanzas");
    for (size_t i = 0; i < f.traces.size(); ++i) {
        auto& t = f.traces[i];
        CHECK(s.has_trace(), "trace ", i, " of ", f.traces.size(), " not found");
        if (t.raw.size() == l.num[i] && g.choice(1)) {
            Trace x = s.read_trace();
            check_trace(x, f.header(t), f.samples(t), cat("read_trace ", i));
        } else
            check_header(s.read_header(), f.header(t), cat("read_header ", i));
    }
    CHECK(!s.has_trace(), "more than ", f.traces.size(), " traces");
}

PROPERTY("C06", "large_file", 400, 8000,
         "sparse file with stanzas behind traces, additional headers or a "
         "first-trace offset beyond 2 and 4 GiB; oracle: the generated blocks and "
         "the last trace before them; non-trivial = file larger than 2 GiB")
{
    std::string p = g.path("a.sgy");
    Large l = gen_large(g, p);
    File& f = l.f;
    ISEGY s(p, lib(f.maps));
    check_texts(s.text_headers(), f.texts, "text headers");
    check_texts(s.trailer_stanzas(), f.stanzas, "stanzas");
    for (auto& t : f.traces) {
        CHECK(s.has_trace(), "trace not found");
        check_header(s.read_header(), f.header(t), "read_header");
    }
    CHECK(!s.has_trace(), "stanza taken for a trace");
}

PROPERTY("C12", "large_file", 500, 12500,
         "sparse file with traces beyond 2 and 4 GiB, every key queried; "
         "oracle: grouping of the generated traces; non-trivial = file larger "
         "than 2 GiB")
{
    std::string p = g.path("a.sgy");
    Large l = gen_large(g, p);
    File& f = l.f;
    std::string key = g.choice(1) ? "K_B" : "K_A";
    ISEGYSorted1D s(p, key, lib(f.maps));
    std::map<int64_t, std::vector<size_t>> groups;
    for (size_t i = 0; i < f.traces.size(); ++i)
        groups[std::get<int64_t>(f.header(f.traces[i])[key])].push_back(i);
    CHECK(s.get_keys().size() == groups.size(), s.get_keys().size(),
          " keys, expected ", groups.size());
    for (auto& x : groups) {
        auto r = s.get_headers(x.first);
        CHECK(r.size() == x.second.size(), "get_headers returned ", r.size(),
              " expected ", x.second.size());
        bool small = true;
        for (size_t i = 0; i < r.size(); ++i) {
            auto& t = f.traces[x.second[i]];
            check_header(r[i], f.header(t), cat("get_headers item ", i));
            small &= t.raw.size() == l.num[x.second[i]];
        }
        if (!small) continue;
        auto q = s.get_traces(x.first);
        CHECK(q.size() == x.second.size(), "get_traces returned ", q.size(),
              " expected ", x.second.size());
        for (size_t i = 0; i < q.size(); ++i) {
            auto& t = f.traces[x.second[i]];
            check_trace(q[i], f.header(t), f.samples(t), cat("get_traces item ", i));
        }
    }
    for (auto& x : groups)
        for (auto i : x.second) {
            CHECK(s.has_trace(), "trace ", i, " not found");
            check_header(s.read_header(), f.header(f.traces[i]), cat("sorted ", i));
        }
    CHECK(!s.has_trace(), "traces left");
}

// ------------------------------------------------------- many pieces
PROPERTY("C06", "many", 300, 7500,
         "file with 126 to 33000 extended text headers or stanzas, counted or "
         "terminated (-1); oracle: the generated blocks; non-trivial = always")
{
    bool texts = g.choice(1), stanzas = !texts || g.chance(30);
    size_t n = texts ? many_texts(g, false) : 0;
    if (n > 30000) stanzas = false;
    File f = gen_many(g, 1 + n, stanzas ? many_texts(g, true) : 0, g.choice(4), true);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(f.maps));
    check_reader(s, f, f.maps, "reader");
    g.nontrivial();
}

PROPERTY("C06", "many_headers", 1500, 30000,
         "file with 8 to 700 additional headers per trace and counted or "
         "terminated (-1) stanzas; oracle: the generated blocks; non-trivial = "
         "stanzas present")
{
    File f = gen_many_headers(g, true);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(f.maps));
    check_reader(s, f, f.maps, "reader");
    if (!f.stanzas.empty()) g.nontrivial();
}

PROPERTY("C06", "long_traces", 250, 6000,
         "variable length file with traces of up to 65535 samples counted in an "
         "unsigned field and counted or terminated (-1) stanzas; oracle: the "
         "generated blocks; non-trivial = more than 32767 samples and stanzas")
{
    File f = gen_long_counts(g);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(f.maps));
    check_reader(s, f, f.maps, "reader");
    for (auto& t : f.traces)
        if (t.raw.size() > 32767 && !f.stanzas.empty()) return g.nontrivial();
}

PROPERTY("C04", "many_headers", 1500, 30000,
         "file with 8 to 700 additional headers per trace read with as many "
         "maps or fewer; oracle: reference decoder; non-trivial = always")
{
    File f = gen_many_headers(g, true);
    HMaps use = f.maps;
    if (g.choice(1)) use.resize(2 + g.choice(use.size() - 2));
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(use));
    for (size_t i = 0; i < f.traces.size(); ++i) {
        auto const& t = f.traces[i];
        CHECK(s.has_trace(), "trace ", i, " of ", f.traces.size(), " not found");
        if (g.choice(1))
            check_header(s.read_header(), f.header(t, use), cat("read_header ", i));
        else {
            Trace x = s.read_trace();
            check_trace(x, f.header(t, use), f.samples(t), cat("read_trace ", i));
        }
    }
    CHECK(!s.has_trace(), "traces left");
    g.describe(cat("read with ", use.size(), " maps"));
    g.nontrivial();
}

PROPERTY("C08", "many_traces", 120, 3000,
         "file of 254 to 70000 small traces, random mix of the reading calls; "
         "oracle: the generated traces; non-trivial = always")
{
    File f = gen_many(g, 1, g.chance(30) ? 2 : 0, many_traces(g), true);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    ISEGY s(p, lib(f.maps));
    int share = (int)g.choice(4);
    Rng r = g.sub();
    for (size_t i = 0; i < f.traces.size(); ++i) {
        auto const& t = f.traces[i];
        CHECK(s.has_trace(), "trace ", i, " of ", f.traces.size(), " not found");
        if ((int)r.below(4) < share) {
            Trace::Header h = s.read_header();
            check_header(h, f.header(t), cat("read_header ", i));
        } else {
            Trace x = s.read_trace();
            check_trace(x, f.header(t), f.samples(t), cat("read_trace ", i));
        }
    }
    CHECK(!s.has_trace(), "more than ", f.traces.size(), " traces");
    g.nontrivial();
}

PROPERTY("C12", "many_traces", 80, 3000,
         "file of 254 to 70000 small traces with up to as many different keys; "
         "oracle: grouping of the generated traces; non-trivial = always")
{
    File f = gen_many(g, 1, g.chance(30) ? 2 : 0, many_traces(g), true);
    std::string p = g.path("a.sgy");
    write_file(p, f.encode());
    static char const* const names[] = { "K_A", "K_B", "K_C" };
    std::string key = names[g.choice(2)];
    std::map<Value, std::vector<size_t>> groups;
    for (size_t i = 0; i < f.traces.size(); ++i)
        groups[f.header(f.traces[i])[key]].push_back(i);
    ISEGYSorted1D s(p, key, lib(f.maps));
    auto ks = s.get_keys();
    CHECK(ks.size() == groups.size(), ks.size(), " keys, expected ", groups.size());
    std::sort(ks.begin(), ks.end());
    auto it = groups.begin();
    for (auto& k : ks) {
        CHECK(same(k, it->first), "key ", show(k), " expected ", show(it->first));
        ++it;
    }
    g.tag(cat(groups.size() > 65535 ? "more than 65535" : groups.size() > 255 ?
              "more than 255" : "few", " keys"));
    std::vector<Value> all;
    for (auto& x : groups) all.push_back(x.first);
    for (int q = 0; q < 6; ++q) {
        Value v = q == 0 ? all.back() : q == 1 ? all.front() : all[g.choice(all.size() - 1)];
        auto& want = groups[v];
        bool limit = g.chance(30);
        size_t n = want.size();
        if (limit) n = std::min(n, (size_t)g.edgy(0, (int64_t)n + 2));
        if (g.choice(1)) {
            auto r = limit ? s.get_headers(v, n) : s.get_headers(v);
            CHECK(r.size() == n, "get_headers(", show(v), ") gave ", r.size(), " expected ", n);
            for (size_t i = 0; i < n; ++i)
                check_header(r[i], f.header(f.traces[want[i]]), cat("get_headers item ", i));
        } else {
            auto r = limit ? s.get_traces(v, n) : s.get_traces(v);
            CHECK(r.size() == n, "get_traces(", show(v), ") gave ", r.size(), " expected ", n);
            for (size_t i = 0; i < n; ++i) {
                auto& t = f.traces[want[i]];
                check_trace(r[i], f.header(t), f.samples(t), cat("get_traces item ", i));
            }
        }
    }
    size_t left = f.traces.size();
    while (s.has_trace()) {
        CHECK(left, "more traces than ", f.traces.size());
        s.read_header();
        --left;
    }
    CHECK(!left, left, " traces not delivered");
    g.nontrivial();
}
