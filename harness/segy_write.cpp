// Properties of the SEG-Y writers.
#include "segy_ref.hpp"
using namespace ref;

static bool has_samples(File const& f)
{
    for (auto& t : f.traces)
        if (!t.raw.empty()) return true;
    return false;
}

// ---------------------------------------------------------------------- C02
PROPERTY("C02", "encode", 18000, 450000,
         "generated traces of exactly representable samples written by the "
         "writers of all revisions (13 formats x 2 byte orders, fixed and "
         "variable, traces shorter than the trace length); oracle: sample bytes "
         "of the reference encoder; non-trivial = at least one sample")
{
    File f = gen_writer_file(g);
    std::string p = g.path("a.sgy");
    File want = f;
    {
        Writer w(p, f);
        for (size_t i = 0; i < f.traces.size(); ++i) {
            // seldom give fewer samples than the file stores
            Tr part = f.traces[i];
            if (!part.raw.empty() && g.chance(25)) {
                part.raw.resize(g.choice(part.raw.size()));
                for (size_t k = part.raw.size(); k < want.traces[i].raw.size(); ++k)
                    want.traces[i].raw[k] = 0;
                g.tag("short trace");
            }
            Trace t = to_trace(f, part);
            w.write(t);
        }
    }
    Bytes got = read_file(p);
    size_t pos = 3600 + 3200 * (f.texts.size() - 1);
    int size = format(f.bh.format_code).size;
    for (size_t i = 0; i < want.traces.size(); ++i) {
        Bytes w = want.trace_bytes(want.traces[i]);
        size_t skip = 240 * f.hdrs();
        CHECK(got.size() >= pos + w.size(), "file ends inside trace ", i);
        check_bytes(got.substr(pos + skip, w.size() - skip), w.substr(skip),
                    cat("samples of trace ", i, " (", size, " bytes each)"));
        pos += w.size();
    }
    CHECK(got.size() == pos + 3200 * f.stanzas.size(), "file size ", got.size(),
          " expected ", pos + 3200 * f.stanzas.size());
    if (has_samples(f)) g.nontrivial();
}

static double gen_ibm_double(Gen& g)
{
    // any double in the range of normalised IBM floats, edges included
    int e = (int)g.edgy(-64, 62);
    double m;
    switch (g.choice(4)) {
    case 0: m = 1; break;
    case 1: m = 1 + std::ldexp((double)g.choice(3), -(int)g.range(18, 52)); break;
    case 2: m = 16 - std::ldexp(1 + (double)g.choice(3), -(int)g.range(10, 49)); break;
    default:
        m = 1 + 15 * std::ldexp((double)g.choice((1ull << 52) - 1), -52);
    }
    double v = std::ldexp(m, 4 * e);
    if (g.choice(1)) v = -v;
    return v;
}

PROPERTY("C02", "ibm", 7900, 197500,
         "arbitrary doubles in the IBM range (powers of 16 and their "
         "neighbours, extreme exponents) written in format 1: stored "
         "normalised, right sign, within one unit of the last fraction bit; "
         "non-trivial = always")
{
    Opts o;
    o.fmt = 1;
    o.big = false;
    o.max_traces = 4;
    o.variable = 0;
    File f = gen_writer_file(g, o);
    size_t n = 1 + g.choice(12);
    f.bh.ext_samp_per_tr = 0;
    f.bh.samp_per_tr = (int16_t)n;
    f.stanzas.clear();
    f.bh.num_of_trailer_stanza = 0;
    std::vector<double> v(n);
    for (auto& x : v) x = g.chance(10) ? 0 : gen_ibm_double(g);
    std::string p = g.path("a.sgy");
    {
        Writer w(p, f);
        Trace t({}, v);
        w.write(t);
    }
    Bytes got = read_file(p);
    size_t off = 3600 + 3200 * (f.texts.size() - 1) + 240 * f.hdrs();
    CHECK(got.size() == off + 4 * n, "file size ", got.size(), " expected ", off + 4 * n);
    for (size_t i = 0; i < n; ++i) {
        uint32_t r = (uint32_t)get(got, off + 4 * i, 4, f.le);
        double d = ibm_value(r);
        if (v[i] == 0) {
            CHECK((r & 0xffffff) == 0, "zero stored as ", r);
            continue;
        }
        CHECK((r & 0xf00000) != 0, "value ", v[i], " stored unnormalised: ", r);
        CHECK((r >> 31) == (v[i] < 0 ? 1u : 0u), "sign of ", v[i], " lost");
        double ulp = std::ldexp(1, 4 * ((int)(r >> 24 & 0x7f) - 64) - 24);
        CHECK(std::fabs(d - v[i]) <= ulp, "value ", v[i], " stored as ", d);
    }
    g.describe(cat("first value ", v[0]));
    g.nontrivial();
}

// ---------------------------------------------------------------------- C03
PROPERTY("C03", "write", 18000, 450000,
         "explicit binary header with boundary-heavy values in every field "
         "given to the writers: bytes 3200-3600 of the file equal the reference "
         "encoding; non-trivial = some descriptive field is non-zero")
{
    Opts o;
    o.big = false;
    o.max_traces = 3;
    File f = gen_writer_file(g, o);
    for (auto& b : bin_fields()) {
        static std::vector<std::string> const fixed { "samp_per_tr",
            "format_code", "ext_samp_per_tr", "SEGY_rev_major_ver",
            "fixed_tr_length", "ext_text_headers_num", "max_num_add_tr_headers",
            "num_of_tr_in_file", "byte_off_of_first_tr", "num_of_trailer_stanza" };
        if (std::find(fixed.begin(), fixed.end(), b.name) != fixed.end()) continue;
        if (b.tail && f.bh.SEGY_rev_major_ver < 2) continue;
        uint64_t v = g.pattern(b.size * 8);
        if (b.size == 8 && b.off < 96) v = canonical_float(F64, v);
        b.set(f.bh, v);
    }
    BH z {};
    z.format_code = f.bh.format_code;
    if (f.bh == z) f.bh.job_id = 1;
    std::string p = g.path("a.sgy");
    write_lib(p, f);
    Bytes got = read_file(p);
    CHECK(got.size() >= 3600, "file too short");
    check_bytes(got.substr(3200, 400), encode_bin(f.bh, f.le), "binary header");
    BH st = ISEGY::read_binary_header(p);
    check_bin(st, f.bh, "read back");
    if (f.bh.job_id || f.bh.line_num || f.bh.ens_fold) g.nontrivial();
}

// ---------------------------------------------------------------------- C05
PROPERTY("C05", "headers", 38000, 950000,
         "traces with random header values (keys missing, surplus keys, "
         "integers held as doubles and doubles as integers) written with random "
         "valid maps and 0-7 additional headers; oracle: header bytes of the "
         "reference encoder; non-trivial = a trace and at least two fields")
{
    Opts o;
    o.big = false;
    o.max_traces = 40;
    File f = gen_writer_file(g, o);
    std::string p = g.path("a.sgy");
    size_t fields = 0;
    for (auto& m : f.maps) fields += m.fields.size();
    File want = f;
    {
        Writer w(p, f);
        for (size_t i = 0; i < f.traces.size(); ++i) {
            HdrVals h = f.header(f.traces[i]);
            std::unordered_map<std::string, Value> given;
            Rng r = g.sub();
            bool drop = g.chance(40), conv = g.chance(50);
            for (auto& kv : h) {
                Value v = kv.second;
                if (drop && r.below(4) == 0 &&
                    (kv.first != "SAMP_NUM" || f.fixed)) {
                    set_field(want, want.traces[i], kv.first, 0);
                    continue;
                }
                if (conv && r.below(2)) {
                    if (v.index() == 0 && std::llabs(std::get<0>(v)) < (1ll << 53)) {
                        v = (double)std::get<0>(v);
                    } else if (v.index() == 1) {
                        double d = std::get<1>(v);
                        if (d == std::floor(d) && std::fabs(d) < 9e15 &&
                            !(d == 0 && std::signbit(d)))
                            v = (int64_t)d;
                    }
                }
                given[kv.first] = v;
            }
            if (g.chance(20)) given["SURPLUS_KEY"] = (int64_t)77;
            Trace t(given, f.samples(f.traces[i]));
            w.write(t);
        }
    }
    Bytes got = read_file(p);
    check_bytes(got, want.encode(), "file");
    g.tag(cat("headers per trace ", f.hdrs()));
    if (!f.traces.empty() && fields > 1) g.nontrivial();
}

// ---------------------------------------------------------------------- C07
PROPERTY("C07", "layout", 14000, 350000,
         "0-40 extended text headers, 0-3 stanzas and 0-n traces written; whole "
         "file equals the reference encoding including the counts; non-trivial "
         "= an extended header or a stanza")
{
    Opts o;
    o.big = false;
    if (g.chance(70)) o.rev = 1 + (int)g.choice(1);
    File f = gen_writer_file(g, o);
    // counts given in the header need not be right, texts decide
    File given = f;
    if (f.bh.SEGY_rev_major_ver > 0 && g.chance(30))
        given.bh.ext_text_headers_num = (int16_t)g.range(-1, 4);
    if (f.bh.SEGY_rev_major_ver > 1 && g.chance(30))
        given.bh.num_of_trailer_stanza = (int32_t)g.range(-1, 4);
    if (f.bh.byte_off_of_first_tr && g.chance(50)) {
        // first traces follow the texts whatever offset is given
        given.bh.byte_off_of_first_tr = g.chance(50) ? 3600 + g.choice(20000) : g.pattern(63);
        if (!given.bh.byte_off_of_first_tr) given.bh.byte_off_of_first_tr = 1;
    }
    std::string p = g.path("a.sgy");
    write_lib(p, given);
    check_bytes(read_file(p), f.encode(), "file");
    ISEGY s(p, lib(f.maps));
    check_texts(s.text_headers(), f.texts, "texts read back");
    check_texts(s.trailer_stanzas(), f.stanzas, "stanzas read back");
    if (f.texts.size() > 1 || !f.stanzas.empty()) g.nontrivial();
}

PROPERTY("C07", "default_text", 3500, 87500,
         "writer given no text header: a 3200-byte header of 40 card images "
         "identifying its revision is stored (EBCDIC for revision 0); "
         "non-trivial = always")
{
    Opts o;
    o.big = false;
    o.ext_texts = false;
    File f = gen_writer_file(g, o);
    int rev = f.bh.SEGY_rev_major_ver;
    std::string p = g.path("a.sgy");
    {
        Writer w(rev, p, {}, f.bh, f.stanzas, lib(f.maps));
        for (auto& t : f.traces) {
            Trace tr = to_trace(f, t);
            w.write(tr);
        }
    }
    Bytes got = read_file(p);
    CHECK(got.size() >= 3600, "file too short");
    std::string text = got.substr(0, 3200);
    if (rev == 0) CommonSEGY::ebcdic_to_ascii(text);
    for (int i = 0; i < 40; ++i) {
        CHECK(text[80 * i] == 'C', "card ", i + 1, " does not start with C: ",
              hex(text.substr(80 * i, 8)));
        std::string no = text.substr(80 * i + 1, 2);
        int n = (no[0] == ' ' ? 0 : no[0] - '0') * 10 + no[1] - '0';
        CHECK(n == i + 1, "card ", i + 1, " is numbered ", no);
    }
    for (char c : text) CHECK(c >= 32 && c < 127, "character ", (int)c);
    bool r1 = text.find("SEG Y REV1") != std::string::npos ||
        text.find("SEG-Y REV1") != std::string::npos;
    bool r2 = text.find("SEG-Y_REV2") != std::string::npos;
    CHECK(rev == 0 ? !r1 && !r2 : rev == 1 ? r1 && !r2 : r2 && !r1,
          "revision not identified in text header of revision ", rev);
    f.texts[0] = got.substr(0, 3200);
    check_bytes(got, f.encode(), "rest of file");
    g.nontrivial();
}

PROPERTY("C07", "wrong_size", 5800, 145000,
         "one text header or stanza of a length other than 3200: construction "
         "must throw; non-trivial = always")
{
    Opts o;
    o.big = false;
    o.max_traces = 0;
    File f = gen_writer_file(g, o);
    int rev = f.bh.SEGY_rev_major_ver;
    if (rev > 1 && f.stanzas.empty() && g.chance(50))
        f.stanzas.push_back(gen_text(g));
    size_t len = g.chance(50) ? (size_t)g.range(1, 3199) : (size_t)g.range(3201, 9000);
    switch (g.choice(3)) {
    case 0: len = 3199; break;
    case 1: len = 3201; break;
    case 2: len = 6400; break;
    }
    bool stanza = rev > 1 && !f.stanzas.empty() && g.chance(50);
    size_t which;
    if (stanza) {
        if (g.chance(20)) len = 0;
        which = g.choice(f.stanzas.size() - 1);
        f.stanzas[which] = gen_block(g, len);
    } else {
        which = rev == 0 ? 0 : g.choice(f.texts.size() - 1);
        if (rev > 0 && g.chance(20)) len = 0;
        f.texts[which] = gen_block(g, len);
    }
    std::string p = g.path("a.sgy");
    CHECK(throws_std([&] { Writer w(p, f); }), stanza ? "stanza " : "text header ",
          which, " of ", len, " bytes accepted");
    g.describe(cat(stanza ? "stanza " : "text ", which, " length ", len));
    g.nontrivial();
}

// ---------------------------------------------------------------------- C09
PROPERTY("C09", "copy", 18000, 450000,
         "reference-encoded file with maps covering all header bytes, read and "
         "written back with the writer of its revision: byte-identical; "
         "non-trivial = at least one trace")
{
    Opts o;
    o.canonical = true;
    o.map = Opts::FULL;
    o.neg_counts = false;
    o.u64_big = true;
    o.bin_fill = false;
    o.big = true;
    File f = gen_file(g, o);
    // the writer puts the first trace right after the headers
    f.gap.clear();
    if (f.bh.byte_off_of_first_tr)
        f.bh.byte_off_of_first_tr = 3600 + 3200 * (f.texts.size() - 1);
    if (f.bh.SEGY_rev_major_ver == 0) {
        BH z {};
        z.format_code = f.bh.format_code;
        if (f.bh == z) f.bh.job_id = 1;
    }
    std::string p = g.path("a.sgy"), q = g.path("b.sgy");
    Bytes orig = f.encode();
    write_file(p, orig);
    {
        ISEGY in(p, lib(f.maps));
        Writer w(f.bh.SEGY_rev_major_ver, q, in.text_headers(),
                 in.binary_header(), in.trailer_stanzas(), lib(f.maps));
        while (in.has_trace()) {
            Trace t = in.read_trace();
            w.write(t);
        }
    }
    check_bytes(read_file(q), orig, "copy");
    check_bytes(read_file(p), orig, "original after copying");
    if (!f.traces.empty()) g.nontrivial();
}

PROPERTY("C09", "copy_gap", 4500, 112500,
         "reference-encoded file, most with a gap before the first trace and with "
         "unassigned bytes of the binary header set, copied with the writer of "
         "its revision: the copy is the file without the gap; non-trivial = gap "
         "and at least one trace")
{
    Opts o;
    o.canonical = true;
    o.map = Opts::FULL;
    o.neg_counts = false;
    o.u64_big = true;
    if (g.chance(85)) o.rev = 2;
    File f = gen_file(g, o);
    if (f.bh.SEGY_rev_major_ver > 1 && g.chance(70)) {
        f.gap = gen_block(g, g.choice(4000));
        f.bh.byte_off_of_first_tr = 3600 + 3200 * (f.texts.size() - 1) + f.gap.size();
    }
    if (f.bh.SEGY_rev_major_ver == 0) {
        BH z {};
        z.format_code = f.bh.format_code;
        if (f.bh == z) f.bh.job_id = 1;
    }
    std::string p = g.path("a.sgy"), q = g.path("b.sgy");
    write_file(p, f.encode());
    {
        ISEGY in(p, lib(f.maps));
        Writer w(f.bh.SEGY_rev_major_ver, q, in.text_headers(),
                 in.binary_header(), in.trailer_stanzas(), lib(f.maps));
        while (in.has_trace()) {
            Trace t = in.read_trace();
            w.write(t);
        }
    }
    bool gap = !f.gap.empty();
    f.gap.clear();
    f.bin_fill.clear();
    if (f.bh.byte_off_of_first_tr)
        f.bh.byte_off_of_first_tr = 3600 + 3200 * (f.texts.size() - 1);
    check_bytes(read_file(q), f.encode(), "copy");
    ISEGY s(q, lib(f.maps));
    check_bin(s.binary_header(), reported(f), "binary header of copy");
    check_reader(s, f, f.maps, "copy");
    if (gap && !f.traces.empty()) g.nontrivial();
}

// ---------------------------------------------------------------------- C10
static double precision_value(Gen& g, Rng& r, Format const& f)
{
    (void)g;
    double m = 1 + std::ldexp((double)(r.next() >> 12), -52);
    double s = r.below(2) ? -1 : 1;
    switch (f.kind) {
    case IBM: return s * std::ldexp(m, (int)r.below(480) - 240);
    case F32: return s * std::ldexp(m, (int)r.below(250) - 125);
    case F64: return s * std::ldexp(m, (int)r.below(2000) - 1000);
    case SIGNED: {
        double lim = std::ldexp(1, f.size * 8 - 1) - 1024 * (f.size == 8) - 1;
        return s * std::ldexp((double)(r.next() >> 12), -52) * lim;
    }
    default: {
        double lim = std::ldexp(1, f.size * 8) - 2048.0 * (f.size == 8) - 1;
        return std::ldexp((double)(r.next() >> 12), -52) * lim;
    }
    }
}

PROPERTY("C10", "round_trip", 14000, 350000,
         "traces written with an explicit binary header by all writers and "
         "read back: header, texts, stanzas, trace count, header values and "
         "samples (equal, or within the format's precision for arbitrary "
         "doubles); non-trivial = at least one trace with a sample")
{
    Opts o;
    o.u64_big = true;
    File f = gen_writer_file(g, o);
    Format const& fm = format(f.bh.format_code);
    bool approx = g.chance(40);
    std::vector<std::vector<double>> given;
    std::string p = g.path("a.sgy");
    {
        Writer w(p, f);
        for (auto& t : f.traces) {
            std::vector<double> v = f.samples(t);
            if (approx) {
                Rng r = g.sub();
                for (auto& x : v) x = precision_value(g, r, fm);
            }
            given.push_back(v);
            std::unordered_map<std::string, Value> h;
            for (auto& kv : f.header(t)) h[kv.first] = kv.second;
            Trace tr(h, v);
            w.write(tr);
            // the writer must not change what it is given
            check_samples(tr.samples(), v, "trace after writing");
        }
    }
    ISEGY s(p, lib(f.maps));
    check_bin(s.binary_header(), f.bh, "binary header read back");
    check_texts(s.text_headers(), f.texts, "texts");
    check_texts(s.trailer_stanzas(), f.stanzas, "stanzas");
    for (size_t i = 0; i < f.traces.size(); ++i) {
        CHECK(s.has_trace(), "trace ", i, " of ", f.traces.size(), " missing");
        Trace t = s.read_trace();
        check_header(t.header(), f.header(f.traces[i]), cat("trace ", i));
        if (!approx) {
            check_samples(t.samples(), given[i], cat("trace ", i));
            continue;
        }
        CHECK(t.samples().size() == given[i].size(), "trace ", i, " has ",
              t.samples().size(), " samples, expected ", given[i].size());
        for (size_t k = 0; k < given[i].size(); ++k) {
            double a = given[i][k], b = t.samples()[k], tol = 0;
            if (fm.kind == IBM) tol = std::fabs(a) * std::ldexp(1, -20);
            else if (fm.kind == F32) tol = std::fabs(a) * std::ldexp(1, -23);
            else if (fm.kind != F64) tol = std::max(1.0, std::fabs(a) * std::ldexp(1, -52));
            CHECK(std::fabs(a - b) <= tol, "trace ", i, " sample ", k, " is ", b,
                  " expected ", a);
        }
    }
    CHECK(!s.has_trace(), "more traces than written");
    g.tag(approx ? "arbitrary doubles" : "representable samples");
    if (has_samples(f)) g.nontrivial();
}

PROPERTY("C10", "largest_counts", 400, 10000,
         "variable length traces as long as the type of the header field for "
         "their number of samples allows (127 to 16777215 samples); read back; "
         "non-trivial = always")
{
    static std::vector<VT> const types { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t };
    VT t = g.chance(6) ? VT::int24_t : g.chance(5) ? VT::uint24_t : g.pick(types);
    int rev = 1 + (int)g.choice(1);
    int code = vt_size(t) == 3 ? (g.choice(1) ? 8 : 16) : g.choice(1) ? 8 : 11;
    BH bh {};
    bh.format_code = (int16_t)code;
    bh.samp_int = 1000;
    bh.samp_per_tr = 1;
    bh.SEGY_rev_major_ver = (uint8_t)rev;
    if (g.choice(1)) bh.endianness = (int32_t)MARK_LE;
    HMaps maps { { "SEG00000", { { 100, "SAMP_NUM", t }, { 8, "FFID", VT::int32_t } } } };
    std::string p = g.path("a.sgy");
    std::vector<std::vector<double>> smp;
    std::string ops;
    {
        Writer w(rev, p, {}, bh, {}, lib(maps));
        size_t k = vt_size(t) == 3 ? 1 : 1 + g.choice(3);
        for (size_t i = 0; i < k; ++i) {
            size_t n = g.chance(70) ? (size_t)vt_max(t) - g.choice(2) : (size_t)g.edgy(0, vt_max(t));
            if (vt_size(t) == 3) n = (size_t)vt_max(t) - g.choice(2);
            // the rest of the trace is left zero
            size_t given = g.chance(50) ? n : (size_t)g.edgy(0, (int64_t)n);
            std::vector<double> v(given);
            Rng r = g.sub();
            for (auto& x : v) x = (double)r.below(100);
            Trace tr({ { "SAMP_NUM", (int64_t)n }, { "FFID", (int64_t)i } }, v);
            w.write(tr);
            v.resize(n);
            smp.push_back(v);
            ops += cat(n, " ");
        }
    }
    g.describe(cat(vt_name(t), " format ", code, " samples ", ops));
    g.tag(vt_name(t));
    ISEGY s(p, lib(maps));
    for (size_t i = 0; i < smp.size(); ++i) {
        CHECK(s.has_trace(), "trace ", i, " missing");
        Trace tr = s.read_trace();
        CHECK(tr.header().get("FFID") == std::optional<Value>(Value((int64_t)i)), "trace ", i,
              " is another one");
        CHECK(tr.header().get("SAMP_NUM") == std::optional<Value>(Value((int64_t)smp[i].size())),
              "number of samples of trace ", i);
        check_samples(tr.samples(), smp[i], cat("trace ", i));
    }
    CHECK(!s.has_trace(), "more traces than written");
    g.nontrivial();
}

// ---------------------------------------------------------------------- C11
PROPERTY("C11", "default_header", 12000, 300000,
         "traces written without a binary header, read back with a default "
         "reader: same samples and header values, interval and count stored, "
         "default format; non-trivial = at least two traces with samples")
{
    int rev = (int)g.choice(2);
    HMaps maps = from_lib(CommonSEGY::default_trace_header);
    std::vector<std::string> texts, stanzas;
    if (g.chance(40)) {
        size_t n = rev == 0 ? 1 : 1 + g.choice(3);
        for (size_t i = 0; i < n; ++i) texts.push_back(gen_text(g));
    }
    if (rev == 2 && g.chance(30)) {
        size_t n = g.choice(3);
        for (size_t i = 0; i < n; ++i) stanzas.push_back(gen_text(g));
    }
    size_t ntr = g.chance(5) ? g.choice(200) : g.choice(6);
    int64_t interval = g.edgy(1, 32767);
    if (g.chance(10)) interval = g.edgy(-32768, -1);
    size_t n0 = g.chance(3) ? (size_t)g.edgy(0, 32767) : g.size(300);
    if (g.chance(2)) n0 = 32767 - g.choice(2);
    bool gave_format = g.chance(30);
    BH bh {};
    if (gave_format) bh.format_code = rev == 0 ? 1 : 5;
    std::string p = g.path("a.sgy");
    std::vector<HdrVals> hdrs;
    std::vector<std::vector<double>> smp;
    {
        Writer w(rev, p, texts, bh, stanzas, CommonSEGY::default_trace_header);
        for (size_t i = 0; i < ntr; ++i) {
            size_t n = rev == 0 || i == 0 ? n0 : g.size(300);
            HdrVals h;
            Rng r = g.sub();
            std::unordered_map<std::string, Value> given;
            for (auto& f : maps[0].fields) {
                uint64_t raw = r.pattern(vt_size(f.type) * 8);
                h[f.key] = vt_value(f.type, raw);
            }
            h["SAMP_NUM"] = (int64_t)n;
            h["SAMP_INT"] = (int64_t)interval;
            for (auto& kv : h) given[kv.first] = kv.second;
            if (i == 0 && g.chance(20)) given["SAMP_INT"] = (double)interval;
            std::vector<double> v(n);
            for (auto& x : v) {
                uint64_t raw = r.pattern(32);
                x = rev == 0 ? ibm_value((uint32_t)canonical_float(IBM, raw))
                             : f32_value((uint32_t)canonical_float(F32, raw));
            }
            Trace t(given, v);
            w.write(t);
            hdrs.push_back(h);
            smp.push_back(v);
        }
    }
    ISEGY s(p);
    auto& b = s.binary_header();
    CHECK(b.format_code == (rev == 0 ? 1 : 5), "format ", b.format_code);
    CHECK(b.SEGY_rev_major_ver == rev, "revision ", (int)b.SEGY_rev_major_ver,
          " stored by the writer of revision ", rev);
    if (ntr) {
        CHECK((uint16_t)b.samp_per_tr == n0, "samp_per_tr ", b.samp_per_tr,
              " expected ", n0);
        CHECK(b.samp_int == interval, "samp_int ", b.samp_int, " expected ", interval);
    }
    if (!texts.empty()) check_texts(s.text_headers(), texts, "texts");
    check_texts(s.trailer_stanzas(), stanzas, "stanzas");
    size_t with = 0;
    for (size_t i = 0; i < ntr; ++i) {
        CHECK(s.has_trace(), "rev ", rev, ": trace ", i, " of ", ntr, " not found");
        Trace t = s.read_trace();
        check_trace(t, hdrs[i], smp[i], cat("rev ", rev, " trace ", i));
        with += !smp[i].empty();
    }
    CHECK(!s.has_trace(), "rev ", rev, ": more traces than written");
    g.describe(cat("rev", rev, " traces ", ntr, " samples ", n0, " interval ",
                   interval, " texts ", texts.size(), " stanzas ", stanzas.size()));
    g.tag(cat("rev", rev));
    if (with > 1) g.nontrivial();
}

PROPERTY("C11", "refusal", 8000, 200000,
         "first trace lacking SAMP_NUM or SAMP_INT or with values that do not "
         "fit the binary header must be refused, and the writer usable "
         "afterwards; non-trivial = always")
{
    int rev = (int)g.choice(2);
    std::string p = g.path("a.sgy");
    std::vector<double> v { 1, 2, 3 };
    {
        Writer w(rev, p, {}, BH {}, {}, CommonSEGY::default_trace_header);
        std::unordered_map<std::string, Value> h {
            { "SAMP_NUM", (int64_t)3 }, { "SAMP_INT", (int64_t)2000 } };
        std::string kind;
        switch (g.choice(8)) {
        case 0: h.erase("SAMP_NUM"); kind = "no SAMP_NUM"; break;
        case 1: h.erase("SAMP_INT"); kind = "no SAMP_INT"; break;
        case 2:
            h["SAMP_NUM"] = g.chance(50)
                ? g.edgy(65536, INT64_MAX)
                // low bits are the number of samples
                : (int64_t)(1 + g.choice(100)) << (g.chance(50) ? 16 : 32) | 3;
            kind = "huge SAMP_NUM";
            break;
        case 3: h["SAMP_NUM"] = g.edgy(INT64_MIN, -1); kind = "negative SAMP_NUM"; break;
        case 4:
            h["SAMP_INT"] = (int64_t)(g.chance(50) ? 65536 + g.choice(3)
                                                   : g.edgy(65536, 1ll << 52));
            kind = "huge SAMP_INT";
            break;
        case 5: {
            // the interval would be stored as zero
            double d = (double)g.edgy(-1023, 1023) / 1024;
            if (g.chance(30)) h["SAMP_INT"] = (int64_t)0;
            else h["SAMP_INT"] = d;
            kind = "SAMP_INT below one";
            break;
        }
        case 6: {
            double d = (double)g.edgy(32768, 1ll << 52);
            if (g.chance(5)) d = HUGE_VAL;
            if (g.chance(50)) d = -1 - d;
            if (g.chance(50)) h["SAMP_INT"] = d;
            else h["SAMP_INT"] = (int64_t)(std::isinf(d) ? 40000 : d);
            kind = "SAMP_INT out of range";
            break;
        }
        case 7:
            h["SAMP_NUM"] = g.edgy(32768, 65535);
            kind = "SAMP_NUM above 32767";
            break;
        default: h.clear(); kind = "empty header";
        }
        Trace t(h, v);
        CHECK(throws_std([&] { w.write(t); }), "rev ", rev, ": first trace with ",
              kind, " accepted");
        g.describe(cat("rev", rev, " ", kind));
        g.tag(kind);
        Trace ok({ { "SAMP_NUM", (int64_t)3 }, { "SAMP_INT", (int64_t)2000 } }, v);
        w.write(ok);
    }
    ISEGY s(p);
    CHECK(s.has_trace(), "trace written after refusal missing");
    Trace t = s.read_trace();
    check_samples(t.samples(), v, "after refusal");
    CHECK(!s.has_trace(), "trace left after refusal");
    g.nontrivial();
}

// ---------------------------------------------------------------------- C15
PROPERTY("C15", "accept_iff_valid", 120000, 3000000,
         "random lists of header maps, valid or with one or several defects "
         "(name length, field beyond byte 240, overlap, wrong number of maps); "
         "construction must succeed exactly for valid lists and then write "
         "inside the header only; non-trivial = at least one field")
{
    int rev = (int)g.choice(2);
    Opts o;
    o.rev = rev;
    o.big = false;
    o.max_traces = 0;
    o.map = Opts::RANDOM;
    o.variable = 0;
    o.stanzas = false;
    File f = gen_writer_file(g, o);
    f.traces.clear();
    f.stanzas.clear();
    f.bh.num_of_trailer_stanza = 0;
    f.bh.ext_samp_per_tr = 0;
    f.bh.samp_per_tr = 2;
    if (rev < 2 && g.chance(30)) f.maps.push_back(gen_map(g, 5));
    std::string why;
    if (g.chance(65)) {
        int defects = g.chance(80) ? 1 : 2;
        for (int d = 0; d < defects; ++d) {
            size_t m = f.maps.empty() ? 0 : g.choice(f.maps.size() - 1);
            switch (g.choice(5)) {
            case 0: // name
                if (!f.maps.empty()) {
                    static std::vector<size_t> const lens { 0, 1, 7, 9, 16, 4, 8 };
                    f.maps[m].name = std::string(g.pick(lens), 'N');
                }
                break;
            case 1: // beyond the end
                if (!f.maps.empty()) {
                    VT t = g.pick(all_types());
                    uint32_t off = (uint32_t)g.range(241 - vt_size(t), 260);
                    if (g.chance(15)) off = (uint32_t)g.edgy(240, UINT32_MAX);
                    if (g.chance(30)) f.maps[m].fields.clear();
                    f.maps[m].fields.push_back({ off, "OUT", t });
                }
                break;
            case 2: // overlap with an existing field
                if (!f.maps.empty() && !f.maps[m].fields.empty()) {
                    auto& v = f.maps[m].fields;
                    auto x = v[g.choice(v.size() - 1)];
                    int64_t off = (int64_t)x.off + g.range(-8, vt_size(x.type));
                    if (off < 0) off = 0;
                    bool taken = false;
                    for (auto& y : v) taken |= y.off == (uint32_t)off;
                    if (!taken)
                        v.push_back({ (uint32_t)off, "OVER", g.pick(all_types()) });
                }
                break;
            case 3: // number of maps
                if (rev == 2) {
                    if (g.chance(50) && !f.maps.empty()) f.maps.pop_back();
                    else f.maps.push_back(gen_map(g, 8));
                }
                break;
            case 4: // a wide field starting near the end
                if (!f.maps.empty()) {
                    f.maps[m].fields.clear();
                    f.maps[m].fields.push_back({ (uint32_t)g.range(232, 239), "END",
                                                 g.pick(all_types()) });
                }
                break;
            default:
                if (!f.maps.empty()) f.maps[m].fields.clear();
            }
        }
    }
    // reference validity
    bool valid = true;
    size_t fields = 0;
    for (auto& m : f.maps) {
        std::sort(m.fields.begin(), m.fields.end(),
                  [](auto& a, auto& b) { return a.off < b.off; });
        if (m.name.size() != 8) { valid = false; why += "name "; }
        uint64_t end = 0;
        for (auto& x : m.fields) {
            ++fields;
            if (x.off < end) { valid = false; why += "overlap "; }
            end = (uint64_t)x.off + vt_size(x.type);
            if (end > 240) { valid = false; why += "range "; }
        }
    }
    if (rev == 2 && f.bh.max_num_add_tr_headers &&
        f.maps.size() != (size_t)f.bh.max_num_add_tr_headers + 1) {
        valid = false;
        why += "count ";
    }
    std::string p = g.path("a.sgy");
    std::unique_ptr<Writer> w;
    std::string msg;
    try {
        w = std::make_unique<Writer>(rev, p, f.texts, f.bh, f.stanzas, lib(f.maps));
    } catch (std::exception const& e) {
        msg = e.what();
    }
    CHECK(!!w == valid, valid ? "valid map refused: " : "invalid map accepted: ",
          why, msg, " maps ", show(f.maps));
    if (w) {
        Tr t;
        for (size_t m = 0; m < f.maps.size(); ++m) {
            t.vals.emplace_back();
            for (auto& x : f.maps[m].fields)
                t.vals.back().push_back(vt_bits(x.type, (int64_t)g.choice(100)));
            t.fill.push_back(Bytes(240, '\0'));
        }
        t.raw = { 0, 0 };
        // one value per key, the last one wins on reading
        File ff = f;
        std::unordered_map<std::string, Value> h;
        std::map<std::string, int64_t> one;
        for (size_t m = 0; m < f.maps.size(); ++m)
            for (size_t k = 0; k < f.maps[m].fields.size(); ++k) {
                auto& x = f.maps[m].fields[k];
                if (!one.count(x.key)) one[x.key] = (int64_t)one.size() % 100 + 1;
                h[x.key] = one[x.key];
                t.vals[m][k] = vt_bits(x.type, one[x.key]);
            }
        Trace tr(h, { 0, 0 });
        w->write(tr);
        w.reset();
        ff.traces.push_back(t);
        check_bytes(read_file(p), ff.encode(), "file written with a valid map");
    }
    g.tag(valid ? "valid" : "invalid");
    if (!why.empty()) g.tag("defect " + why.substr(0, why.find(' ')));
    g.describe("verdict " + (valid ? std::string("valid") : why) + " " + show(f.maps));
    if (fields) g.nontrivial();
}

// ---------------------------------------------------------------------- C17
PROPERTY("C17", "default_refusals", 8000, 200000,
         "as refusals, with a writer given no binary header: misfits before, "
         "between and after fitting traces must throw and the file must hold "
         "exactly the others; non-trivial = at least one refusal and one trace")
{
    int rev = (int)g.choice(2);
    std::string p = g.path("a.sgy");
    size_t n0 = g.size(60), written = 0, refused = 0;
    std::vector<std::vector<double>> smp;
    std::string ops;
    {
        Writer w(rev, p, {}, BH {}, {}, CommonSEGY::default_trace_header);
        size_t steps = 1 + g.choice(8);
        for (size_t k = 0; k < steps; ++k) {
            bool first = !written;
            size_t n = rev == 0 ? n0 : first ? n0 : g.size(60);
            std::vector<double> v(n);
            for (auto& x : v) x = (double)((int)g.choice(2000) - 1000);
            std::unordered_map<std::string, Value> h {
                { "SAMP_NUM", (int64_t)n }, { "SAMP_INT", (int64_t)2000 },
                { "FFID", (int64_t)smp.size() } };
            bool bad = g.chance(45);
            std::string kind = "w";
            if (bad) {
                size_t c = rev == 0 && !first ? 0 : g.choice(3);
                if (c == 0) {
                    v.resize((rev == 0 ? n0 : n) + 1 + (g.chance(30) ? g.choice(3000) : g.choice(3)));
                    kind = "!too many samples";
                } else if (c == 1) {
                    h.erase("SAMP_NUM");
                    kind = "!no SAMP_NUM";
                } else if (c == 2) {
                    h["SAMP_NUM"] = (int64_t)-1 - (int64_t)g.choice(3);
                    kind = "!negative";
                } else {
                    h["SAMP_NUM"] = (int64_t)(32768 + (g.chance(50) ? g.choice(3) : g.choice(40000)));
                    kind = "!not storable";
                }
            }
            ops += kind + " ";
            Trace t(h, v);
            if (bad) {
                CHECK(throws_std([&] { w.write(t); }), "rev ", rev, ": accepted after ", ops);
                ++refused;
            } else {
                w.write(t);
                ++written;
                smp.push_back(v);
            }
        }
    }
    g.describe(cat("rev", rev, " ", ops));
    g.tag(cat("rev", rev));
    if (!written) return;
    ISEGY s(p);
    for (size_t i = 0; i < written; ++i) {
        CHECK(s.has_trace(), "rev ", rev, ": trace ", i, " of ", written, " missing after ", ops);
        Trace t = s.read_trace();
        CHECK(t.header().get("FFID") == std::optional<Value>(Value((int64_t)i)),
              "rev ", rev, ": trace ", i, " is another one after ", ops);
        check_samples(t.samples(), smp[i], cat("trace ", i, " after ", ops));
    }
    CHECK(!s.has_trace(), "rev ", rev, ": trace left after ", ops);
    if (refused) g.nontrivial();
}

PROPERTY("C17", "refusals", 21000, 525000,
         "history of writes mixing fitting traces with ones that do not fit "
         "(too many samples, SAMP_NUM missing/negative/too small/not storable); "
         "misfits must throw and the file must hold exactly the others; "
         "non-trivial = at least one refusal with fitting traces around it")
{
    Opts o;
    o.big = false;
    o.min_traces = 1 + g.choice(3);
    o.max_traces = 20;
    File f = gen_writer_file(g, o);
    if (f.traces.empty()) return;
    VT sn = VT::int16_t;
    for (size_t m = 0; m < f.hdrs() && m < f.maps.size(); ++m)
        for (auto& x : f.maps[m].fields)
            if (x.key == "SAMP_NUM") sn = x.type;
    std::string p = g.path("a.sgy");
    size_t refused = 0;
    std::string ops;
    {
        Writer w(p, f);
        auto misfit = [&] {
            Tr const& t = f.traces[g.choice(f.traces.size() - 1)];
            std::unordered_map<std::string, Value> h;
            for (auto& kv : f.header(t)) h[kv.first] = kv.second;
            std::vector<double> v = f.samples(t);
            std::string kind;
            if (f.fixed) {
                size_t len = v.size();
                v.resize(len + 1 + (g.chance(30) ? g.choice(5000) : g.choice(3)));
                kind = "too many samples";
            } else {
                switch (g.choice(3)) {
                case 0: h.erase("SAMP_NUM"); kind = "no SAMP_NUM"; break;
                case 1: h["SAMP_NUM"] = (int64_t)-1 - (int64_t)g.choice(5); kind = "negative"; break;
                case 2:
                    v.resize(v.size() + 1 + g.choice(3));
                    kind = "SAMP_NUM less than samples";
                    break;
                default:
                    kind = "SAMP_NUM not storable";
                    if (vt_size(sn) <= 4 && g.chance(40)) {
                        // low bits are the number of samples
                        h["SAMP_NUM"] = (int64_t)(1 + g.choice(99)) << 32 | (int64_t)v.size();
                        break;
                    }
                    if (vt_size(sn) > 3) { h.erase("SAMP_NUM"); kind = "no SAMP_NUM"; break; }
                    h["SAMP_NUM"] = (int64_t)(vt_max(sn) + 1 + g.choice(2));
                }
                if (kind != "no SAMP_NUM" && h.count("SAMP_NUM") && g.chance(20) &&
                    std::get<0>(h["SAMP_NUM"]) < 1 << 24)
                    h["SAMP_NUM"] = (double)std::get<0>(h["SAMP_NUM"]);
            }
            Trace tr(h, v);
            ops += "!" + kind + " ";
            CHECK(throws_std([&] { w.write(tr); }), "accepted: ", kind, " after ", ops);
            g.tag(kind);
            ++refused;
        };
        for (auto& t : f.traces) {
            while (g.chance(30)) misfit();
            Trace tr = to_trace(f, t);
            w.write(tr);
            ops += "w ";
        }
        while (g.chance(30)) misfit();
    }
    check_bytes(read_file(p), f.encode(), "file after refusals " + ops);
    ISEGY s(p, lib(f.maps));
    check_reader(s, f, f.maps, "after refusals");
    g.describe("ops " + ops.substr(0, 200));
    if (refused) g.nontrivial();
}

// ------------------------------------------------------- many pieces
PROPERTY("C07", "many", 300, 7500,
         "126 to 33000 extended text headers or stanzas written: whole file "
         "equals the reference encoding; more extended headers than the count "
         "can state are refused; non-trivial = always")
{
    bool texts = g.choice(1), stanzas = !texts || g.chance(30);
    size_t n = texts ? many_texts(g, false) : 0;
    bool over = texts && g.chance(3);
    if (over) n = 32768 + g.choice(3);
    if (n > 30000) stanzas = false;
    File f = gen_many(g, 1 + n, stanzas ? many_texts(g, true) : 0, g.choice(4), false);
    std::string p = g.path("a.sgy");
    if (over) {
        CHECK(throws_std([&] { Writer w(p, f); }), n, " extended text headers accepted");
        g.tag("too many");
    } else {
        write_lib(p, f);
        check_bytes(read_file(p), f.encode(), "file");
    }
    g.nontrivial();
}

PROPERTY("C05", "many_headers", 1500, 30000,
         "traces with 8 to 700 additional headers written: whole file equals "
         "the reference encoding; non-trivial = always")
{
    File f = gen_many_headers(g, false);
    std::string p = g.path("a.sgy");
    write_lib(p, f);
    check_bytes(read_file(p), f.encode(), "file");
    ISEGY s(p, lib(f.maps));
    check_reader(s, f, f.maps, "read back");
    g.nontrivial();
}

PROPERTY("C10", "many_traces", 80, 3000,
         "254 to 70000 small traces written and read back; non-trivial = "
         "always")
{
    File f = gen_many(g, 1, g.chance(30) ? 2 : 0, many_traces(g), false);
    std::string p = g.path("a.sgy");
    write_lib(p, f);
    ISEGY s(p, lib(f.maps));
    check_bin(s.binary_header(), f.bh, "binary header read back");
    check_reader(s, f, f.maps, "read back");
    g.nontrivial();
}
