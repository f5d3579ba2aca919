// Independent reference model of SEG-Y (rev 0, 1, 2): encoder, decoder and
// generators.  Shares no code with the library; only its public types.
#pragma once
#include "pbt.hpp"
#include "CommonSEGY.hpp"
#include "Exception.hpp"
#include "ISEGY.hpp"
#include "ISEGYSorted1D.hpp"
#include "OSEGYRev0.hpp"
#include "OSEGYRev1.hpp"
#include "OSEGYRev2.hpp"
#include "Trace.hpp"
#include <cmath>
#include <fstream>
#include <limits>
#include <memory>
#include <optional>
#include <unordered_map>

namespace ref {
using namespace pbt;
using sedaman::CommonSEGY;
using sedaman::ISEGY;
using sedaman::ISEGYSorted1D;
using sedaman::OSEGYRev0;
using sedaman::OSEGYRev1;
using sedaman::OSEGYRev2;
using sedaman::Trace;
using BH = CommonSEGY::BinaryHeader;
using VT = Trace::Header::ValueType;
using Value = Trace::Header::Value;
using Bytes = std::string;
using LibMaps = std::vector<
    std::pair<std::string, std::map<uint32_t, std::pair<std::string, VT>>>>;
using HdrVals = std::map<std::string, Value>;

// ------------------------------------------------------------------ raw bytes
inline void put(Bytes& b, size_t off, uint64_t v, int n, bool le)
{
    for (int i = 0; i < n; ++i)
        b[off + i] = (char)(v >> 8 * (le ? i : n - 1 - i));
}
inline void app(Bytes& b, uint64_t v, int n, bool le)
{
    size_t o = b.size();
    b.resize(o + n);
    put(b, o, v, n, le);
}
inline uint64_t get(Bytes const& b, size_t off, int n, bool le)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i)
        v |= (uint64_t)(unsigned char)b[off + i] << 8 * (le ? i : n - 1 - i);
    return v;
}
inline int64_t sext(uint64_t v, int bits)
{
    if (bits == 64) return (int64_t)v;
    uint64_t m = 1ull << (bits - 1);
    v &= (1ull << bits) - 1;
    return (int64_t)((v ^ m) - m);
}
inline void write_file(std::string const& p, Bytes const& b)
{
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o.write(b.data(), (std::streamsize)b.size());
    if (!o) throw std::runtime_error("scratch write failed");
}
inline Bytes read_file(std::string const& p)
{
    std::ifstream i(p, std::ios::binary);
    return Bytes(std::istreambuf_iterator<char>(i),
                 std::istreambuf_iterator<char>());
}

// ------------------------------------------------------------------- numbers
inline double ibm_value(uint32_t r)
{
    double f = std::ldexp((double)(r & 0xffffff), 4 * ((int)(r >> 24 & 0x7f) - 64) - 24);
    return r >> 31 ? -f : f;
}
inline double f32_value(uint32_t r)
{
    float f;
    memcpy(&f, &r, 4);
    return f;
}
inline double f64_value(uint64_t r)
{
    double f;
    memcpy(&f, &r, 8);
    return f;
}
inline uint32_t f32_bits(float f)
{
    uint32_t r;
    memcpy(&r, &f, 4);
    return r;
}
inline uint64_t f64_bits(double f)
{
    uint64_t r;
    memcpy(&r, &f, 8);
    return r;
}
inline bool same(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
inline bool same(Value const& a, Value const& b)
{
    if (a.index() != b.index()) return false;
    if (a.index() == 0) return std::get<0>(a) == std::get<0>(b);
    return same(std::get<1>(a), std::get<1>(b));
}
inline std::string show(Value const& v)
{
    return v.index() == 0 ? cat(std::get<0>(v)) : cat(std::get<1>(v), "d");
}
inline double as_dbl(Value const& v)
{
    return v.index() == 0 ? (double)std::get<0>(v) : std::get<1>(v);
}

// ------------------------------------------------------------ sample formats
enum Kind { IBM, SIGNED, UNSIGNED, F32, F64 };
struct Format {
    int code;
    int size;
    Kind kind;
};
inline std::vector<Format> const& formats()
{
    static std::vector<Format> const f {
        { 1, 4, IBM },    { 2, 4, SIGNED },    { 3, 2, SIGNED },
        { 5, 4, F32 },    { 6, 8, F64 },       { 7, 3, SIGNED },
        { 8, 1, SIGNED }, { 9, 8, SIGNED },    { 10, 4, UNSIGNED },
        { 11, 2, UNSIGNED }, { 12, 8, UNSIGNED }, { 15, 3, UNSIGNED },
        { 16, 1, UNSIGNED },
    };
    return f;
}
inline Format const& format(int code)
{
    for (auto& f : formats())
        if (f.code == code) return f;
    throw std::logic_error("format");
}
inline double sample_value(Format const& f, uint64_t raw)
{
    switch (f.kind) {
    case IBM: return ibm_value((uint32_t)raw);
    case F32: return f32_value((uint32_t)raw);
    case F64: return f64_value(raw);
    case SIGNED: return (double)sext(raw, f.size * 8);
    case UNSIGNED: return (double)raw;
    }
    return 0;
}
// the bits that survive decoding to double and encoding again
inline uint64_t canonical_float(Kind k, uint64_t raw)
{
    if (k == F32) {
        if ((raw & 0x7f800000) == 0x7f800000 && (raw & 0x7fffff)) // no NaN
            raw &= ~0x007fffffull; // infinity instead
    } else if (k == F64) {
        if ((raw >> 52 & 0x7ff) == 0x7ff) raw &= 0xfff0000000000000ull;
    } else if (k == IBM) {
        uint32_t frac = raw & 0xffffff;
        if (!frac) return 0;
        // normalised, but for the smallest numbers
        if (!(frac & 0xf00000) && (raw >> 24 & 0x7f)) frac |= 0x100000;
        raw = (raw & 0xff000000) | frac;
    }
    return raw;
}
inline uint64_t canonical(Format const& f, uint64_t raw)
{
    if (f.kind == SIGNED && f.size == 8)
        return (uint64_t)(sext(raw, 64) / 2048 * 2048); // exactly a double
    if (f.kind == UNSIGNED && f.size == 8) return raw & ~0x7ffull;
    return canonical_float(f.kind, raw);
}

// ------------------------------------------------------------- trace headers
inline std::vector<VT> const& all_types()
{
    static std::vector<VT> const t { VT::int8_t, VT::uint8_t, VT::int16_t,
        VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t,
        VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single, VT::ieee_double };
    return t;
}
inline int vt_size(VT t)
{
    switch (t) {
    case VT::int8_t: case VT::uint8_t: return 1;
    case VT::int16_t: case VT::uint16_t: return 2;
    case VT::int24_t: case VT::uint24_t: return 3;
    case VT::int32_t: case VT::uint32_t: case VT::ibm: case VT::ieee_single:
        return 4;
    default: return 8;
    }
}
inline bool vt_float(VT t)
{
    return t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double;
}
inline bool vt_signed(VT t)
{
    return t == VT::int8_t || t == VT::int16_t || t == VT::int24_t ||
        t == VT::int32_t || t == VT::int64_t;
}
inline char const* vt_name(VT t)
{
    static char const* n[] = { "i8", "u8", "i16", "u16", "i24", "u24", "i32",
        "u32", "i64", "u64", "ibm", "f32", "f64" };
    return n[(int)t];
}
inline Value vt_value(VT t, uint64_t raw)
{
    switch (t) {
    case VT::ibm: return ibm_value((uint32_t)raw);
    case VT::ieee_single: return f32_value((uint32_t)raw);
    case VT::ieee_double: return f64_value(raw);
    default: break;
    }
    int bits = vt_size(t) * 8;
    return vt_signed(t) ? sext(raw, bits) : (int64_t)raw;
}
inline uint64_t vt_canonical(VT t, uint64_t raw)
{
    if (t == VT::ibm) return canonical_float(IBM, raw);
    if (t == VT::ieee_single) return canonical_float(F32, raw);
    if (t == VT::ieee_double) return canonical_float(F64, raw);
    return raw;
}
// largest count an integer field can carry
inline uint64_t vt_max(VT t)
{
    int b = vt_size(t) * 8 - (vt_signed(t) || t == VT::uint64_t ? 1 : 0);
    return b == 64 ? ~0ull : (1ull << b) - 1;
}

struct Field {
    uint32_t off;
    std::string key;
    VT type;
};
struct HMap {
    std::string name;
    std::vector<Field> fields; // ascending offsets
};
using HMaps = std::vector<HMap>;
inline LibMaps lib(HMaps const& ms)
{
    LibMaps r;
    for (auto& m : ms) {
        r.push_back({ m.name, {} });
        for (auto& f : m.fields) r.back().second[f.off] = { f.key, f.type };
    }
    return r;
}
inline HMaps from_lib(LibMaps const& l)
{
    HMaps r;
    for (auto& p : l) {
        HMap m { p.first, {} };
        for (auto& f : p.second)
            m.fields.push_back({ f.first, f.second.first, f.second.second });
        r.push_back(m);
    }
    return r;
}
inline std::string show(HMaps const& ms)
{
    std::string r;
    for (auto& m : ms) {
        r += "[";
        size_t n = 0;
        for (auto& f : m.fields) {
            if (++n > 6) {
                r += cat(" +", m.fields.size() - 6, " fields");
                break;
            }
            r += cat(n > 1 ? " " : "", f.off, ":", vt_name(f.type), " ", f.key);
        }
        r += "]";
    }
    return r;
}

// ---------------------------------------------------------- binary header
struct BinField {
    char const* name;
    int off;
    int size;
    bool sgn;
    bool tail; // exists from revision 2 on
    std::function<uint64_t(BH const&)> get;
    std::function<void(BH&, uint64_t)> set;
};
inline std::vector<BinField> const& bin_fields()
{
#define BF(n, o, s, sg, t)                                                     \
    { #n, o, s, sg, t, [](BH const& h) { return (uint64_t)h.n; },              \
      [](BH& h, uint64_t v) { h.n = (decltype(h.n))v; } }
#define BFD(n, o)                                                              \
    { #n, o, 8, false, false, [](BH const& h) { return f64_bits(h.n); },       \
      [](BH& h, uint64_t v) { h.n = f64_value(v); } }
    static std::vector<BinField> const f {
        BF(job_id, 0, 4, true, false), BF(line_num, 4, 4, true, false),
        BF(reel_num, 8, 4, true, false), BF(tr_per_ens, 12, 2, true, false),
        BF(aux_per_ens, 14, 2, true, false), BF(samp_int, 16, 2, true, false),
        BF(samp_int_orig, 18, 2, true, false), BF(samp_per_tr, 20, 2, true, false),
        BF(samp_per_tr_orig, 22, 2, true, false),
        BF(format_code, 24, 2, true, false), BF(ens_fold, 26, 2, true, false),
        BF(sort_code, 28, 2, true, false), BF(vert_sum_code, 30, 2, true, false),
        BF(sw_freq_at_start, 32, 2, true, false),
        BF(sw_freq_at_end, 34, 2, true, false), BF(sw_length, 36, 2, true, false),
        BF(sw_type_code, 38, 2, true, false), BF(sw_ch_tr_num, 40, 2, true, false),
        BF(taper_at_start, 42, 2, true, false),
        BF(taper_at_end, 44, 2, true, false), BF(taper_type, 46, 2, true, false),
        BF(corr_traces, 48, 2, true, false), BF(bin_gain_recov, 50, 2, true, false),
        BF(amp_recov_meth, 52, 2, true, false),
        BF(measure_system, 54, 2, true, false),
        BF(impulse_sig_pol, 56, 2, true, false),
        BF(vib_pol_code, 58, 2, true, false), BF(ext_tr_per_ens, 60, 4, true, false),
        BF(ext_aux_per_ens, 64, 4, true, false),
        BF(ext_samp_per_tr, 68, 4, true, false), BFD(ext_samp_int, 72),
        BFD(ext_samp_int_orig, 80), BF(ext_samp_per_tr_orig, 88, 4, true, false),
        BF(ext_ens_fold, 92, 4, true, false),
        BF(SEGY_rev_major_ver, 300, 1, false, false),
        BF(SEGY_rev_minor_ver, 301, 1, false, false),
        BF(fixed_tr_length, 302, 2, true, false),
        BF(ext_text_headers_num, 304, 2, true, false),
        BF(max_num_add_tr_headers, 306, 4, true, true),
        BF(time_basis_code, 310, 2, true, true),
        BF(num_of_tr_in_file, 312, 8, false, true),
        BF(byte_off_of_first_tr, 320, 8, false, true),
        BF(num_of_trailer_stanza, 328, 4, true, true),
    };
#undef BF
#undef BFD
    return f;
}
constexpr uint32_t MARK_LE = 0x01020304, MARK_BE = 0x04030201; // raw LE word
// endianness member of bh is the word found in the file, not swapped
inline Bytes encode_bin(BH const& h, bool le)
{
    Bytes b(400, '\0');
    for (auto& f : bin_fields()) put(b, f.off, f.get(h), f.size, le);
    put(b, 96, (uint32_t)h.endianness, 4, true);
    return b;
}
inline void check_bin(BH const& got, BH const& want, char const* what,
                      bool endianness = true)
{
    for (auto& f : bin_fields()) {
        uint64_t m = f.size == 8 ? ~0ull : (1ull << 8 * f.size) - 1;
        uint64_t a = f.get(got) & m, b = f.get(want) & m;
        if (f.size == 8 && f.off < 96) {
            CHECK(same(f64_value(a), f64_value(b)), what, ": binary header ",
                  f.name, " is ", f64_value(a), " expected ", f64_value(b));
        } else
            CHECK(a == b, what, ": binary header ", f.name, " is ",
                  f.sgn ? sext(a, 8 * f.size) : (int64_t)a, " expected ",
                  f.sgn ? sext(b, 8 * f.size) : (int64_t)b);
    }
    if (endianness)
        CHECK(got.endianness == want.endianness, what, ": endianness ",
              got.endianness, " expected ", want.endianness);
}

// ------------------------------------------------------------- logical file
struct Tr {
    std::vector<std::vector<uint64_t>> vals; // [map][field] raw bits
    std::vector<Bytes> fill;                 // 240 bytes per header
    std::vector<uint64_t> raw;               // samples
};
struct File {
    BH bh {};
    bool le = false;
    HMaps maps;          // maps describing the headers of every trace
    std::vector<Bytes> texts;
    Bytes gap;           // between headers and first trace
    std::vector<Tr> traces;
    std::vector<Bytes> stanzas;
    Bytes bin_fill;      // content of unassigned bytes of the binary header
    bool fixed = true;

    size_t hdrs() const
    {
        return (bh.SEGY_rev_major_ver > 1 ? (size_t)bh.max_num_add_tr_headers : 0) + 1;
    }
    Bytes head() const
    {
        Bytes b = texts[0];
        Bytes bin = encode_bin(bh, le);
        if (!bin_fill.empty()) {
            for (int i = 100; i < 300; ++i) bin[i] = bin_fill[i];
            for (int i = 332; i < 400; ++i) bin[i] = bin_fill[i];
            if (bh.SEGY_rev_major_ver < 2)
                for (int i = 306; i < 332; ++i) bin[i] = bin_fill[i];
        }
        b += bin;
        for (size_t i = 1; i < texts.size(); ++i) b += texts[i];
        b += gap;
        return b;
    }
    Bytes header_bytes(Tr const& t, bool l) const
    {
        Bytes r;
        for (size_t m = 0; m < hdrs(); ++m) {
            Bytes h = m < t.fill.size() ? t.fill[m] : Bytes(240, '\0');
            if (m < maps.size())
                for (size_t k = 0; k < maps[m].fields.size(); ++k)
                    put(h, maps[m].fields[k].off, t.vals[m][k],
                        vt_size(maps[m].fields[k].type), l);
            r += h;
        }
        return r;
    }
    Bytes trace_bytes(Tr const& t) const
    {
        Bytes r = header_bytes(t, le);
        Format const& f = format(bh.format_code);
        size_t o = r.size();
        r.resize(o + t.raw.size() * f.size);
        for (auto v : t.raw) {
            put(r, o, v, f.size, le);
            o += f.size;
        }
        return r;
    }
    Bytes encode() const
    {
        Bytes b = head();
        for (auto& t : traces) b += trace_bytes(t);
        for (auto& s : stanzas) b += s;
        return b;
    }
    HdrVals header(Tr const& t) const { return header(t, maps); }
    // what a reader with the first maps of `use` must deliver
    HdrVals header(Tr const& t, HMaps const& use) const
    {
        HdrVals r;
        Bytes own = header_bytes(t, le);
        for (size_t m = 0; m < use.size() && m < hdrs(); ++m)
            for (auto& f : use[m].fields)
                r[f.key] = vt_value(f.type, get(own, 240 * m + f.off,
                                                vt_size(f.type), le));
        return r;
    }
    std::vector<double> samples(Tr const& t) const
    {
        std::vector<double> r;
        r.reserve(t.raw.size());
        Format const& f = format(bh.format_code);
        for (auto v : t.raw) r.push_back(sample_value(f, v));
        return r;
    }
};

inline void check_header(Trace::Header const& h, HdrVals const& want,
                         std::string const& what)
{
    for (auto& kv : want) {
        auto v = h.get(kv.first);
        CHECK(v, what, ": key ", kv.first, " missing");
        CHECK(same(*v, kv.second), what, ": ", kv.first, " is ", show(*v),
              " expected ", show(kv.second));
    }
    auto keys = h.keys();
    CHECK(keys.size() == want.size(), what, ": ", keys.size(),
          " keys, expected ", want.size());
}
inline void check_samples(std::vector<double> const& got,
                          std::vector<double> const& want,
                          std::string const& what)
{
    CHECK(got.size() == want.size(), what, ": ", got.size(),
          " samples, expected ", want.size());
    for (size_t i = 0; i < got.size(); ++i)
        CHECK(same(got[i], want[i]), what, ": sample ", i, " of ", got.size(),
              " is ", got[i], " expected ", want[i]);
}
inline void check_trace(Trace& t, HdrVals const& h, std::vector<double> const& s,
                        std::string const& what)
{
    check_header(t.header(), h, what);
    check_samples(t.samples(), s, what);
}
inline void check_texts(std::vector<std::string> const& got,
                        std::vector<Bytes> const& want, std::string const& what)
{
    CHECK(got.size() == want.size(), what, ": ", got.size(), " blocks, expected ",
          want.size());
    for (size_t i = 0; i < got.size(); ++i)
        CHECK(got[i] == want[i], what, ": block ", i, " differs: ",
              hex(got[i], 24), " vs ", hex(want[i], 24));
}
inline void check_bytes(Bytes const& got, Bytes const& want,
                        std::string const& what)
{
    size_t n = std::min(got.size(), want.size());
    for (size_t i = 0; i < n; ++i)
        if (got[i] != want[i])
            fail(cat(what, ": byte ", i, " is ", (int)(unsigned char)got[i],
                     " expected ", (int)(unsigned char)want[i], " (sizes ",
                     got.size(), ", ", want.size(), ")"));
    CHECK(got.size() == want.size(), what, ": size ", got.size(), " expected ",
          want.size());
}
template <class F> bool throws_std(F f)
{
    try {
        f();
    } catch (std::exception const&) {
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ generators
inline Bytes gen_block(Gen& g, size_t n)
{
    Bytes b(n, ' ');
    Rng r = g.sub();
    bool text = r.below(2);
    for (auto& c : b) c = text ? (char)(32 + r.below(95)) : (char)r.next();
    return b;
}
inline std::string const& end_text()
{
    static std::string const s = "((SEG: EndText))";
    return s;
}
inline Bytes gen_text(Gen& g) // never an end-text block
{
    Bytes b = gen_block(g, 3200);
    if (b[0] == '(') b[0] = 'C';
    if (g.chance(30)) {
        // other stanzas, and the end-text words anywhere but at the beginning
        static std::vector<std::string> const names {
            "((SEG: Location Data ver 1.0))", "((JP: Hello))",
            "((SEG: EndTexture))", "((SEG: End of survey))", "((OGP: EndText))",
            "((SEG: Coordinate Reference System))", "((SEG: EndTex",
            "C ((SEG: EndText))", "(SEG: EndText)", "(((SEG: EndText))" };
        std::string const& n = g.pick(names);
        b.replace(0, n.size(), n);
        if (g.chance(30)) b.replace(3184, 16, end_text());
    }
    return b;
}

inline HMap gen_map(Gen& g, int index, size_t max_fields = 40)
{
    HMap m;
    m.name = g.chance(30) ? g.ascii(8) : cat("HDR0000", index % 10);
    uint32_t off = g.chance(50) ? 0 : (uint32_t)g.choice(60);
    size_t n = g.size(max_fields);
    for (size_t i = 0; i < n; ++i) {
        VT t = g.pick(all_types());
        if (off + vt_size(t) > 240) break;
        m.fields.push_back({ off, cat("K", index, "_", i), t });
        off += vt_size(t);
        if (g.chance(40)) off += (uint32_t)g.choice(20);
    }
    if (g.chance(40)) { // a field ending exactly with the header
        VT t = g.pick(all_types());
        uint32_t o = 240 - vt_size(t);
        if (m.fields.empty() ||
            m.fields.back().off + vt_size(m.fields.back().type) <= o)
            m.fields.push_back({ o, cat("K", index, "_last"), t });
    }
    return m;
}
// makes keys of later maps collide with those of earlier ones now and then
inline void gen_collisions(Gen& g, HMaps& ms)
{
    for (size_t m = 1; m < ms.size(); ++m)
        if (!ms[m].fields.empty() && !ms[m - 1].fields.empty() && g.chance(40)) {
            auto& f = ms[m].fields[g.choice(ms[m].fields.size() - 1)];
            auto& o = ms[m - 1].fields[g.choice(ms[m - 1].fields.size() - 1)];
            if (o.key != "SAMP_NUM" && f.key != "SAMP_NUM") {
                bool dup = false;
                for (auto& x : ms[m].fields) dup |= x.key == o.key;
                if (!dup) f.key = o.key;
            }
        }
}
// a map covering every byte of the header
inline HMap gen_full_map(Gen& g, int index)
{
    HMap m;
    m.name = cat("FULL000", index % 10);
    static std::vector<VT> const ints { VT::int8_t, VT::uint8_t, VT::int16_t,
        VT::uint16_t, VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t,
        VT::int64_t, VT::uint64_t };
    uint32_t off = 0;
    VT fav = g.pick(ints);
    bool mixed = g.chance(60);
    Rng r = g.sub();
    while (off < 240) {
        VT t = mixed ? ints[r.below(ints.size())] : fav;
        if (off + vt_size(t) > 240) t = VT::uint8_t;
        m.fields.push_back({ off, cat("F", index, "_", off), t });
        off += vt_size(t);
    }
    return m;
}

struct Opts {
    int rev = -1;              // -1 any
    int fmt = 0;               // 0 any
    bool canonical = false;    // only values that survive a round trip
    int variable = -1;         // -1 any
    enum Maps { RANDOM, DEFAULT, FULL, ANYMAP } map = ANYMAP;
    bool stanzas = true;
    bool neg_counts = true;    // -1 for text headers / stanzas
    bool gap = true;
    bool big = true;           // seldom large traces
    size_t max_traces = 300;
    bool rand_bin = true;      // random values in the other binary fields
    bool unmapped_fill = true;
    bool bin_fill = true;
    size_t min_traces = 0;
    bool max_hdrs = true;      // additional trace headers allowed
    bool ext_texts = true;
    bool u64_big = false;      // header values of 2^63 and more
    bool float_samp_num = false;
};

inline void set_field(File& f, Tr& t, std::string const& key, uint64_t v)
{
    for (size_t m = 0; m < f.hdrs() && m < f.maps.size(); ++m)
        for (size_t k = 0; k < f.maps[m].fields.size(); ++k)
            if (f.maps[m].fields[k].key == key) t.vals[m][k] = v;
}

inline std::vector<uint64_t> gen_samples(Gen& g, Format const& f, size_t n,
                                         bool canon)
{
    std::vector<uint64_t> r(n);
    if (n <= 12) {
        for (auto& v : r) v = g.pattern(f.size * 8);
    } else {
        Rng s = g.sub();
        for (auto& v : r) v = s.pattern(f.size * 8);
    }
    if (canon)
        for (auto& v : r) v = canonical(f, v);
    return r;
}

inline File gen_file(Gen& g, Opts o = {})
{
    File f;
    int rev = o.rev >= 0 ? o.rev : (int)g.choice(2);
    f.le = g.choice(1);
    Format const& fm = o.fmt ? format(o.fmt) : g.pick(formats());
    bool variable = rev > 0 &&
        (o.variable >= 0 ? o.variable == 1 : g.chance(50));
    f.fixed = !variable;
    if (o.rand_bin) {
        Rng r = g.sub();
        if (g.chance(70))
            for (auto& b : bin_fields()) {
                uint64_t v = r.pattern(b.size * 8);
                if (b.size == 8 && b.off < 96) v = canonical_float(F64, v);
                b.set(f.bh, v);
            }
    }
    BH& h = f.bh;
    h.endianness = f.le ? MARK_LE : (g.chance(50) ? (int32_t)MARK_BE : 0);
    h.format_code = (int16_t)fm.code;
    h.SEGY_rev_major_ver = (uint8_t)rev;
    h.fixed_tr_length = variable ? 0 : rev == 0 ? h.fixed_tr_length : 1;
    if (!variable && rev && g.chance(20)) h.fixed_tr_length = -1;
    h.ext_samp_per_tr = 0;
    h.max_num_add_tr_headers = 0;
    h.time_basis_code = rev > 1 ? h.time_basis_code : 0;
    h.num_of_tr_in_file = 0;
    h.byte_off_of_first_tr = 0;
    h.num_of_trailer_stanza = 0;
    h.ext_text_headers_num = 0;

    // header maps
    if (rev > 1 && o.max_hdrs && g.chance(50))
        h.max_num_add_tr_headers = (int32_t)(g.chance(10) ? g.range(1, 7)
                                                          : g.range(1, 3));
    bool neg_stanza = rev > 1 && o.stanzas && o.neg_counts && g.chance(25);
    auto mode = o.map;
    if (mode == Opts::ANYMAP)
        mode = g.chance(50) ? Opts::RANDOM : Opts::DEFAULT;
    if (neg_stanza && variable) mode = Opts::DEFAULT;
    size_t nh = f.hdrs();
    HMaps def = from_lib(CommonSEGY::default_trace_header);
    for (size_t i = 0; i < nh; ++i) {
        if (mode == Opts::DEFAULT && i < def.size() && i < 2)
            f.maps.push_back(def[i]);
        else if (mode == Opts::FULL)
            f.maps.push_back(gen_full_map(g, (int)i));
        else
            f.maps.push_back(gen_map(g, (int)i, i < 2 ? 40 : 8));
    }
    if (mode == Opts::RANDOM) gen_collisions(g, f.maps);

    // sizes
    size_t ntr = g.chance(5) ? g.choice(o.max_traces) : g.size(12);
    if (ntr < o.min_traces) ntr = o.min_traces;
    size_t cap = 300000;
    auto gen_n = [&](size_t lim) -> size_t {
        if (o.big && g.chance(2)) {
            static std::vector<size_t> const edges { 255, 256, 1000, 4096, 8191,
                8192, 10000, 32767, 32768, 32769, 40000, 65535, 65536, 70000 };
            return std::min(lim, g.pick(edges));
        }
        return std::min(lim, g.size(300));
    };
    size_t fix_n = 0;
    if (!variable) {
        fix_n = gen_n(70000);
        if (fix_n && ntr > cap / fix_n) ntr = std::max<size_t>(1, cap / fix_n);
        if (fix_n > 65535 || g.chance(25)) {
            h.ext_samp_per_tr = (int32_t)fix_n;
            if (!fix_n) h.samp_per_tr = 0;
        } else
            h.samp_per_tr = (int16_t)fix_n;
        if (!h.ext_samp_per_tr) h.samp_per_tr = (int16_t)fix_n;
    }
    // field that carries SAMP_NUM in variable length files: last one wins
    VT sn_type = VT::int16_t;
    if (variable && (mode == Opts::RANDOM || mode == Opts::FULL)) {
        size_t m = g.choice(nh - 1);
        auto& mf = f.maps[m].fields;
        std::vector<size_t> cand;
        for (size_t k = 0; k < mf.size(); ++k)
            if (!vt_float(mf[k].type)) cand.push_back(k);
        if (cand.empty()) {
            static std::vector<VT> const ints { VT::int8_t, VT::uint8_t,
                VT::int16_t, VT::uint16_t, VT::int24_t, VT::uint24_t,
                VT::int32_t, VT::uint32_t, VT::int64_t, VT::uint64_t };
            VT t = g.pick(ints);
            mf.clear();
            mf.push_back({ (uint32_t)g.choice(240 - vt_size(t)), "SAMP_NUM", t });
            cand.push_back(0);
        }
        size_t k = cand[g.choice(cand.size() - 1)];
        mf[k].key = "SAMP_NUM";
        sn_type = mf[k].type;
    } else if (variable) {
        // default maps: int16 in the first header, int32 in the second
        sn_type = nh > 1 ? VT::int32_t : VT::int16_t;
    }

    // traces
    size_t total = 0;
    for (size_t i = 0; i < ntr; ++i) {
        Tr t;
        size_t n = fix_n;
        if (variable) {
            n = (size_t)std::min<uint64_t>(gen_n(70000), vt_max(sn_type));
            total += n;
            if (total > cap) break;
        }
        t.raw = gen_samples(g, fm, n, o.canonical);
        Rng r = g.sub();
        for (size_t m = 0; m < nh; ++m) {
            t.vals.emplace_back();
            for (auto& fl : f.maps[m].fields) {
                uint64_t v = r.pattern(vt_size(fl.type) * 8);
                if (o.canonical) v = vt_canonical(fl.type, v);
                if (fl.type == VT::uint64_t && !o.u64_big) v &= ~0ull >> 1;
                t.vals.back().push_back(v);
            }
            Bytes fill(240, '\0');
            if (o.unmapped_fill && mode != Opts::FULL)
                for (auto& c : fill) c = (char)r.next();
            t.fill.push_back(fill);
        }
        if (variable) {
            set_field(f, t, "SAMP_NUM", n);
            if (nh > 1 && mode == Opts::DEFAULT && n > 32767) {
                // the first header's field cannot carry it
                for (size_t k = 0; k < f.maps[0].fields.size(); ++k)
                    if (f.maps[0].fields[k].key == "SAMP_NUM")
                        t.vals[0][k] = 0;
            }
        }
        f.traces.push_back(std::move(t));
    }

    // texts
    f.texts.push_back(gen_text(g));
    if (rev > 0 && o.ext_texts) {
        size_t n = g.chance(50) ? 0 : g.chance(4) ? g.choice(40) : g.choice(4);
        for (size_t i = 0; i < n; ++i) {
            f.texts.push_back(gen_text(g));
            if (g.chance(10)) // end text inside a counted list is plain text
                f.texts.back().replace(0, 16, end_text());
        }
        h.ext_text_headers_num = (int16_t)n;
        if (n && o.neg_counts && g.chance(40)) {
            h.ext_text_headers_num = -1;
            for (size_t i = 1; i + 1 < f.texts.size(); ++i)
                if (!f.texts[i].compare(0, 16, end_text())) f.texts[i][0] = 'C';
            f.texts.back().replace(0, 16, end_text());
        }
    }
    if (rev > 1) {
        if (g.chance(40)) h.num_of_tr_in_file = f.traces.size();
        if (o.stanzas && (neg_stanza || g.chance(40))) {
            size_t n = g.choice(3);
            if (neg_stanza) ++n;
            for (size_t i = 0; i < n; ++i) f.stanzas.push_back(gen_text(g));
            h.num_of_trailer_stanza = (int32_t)n;
            if (neg_stanza && !f.traces.empty()) {
                h.num_of_trailer_stanza = -1;
                h.num_of_tr_in_file = f.traces.size();
                f.stanzas.back().replace(0, 16, end_text());
                if (variable && nh > 1)
                    for (auto& t : f.traces)
                        for (size_t k = 0; k < f.maps[1].fields.size(); ++k)
                            if (f.maps[1].fields[k].off == 156)
                                t.vals[1][k] = g.chance(50) ? 0 : nh - 1;
            }
        }
        if (o.gap && g.chance(30)) {
            if (g.chance(60)) f.gap = gen_block(g, g.choice(500));
            h.byte_off_of_first_tr =
                3600 + 3200 * (f.texts.size() - 1) + f.gap.size();
        }
    }
    if (o.bin_fill && g.chance(40)) f.bin_fill = gen_block(g, 400);
    g.tag(cat("rev", rev));
    g.tag(cat("format ", fm.code, f.le ? " LE" : " BE"));
    g.tag(variable ? "variable length" : "fixed length");
    if (f.traces.empty()) g.tag("no traces");
    if (nh > 1) g.tag("additional trace headers");
    if (!f.stanzas.empty()) g.tag(h.num_of_trailer_stanza < 0 ? "stanzas -1" : "stanzas");
    if (f.texts.size() > 1) g.tag(h.ext_text_headers_num < 0 ? "ext texts -1" : "ext texts");
    if (!f.gap.empty()) g.tag("gap before first trace");
    size_t maxn = 0;
    for (auto& t : f.traces) maxn = std::max(maxn, t.raw.size());
    if (maxn > 32767) g.tag("more than 32767 samples");
    g.describe(cat("rev", rev, f.le ? " LE" : " BE", " format ", fm.code,
                   variable ? " variable" : " fixed", " traces ",
                   f.traces.size(), " max samples ", maxn, " texts ",
                   f.texts.size(), "(", h.ext_text_headers_num, ") stanzas ",
                   f.stanzas.size(), "(", h.num_of_trailer_stanza,
                   ") trace headers ", nh, " gap ", f.gap.size(), " off ",
                   h.byte_off_of_first_tr, " maps ", show(f.maps)));
    return f;
}

// binary header values a reader must report for this file
inline BH reported(File const& f)
{
    BH h = f.bh;
    if (h.SEGY_rev_major_ver < 2) {
        h.max_num_add_tr_headers = 0;
        h.time_basis_code = 0;
        h.num_of_tr_in_file = 0;
        h.byte_off_of_first_tr = 0;
        h.num_of_trailer_stanza = 0;
    }
    return h;
}

// full sequential comparison of an open reader with the model
inline void check_reader(ISEGY& s, File const& f, HMaps const& use,
                         std::string const& what)
{
    check_texts(s.text_headers(), f.texts, what + ": text headers");
    check_texts(s.trailer_stanzas(), f.stanzas, what + ": stanzas");
    for (size_t i = 0; i < f.traces.size(); ++i) {
        CHECK(s.has_trace(), what, ": no trace ", i, " of ", f.traces.size());
        Trace t = s.read_trace();
        check_trace(t, f.header(f.traces[i], use), f.samples(f.traces[i]),
                    cat(what, ": trace ", i));
    }
    CHECK(!s.has_trace(), what, ": more traces than ", f.traces.size());
}

// ------------------------------------------------------------------- writing
// truncating IBM encoder by repeated scaling; |v| must be in range
inline uint32_t ibm_bits(double v)
{
    uint32_t sign = v < 0 ? 0x80000000u : 0;
    v = std::fabs(v);
    if (v == 0) return 0;
    int e = 64;
    while (v >= 1) { v /= 16; ++e; }
    while (v < 1.0 / 16) { v *= 16; --e; }
    return sign | (uint32_t)e << 24 | (uint32_t)(v * 16777216.0);
}
inline uint64_t vt_bits(VT t, Value const& v)
{
    uint64_t m = vt_size(t) == 8 ? ~0ull : (1ull << 8 * vt_size(t)) - 1;
    switch (t) {
    case VT::ibm: return ibm_bits(as_dbl(v));
    case VT::ieee_single: return f32_bits((float)as_dbl(v));
    case VT::ieee_double: return f64_bits(as_dbl(v));
    default:
        return (v.index() == 0 ? (uint64_t)std::get<0>(v)
                               : (uint64_t)(int64_t)std::get<1>(v)) & m;
    }
}

// a file as a writer must produce it: nothing the writer cannot be told
inline File gen_writer_file(Gen& g, Opts o = {})
{
    o.canonical = true;
    o.unmapped_fill = false;
    o.bin_fill = false;
    o.neg_counts = false;
    File f = gen_file(g, o);
    f.gap.clear();
    if (f.bh.byte_off_of_first_tr)
        f.bh.byte_off_of_first_tr = 3600 + 3200 * (f.texts.size() - 1);
    f.bh.num_of_trailer_stanza = (int32_t)f.stanzas.size();
    if (f.bh.SEGY_rev_major_ver == 0) {
        BH z {};
        z.format_code = f.bh.format_code;
        if (f.bh == z) f.bh.job_id = 1; // not "no binary header given"
    }
    // one value per key: a key repeated in several maps gets a small value
    std::map<std::string, std::vector<std::pair<size_t, size_t>>> where;
    for (size_t m = 0; m < f.maps.size(); ++m)
        for (size_t k = 0; k < f.maps[m].fields.size(); ++k)
            where[f.maps[m].fields[k].key].push_back({ m, k });
    for (auto& t : f.traces) {
        Rng r = g.sub();
        for (auto& w : where) {
            if (w.first == "SAMP_NUM" && !f.fixed) {
                uint64_t lim = ~0ull;
                for (auto& x : w.second)
                    lim = std::min(lim, vt_max(f.maps[x.first].fields[x.second].type));
                if (t.raw.size() > lim) t.raw.resize(lim);
                for (auto& x : w.second)
                    t.vals[x.first][x.second] = t.raw.size();
            } else if (w.second.size() > 1) {
                int64_t v = (int64_t)r.below(101);
                for (auto& x : w.second)
                    t.vals[x.first][x.second] =
                        vt_bits(f.maps[x.first].fields[x.second].type, v);
            }
        }
    }
    return f;
}

inline Trace to_trace(File const& f, Tr const& t)
{
    std::unordered_map<std::string, Value> h;
    for (auto& kv : f.header(t)) h[kv.first] = kv.second;
    return Trace(h, f.samples(t));
}

struct Writer {
    std::unique_ptr<OSEGYRev0> r0;
    std::unique_ptr<OSEGYRev1> r1;
    std::unique_ptr<OSEGYRev2> r2;
    Writer(int rev, std::string const& p, std::vector<std::string> texts, BH bh,
           std::vector<std::string> stanzas, LibMaps maps)
    {
        if (rev == 0)
            r0 = std::make_unique<OSEGYRev0>(p, texts.empty() ? "" : texts[0], bh, maps);
        else if (rev == 1)
            r1 = std::make_unique<OSEGYRev1>(p, texts, bh, maps);
        else
            r2 = std::make_unique<OSEGYRev2>(p, texts, bh, stanzas, maps);
    }
    Writer(std::string const& p, File const& f)
        : Writer(f.bh.SEGY_rev_major_ver, p, f.texts, f.bh, f.stanzas, lib(f.maps))
    {
    }
    void write(Trace& t)
    {
        if (r0) r0->write_trace(t);
        else if (r1) r1->write_trace(t);
        else r2->write_trace(t);
    }
};
inline void write_lib(std::string const& p, File const& f)
{
    Writer w(p, f);
    for (auto& t : f.traces) {
        Trace tr = to_trace(f, t);
        w.write(tr);
    }
}
// ------------------------------------------------- large numbers of pieces
inline Bytes numbered_text(uint64_t seed, size_t i)
{
    Bytes b(3200, ' ');
    Rng r(seed + i * 7919);
    for (size_t k = 0; k < b.size(); k += 8) {
        uint64_t x = r.next();
        memcpy(&b[k], &x, 8);
    }
    b.replace(0, 9, cat("C", 10000000 + i));
    return b;
}
// small traces with a counter, a group number and a common value
inline File gen_many(Gen& g, size_t texts, size_t stanzas, size_t traces, bool neg)
{
    File f;
    f.le = g.choice(1);
    Format const& fm = g.pick(formats());
    BH& h = f.bh;
    int rev = stanzas ? 2 : texts > 1 ? 1 + (int)g.choice(1) : (int)g.choice(2);
    h.endianness = f.le ? MARK_LE : MARK_BE;
    h.format_code = (int16_t)fm.code;
    h.samp_int = 2000;
    h.SEGY_rev_major_ver = (uint8_t)rev;
    h.fixed_tr_length = 1;
    f.fixed = true;
    size_t n = traces > 2000 ? g.choice(2) : g.choice(9);
    h.samp_per_tr = (int16_t)n;
    f.maps = { { "HDR00000", { { 0, "K_A", VT::int32_t }, { 8, "K_B", VT::int16_t },
                               { 100, "K_C", VT::ieee_double } } } };
    uint64_t seed = g.choice(0xffffffff);
    for (size_t i = 0; i < texts; ++i) f.texts.push_back(numbered_text(seed, i));
    for (size_t i = 0; i < stanzas; ++i) f.stanzas.push_back(numbered_text(~seed, i));
    h.ext_text_headers_num = (int16_t)(texts - 1);
    h.num_of_trailer_stanza = (int32_t)stanzas;
    if (neg && texts > 1 && g.choice(1)) {
        h.ext_text_headers_num = -1;
        f.texts.back().replace(0, 16, end_text());
    }
    if (neg && stanzas && traces && g.choice(1)) {
        h.num_of_trailer_stanza = -1;
        h.num_of_tr_in_file = traces;
        f.stanzas.back().replace(0, 16, end_text());
    }
    size_t groups = 1 + (g.choice(1) ? g.choice(5) : g.choice(1000));
    Rng r(seed);
    for (size_t i = 0; i < traces; ++i) {
        Tr t;
        for (size_t k = 0; k < n; ++k) {
            uint64_t v = r.below(100);
            t.raw.push_back(fm.kind == IBM ? ibm_bits((double)v)
                : fm.kind == F32 ? f32_bits((float)v)
                : fm.kind == F64 ? f64_bits((double)v) : v);
        }
        t.vals = { { (uint32_t)(i - 1000), (uint16_t)(r.below(groups) - 3),
                     f64_bits((double)(i / 3)) } };
        t.fill = { Bytes(240, '\0') };
        f.traces.push_back(std::move(t));
    }
    g.describe(cat("rev", rev, f.le ? " LE" : " BE", " format ", fm.code, ", ", texts, "(",
                   h.ext_text_headers_num, ") texts, ", stanzas, "(",
                   h.num_of_trailer_stanza, ") stanzas, ", traces, " traces of ", n,
                   " samples"));
    return f;
}
// traces preceded by many headers, each with a map of its own
// variable length traces whose 16-bit count is unsigned: up to 65535 samples
inline File gen_long_counts(Gen& g)
{
    static std::vector<size_t> const edges { 0, 1, 127, 128, 255, 256, 32766, 32767,
        32768, 32769, 40000, 49152, 65534, 65535 };
    File f;
    Rng r = g.sub();
    f.le = g.choice(1);
    Format const& fm = g.pick(formats());
    BH& h = f.bh;
    h.endianness = f.le ? MARK_LE : MARK_BE;
    h.format_code = (int16_t)fm.code;
    h.samp_int = 500;
    h.SEGY_rev_major_ver = 2;
    f.fixed = false;
    f.maps = { { "HDR00000", { { 4, "K0", VT::int32_t }, { 114, "SAMP_NUM", VT::uint16_t } } } };
    f.texts.push_back(numbered_text(r.next(), 0));
    size_t ntr = 1 + g.choice(3), nst = g.choice(3);
    for (size_t i = 0; i < nst; ++i) f.stanzas.push_back(numbered_text(r.next(), i));
    h.num_of_trailer_stanza = (int32_t)nst;
    if (nst && g.chance(70)) {
        h.num_of_trailer_stanza = -1;
        h.num_of_tr_in_file = ntr;
        f.stanzas.back().replace(0, 16, end_text());
    }
    size_t longest = 0;
    for (size_t i = 0; i < ntr; ++i) {
        Tr t;
        size_t n = g.chance(70) ? g.pick(edges) : g.choice(65535);
        longest = std::max(longest, n);
        t.raw = gen_samples(g, fm, n, true);
        t.vals = { { g.pattern(32), n } };
        t.fill.push_back(gen_block(g, 240));
        f.traces.push_back(std::move(t));
    }
    if (longest > 32767) g.tag("more than 32767 samples");
    g.tag(h.num_of_trailer_stanza < 0 ? "stanzas -1" : nst ? "stanzas" : "no stanzas");
    g.describe(cat(f.le ? "LE" : "BE", " format ", fm.code, ", ", ntr, " traces, longest ",
                   longest, ", ", nst, "(", h.num_of_trailer_stanza, ") stanzas"));
    return f;
}
inline File gen_many_headers(Gen& g, bool neg)
{
    static std::vector<size_t> const counts { 8, 15, 16, 100, 126, 127, 128, 129,
        254, 255, 256, 257, 300, 511, 512, 700 };
    File f;
    f.le = g.choice(1);
    Format const& fm = g.pick(formats());
    size_t add = g.pick(counts), ntr = 1 + g.choice(3);
    bool variable = g.choice(1);
    BH& h = f.bh;
    h.endianness = f.le ? MARK_LE : MARK_BE;
    h.format_code = (int16_t)fm.code;
    h.samp_int = 500;
    h.SEGY_rev_major_ver = 2;
    h.fixed_tr_length = variable ? 0 : 1;
    h.max_num_add_tr_headers = (int32_t)add;
    f.fixed = !variable;
    size_t fix = g.choice(9);
    h.ext_samp_per_tr = variable ? 0 : (int32_t)fix;
    f.maps = { { "HDR00000", { { 4, "K0", VT::int32_t }, { 114, "N16", VT::int16_t } } },
               { "HDR00001", { { 136, "SAMP_NUM", VT::int32_t },
                               { 156, "ADD_NUM", VT::uint16_t } } } };
    static VT const types[] = { VT::int8_t, VT::uint16_t, VT::int24_t, VT::uint32_t,
        VT::int64_t, VT::ieee_single, VT::ieee_double };
    Rng r = g.sub();
    for (size_t m = 2; m <= add; ++m) {
        VT ty = types[r.below(7)];
        f.maps.push_back({ cat("H", 1000000 + m),
            { { (uint32_t)r.below(241 - vt_size(ty)), cat("K", m), ty } } });
    }
    f.texts.push_back(numbered_text(r.next(), 0));
    size_t nst = g.choice(2);
    for (size_t i = 0; i < nst; ++i) f.stanzas.push_back(numbered_text(r.next(), i));
    h.num_of_trailer_stanza = (int32_t)nst;
    if (neg && nst && g.chance(70)) {
        h.num_of_trailer_stanza = -1;
        h.num_of_tr_in_file = ntr;
        f.stanzas.back().replace(0, 16, end_text());
    }
    bool stated = g.choice(1);
    for (size_t i = 0; i < ntr; ++i) {
        Tr t;
        size_t n = variable ? g.choice(9) : fix;
        t.raw = gen_samples(g, fm, n, true);
        for (auto& m : f.maps) {
            t.vals.emplace_back();
            for (auto& x : m.fields)
                t.vals.back().push_back(vt_canonical(x.type, r.pattern(vt_size(x.type) * 8)));
            t.fill.push_back(Bytes(240, '\0'));
        }
        t.vals[0][1] = n;
        t.vals[1] = { n, stated ? add : 0 };
        f.traces.push_back(std::move(t));
    }
    g.tag(cat(add, " additional headers"));
    g.describe(cat(f.le ? "LE" : "BE", " format ", fm.code, variable ? " variable, " : " fixed, ",
                   add, " additional headers", stated ? " (stated), " : ", ", ntr, " traces, ",
                   nst, "(", h.num_of_trailer_stanza, ") stanzas"));
    return f;
}
inline size_t many_texts(Gen& g, bool stanza)
{
    static std::vector<size_t> const n { 126, 127, 128, 129, 255, 256, 257, 300, 511, 1000 };
    static std::vector<size_t> const big { 32766, 32767, 32768, 33000 };
    if (g.chance(4)) return stanza ? g.pick(big) : big[g.choice(1)];
    return g.pick(n);
}
inline size_t many_traces(Gen& g)
{
    static std::vector<size_t> const n { 254, 255, 256, 257, 1000, 4095, 4096, 9999, 10000,
        32766, 32767, 32768, 32769 };
    static std::vector<size_t> const big { 65535, 65536, 65537, 70000 };
    return g.chance(25) ? g.pick(big) : g.pick(n);
}
} // namespace ref
