// Independent reference model of SEG-D (rev 0 to 3): field tables, encoder,
// decoder, generators.  Shares no code with the library; only its public types.
#pragma once
#include "segy_ref.hpp"
#include "CommonSEGD.hpp"
#include "ISEGD.hpp"
#include "OSEGDRev2_1.hpp"
#include <algorithm>

namespace segd {
using namespace ref;
using sedaman::CommonSEGD;
using sedaman::ISEGD;
using sedaman::OSEGDRev2_1;
using GH = CommonSEGD::GeneralHeader;
using GH2 = CommonSEGD::GeneralHeader2;
using GH3 = CommonSEGD::GeneralHeader3;
using GHN = CommonSEGD::GeneralHeaderN;
using CS = CommonSEGD::ChannelSetHeader;
using AddHdr = CommonSEGD::AdditionalGeneralHeader;
using ExtMaps = std::vector<std::map<uint32_t, std::pair<std::string, VT>>>;
using Num = long double; // 64 bit mantissa: holds every field exactly

// ------------------------------------------------------------- field encoding
inline int nib(Bytes const& b, size_t i)
{
    return (unsigned char)b[i / 2] >> (i % 2 ? 0 : 4) & 15;
}
inline void put_nib(Bytes& b, size_t i, int v)
{
    unsigned char& c = (unsigned char&)b[i / 2];
    c = i % 2 ? (c & 0xf0) | v : (c & 0x0f) | v << 4;
}
inline void put_bcd(Bytes& b, size_t pos, int n, uint64_t v)
{
    for (int i = n - 1; i >= 0; --i, v /= 10) put_nib(b, pos + i, (int)(v % 10));
}
enum Enc {
    BCD,   // pos, n in nibbles
    BIN,   // big endian unsigned, pos, n in bytes
    SGN,   // big endian two's complement
    FIXU,  // u24 + u16 / 65536
    FIXS,  // i24 + u16 / 65536
    FRAC,  // u8 / 16
    TWICE, // u16 * 2
    SMAG,  // u16: sign and magnitude / 1024
    POW2   // nibble: 2^n
};
inline Num dec(Bytes const& b, Enc e, int pos, int n)
{
    switch (e) {
    case BCD: {
        Num v = 0;
        for (int i = 0; i < n; ++i) v = v * 10 + nib(b, pos + i);
        return v;
    }
    case BIN: return (Num)get(b, pos, n, false);
    case SGN: return (Num)sext(get(b, pos, n, false), n * 8);
    case FIXU: return (Num)get(b, pos, 3, false) + (Num)get(b, pos + 3, 2, false) / 65536;
    case FIXS: return (Num)sext(get(b, pos, 3, false), 24) + (Num)get(b, pos + 3, 2, false) / 65536;
    case FRAC: return (Num)get(b, pos, 1, false) / 16;
    case TWICE: return (Num)get(b, pos, 2, false) * 2;
    case SMAG: {
        uint64_t v = get(b, pos, 2, false);
        return (v & 0x8000 ? -1 : 1) * (Num)(v & 0x7fff) / 1024;
    }
    case POW2: return (Num)(1 << nib(b, pos));
    }
    return 0;
}
// random content of a field; BCD digits are digits, or all F when `escape`
inline void rnd(Gen& g, Bytes& b, Enc e, int pos, int n, bool escape = false)
{
    switch (e) {
    case BCD: {
        if (n == 1) {
            put_nib(b, pos, (int)g.choice(15));
            break;
        }
        if (escape && g.chance(10)) {
            for (int i = 0; i < n; ++i) put_nib(b, pos + i, 15);
            break;
        }
        int64_t hi = 1;
        for (int i = 0; i < n; ++i) hi *= 10;
        put_bcd(b, pos, n, (uint64_t)g.edgy(0, hi - 1));
        break;
    }
    case POW2: put_nib(b, pos, (int)g.choice(9)); break;
    case FRAC: put(b, pos, g.pattern(8), 1, false); break;
    case TWICE:
    case SMAG: put(b, pos, g.pattern(16), 2, false); break;
    case FIXU:
    case FIXS:
        put(b, pos, g.pattern(24), 3, false);
        put(b, pos + 3, g.pattern(16), 2, false);
        break;
    default: put(b, pos, g.pattern(n * 8), n, false);
    }
}
// Type-erased on purpose: compiles several times faster than templates.
struct Fld {
    char const* name;
    Enc enc;
    int pos, n;
    Num (*get)(void*);
    void (*set)(void*, Num);
};
template <class H> using Table = std::vector<Fld>;
#define FLD(H, m, enc, pos, n)                                                 \
    Fld { #m, enc, pos, n, [](void* h) { return (Num)((H*)h)->m; },            \
          [](void* h, Num v) { ((H*)h)->m = (decltype(H::m))v; } }
struct Txt {
    char const* name;
    int pos, n;
    char* (*at)(void*);
    int size;
};
#define TXT(H, m, pos, n)                                                      \
    Txt { #m, pos, n, [](void* h) { return (char*)((H*)h)->m; }, (int)sizeof(((H*)0)->m) }

inline void check_fields_v(std::vector<Fld> const& t, void* h, Bytes const& raw,
                           std::string const& what)
{
    for (auto& f : t) {
        Num want = dec(raw, f.enc, f.pos, f.n), got = f.get(h);
        CHECK(want == got, what, ": ", f.name, " is ", got, " instead of ", want,
              " raw ", hex(raw, 96));
    }
}
template <class H> void check_fields(std::vector<Fld> const& t, H h, Bytes const& raw,
                                     std::string const& what)
{
    check_fields_v(t, &h, raw, what);
}
template <class H> void fill(std::vector<Fld> const& t, H& h, Bytes const& raw)
{
    for (auto& f : t) f.set(&h, dec(raw, f.enc, f.pos, f.n));
}

__attribute__((no_sanitize("address"))) inline Table<GH> const& gh1_table()
{
    static Table<GH> const t {
        FLD(GH, file_number, BCD, 0, 4), FLD(GH, format_code, BCD, 4, 4),
        FLD(GH, gen_const, BCD, 8, 12), FLD(GH, year, BCD, 20, 2),
        FLD(GH, add_gen_hdr_blocks, BCD, 22, 1), FLD(GH, day, BCD, 23, 3),
        FLD(GH, hour, BCD, 26, 2), FLD(GH, minute, BCD, 28, 2),
        FLD(GH, second, BCD, 30, 2), FLD(GH, manufac_code, BCD, 32, 2),
        FLD(GH, manufac_num, BCD, 34, 4), FLD(GH, bytes_per_scan, BCD, 38, 6),
        FLD(GH, base_scan_int, FRAC, 22, 1), FLD(GH, polarity, BCD, 46, 1),
        FLD(GH, record_type, BCD, 50, 1), FLD(GH, record_length, BCD, 51, 3),
        FLD(GH, scan_types_per_record, BCD, 54, 2),
        FLD(GH, channel_sets_per_scan_type, BCD, 56, 2),
        FLD(GH, skew_blocks, BCD, 58, 2), FLD(GH, extended_hdr_blocks, BCD, 60, 2),
        FLD(GH, external_hdr_blocks, BCD, 62, 2),
    };
    return t;
}
inline Num scans_per_block(Bytes const& raw)
{
    return (Num)((uint64_t)(unsigned char)raw[24] << nib(raw, 47));
}
inline void check_gh1(GH h, Bytes const& raw)
{
    check_fields(gh1_table(), h, raw, "general header 1");
    CHECK((Num)h.scans_per_block == scans_per_block(raw), "scans per block ",
          h.scans_per_block, " raw ", hex(raw));
}
__attribute__((no_sanitize("address"))) inline Table<GH2> const& gh2_table(bool rev3)
{
    static Table<GH2> const t2 {
        FLD(GH2, expanded_file_num, BIN, 0, 3),
        FLD(GH2, ext_ch_sets_per_scan_type, BIN, 3, 2),
        FLD(GH2, extended_hdr_blocks, BIN, 5, 2),
        FLD(GH2, external_hdr_blocks, BIN, 7, 2),
        FLD(GH2, segd_rev_major, BIN, 10, 1), FLD(GH2, segd_rev_minor, BIN, 11, 1),
        FLD(GH2, gen_trailer_num_of_blocks, BIN, 12, 2),
        FLD(GH2, ext_record_len, BIN, 14, 3), FLD(GH2, gen_hdr_block_num, BIN, 18, 1),
        FLD(GH2, sequence_number, BIN, 20, 2),
    };
    static Table<GH2> const t3 {
        FLD(GH2, expanded_file_num, BIN, 0, 3),
        FLD(GH2, ext_ch_sets_per_scan_type, BIN, 3, 2),
        FLD(GH2, extended_hdr_blocks, BIN, 5, 3),
        FLD(GH2, extended_skew_blocks, BIN, 8, 2),
        FLD(GH2, segd_rev_major, BIN, 10, 1), FLD(GH2, segd_rev_minor, BIN, 11, 1),
        FLD(GH2, gen_trailer_num_of_blocks, BIN, 12, 4),
        FLD(GH2, ext_record_len, BIN, 16, 4), FLD(GH2, record_set_number, BIN, 20, 2),
        FLD(GH2, ext_num_add_blks_in_gen_hdr, BIN, 22, 2),
        FLD(GH2, dominant_sampling_int, BIN, 24, 3),
        FLD(GH2, external_hdr_blocks, BIN, 27, 3), FLD(GH2, gen_hdr_block_num, BIN, 31, 1),
    };
    return rev3 ? t3 : t2;
}
__attribute__((no_sanitize("address"))) inline Table<GH3> const& gh3_table()
{
    static Table<GH3> const t {
        FLD(GH3, time_zero, BIN, 0, 8), FLD(GH3, record_size, BIN, 8, 8),
        FLD(GH3, data_size, BIN, 16, 8), FLD(GH3, header_size, BIN, 24, 4),
        FLD(GH3, extd_rec_mode, BIN, 28, 1), FLD(GH3, rel_time_mode, BIN, 29, 1),
        FLD(GH3, gen_hdr_block_num, BIN, 31, 1),
    };
    return t;
}
__attribute__((no_sanitize("address"))) inline Table<GHN> const& ghn_table()
{
    static Table<GHN> const t {
        FLD(GHN, expanded_file_number, BIN, 0, 3), FLD(GHN, sou_line_num, FIXS, 3, 5),
        FLD(GHN, sou_point_num, FIXS, 8, 5), FLD(GHN, sou_point_index, BIN, 13, 1),
        FLD(GHN, phase_control, BIN, 14, 1), FLD(GHN, type_vibrator, BIN, 15, 1),
        FLD(GHN, phase_angle, SGN, 16, 2), FLD(GHN, gen_hdr_block_num, BIN, 18, 1),
        FLD(GHN, sou_set_num, BIN, 19, 1),
    };
    return t;
}
__attribute__((no_sanitize("address"))) inline Table<CS> const& cs_table(bool rev3)
{
    static Table<CS> const t2 {
        FLD(CS, scan_type_number, BCD, 0, 2), FLD(CS, channel_set_number, BCD, 2, 2),
        FLD(CS, channel_set_start_time, TWICE, 2, 2),
        FLD(CS, channel_set_end_time, TWICE, 4, 2), FLD(CS, descale_multiplier, SMAG, 6, 2),
        FLD(CS, number_of_channels, BCD, 16, 4), FLD(CS, channel_type, BCD, 20, 1),
        FLD(CS, subscans_per_ch_set, POW2, 22, 1), FLD(CS, channel_gain, BCD, 23, 1),
        FLD(CS, alias_filter_freq, BCD, 24, 4), FLD(CS, alias_filter_slope, BCD, 28, 4),
        FLD(CS, low_cut_filter_freq, BCD, 32, 4), FLD(CS, low_cut_filter_slope, BCD, 36, 4),
        FLD(CS, first_notch_filter, BCD, 40, 4), FLD(CS, second_notch_filter, BCD, 44, 4),
        FLD(CS, third_notch_filter, BCD, 48, 4), FLD(CS, ext_ch_set_num, BIN, 26, 2),
        FLD(CS, ext_hdr_flag, BCD, 56, 1), FLD(CS, trc_hdr_ext, BCD, 57, 1),
        FLD(CS, vert_stack, BIN, 29, 1), FLD(CS, streamer_no, BIN, 30, 1),
        FLD(CS, array_forming, BIN, 31, 1),
    };
    static Table<CS> const t3 {
        FLD(CS, scan_type_number, BCD, 0, 2), FLD(CS, channel_set_number, BIN, 1, 2),
        FLD(CS, channel_type, BIN, 3, 1), FLD(CS, channel_set_start_time, BIN, 4, 4),
        FLD(CS, channel_set_end_time, BIN, 8, 4), FLD(CS, descale_multiplier, BIN, 16, 4),
        FLD(CS, number_of_channels, BIN, 20, 3), FLD(CS, array_forming, BIN, 26, 1),
        FLD(CS, trc_hdr_ext, BIN, 27, 1), FLD(CS, ext_hdr_flag, BCD, 56, 1),
        FLD(CS, channel_gain, BCD, 57, 1), FLD(CS, vert_stack, BIN, 29, 1),
        FLD(CS, streamer_no, BIN, 30, 1), FLD(CS, alias_filter_freq, BIN, 32, 4),
        FLD(CS, low_cut_filter_freq, BIN, 36, 4), FLD(CS, alias_filter_slope, BIN, 40, 4),
        FLD(CS, low_cut_filter_slope, BIN, 44, 4), FLD(CS, first_notch_filter, BIN, 48, 4),
        FLD(CS, second_notch_filter, BIN, 52, 4), FLD(CS, third_notch_filter, BIN, 56, 4),
    };
    return rev3 ? t3 : t2;
}
inline void check_cs(CS h, Bytes const& raw, bool rev3, std::string const& what)
{
    check_fields(cs_table(rev3), h, raw, what);
    CHECK(h.number_of_samples().has_value() == rev3 && h.samp_int().has_value() == rev3 &&
              h.filter_phase().has_value() == rev3 && h.physical_unit().has_value() == rev3 &&
              h.filter_delay().has_value() == rev3 && h.description().has_value() == rev3,
          what, ": presence of revision 3 fields, rev3 = ", rev3);
    if (!rev3) return;
    CHECK(*h.number_of_samples() == get(raw, 12, 4, false), what, " number of samples");
    CHECK(*h.samp_int() == get(raw, 23, 3, false), what, " sample interval");
    CHECK(*h.filter_phase() == get(raw, 60, 1, false), what, " filter phase");
    CHECK(*h.physical_unit() == get(raw, 61, 1, false), what, " physical unit");
    CHECK(*h.filter_delay() == get(raw, 64, 4, false), what, " filter delay ",
          *h.filter_delay(), " raw ", hex(raw, 96));
    CHECK(memcmp(h.description()->data(), raw.data() + 68, 27) == 0, what, " description");
}
inline CS to_cs(Bytes const& raw)
{
    CS h(0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);
    fill(cs_table(false), h, raw);
    return h;
}

// ------------------------------------------------------------- rev 3 blocks
struct BlockKind {
    int type;
    char const* name;
    std::vector<Fld> flds;
    std::vector<Txt> txts;
    std::function<std::shared_ptr<void>(ISEGD&)> get; // null: absent
    std::function<std::shared_ptr<AddHdr>()> object;
    Bytes make(Gen& g) const
    {
        Bytes b(32, '\0');
        Rng r = g.sub();
        for (auto& c : b) c = (char)r.next();
        for (auto& f : flds) rnd(g, b, f.enc, f.pos, f.n);
        b[31] = (char)type;
        return b;
    }
    bool present(ISEGD& s) const { return !!get(s); }
    void check(ISEGD& s, Bytes const& raw) const
    {
        auto o = get(s);
        CHECK(o, name, " block is not reported");
        check_fields_v(flds, o.get(), raw, name);
        for (auto& t : txts) {
            CHECK(t.size == t.n, name, ": size of ", t.name, " is ", t.size);
            CHECK(memcmp(t.at(o.get()), raw.data() + t.pos, t.n) == 0, name, ": ", t.name,
                  " is ", hex(Bytes(t.at(o.get()), t.n)), " raw ", hex(raw));
        }
    }
};
template <class H>
BlockKind kind(int type, char const* name, std::optional<H> (ISEGD::*getter)(),
               std::vector<Fld> flds, std::vector<Txt> txts = {})
{
    flds.push_back(FLD(H, gen_hdr_block_type, BIN, 31, 1));
    return { type, name, flds, txts,
             [getter](ISEGD& s) -> std::shared_ptr<void> {
                 auto o = (s.*getter)();
                 if (!o) return nullptr;
                 return std::make_shared<H>(*o);
             },
             [type]() -> std::shared_ptr<AddHdr> {
                 auto p = std::make_shared<H>();
                 p->gen_hdr_block_type = (uint8_t)type;
                 return p;
             } };
}
#define SRC_HEAD(H)                                                            \
    FLD(H, expanded_file_number, BIN, 0, 3), FLD(H, sou_line_num, FIXU, 3, 5), \
        FLD(H, sou_point_num, FIXU, 8, 5), FLD(H, sou_point_index, BIN, 13, 1)
#define SRC_TAIL(H)                                                            \
    FLD(H, source_id, BIN, 18, 1), FLD(H, source_set_num, BIN, 19, 1),         \
        FLD(H, reshoot_idx, BIN, 20, 1), FLD(H, group_idx, BIN, 21, 1),        \
        FLD(H, depth_idx, BIN, 22, 1), FLD(H, offset_crossline, BIN, 23, 2),   \
        FLD(H, offset_inline, BIN, 25, 2), FLD(H, size, BIN, 27, 2),           \
        FLD(H, offset_depth, BIN, 29, 2)
__attribute__((no_sanitize("address"), optimize("O0"))) inline std::vector<BlockKind> const& kinds()
{
    using C = CommonSEGD;
    using Ves = C::GeneralHeaderVes;
    using Sur = C::GeneralHeaderSur;
    using Cli = C::GeneralHeaderCli;
    using Job = C::GeneralHeaderJob;
    using Lin = C::GeneralHeaderLin;
    using Vib = C::GeneralHeaderVib;
    using Exp = C::GeneralHeaderExp;
    using Air = C::GeneralHeaderAir;
    using Wat = C::GeneralHeaderWat;
    using Ele = C::GeneralHeaderEle;
    using Oth = C::GeneralHeaderOth;
    using Add = C::GeneralHeaderAdd;
    using Saux = C::GeneralHeaderSaux;
    using Coord = C::GeneralHeaderCoord;
    using Pos1 = C::GeneralHeaderPos1;
    using Pos2 = C::GeneralHeaderPos2;
    using Pos3 = C::GeneralHeaderPos3;
    using Rel = C::GeneralHeaderRel;
    using Sen = C::GeneralHeaderSen;
    using SCa = C::GeneralHeaderSCa;
    using Tim = C::GeneralHeaderTim;
    using ElSR = C::GeneralHeaderElSR;
    using Ori = C::GeneralHeaderOri;
    using Meas = C::GeneralHeaderMeas;
    static std::vector<BlockKind> const k {
        kind<Ves>(0x10, "vessel", &ISEGD::general_header_vessel_crew_id, {},
                  { TXT(Ves, abbr_vessel_crew_name, 0, 3), TXT(Ves, vessel_crew_name, 3, 28) }),
        kind<Sur>(0x11, "survey", &ISEGD::general_header_survey_name, {},
                  { TXT(Sur, survey_area_name, 0, 31) }),
        kind<Cli>(0x12, "client", &ISEGD::general_header_client_name, {},
                  { TXT(Cli, client_name, 0, 31) }),
        kind<Job>(0x13, "job", &ISEGD::general_header_job_id, {},
                  { TXT(Job, abbr_job_id, 0, 5), TXT(Job, job_id, 5, 26) }),
        kind<Lin>(0x14, "line", &ISEGD::general_header_line_id, {},
                  { TXT(Lin, line_abbr, 0, 7), TXT(Lin, line_id, 7, 24) }),
        kind<Vib>(0x15, "vibrator", &ISEGD::general_header_vibrator_info,
                  { SRC_HEAD(Vib), FLD(Vib, phase_control, BIN, 14, 1),
                    FLD(Vib, type_vibrator, BIN, 15, 1), FLD(Vib, phase_angle, SGN, 16, 2),
                    SRC_TAIL(Vib) }),
        kind<Exp>(0x16, "explosive", &ISEGD::general_header_explosive_info,
                  { SRC_HEAD(Exp), FLD(Exp, depth, BIN, 14, 2),
                    FLD(Exp, charge_length, BIN, 16, 1), FLD(Exp, soil_type, BIN, 17, 1),
                    SRC_TAIL(Exp) }),
        kind<Air>(0x17, "airgun", &ISEGD::general_header_airgun_info,
                  { SRC_HEAD(Air), FLD(Air, depth, BIN, 14, 2),
                    FLD(Air, air_pressure, BIN, 16, 2), SRC_TAIL(Air) }),
        kind<Wat>(0x18, "watergun", &ISEGD::general_header_watergun_info,
                  { SRC_HEAD(Wat), FLD(Wat, depth, BIN, 14, 2),
                    FLD(Wat, air_pressure, BIN, 16, 2), SRC_TAIL(Wat) }),
        kind<Ele>(0x19, "electromagnetic", &ISEGD::general_header_electromagnetic_info,
                  { SRC_HEAD(Ele), FLD(Ele, source_type, BIN, 14, 1),
                    FLD(Ele, moment, BIN, 15, 3), SRC_TAIL(Ele) }),
        kind<Oth>(0x1f, "other source", &ISEGD::general_header_other_source_info,
                  { SRC_HEAD(Oth), SRC_TAIL(Oth) }),
        kind<Add>(0x20, "additional source", &ISEGD::general_header_add_source_info,
                  { FLD(Add, time, BIN, 0, 8), FLD(Add, source_status, BIN, 8, 1),
                    FLD(Add, source_id, BIN, 9, 1), FLD(Add, source_moving, BIN, 10, 1) },
                  { TXT(Add, error_description, 11, 20) }),
        kind<Saux>(0x21, "source auxiliary", &ISEGD::general_header_sou_aux_chan_ref,
                   { FLD(Saux, source_id, BIN, 0, 1),
                     FLD(Saux, scan_type_num_1, BCD, 2, 2), FLD(Saux, ch_set_num_1, BIN, 2, 2),
                     FLD(Saux, trace_num_1, BIN, 4, 3),
                     FLD(Saux, scan_type_num_2, BCD, 14, 2), FLD(Saux, ch_set_num_2, BIN, 8, 2),
                     FLD(Saux, trace_num_2, BIN, 10, 3),
                     FLD(Saux, scan_type_num_3, BCD, 26, 2), FLD(Saux, ch_set_num_3, BIN, 14, 2),
                     FLD(Saux, trace_num_3, BIN, 16, 3),
                     FLD(Saux, scan_type_num_4, BCD, 38, 2), FLD(Saux, ch_set_num_4, BIN, 20, 2),
                     FLD(Saux, trace_num_4, BIN, 22, 3),
                     FLD(Saux, scan_type_num_5, BCD, 50, 2), FLD(Saux, ch_set_num_5, BIN, 26, 2),
                     FLD(Saux, trace_num_5, BIN, 28, 3) }),
        kind<Sen>(0x41, "sensor", &ISEGD::general_header_sen_info_hdr_ext_blk,
                  { FLD(Sen, instrument_test_time, BIN, 0, 8),
                    FLD(Sen, sensor_sensitivity, BIN, 8, 4),
                    FLD(Sen, instr_test_result, BIN, 12, 1) },
                  { TXT(Sen, serial_number, 13, 18) }),
        kind<SCa>(0x43, "calibration", &ISEGD::general_header_sen_calib_blk,
                  { FLD(SCa, freq1, BIN, 0, 4), FLD(SCa, amp1, BIN, 4, 4),
                    FLD(SCa, phase1, BIN, 8, 4), FLD(SCa, freq2, BIN, 12, 4),
                    FLD(SCa, amp2, BIN, 16, 4), FLD(SCa, phase2, BIN, 20, 4),
                    FLD(SCa, calib_applied, BIN, 24, 1) }),
        kind<Tim>(0x44, "time drift", &ISEGD::general_header_time_drift_blk,
                  { FLD(Tim, time_of_depl, BIN, 0, 8), FLD(Tim, time_of_retr, BIN, 8, 8),
                    FLD(Tim, timer_offset_depl, BIN, 16, 4),
                    FLD(Tim, time_offset_retr, BIN, 20, 4),
                    FLD(Tim, timedrift_corr, BIN, 24, 1), FLD(Tim, corr_method, BIN, 25, 1) }),
        kind<ElSR>(0x45, "source receiver", &ISEGD::general_header_elemag_src_rec_desc_blk,
                   { FLD(ElSR, equip_dim_x, BIN, 0, 3), FLD(ElSR, equip_dim_y, BIN, 3, 3),
                     FLD(ElSR, equip_dim_z, BIN, 6, 3), FLD(ElSR, pos_term, BIN, 9, 1),
                     FLD(ElSR, equip_offset_x, BIN, 10, 3), FLD(ElSR, equip_offset_y, BIN, 13, 3),
                     FLD(ElSR, equip_offset_z, BIN, 16, 3) }),
        kind<Pos1>(0x50, "position 1", &ISEGD::general_header_position_blk_1,
                   { FLD(Pos1, time_of_position, BIN, 0, 8),
                     FLD(Pos1, time_of_measurement, BIN, 8, 8), FLD(Pos1, vert_error, BIN, 16, 4),
                     FLD(Pos1, hor_error_semi_major, BIN, 20, 4),
                     FLD(Pos1, hor_error_semi_minor, BIN, 24, 4),
                     FLD(Pos1, hor_error_orientation, BIN, 28, 2),
                     FLD(Pos1, position_type, BIN, 30, 1) }),
        kind<Pos2>(0x51, "position 2", &ISEGD::general_header_position_blk_2,
                   { FLD(Pos2, crs_a_coord1, BIN, 0, 8), FLD(Pos2, crs_a_coord2, BIN, 8, 8),
                     FLD(Pos2, crs_a_coord3, BIN, 16, 8), FLD(Pos2, crs_a_crsref, BIN, 24, 2),
                     FLD(Pos2, pos1_valid, BIN, 26, 1), FLD(Pos2, pos1_quality, BIN, 27, 1) }),
        kind<Pos3>(0x52, "position 3", &ISEGD::general_header_position_blk_3,
                   { FLD(Pos3, crs_b_coord1, BIN, 0, 8), FLD(Pos3, crs_b_coord2, BIN, 8, 8),
                     FLD(Pos3, crs_b_coord3, BIN, 16, 8), FLD(Pos3, crs_b_crsref, BIN, 24, 2),
                     FLD(Pos3, pos2_valid, BIN, 26, 1), FLD(Pos3, pos2_quality, BIN, 27, 1) }),
        kind<Coord>(0x55, "coordinate reference", &ISEGD::general_header_coord_ref_blk, {},
                    { TXT(Coord, crs, 0, 31) }),
        kind<Rel>(0x56, "relative position", &ISEGD::general_header_relative_pos_blk,
                  { FLD(Rel, offset_east, BIN, 0, 4), FLD(Rel, offset_north, BIN, 4, 4),
                    FLD(Rel, offset_vert, BIN, 8, 4) },
                  { TXT(Rel, description, 12, 19) }),
        kind<Ori>(0x60, "orientation", &ISEGD::general_header_orient_hdr_blk,
                  { FLD(Ori, rot_x, BIN, 0, 4), FLD(Ori, rot_y, BIN, 4, 4),
                    FLD(Ori, rot_z, BIN, 8, 4), FLD(Ori, ref_orientation, BIN, 12, 4),
                    FLD(Ori, time_stamp, BIN, 16, 8), FLD(Ori, ori_type, BIN, 24, 1),
                    FLD(Ori, ref_orient_valid, BIN, 25, 1), FLD(Ori, rot_applied, BIN, 26, 1),
                    FLD(Ori, rot_north_applied, BIN, 27, 1) }),
        kind<Meas>(0x61, "measurement", &ISEGD::general_header_measurement_blk,
                   { FLD(Meas, timestamp, BIN, 0, 8), FLD(Meas, measurement_value, BIN, 8, 4),
                     FLD(Meas, maximum_value, BIN, 12, 4), FLD(Meas, minimum_value, BIN, 16, 4),
                     FLD(Meas, quantity_class, BIN, 20, 2), FLD(Meas, unit_of_measure, BIN, 22, 2),
                     FLD(Meas, measurement_description, BIN, 24, 2) }),
    };
    return k;
}

// ------------------------------------------------------------ sample formats
struct DFormat {
    int code, bits;
};
inline std::vector<DFormat> const& dformats()
{
    static std::vector<DFormat> const f {
        { 8015, 20 }, { 8022, 8 },  { 8024, 16 }, { 8036, 24 }, { 8038, 32 },
        { 8042, 8 },  { 8044, 16 }, { 8048, 32 }, { 8058, 32 }, { 8080, 64 },
        { 9036, 24 }, { 9038, 32 }, { 9058, 32 }, { 9080, 64 },
    };
    return f;
}
inline int dbits(int code)
{
    for (auto& f : dformats())
        if (f.code == code) return f.bits;
    return 0;
}
inline size_t samp_bytes(int code, size_t n)
{
    return code == 8015 ? (n + 3) / 4 * 10 : n * dbits(code) / 8;
}
// sign bit and one's complement fraction of `bits` bits, as a number of units
inline double ones(unsigned v, int bits)
{
    unsigned m = (1u << bits) - 1;
    return v >> bits & 1 ? -(double)(m - (v & m)) : (double)(v & m);
}
inline double sample(int code, Bytes const& b, size_t off, size_t i)
{
    bool le = code >= 9000;
    switch (code) {
    case 8015: {
        size_t q = off + i / 4 * 10, j = i % 4;
        int e = nib(b, q * 2 + j);
        return std::ldexp(ones((unsigned)get(b, q + 2 + 2 * j, 2, false), 15), e - 15);
    }
    case 8022: {
        unsigned v = (unsigned char)b[off + i];
        return std::ldexp(ones((v & 0x80) >> 3 | (v & 15), 4), 2 * (int)(v >> 4 & 7) - 4);
    }
    case 8024: {
        unsigned v = (unsigned)get(b, off + 2 * i, 2, false);
        return std::ldexp(ones((v & 0x8000) >> 3 | (v & 0xfff), 12), 2 * (int)(v >> 12 & 7) - 12);
    }
    case 8042: {
        unsigned v = (unsigned char)b[off + i];
        double f = std::ldexp((double)(v & 31), 4 * (int)(v >> 5 & 3) - 5);
        return v & 0x80 ? -f : f;
    }
    case 8044: {
        unsigned v = (unsigned)get(b, off + 2 * i, 2, false);
        double f = std::ldexp((double)(v & 0x1fff), 4 * (int)(v >> 13 & 3) - 13);
        return v & 0x8000 ? -f : f;
    }
    case 8036:
    case 9036: return (double)sext(get(b, off + 3 * i, 3, le), 24);
    case 8038:
    case 9038: return (double)sext(get(b, off + 4 * i, 4, le), 32);
    case 8048: return ibm_value((uint32_t)get(b, off + 4 * i, 4, false));
    case 8058:
    case 9058: return f32_value((uint32_t)get(b, off + 4 * i, 4, le));
    default: return f64_value(get(b, off + 8 * i, 8, le));
    }
}
// equal up to the rounding of one multiplication by a (possibly irrational)
// power of two
inline bool close(double a, double b)
{
    if (same(a, b)) return true;
    return std::fabs(a - b) <= 4 * std::numeric_limits<double>::epsilon() * std::fabs(b) ||
        (std::fabs(a) < 1e-290 && std::fabs(b) < 1e-290);
}

// ------------------------------------------------------------------- records
struct DTrace {
    Bytes hdr;              // 20 bytes
    std::vector<Bytes> ext; // 32 bytes each
    size_t nsamp = 0;
    Bytes samp;
    int scan = 1, set = 1;
    bool operator==(DTrace const&) const = default;
};
struct Record {
    int major = 0;
    bool has_gh2 = false;
    Bytes gh1, gh2, gh3;
    std::vector<Bytes> blocks; // GHN (rev < 3) or rev 3 blocks
    std::vector<std::vector<Bytes>> sets;
    size_t skew = 0;
    Rng skew_rng { 0 };
    std::vector<Bytes> extd, extl;
    size_t trailer = 0;
    int format = 8058;
    std::vector<DTrace> traces;
    bool rev3() const { return has_gh2 && major > 2; }
    size_t channels() const
    {
        size_t n = 0;
        for (auto& s : sets)
            for (auto& c : s)
                n += (size_t)dec(c, rev3() ? BIN : BCD, rev3() ? 20 : 16, rev3() ? 3 : 4);
        return n;
    }
    Bytes headers() const
    {
        Bytes b = gh1 + gh2 + gh3;
        for (auto& x : blocks) b += x;
        Rng r = skew_rng;
        for (auto& s : sets) {
            for (auto& c : s) b += c;
            for (size_t i = 0; i < skew * 32; ++i) b += skew_rng.s ? (char)r.next() : '\0';
        }
        for (auto& x : extd) b += x;
        for (auto& x : extl) b += x;
        return b;
    }
    Bytes encode() const
    {
        Bytes b = headers();
        for (auto& t : traces) {
            b += t.hdr;
            for (auto& e : t.ext) b += e;
            b += t.samp;
        }
        Rng r { 77 };
        for (size_t i = 0; i < trailer * 32; ++i) b += (char)r.next();
        return b;
    }
};

// ------------------------------------------------------------ extension maps
struct XField {
    uint32_t off;
    std::string key;
    VT type;
};
using XMaps = std::vector<std::vector<XField>>;
inline ExtMaps lib(XMaps const& m)
{
    ExtMaps r;
    for (auto& x : m) {
        r.push_back({});
        for (auto& f : x) r.back()[f.off] = { f.key, f.type };
    }
    return r;
}
inline XMaps from_lib(ExtMaps const& m)
{
    XMaps r;
    for (auto& x : m) {
        r.push_back({});
        for (auto& f : x) r.back().push_back({ f.first, f.second.first, f.second.second });
    }
    return r;
}
inline int xsize(VT t)
{
    switch (t) {
    case VT::int8_t:
    case VT::uint8_t: return 1;
    case VT::int16_t:
    case VT::uint16_t: return 2;
    case VT::int24_t:
    case VT::uint24_t: return 3;
    case VT::int64_t:
    case VT::uint64_t:
    case VT::ieee_double: return 8;
    default: return 4;
    }
}
inline bool xfloat(VT t)
{
    return t == VT::ibm || t == VT::ieee_single || t == VT::ieee_double;
}
inline Value xvalue(Bytes const& b, XField const& f)
{
    int n = xsize(f.type);
    uint64_t v = get(b, f.off, n, false);
    switch (f.type) {
    case VT::ibm: return ibm_value((uint32_t)v);
    case VT::ieee_single: return f32_value((uint32_t)v);
    case VT::ieee_double: return f64_value(v);
    case VT::int8_t:
    case VT::int16_t:
    case VT::int24_t:
    case VT::int32_t:
    case VT::int64_t: return sext(v, n * 8);
    default: return (int64_t)v;
    }
}
inline VT gen_vt(Gen& g)
{
    static std::vector<VT> const v { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t,
                                     VT::int24_t, VT::uint24_t, VT::int32_t, VT::uint32_t,
                                     VT::int64_t, VT::uint64_t, VT::ibm, VT::ieee_single,
                                     VT::ieee_double };
    return g.pick(v);
}
// maps of non-overlapping fields; the number of samples is always among the
// fields of the first one
inline XMaps gen_xmaps(Gen& g)
{
    size_t n = 1 + g.size(6);
    XMaps r;
    int id = 0;
    for (size_t i = 0; i < n; ++i) {
        r.push_back({});
        uint32_t pos = 0;
        if (i == 0) {
            static std::vector<VT> const w { VT::uint24_t, VT::int24_t, VT::int32_t,
                                             VT::uint32_t, VT::int64_t, VT::uint64_t,
                                             VT::uint16_t };
            VT t = g.pick(w);
            pos = (uint32_t)g.choice(24);
            r.back().push_back({ pos, "SAMP_NUM", t });
            pos += xsize(t);
        }
        while (pos < 32 && !g.chance(12)) {
            VT t = gen_vt(g);
            uint32_t gap = g.chance(70) ? 0 : (uint32_t)g.choice(5);
            if (pos + gap + xsize(t) > 32) {
                if (g.chance(50)) break;
                continue;
            }
            r.back().push_back({ pos + gap, cat("K", id++), t });
            pos += gap + xsize(t);
        }
    }
    return r;
}
// number of extension blocks, and maps for some or all of them
inline int many_ext(Gen& g)
{
    static std::vector<int> const n { 8, 15, 16, 31, 32, 99, 100, 127, 128, 129, 200, 254, 255 };
    return g.pick(n);
}
inline XMaps many_xmaps(Gen& g, int ext)
{
    if (g.chance(35)) return {};
    size_t n = g.chance(40) ? (size_t)ext : 1 + g.choice((uint64_t)ext - 1);
    size_t where = g.choice(1) ? n - 1 : g.choice(n - 1); // of the number of samples
    Rng r = g.sub();
    static VT const types[] = { VT::int8_t, VT::uint16_t, VT::int24_t, VT::uint32_t,
                                VT::int64_t, VT::ieee_single, VT::ieee_double };
    XMaps m(n);
    for (size_t i = 0; i < n; ++i) {
        VT t = i == where ? VT::uint24_t : types[r.below(7)];
        m[i].push_back({ (uint32_t)r.below(33 - xsize(t)),
                         i == where ? std::string("SAMP_NUM") : cat("K", i), t });
    }
    return m;
}

// expected trace header
inline HdrVals expect_header(Record const& rec, DTrace const& t, XMaps const& maps)
{
    HdrVals h;
    auto I = [](uint64_t v) { return Value { (int64_t)v }; };
    h["FFID"] = I((uint64_t)dec(t.hdr, BCD, 0, 4));
    h["SCAN_TYPE_NUM"] = I((uint64_t)dec(t.hdr, BCD, 4, 2));
    h["CH_SET_NUM"] = I((uint64_t)dec(t.hdr, BCD, 6, 2));
    h["CHAN"] = I((uint64_t)dec(t.hdr, BCD, 8, 4));
    h["FIRST_TIMING_WORD"] = (double)get(t.hdr, 6, 3, false) / 256;
    h["TR_HDR_EXT"] = I(get(t.hdr, 9, 1, false));
    h["SAMPLE_SKEW"] = (double)get(t.hdr, 10, 1, false) / 256;
    h["TRACE_EDIT"] = I(get(t.hdr, 11, 1, false));
    h["TIME_BREAK_WIN"] = (double)get(t.hdr, 12, 3, false) / 256;
    if (uint64_t v = get(t.hdr, 15, 2, false)) h["CH_SET_NUM"] = I(v);
    if (uint64_t v = get(t.hdr, 17, 3, false)) h["FFID"] = I(v);
    if (maps.empty() && !t.ext.empty()) {
        Bytes const& e = t.ext[0];
        int major = rec.has_gh2 ? rec.major : 0;
        h["R_LINE"] = I(get(e, 0, 3, false));
        h["R_POINT"] = I(get(e, 3, 3, false));
        h["R_POINT_IDX"] = I(get(e, 6, 1, false));
        if (major < 3)
            h["SAMP_NUM"] = I(get(e, 7, 3, false));
        else {
            h["RESHOOT_IDX"] = I(get(e, 7, 1, false));
            h["GROUP_IDX"] = I(get(e, 8, 1, false));
            h["DEPTH_IDX"] = I(get(e, 9, 1, false));
        }
        if (major > 1) {
            double l = (double)dec(e, FIXU, 10, 5), p = (double)dec(e, FIXU, 15, 5);
            if (l != 0) h["R_LINE"] = l;
            if (p != 0) h["R_POINT"] = p;
            h["SENSOR_TYPE"] = I(get(e, 20, 1, false));
        }
        if (major > 2) {
            if (std::get<0>(h["CHAN"]) == 16665) h["CHAN"] = I(get(e, 21, 3, false));
            h["SAMP_NUM"] = I(get(e, 24, 4, false));
            h["SENSOR_MOVING"] = I(get(e, 28, 1, false));
            h["PHYSICAL_UNIT"] = I(get(e, 30, 1, false));
        }
    }
    for (size_t i = 0; i < t.ext.size() && i < maps.size(); ++i)
        for (auto& f : maps[i]) h[f.key] = xvalue(t.ext[i], f);
    return h;
}
inline double descale(Record const& r, int scan, int set)
{
    Bytes const& c = r.sets[scan - 1][set - 1];
    return (double)(r.rev3() ? dec(c, BIN, 16, 4) : dec(c, SMAG, 6, 2));
}
inline void check_header(Trace& t, HdrVals const& want, std::string const& what)
{
    auto keys = t.header().keys();
    for (auto& kv : want) {
        auto v = t.header().get(kv.first);
        CHECK(v.has_value(), what, ": header ", kv.first, " is missing");
        CHECK(same(*v, kv.second), what, ": header ", kv.first, " is ", show(*v),
              " instead of ", show(kv.second));
    }
    if (keys.size() != want.size())
        for (auto& k : keys)
            CHECK(want.count(k), what, ": unexpected header ", k);
    CHECK(keys.size() == want.size(), what, ": ", keys.size(), " keys");
}
inline void check_samples(Record const& rec, DTrace const& d, Trace& t, std::string const& what)
{
    auto& s = t.samples();
    CHECK(s.size() == d.nsamp, what, ": ", s.size(), " samples instead of ", d.nsamp);
    double e = descale(rec, d.scan, d.set), f = std::pow(2.0, e);
    bool exact = e == std::floor(e) && std::fabs(e) < 900;
    for (size_t i = 0; i < s.size(); ++i) {
        double want = sample(rec.format, d.samp, 0, i) * f;
        CHECK(exact ? same(s[i], want) : close(s[i], want), what, ": sample ", i, " of ",
              s.size(), " is ", s[i], " instead of ", want, " format ", rec.format,
              " exponent ", e, " bytes ", hex(d.samp.substr(i * dbits(rec.format) / 8, 10)));
    }
}
inline void check_trace(Record const& rec, DTrace const& d, XMaps const& maps, Trace& t,
                        std::string const& what)
{
    check_header(t, expect_header(rec, d, maps), what);
    check_samples(rec, d, t, what);
}
// all headers of the current record
inline void check_record(ISEGD& s, Record const& r, std::string const& what)
{
    try {
        check_gh1(s.general_header(), r.gh1);
        auto g2 = s.general_header2();
        CHECK(g2.has_value() == r.has_gh2, "general header 2 presence ", g2.has_value());
        if (g2) check_fields(gh2_table(r.rev3()), *g2, r.gh2, "general header 2");
        auto g3 = s.general_header3();
        CHECK(g3.has_value() == r.rev3(), "general header 3 presence ", g3.has_value());
        if (g3) check_fields(gh3_table(), *g3, r.gh3, "general header 3");
        auto gn = s.general_headerN();
        size_t n = r.rev3() ? 0 : r.blocks.size();
        CHECK(gn.size() == n, gn.size(), " N-th general headers instead of ", n);
        for (size_t i = 0; i < n; ++i)
            check_fields(ghn_table(), gn[i], r.blocks[i], cat("general header N ", i));
        for (auto& k : kinds()) {
            Bytes const* raw = nullptr;
            if (r.rev3())
                for (auto& b : r.blocks)
                    if ((unsigned char)b[31] == k.type) raw = &b;
            if (raw) k.check(s, *raw);
            else CHECK(!k.present(s), k.name, " block is reported but absent");
        }
        auto& cs = s.channel_set_headers();
        CHECK(cs.size() == r.sets.size(), cs.size(), " scan types instead of ", r.sets.size());
        for (size_t i = 0; i < cs.size(); ++i) {
            CHECK(cs[i].size() == r.sets[i].size(), cs[i].size(), " channel sets instead of ",
                  r.sets[i].size());
            for (size_t j = 0; j < cs[i].size(); ++j)
                check_cs(cs[i][j], r.sets[i][j], r.rev3(), cat("channel set ", i, "/", j));
        }
        auto cmp = [](std::vector<std::vector<char>> const& got, std::vector<Bytes> const& want,
                      char const* w) {
            CHECK(got.size() == want.size(), got.size(), " ", w, " headers instead of ",
                  want.size());
            for (size_t i = 0; i < want.size(); ++i)
                CHECK(Bytes(got[i].data(), got[i].size()) == want[i], w, " header ", i);
        };
        cmp(s.extended_headers(), r.extd, "extended");
        cmp(s.external_headers(), r.extl, "external");
    } catch (Fail& f) {
        f.msg = what + ": " + f.msg;
        throw;
    }
}

// ----------------------------------------------------------------- generator
struct DOpts {
    int rev = -1;          // -1 any, else 0 (no GH2), 1, 2, 3
    int max_traces = 12;
    bool random_sets = false; // descriptors' numbers unrelated to position
    bool writer = false;      // only what the writer can store, canonically
    bool empty_ok = false;    // records without channels
    int format = 0;
    int max_samples = 40;
    bool big = false;         // now and then many blocks, sets or channels
    bool no_ext = false;      // now and then traces without extension (not readable in rev < 3)
    bool any_chans = false;   // any number of channels, but no traces
    int64_t samples = -1;     // this many samples in every trace
    int64_t extd = -1, extl = -1; // this many blocks
    size_t fillers = 0;       // this many blocks of unknown kinds (revision 3)
    size_t nsets = 0;         // this many channel sets in every scan type
    int64_t skew = -1;        // this many skew blocks
    int ext = -1;             // this many extension blocks of every trace
};
inline Bytes rnd_block(Gen& g, size_t n)
{
    Rng r = g.sub();
    Bytes b(n, '\0');
    int style = (int)r.below(4);
    for (auto& c : b) c = style == 0 ? 0 : style == 1 ? (char)r.pattern(8) : (char)r.next();
    return b;
}
// raw sample bytes of n samples
inline Bytes rnd_samples(Gen& g, int code, size_t n, bool writer)
{
    Rng r = g.sub();
    Bytes b(samp_bytes(code, n), '\0');
    int bytes = dbits(code) / 8;
    if (code == 8015)
        for (auto& c : b) c = (char)r.pattern(8);
    else
        for (size_t i = 0; i < n; ++i)
            put(b, i * bytes, r.pattern(dbits(code)), bytes, code >= 9000);
    if (writer) // bits that survive decoding and encoding
        for (size_t i = 0; i < n; ++i) {
            uint64_t v = code == 8015 ? 0 : get(b, i * bytes, bytes, code >= 9000);
            if (code == 8048) v = canonical_float(IBM, v);
            else if (code == 8058 || code == 9058) v = canonical_float(F32, v);
            else if (code == 8080 || code == 9080) {
                // exponents that cannot leave the range by de-scaling
                uint64_t e = v >> 52 & 0x7ff;
                if (e && e < 100) e += 100;
                if (e > 1900) e -= 200;
                v = (v & 0x800fffffffffffffull) | e << 52;
                if (!e) v &= 0x8000000000000000ull;
            } else
                continue;
            put(b, i * bytes, v, bytes, code >= 9000);
        }
    return b;
}
inline DTrace gen_trace(Gen& g, Record const& r, int scan, int set, XMaps const& maps,
                        DOpts const& o)
{
    DTrace t;
    t.scan = scan;
    t.set = set;
    t.hdr = Bytes(20, '\0');
    rnd(g, t.hdr, BCD, 0, 4, true);
    put_bcd(t.hdr, 4, 2, scan);
    if (set > 99) {
        put(t.hdr, 3, 0xff, 1, false);
        put(t.hdr, 15, set, 2, false);
    } else {
        put_bcd(t.hdr, 6, 2, set);
        if (!o.writer && g.chance(20)) {
            put(t.hdr, 15, set, 2, false);
            if (g.chance(50)) put(t.hdr, 3, 0xff, 1, false); // escaped all the same
        }
    }
    rnd(g, t.hdr, BCD, 8, 4, r.rev3());
    put(t.hdr, 6, g.pattern(24), 3, false);
    put(t.hdr, 10, g.pattern(8), 1, false);
    put(t.hdr, 11, g.pattern(8), 1, false);
    put(t.hdr, 12, g.pattern(24), 3, false);
    if (o.writer) {
        uint64_t ffid = g.chance(50) ? (uint64_t)g.edgy(0, 9999) : (uint64_t)g.edgy(10000, 0xffffff);
        if (ffid > 9999) put(t.hdr, 0, 0xffff, 2, false);
        else put_bcd(t.hdr, 0, 4, ffid);
        put(t.hdr, 17, ffid, 3, false);
    } else if (g.chance(50))
        put(t.hdr, 17, g.pattern(24), 3, false);

    size_t n = g.chance(8) ? 0 : (size_t)g.edgy(0, o.max_samples);
    if (o.samples >= 0) n = (size_t)o.samples;
    if (r.format == 8015) n = n / 4 * 4;
    size_t ext = o.ext >= 0 ? (size_t)o.ext : 1 + g.size(6);
    bool rev3 = r.rev3();
    if (rev3 && o.ext < 0 && g.chance(25)) ext = 0;
    if (ext == 0) n = get(r.sets[scan - 1][set - 1], 12, 4, false);
    if (!rev3 && o.no_ext && g.chance(15)) ext = 0;
    t.nsamp = n;
    put(t.hdr, 9, ext, 1, false);
    for (size_t i = 0; i < ext; ++i) {
        t.ext.push_back(o.writer ? Bytes(32, '\0') : rnd_block(g, 32));
        Bytes& e = t.ext.back();
        if (!maps.empty()) {
            if (i >= maps.size()) continue;
            for (auto& f : maps[i]) {
                int s = xsize(f.type);
                if (f.key == "SAMP_NUM") put(e, f.off, n, s, false);
                else {
                    uint64_t v = g.pattern(s * 8);
                    put(e, f.off, o.writer ? vt_canonical(f.type, v) : v, s, false);
                }
            }
        } else if (i == 0) {
            put(e, 0, g.pattern(24), 3, false);
            put(e, 3, g.pattern(24), 3, false);
            put(e, 6, g.pattern(8), 1, false);
            if (!rev3) put(e, 7, n, 3, false);
            else put(e, 24, n, 4, false);
            if (!o.writer || (r.has_gh2 && r.major > 1)) {
                rnd(g, e, FIXU, 10, 5);
                rnd(g, e, FIXU, 15, 5);
                if (g.chance(40)) put(e, 10, 0, 5, false);
                if (g.chance(40)) put(e, 15, 0, 5, false);
                put(e, 20, g.pattern(8), 1, false);
                if (o.writer) { // both fields hold the same number
                    if (get(e, 10, 5, false) == 0) put(e, 0, 0, 3, false);
                    if (get(e, 15, 5, false) == 0) put(e, 3, 0, 3, false);
                    put(e, 0, get(e, 10, 3, false), 3, false);
                    put(e, 3, get(e, 15, 3, false), 3, false);
                }
            }
        }
    }
    t.samp = rnd_samples(g, r.format, n, o.writer);
    return t;
}
inline Record gen_record(Gen& g, DOpts const& o, XMaps const& maps)
{
    Record r;
    int rev = o.rev >= 0 ? o.rev : (int)g.choice(3);
    if (o.writer && rev == 0) rev = 2;
    r.has_gh2 = rev > 0;
    r.major = rev;
    if (rev && rev < 3 && o.rev < 0 && g.chance(10)) r.major = 0; // odd but below 3
    bool rev3 = r.rev3();
    bool many = o.big && g.chance(8);
    r.format = o.format ? o.format : g.pick(dformats()).code;
    // general header 1
    r.gh1 = Bytes(32, '\0');
    for (auto& f : gh1_table()) {
        bool esc = std::string(f.name) == "file_number" ||
            (std::string(f.name) == "record_length" && !o.writer);
        rnd(g, r.gh1, f.enc, f.pos, f.n, esc && r.has_gh2);
    }
    put_nib(r.gh1, 47, (int)g.choice(15));
    r.gh1[24] = (char)g.pattern(8);
    put_bcd(r.gh1, 4, 4, r.format);
    // general header 2
    if (r.has_gh2) {
        r.gh2 = o.writer ? Bytes(32, '\0') : rnd_block(g, 32);
        for (auto& f : gh2_table(rev3)) rnd(g, r.gh2, f.enc, f.pos, f.n);
        r.gh2[10] = (char)r.major;
        if (o.writer) {
            if (g.chance(70)) put(r.gh2, 14, 0, 3, false);
            if (get(r.gh2, 14, 3, false)) put(r.gh1, 25, (get(r.gh1, 25, 2, false) | 0xfff), 2, false);
        }
    }
    auto count = [&](int gh1_nib, int off, int n, size_t v, int escape_pct) {
        // number v in the basic field, or escaped
        bool esc = v > 99 || (r.has_gh2 && off >= 0 && g.chance(escape_pct));
        if (esc) put_nib(r.gh1, gh1_nib, 15), put_nib(r.gh1, gh1_nib + 1, 15);
        else put_bcd(r.gh1, gh1_nib, 2, v);
        if (esc && off >= 0) put(r.gh2, off, v, n, false);
    };
    int esc = o.writer ? 15 : 25;
    bool can = r.has_gh2;
    // numbers around the last one two digits can hold
    auto lim = [&](int64_t lo, int64_t hi) {
        int64_t v = g.chance(35) ? (int64_t)(97 + g.choice(4)) : g.range(lo, hi);
        return (size_t)std::min(v, hi);
    };
    // scan types and channel sets
    size_t scans = many && g.chance(20) ? lim(4, 99) : 1 + g.size(3);
    size_t nsets = many && can && g.chance(40) ? lim(90, 260)
        : many && g.chance(30) ? lim(4, 99) : 1 + g.size(4);
    if (o.nsets) nsets = o.nsets, scans = std::min<size_t>(scans, 2);
    if (scans * nsets > (o.nsets ? 3000 : 400)) scans = 1;
    if (o.empty_ok && g.chance(4)) scans = 0;
    put_bcd(r.gh1, 54, 2, scans);
    count(56, can ? 3 : -1, 2, nsets, esc);
    // skew
    r.skew = g.chance(70) ? 0 : many ? lim(1, rev3 ? 130 : 99) : (size_t)g.range(1, 3);
    if (o.skew >= 0) r.skew = (size_t)o.skew;
    count(58, rev3 ? 8 : -1, 2, r.skew, esc);
    if (!o.writer) r.skew_rng = Rng(1 + g.choice(0xffff));
    // extended, external
    auto blocks = [&](int64_t given) {
        size_t n = given >= 0 ? (size_t)given
            : g.chance(60) ? 0 : many && can ? lim(90, 300) : 1 + g.size(4);
        std::vector<Bytes> v;
        if (n > 1000) { // numbered, few choices
            Rng q = g.sub();
            for (size_t i = 0; i < n; ++i) {
                Bytes b(32, '\0');
                put(b, 0, q.next(), 8, false);
                put(b, 8, i, 8, false);
                v.push_back(b);
            }
            return v;
        }
        for (size_t i = 0; i < n; ++i) v.push_back(rnd_block(g, 32));
        return v;
    };
    r.extd = blocks(o.extd);
    count(60, can ? 5 : -1, rev3 ? 3 : 2, r.extd.size(), esc);
    r.extl = blocks(o.extl);
    count(62, can ? (rev3 ? 27 : 7) : -1, rev3 ? 3 : 2, r.extl.size(), esc);
    // trailer
    r.trailer = !can || g.chance(70) ? 0 : (size_t)g.range(1, 4);
    if (o.writer) r.trailer = 0;
    if (can) put(r.gh2, 12, r.trailer, rev3 ? 4 : 2, false);
    // general header 3 and additional blocks
    size_t total = 0;
    if (rev3) {
        r.gh3 = rnd_block(g, 32);
        for (auto& f : gh3_table()) rnd(g, r.gh3, f.enc, f.pos, f.n);
        auto ks = kinds();
        size_t want = many ? ks.size() : g.size(ks.size());
        for (size_t i = 0; i < want && !ks.empty(); ++i) {
            size_t j = g.choice(ks.size() - 1);
            r.blocks.push_back(ks[j].make(g));
            ks.erase(ks.begin() + j);
            if (g.chance(10)) { // a kind the library does not know
                static std::vector<int> const unknown { 0x00, 0x05, 0x1a, 0x30, 0x42, 0x62,
                                                        0x70, 0x7f, 0x80, 0x90, 0xff };
                Bytes b = rnd_block(g, 32);
                b[31] = (char)g.pick(unknown);
                r.blocks.push_back(b);
            }
        }
        if (o.fillers) {
            static std::vector<int> const unknown { 0x00, 0x05, 0x42, 0x7f, 0x90, 0xff };
            Bytes b = rnd_block(g, 32);
            b[31] = (char)g.pick(unknown);
            r.blocks.insert(r.blocks.begin() + g.choice(r.blocks.size()), o.fillers, b);
        }
        total = 2 + r.blocks.size();
        if (total > 14 || g.chance(20)) {
            put_nib(r.gh1, 22, 15);
            put(r.gh2, 22, total, 2, false);
        } else
            put_nib(r.gh1, 22, (int)total);
    } else if (r.has_gh2) {
        size_t want = g.chance(40) ? 0 : g.size(14);
        for (size_t i = 0; i < want; ++i) {
            Bytes b = o.writer ? Bytes(32, '\0') : rnd_block(g, 32);
            for (auto& f : ghn_table()) rnd(g, b, f.enc, f.pos, f.n);
            if (g.chance(60)) b[18] = (char)(i + 3);
            r.blocks.push_back(b);
        }
        put_nib(r.gh1, 22, (int)want + 1);
    } else
        put_nib(r.gh1, 22, 0);
    // descriptors
    int left = (int)g.edgy(o.empty_ok ? 0 : 1, o.max_traces);
    size_t slots = scans * nsets, done = 0;
    std::vector<int> cnt(slots);
    while (left > 0 && slots) {
        int k = g.chance(50) ? 1 : (int)g.range(1, left);
        cnt[g.chance(15) ? slots - 1 : g.choice(slots - 1)] += k;
        left -= k;
    }
    Rng seq = o.nsets ? g.sub() : Rng(0);
    for (size_t i = 0; i < scans; ++i) {
        r.sets.push_back({});
        for (size_t j = 0; j < nsets; ++j, ++done) {
            if (o.nsets) { // few choices
                Bytes b(rev3 ? 96 : 32, '\0');
                put_bcd(b, 0, 2, i + 1);
                if (rev3) put(b, 1, j + 1, 2, false), put(b, 4, seq.next(), 8, false),
                    put(b, 20, cnt[done], 3, false);
                else {
                    if (j + 1 > 99) put(b, 1, 0xff, 1, false), put(b, 26, j + 1, 2, false);
                    else put_bcd(b, 2, 2, j + 1);
                    put(b, 2, seq.next(), 4, false);
                    put_bcd(b, 16, 4, cnt[done]);
                }
                r.sets.back().push_back(b);
                continue;
            }
            Bytes b = o.writer ? Bytes(32, '\0') : rnd_block(g, rev3 ? 96 : 32);
            if (slots > 60 && !o.writer && !rev3) put(b, 0, 0, 26, false);
            if (slots <= 60 || g.chance(5))
                for (auto& f : cs_table(rev3)) rnd(g, b, f.enc, f.pos, f.n);
            if (o.writer && get(b, 6, 2, false) == 0x8000) put(b, 6, 0, 2, false); // no -0
            if (!o.random_sets) {
                put_bcd(b, 0, 2, i + 1);
                if (rev3) put(b, 1, j + 1, 2, false);
                else if (j + 1 > 99) put(b, 1, 0xff, 1, false), put(b, 26, j + 1, 2, false);
                else put_bcd(b, 2, 2, j + 1);
            }
            int n = cnt[done];
            if (o.any_chans) n = (int)g.edgy(0, rev3 ? 0xffffff : 9999);
            if (rev3) {
                put(b, 12, (uint64_t)(o.samples >= 0 ? o.samples : g.edgy(0, o.max_samples)) /
                        4 * 4, 4, false);
                put(b, 16, g.chance(60) ? 0 : (uint64_t)g.edgy(0, 40), 4, false);
                put(b, 20, n, 3, false);
            } else
                put_bcd(b, 16, 4, n);
            r.sets.back().push_back(b);
        }
    }
    for (size_t i = 0; i < r.sets.size() && !o.any_chans; ++i)
        for (size_t j = 0; j < r.sets[i].size(); ++j) {
            size_t n = (size_t)dec(r.sets[i][j], rev3 ? BIN : BCD, rev3 ? 20 : 16, rev3 ? 3 : 4);
            for (size_t k = 0; k < n; ++k)
                r.traces.push_back(gen_trace(g, r, (int)i + 1, (int)j + 1, maps, o));
        }
    if (r.traces.size() > 1 && g.chance(15)) { // order of channels is free
        size_t a = g.choice(r.traces.size() - 1), b = g.choice(r.traces.size() - 1);
        std::swap(r.traces[a], r.traces[b]);
    }
    return r;
}
inline std::string describe(Record const& r)
{
    size_t s = 0;
    for (auto& x : r.sets) s += x.size();
    return cat("rev ", r.has_gh2 ? r.major : 0, ", format ", r.format, ", ", r.blocks.size(),
               " blocks, ", r.sets.size(), " scan types, ", s, " channel sets, skew ", r.skew,
               ", extended ", r.extd.size(), ", external ", r.extl.size(), ", trailer ",
               r.trailer, ", ", r.traces.size(), " traces");
}
} // namespace segd
