// Driving the SEG-D writer from a reference record.
#pragma once
#include "segd_ref.hpp"
namespace segd {
struct Args {
    GH gh {};
    GH2 gh2 {};
    std::vector<std::vector<CS>> sets;
    std::vector<std::shared_ptr<AddHdr>> add;
    std::vector<std::vector<char>> extd, extl;
    ExtMaps maps;
    std::unique_ptr<OSEGDRev2_1> open(std::string const& p) const
    {
        return std::make_unique<OSEGDRev2_1>(p, gh, gh2, sets, add, extd, extl, maps);
    }
};
inline Args args(Record const& r, XMaps const& maps)
{
    Args a;
    fill(gh1_table(), a.gh, r.gh1);
    a.gh.scans_per_block = (decltype(a.gh.scans_per_block))scans_per_block(r.gh1);
    fill(gh2_table(false), a.gh2, r.gh2);
    for (auto& b : r.blocks) {
        auto p = std::make_shared<GHN>();
        fill(ghn_table(), *p, b);
        a.add.push_back(p);
    }
    for (auto& s : r.sets) {
        a.sets.push_back({});
        for (auto& c : s) a.sets.back().push_back(to_cs(c));
    }
    for (auto& b : r.extd) a.extd.push_back({ b.begin(), b.end() });
    for (auto& b : r.extl) a.extl.push_back({ b.begin(), b.end() });
    a.maps = lib(maps);
    return a;
}
// what a program reading one file and writing another would pass
inline Args args(ISEGD& s, ExtMaps const& maps)
{
    Args a;
    a.gh = s.general_header();
    if (auto h = s.general_header2()) a.gh2 = *h;
    a.sets = s.channel_set_headers();
    for (auto& h : s.general_headerN()) a.add.push_back(std::make_shared<GHN>(h));
    a.extd = s.extended_headers();
    a.extl = s.external_headers();
    a.maps = maps;
    return a;
}
inline std::vector<double> values(Record const& r, DTrace const& d)
{
    double f = std::pow(2.0, descale(r, d.scan, d.set));
    std::vector<double> v;
    for (size_t i = 0; i < d.nsamp; ++i) v.push_back(sample(r.format, d.samp, 0, i) * f);
    return v;
}
// the trace a user would hand over; values that are zero may be left out and
// integral ones may be held either way
inline Trace to_trace(Gen& g, Record const& r, DTrace const& d, XMaps const& maps,
                      std::vector<double> const* samp = nullptr)
{
    std::unordered_map<std::string, Value> h;
    Rng q = g.sub();
    for (auto& kv : expect_header(r, d, maps)) {
        Value v = kv.second;
        bool std_key = maps.empty() || kv.first == "FFID" || kv.first == "CHAN" ||
            kv.first == "TRACE_EDIT" || kv.first == "SAMPLE_SKEW" ||
            kv.first == "FIRST_TIMING_WORD" || kv.first == "TIME_BREAK_WIN";
        for (auto& m : maps)
            for (auto& f : m) std_key &= f.key != kv.first;
        if (std_key && as_dbl(v) == 0 && q.below(4) == 0) continue;
        if (kv.first == "TR_HDR_EXT" && d.ext.empty() && q.below(2) == 0) continue;
        if ((kv.first == "SCAN_TYPE_NUM" || kv.first == "CH_SET_NUM") && as_dbl(v) == 1 &&
            q.below(4) == 0)
            continue;
        if (q.below(6) == 0) {
            if (v.index() == 0 && std::fabs((double)std::get<0>(v)) < 1e15)
                v = (double)std::get<0>(v);
            else if (v.index() == 1 && std::get<1>(v) == std::floor(std::get<1>(v)) &&
                     std::fabs(std::get<1>(v)) < 1e15 && !std::signbit(std::get<1>(v)))
                v = (int64_t)std::get<1>(v);
        }
        h[kv.first] = v;
    }
    if (q.below(8) == 0) h["UNRELATED"] = Value { (int64_t)q.next() };
    return Trace(h, samp ? *samp : values(r, d));
}
// everything but samples, byte by byte; scans per block may be split otherwise
inline void check_header_bytes(Bytes const& got, Record const& r)
{
    Bytes want = r.headers();
    CHECK(got.size() >= want.size(), "headers end at ", got.size(), " instead of ", want.size());
    Bytes h = got.substr(0, want.size());
    CHECK(scans_per_block(h) == scans_per_block(want), "scans per block ", scans_per_block(h),
          " instead of ", scans_per_block(want));
    put_nib(h, 47, nib(want, 47));
    h[24] = want[24];
    check_bytes(h, want, "record headers");
}
} // namespace segd
