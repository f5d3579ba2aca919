// Reading arbitrary bytes as SEG-D, and corrupting well-formed files.
#pragma once
#include "segd_ref.hpp"
namespace segd {
struct DOutcome {
    bool opened = false, threw = false;
    size_t delivered = 0;
};
inline void all_getters(ISEGD& s, bool failed = false)
{
    s.general_header();
    s.general_header2();
    s.general_header3();
    s.general_headerN();
    for (auto& k : kinds()) k.present(s);
    for (auto& x : s.extended_headers()) CHECK(failed || x.size() == 32, "extended header size");
    for (auto& x : s.external_headers()) CHECK(failed || x.size() == 32, "external header size");
    for (auto& v : s.channel_set_headers())
        for (CS c : v) {
            c.number_of_samples();
            c.samp_int();
            c.filter_phase();
            c.physical_unit();
            c.filter_delay();
            c.description();
        }
}
inline DOutcome consume_segd(std::string const& p, Bytes const& content, ExtMaps const& maps,
                             unsigned ops)
{
    DOutcome out;
    size_t used = 32;
    std::unique_ptr<ISEGD> s;
    try {
        s = std::make_unique<ISEGD>(p, maps);
        out.opened = true;
        all_getters(*s);
        size_t guard = content.size() / 20 + 10;
        bool by_trace = ops & 1;
        while (by_trace ? s->has_trace() : s->has_record()) {
            CHECK(out.delivered <= guard, "more traces than fit the file: ", out.delivered);
            int format = s->general_header().format_code;
            Trace t = s->read_trace();
            ++out.delivered;
            auto ext = t.header().get("TR_HDR_EXT");
            CHECK(ext.has_value(), "no TR_HDR_EXT");
            used += 20 + samp_bytes(format, t.samples().size());
            // a map may define the same key again
            bool own = false;
            for (auto& m : maps)
                for (auto& f : m) own |= f.second.first == "TR_HDR_EXT";
            if (!own) used += 32 * (size_t)std::get<0>(*ext);
            CHECK(used <= content.size(), "trace ", out.delivered - 1, " of ",
                  t.samples().size(), " samples does not fit a file of ", content.size(),
                  " bytes");
            if (ops >> (out.delivered % 13 + 1) & 1) all_getters(*s);
        }
        all_getters(*s);
        if (ops & 2) s->read_trace();
    } catch (Fail const&) {
        throw;
    } catch (std::exception const&) {
        out.threw = true;
    }
    if (s && out.threw) // going on after a failure must be safe too
        for (int i = 0; i < 3; ++i) {
            all_getters(*s, true);
            try {
                if (s->has_trace() || i == 2) s->read_trace();
            } catch (std::exception const&) {
            }
        }
    return out;
}
inline void corrupt_segd(Gen& g, Bytes& b)
{
    struct F { int nib, n; };
    // counts of general headers 1 and 2 (both layouts), in nibbles
    static std::vector<F> const key {
        { 4, 4 },  { 22, 1 },  { 54, 2 },  { 56, 2 },  { 58, 2 },  { 60, 2 },
        { 62, 2 }, { 70, 4 },  { 74, 4 },  { 74, 6 },  { 78, 4 },  { 80, 4 },
        { 84, 2 }, { 88, 4 },  { 88, 8 },  { 108, 4 }, { 118, 6 },
    };
    size_t n = 1 + g.choice(7);
    for (size_t i = 0; i < n; ++i) {
        if (b.empty()) break;
        switch (g.choice(9)) {
        case 0: b.resize(g.choice(b.size())); break;
        case 1: {
            static std::vector<int> const cut { 1, 2, 3, 4, 19, 20, 21, 31, 32, 33, 52, 64 };
            size_t c = (size_t)g.pick(cut);
            if (b.size() > c) b.resize(b.size() - c);
            break;
        }
        case 2:
        case 3:
        case 4: {
            F f = g.pick(key);
            if (b.size() * 2 < (size_t)(f.nib + f.n)) break;
            if (g.chance(30)) // escape or small
                for (int j = 0; j < f.n; ++j) put_nib(b, f.nib + j, g.chance(50) ? 15 : 0);
            else
                for (int j = 0; j < f.n; ++j)
                    put_nib(b, f.nib + j, g.chance(40) ? 0 : (int)g.choice(15));
            break;
        }
        case 5: { // a byte of some 32-byte block after the general headers
            size_t o = 64 + g.choice(std::min<size_t>(b.size(), 4000));
            size_t k = 1 + g.choice(5);
            for (size_t j = 0; j < k && o + j < b.size(); ++j) b[o + j] = (char)g.pattern(8);
            break;
        }
        case 6: b[g.choice(b.size() - 1)] = (char)g.choice(255); break;
        case 7: b += gen_block(g, g.choice(300)); break;
        case 8: { // revision
            if (b.size() > 42) b[42] = (char)g.choice(4);
            break;
        }
        default: { // move a block
            size_t o = g.choice(b.size() - 1), l = g.choice(std::min<size_t>(b.size() - o, 600));
            Bytes part = b.substr(o, l);
            b.erase(o, l);
            b.insert(b.empty() ? 0 : g.choice(b.size()), part);
        }
        }
    }
}
} // namespace segd
