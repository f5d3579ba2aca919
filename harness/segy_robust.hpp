#pragma once
#include "segy_ref.hpp"
namespace ref {
struct Outcome {
    bool opened = false;
    bool threw = false;
    size_t delivered = 0;
};
// Opens and reads everything.  Throws pbt::Fail if a delivered trace cannot
// be in the file; memory errors are the sanitizer's business.
inline Outcome consume_segy(std::string const& p, Bytes const& content,
                            LibMaps const& maps, int how, BH const& over,
                            std::string const& key, unsigned ops)
{
    Outcome out;
    try {
        std::unique_ptr<ISEGY> s;
        if (how == 1) s = std::make_unique<ISEGY>(p, over, maps);
        else if (how == 3) s = std::make_unique<ISEGYSorted1D>(p, key, maps);
        else s = std::make_unique<ISEGY>(p, maps);
        out.opened = true;
        BH h = s->binary_header();
        if (how == 2) ISEGY::read_binary_header(p);
        auto fm = format(h.format_code);
        unsigned __int128 used = h.byte_off_of_first_tr
            ? (unsigned __int128)h.byte_off_of_first_tr
            : 3200 * (unsigned __int128)s->text_headers().size() + 400;
        for (auto& t : s->text_headers()) CHECK(t.size() == 3200, "text size");
        for (auto& t : s->trailer_stanzas()) CHECK(t.size() == 3200, "stanza size");
        CHECK(3200 * s->text_headers().size() + 400 <= content.size(),
              "more text headers than the file has room for");
        size_t guard = content.size() / 240 + 10;
        size_t reads = 0;
        unsigned bits = ops;
        while (s->has_trace()) {
            CHECK(reads++ <= guard, "more traces delivered than fit the file: ", reads);
            bool only_header = (bits & 3) == 3;
            bits = bits >> 1 | (bits & 1) << 15;
            if (only_header) {
                s->read_header();
                continue;
            }
            Trace t = s->read_trace();
            ++out.delivered;
            unsigned __int128 bytes =
                240 * ((unsigned __int128)h.max_num_add_tr_headers + 1) +
                (unsigned __int128)t.samples().size() * fm.size;
            if (how != 3) used += bytes;
            CHECK((how == 3 ? bytes : used) <= content.size(), "trace ", reads - 1,
                  " with ", t.samples().size(), " samples does not fit a file of ",
                  content.size(), " bytes; used ", (uint64_t)used, " headers ", h.max_num_add_tr_headers, " first ", h.byte_off_of_first_tr, " mode ", how, " maps ", maps.size());
        }
        if (how == 3) {
            auto* q = static_cast<ISEGYSorted1D*>(s.get());
            for (auto& k : q->get_keys()) {
                q->get_headers(k, 3);
                q->get_traces(k, 2);
            }
        }
    } catch (Fail const&) {
        throw;
    } catch (std::exception const&) {
        out.threw = true;
    }
    return out;
}

inline void corrupt_segy(Gen& g, Bytes& b, bool le)
{
    struct F { int off, size; };
    static std::vector<F> const key { { 3220, 2 }, { 3224, 2 }, { 3268, 4 },
        { 3296, 4 }, { 3500, 1 }, { 3502, 2 }, { 3504, 2 }, { 3506, 4 },
        { 3512, 8 }, { 3520, 8 }, { 3528, 4 } };
    size_t n = 1 + g.choice(7);
    for (size_t i = 0; i < n; ++i) {
        if (b.empty()) break;
        switch (g.choice(8)) {
        case 0:
            b.resize(g.choice(b.size()));
            break;
        case 1: // cut near a structural boundary
        {
            static std::vector<int> const cut { 1, 2, 3, 4, 239, 240, 241, 3199, 3200, 3201 };
            size_t c = (size_t)g.pick(cut);
            if (b.size() > c) b.resize(b.size() - c);
            break;
        }
        case 2:
        case 3:
        case 4: {
            F f = g.pick(key);
            if (b.size() < 3600) break;
            uint64_t v = g.pattern(f.size * 8);
            if (g.chance(40)) v = (uint64_t)g.range(-2, 5);
            if (f.off == 3296 && g.chance(70)) v = g.choice(1) ? MARK_LE : MARK_BE;
            put(b, f.off, v, f.size, f.off == 3296 ? true : le);
            break;
        }
        case 5: { // somewhere in the trace area
            if (b.size() < 3700) break;
            size_t o = 3600 + g.choice(std::min<size_t>(b.size() - 3601, 100000));
            size_t k = 1 + g.choice(7);
            for (size_t j = 0; j < k && o + j < b.size(); ++j) b[o + j] = (char)g.pattern(8);
            break;
        }
        case 6: { // anywhere
            size_t o = g.choice(b.size() - 1);
            b[o] = (char)g.choice(255);
            break;
        }
        case 7: // grow
            b += gen_block(g, g.choice(600));
            break;
        default: { // move a block
            size_t o = g.choice(b.size() - 1), l = g.choice(std::min<size_t>(b.size() - o, 4000));
            Bytes part = b.substr(o, l);
            b.erase(o, l);
            b.insert(b.empty() ? 0 : g.choice(b.size()), part);
        }
        }
    }
}
} // namespace ref
