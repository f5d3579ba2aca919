// C28: malformed SEG-D input.
#include "segd_robust.hpp"
using namespace segd;

PROPERTY("C28", "corrupted", 24000, 600000,
         "file of 1 to 3 generated records with 1-8 corruptions (truncation, extension, boundary "
         "values in count, format and revision fields, random bytes, block moves), read to the "
         "end through every getter; oracle: no memory error, only standard exceptions, "
         "termination, delivered traces fit the file; non-trivial = the file differs from the "
         "well-formed one")
{
    DOpts o;
    o.max_traces = 6;
    o.max_samples = 20;
    o.empty_ok = g.chance(20);
    o.big = g.chance(15);
    XMaps m = g.chance(40) ? gen_xmaps(g) : XMaps {};
    Bytes b;
    for (size_t n = 1 + g.size(2); n; --n) b += gen_record(g, o, m).encode();
    Bytes orig = b;
    corrupt_segd(g, b);
    std::string p = g.path("a.sgd");
    write_file(p, b);
    if (g.chance(10)) m = gen_xmaps(g);
    unsigned ops = (unsigned)g.choice(0xffff);
    DOutcome out = consume_segd(p, b, lib(m), ops);
    g.tag(out.opened ? "opened" : "refused");
    if (out.opened && out.threw) g.tag("exception while reading");
    g.describe(cat(b.size(), " of ", orig.size(), " bytes, ", out.opened ? "opened" : "refused",
                   ", ", out.delivered, " traces delivered"));
    if (b != orig) g.nontrivial();
}
PROPERTY("C28", "random_bytes", 16000, 400000,
         "byte strings of 0-6000 random, sparse or constant bytes, mostly with a supported format "
         "code and plausible counts; same oracle; non-trivial = at least 32 bytes")
{
    size_t n = g.chance(20) ? (size_t)g.edgy(0, 200) : (size_t)g.range(64, 6000);
    Bytes b(n, '\0');
    Rng r = g.sub();
    int style = (int)g.choice(3);
    for (auto& c : b)
        c = style == 0 ? (char)r.next() : style == 1 ? (char)(r.below(12) ? 0 : r.next())
            : style == 2 ? (char)r.pattern(8) : '\0';
    if (n >= 64 && g.chance(90)) {
        put_bcd(b, 4, 4, (uint64_t)g.pick(dformats()).code);
        if (g.chance(80)) put_nib(b, 22, (int)g.choice(4));
        if (g.chance(80)) put_bcd(b, 54, 2, g.choice(3));
        if (g.chance(80)) put_bcd(b, 56, 2, g.choice(4));
        if (g.chance(80)) put_bcd(b, 58, 2, g.choice(2));
        if (g.chance(80)) put_bcd(b, 60, 2, g.choice(2));
        if (g.chance(80)) put_bcd(b, 62, 2, g.choice(2));
        if (g.chance(80)) b[42] = (char)g.choice(4);
    }
    std::string p = g.path("a.sgd");
    write_file(p, b);
    XMaps m = g.chance(30) ? gen_xmaps(g) : XMaps {};
    DOutcome out = consume_segd(p, b, lib(m), (unsigned)g.choice(0xffff));
    g.tag(out.opened ? "opened" : "refused");
    g.describe(cat(n, " bytes, style ", style, ", ", out.opened ? "opened" : "refused", ", ",
                   out.delivered, " traces"));
    if (n >= 32) g.nontrivial();
}
PROPERTY("C28", "truncated", 12000, 300000,
         "well-formed file of 1 to 3 records cut at an arbitrary byte; oracle: every delivered "
         "trace equals the reference trace of its place, all complete traces of a record whose "
         "headers are followed by the cut are delivered, then a standard exception or the end; "
         "non-trivial = cut behind the first record's headers")
{
    DOpts o;
    o.max_traces = 6;
    o.max_samples = 20;
    std::vector<Record> rs;
    Bytes b;
    struct Where { size_t rec, tr, end; };
    std::vector<Where> ends;
    std::vector<size_t> first; // start of traces
    std::vector<size_t> start; // start of record
    for (size_t n = 1 + g.size(2), i = 0; i < n; ++i) {
        Record r = gen_record(g, o, {});
        start.push_back(b.size());
        size_t pos = b.size() + r.headers().size();
        first.push_back(pos);
        for (size_t k = 0; k < r.traces.size(); ++k) {
            auto& t = r.traces[k];
            pos += 20 + 32 * t.ext.size() + t.samp.size();
            ends.push_back({ i, k, pos });
        }
        b += r.encode();
        rs.push_back(r);
    }
    size_t cut = g.choice(b.size());
    if (g.chance(30)) {
        auto& w = ends[g.choice(ends.size() - 1)];
        cut = (size_t)std::min<int64_t>((int64_t)b.size(), std::max<int64_t>(0, (int64_t)w.end + g.range(-3, 40)));
    }
    std::string p = g.path("a.sgd");
    write_file(p, b.substr(0, cut));
    size_t whole = 0;
    for (auto& w : ends) whole += w.end <= cut;
    g.describe(cat(cut, " of ", b.size(), " bytes, ", whole, " of ", ends.size(), " traces whole"));
    if (cut >= first[0]) g.nontrivial();
    size_t got = 0;
    bool threw = false;
    try {
        ISEGD s(p);
        while (s.has_record()) {
            Trace t = s.read_trace();
            CHECK(got < whole, "trace ", got, " delivered but only ", whole, " are complete");
            auto& w = ends[got];
            check_trace(rs[w.rec], rs[w.rec].traces[w.tr], {}, t, cat("record ", w.rec, " trace ", w.tr));
            ++got;
        }
    } catch (Fail&) {
        throw;
    } catch (std::exception&) {
        threw = true;
    }
    // the headers of the next record are read with the last trace of a record
    bool in_headers = false;
    for (size_t i = 0; i < rs.size(); ++i)
        if (cut > start[i] && cut < first[i]) in_headers = true;
    CHECK(got == whole || (in_headers && got + 1 == whole), got, " of ", whole,
          " complete traces delivered");
    if (cut == b.size()) CHECK(!threw, "whole file refused");
}
