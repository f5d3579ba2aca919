// C16: malformed SEG-Y input.
#include "segy_robust.hpp"
using namespace ref;

PROPERTY("C16", "corrupted", 55000, 1375000,
         "valid generated file with 1-8 corruptions (truncation, extension, "
         "boundary values in count/length/format/offset fields of the binary "
         "header and in trace headers, random bytes, block moves), opened plain, "
         "with override or sorted and read to the end; oracle: no memory error, "
         "only standard exceptions, termination, delivered traces fit the file; "
         "non-trivial = the corrupted file differs and opening got past the "
         "binary header")
{
    Opts o;
    o.big = g.chance(5);
    o.max_traces = 20;
    File f = gen_file(g, o);
    Bytes b = f.encode(), orig = b;
    corrupt_segy(g, b, f.le);
    std::string p = g.path("a.sgy");
    write_file(p, b);
    HMaps maps = g.chance(60) ? f.maps : from_lib(CommonSEGY::default_trace_header);
    if (g.chance(25)) // maps lacking fields, the number of samples among them
        for (auto& m : maps) {
            std::vector<Field> left;
            for (auto& x : m.fields)
                if (!(x.key == "SAMP_NUM" ? g.chance(60) : g.chance(20))) left.push_back(x);
            m.fields = left;
        }
    int how = (int)g.choice(3);
    BH over = f.bh;
    if (how == 1 && g.chance(60))
        for (auto& x : bin_fields())
            if (g.chance(15)) x.set(over, g.pattern(x.size * 8));
    std::string key;
    for (auto& m : maps)
        for (auto& x : m.fields)
            if (key.empty() || g.chance(10)) key = x.key;
    if (how == 3 && (key.empty() || g.chance(10))) key = "SAMP_NUM";
    unsigned ops = (unsigned)g.choice(0xffff);
    Outcome out = consume_segy(p, b, lib(maps), how, over, key, ops);
    g.tag(out.opened ? "opened" : "refused");
    if (out.threw) g.tag("exception while reading");
    g.describe(cat(b.size(), " of ", orig.size(), " bytes, mode ", how, ", ",
                   out.opened ? "opened" : "refused", ", ", out.delivered,
                   " traces delivered"));
    if (b != orig) g.nontrivial();
}

PROPERTY("C16", "random_bytes", 27000, 675000,
         "random byte strings of 0-20000 bytes, partly with plausible binary "
         "headers; same oracle; non-trivial = at least 3600 bytes")
{
    size_t n = g.chance(20) ? (size_t)g.edgy(0, 3700) : (size_t)g.range(3600, 20000);
    Bytes b(n, '\0');
    Rng r = g.sub();
    int style = (int)g.choice(2);
    for (auto& c : b) c = style == 0 ? (char)r.next() : style == 1 ? (char)(r.below(16) ? 0 : r.next()) : 0;
    bool le = g.choice(1);
    if (n >= 3600 && g.chance(80)) {
        put(b, 3296, le ? MARK_LE : g.choice(1) ? MARK_BE : 0, 4, true);
        put(b, 3224, (uint64_t)(g.chance(90) ? g.pick(formats()).code : g.choice(20)), 2, le);
        b[3500] = (char)g.choice(3);
        if (g.chance(70)) put(b, 3268, 0, 4, le);
        if (g.chance(70)) put(b, 3220, g.choice(50), 2, le);
        if (g.chance(70)) put(b, 3504, (uint64_t)g.range(-1, 2), 2, le);
        if (g.chance(70)) put(b, 3506, (uint64_t)g.range(0, 2), 4, le);
        if (g.chance(70)) put(b, 3520, 0, 8, le);
        if (g.chance(70)) put(b, 3528, (uint64_t)g.range(-1, 2), 4, le);
    }
    std::string p = g.path("a.sgy");
    write_file(p, b);
    unsigned ops = (unsigned)g.choice(0xffff);
    int how = g.chance(80) ? 0 : 3;
    Outcome out = consume_segy(p, b, CommonSEGY::default_trace_header, how, BH {}, "FFID", ops);
    g.tag(out.opened ? "opened" : "refused");
    g.describe(cat(n, " bytes, style ", style, out.opened ? ", opened" : ", refused"));
    if (n >= 3600) g.nontrivial();
}

PROPERTY("C16", "truncated", 12000, 300000,
         "well-formed generated file cut at an arbitrary byte, often near the end of a trace, "
         "header or stanza, read by a random sequence of read_header and read_trace; oracle: "
         "every delivered header and trace is the one of its place in the intact file and its "
         "bytes are all there, and reading ends by has_trace or a standard exception; "
         "non-trivial = cut behind the headers of the file")
{
    Opts o;
    o.big = g.chance(5);
    o.min_traces = 1;
    File f = gen_file(g, o);
    Bytes b = f.encode();
    size_t first = f.head().size(), pos = first;
    std::vector<size_t> starts, ends;
    for (auto& t : f.traces) {
        starts.push_back(pos);
        pos += f.trace_bytes(t).size();
        ends.push_back(pos);
    }
    size_t cut = g.choice(b.size());
    if (!ends.empty() && g.chance(70)) {
        size_t at = g.choice(1) ? g.pick(ends) : g.pick(starts) + 240 * g.choice(f.hdrs());
        cut = (size_t)std::min<int64_t>((int64_t)b.size(),
                                        std::max<int64_t>(0, (int64_t)at + g.range(-9, 9)));
    }
    std::string p = g.path("a.sgy");
    write_file(p, b.substr(0, cut));
    if (cut >= first) g.nontrivial();
    std::string ops;
    size_t i = 0;
    bool threw = false;
    try {
        auto s = std::make_unique<ISEGY>(p, lib(f.maps));
        while (s->has_trace()) {
            bool whole = !g.chance(40);
            ops += whole ? 't' : 'h';
            if (i >= f.traces.size()) {
                if (whole) s->read_trace();
                else s->read_header();
                // of stanzas cut short some bytes may pass for another trace
                CHECK(!f.stanzas.empty(), "a trace beyond the last one after ", ops);
                break;
            }
            auto const& t = f.traces[i];
            if (whole) {
                Trace x = s->read_trace();
                CHECK(ends[i] <= cut, "trace ", i, " delivered but cut at ", cut, " of ", starts[i],
                      "..", ends[i], " after ", ops);
                check_trace(x, f.header(t), f.samples(t), cat("trace ", i, " after ", ops));
            } else {
                Trace::Header h = s->read_header();
                CHECK(starts[i] + 240 * f.hdrs() <= cut, "header ", i, " delivered but cut at ",
                      cut, " of ", starts[i], "..", ends[i], " after ", ops);
                check_header(h, f.header(t), cat("header ", i, " after ", ops));
            }
            ++i;
        }
    } catch (Fail&) {
        throw;
    } catch (std::exception&) {
        threw = true;
    }
    if (threw) g.tag("exception");
    if (cut == b.size()) CHECK(!threw && i == f.traces.size(), "intact file not read completely");
    g.describe(cat(cut, " of ", b.size(), " bytes, ", i, " of ", f.traces.size(), " read, ", ops.substr(0, 30)));
}
