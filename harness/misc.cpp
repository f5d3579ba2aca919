// C13 (EBCDIC), C14 (BCD and byte order), C30 (value semantics), C32 (names)
#include "pbt.hpp"
#include "cp037.hpp"
#include "names_golden.hpp"
#include "CommonSEGY.hpp"
#include "Exception.hpp"
#include "OSEGYRev0.hpp"
#include "Trace.hpp"
#include "util.hpp"
#include <algorithm>
#include <cmath>
#include <exception>
#include <fstream>
#include <memory>
#include <set>
#include <variant>

using namespace pbt;
using namespace sedaman;
using std::string;
using std::vector;

// ---------------------------------------------------------------- C13
static string text(Gen& g, size_t n)
{
    string s(n, 0);
    int kind = g.choice(2);
    Rng r = g.sub();
    for (auto& c : s)
        c = kind == 0 ? char(0x20 + r.below(95)) : kind == 1 ? char(r.below(128))
                                                             : char(r.below(256));
    return s;
}

PROPERTY("C13", "conversion", 630000, 6000000,
    "string of at least two characters with at least two different bytes")
{
    string s = text(g, g.chance(10) ? 3200 : g.chance(30) ? g.range(0, 300) : g.size(40));
    std::set<char> diff(s.begin(), s.end());
    if (diff.size() >= 2) g.nontrivial();
    g.describe(cat(s.size(), " bytes ", hex(s, 16)));
    string e = s;
    CommonSEGY::ascii_to_ebcdic(e);
    CHECK(e.size() == s.size(), "ascii_to_ebcdic changed the length");
    for (size_t i = 0; i < s.size(); ++i) {
        uint8_t c = s[i], got = e[i];
        CHECK(got == cp037[c], "character ", int(c), " at ", i, " of ", s.size(),
                " became EBCDIC ", int(got), ", code page 037 has ", int(cp037[c]));
    }
    string back = e;
    CommonSEGY::ebcdic_to_ascii(back);
    CHECK(back == s, "ascii->ebcdic->ascii: ", hex(s), " became ", hex(back));
    // the other direction
    string a = s;
    CommonSEGY::ebcdic_to_ascii(a);
    CHECK(a.size() == s.size(), "ebcdic_to_ascii changed the length");
    for (size_t i = 0; i < s.size(); ++i)
        CHECK(uint8_t(s[i]) == cp037[uint8_t(a[i])], "EBCDIC ", int(uint8_t(s[i])),
                " became ASCII ", int(uint8_t(a[i])));
    string again = a;
    CommonSEGY::ascii_to_ebcdic(again);
    CHECK(again == s, "ebcdic->ascii->ebcdic: ", hex(s), " became ", hex(again));
    // position independence: a permutation of the input permutes the output
    if (s.size() > 1) {
        size_t k = 1 + g.choice(s.size() - 2);
        string rot = s.substr(k) + s.substr(0, k);
        CommonSEGY::ascii_to_ebcdic(rot);
        CHECK(rot == e.substr(k) + e.substr(0, k), "conversion depends on the position");
    }
}

// the default text header of the revision 0 writer, as a user would look at it
PROPERTY("C13", "default_header", 3200, 80000, "file with at least one trace")
{
    string p = g.path("rev0.sgy");
    int n = g.range(0, 3), samp = g.range(1, 20);
    g.describe(cat("traces ", n, " samples ", samp));
    if (n) g.nontrivial();
    {
        OSEGYRev0 w(p);
        Trace t({ { "SAMP_NUM", int64_t(samp) }, { "SAMP_INT", int64_t(1000) } },
            vector<double>(samp, 1.0));
        for (int i = 0; i < n; ++i) w.write_trace(t);
    }
    std::ifstream f(p, std::ios::binary);
    string t(3200, 0);
    f.read(t.data(), 3200);
    CHECK(f.gcount() == 3200, "file shorter than the text header");
    CommonSEGY::ebcdic_to_ascii(t);
    for (size_t i = 0; i < t.size(); ++i)
        CHECK(t[i] >= 0x20 && t[i] < 0x7f, "unprintable byte ", int(uint8_t(t[i])), " at ", i);
    for (int l = 0; l < 40; ++l) {
        string want = "C" + string(l < 9 ? " " : "") + std::to_string(l + 1);
        CHECK(t.compare(l * 80, want.size(), want) == 0, "line ", l + 1, " starts with ",
            t.substr(l * 80, 8));
    }
}

// ---------------------------------------------------------------- C14
template <class T> static void bcd_encode(char** p, uint64_t v, bool skip, int n)
{
    to_bcd<T>(p, static_cast<T>(v), skip, n);
}

PROPERTY("C14", "bcd_fields", 1000000, 8000000,
    "at least two consecutive fields, one of them with an odd number of digits")
{
    struct F {
        int n;
        uint64_t v;
        int type;
        bool skip;
        size_t at; // nibble index
    };
    vector<F> fs;
    int count = g.range(1, 8);
    size_t nib = 0;
    bool odd = false;
    for (int i = 0; i < count; ++i) {
        F f;
        f.n = g.range(1, 12);
        static uint64_t const p10[] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000,
            100000000, 1000000000, 10000000000, 100000000000, 1000000000000 };
        f.type = g.choice(7);
        static uint64_t const maxv[] = { 127, 255, 32767, 65535, 2147483647ull, 4294967295ull,
            9223372036854775807ull, ~0ull };
        uint64_t hi = std::min(p10[f.n] - 1, maxv[f.type]);
        switch (g.choice(3)) {
        case 0: f.v = hi - std::min<uint64_t>(hi, g.choice(3)); break;
        case 1: f.v = std::min(hi, p10[g.choice(f.n)]); break;
        default: f.v = g.choice(hi);
        }
        f.at = nib;
        f.skip = nib & 1;
        nib += f.n;
        if (f.n & 1) odd = true;
        fs.push_back(f);
        g.describe(cat(f.v, "/", f.n, f.skip ? "s" : ""));
    }
    if (count >= 2 && odd) g.nontrivial();
    size_t bytes = (nib + 1) / 2;
    // model: nibble by nibble
    vector<int> model(bytes * 2, 0);
    for (auto& f : fs) {
        uint64_t v = f.v;
        for (int i = f.n - 1; i >= 0; --i, v /= 10) model[f.at + i] = v % 10;
    }
    std::unique_ptr<char[]> buf(new char[bytes]());
    char* p = buf.get();
    for (auto& f : fs) {
        switch (f.type) {
        case 0: bcd_encode<int8_t>(&p, f.v, f.skip, f.n); break;
        case 1: bcd_encode<uint8_t>(&p, f.v, f.skip, f.n); break;
        case 2: bcd_encode<int16_t>(&p, f.v, f.skip, f.n); break;
        case 3: bcd_encode<uint16_t>(&p, f.v, f.skip, f.n); break;
        case 4: bcd_encode<int32_t>(&p, f.v, f.skip, f.n); break;
        case 5: bcd_encode<uint32_t>(&p, f.v, f.skip, f.n); break;
        case 6: bcd_encode<int64_t>(&p, f.v, f.skip, f.n); break;
        default: bcd_encode<uint64_t>(&p, f.v, f.skip, f.n);
        }
        size_t used = p - buf.get(), want = (f.at + f.n) / 2;
        CHECK(used == want, "to_bcd stopped at byte ", used, " instead of ", want);
    }
    for (size_t i = 0; i < bytes; ++i) {
        int want = model[2 * i] << 4 | model[2 * i + 1];
        CHECK(int(uint8_t(buf[i])) == want, "byte ", i, " is ", int(uint8_t(buf[i])), " instead of ",
            want);
    }
    char const* q = buf.get();
    for (auto& f : fs) {
        uint64_t got = 0;
        switch (f.type) {
        case 0: got = from_bcd<int8_t>(&q, f.skip, f.n); break;
        case 1: got = from_bcd<uint8_t>(&q, f.skip, f.n); break;
        case 2: got = from_bcd<int16_t>(&q, f.skip, f.n); break;
        case 3: got = from_bcd<uint16_t>(&q, f.skip, f.n); break;
        case 4: got = from_bcd<int32_t>(&q, f.skip, f.n); break;
        case 5: got = from_bcd<uint32_t>(&q, f.skip, f.n); break;
        case 6: got = from_bcd<int64_t>(&q, f.skip, f.n); break;
        default: got = from_bcd<uint64_t>(&q, f.skip, f.n);
        }
        CHECK(got == f.v, "from_bcd returned ", got, " for ", f.v, " in ", f.n, " digits, skip ",
            f.skip);
        size_t used = q - buf.get(), want = (f.at + f.n) / 2;
        CHECK(used == want, "from_bcd stopped at byte ", used, " instead of ", want);
    }
    for (size_t i = 0; i < bytes; ++i)
        CHECK(int(uint8_t(buf[i])) == (model[2 * i] << 4 | model[2 * i + 1]), "from_bcd wrote");
}

template <class T> static void number(Gen& g, char const* name)
{
    uint64_t bits = g.pattern(sizeof(T) * 8);
    g.describe(cat(name, " ", bits));
    T v;
    memcpy(&v, &bits, sizeof(T));
    size_t off = g.choice(7), n = sizeof(T);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[off + n + 3]);
    memset(buf.get(), 0xa5, off + n + 3);
    char* p = reinterpret_cast<char*>(buf.get()) + off;
    write<T>(&p, v);
    CHECK(p == reinterpret_cast<char*>(buf.get()) + off + n, "write did not advance by ", n);
    for (size_t i = 0; i < off + n + 3; ++i) {
        unsigned char want = i < off || i >= off + n ? 0xa5 : (bits >> 8 * (i - off)) & 0xff;
        CHECK(buf[i] == want, name, ": byte ", i, " is ", int(buf[i]), " instead of ", int(want));
    }
    char const* q = reinterpret_cast<char*>(buf.get()) + off;
    T r = read<T>(&q);
    CHECK(q == reinterpret_cast<char*>(buf.get()) + off + n, "read did not advance by ", n);
    CHECK(memcmp(&r, &v, n) == 0, name, " read back differently");
    T s = sedaman::swap<T>(v);
    unsigned char sb[sizeof(T)], vb[sizeof(T)];
    memcpy(sb, &s, n);
    memcpy(vb, &v, n);
    for (size_t i = 0; i < n; ++i) CHECK(sb[i] == vb[n - 1 - i], name, ": swap is no reversal");
    T ss = sedaman::swap<T>(s);
    CHECK(memcmp(&ss, &v, n) == 0, name, ": swap is no involution");
}

PROPERTY("C14", "numbers", 2700000, 20000000, "type of more than one byte")
{
    int t = g.choice(9);
    if (t > 1) g.nontrivial();
    switch (t) {
    case 0: return number<int8_t>(g, "int8");
    case 1: return number<uint8_t>(g, "uint8");
    case 2: return number<int16_t>(g, "int16");
    case 3: return number<uint16_t>(g, "uint16");
    case 4: return number<int32_t>(g, "int32");
    case 5: return number<uint32_t>(g, "uint32");
    case 6: return number<int64_t>(g, "int64");
    case 7: return number<uint64_t>(g, "uint64");
    case 8: return number<float>(g, "float");
    default: return number<double>(g, "double");
    }
}

// ---------------------------------------------------------------- C30
using Value = Trace::Header::Value;
using Model = std::map<string, Value>;

static string key(Gen& g)
{
    static vector<string> const k = { "A", "B", "FFID", "SAMP_NUM", "", "a key with spaces",
        string("nul\0key", 7), "CHAN", "OFFSET", "XLINE_LONGER_THAN_SSO_BUFFER_OF_STRINGS" };
    return g.pick(k);
}
static Value value(Gen& g)
{
    if (g.chance(50)) return int64_t(g.pattern(64));
    static vector<double> const d = { 0.0, -0.0, 1.5, -1e308, 5e-324, INFINITY, 1e15 };
    return g.pick(d);
}
static bool same(Value const& a, Value const& b)
{
    if (a.index() != b.index()) return false;
    if (a.index() == 0) return std::get<0>(a) == std::get<0>(b);
    double x = std::get<1>(a), y = std::get<1>(b);
    return memcmp(&x, &y, 8) == 0;
}
static void same_header(Trace::Header const& h, Model const& m, char const* what)
{
    auto ks = h.keys();
    std::set<string> got(ks.begin(), ks.end());
    CHECK(got.size() == ks.size(), what, ": keys() has duplicates");
    CHECK(got.size() == m.size(), what, ": ", got.size(), " keys instead of ", m.size());
    for (auto& [k, v] : m) {
        CHECK(got.count(k), what, ": keys() lacks ", k);
        auto o = h.get(k);
        CHECK(o.has_value(), what, ": no value for ", k);
        CHECK(same(*o, v), what, ": other value for ", k);
    }
    CHECK(!h.get("NOT_THERE"), what, ": value for a key never set");
    auto ks2 = h.keys();
    CHECK(ks2.size() == ks.size(), what, ": get added a key");
}

PROPERTY("C30", "traces", 130000, 3250000,
    "history of at least six operations with a copy, move or assignment followed by a set")
{
    struct T {
        std::unique_ptr<Trace> t;
        Model m;
        vector<double> s;
        bool moved = false;
    };
    struct H {
        std::unique_ptr<Trace::Header> h;
        Model m;
        bool moved = false;
    };
    vector<T> ts;
    vector<H> hs;
    auto gen_model = [&] {
        Model m;
        int n = g.size(5);
        for (int i = 0; i < n; ++i) m[key(g)] = value(g);
        return m;
    };
    auto um = [](Model const& m) {
        return std::unordered_map<string, Value>(m.begin(), m.end());
    };
    auto new_trace = [&] {
        T t;
        t.m = gen_model();
        t.s.resize(g.size(6));
        Rng r = g.sub();
        for (auto& x : t.s) x = double(int64_t(r.next() >> 20));
        t.t = std::make_unique<Trace>(um(t.m), t.s);
        ts.push_back(std::move(t));
    };
    new_trace();
    int n = g.range(1, 24), shared = -1;
    bool nt = false;
    string d;
    for (int i = 0; i < n; ++i) {
        size_t a = g.choice(ts.size() - 1), b = g.choice(ts.size() - 1);
        int op = g.choice(13);
        d += char('a' + op);
        switch (op) {
        case 0: new_trace(); break;
        case 1: case 2: case 11: // set in place
            if (ts[a].moved) break;
            {
                string k = key(g);
                Value v = value(g);
                ts[a].t->header().set(k, v);
                ts[a].m[k] = v;
                if (shared >= 0) nt = true;
            }
            break;
        case 3: // copy
            if (ts[a].moved) break;
            {
                T t;
                t.t = std::make_unique<Trace>(*ts[a].t);
                t.m = ts[a].m;
                t.s = ts[a].s;
                ts.push_back(std::move(t));
                shared = i;
            }
            break;
        case 4: // copy assignment, also to itself
            if (ts[b].moved) break;
            *ts[a].t = *ts[b].t;
            ts[a].m = Model(ts[b].m);
            ts[a].s = vector<double>(ts[b].s);
            ts[a].moved = false;
            shared = i;
            break;
        case 5: // move construction
            if (ts[a].moved) break;
            {
                T t;
                t.t = std::make_unique<Trace>(std::move(*ts[a].t));
                t.m = ts[a].m;
                t.s = ts[a].s;
                ts[a].moved = true;
                ts.push_back(std::move(t));
                shared = i;
            }
            break;
        case 6: // move assignment
            if (ts[b].moved || a == b) break;
            *ts[a].t = std::move(*ts[b].t);
            ts[a].m = ts[b].m;
            ts[a].s = ts[b].s;
            ts[a].moved = false;
            ts[b].moved = true;
            shared = i;
            break;
        case 7: // header out of a trace
            if (ts[a].moved) break;
            {
                H h;
                h.h = std::make_unique<Trace::Header>(ts[a].t->header_const());
                h.m = ts[a].m;
                hs.push_back(std::move(h));
                shared = i;
            }
            break;
        case 8: // header into a trace
            if (ts[a].moved || hs.empty()) break;
            {
                H& h = hs[g.choice(hs.size() - 1)];
                if (h.moved) break;
                if (g.chance(50)) {
                    ts[a].t->header() = *h.h;
                    ts[a].m = h.m;
                } else {
                    ts[a].t->header() = std::move(*h.h);
                    ts[a].m = h.m;
                    h.moved = true;
                }
                shared = i;
            }
            break;
        case 9: // stand-alone headers
            {
                H h;
                h.m = gen_model();
                h.h = std::make_unique<Trace::Header>(um(h.m));
                hs.push_back(std::move(h));
            }
            break;
        case 10: // destroy
            if (ts.size() > 1) ts.erase(ts.begin() + a);
            break;
        case 12:
            if (hs.empty()) break;
            {
                H& h = hs[g.choice(hs.size() - 1)];
                if (h.moved) break;
                string k = key(g);
                Value v = value(g);
                h.h->set(k, v);
                h.m[k] = v;
                if (shared >= 0) nt = true;
            }
            break;
        default:
            if (hs.empty()) break;
            {
                size_t x = g.choice(hs.size() - 1), y = g.choice(hs.size() - 1);
                if (hs[y].moved) break;
                if (x == y || g.chance(50)) {
                    *hs[x].h = *hs[y].h;
                    hs[x].m = Model(hs[y].m);
                } else {
                    *hs[x].h = std::move(*hs[y].h);
                    hs[x].m = hs[y].m;
                    hs[y].moved = true;
                }
                hs[x].moved = false;
                shared = i;
            }
        }
        for (auto& t : ts)
            if (!t.moved) {
                same_header(t.t->header_const(), t.m, "trace header");
                CHECK(t.t->samples() == t.s, "samples differ");
            }
        for (auto& h : hs)
            if (!h.moved) same_header(*h.h, h.m, "header");
    }
    if (n >= 6 && nt) g.nontrivial();
    g.describe("operations " + d);
}

static string message(Gen& g)
{
    size_t n = g.chance(20) ? g.range(100, 2000) : g.size(40);
    string s(n, 0);
    Rng r = g.sub();
    for (auto& c : s) c = char(1 + r.below(255));
    return s;
}

[[noreturn]] static void rethrow_deep(Exception const& e, int depth, int how)
{
    if (!depth) throw e;
    try {
        rethrow_deep(e, depth - 1, how);
    } catch (Exception& x) {
        switch (how) {
        case 0: throw;
        case 1: throw x;
        case 2: {
            Exception y(x);
            throw y;
        }
        default: {
            Exception y(std::move(x));
            throw y;
        }
        }
    }
}

PROPERTY("C30", "exceptions", 130000, 3250000, "exception copied, moved or rethrown at least once")
{
    string f = message(g), m = message(g);
    unsigned long long line = g.pattern(64);
    g.describe(cat("file ", f.size(), " chars, message ", m.size(), " chars, line ", line));
    auto e = g.chance(50) ? std::make_unique<Exception>(f, line, m)
                          : std::make_unique<Exception>(string(f), line, string(m));
    string what = e->what();
    CHECK(what.find(m) != string::npos, "what() lacks the message");
    CHECK(what.find(f) != string::npos, "what() lacks the file");
    CHECK(what.find(std::to_string(line)) != string::npos, "what() lacks the line");
    int n = g.range(0, 6);
    if (n) g.nontrivial();
    for (int i = 0; i < n; ++i) {
        switch (g.choice(4)) {
        case 0: {
            auto c = std::make_unique<Exception>(*e);
            CHECK(what == e->what(), "copying changed the original's message");
            e = std::move(c);
            break;
        }
        case 1: e = std::make_unique<Exception>(std::move(*e)); break;
        case 2:
            try {
                throw *e;
            } catch (std::exception const& x) {
                CHECK(what == x.what(), "message lost when thrown by value");
            }
            break;
        case 3: {
            std::exception_ptr p = std::make_exception_ptr(*e);
            e.reset();
            try {
                std::rethrow_exception(p);
            } catch (Exception const& x) {
                CHECK(what == x.what(), "message lost in exception_ptr");
                e = std::make_unique<Exception>(x);
            }
            break;
        }
        default:
            try {
                rethrow_deep(*e, g.range(1, 4), g.choice(3));
            } catch (Exception& x) {
                CHECK(what == x.what(), "message lost when rethrown");
                e = std::make_unique<Exception>(x);
            }
        }
        CHECK(what == e->what(), "message changed to ", e->what());
    }
}

// ---------------------------------------------------------------- C32
static string norm(string const& s)
{
    string r;
    for (unsigned char c : s)
        if (isalnum(c)) r += char(tolower(c));
    return r;
}
static size_t distance(string const& a, string const& b)
{
    vector<size_t> d(b.size() + 1);
    for (size_t j = 0; j <= b.size(); ++j) d[j] = j;
    for (size_t i = 1; i <= a.size(); ++i) {
        size_t diag = d[0];
        d[0] = i;
        for (size_t j = 1; j <= b.size(); ++j) {
            size_t n = std::min({ d[j] + 1, d[j - 1] + 1, diag + (a[i - 1] != b[j - 1]) });
            diag = d[j];
            d[j] = n;
        }
    }
    return d[b.size()];
}
// spelling may differ from the golden text, the meaning may not: the text has to
// be nearer to the golden text of its own field than to that of any other
template <class Golden>
static void judge(string const& what, string const& got, string const& want, Golden const& others)
{
    CHECK(!got.empty(), what, " has an empty text");
    string g = norm(got), w = norm(want);
    if (g == w) return;
    size_t own = distance(g, w);
    CHECK(own * 5 <= 2 * std::max<size_t>(w.size(), 5), what, " is described as \"", got,
        "\" instead of \"", want, "\"");
    for (auto& o : others)
        if (norm(o) != w)
            CHECK(distance(g, norm(o)) > own, what, " is described as \"", got,
                "\", which means \"", o, "\"");
}

PROPERTY("C32", "names", 600000, 5000000, "at least two lookups in classes of more than two names")
{
    auto& t = name_tables();
    int n = g.range(1, 6);
    bool big = false;
    for (int i = 0; i < n; ++i) {
        auto& c = t[g.choice(t.size() - 1)];
        size_t e = g.choice(c.golden.size() - 1);
        if (c.golden.size() > 2) big = true;
        char const* p = c.get(int(e));
        CHECK(p, c.cls, " enumerator ", e, " has no text");
        string got = p;
        g.tag(c.cls);
        if (i == 0) g.describe(cat(c.cls, "[", e, "] ", got));
        judge(cat(c.cls, "[", e, "]"), got, c.golden[e], c.golden);
        size_t o = g.choice(c.golden.size() - 1);
        if (o != e)
            CHECK(got != string(c.get(int(o))), c.cls, ": enumerators ", e, " and ", o,
                " have the same text");
        CHECK(string(c.get(int(e))) == got, "second lookup differs");
    }
    if (big && n >= 2) g.nontrivial();
}

PROPERTY("C32", "descriptions", 100000, 500000, "key of the default trace header map")
{
    auto& maps = CommonSEGY::default_trace_header;
    CHECK(!maps.empty(), "no default map");
    auto& m = maps[g.choice(maps.size() - 1)];
    CHECK(m.first.size() == 8, "map name ", m.first, " is not eight characters long");
    CHECK(!m.second.empty(), "empty map ", m.first);
    auto it = m.second.begin();
    std::advance(it, g.choice(m.second.size() - 1));
    string k = it->second.first;
    g.describe(k);
    g.nontrivial();
    auto d = CommonSEGY::trace_header_description.find(k);
    if (k.rfind("SEG0", 0) == 0) return;
    CHECK(d != CommonSEGY::trace_header_description.end(), "key ", k,
        " of the default map has no description");
    auto& gold = golden_descriptions();
    auto w = gold.find(k);
    if (w == gold.end()) return;
    vector<string> others;
    for (auto& [a, b] : gold) others.push_back(b);
    judge("key " + k, d->second, w->second, others);
    // valid map: fields inside the header, no overlap
    static uint32_t const size[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
    uint32_t end = it->first + size[static_cast<int>(it->second.second)];
    CHECK(end <= 240, "key ", k, " reaches behind the header");
    auto nx = std::next(it);
    if (nx != m.second.end()) CHECK(end <= nx->first, k, " overlaps ", nx->second.first);
}
