// C33: several objects at the same time.
#include "segd_out.hpp"
#include <thread>
using namespace segd;

static std::string bits(Value const& v)
{
    return v.index() == 0 ? cat("i", std::get<0>(v)) : cat("d", f64_bits(std::get<1>(v)));
}
static std::string log_header(Trace::Header& h)
{
    std::map<std::string, std::string> m;
    for (auto& k : h.keys()) m[k] = bits(*h.get(k));
    std::string s;
    for (auto& kv : m) s += kv.first + "=" + kv.second + " ";
    return s;
}
static std::string log_trace(Trace& t)
{
    std::string s = log_header(t.header());
    uint64_t hash = t.samples().size();
    for (double d : t.samples()) hash = hash * 1099511628211ull ^ f64_bits(d);
    return s + cat("#", hash);
}
struct Actor {
    std::string kind;
    std::string out;                                // file written, if any
    std::vector<std::function<std::string()>> steps; // first one opens, last one closes
};
// A blueprint can be instantiated several times, each with its own objects.
using Blueprint = std::function<Actor(std::string const& suffix)>;

static std::string guard(std::function<std::string()> const& f)
{
    try {
        return f();
    } catch (Fail&) {
        throw;
    } catch (std::exception&) {
        return "exception";
    }
}

struct SharedFile {
    bool segd = false;
    std::string path;
    LibMaps maps;
    ExtMaps xmaps;
    std::string key;
};
static Blueprint reader(Gen& g, SharedFile const& sf)
{
    size_t n = 1 + g.choice(12);
    std::vector<int> ops;
    for (size_t i = 0; i < n; ++i) ops.push_back((int)g.choice(9));
    if (sf.segd)
        return [=](std::string const&) {
            Actor a;
            a.kind = "ISEGD";
            auto s = std::make_shared<std::unique_ptr<ISEGD>>();
            a.steps.push_back([=] {
                *s = std::make_unique<ISEGD>(sf.path, sf.xmaps);
                return "open";
            });
            for (int op : ops)
                a.steps.push_back([=]() -> std::string {
                    if (!*s) return "closed";
                    if (op < 6) {
                        if (!(*s)->has_trace()) return "end";
                        Trace t = (*s)->read_trace();
                        return log_trace(t);
                    }
                    if (op == 6)
                        return cat((*s)->has_record(), (*s)->has_trace(),
                                   (*s)->general_header().file_number, " ",
                                   (*s)->general_header().gen_const);
                    if (op == 7)
                        return cat((*s)->channel_set_headers().size(),
                                   (*s)->extended_headers().size(), (*s)->general_headerN().size());
                    int k = 0;
                    for (auto& x : kinds()) k = k * 2 + x.present(**s);
                    return cat(k);
                });
            a.steps.push_back([=] { return s->reset(), "closed"; });
            return a;
        };
    bool sorted = g.chance(30);
    return [=](std::string const&) {
        Actor a;
        a.kind = sorted ? "ISEGYSorted1D" : "ISEGY";
        auto s = std::make_shared<std::unique_ptr<ISEGY>>();
        a.steps.push_back([=] {
            if (sorted) *s = std::make_unique<ISEGYSorted1D>(sf.path, sf.key, sf.maps);
            else *s = std::make_unique<ISEGY>(sf.path, sf.maps);
            return "open";
        });
        for (int op : ops)
            a.steps.push_back([=]() -> std::string {
                if (!*s) return "closed";
                if (op < 5) {
                    if (!(*s)->has_trace()) return "end";
                    Trace t = (*s)->read_trace();
                    return log_trace(t);
                }
                if (op == 5) {
                    if (!(*s)->has_trace()) return "end";
                    Trace::Header h = (*s)->read_header();
                    return log_header(h);
                }
                if (op == 6) return (*s)->text_headers()[0];
                if (op == 7) return encode_bin((*s)->binary_header(), true);
                if (sorted) {
                    auto* q = static_cast<ISEGYSorted1D*>(s->get());
                    std::string r;
                    for (auto& k : q->get_keys()) {
                        r += bits(k) + ":";
                        for (auto& t : q->get_traces(k, 3)) {
                            Trace c = t;
                            r += log_trace(c);
                        }
                    }
                    return r;
                }
                return cat((*s)->has_trace(), (*s)->trailer_stanzas().size());
            });
        a.steps.push_back([=] { return s->reset(), "closed"; });
        return a;
    };
}
static Blueprint writer(Gen& g, std::string const& base)
{
    if (g.chance(50)) {
        DOpts o;
        o.writer = true;
        o.rev = 1 + (int)g.choice(1);
        o.max_traces = 6;
        o.max_samples = 20;
        XMaps m = g.chance(50) ? gen_xmaps(g) : XMaps {};
        auto r = std::make_shared<Record>(gen_record(g, o, m));
        return [=](std::string const& suffix) {
            Actor a;
            a.kind = "OSEGD";
            a.out = base + suffix;
            auto w = std::make_shared<std::unique_ptr<OSEGDRev2_1>>();
            std::string out = a.out;
            a.steps.push_back([=] { return *w = args(*r, m).open(out), "open"; });
            for (size_t i = 0; i < r->traces.size(); ++i)
                a.steps.push_back([=] {
                    std::unordered_map<std::string, Value> h;
                    for (auto& kv : expect_header(*r, r->traces[i], m)) h[kv.first] = kv.second;
                    Trace t(h, values(*r, r->traces[i]));
                    return (*w)->write_trace(t), "written";
                });
            a.steps.push_back([=] { return w->reset(), "closed"; });
            return a;
        };
    }
    Opts oo;
    oo.big = false;
    oo.max_traces = 8;
    auto f = std::make_shared<File>(gen_writer_file(g, oo));
    return [=](std::string const& suffix) {
        Actor a;
        a.kind = "OSEGY";
        a.out = base + suffix;
        auto w = std::make_shared<std::unique_ptr<Writer>>();
        std::string out = a.out;
        a.steps.push_back([=] { return *w = std::make_unique<Writer>(out, *f), "open"; });
        for (size_t i = 0; i < f->traces.size(); ++i)
            a.steps.push_back([=] {
                Trace t = to_trace(*f, f->traces[i]);
                return (*w)->write(t), "written";
            });
        a.steps.push_back([=] { return w->reset(), "closed"; });
        return a;
    };
}
static SharedFile gen_shared(Gen& g, std::string const& p)
{
    SharedFile s;
    s.path = p;
    s.segd = g.chance(50);
    if (s.segd) {
        DOpts o;
        o.max_traces = 6;
        o.max_samples = 20;
        XMaps m = g.chance(50) ? gen_xmaps(g) : XMaps {};
        Bytes b;
        for (size_t n = 1 + g.size(2); n; --n) b += gen_record(g, o, m).encode();
        write_file(p, b);
        s.xmaps = lib(m);
    } else {
        Opts o;
        o.big = false;
        o.max_traces = 10;
        o.min_traces = 1;
        File f = gen_file(g, o);
        write_file(p, f.encode());
        s.maps = lib(f.maps);
        s.key = "FFID";
        // any integral key
        for (auto& m : f.maps)
            for (auto& x : m.fields)
                if (!vt_float(x.type) && g.chance(20)) s.key = x.key;
    }
    return s;
}
static std::vector<Blueprint> gen_actors(Gen& g, size_t n)
{
    std::vector<SharedFile> files;
    std::vector<Blueprint> bs;
    for (size_t i = 0; i < n; ++i) {
        if (g.chance(40)) bs.push_back(writer(g, g.path(cat("w", i))));
        else {
            if (files.empty() || g.chance(60)) files.push_back(gen_shared(g, g.path(cat("r", i))));
            bs.push_back(reader(g, g.pick(files)));
        }
    }
    return bs;
}
struct Result {
    std::vector<std::string> log;
    Bytes out;
};
static Result alone(Actor a)
{
    Result r;
    for (auto& s : a.steps) r.log.push_back(guard(s));
    if (!a.out.empty()) r.out = read_file(a.out), remove(a.out.c_str());
    return r;
}
static void compare(Actor const& a, Result const& want, Result const& got, char const* how)
{
    for (size_t i = 0; i < want.log.size(); ++i)
        CHECK(got.log[i] == want.log[i], a.kind, " step ", i, " of ", want.log.size(), " ", how,
              " gives\n", got.log[i].substr(0, 300), "\ninstead of\n", want.log[i].substr(0, 300));
    if (!a.out.empty()) check_bytes(got.out, want.out, cat(a.kind, " file ", how));
}
PROPERTY("C33", "interleaved", 5000, 125000,
         "2 to 6 readers and writers of all classes on own or shared files, their operations in a "
         "random interleaving on one thread; oracle: logs and files of each object used alone; "
         "non-trivial = at least two objects open at the same time")
{
    size_t n = 2 + g.size(4);
    auto bs = gen_actors(g, n);
    std::vector<Result> want, got(n);
    for (auto& b : bs) want.push_back(alone(b(".alone")));
    std::vector<Actor> as;
    for (auto& b : bs) as.push_back(b(".mixed"));
    std::vector<size_t> pos(n, 0);
    size_t left = 0, open_max = 0;
    for (auto& a : as) left += a.steps.size();
    std::string kinds_s;
    for (auto& a : as) kinds_s += a.kind + " ";
    g.describe(kinds_s);
    while (left--) {
        size_t i = g.choice(n - 1);
        while (pos[i] == as[i].steps.size()) i = (i + 1) % n;
        got[i].log.push_back(guard(as[i].steps[pos[i]++]));
        size_t open = 0;
        for (size_t k = 0; k < n; ++k) open += pos[k] > 0 && pos[k] < as[k].steps.size();
        open_max = std::max(open_max, open);
    }
    for (size_t i = 0; i < n; ++i) {
        if (!as[i].out.empty()) got[i].out = read_file(as[i].out), remove(as[i].out.c_str());
        compare(as[i], want[i], got[i], "interleaved");
    }
    if (open_max > 1) g.nontrivial();
}
PROPERTY("C33", "threads", 800, 20000,
         "2 to 6 readers and writers, each used by a thread of its own, repeatedly; oracle: logs "
         "and files of each object used alone; non-trivial = always")
{
    size_t n = 2 + g.size(4);
    auto bs = gen_actors(g, n);
    std::vector<Result> want;
    for (auto& b : bs) want.push_back(alone(b(".alone")));
    std::vector<std::string> failed(n);
    std::vector<std::thread> ts;
    int reps = g.mode == Gen::Replay ? 120 : 6; // a schedule cannot be replayed, so try many
    for (size_t i = 0; i < n; ++i)
        ts.emplace_back([&, i] {
            for (int k = 0; k < reps && failed[i].empty(); ++k) try {
                    Actor a = bs[i](cat(".t", k));
                    compare(a, want[i], alone(a), "in a thread");
                } catch (Fail& f) {
                    failed[i] = f.msg;
                } catch (std::exception& e) {
                    failed[i] = e.what();
                }
        });
    for (auto& t : ts) t.join();
    for (auto& f : failed) CHECK(f.empty(), f);
    g.describe(cat(n, " threads"));
    g.nontrivial();
}
