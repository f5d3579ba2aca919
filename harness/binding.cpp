// C34: the Python binding, executed through a stand-in for pybind11.
#include "pybind11/pybind11.h"
#include "names_golden.hpp"
#include "segd_out.hpp"
#include <typeinfo>
using namespace segd;
namespace py = pybind11;
using py::Val;
using PArgs = py::Args;
using Kw = py::Kwargs;
using sedaman::CommonSEGY;
using sedaman::ISEGYSorted1D;

// ---- Python ----
static py::Registry& module()
{
    static std::string err = [] {
        try {
            for (auto f : py::reg().inits) f();
            return std::string(py::reg().inits.empty() ? "no module defined" : "");
        } catch (std::exception& e) {
            return std::string(e.what()) + " ";
        }
    }();
    CHECK(err.empty(), "the module cannot be imported: ", err);
    return py::reg();
}
static py::Class& cls(std::string const& path)
{
    auto it = module().by_path.find(path);
    CHECK(it != module().by_path.end(), "the module has no ", path);
    return module().classes.at(it->second);
}
static py::Attr* find_attr(py::Class& c, std::string const& n)
{
    auto it = c.attrs.find(n);
    if (it != c.attrs.end()) return &it->second;
    for (auto& b : c.bases)
        if (auto* a = find_attr(module().classes.at(b.first), n)) return a;
    return nullptr;
}
static py::Attr& attr(py::Class& c, std::string const& n)
{
    auto* a = find_attr(c, n);
    CHECK(a, c.path, " has no attribute ", n);
    return *a;
}
static py::Class& type_of(Val const& v)
{
    CHECK(v.k == Val::Inst, "an object expected");
    return module().classes.at(v.t);
}
static Val construct(std::string const& path, PArgs a, Kw kw = {})
{
    py::Attr& i = attr(cls(path), "__init__");
    return py::call(i.fns, std::move(a), kw);
}
static Val meth(Val const& self, std::string const& n, PArgs a = {}, Kw kw = {})
{
    a.insert(a.begin(), self);
    py::Attr& m = attr(type_of(self), n);
    CHECK(!m.fns.empty(), type_of(self).path, ".", n, " is not a function");
    return py::call(m.fns, std::move(a), kw);
}
static Val get(Val const& self, std::string const& n)
{
    py::Attr& a = attr(type_of(self), n);
    if (a.get) return a.get(self);
    CHECK(a.sget, type_of(self).path, ".", n, " is not a value");
    return a.sget();
}
static void set(Val const& self, std::string const& n, Val const& v)
{
    py::Attr& a = attr(type_of(self), n);
    CHECK(a.set, type_of(self).path, ".", n, " cannot be assigned");
    a.set(self, v);
}
static Val stat(std::string const& path, std::string const& n)
{
    py::Attr& a = attr(cls(path), n);
    CHECK(a.sget, path, ".", n, " is not a value");
    return a.sget();
}
static Val statcall(std::string const& path, std::string const& n, PArgs a)
{
    py::Attr& m = attr(cls(path), n);
    CHECK(!m.fns.empty(), path, ".", n, " is not a function");
    return py::call(m.fns, std::move(a), {});
}
template <class T> Val P(T const& x) { return py::to_py(x, {}); }
static Val pybytes(std::string const& s)
{
    Val v;
    v.k = Val::Bytes;
    v.s = s;
    return v;
}
template <class T> Val wrap(std::shared_ptr<T> p) { return py::make_inst(p); }

// ---- fields ----
struct FieldInfo {
    std::string name;
    bool text;
    size_t width;                                  // bytes of a text, bits of a number
    std::function<Val(void*)> get;
    std::function<void(void*, Rng&)> randomise;
    std::function<Val(Rng&)> value;                // something to assign
};
struct ClassInfo {
    std::string path;
    std::type_index t = typeid(void);
    std::function<std::shared_ptr<void>()> make;
    std::vector<FieldInfo> fields;
};
template <class M> M random_number(Rng& r)
{
    if constexpr (std::is_floating_point_v<M>) {
        double d;
        switch (r.below(3)) {
        case 0: d = (double)(int64_t)r.pattern(32); break;
        case 1: d = (double)(int64_t)r.next() / 65536; break;
        default: {
            uint64_t u = r.pattern(64);
            memcpy(&d, &u, 8);
            if (std::isnan(d)) d = 0.5;
        }
        }
        return (M)d;
    } else return (M)r.pattern(sizeof(M) * 8);
}
template <class C, class M> FieldInfo number(char const* n, M C::*m)
{
    return { n, false, sizeof(M) * 8, [m](void* p) { return P(static_cast<C*>(p)->*m); },
             [m](void* p, Rng& r) { static_cast<C*>(p)->*m = random_number<M>(r); },
             [](Rng& r) { return P(random_number<M>(r)); } };
}
template <class C, size_t N> FieldInfo text(char const* n, char (C::*m)[N])
{
    return { n, true, N, [m](void* p) { return P(std::string(static_cast<C*>(p)->*m, N)); },
             [m](void* p, Rng& r) {
                 for (auto& c : static_cast<C*>(p)->*m) c = (char)(r.below(8) ? 32 + r.below(95) : r.next());
             },
             [](Rng& r) {
                 std::string s;
                 for (size_t k = r.below(3) ? r.below(N + 1) : r.below(3 * N); k; --k)
                     s += (char)(33 + r.below(94));
                 return P(s);
             } };
}
template <class C> std::shared_ptr<C> make_obj() { return std::make_shared<C>(); }
template <> std::shared_ptr<CS> make_obj<CS>() { return std::make_shared<CS>(to_cs(Bytes(32, '\0'))); }
__attribute__((no_sanitize("address"), optimize("O0"))) static std::vector<ClassInfo> const& infos()
{
    static std::vector<ClassInfo> const all = [] {
        std::vector<ClassInfo> v;
        auto of = [&](std::string path, std::type_index t, std::function<std::shared_ptr<void>()> mk) -> ClassInfo& {
            for (auto& c : v)
                if (c.t == t) return c;
            v.push_back({ path, t, mk, {} });
            return v.back();
        };
#define F(outer, c, f)                                                           \
    of(#outer "." #c, typeid(outer::c), [] { return make_obj<outer::c>(); })     \
        .fields.push_back(number<outer::c>(#f, &outer::c::f));
#define T(outer, c, f)                                                           \
    of(#outer "." #c, typeid(outer::c), [] { return make_obj<outer::c>(); })     \
        .fields.push_back(text<outer::c>(#f, &outer::c::f));
#include "binding_fields.hpp"
#undef F
#undef T
        return v;
    }();
    return all;
}

// ---- canonical text of a Python value ----
static std::string dump(Val const& v);
static std::string quote(std::string const& s)
{
    std::string o = "'";
    for (char c : s) o += c >= 32 && c < 127 && c != '\'' ? std::string(1, c) : "\\" + hex(std::string(1, c));
    return o + "'";
}
static std::string dump_header(Trace::Header const& h)
{
    std::map<std::string, std::string> m;
    for (auto& k : h.keys()) {
        auto v = h.get(k);
        m[k] = v ? dump(P(*v)) : "none";
    }
    std::string s = "{";
    for (auto& kv : m) s += kv.first + "=" + kv.second + " ";
    return s + "}";
}
static std::string dump_inst(Val const& v)
{
    void* p = v.p.get();
    if (v.t == typeid(Trace)) {
        Trace& t = *static_cast<Trace*>(p);
        return "Trace" + dump_header(t.header()) + dump(P(t.samples()));
    }
    if (v.t == typeid(Trace::Header)) return "Header" + dump_header(*static_cast<Trace::Header*>(p));
    if (v.t == typeid(VT)) return cat("VT", (int)*static_cast<VT*>(p));
    for (auto& c : infos())
        if (c.t == v.t) {
            std::string s = c.path + "{";
            for (auto& f : c.fields) s += f.name + "=" + dump(f.get(p)) + " ";
            if (v.t == typeid(CS)) {
                CS& h = *static_cast<CS*>(p);
                s += dump(P(h.number_of_samples())) + dump(P(h.samp_int())) + dump(P(h.filter_phase())) +
                    dump(P(h.physical_unit())) + dump(P(h.filter_delay())) + dump(P(h.description()));
            }
            return s + "}";
        }
    return cat("object of ", v.t.name());
}
static std::string dump(Val const& v)
{
    switch (v.k) {
    case Val::None: return "None";
    case Val::Bool: return v.i ? "True" : "False";
    case Val::Int: {
        bool neg = v.i < 0;
        return cat(neg ? "-" : "", (unsigned long long)(neg ? -v.i : v.i));
    }
    case Val::Float: return std::isnan(v.d) ? "nan" : cat(v.d, std::signbit(v.d) ? "-f" : "f");
    case Val::Str:
    case Val::Bytes: return quote(v.s);
    case Val::List:
    case Val::Tuple: {
        std::string s = "[";
        for (auto& x : v.v) s += dump(x) + ",";
        return s + "]";
    }
    case Val::Dict: {
        std::map<std::string, std::string> m;
        for (size_t i = 0; i < v.v.size(); i += 2) m[dump(v.v[i])] = dump(v.v[i + 1]);
        std::string s = "{";
        for (auto& kv : m) s += kv.first + ":" + kv.second + ",";
        return s + "}";
    }
    case Val::Inst: return dump_inst(v);
    default: return "function";
    }
}
static std::string brief(std::string const& s)
{
    return s.size() > 700 ? s.substr(0, 700) + "..." : s;
}
static void same_text(std::string const& got, std::string const& want, std::string const& what)
{
    if (got == want) return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t b = i > 60 ? i - 60 : 0;
    fail(cat(what, ": the binding gives ...", brief(got.substr(b)), " where the library gives ...",
             brief(want.substr(b))));
}
static void same_val(Val const& got, Val const& want, std::string const& what)
{
    same_text(dump(got), dump(want), what);
}
// result or kind of failure of a call
static std::string outcome(std::function<std::string()> const& f)
{
    try {
        return f();
    } catch (Fail&) {
        throw;
    } catch (py::stop_iteration&) {
        return "StopIteration";
    } catch (std::exception&) {
        return "exception";
    }
}

// ================= fields =================
PROPERTY("C34", "fields", 9000, 200000,
         "a header object with random content of which at least one attribute was read and one assigned through the binding")
{
    module();
    ClassInfo const& c = infos()[g.choice(infos().size() - 1)];
    Rng r = g.sub();
    auto p = c.make();
    for (auto& f : c.fields) f.randomise(p.get(), r);
    Val o;
    o.k = Val::Inst;
    o.t = c.t;
    o.p = p;
    CHECK(cls(c.path).t == c.t, c.path, " is bound to another class");
    for (auto& f : c.fields) same_val(get(o, f.name), f.get(p.get()), c.path + "." + f.name);
    std::string log = c.path;
    for (size_t n = 1 + g.choice(5); n; --n) {
        FieldInfo const& f = c.fields[g.choice(c.fields.size() - 1)];
        std::vector<std::string> before;
        for (auto& x : c.fields) before.push_back(dump(x.get(p.get())));
        Val v = f.value(r);
        set(o, f.name, v);
        log += cat("; ", f.name, " = ", brief(dump(v)));
        Val want = v;
        if (f.text) want.s.resize(f.width);
        same_val(f.get(p.get()), want, cat(c.path, ".", f.name, " assigned ", dump(v)));
        same_val(get(o, f.name), want, cat(c.path, ".", f.name, " assigned ", dump(v), " and read"));
        for (size_t i = 0; i < c.fields.size(); ++i)
            if (c.fields[i].name != f.name)
                same_text(dump(c.fields[i].get(p.get())), before[i],
                          cat(c.path, ".", c.fields[i].name, " after assigning ", f.name));
    }
    g.describe(log);
    g.tag(c.path);
    g.nontrivial();
}
// a number that does not fit is refused, not truncated
PROPERTY("C34", "descriptors", 3000, 60000, "a channel set descriptor of revision 0-2 or 3 with random content")
{
    module();
    Rng r = g.sub();
    bool rev3 = g.choice(1);
    std::shared_ptr<CS> c;
    auto n = [&](int bits) { return r.pattern(bits); };
    std::array<char, 27> d;
    for (auto& x : d) x = (char)(32 + r.below(95));
    if (rev3)
        c = std::make_shared<CS>((int)n(16), n(16), n(8), n(32), n(32), 0.5, n(32), (int)n(16), n(8), n(32), n(32),
                                 n(32), n(32), n(32), n(32), n(32), n(16), n(8), n(8), n(8), n(8), n(8), n(32),
                                 n(32), n(8), n(8), n(32), d);
    else
        c = std::make_shared<CS>((int)n(16), n(16), n(8), n(32), n(32), 0.5, n(32), (int)n(16), n(8), n(32), n(32),
                                 n(32), n(32), n(32), n(32), n(32), n(16), n(8), n(8), n(8), n(8), n(8));
    Val o = wrap(c);
    same_val(meth(o, "number_of_samples"), P(c->number_of_samples()), "number_of_samples");
    same_val(meth(o, "samp_int"), P(c->samp_int()), "samp_int");
    same_val(meth(o, "filter_phase"), P(c->filter_phase()), "filter_phase");
    same_val(meth(o, "physical_unit"), P(c->physical_unit()), "physical_unit");
    same_val(meth(o, "filter_delay"), P(c->filter_delay()), "filter_delay");
    same_val(meth(o, "description"), P(c->description()), "description");
    g.describe(rev3 ? "revision 3 descriptor" : "descriptor");
    g.nontrivial();
}

// ================= names and constants =================
PROPERTY("C34", "constants", 2500, 40000, "a constant, enumerator, field description or text conversion looked up through the binding")
{
    module();
    std::string what;
    switch (g.choice(4)) {
    case 0: {
        using C = CommonSEGD;
        std::vector<std::tuple<char const*, char const*, Val>> t {
            { "CommonSEGY", "TEXT_HEADER_SIZE", P(3200) },
            { "CommonSEGY", "TR_HEADER_SIZE", P(240) },
            { "CommonSEGY", "default_text_header", P(CommonSEGY::default_text_header) },
            { "CommonSEGY", "default_trace_header", P(CommonSEGY::default_trace_header) },
            { "CommonSEGY", "trace_header_description", P(CommonSEGY::trace_header_description) },
            { "CommonSEGD", "GEN_HDR_SIZE", P(32) },
            { "CommonSEGD", "GEN_TRLR_SIZE", P(32) },
            { "CommonSEGD", "CH_SET_HDR_SIZE", P(32) },
            { "CommonSEGD", "CH_SET_HDR_R3_SIZE", P(96) },
            { "CommonSEGD", "SKEW_BLOCK_SIZE", P(32) },
            { "CommonSEGD", "EXTENDED_HEADER_SIZE", P(32) },
            { "CommonSEGD", "EXTERNAL_HEADER_SIZE", P(32) },
            { "CommonSEGD", "TRACE_HEADER_SIZE", P(20) },
            { "CommonSEGD", "TRACE_HEADER_EXT_SIZE", P(32) },
            { "CommonSEGD", "sercel_428xl", P(C::sercel_428xl) },
            { "CommonSEGD", "sercel_428", P(C::sercel_428) },
            { "CommonSEGD", "sercel_408", P(C::sercel_408) },
        };
        auto& x = g.pick(t);
        what = cat(std::get<0>(x), ".", std::get<1>(x));
        same_val(stat(std::get<0>(x), std::get<1>(x)), std::get<2>(x), what);
        break;
    }
    case 1: {
        VT v = g.pick(std::vector<VT> { VT::int8_t, VT::uint8_t, VT::int16_t, VT::uint16_t, VT::int24_t,
                                        VT::uint24_t, VT::int32_t, VT::uint32_t, VT::int64_t, VT::uint64_t,
                                        VT::ibm, VT::ieee_single, VT::ieee_double });
        static char const* const names[] = { "int8_t", "uint8_t", "int16_t", "uint16_t", "int24_t",
                                             "uint24_t", "int32_t", "uint32_t", "int64_t", "uint64_t",
                                             "ibm", "ieee_single", "ieee_double" };
        what = cat("Trace.TrHdrValueType.", names[(int)v]);
        same_val(stat("Trace.TrHdrValueType", names[(int)v]), P(v), what);
        break;
    }
    case 2: {
        auto& t = g.pick(name_tables());
        std::string path = (std::string(t.cls) == "BinaryHeader" ? "CommonSEGY." : "CommonSEGD.") +
            std::string(t.cls);
        if (!module().by_path.count(path) || !module().by_path.count(path + ".Name")) return;
        int i = (int)g.choice(t.golden.size() - 1);
        Val e = construct(path + ".Name", { P(i) });
        what = cat(path, ".name_as_string(", i, ")");
        same_val(statcall(path, "name_as_string", { e }), P(t.get(i)), what);
        break;
    }
    default: {
        bool to_ascii = g.choice(1);
        Rng r = g.sub();
        std::string s;
        for (size_t n = g.size(100); n; --n) s += (char)r.next();
        std::string want = s;
        if (to_ascii) CommonSEGY::ebcdic_to_ascii(want);
        else CommonSEGY::ascii_to_ebcdic(want);
        what = to_ascii ? "CommonSEGY.ebcdic_to_ascii" : "CommonSEGY.ascii_to_ebcdic";
        Val got = statcall("CommonSEGY", what.substr(11), { pybytes(s) });
        CHECK(got.text(), what, " of ", quote(s), " returns ", dump(got));
        same_text(quote(got.s), quote(want), what);
    }
    }
    g.describe(what);
    g.nontrivial();
}

// ================= traces =================
static Value gen_value(Gen& g)
{
    if (g.choice(1)) return (int64_t)g.pattern(64);
    Rng r = g.sub();
    return random_number<double>(r);
}
PROPERTY("C34", "traces", 6000, 120000,
         "a history of at least three operations on a trace or header built through the binding, mirrored on the library's")
{
    module();
    std::vector<std::string> keys { "FFID", "CHAN", "OFFSET", "", "CDP X", "x" };
    std::unordered_map<std::string, Value> h;
    for (size_t n = g.choice(5); n; --n) h[g.pick(keys)] = gen_value(g);
    bool only_header = g.chance(30);
    std::vector<double> samp;
    Rng r = g.sub();
    for (size_t n = g.size(40); n; --n) samp.push_back(random_number<double>(r));
    Trace twin(h, samp);
    Val o = only_header ? construct("Trace.Header", { P(h) })
                        : construct("Trace", { P(h), P(samp) });
    Val held; // header obtained earlier stays connected to the trace
    std::string log = only_header ? "Header" : "Trace";
    size_t n = g.choice(12);
    for (size_t i = 0; i < n; ++i) {
        Val hdr = only_header ? o : held.k == Val::Inst && g.chance(50) ? held : meth(o, "header");
        held = hdr;
        std::string k = g.pick(keys);
        switch (g.choice(3)) {
        case 0: {
            Value v = gen_value(g);
            log += cat("; set ", k, " ", show(v));
            if (g.choice(1)) meth(hdr, "set", { P(k), P(v) });
            else meth(hdr, "set", {}, { { "key", P(k) }, { "v", P(v) } });
            twin.header().set(k, v);
            break;
        }
        case 1:
            log += "; get " + k;
            same_val(meth(hdr, "get", { P(k) }), P(twin.header().get(k)), "get " + k);
            break;
        case 2: {
            Val ks = meth(hdr, "keys");
            std::vector<std::string> a, b = twin.header().keys();
            for (auto& x : ks.v) a.push_back(x.s);
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            CHECK(a == b, "keys differ");
            log += "; keys";
            break;
        }
        default:
            if (only_header) break;
            log += "; samples";
            same_val(meth(o, "samples"), P(twin.samples()), "samples");
            same_val(meth(o, "samples_as_numpy_array"), P(twin.samples()), "samples_as_numpy_array");
        }
    }
    if (only_header) same_text(dump(o), dump(P(twin.header())), "header");
    else same_text(dump(o), dump(P(twin)), "trace");
    g.describe(brief(log));
    if (n >= 3) g.nontrivial();
}

// ================= readers =================
static void damage(Gen& g, Bytes& b, std::string& log)
{
    if (!g.chance(25) || b.empty()) return;
    if (g.choice(1)) {
        b.resize(g.choice(b.size() - 1));
        log += cat(", cut at ", b.size());
    } else {
        size_t i = g.choice(std::min<size_t>(b.size() - 1, 3700));
        b[i] = (char)g.choice(255);
        log += cat(", byte ", i, " changed");
    }
}
static void segy_both(Gen& g, bool sorted)
{
    module();
    Opts o;
    o.big = false;
    o.max_traces = 6;
    o.min_traces = 1;
    File f = gen_file(g, o);
    Bytes b = f.encode();
    std::string log = cat(sorted ? "sorted, " : "", "revision ", (int)f.bh.SEGY_rev_major_ver, ", ",
                          f.traces.size(), " traces");
    damage(g, b, log);
    std::string p = g.path("py.sgy");
    write_file(p, b);
    LibMaps maps = lib(f.maps);
    bool over = g.chance(35), with_maps = g.chance(70), kw = g.chance(40);
    BH bh = reported(f);
    std::string key = "NO_SUCH";
    if (sorted && !maps.empty() && !maps[0].second.empty() && !g.chance(10)) {
        auto it = maps[0].second.begin();
        std::advance(it, g.choice(maps[0].second.size() - 1));
        key = it->second.first;
    }
    if (sorted && !with_maps && g.choice(1)) key = "FFID";
    std::unique_ptr<ISEGY> lib_r;
    Val py_r;
    std::string want = outcome([&]() -> std::string {
        if (sorted)
            lib_r = over ? with_maps ? std::make_unique<ISEGYSorted1D>(p, key, bh, maps)
                                     : std::make_unique<ISEGYSorted1D>(p, key, bh)
                : with_maps          ? std::make_unique<ISEGYSorted1D>(p, key, maps)
                                     : std::make_unique<ISEGYSorted1D>(p, key);
        else
            lib_r = over ? with_maps ? std::make_unique<ISEGY>(p, bh, maps) : std::make_unique<ISEGY>(p, bh)
                : with_maps ? std::make_unique<ISEGY>(p, maps) : std::make_unique<ISEGY>(p);
        return "opened";
    });
    std::string got = outcome([&]() -> std::string {
        PArgs a { P(p) };
        Kw k;
        auto add = [&](char const* n, Val v) {
            if (kw) k[n] = v;
            else a.push_back(v);
        };
        if (sorted) add("hdr_name", P(key));
        if (over) add("binary_header", P(bh));
        if (with_maps) add("tr_hdr_map", P(maps));
        py_r = construct(sorted ? "ISEGYSorted1D" : "ISEGY", a, k);
        return "opened";
    });
    same_text(got, want, "opening");
    log += over ? ", binary header given" : "";
    same_text(outcome([&] { return dump(statcall("ISEGY", "read_binary_header", { P(p) })); }),
              outcome([&] { return dump(P(ISEGY::read_binary_header(p))); }), "read_binary_header");
    if (want != "opened") {
        g.describe(log + ", refused");
        g.tag("refused");
        return;
    }
    same_val(meth(py_r, "binary_header"), P(lib_r->binary_header()), "binary_header");
    same_val(meth(py_r, "text_headers"), P(lib_r->text_headers()), "text_headers");
    same_val(meth(py_r, "trailer_stanzas"), P(lib_r->trailer_stanzas()), "trailer_stanzas");
    Val it = meth(py_r, "__iter__");
    CHECK(it.k == Val::Inst && it.p.get() == py_r.p.get(), "__iter__ is another object");
    auto* sr = sorted ? static_cast<ISEGYSorted1D*>(lib_r.get()) : nullptr;
    size_t ops = 0;
    for (size_t n = 2 + g.choice(12); n; --n) {
        int op = (int)g.choice(sorted ? 8 : 5);
        std::string a, w, what;
        switch (op) {
        case 0:
        case 1:
            what = "__next__";
            w = outcome([&]() -> std::string {
                if (!lib_r->has_trace()) return "StopIteration";
                return dump(P(lib_r->read_trace()));
            });
            a = outcome([&] { return dump(meth(it, "__next__")); });
            break;
        case 2:
            what = "has_trace";
            w = outcome([&] { return dump(P(lib_r->has_trace())); });
            a = outcome([&] { return dump(meth(py_r, "has_trace")); });
            break;
        case 3:
        case 4:
        case 5: {
            bool more = false;
            outcome([&] { return more = lib_r->has_trace(), ""; });
            if (!more) continue;
            what = op == 3 ? "read_header" : "read_trace";
            w = outcome([&] { return op == 3 ? dump(P(lib_r->read_header())) : dump(P(lib_r->read_trace())); });
            a = outcome([&] { return dump(meth(py_r, what)); });
            break;
        }
        default: {
            auto keys = sr->get_keys();
            what = "get_keys";
            same_val(meth(py_r, what), P(keys), what);
            if (keys.empty()) continue;
            Value v = g.chance(15) ? Value { (int64_t)g.pattern(16) } : g.pick(keys);
            std::vector<uint64_t> mx;
            if (g.choice(1)) mx.push_back(g.choice(4));
            PArgs pa { P(v) };
            Kw k;
            if (!mx.empty()) {
                if (g.choice(1)) pa.push_back(P(mx[0]));
                else k["max_num"] = P(mx[0]);
            }
            bool hd = op == 7;
            what = hd ? "get_headers" : "get_traces";
            w = outcome([&] {
                if (hd) return dump(mx.empty() ? P(sr->get_headers(v)) : P(sr->get_headers(v, mx[0])));
                return dump(mx.empty() ? P(sr->get_traces(v)) : P(sr->get_traces(v, mx[0])));
            });
            a = outcome([&] { return dump(meth(py_r, what, pa, k)); });
        }
        }
        same_text(a, w, what);
        g.tag(what);
        ++ops;
        if (w == "exception") break;
    }
    g.describe(log + cat(", ", ops, " calls"));
    if (ops) g.nontrivial();
}
PROPERTY("C34", "segy_reader", 6000, 100000,
         "an ISEGY opened through the binding and at least one call compared with the library's own reader on the same file")
{
    segy_both(g, false);
}
PROPERTY("C34", "sorted_reader", 4000, 70000,
         "an ISEGYSorted1D opened through the binding and at least one call compared with the library's own reader")
{
    segy_both(g, true);
}
// the maximum left to its default
PROPERTY("C34", "default_maximum", 6, 60, "more traces with one key than small defaults allow, all asked for at once")
{
    module();
    size_t n = g.pick(std::vector<size_t> { 99999, 100000, 100001, 65537, 10001, 100002 });
    Bytes b(3600, '\0');
    put(b, 3224, 8, 2, false); // one byte samples
    put(b, 3220, 1, 2, false);
    b.resize(3600 + n * 241);
    std::string p = g.path("py.sgy");
    write_file(p, b);
    LibMaps maps { { "SEG00000", { { 0, { "FFID", VT::int32_t } } } } };
    bool hd = g.choice(1);
    ISEGYSorted1D l(p, "FFID", maps);
    Val r = construct("ISEGYSorted1D", { P(p), P(std::string("FFID")), P(maps) });
    Value k { (int64_t)0 };
    Val key = P(k);
    size_t want = hd ? l.get_headers(k).size() : l.get_traces(k).size();
    size_t got = meth(r, hd ? "get_headers" : "get_traces", { key }).v.size();
    CHECK(got == want, hd ? "get_headers" : "get_traces", " of ", n, " traces gives ", got, " instead of ", want);
    g.describe(cat(n, " traces"));
    g.nontrivial();
}
PROPERTY("C34", "segd_reader", 5000, 90000,
         "an ISEGD opened through the binding, every header accessor and at least one trace call compared with the library's")
{
    module();
    DOpts o;
    o.rev = g.chance(50) ? 3 : -1;
    o.max_traces = 4;
    o.max_samples = 12;
    XMaps m = g.chance(50) ? gen_xmaps(g) : XMaps {};
    Bytes b;
    std::string log;
    for (size_t n = 1 + g.choice(1); n; --n) {
        Record r = gen_record(g, o, m);
        log += describe(r) + " ";
        b += r.encode();
    }
    damage(g, b, log);
    std::string p = g.path("py.sgd");
    write_file(p, b);
    std::unique_ptr<ISEGD> l;
    Val r;
    bool with_maps = !m.empty() || g.choice(1), kw = g.choice(1);
    std::string want = outcome([&]() -> std::string {
        l = with_maps ? std::make_unique<ISEGD>(p, lib(m)) : std::make_unique<ISEGD>(p);
        return "opened";
    });
    std::string got = outcome([&]() -> std::string {
        if (!with_maps) r = construct("ISEGD", { P(p) });
        else if (kw) r = construct("ISEGD", {}, { { "file_name", P(p) }, { "ext_tr_hdr_map", P(lib(m)) } });
        else r = construct("ISEGD", { P(p), P(lib(m)) });
        return "opened";
    });
    same_text(got, want, "opening");
    if (want != "opened") {
        g.describe(brief(log) + ", refused");
        g.tag("refused");
        return;
    }
    auto headers = [&] {
#define H(n) same_val(meth(r, #n), P(l->n()), #n);
        H(general_header) H(general_header2) H(general_headerN) H(general_header3)
        H(general_header_vessel_crew_id) H(general_header_survey_name) H(general_header_client_name)
        H(general_header_job_id) H(general_header_line_id) H(general_header_vibrator_info)
        H(general_header_explosive_info) H(general_header_airgun_info) H(general_header_watergun_info)
        H(general_header_electromagnetic_info) H(general_header_other_source_info)
        H(general_header_add_source_info) H(general_header_sou_aux_chan_ref)
        H(general_header_sen_info_hdr_ext_blk) H(general_header_sen_calib_blk)
        H(general_header_time_drift_blk) H(general_header_elemag_src_rec_desc_blk)
        H(general_header_position_blk_1) H(general_header_position_blk_2) H(general_header_position_blk_3)
        H(general_header_coord_ref_blk) H(general_header_relative_pos_blk) H(general_header_orient_hdr_blk)
        H(general_header_measurement_blk) H(extended_headers) H(external_headers) H(channel_set_headers)
#undef H
    };
    headers();
    Val it = meth(r, "__iter__");
    CHECK(it.k == Val::Inst && it.p.get() == r.p.get(), "__iter__ is another object");
    size_t ops = 0;
    for (size_t n = 1 + g.choice(10); n; --n) {
        std::string a, w, what;
        switch (g.choice(5)) {
        case 0:
        case 1:
            what = "__next__";
            w = outcome([&]() -> std::string {
                if (!l->has_record()) return "StopIteration";
                return dump(P(l->read_trace()));
            });
            a = outcome([&] { return dump(meth(it, "__next__")); });
            break;
        case 2:
            what = "has_trace";
            w = outcome([&] { return dump(P(l->has_trace())); });
            a = outcome([&] { return dump(meth(r, what)); });
            break;
        case 3:
            what = "has_record";
            w = outcome([&] { return dump(P(l->has_record())); });
            a = outcome([&] { return dump(meth(r, what)); });
            break;
        case 4:
            headers();
            continue;
        default:
            if (!l->has_trace()) continue;
            what = "read_trace";
            w = outcome([&] { return dump(P(l->read_trace())); });
            a = outcome([&] { return dump(meth(r, what)); });
        }
        same_text(a, w, what);
        g.tag(what);
        ++ops;
        if (w == "exception") break;
    }
    g.describe(brief(log) + cat(", ", ops, " calls"));
    if (ops) g.nontrivial();
}

// ================= writers =================
PROPERTY("C34", "segy_writer", 4000, 80000,
         "traces written through a bound SEG-Y writer, the file compared byte by byte with that of the library's own writer")
{
    module();
    Opts o;
    o.big = false;
    o.max_traces = 5;
    File f = gen_writer_file(g, o);
    int rev = f.bh.SEGY_rev_major_ver;
    std::string p1 = g.path("py.sgy"), p2 = g.path("lib.sgy");
    bool kw = g.choice(1);
    int given = (int)g.choice(4); // how many of the optional arguments are given
    LibMaps maps = lib(f.maps);
    std::string text0 = f.texts.empty() ? "" : f.texts[0];
    std::string log = cat("OSEGYRev", rev, ", ", given, " arguments", kw ? " by name" : "");
    std::vector<std::pair<char const*, Val>> opt;
    if (rev == 0) opt.push_back({ "text_header", P(text0) });
    else opt.push_back({ "text_headers", P(f.texts) });
    opt.push_back({ "bin_header", P(f.bh) });
    if (rev == 2) opt.push_back({ "trailer_stanzas", P(f.stanzas) });
    opt.push_back({ "tr_hdr_map", P(maps) });
    if (given > (int)opt.size()) given = (int)opt.size();
    std::unique_ptr<sedaman::OSEGY> w;
    std::string want = outcome([&]() -> std::string {
        using namespace sedaman;
        if (rev == 0) {
            if (given == 0) w = std::make_unique<OSEGYRev0>(p2);
            else if (given == 1) w = std::make_unique<OSEGYRev0>(p2, text0);
            else if (given == 2) w = std::make_unique<OSEGYRev0>(p2, text0, f.bh);
            else w = std::make_unique<OSEGYRev0>(p2, text0, f.bh, maps);
        } else if (rev == 1) {
            if (given == 0) w = std::make_unique<OSEGYRev1>(p2);
            else if (given == 1) w = std::make_unique<OSEGYRev1>(p2, f.texts);
            else if (given == 2) w = std::make_unique<OSEGYRev1>(p2, f.texts, f.bh);
            else w = std::make_unique<OSEGYRev1>(p2, f.texts, f.bh, maps);
        } else {
            if (given == 0) w = std::make_unique<OSEGYRev2>(p2);
            else if (given == 1) w = std::make_unique<OSEGYRev2>(p2, f.texts);
            else if (given == 2) w = std::make_unique<OSEGYRev2>(p2, f.texts, f.bh);
            else if (given == 3) w = std::make_unique<OSEGYRev2>(p2, f.texts, f.bh, f.stanzas);
            else w = std::make_unique<OSEGYRev2>(p2, f.texts, f.bh, f.stanzas, maps);
        }
        return "opened";
    });
    Val pw;
    std::string got = outcome([&]() -> std::string {
        PArgs a { P(p1) };
        Kw k;
        for (int i = 0; i < given; ++i)
            if (kw) k[opt[i].first] = opt[i].second;
            else a.push_back(opt[i].second);
        pw = construct(cat("OSEGYRev", rev), a, k);
        return "opened";
    });
    same_text(got, want, "opening");
    size_t n = 0;
    if (want == "opened") {
        for (auto& t : f.traces) {
            Trace tr = to_trace(f, t);
            Val pt = construct("Trace", { P([&] {
                std::unordered_map<std::string, Value> h;
                for (auto& kv : f.header(t)) h[kv.first] = kv.second;
                return h;
            }()), P(f.samples(t)) });
            std::string a = outcome([&] {
                return kw ? dump(meth(pw, "write_trace", {}, { { "trace", pt } })) : dump(meth(pw, "write_trace", { pt }));
            });
            std::string l = outcome([&] { return w->write_trace(tr), "None"; });
            same_text(a, l, "write_trace");
            if (l == "exception") break;
            ++n;
        }
        pw = Val {};
        w.reset();
        check_bytes(read_file(p1), read_file(p2), "written file");
    }
    g.describe(log + cat(", ", n, " traces"));
    g.tag(cat("OSEGYRev", rev, " with ", given, " arguments"));
    if (n) g.nontrivial();
}
PROPERTY("C34", "segd_writer", 3000, 60000,
         "traces written through the bound SEG-D writer, the file compared byte by byte with that of the library's own writer")
{
    module();
    DOpts o;
    o.writer = true;
    o.rev = 1 + (int)g.choice(1);
    o.max_traces = 5;
    o.max_samples = 16;
    o.extd = o.extl = 0;
    XMaps m;
    Record r = gen_record(g, o, m);
    auto a = args(r, m);
    std::string p1 = g.path("py.sgd"), p2 = g.path("lib.sgd");
    bool add = g.chance(70), kw = g.choice(1);
    std::unique_ptr<OSEGDRev2_1> w;
    std::string want = outcome([&]() -> std::string {
        w = add ? std::make_unique<OSEGDRev2_1>(p2, a.gh, a.gh2, a.sets, a.add)
                : std::make_unique<OSEGDRev2_1>(p2, a.gh, a.gh2, a.sets);
        return "opened";
    });
    // additional headers as Python gets them: objects of their own class
    Val list;
    list.k = Val::List;
    for (auto& h : a.add) list.v.push_back(wrap(std::dynamic_pointer_cast<GHN>(h)));
    Val pw;
    std::string got = outcome([&]() -> std::string {
        if (kw) {
            Kw k { { "file_name", P(p1) }, { "gh", P(a.gh) }, { "gh2", P(a.gh2) }, { "ch_sets", P(a.sets) } };
            if (add) k["add_ghs"] = list;
            pw = construct("OSEGDRev2_1", {}, k);
        } else {
            PArgs x { P(p1), P(a.gh), P(a.gh2), P(a.sets) };
            if (add) x.push_back(list);
            pw = construct("OSEGDRev2_1", x);
        }
        return "opened";
    });
    same_text(got, want, "opening");
    size_t n = 0;
    if (want == "opened") {
        for (auto& t : r.traces) {
            Trace tr = to_trace(g, r, t, m);
            Val pt = P(tr);
            std::string x = outcome([&] { return dump(meth(pw, "write_trace", { pt })); });
            std::string l = outcome([&] { return w->write_trace(tr), "None"; });
            same_text(x, l, "write_trace");
            if (l == "exception") break;
            ++n;
        }
        pw = Val {};
        w.reset();
        check_bytes(read_file(p1), read_file(p2), "written file");
    }
    g.describe(describe(r) + cat(", ", n, " traces"));
    if (n) g.nontrivial();
}
