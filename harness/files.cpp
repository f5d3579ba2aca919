// C31: file states.
#include <fcntl.h>
#include "segd_out.hpp"
#include <filesystem>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace segd;
namespace fs = std::filesystem;

struct Dir { // scratch directory of one case
    std::string d;
    Dir(std::string p) : d(p) { fs::remove_all(d), fs::create_directory(d); }
    ~Dir()
    {
        std::error_code e;
        fs::remove_all(d, e);
    }
};
static std::vector<std::string> const READERS { "ISEGY", "ISEGY with header", "ISEGYSorted1D",
                                                "read_binary_header", "ISEGD" };
static void open_reader(int kind, std::string const& p)
{
    switch (kind) {
    case 0: { ISEGY s(p); break; }
    case 1: {
        BH h {};
        h.format_code = 5;
        h.samp_per_tr = 4;
        ISEGY s(p, h);
        break;
    }
    case 2: { ISEGYSorted1D s(p, "FFID"); break; }
    case 3: ISEGY::read_binary_header(p); break;
    default: { ISEGD s(p); }
    }
}
static std::vector<std::string> const WRITERS { "OSEGYRev0", "OSEGYRev1", "OSEGYRev2",
                                                "OSEGDRev2_1" };

PROPERTY("C31", "cannot_open", 6000, 150000,
         "path that is missing, in a missing directory, a directory, below a file, a dangling or "
         "looping link, empty, over-long, or an existing file of 0 to 3599 (SEG-Y) or 0 to 31 "
         "(SEG-D) bytes; readers and writers throw a standard exception; non-trivial = always")
{
    Dir dir(g.path("d"));
    std::string p;
    bool reading = g.chance(60);
    int state = (int)g.choice(reading ? 9 : 6);
    std::string base = dir.d + "/" + g.ascii(0) + "f.bin";
    switch (state) {
    case 0: p = dir.d + "/missing/dir/a.bin"; break;
    case 1: p = dir.d; break;
    case 2:
        write_file(base, Bytes(5000, 'x'));
        p = base + "/a.bin";
        break;
    case 3:
        fs::create_symlink(dir.d + "/nowhere/x", base);
        p = base;
        break;
    case 4:
        fs::create_symlink(base, dir.d + "/l");
        fs::create_symlink(dir.d + "/l", base);
        p = base;
        break;
    case 5: p = ""; break;
    case 6: p = dir.d + "/" + std::string(300 + g.choice(5000), 'n'); break;
    case 7: p = dir.d + "/missing.bin"; break;
    default: break;
    }
    g.nontrivial();
    if (!reading) {
        int k = (int)g.choice(3);
        g.describe(cat(WRITERS[k], " state ", state));
        bool threw = throws_std([&] {
            if (k < 3) {
                BH h {};
                h.format_code = 5;
                h.samp_per_tr = 3;
                h.samp_int = 2;
                h.SEGY_rev_major_ver = (uint8_t)k;
                Writer w(k, p, {}, h, {}, CommonSEGY::default_trace_header);
            } else {
                DOpts o;
                o.writer = true;
                o.rev = 2;
                o.max_traces = 1;
                Record r = gen_record(g, o, {});
                args(r, {}).open(p);
            }
        });
        CHECK(threw, WRITERS[k], " opened a path in state ", state);
        return;
    }
    int k = (int)g.choice(4);
    if (state >= 8) {
        size_t min = k == 4 ? 32 : 3600;
        size_t n = (size_t)g.edgy(0, (int64_t)min - 1);
        Bytes b = rnd_block(g, n);
        if (k != 4 && n >= 3226) put(b, 3224, 5, 2, false);
        if (k == 4 && n > 3) put_bcd(b, 4, 4, 8058);
        write_file(base, b);
        p = base;
        g.describe(cat(n, " bytes"));
        bool threw = throws_std([&] { open_reader(k, p); });
        CHECK(threw, READERS[k], " opened a file of ", n, " bytes");
        CHECK(read_file(p) == b, "file changed by failing open");
        return;
    }
    g.describe(cat(READERS[k], " state ", state));
    CHECK(throws_std([&] { open_reader(k, p); }), READERS[k], " opened a path in state ", state);
    if (state == 7) CHECK(!fs::exists(p), "missing file was created by a reader");
}

// all kinds of reading, ends with an exception or the end
static void read_somehow(Gen& g, std::string const& p, bool segd, HMaps const& maps,
                         XMaps const& xm)
{
    try {
        if (segd) {
            ISEGD s(p, lib(xm));
            size_t n = g.choice(20);
            while (s.has_record() && n--) s.read_trace();
            if (g.chance(20)) s.read_trace();
        } else if (g.chance(30)) {
            std::string key = maps.empty() || maps[0].fields.empty() ? "X" : maps[0].fields[0].key;
            ISEGYSorted1D s(p, key, lib(maps));
            for (auto& k : s.get_keys()) s.get_traces(k, 5), s.get_headers(k, 5);
            while (s.has_trace()) s.read_trace();
        } else {
            ISEGY::read_binary_header(p);
            ISEGY s(p, lib(maps));
            size_t n = g.choice(30);
            while (s.has_trace() && n--) {
                if (g.chance(40)) s.read_header();
                else s.read_trace();
            }
        }
    } catch (Fail&) {
        throw;
    } catch (std::exception&) {
    }
}
PROPERTY("C31", "reading_changes_nothing", 7500, 187500,
         "well-formed or damaged SEG-Y or SEG-D file read in random ways; its bytes, size and "
         "modification time and the other names in its directory stay as they are; non-trivial = "
         "file not empty")
{
    Dir dir(g.path("d"));
    bool segd = g.chance(50);
    Bytes b;
    HMaps maps;
    XMaps xm;
    if (segd) {
        DOpts o;
        o.max_traces = 6;
        xm = g.chance(40) ? gen_xmaps(g) : XMaps {};
        for (size_t n = 1 + g.size(2); n; --n) b += gen_record(g, o, xm).encode();
    } else {
        File f = gen_file(g);
        maps = f.maps;
        b = f.encode();
    }
    if (g.chance(30)) b.resize(g.choice(b.size()));
    for (size_t n = g.chance(30) ? 1 + g.choice(3) : 0; n && b.size(); --n)
        b[g.choice(b.size() - 1)] = (char)g.choice(255);
    std::string p = dir.d + "/a.bin";
    write_file(p, b);
    struct timespec old[2] = { { 1000000, 5 }, { 1000001, 6 } };
    utimensat(AT_FDCWD, p.c_str(), old, 0);
    struct stat s0, s1;
    stat(p.c_str(), &s0);
    for (size_t n = 1 + g.choice(2); n; --n) read_somehow(g, p, segd, maps, xm);
    stat(p.c_str(), &s1);
    CHECK(s0.st_mtim.tv_sec == s1.st_mtim.tv_sec && s0.st_size == s1.st_size &&
              s0.st_mode == s1.st_mode,
          "file was modified by reading");
    CHECK(read_file(p) == b, "bytes changed by reading");
    size_t names = 0;
    for (auto& e : fs::directory_iterator(dir.d)) (void)e, ++names;
    CHECK(names == 1, "reading left ", names - 1, " files behind");
    g.describe(cat(segd ? "SEG-D" : "SEG-Y", ", ", b.size(), " bytes"));
    if (b.size()) g.nontrivial();
}
PROPERTY("C31", "read_only_file", 2200, 55000,
         "well-formed file readable but not writable, or not readable, for the (unprivileged) "
         "user: it is read as usual, or refused with an exception; non-trivial = the user could "
         "be changed")
{
    bool segd = g.chance(50), readable = g.chance(70);
    std::string p = g.path("a.bin");
    DOpts o;
    o.max_traces = 4;
    Record r = gen_record(g, o, {});
    File f = gen_file(g);
    write_file(p, segd ? r.encode() : f.encode());
    chmod(p.c_str(), readable ? 0444 : 0000);
    if (geteuid() != 0 || seteuid(65534) != 0) {
        g.tag("not possible");
        return;
    }
    struct Back {
        ~Back()
        {
            if (seteuid(0)) abort();
        }
    } back;
    FILE* c = fopen(p.c_str(), "rb");
    bool can = c;
    if (c) fclose(c);
    if (can != readable) { // e.g. the scratch directory cannot be entered
        g.tag("not possible");
        return;
    }
    if (!readable) {
        CHECK(throws_std([&] { open_reader(segd ? 4 : (int)g.choice(3), p); }),
              "file that cannot be read was opened");
    } else if (segd) {
        ISEGD s(p);
        for (auto& t : r.traces) {
            Trace x = s.read_trace();
            check_trace(r, t, {}, x, "read only file");
        }
    } else {
        ISEGY s(p, lib(f.maps));
        for (size_t i = 0; i < f.traces.size(); ++i) s.read_trace();
        CHECK(!s.has_trace(), "more traces");
    }
    g.describe(cat(segd ? "SEG-D" : "SEG-Y", readable ? " read only" : " not readable"));
    g.nontrivial();
}
PROPERTY("C31", "writer_replaces", 7500, 187500,
         "writer given a path with previous content (shorter, longer, another seismic file, a "
         "link to it) and a fresh path: both results are byte-identical; non-trivial = previous "
         "content not empty")
{
    Dir dir(g.path("d"));
    std::string fresh = dir.d + "/fresh", old = dir.d + "/old";
    bool segd = g.chance(50);
    Bytes before;
    Bytes after;
    auto both = [&](auto write) {
        write(fresh);
        Bytes want = read_file(fresh);
        switch (g.choice(3)) {
        case 0: before = want + rnd_block(g, 1 + g.choice(5000)); break;
        case 1: before = rnd_block(g, g.choice(want.size() + 4000)); break;
        case 2: before = want; break;
        default: before = want.substr(0, g.choice(want.size()));
        }
        bool link = g.chance(20);
        std::string target = link ? dir.d + "/target" : old;
        write_file(target, before);
        if (link) fs::create_symlink(target, old);
        write(old);
        check_bytes(read_file(old), want, "file with previous content");
    };
    if (segd) {
        DOpts o;
        o.writer = true;
        o.rev = 1 + (int)g.choice(1);
        o.max_traces = 4;
        Record r = gen_record(g, o, {});
        size_t n = g.chance(30) ? g.choice(r.traces.size()) : r.traces.size();
        both([&](std::string const& p) {
            auto w = args(r, {}).open(p);
            for (size_t i = 0; i < n; ++i) {
                std::unordered_map<std::string, Value> h;
                for (auto& kv : expect_header(r, r.traces[i], {})) h[kv.first] = kv.second;
                Trace t(h, values(r, r.traces[i]));
                w->write_trace(t);
            }
        });
    } else {
        File f = gen_writer_file(g);
        both([&](std::string const& p) { write_lib(p, f); });
    }
    g.describe(cat(segd ? "SEG-D" : "SEG-Y", ", previous ", before.size(), " bytes"));
    if (before.size()) g.nontrivial();
}
PROPERTY("C31", "storage_full", 4500, 112500,
         "writer whose file may not grow beyond a random limit: writing throws a standard "
         "exception once more data than a stream buffer is refused, never terminates the "
         "program, and what is in the file is a prefix of the unlimited result up to patched "
         "headers; non-trivial = limit below the full size")
{
    Dir dir(g.path("d"));
    std::string full = dir.d + "/full", p = dir.d + "/limited";
    bool segd = g.chance(50);
    std::function<void(std::string const&)> write;
    File f;
    Record r;
    if (segd) {
        DOpts o;
        o.writer = true;
        o.rev = 2;
        o.max_traces = 6;
        o.max_samples = g.chance(50) ? 4000 : 200;
        r = gen_record(g, o, {});
        write = [&](std::string const& q) {
            auto w = args(r, {}).open(q);
            for (auto& d : r.traces) {
                std::unordered_map<std::string, Value> h;
                for (auto& kv : expect_header(r, d, {})) h[kv.first] = kv.second;
                Trace t(h, values(r, d));
                w->write_trace(t);
            }
        };
    } else {
        f = gen_writer_file(g);
        write = [&](std::string const& q) { write_lib(q, f); };
    }
    write(full);
    Bytes want = read_file(full);
    size_t limit = g.choice(want.size() + 100);
    g.describe(cat(segd ? "SEG-D" : "SEG-Y", ", limit ", limit, " of ", want.size()));
    struct rlimit old;
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit now { limit, old.rlim_max };
    auto oldsig = signal(SIGXFSZ, SIG_IGN);
    setrlimit(RLIMIT_FSIZE, &now);
    bool threw = false;
    std::string other;
    try {
        write(p);
    } catch (std::exception const&) {
        threw = true;
    } catch (...) {
        other = "exception of another kind";
    }
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, oldsig);
    CHECK(other.empty(), other);
    if (limit < want.size()) g.nontrivial();
    Bytes got = fs::exists(p) ? read_file(p) : Bytes {};
    CHECK(got.size() <= limit, "file of ", got.size(), " bytes, limit ", limit);
    if (limit >= want.size()) {
        CHECK(!threw, "refused although there was room");
        check_bytes(got, want, "file within the limit");
    } else if (want.size() - limit > 70000)
        CHECK(threw, want.size() - limit, " bytes were lost silently");
}
