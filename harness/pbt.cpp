#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

// ---------------------------------------------------------------- allocation
// Huge requests (possible with malformed files) become bad_alloc, as they
// would on a small machine, instead of exhausting the sandbox.
static std::atomic<size_t> live_bytes { 0 };
static constexpr size_t MAX_ONE = 256u << 20, MAX_LIVE = 1024u << 20;
void* operator new(size_t n)
{
    if (n > MAX_ONE || live_bytes + n > MAX_LIVE) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    live_bytes += malloc_usable_size(p);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    if (!p) return;
    live_bytes -= malloc_usable_size(p);
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:"
           "max_malloc_fill_size=67108864:malloc_fill_byte=190:"
           "detect_stack_use_after_return=1:strict_string_checks=1:"
           "handle_abort=1:quarantine_size_mb=64";
}

// ------------------------------------------------------------------ coverage
// The library (not the harness) is compiled with -fsanitize-coverage=trace-pc,
// trace-cmp.  Edges reached and values compared guide the choice of cases; they
// never decide anything.
namespace {
constexpr size_t COV = 1u << 16, CMPS = 1u << 12;
bool cov_on = false;
uint8_t cov_map[COV];
uint16_t cov_at[COV]; // entries of the map that are not zero
uint32_t cov_n = 0;
struct Cmp {
    uint64_t a, b;
};
Cmp cmps[CMPS];
uint32_t cmp_stamp[CMPS], cmp_now = 0;
inline __attribute__((no_sanitize("address"))) void saw(uint64_t a, uint64_t b)
{
    if (!cov_on || a == b) return;
    auto address = [](uint64_t v) { return v >= 1ull << 40 && v < 1ull << 48; };
    if (address(a) || address(b)) return;
    uint32_t i = (uint32_t)((a * 0x9e3779b97f4a7c15ull ^ b * 0xd1342543de82ef95ull) >> 52);
    if (cmp_stamp[i] == cmp_now) return;
    cmp_stamp[i] = cmp_now;
    cmps[i] = { a, b };
}
// constants of the library that something was compared with
uint64_t consts[CMPS];
bool const_used[CMPS];
size_t const_n = 0;
inline __attribute__((no_sanitize("address"))) void saw_const(uint64_t a, uint64_t b)
{
    if (!cov_on) return;
    saw(a, b);
    if (a + 2 < 7 || (a >= 1ull << 40 && a < 1ull << 48)) return;
    uint32_t i = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 52);
    for (int k = 0; k < 4; ++k, i = (i + 1) % CMPS) {
        if (const_used[i] && consts[i] == a) return;
        if (const_used[i]) continue;
        const_used[i] = true;
        consts[i] = a;
        ++const_n;
        return;
    }
}
} // namespace
extern "C" {
extern char __executable_start;
#define NOSAN __attribute__((no_sanitize("address")))
NOSAN void __sanitizer_cov_trace_pc()
{
    if (!cov_on) return;
    uint64_t pc = (uint64_t)((char*)__builtin_return_address(0) - &__executable_start);
    uint16_t i = (uint16_t)((pc * 0x9e3779b97f4a7c15ull) >> 48);
    uint8_t& c = cov_map[i];
    if (!c && cov_n < COV) cov_at[cov_n++] = i;
    if (c != 255) ++c;
}
NOSAN void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { saw(a, b); }
NOSAN void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { saw((uint64_t)(int16_t)a, (uint64_t)(int16_t)b); }
NOSAN void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { saw((uint64_t)(int32_t)a, (uint64_t)(int32_t)b); }
NOSAN void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { saw(a, b); }
NOSAN void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { saw_const(a, b); }
NOSAN void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { saw_const((uint64_t)(int16_t)a, (uint64_t)(int16_t)b); }
NOSAN void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { saw_const((uint64_t)(int32_t)a, (uint64_t)(int32_t)b); }
NOSAN void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { saw_const(a, b); }
NOSAN void __sanitizer_cov_trace_cmpf(float, float) { }
NOSAN void __sanitizer_cov_trace_cmpd(double, double) { }
NOSAN void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c)
{
    for (uint64_t i = 0; i < c[0]; ++i) saw_const(c[2 + i], v);
}
}

namespace pbt {

std::vector<Prop>& registry()
{
    static std::vector<Prop> r;
    return r;
}

std::string hex(std::string const& s, size_t max)
{
    static char const* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        r += d[(unsigned char)s[i] >> 4];
        r += d[(unsigned char)s[i] & 15];
    }
    if (s.size() > max) r += cat("...(", s.size(), " bytes)");
    return r;
}

uint64_t Rng::pattern(int bits)
{
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (hints && below(8) == 0) return (hint[below(4)] + below(3) - 1) & mask;
    uint64_t r = next();
    switch (below(10)) {
    case 0: return 0;
    case 1: return mask;
    case 2: return (1ull << (bits - 1)) & mask;
    case 3: return mask >> 1;
    case 4: return r % 20 & mask;
    case 5: return (0 - r % 20) & mask;
    case 6: return (1ull << below(bits)) & mask;
    case 7: return ((1ull << below(bits)) - 1) & mask;
    default: return r & mask;
    }
}

uint64_t Gen::choice(uint64_t bound)
{
    uint64_t v;
    if (mode == Random) {
        uint64_t r = rng.next();
        v = bound == ~0ull ? r : r % (bound + 1);
    } else {
        v = pos < replay.size() ? replay[pos] : mode == Guided ? rng.next() : 0;
        if (v > bound) v = bound == ~0ull ? v : v % (bound + 1);
    }
    ++pos;
    rec.push_back(v);
    if (shm_c && rec.size() <= shm_cap) {
        shm_c[rec.size() - 1] = v;
        *shm_n = (uint32_t)rec.size();
    }
    hash = (hash ^ v) * 1099511628211ull;
    hash ^= hash >> 29;
    return v;
}

int64_t Gen::range(int64_t lo, int64_t hi)
{
    uint64_t n = choice((uint64_t)hi - (uint64_t)lo);
    if (lo >= 0) return lo + (int64_t)n;
    if (hi <= 0) return hi - (int64_t)n;
    // 0 first, then upwards to hi, then downwards from -1
    if (n <= (uint64_t)hi) return (int64_t)n;
    return -(int64_t)(n - (uint64_t)hi);
}

int64_t Gen::edgy(int64_t lo, int64_t hi)
{
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    if (rng.hints && chance(25)) {
        int64_t v = (int64_t)rng.hint[choice(3)] + (int64_t)choice(2) - 1;
        if (v >= lo && v <= hi) return v;
    }
    switch (choice(7)) {
    case 0:
        return range(lo, lo >= 0 ? (int64_t)(lo + std::min<uint64_t>(span, 8))
                                 : (hi < 8 ? hi : 8));
    case 1:
        return hi - (int64_t)choice(std::min<uint64_t>(span, 3));
    case 2:
        return lo + (int64_t)choice(std::min<uint64_t>(span, 3));
    case 3: {
        // around powers of two inside the range
        uint64_t p = 1ull << choice(62);
        int64_t v = (int64_t)p + (int64_t)choice(2) - 1;
        if (choice(1) && lo < 0) v = -v;
        if (v >= lo && v <= hi) return v;
        return range(lo, hi);
    }
    default:
        return range(lo, hi);
    }
}

bool Gen::chance(int percent)
{
    return choice(99) >= (uint64_t)(100 - percent);
}

uint64_t Gen::pattern(int bits)
{
    uint64_t mask = bits == 64 ? ~0ull : (1ull << bits) - 1;
    if (rng.hints && chance(15)) return (rng.hint[choice(3)] + choice(2) - 1) & mask;
    switch (choice(8)) {
    case 0: return choice(std::min<uint64_t>(mask, 9));
    case 1: return mask;
    case 2: return (1ull << (bits - 1)) & mask;
    case 3: return mask >> 1;
    case 4: return (0 - choice(19)) & mask;
    case 5: return (1ull << choice(bits - 1)) & mask;
    default: return choice(mask);
    }
}

// The first four choices of every case are values to prefer, 0 for none.
void Gen::begin()
{
    for (auto& h : rng.hint) {
        if (mode == Random) {
            ++pos;
            rec.push_back(h);
            if (shm_c) {
                shm_c[rec.size() - 1] = h;
                *shm_n = (uint32_t)rec.size();
            }
        } else
            h = choice(~0ull);
    }
    rng.hints = rng.hint[0] || rng.hint[1] || rng.hint[2] || rng.hint[3];
    hash = 1469598103934665603ull;
}

size_t Gen::size(size_t max)
{
    if (rng.hints && chance(15)) {
        uint64_t v = rng.hint[choice(3)] + choice(2) - 1;
        if (v <= max) return (size_t)v;
    }
    uint64_t k = choice(15);
    if (k < 9) return choice(std::min<size_t>(max, 8));
    if (k < 14) return choice(std::min<size_t>(max, 64));
    return choice(max);
}

std::string Gen::ascii(size_t n)
{
    std::string s(n, ' ');
    Rng r = sub();
    for (auto& c : s) c = (char)(32 + r.below(95));
    return s;
}

std::string Gen::path(std::string const& name)
{
    std::string p = scratch + "/" + name;
    if (std::find(paths_.begin(), paths_.end(), p) == paths_.end())
        paths_.push_back(p);
    return p;
}

// ------------------------------------------------------------------- runner
namespace {
constexpr uint32_t CAP = 1u << 16;
struct Shm {
    volatile uint64_t index;
    volatile uint32_t failed;
    volatile uint32_t n;
    char msg[8192];
    uint64_t c[CAP];
};

Shm* new_shm()
{
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shm*)p;
}

int cpu_limit = 20;
void arm_timer(bool on)
{
    itimerval t {};
    if (on) t.it_value.tv_sec = cpu_limit;
    setitimer(ITIMER_PROF, &t, nullptr);
}

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

uint64_t strhash(char const* s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
    return h;
}

uint64_t case_seed(uint64_t seed, Prop const& p, uint64_t idx)
{
    Rng r(seed * 0x9e3779b97f4a7c15ull ^ strhash(p.id) ^
          (strhash(p.name) << 1) ^ idx * 0xd1342543de82ef95ull);
    r.next();
    return r.next();
}

// returns empty string if the case passed
std::string run_case(Prop const& p, Gen& g)
{
    std::string msg;
    try {
        g.begin();
        p.fn(g);
    } catch (Fail const& f) {
        msg = f.msg.empty() ? "failed" : f.msg;
    } catch (std::exception const& e) {
        msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        msg = "unexpected exception of unknown type";
    }
    for (auto& f : g.paths_) unlink(f.c_str());
    return msg;
}

struct Options {
    uint64_t seed = 1;
    std::string tier = "quick";
    std::string scratch, out, replay_dir;
    int workers = 8;
    double max_wall = 600;
    double scale = 1, shrink_s = 60;
    bool guided = true;
};
Options opt;

void set_limits()
{
    rlimit l { 2ull << 30, RLIM_INFINITY };
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = 2ull << 30; // Sparse raises it
    setrlimit(RLIMIT_FSIZE, &l);
    rlimit core { 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
}

void redirect_stderr(std::string const& f)
{
    int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}

std::string read_err(std::string const& f)
{
    std::ifstream in(f);
    std::string line, r;
    int n = 0;
    while (std::getline(in, line) && n < 14) {
        if (line.find("ERROR: AddressSanitizer") != std::string::npos ||
            line.find("    #") != std::string::npos ||
            line.find("ssertion") != std::string::npos ||
            line.find("terminate called") != std::string::npos) {
            r += line.substr(0, 200) + "\n";
            ++n;
        }
    }
    return r;
}

// Runs one case from choices in a child.  Returns failure text or "".
std::string exec_choices(Prop const& p, std::vector<uint64_t> const& ch, Shm* s,
                         std::vector<uint64_t>* used = nullptr,
                         std::string* desc = nullptr)
{
    s->failed = 0;
    s->n = 0;
    s->msg[0] = 0;
    std::string dir = opt.scratch + "/shrink";
    mkdir(dir.c_str(), 0755);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        set_limits();
        redirect_stderr(opt.scratch + "/shrink.err");
        arm_timer(true);
        Gen g;
        g.mode = Gen::Replay;
        g.replay = ch;
        g.thorough = opt.tier == "thorough";
        g.scratch = dir;
        g.shm_n = &s->n;
        g.shm_c = s->c;
        g.shm_cap = CAP;
        std::string m = run_case(p, g);
        if (!m.empty()) {
            s->failed = 1;
            m += "\ncase: " + g.desc_;
            strncpy(s->msg, m.c_str(), sizeof(s->msg) - 1);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string r;
    if (s->failed)
        r = s->msg;
    else if (WIFSIGNALED(st))
        r = WTERMSIG(st) == SIGPROF
            ? cat("did not terminate within ", cpu_limit, " s of CPU time")
            : cat("killed by signal ", WTERMSIG(st), "\n",
                  read_err(opt.scratch + "/shrink.err"));
    else if (WEXITSTATUS(st))
        r = cat("process died with status ", WEXITSTATUS(st), "\n",
                read_err(opt.scratch + "/shrink.err"));
    if (used) used->assign(s->c, s->c + std::min<uint32_t>((uint32_t)s->n, CAP));
    (void)desc;
    return r;
}

std::vector<uint64_t> shrink(Prop const& p, std::vector<uint64_t> best, Shm* s,
                             std::string& msg, double budget)
{
    double end = now() + budget;
    int tries = 0;
    auto attempt = [&](std::vector<uint64_t> const& c) {
        if (now() > end || tries > 4000) return false;
        ++tries;
        std::vector<uint64_t> used;
        std::string m = exec_choices(p, c, s, &used);
        if (m.empty()) return false;
        if (used.size() < c.size() || used.size() <= best.size())
            best = used.size() <= c.size() ? used : c;
        else
            best = c;
        msg = m;
        return true;
    };
    bool progress = true;
    while (progress && now() < end && tries <= 4000) {
        progress = false;
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len; len /= 2) {
            for (size_t i = 0; i + len <= best.size();) {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (c.size() < best.size() && attempt(c))
                    progress = true;
                else
                    i += len;
                if (now() > end) break;
            }
        }
        for (size_t len = std::max<size_t>(best.size() / 2, 1); len; len /= 2) {
            for (size_t i = 0; i + len <= best.size(); i += len) {
                auto c = best;
                bool any = false;
                for (size_t k = i; k < i + len; ++k)
                    if (c[k]) { c[k] = 0; any = true; }
                if (any && attempt(c)) progress = true;
                if (now() > end) break;
            }
        }
        for (size_t i = 0; i < best.size() && now() < end; ++i) {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && now() < end) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                auto c = best;
                c[i] = mid;
                uint64_t before = best[i];
                if (attempt(c)) {
                    progress = true;
                    if (i >= best.size() || best[i] >= before) break;
                } else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

void json_str(std::ostream& o, std::string const& s)
{
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c == '\n') o << "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o << b;
        } else o << c;
    }
    o << '"';
}

struct Result {
    uint64_t evaluations = 0, planned = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> tags;
    std::vector<std::string> samples;
    bool failed = false;
    std::string msg, replay;
    bool timed_out = false;
    uint64_t unreproducible = 0;
};

// Cases that reached something new in the library, as choice sequences; every
// worker has its own, so that a run stays a function of the seed.
class Corpus {
public:
    static void start()
    {
        for (uint32_t i = 0; i < cov_n; ++i) cov_map[cov_at[i]] = 0;
        cov_n = 0;
        ++cmp_now;
        cov_on = true;
    }
    // turns about half of the cases into mutations of earlier ones
    bool prepare(Gen& g)
    {
        Rng& r = g.rng;
        uint64_t hint[4] = {};
        bool hints = !dict.empty() && r.below(2);
        if (hints)
            for (auto& h : hint) h = dict[r.below(dict.size())];
        if (entries.empty() || r.below(2)) {
            memcpy(g.rng.hint, hint, sizeof hint);
            return hints;
        }
        // later entries reach rarer things
        size_t n = entries.size();
        Entry const& e = entries[r.below(2) ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 16))];
        std::vector<uint64_t> c = e.c;
        auto tweak = [&](size_t i) {
            switch (r.below(8)) {
            case 0: c[i] += 1; break;
            case 1: c[i] -= c[i] ? 1 : 0; break;
            case 2: c[i] = r.below(16); break;
            case 3: c[i] = r.pattern(16); break;
            case 4: c[i] = ~0ull - r.below(4); break; // clamped by modulo
            case 5: c[i] = (1ull << r.below(40)) + r.below(3) - 1; break;
            default: c[i] = r.next();
            }
        };
        switch (r.below(6)) {
        case 0: // other continuation
            c.resize(r.below(c.size() + 1));
            break;
        case 1:
        case 2: // values the library compared with
            if (!e.cmp.empty()) {
                for (uint64_t k = 1 + r.below(2); k; --k) {
                    Cmp q = e.cmp[r.below(e.cmp.size())];
                    if (r.below(4) == 0) std::swap(q.a, q.b);
                    std::vector<size_t> at;
                    for (size_t i = 0; i < c.size() && at.size() < 64; ++i)
                        if (c[i] == q.b || c[i] + 1 == q.b || (q.b > 9 && c[i] == (uint16_t)q.b))
                            at.push_back(i);
                    uint64_t v = q.a + r.below(3) - 1;
                    if (!at.empty()) c[at[r.below(at.size())]] = v;
                    else if (!c.empty()) c[r.below(c.size())] = v;
                }
                break;
            }
            [[fallthrough]];
        case 3: // splice
        {
            Entry const& o = entries[r.below(n)];
            size_t i = r.below(c.size() + 1);
            c.resize(i);
            size_t j = r.below(2) ? i : r.below(o.c.size() + 1);
            if (j < o.c.size()) c.insert(c.end(), o.c.begin() + j, o.c.end());
            break;
        }
        default:
            if (c.empty()) break;
            for (uint64_t k = 1 + r.below(4); k; --k) tweak(r.below(c.size()));
        }
        if (c.size() >= 4 && r.below(2))
            for (int i = 0; i < 4; ++i) c[i] = hint[i];
        g.mode = Gen::Guided;
        g.replay = std::move(c);
        return true;
    }
    bool keep(Gen& g)
    {
        if (const_n != dict.size()) {
            dict.clear();
            for (size_t i = 0; i < CMPS; ++i)
                if (const_used[i]) dict.push_back(consts[i]);
        }
        bool fresh = false;
        for (uint32_t k = 0; k < cov_n; ++k) {
            uint16_t i = cov_at[k];
            uint8_t b = bucket(cov_map[i]);
            if ((seen[i] & b) == 0) {
                seen[i] |= b;
                fresh = true;
            }
        }
        if (!fresh || g.rec.size() > 20000) return false;
        Entry e;
        e.c = g.rec;
        for (size_t i = 0; i < CMPS; ++i)
            if (cmp_stamp[i] == cmp_now) e.cmp.push_back(cmps[i]);
        if (entries.size() == 600) entries.erase(entries.begin());
        entries.push_back(std::move(e));
        return true;
    }

private:
    struct Entry {
        std::vector<uint64_t> c;
        std::vector<Cmp> cmp;
    };
    static uint8_t bucket(uint8_t n)
    {
        return n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32
            : n < 128 ? 64 : 128;
    }
    std::vector<Entry> entries;
    std::vector<uint64_t> dict;
    std::vector<uint8_t> seen = std::vector<uint8_t>(COV);
};

// one worker process: cases start, start+W, ...
void worker(Prop const& p, uint64_t from, uint64_t until, uint64_t step,
            uint64_t w, Shm* s, double deadline, bool report)
{
    set_limits();
    std::string base = opt.scratch + "/w" + std::to_string(w);
    mkdir(base.c_str(), 0755);
    redirect_stderr(base + ".err");
    Result r;
    Corpus corpus;
    bool guided = opt.guided && strcmp(p.name, "threads");
    for (uint64_t i = from; i < until; i += step) {
        if (now() > deadline) { r.timed_out = true; break; }
        s->index = i;
        s->n = 0;
        arm_timer(true);
        Gen g;
        g.rng = Rng(case_seed(opt.seed, p, i));
        g.thorough = opt.tier == "thorough";
        g.scratch = base;
        g.shm_n = &s->n;
        g.shm_c = s->c;
        g.shm_cap = CAP;
        if (guided && corpus.prepare(g)) ++r.tags["guided by coverage"];
        if (guided) Corpus::start();
        std::string m = run_case(p, g);
        cov_on = false;
        if (guided && m.empty() && corpus.keep(g)) ++r.tags["reached something new"];
        arm_timer(false);
        if (!m.empty()) {
            strncpy(s->msg, m.c_str(), sizeof(s->msg) - 1);
            s->failed = 1;
            break;
        }
        ++r.evaluations;
        if (g.nontrivial_) {
            r.distinct.insert(g.hash);
            if (r.samples.size() < 2 && !g.desc_.empty())
                r.samples.push_back(g.desc_.substr(0, 1500));
        }
        for (auto& t : g.tags_) r.tags[t.first] += t.second;
    }
    if (report) {
        std::ofstream o(base + ".res", std::ios::binary | std::ios::app);
        o << r.evaluations << ' ' << r.timed_out << ' ' << r.distinct.size()
          << ' ' << r.tags.size() << ' ' << r.samples.size() << '\n';
        for (auto h : r.distinct) o << h << '\n';
        for (auto& t : r.tags) o << t.second << ' ' << t.first << '\n';
        for (auto& t : r.samples) {
            std::string x = t;
            std::replace(x.begin(), x.end(), '\n', ' ');
            o << x << '\n';
        }
    }
    _exit(0);
}

void merge(std::string const& f, Result& r)
{
    std::ifstream in(f, std::ios::binary);
    uint64_t ev, to, nd, nt, ns;
    while (in >> ev >> to >> nd >> nt >> ns) {
        r.evaluations += ev;
        r.timed_out |= to != 0;
        for (uint64_t i = 0; i < nd; ++i) {
            uint64_t h;
            in >> h;
            r.distinct.insert(h);
        }
        std::string line;
        std::getline(in, line);
        for (uint64_t i = 0; i < nt; ++i) {
            std::getline(in, line);
            auto sp = line.find(' ');
            r.tags[line.substr(sp + 1)] += std::stoull(line.substr(0, sp));
        }
        for (uint64_t i = 0; i < ns; ++i) {
            std::getline(in, line);
            if (r.samples.size() < 3) r.samples.push_back(line);
        }
    }
    unlink(f.c_str());
}

bool confirm_prefix(Prop const& p, uint64_t w, uint64_t W, uint64_t idx, Shm* s)
{
    s->failed = 0;
    pid_t pid = fork();
    if (pid == 0) worker(p, w, idx + 1, W, 999, s, now() + 300, false);
    int st;
    waitpid(pid, &st, 0);
    return s->failed || WIFSIGNALED(st) || WEXITSTATUS(st);
}

Result run_prop(Prop const& p)
{
    Result res;
    uint64_t total = (uint64_t)((opt.tier == "thorough" ? p.thorough : p.quick)
                                * opt.scale);
    if (!total) total = 1;
    res.planned = total;
    int W = opt.workers;
    std::vector<Shm*> shm;
    for (int i = 0; i < W; ++i) shm.push_back(new_shm());
    Shm* sh = new_shm();
    double deadline = now() + opt.max_wall;
    std::map<pid_t, int> pids;
    fflush(stdout);
    auto start = [&](int w, uint64_t from) {
        shm[w]->failed = 0;
        pid_t pid = fork();
        if (pid == 0)
            worker(p, from, total, W, w, shm[w], deadline, true);
        pids[pid] = w;
    };
    for (int w = 0; w < W; ++w)
        if ((uint64_t)w < total) start(w, w);
    while (!pids.empty()) {
        int st;
        pid_t pid = wait(&st);
        if (pid < 0) break;
        auto it = pids.find(pid);
        if (it == pids.end()) continue;
        int w = it->second;
        pids.erase(it);
        Shm* s = shm[w];
        bool bad = s->failed || WIFSIGNALED(st) || WEXITSTATUS(st);
        if (!bad || res.failed) continue;
        std::vector<uint64_t> ch(s->c, s->c + std::min<uint32_t>((uint32_t)s->n, CAP));
        uint64_t idx = s->index;
        std::string m;
        bool ok = true;
        for (int k = 0; k < 3 && ok; ++k) {
            m = exec_choices(p, ch, sh);
            ok = !m.empty();
        }
        std::string rp = cat(opt.replay_dir, "/", p.id, "-", p.name, ".replay");
        if (ok) {
            for (auto& q : pids) kill(q.first, SIGKILL);
            std::vector<uint64_t> orig = ch;
            ch = shrink(p, ch, sh, m, opt.shrink_s);
            bool again = true;
            for (int k = 0; k < 3 && again; ++k)
                again = !exec_choices(p, ch, sh).empty();
            if (!again) {
                ch = orig;
                m = exec_choices(p, ch, sh);
            }
            std::ofstream o(rp);
            o << p.id << ' ' << p.name << " choices " << opt.tier << '\n';
            for (auto c : ch) o << c << '\n';
            o << "# " << m << '\n';
            res.failed = true;
        } else {
            // maybe it needs the cases executed before it in this process
            bool pre = true;
            for (int k = 0; k < 3 && pre; ++k)
                pre = confirm_prefix(p, w, W, idx, sh);
            if (pre) {
                for (auto& q : pids) kill(q.first, SIGKILL);
                std::ofstream o(rp);
                o << p.id << ' ' << p.name << " prefix " << opt.tier << ' '
                  << opt.seed << ' ' << w << ' ' << W << ' ' << idx << '\n';
                m = cat(sh->failed ? sh->msg : "process died",
                        " (only after the preceding cases of the same process)");
                o << "# " << m << '\n';
                res.failed = true;
            } else {
                ++res.unreproducible;
                start(w, idx + W);
            }
        }
        if (res.failed) {
            res.msg = m;
            res.replay = rp;
        }
    }
    for (int w = 0; w < W; ++w)
        merge(opt.scratch + "/w" + std::to_string(w) + ".res", res);
    for (auto s : shm) munmap(s, sizeof(Shm));
    munmap(sh, sizeof(Shm));
    return res;
}

int replay_file(std::string const& f)
{
    std::ifstream in(f);
    std::string id, name, kind;
    in >> id >> name >> kind >> opt.tier;
    for (auto& p : registry()) {
        if (id != p.id || name != p.name) continue;
        Shm* s = new_shm();
        std::string m;
        if (kind == "choices") {
            std::vector<uint64_t> ch;
            uint64_t v;
            while (in >> v) ch.push_back(v);
            m = exec_choices(p, ch, s);
        } else {
            uint64_t w, W, idx;
            in >> opt.seed >> w >> W >> idx;
            if (confirm_prefix(p, w, W, idx, s)) m = s->failed ? s->msg : "died";
        }
        printf("%s\n", m.empty() ? "PASS" : m.c_str());
        return m.empty() ? 0 : 1;
    }
    fprintf(stderr, "no such property\n");
    return 2;
}
} // namespace

Sparse::Sparse(std::string const& path)
{
    fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) throw std::runtime_error("scratch open failed");
}
void Sparse::put(std::string const& b)
{
    rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    rlimit big { l.rlim_max, l.rlim_max };
    setrlimit(RLIMIT_FSIZE, &big);
    bool ok = pwrite(fd, b.data(), b.size(), (off_t)pos) == (ssize_t)b.size();
    setrlimit(RLIMIT_FSIZE, &l);
    if (!ok) throw std::runtime_error("scratch write failed");
    pos += b.size();
}
Sparse::~Sparse()
{
    rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    rlimit big { l.rlim_max, l.rlim_max };
    setrlimit(RLIMIT_FSIZE, &big);
    if (ftruncate(fd, (off_t)pos)) {}
    setrlimit(RLIMIT_FSIZE, &l);
    close(fd);
}
} // namespace pbt

int main(int argc, char** argv)
{
    using namespace pbt;
    std::string id, rf;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--id") id = val();
        else if (a == "--seed") opt.seed = std::stoull(val());
        else if (a == "--tier") opt.tier = val();
        else if (a == "--scratch") opt.scratch = val();
        else if (a == "--out") opt.out = val();
        else if (a == "--replay-dir") opt.replay_dir = val();
        else if (a == "--workers") opt.workers = std::stoi(val());
        else if (a == "--max-wall") opt.max_wall = std::stod(val());
        else if (a == "--scale") opt.scale = std::stod(val());
        else if (a == "--shrink") opt.shrink_s = std::stod(val());
        else if (a == "--no-guide") opt.guided = false;
        else if (a == "--replay") rf = val();
    }
    if (!rf.empty()) return replay_file(rf);
    std::ofstream o(opt.out);
    o << "{\"checks\":[";
    bool first = true, bad = false;
    for (auto& p : registry()) {
        if (id != p.id) continue;
        double t0 = now();
        Result r = run_prop(p);
        if (!first) o << ",";
        first = false;
        o << "{\"name\":";
        json_str(o, p.name);
        o << ",\"rule\":";
        json_str(o, p.rule);
        o << ",\"planned\":" << r.planned << ",\"evaluations\":" << r.evaluations
          << ",\"distinct_nontrivial\":" << r.distinct.size()
          << ",\"timed_out\":" << (r.timed_out ? "true" : "false")
          << ",\"unreproducible\":" << r.unreproducible
          << ",\"wall_s\":" << now() - t0 << ",\"tags\":{";
        bool f2 = true;
        for (auto& t : r.tags) {
            if (!f2) o << ",";
            f2 = false;
            json_str(o, t.first);
            o << ":" << t.second;
        }
        o << "},\"samples\":[";
        for (size_t i = 0; i < r.samples.size(); ++i) {
            if (i) o << ",";
            json_str(o, r.samples[i]);
        }
        o << "],\"failed\":" << (r.failed ? "true" : "false") << ",\"replay\":";
        json_str(o, r.replay);
        o << ",\"message\":";
        json_str(o, r.msg);
        o << "}";
        o.flush();
        if (r.failed) { bad = true; break; }
    }
    o << "]}\n";
    return first ? 2 : bad ? 1 : 0;
}
