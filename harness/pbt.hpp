// Small property-based testing engine: every random decision of a case is a
// recorded "choice", so any failing case can be replayed from its choices and
// shrunk by editing them.  Cases are a pure function of (seed, property, index).
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
};

// Stateless-ish generator for bulk data; seeded from one recorded choice.
struct Rng {
    uint64_t s;
    uint64_t hint[4] = {}; // values to prefer
    bool hints = false;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // boundary-heavy pattern of `bits` bits
    uint64_t pattern(int bits);
};

class Gen {
public:
    // ---- choices ----
    uint64_t choice(uint64_t bound); // uniform in [0, bound], recorded
    // integer in [lo, hi]; shrinks to the value of the range nearest to 0
    int64_t range(int64_t lo, int64_t hi);
    // like range, but edges of the range and small values are frequent
    int64_t edgy(int64_t lo, int64_t hi);
    bool chance(int percent); // shrinks to false
    template <class T> T const& pick(std::vector<T> const& v)
    {
        return v[choice(v.size() - 1)];
    }
    uint64_t pattern(int bits); // boundary heavy bit pattern
    Rng sub()
    {
        Rng r(choice(0xffffffffull));
        memcpy(r.hint, rng.hint, sizeof r.hint);
        r.hints = rng.hints;
        return r;
    }
    void begin();
    // size: mostly small, seldom up to max
    size_t size(size_t max);
    std::string ascii(size_t n);

    // ---- book-keeping ----
    void nontrivial() { nontrivial_ = true; }
    void tag(std::string const& t) { ++tags_[t]; }
    void describe(std::string const& s)
    {
        if (!desc_.empty()) desc_ += "; ";
        desc_ += s;
    }
    std::string path(std::string const& name); // scratch file of this case
    bool thorough = false;

    // internals
    enum Mode { Random, Replay, Guided } mode = Random;
    Rng rng { 0 };
    std::vector<uint64_t> replay;
    size_t pos = 0;
    volatile uint32_t* shm_n = nullptr;
    uint64_t* shm_c = nullptr;
    uint32_t shm_cap = 0;
    std::vector<uint64_t> rec;
    uint64_t hash = 1469598103934665603ull;
    bool nontrivial_ = false;
    std::map<std::string, uint64_t> tags_;
    std::string desc_;
    std::string scratch;
    std::vector<std::string> paths_;
};

struct Prop {
    char const* id;
    char const* name;  // check inside the property (sub-check)
    void (*fn)(Gen&);
    uint64_t quick;    // number of cases
    uint64_t thorough;
    char const* rule;
};

std::vector<Prop>& registry();
struct Reg {
    Reg(Prop p) { registry().push_back(p); }
};

[[noreturn]] inline void fail(std::string m) { throw Fail { std::move(m) }; }

template <class... A> std::string cat(A const&... a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}

std::string hex(std::string const& s, size_t max = 64);

// writes a file that may be mostly holes, tens of gigabytes long
class Sparse {
public:
    explicit Sparse(std::string const& path);
    ~Sparse();
    void put(std::string const& b);
    void skip(uint64_t n) { pos += n; }
    uint64_t pos = 0;

private:
    int fd;
};

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(id, name, quick, thorough, rule)                              \
    static void PBT_CAT(prop_fn_, __LINE__)(pbt::Gen & g);                     \
    static pbt::Reg PBT_CAT(prop_reg_, __LINE__)(                              \
        { id, name, PBT_CAT(prop_fn_, __LINE__), quick, thorough, rule });     \
    static void PBT_CAT(prop_fn_, __LINE__)(pbt::Gen & g)

#define CHECK(cond, ...)                                                       \
    do {                                                                       \
        if (!(cond)) pbt::fail(pbt::cat(#cond, " failed: ", __VA_ARGS__));     \
    } while (0)

} // namespace pbt
