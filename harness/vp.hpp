// vp.hpp - small property-based-testing engine used by every harness in /verif/harness.
// A generated case is a finite sequence of integer choices (as in Hypothesis): generators draw
// choices, shrinking edits the sequence, and the replay file is the sequence.
#ifndef VP_HPP
#define VP_HPP
#include <cstdint>
#include <cmath>
#include <cstddef>
#include <limits>
#include <sstream>
#include <iomanip>
#include <string>
#include <vector>
#include <algorithm>
#include <initializer_list>

namespace vp {

struct Failure { std::string tag; std::string msg; };
struct Discarded {};

//! splitmix64/xoshiro style generator: own implementation so that runs are pure functions of the seed.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL)); r.next(); return r.next(); }
inline uint64_t hash_str(const char* p) { uint64_t h = 1469598103934665603ULL; while (*p) { h ^= (unsigned char)*p++; h *= 1099511628211ULL; } return h; }

//! Label counters: interned by name.
int label_id(const char* name);
void label_hit(int id);

class Case {
public:
    static const std::size_t max_choices = 16384;
    // recording area (shared memory in workers, so that a crash leaves the choices behind)
    uint64_t* rec = nullptr; uint32_t* nrec = nullptr;
    // source
    Rng rng{0};
    const uint64_t* replay = nullptr; std::size_t nreplay = 0; std::size_t pos = 0; bool replaying = false;
    // state
    bool noting = false; std::ostringstream os; const char* notefile = nullptr; void flush_note() { if (notefile) { FILE* f = fopen(notefile, "w"); if (f) { std::string t = os.str(); fwrite(t.data(), 1, t.size(), f); fclose(f); } } } bool nontriv = false; bool size_overrun = false;

    //! uniform integer in [0,n); n==0 means all 64 bits.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (replaying) {
            v = pos < nreplay ? replay[pos] : 0;
            if (n && v >= n) v %= n;
        } else {
            v = rng.next();
            if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        if (pos >= max_choices) throw Discarded();
        rec[pos] = v; ++pos; *nrec = (uint32_t)pos;
        return v;
    }
    //! integer in [lo,hi], simplest value lo
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    //! integer in [-m,m], simplest 0
    int64_t around(int64_t m) { uint64_t v = draw(2 * (uint64_t)m + 1); return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // simplest false
    template <typename T> const T& pick(const std::vector<T>& v) { return v[(std::size_t)draw(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + (std::size_t)draw(v.size())); }
    //! double in [lo,hi] with 2^-32 resolution; simplest lo
    double real(double lo, double hi) { return lo + (hi - lo) * ((double)draw((1ULL << 32) + 1) / 4294967296.0); }
    //! symmetric double in [-m,m], simplest 0
    double sreal(double m) { uint64_t v = draw(1ULL << 40); double r = (double)(v >> 1) / (double)(1ULL << 39) * m; return (v & 1) ? -r : r; }

    void nontrivial() { nontriv = true; }
    void label(const char* name);
    void label_if(bool b, const char* name) { if (b) label(name); }
    [[noreturn]] void discard() { throw Discarded(); }
    [[noreturn]] void fail(const std::string& tag, const std::string& msg) { throw Failure{tag, msg}; }
};

typedef void (*aspect_fn)(Case&);
struct Aspect { const char* name; aspect_fn fn; long quick; long thorough; const char* rule; };
std::vector<Aspect>& registry();
struct Registrar { Registrar(const char* n, aspect_fn f, long q, long t, const char* rule) { registry().push_back(Aspect{n, f, q, t, rule}); } };

template <typename T> struct Show { static void put(std::ostream& os, const T& t) { os << t; } };
template <> struct Show<double> { static void put(std::ostream& os, const double& t) { os << std::setprecision(17) << t; } };

} // namespace vp

//! Define an aspect (one generated check of a property): quick/thorough give the number of cases per run.
#define VP_ASPECT(NAME, QUICK, THOROUGH, RULE)                                             \
    static void NAME(vp::Case& c);                                                         \
    static vp::Registrar vp_reg_##NAME(#NAME, &NAME, QUICK, THOROUGH, RULE);               \
    static void NAME(vp::Case& c)

#define VP_NOTE(C, EXPR) do { if ((C).noting) { (C).os << std::setprecision(17) << EXPR << "\n"; (C).flush_note(); } } while (0)
#define VP_CHECK(C, COND, TAG, EXPR)                                                       \
    do { if (!(COND)) { std::ostringstream vp_o; vp_o << std::setprecision(17) << EXPR; (C).fail(TAG, vp_o.str()); } } while (0)

#endif
