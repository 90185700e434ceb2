// Shared helpers of the trace drivers: ndjson records, scaled integers, a small
// reproducible random generator (never std::random_device) and process isolation.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

// TLC integers are 32 bit: every number is written as a scaled integer, clamped to a
// limit, NaN and infinities map to the limit as well (which no specification accepts).
static const int BIG = 2000000000;

inline int fx(double v, double scale, int lim = BIG)
{
    if (std::isnan(v)) return lim;
    double s = v * scale;
    if (s >= lim) return lim;
    if (s <= -lim) return -lim;
    return (int)std::llround(s);
}

struct J
{
    std::string s;
    J() : s("{") {}
    void sep() { if (s.back() != '{' && s.back() != '[') s += ','; }
    void key(const char* k) { sep(); s += '"'; s += k; s += "\":"; }
    J& k(const char* name, const char* v) { key(name); s += '"'; s += v; s += '"'; return *this; }
    J& k(const char* name, const std::string& v) { return k(name, v.c_str()); }
    J& k(const char* name, bool v) { key(name); s += v ? "true" : "false"; return *this; }
    J& k(const char* name, int v) { key(name); s += std::to_string(v); return *this; }
    J& k(const char* name, unsigned v) { return k(name, (int)v); }
    J& k(const char* name, long v) { return k(name, (int)v); }
    J& k(const char* name, size_t v) { return k(name, (int)v); }
    J& raw(const char* name, const std::string& v) { key(name); s += v; return *this; }
    template <class T> J& k(const char* name, const std::vector<T>& v) { key(name); s += arr(v); return *this; }
    static std::string one(int v) { return std::to_string(v); }
    static std::string one(unsigned v) { return std::to_string((int)v); }
    static std::string one(bool v) { return v ? "true" : "false"; }
    static std::string one(const std::string& v) { return "\"" + v + "\""; }
    template <class T> static std::string one(const std::vector<T>& v) { return arr(v); }
    template <class T> static std::string arr(const std::vector<T>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += one(v[i]); }
        return r + "]";
    }
    static std::string arr(const std::vector<bool>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i++) { if (i) r += ','; r += v[i] ? "true" : "false"; }
        return r + "]";
    }
    std::string str() const { return s + "}"; }
};

struct Rng
{
    uint64_t s;
    // The seed is scrambled: seeds next to each other must not give the same stream a few draws apart.
    explicit Rng(uint64_t seed) : s(seed) { s = next(); s = next() ^ (seed << 32); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // closed range
    bool coin(int num = 1, int den = 2) { return in(1, den) <= num; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[in(0, (int)v.size() - 1)]; }
};

// The trace being written. A case is announced before it runs, so that the input of a
// run that dies can be reported.
struct Tracer
{
    FILE* f = nullptr;
    std::string curFile;
    int cases = 0;
    void open(const std::string& path)
    {
        f = fopen(path.c_str(), "w");
        if (!f) { perror(path.c_str()); exit(90); }
        curFile = path + ".cur";
    }
    void begin(const std::string& what)
    {
        cases++;
        FILE* c = fopen(curFile.c_str(), "w");
        if (c) { fprintf(c, "case %d: %s\n", cases, what.c_str()); fclose(c); }
    }
    void rec(const J& j) { std::string s = j.str(); fprintf(f, "%s\n", s.c_str()); }
    void close() { fclose(f); f = nullptr; remove(curFile.c_str()); }
};

extern Tracer T;
extern std::string SCRATCH;      // scratch directory of this run

struct ChildResult { int status; bool exited; int code; int sig; bool timeout; std::string err; };
// Run f in a forked child (stderr captured); the child exits 0 when f returns.
ChildResult inChild(const std::function<void()>& f, int timeoutSec = 20);

typedef void (*DriverFn)(uint64_t seed, bool thorough);
struct Reg { Reg(const char* id, DriverFn fn); };

// Hook events (order in which entries leave a heap).
struct PopEvent { unsigned addr; double value; };
extern std::vector<PopEvent> POPS;

// A double as four 16-bit words (opaque, for exact comparison).
inline std::vector<int> words(double v)
{
    uint64_t b; memcpy(&b, &v, 8);
    return { (int)(b & 0xffff), (int)((b >> 16) & 0xffff), (int)((b >> 32) & 0xffff), (int)((b >> 48) & 0xffff) };
}
// A 60-bit digest of a sequence of doubles, as two 30-bit words.
inline std::vector<int> digest(const std::vector<double>& v)
{
    uint64_t h = 1469598103934665603ull;
    for (double d : v)
    {
        if (d == 0) d = 0;            // -0 and +0 are the same value
        uint64_t b; memcpy(&b, &d, 8);
        for (int i = 0; i < 8; i++) { h ^= (b >> (8 * i)) & 0xff; h *= 1099511628211ull; }
        h ^= h >> 29;
    }
    return { (int)(h & 0x3fffffff), (int)((h >> 30) & 0x3fffffff) };
}
#endif
