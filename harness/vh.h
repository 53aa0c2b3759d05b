// Verification harness: case registry, deterministic randomness, verdict recording.
#ifndef VH_H
#define VH_H

#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vh
{
    // splitmix64-seeded xoshiro256**; independent of the library's generator.
    struct Rng
    {
        uint64_t s[4];
        explicit Rng(uint64_t seed = 1) { reseed(seed); }
        static uint64_t mix(uint64_t& x)
        {
            uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }
        void reseed(uint64_t seed) { for (int i=0;i<4;i++) s[i] = mix(seed); }
        static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
        uint64_t next()
        {
            uint64_t r = rotl(s[1]*5, 7)*9, t = s[1] << 17;
            s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
            return r;
        }
        double u() { return (next() >> 11) * (1.0/9007199254740992.0); }
        double u(double a, double b) { return a + (b - a)*u(); }
        int i(int a, int b) { return (int)(a + (int64_t)(next() % (uint64_t)((int64_t)b - a + 1))); }   // inclusive
        bool coin(double p = 0.5) { return u() < p; }
        double normal()
        {
            double a = u(), b = u();
            if (a < 1e-300) a = 1e-300;
            return sqrt(-2*log(a))*cos(6.283185307179586*b);
        }
        template<class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    };

    struct Ctx
    {
        uint64_t seed;      // run seed (VERIF_SEED)
        long caseNo;
        bool thorough;
        bool verbose;
        Rng rng;

        void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
        bool failed() const { return nFail > 0; }
        void nontrivial(uint64_t hash);             // this case counts, identified by hash
        void count(const char* what, double n = 1); // observed events
        void maxOf(const char* what, double v);     // extreme value observed
        void tag(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // scenario description
        void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
        void inconclusive(const char* why);
        void emit(uint64_t digest);                 // compared with other processes running the same case

        int nFail;
        std::string tagText;
    };

    struct Check
    {
        const char* id;
        long quick, thorough;           // numbers of cases
        const char* rule;
        void (*fn)(Ctx&);
    };

    std::vector<Check>& registry();
    struct Reg { Reg(const Check& c) { registry().push_back(c); } };

    // FNV-1a
    inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i=0;i<n;i++) { h ^= c[i]; h *= 1099511628211ULL; }
        return h;
    }
    inline uint64_t hashD(double d, uint64_t h) { if (d == 0) d = 0; return hashBytes(&d, sizeof d, h); }
    inline uint64_t hashU(uint64_t d, uint64_t h) { return hashBytes(&d, sizeof d, h); }
    inline uint64_t hashV(const std::vector<double>& v, uint64_t h = 1469598103934665603ULL)
    { for (double d : v) h = hashD(d, h); return h; }

    inline bool near(double a, double b, double tol)
    { return std::fabs(a - b) <= tol*(1 + std::max(std::fabs(a), std::fabs(b))); }

    // Every so often a grid with more than 65536 cells, or a long thin one. Uses a stream of its own, so that the other
    // cases stay as they are.
    inline bool largeGrid(const Ctx& c, long every, int& w, int& h, int most = 300)
    {
        if (c.caseNo % every != every/2) return false;
        Rng r(c.seed*1000003ULL + (uint64_t)c.caseNo*7919 + 5);
        int k = r.i(0, 3);
        if (k < 2) { w = r.i(257, most); h = r.i(257, most); } else { w = r.i(520, 1100); h = r.i(4, 9); if (k == 3) std::swap(w, h); }
        return true;
    }

    std::string scratchDir();       // per-process scratch directory (removed at exit)

    // Runs fn in a forked child; returns exit status (>=0), -signal, or -1000 on timeout.
    // Output of the child's stderr (up to some KB) goes to err.
    int runChild(const std::function<void()>& fn, std::string& err, int cpuSeconds = 60);
}

#define VH_CHECK(ID, QUICK, THOROUGH, RULE) \
    static void check_##ID(vh::Ctx&); \
    static vh::Reg reg_##ID(vh::Check{#ID, QUICK, THOROUGH, RULE, check_##ID}); \
    static void check_##ID(vh::Ctx& c)

#endif
