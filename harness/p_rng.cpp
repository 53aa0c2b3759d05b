// R01, R02: random number generator.
#include "vh.h"
#include "slsm_all.h"
#include <climits>
#include <set>
using namespace vh;
using slsm::MersenneTwister;

namespace
{
    struct Draw { int kind; int lo, hi; double a, b; };
    Draw randomDraw(Rng& r)
    {
        Draw d; d.kind = r.i(0, 3); d.a = r.u(-50, 50); d.b = r.coin(0.2) ? pow(10, r.u(-6, 6)) : r.u(0.1, 9);
        switch (r.i(0, 4))
        {
            case 0: d.lo = r.i(-1000000, 1000000); d.hi = d.lo; break;
            case 1: d.lo = INT_MIN; d.hi = INT_MAX; break;
            case 2: d.lo = r.i(INT_MIN, INT_MAX); d.hi = r.i(d.lo, INT_MAX); break;
            default: d.lo = r.i(-40, 40); d.hi = d.lo + r.i(0, 100);
        }
        return d;
    }
    double take(MersenneTwister& g, const Draw& d)
    {
        switch (d.kind)
        {
            case 0: return g();
            case 1: return g.integer(d.lo, d.hi);
            case 2: return g.normal();
            default: return g.normal(d.a, d.b);
        }
    }
    std::vector<Draw> script(Rng& r, int n, bool normalsMostly)
    { std::vector<Draw> v; for (int i=0;i<n;i++) { Draw d = randomDraw(r); if (normalsMostly && r.coin(0.6)) d.kind = 2; v.push_back(d); } return v; }
    std::vector<double> play(MersenneTwister& g, const std::vector<Draw>& s) { std::vector<double> o; for (auto& d : s) o.push_back(take(g, d)); return o; }
    unsigned randomSeed(Rng& r)
    { switch (r.i(0, 5)) { case 0: return r.i(0, 3); case 1: return UINT_MAX - r.i(0, 2); case 2: return 1u << r.i(0, 31); default: return (unsigned)r.next(); } }
    bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), a.size()*sizeof(double)); }
    size_t firstDiff(const std::vector<double>& a, const std::vector<double>& b) { for (size_t i=0;i<a.size();i++) if (memcmp(&a[i], &b[i], 8)) return i; return a.size(); }
}

VH_CHECK(R01, 12000, 150000, "a case counts when two streams from one seed with different earlier histories were compared; identified by the stream")
{
    unsigned seed = randomSeed(c.rng); int nB = c.rng.i(0, 60), n = c.rng.coin(0.02) ? 3000 : c.rng.i(1, 80);
    auto hist = script(c.rng, nB, true), main = script(c.rng, n, c.rng.coin()), mid = script(c.rng, c.rng.i(0, 20), true);
    c.tag("seed %u, %d draws before, %d after", seed, nB, n);
    MersenneTwister fresh, used;
    fresh.setSeed(seed); if (fresh.getSeed() != seed) return c.fail("reported", "seeded with %u, reports %u", seed, fresh.getSeed());
    std::vector<double> want = play(fresh, main);
    if (fresh.getSeed() != seed) return c.fail("reported", "reported seed changed from %u to %u by drawing", seed, fresh.getSeed());
    // Another object with its own history.
    play(used, hist);
    int times = c.rng.coin(0.2) ? 2 : 1; for (int i=0;i<times;i++) { if (i) play(used, mid); used.setSeed(seed); }
    if (used.getSeed() != seed) return c.fail("reported", "seeded with %u, reports %u", seed, used.getSeed());
    std::vector<double> got = play(used, main);
    if (!same(want, got)) { size_t k = firstDiff(want, got); return c.fail("history", "draw %zu (kind %d) after seeding with %u is %.17g, without earlier draws %.17g", k, main[k].kind, seed, got[k], want[k]); }
    // The same object again, with another seed in between.
    used.setSeed(randomSeed(c.rng)); play(used, mid); used.setSeed(seed); got = play(used, main);
    if (!same(want, got)) { size_t k = firstDiff(want, got); return c.fail("reseeding", "draw %zu (kind %d) after reseeding is %.17g, first time %.17g", k, main[k].kind, got[k], want[k]); }
    // Interleaved with other generators and their seeding.
    {
        MersenneTwister a, b; a.setSeed(seed); b.setSeed(randomSeed(c.rng)); got.clear();
        for (auto& d : main)
        {
            if (c.rng.coin(0.5)) take(b, randomDraw(c.rng));
            if (c.rng.coin(0.05)) b.setSeed(randomSeed(c.rng));
            if (c.rng.coin(0.02)) { MersenneTwister t; take(t, randomDraw(c.rng)); }
            got.push_back(take(a, d));
        }
        if (!same(want, got)) { size_t k = firstDiff(want, got); return c.fail("independent", "draw %zu (kind %d) is %.17g when another generator is used in between, else %.17g", k, main[k].kind, got[k], want[k]); }
    }
    // A copy made on the way carries on alike.
    {
        MersenneTwister a; a.setSeed(seed); size_t cut = c.rng.i(0, n); got.clear();
        for (size_t i=0;i<cut;i++) got.push_back(take(a, main[i]));
        MersenneTwister b = a; play(a, mid);
        for (size_t i=cut;i<main.size();i++) got.push_back(take(b, main[i]));
        if (!same(want, got)) { size_t k = firstDiff(want, got); return c.fail("copy", "draw %zu (kind %d) of a copy is %.17g, original %.17g", k, main[k].kind, got[k], want[k]); }
    }
    // An unseeded generator reports the seed that reproduces it.
    {
        MersenneTwister a, b; unsigned s = a.getSeed(); got = play(a, main); if (a.getSeed() != s) return c.fail("reported", "reported seed changes by drawing");
        b.setSeed(s); std::vector<double> w = play(b, main);
        if (!same(w, got)) { size_t k = firstDiff(w, got); return c.fail("unseeded", "generator reports seed %u, draw %zu is %.17g, with that seed %.17g", s, k, got[k], w[k]); }
        c.count("unseeded generators reproduced");
    }
    // Other seeds give other streams.
    {
        unsigned other = seed ^ (1u << c.rng.i(0, 31)); MersenneTwister a; a.setSeed(other); int eq = 0; MersenneTwister b; b.setSeed(seed);
        for (int i=0;i<8;i++) eq += a() == b();
        if (eq == 8) return c.fail("seeds", "seeds %u and %u give the same stream", seed, other);
    }
    c.count("streams compared", 6); c.count("draws compared", 6.0*n);
    if (nB > 0 && n > 1) c.nontrivial(hashV(want, seed));
}

namespace
{
    struct Moments
    {
        long n = 0; double s[5] = {0, 0, 0, 0, 0}, lag[4] = {0, 0, 0, 0}, last[3] = {0, 0, 0}, lagN[4] = {0, 0, 0, 0};
        void add(double z)
        {
            double p = 1; for (int i=1;i<5;i++) { p *= z; s[i] += p; }
            for (int k=0;k<3;k++) if (n > k) { lag[k] += z*last[k]; lagN[k]++; }
            last[2] = last[1]; last[1] = last[0]; last[0] = z; n++;
        }
    };
    const double Q = 7;    // standard errors
    // Largest distance between the sample and a distribution function, in units of 1/sqrt(n).
    double ks(std::vector<double> v, const std::function<double(double)>& F)
    {
        std::sort(v.begin(), v.end()); double m = 0, n = v.size();
        for (size_t i=0;i<v.size();i++) { double f = F(v[i]); m = std::max(m, std::max(std::fabs(f - i/n), std::fabs((i + 1)/n - f))); }
        return m*sqrt(n);
    }
    void judge(Ctx& c, const char* what, const Moments& m, double var4)
    {
        // z has mean 0 and variance 1; var4 is the variance of z^2
        double n = m.n, e1 = m.s[1]/sqrt(n), e2 = (m.s[2] - n)/sqrt(n*var4);
        c.maxOf("mean, in standard errors", std::fabs(e1)); c.maxOf("variance, in standard errors", std::fabs(e2));
        if (!(std::fabs(e1) < Q)) return c.fail("mean", "%s: mean off by %.4g deviations of one draw over %ld draws", what, m.s[1]/n, m.n);
        if (!(std::fabs(e2) < Q)) return c.fail("variance", "%s: variance is %.6g times the requested one over %ld draws", what, m.s[2]/n, m.n);
        for (int k=0;k<3;k++)
        {
            double e = m.lag[k]/sqrt(m.lagN[k]); c.maxOf("serial correlation, in standard errors", std::fabs(e));
            if (!(std::fabs(e) < Q)) return c.fail("correlation", "%s: correlation %.4g at lag %d over %ld draws", what, m.lag[k]/m.lagN[k], k + 1, m.n);
        }
    }
}

VH_CHECK(R02, 1500, 8000, "a case counts when a sample of at least a thousand draws was judged; identified by the sample")
{
    MersenneTwister g; unsigned seed = randomSeed(c.rng); g.setSeed(seed);
    int what = c.rng.i(0, 3), n = c.rng.pick(std::vector<int>{2000, 10000, 60000}); Draw filler = randomDraw(c.rng); bool mix = c.rng.coin(0.4);
    if (mix && c.rng.coin(0.5)) for (int i=c.rng.i(1, 5);i--;) take(g, randomDraw(c.rng));
    auto maybe = [&]() { if (mix && c.rng.coin(0.3)) { if (c.rng.coin()) filler = randomDraw(c.rng); take(g, filler); } };
    std::vector<double> v; v.reserve(n); Moments m;
    if (what == 0)
    {
        c.tag("uniform, %d draws, seed %u%s", n, seed, mix ? ", mixed" : "");
        std::vector<long> bin(64, 0); std::set<double> seen;
        for (int i=0;i<n;i++)
        {
            maybe(); double u = g(); if (!(u >= 0 && u < 1)) return c.fail("range", "uniform number %.17g", u);
            v.push_back(u); m.add((u - 0.5)*sqrt(12.0)); bin[(int)(u*64)]++;
        }
        judge(c, "uniform", m, 0.8); if (c.failed()) return;
        double k = ks(v, [](double x) { return x; }); c.maxOf("distribution distance (uniform)", k);
        if (!(k < 5.5)) return c.fail("shape", "uniform numbers deviate from uniform (%.4g/sqrt n)", k);
        double chi = 0; for (long b : bin) chi += (b - n/64.0)*(b - n/64.0)/(n/64.0); c.maxOf("chi square, 64 bins", chi);
        if (!(chi < 63 + 9*sqrt(126.0) + 30)) return c.fail("shape", "chi square %.4g over 64 bins", chi);
        // Resolution: more than 2^26 distinct values means collisions are rare.
        std::vector<double> w = v; std::sort(w.begin(), w.end()); long dup = 0; for (size_t i=1;i<w.size();i++) dup += w[i] == w[i-1];
        double ex = (double)n*n/2/4294967296.0; if (dup > ex + 8*sqrt(ex) + 8) return c.fail("resolution", "%ld repeated values in %d draws", dup, n);
    }
    else if (what == 1)
    {
        int lo, hi; int kind = c.rng.i(0, 4);
        if (kind == 0) { lo = c.rng.i(INT_MIN, INT_MAX); hi = lo; } else if (kind == 1) { lo = INT_MIN; hi = INT_MAX; } else if (kind == 2) { lo = c.rng.i(INT_MIN, -2); hi = c.rng.i(2, INT_MAX); if (c.rng.coin()) lo = INT_MIN; else if (c.rng.coin()) hi = INT_MAX; }
        else { lo = c.rng.i(-30, 30); hi = lo + c.rng.i(1, 30); }
        c.tag("integers %d to %d, %d draws, seed %u%s", lo, hi, n, seed, mix ? ", mixed" : "");
        double K = (double)hi - lo + 1; std::map<int, long> cnt; double mu = ((double)lo + hi)/2, sg = sqrt((K*K - 1)/12);
        for (int i=0;i<n;i++)
        {
            maybe(); int k = g.integer(lo, hi); if (k < lo || k > hi) return c.fail("range", "integer %d from %d to %d", k, lo, hi);
            v.push_back(k); if (K > 1) m.add((k - mu)/sg); if (K <= 64) cnt[k]++;
        }
        if (K > 1)
        {
            double v4 = (K*K - 1)/12; double m4 = (3*K*K - 7)/(5*12.0*v4)*v4/v4*(K*K - 1)/(12*v4)*v4; (void)m4;
            // fourth moment of the discrete uniform: (K^2-1)(3K^2-7)/240
            double q4 = (K*K - 1)*(3*K*K - 7)/240/(v4*v4) - 1; if (q4 < 1e-9) q4 = 1e-9;   // two values: z^2 is always one
            judge(c, "integer", m, q4 < 1e-6 ? 1 : q4); if (c.failed()) return;
        }
        if (K <= 64)
        {
            double e = n/K, chi = 0; for (int k=lo;;k++) { double b = cnt.count(k) ? cnt[k] : 0; if (b == 0) return c.fail("cover", "%d never drawn from %d to %d in %d draws", k, lo, hi, n); chi += (b - e)*(b - e)/e; if (k == hi) break; }
            c.maxOf("chi square over degrees of freedom (integer)", K > 1 ? chi/(K - 1) : 0);
            if (!(chi < (K - 1) + 9*sqrt(2*(K - 1)) + 40)) return c.fail("shape", "chi square %.4g over %g values", chi, K);
        }
        else
        {
            double k = ks(v, [&](double x) { return (x - lo + 1)/K; }); c.maxOf("distribution distance (integer)", k);
            if (!(k < 5.5 + 2*sqrt(n)/K)) return c.fail("shape", "integers from %d to %d deviate from uniform (%.4g/sqrt n)", lo, hi, k);
            if (K > 1e9) { long odd = 0; for (double x : v) odd += ((long long)x & 1) != 0; double e = (odd - n/2.0)/sqrt(n/4.0); if (!(std::fabs(e) < Q)) return c.fail("shape", "%ld odd numbers of %d", odd, n); }
        }
    }
    else
    {
        double mean = 0, sd = 1; if (what == 3) { mean = c.rng.coin(0.2) ? 0 : c.rng.u(-100, 100); sd = c.rng.coin(0.3) ? pow(10, c.rng.u(-5, 5)) : c.rng.u(0.05, 5); }
        c.tag("normal mean %.6g deviation %.6g, %d draws, seed %u%s", mean, sd, n, seed, mix ? ", mixed" : "");
        double big = 0; long over2 = 0;
        for (int i=0;i<n;i++)
        {
            maybe(); double z = what == 2 ? g.normal() : g.normal(mean, sd); if (!std::isfinite(z)) return c.fail("range", "normal number %g", z);
            z = (z - mean)/sd; v.push_back(z); m.add(z); big = std::max(big, std::fabs(z)); over2 += std::fabs(z) > 2;
        }
        judge(c, "normal", m, 2); if (c.failed()) return;
        double k = ks(v, [](double x) { return 0.5*erfc(-x/1.4142135623730951); }); c.maxOf("distribution distance (normal)", k);
        if (!(k < 5.5)) return c.fail("shape", "normal numbers deviate from Gaussian (%.4g/sqrt n)", k);
        double e3 = m.s[3]/n*sqrt(n/15.0), e4 = (m.s[4]/n - 3)*sqrt(n/96.0), t = 0.04550026, eo = (over2 - n*t)/sqrt(n*t*(1 - t));
        c.maxOf("skewness, in standard errors", std::fabs(e3)); c.maxOf("fourth moment, in standard errors", std::fabs(e4)); c.maxOf("largest draw", big);
        if (!(std::fabs(e3) < Q + 2) || !(std::fabs(e4) < 3*Q) || !(std::fabs(eo) < Q + 1)) return c.fail("shape", "skewness %.4g, fourth moment %.4g, %.4g beyond two deviations", m.s[3]/n, m.s[4]/n, over2/(double)n);
        if (n >= 60000 && !(big > 3.2)) return c.fail("tails", "largest of %d normal numbers is %.4g deviations", n, big);
        if (!(big < 9)) return c.fail("tails", "a draw of %.4g deviations", big);
    }
    c.count(what == 0 ? "uniform draws" : what == 1 ? "integer draws" : what == 2 ? "standard normal draws" : "normal draws", n);
    c.nontrivial(hashV(v));
}
