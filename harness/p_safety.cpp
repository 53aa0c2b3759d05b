// X01 memory safety of random programs, X02 reproducibility, E01 refusal of invalid configurations.
#include "program.h"
#include <dirent.h>
#include <malloc.h>
#include <pthread.h>
#include <unistd.h>
using namespace vh;
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define VH_ASAN 1
#else
#define VH_ASAN 0
#endif

namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }

namespace
{
    int openFiles() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
    struct Job { std::function<void()> f; };
    void* entry(void* p) { ((Job*)p)->f(); return nullptr; }
    // Runs f on a stack of the given size; overrunning it hits the guard page.
    bool onStack(size_t bytes, std::function<void()> f)
    {
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, bytes); Job j{f}; pthread_t t;
        if (pthread_create(&t, &a, entry, &j)) return false;
        pthread_join(t, nullptr); pthread_attr_destroy(&a); return true;
    }
}

VH_CHECK(X01, 3000, 120000, "random programs over the whole interface, some on degenerate grids, some on large grids with a small stack; a third run twice for leaks; non-trivial: a program that completed at least five operations")
{
    Rng& r = c.rng; uint64_t seed = r.next(); int n = r.i(3, c.thorough ? 30 : 16); bool large = c.caseNo % 401 == 7;
    int kinds = 0; Digest d = 1;
    auto go = [&](int flags, int ops) { Program p(c, seed, flags | Program::LIGHT); p.run(ops); kinds = p.kinds.size(); d = p.steps.back(); };
    if (large)
    {
        if (!onStack(512*1024, [&]() { go(Program::LARGE, 3); })) { c.inconclusive("no thread"); return; }
        c.count("large grids on a small stack"); c.nontrivial(d); return;
    }
    go(0, n);
    if (c.failed()) return;
    if (kinds >= 5) c.nontrivial(d);
#if VH_ASAN
    if (c.caseNo % 3 == 0)
    {
        // Once more: everything the first run set up for good is there now.
        int f0 = openFiles(); size_t m0 = __sanitizer_get_current_allocated_bytes();
        go(Program::NO_RECORD, n);
        size_t m1 = __sanitizer_get_current_allocated_bytes(); int f1 = openFiles();
        if (m1 > m0) return c.fail("leak", "%zu bytes more after running the same program again", m1 - m0);
        if (f1 > f0) return c.fail("open-files", "%d files left open", f1 - f0);
        c.count("programs repeated for leaks");
    }
#endif
}

#ifndef __clang__
namespace
{
    // Fills the unused part of the stack with a pattern.
    __attribute__((noinline)) void paint(unsigned char k) { volatile unsigned char a[48*1024]; for (size_t i=0;i<sizeof a;i++) a[i] = k + i*37*(k & 1); }
    // Leaves freed blocks of all sizes with a pattern in them.
    struct Dirt
    {
        std::vector<void*> held; Rng r; int mode; explicit Dirt(uint64_t s, int m) : r(s), mode(m) {}
        void stir()
        {
            for (int i=0;i<12;i++) { size_t n = r.coin(0.3) ? r.i(1000, 200000) : r.i(8, 2000); void* p = malloc(n); if (!p) continue; if (mode == 1) memset(p, 0xff, n); else if (mode == 2) { double v = -7.25e11; for (size_t k=0;k+8<=n;k+=8) memcpy((char*)p + k, &v, 8); } else if (mode == 3) for (size_t k=0;k<n;k++) ((char*)p)[k] = r.next(); else memset(p, 1, n); if (held.size() < 40 && r.coin(0.3)) held.push_back(p); else free(p); }
            if (held.size() >= 40) { for (size_t i=0;i<held.size();i+=2) { free(held[i]); held[i] = nullptr; } std::vector<void*> k; for (void* p : held) if (p) k.push_back(p); held.swap(k); }
            static const unsigned char pat[] = {0x00, 0xff, 0x7f, 0xa5}; paint(pat[mode & 3]);
        }
        ~Dirt() { for (void* p : held) free(p); }
    };
}
#endif

VH_CHECK(X02, 1200, 40000, "random programs run several times over dirtied memory, different allocator fill, other work in between, each step compared bit by bit; every measuring step also repeated at once; in the second build every branch and output watched for uninitialised values; non-trivial: a program of at least five operations")
{
    Rng& r = c.rng; uint64_t seed = r.next(); int n = r.i(3, c.thorough ? 30 : 16);
#ifdef __clang__
    // Memory sanitizer build: dependence on uninitialised memory is reported by the instrumentation.
    { Program p(c, seed, Program::NO_IO); p.run(n); if (p.kinds.size() >= 5) c.nontrivial(hashU(seed, 3)); volatile Digest d = p.steps.back(); if (d == 12345) c.count("never"); c.count("programs watched for uninitialised values"); }
#else
    std::vector<Digest> want; std::vector<std::string> names; std::string hist; std::string files;
    auto snapshot = [&]() { std::string s; DIR* d = opendir(scratchDir().c_str()); std::vector<std::string> f; while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && std::string(e->d_name) != "child.err") f.push_back(e->d_name); closedir(d); std::sort(f.begin(), f.end());
        Digest h = 1; for (auto& q : f) { std::string p = scratchDir() + "/" + q; FILE* F = fopen(p.c_str(), "rb"); if (!F) continue; char b[4096]; size_t k; h = hashBytes(q.data(), q.size(), h); while ((k = fread(b, 1, sizeof b, F)) > 0) h = hashBytes(b, k, h); fclose(F); unlink(p.c_str()); } char b[40]; snprintf(b, sizeof b, "%016llx of %zu files", (unsigned long long)h, f.size()); return std::string(b); };
    { Program p(c, seed, 0); p.run(n); want = p.steps; names = p.names; hist = p.history; files = snapshot(); if (c.failed()) return; }
    if (want.size() >= 5) c.nontrivial(want.back());
    { Digest e = 1; for (Digest q : want) e = hashU(q, e); c.emit(e); }
    if (getenv("VH_LIGHT")) return;
    // "repeat" runs each measuring step twice at once.
    for (int k=0;k<5 && !c.failed();k++)
    {
        int pert = r.i(1, 255); mallopt(M_PERTURB, k == 0 ? 0 : pert); Dirt dirt(r.next(), k); uint64_t other = r.next();
        Program p(c, seed, Program::NO_RECORD); p.twice = k == 4;
        long at = 0;
        p.between = [&]() { dirt.stir(); if (k == 3 && at++ % 4 == 1) { auto keep = nlopt::hook(); Program o(c, other + at, Program::NO_RECORD | Program::NO_IO); o.run(3); nlopt::hook() = keep; } static const unsigned char pat[] = {0xff, 0x00, 0x7f, 0xa5, 0x3c}; paint(pat[k]); };
        p.run(n); mallopt(M_PERTURB, 0);
        if (c.failed()) return;
        size_t m = std::min(want.size(), p.steps.size());
        for (size_t i=0;i<m;i++) if (want[i] != p.steps[i]) return c.fail("diverged", "run %d over dirtied memory differs from the first after step %zu (%s)", k, i, names[i].c_str());
        if (want.size() != p.steps.size()) return c.fail("diverged", "run %d took %zu steps instead of %zu", k, p.steps.size(), want.size());
        std::string fs = snapshot(); if (fs != files) return c.fail("files", "run %d wrote different files (%s, first %s)", k, fs.c_str(), files.c_str());
        c.count("steps compared", m); c.count("repeated programs");
    }
#endif
}

namespace
{
    enum { BADBAND = 1, BADLIMIT = 2 };
    struct Outcome { int rc; std::string err; };
    Outcome attempt(const std::function<void()>& f) { Outcome o; o.rc = runChild(f, o.err, 60); return o; }
}

VH_CHECK(E01, 3000, 20000, "valid and invalid requests of every kind made in a child process, values around each limit; non-trivial: a request whose outcome was judged")
{
    using namespace slsm; Rng& r = c.rng; std::string t, what; bool valid = true; std::function<void()> f; bool ctor = false;
    int kind = c.caseNo % 14; int w = r.i(3, 20), h = r.i(3, 20);
    if (kind < 7)
    {
        // constructors: band width, move limit and, for the default arrangement, size
        unsigned bw; double ml; long turn = c.caseNo/14; int v = turn % 6; ctor = true;      // each constructor meets each limit in turn
        bw = v == 0 ? 2 - (turn/6) % 3 : r.coin(0.2) ? 3 : r.i(3, 1000);
        static const double bad[] = {0, 1, -0.0, -1e-300, -0.5, 1.0000000000000002, 7, -INFINITY, INFINITY, NAN};
        if (v == 1) ml = bad[(turn/6) % 10]; else ml = r.pick(std::vector<double>{1e-300, 0.01, 0.5, 0.9999999999999999, r.u(0.001, 0.999)});
        if (v == 0 || v == 1) valid = false;
        int route = kind; if (route == 0) { w = r.coin() ? r.i(2, 74) : r.i(75, 120); h = r.coin() ? r.i(2, 74) : r.i(75, 120); if (v < 2) { w = r.i(75, 100); h = r.i(75, 100); } if (w < 75 || h < 75) valid = false; }
        bool fixed = r.coin(); Hole o(0.5*w, 0.5*h, 0.3*std::min(w, h)); std::vector<Hole> H(1, o); Poly P = randomPoly(r, w, h, t), Q = randomPoly(r, w, h, t);
        // an outline that encloses no grid point and touches the edge nowhere is still a valid shape
        char b[200]; snprintf(b, sizeof b, "constructor %d of %dx%d, band %u, limit %.17g", route, w, h, bw, ml); what = b;
        f = [=]()
        {
            switch (route)
            {
                case 0: { LevelSet l(w, h, ml, bw, fixed); break; }
                case 1: { LevelSet l(w, h, H, ml, bw, fixed); break; }
                case 2: { LevelSet l(w, h, P, ml, bw, fixed); break; }
                case 3: { LevelSet l(w, h, H, H, ml, bw, fixed); break; }
                case 4: { LevelSet l(w, h, H, P, ml, bw, fixed); break; }
                case 5: { LevelSet l(w, h, P, Q, ml, bw, fixed); break; }
                default: { LevelSet l(w, h, std::vector<Hole>(), ml, bw, fixed); }
            }
        };
    }
    else if (kind == 7)
    {
        w = r.i(1, 6); h = r.i(1, 6); valid = w > 3 && h > 3; what = "gradients on " + std::to_string(w) + "x" + std::to_string(h);
        f = [=]() { LevelSet l(w, h, std::vector<Hole>(), 0.5, 6, false); for (unsigned i=0;i<l.mesh.nNodes;i++) { l.signedDistance[i] = i % (w+1) - 0.4*w; l.velocity[i] = 1; } l.computeGradients(); };
    }
    else if (kind == 8)
    {
        // fast marching needs an interface
        int k = r.i(0, 3); double v = r.coin() ? 1 : -1; valid = k >= 2; what = "marching a field " + std::string(k < 2 ? "without" : k == 2 ? "with a zero" : "with a sign change"); bool direct = r.coin();
        f = [=]() { LevelSet l(w, h, std::vector<Hole>(), 0.5, 6, false); Rng q(w*31 + h); for (double& s : l.signedDistance) s = v*q.u(0.1, 3); if (k == 2) l.signedDistance[w/2 + (h/2)*(w+1)] = 0; if (k == 3) l.signedDistance[w/2 + (h/2)*(w+1)] *= -1;
            if (direct) { FastMarchingMethod m(l.mesh, false); m.march(l.signedDistance); } else l.reinitialise(); };
    }
    else if (kind == 9)
    {
        int k = r.i(0, 5), n = r.i(1, 12), pre = r.i(0, n); what = "queue of " + std::to_string(n) + ", operation " + std::to_string(k); valid = k >= 3; bool test = r.coin(0.3);
        f = [=]() { Heap q(n, test); unsigned a; double d; for (int i=0;i<pre;i++) q.push(i, i % 3); 
            if (k == 0) { for (int i=pre;i<=n;i++) q.push(i, i); }
            else if (k == 1) { for (int i=0;i<=pre;i++) q.pop(a, d); }
            else if (k == 2) { for (int i=0;i<pre;i++) q.pop(a, d); q.peek(); }
            else if (k == 3) { for (int i=pre;i<n;i++) q.push(i, i); }
            else if (k == 4) { for (int i=0;i<pre;i++) q.pop(a, d); }
            else if (pre) q.peek(); };
    }
    else if (kind <= 12)
    {
        // optimiser requests
        int v = (c.caseNo/14) % 7, nC = r.i(0, 4), nP = r.i(1, 12); double ml = r.pick(std::vector<double>{1e-6, 0.5, 0.9999999999999999, r.u(0.01, 0.99)}); int nD = nC; bool noPoints = false, badArgs = false;
        if (v == 0) { static const double bad[] = {0, 1, -0.1, 2.5, NAN, INFINITY}; ml = bad[(c.caseNo/98) % 6]; valid = false; }
        else if (v == 1) { noPoints = true; valid = false; }
        else if (v == 2) { nC = r.i(1, 4); nD = 0; valid = false; }
        else if (v == 3) { nC = r.i(1, 4); nD = nC + (r.coin() ? 1 : -1); valid = false; }
        else if (v == 4) { badArgs = true; valid = false; }
        what = std::string(badArgs ? "arguments the solver refuses, " : "") + "optimiser with " + std::to_string(noPoints ? 0 : nP) + " points, " + std::to_string(nC) + " constraint sensitivities, " + std::to_string(nD) + " distances, limit " + std::to_string(ml);
        uint64_t seed = r.next();
        f = [=]()
        {
            Rng q(seed); std::vector<BoundaryPoint> p(noPoints ? 0 : nP); for (auto& k : p) { k.length = 1; k.negativeLimit = -0.5; k.positiveLimit = 0.5; k.isDomain = k.isFixed = false; for (int j=0;j<=nC;j++) k.sensitivities.push_back(q.u(0.2, 1)); }
            std::vector<double> lam(nC + 1, 0.1), dist(nD); for (double& d : dist) d = q.u(-1, 1); double ts = 0;
            nlopt::hook() = [=](nlopt::Problem& p, std::vector<double>& x, double& v) { if (badArgs) throw std::invalid_argument("nlopt invalid argument"); for (unsigned j=0;j<p.n;j++) x[j] = 0.5*p.ub[j]; v = 0; return nlopt::SUCCESS; };
            Optimise o(p, dist, lam, ts, ml, q.coin()); o.solve();
        };
    }
    else
    {
        valid = r.coin(); bool tgt = r.coin(); if (!tgt && !valid) tgt = true; bool holes = valid; what = valid ? "discretising an existing field" : "discretising a target that doesn't exist";
        f = [=]() { std::vector<Hole> H(1, Hole(0.5*w, 0.5*h, 0.3*std::min(w, h))); std::unique_ptr<LevelSet> l(holes ? new LevelSet(w, h, H, H, 0.5, 6, false) : new LevelSet(w, h, H, 0.5, 6, false)); Boundary b; b.discretise(*l, tgt); };
    }
    c.tag("%s (%s)", what.c_str(), valid ? "valid" : "invalid");
    Outcome o = attempt(f);
    if (o.rc == -1000) { c.fail("hang", "no answer within a minute"); return; }
    if (valid)
    {
        if (o.rc != 0) return c.fail("refused-valid", "a valid request ended with %d: %.300s", o.rc, o.err.c_str());
        c.count("valid requests accepted");
    }
    else
    {
        if (o.rc == 0) return c.fail("accepted-invalid", "an invalid request was carried out");
        if (o.rc != EXIT_FAILURE) return c.fail("crashed", "an invalid request ended with %d: %.300s", o.rc, o.err.c_str());
        if (o.err.empty()) return c.fail("silent", "refused without a message");
        c.count("invalid requests refused");
    }
    c.nontrivial(hashBytes(what.data(), what.size()));
}
