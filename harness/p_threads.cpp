// T01: objects that aren't shared don't influence each other, and reading a shared one is safe, in several threads at once.
#include "program.h"
#include <atomic>
#include <sched.h>
#include <sys/stat.h>
#include <thread>
#include <time.h>
#include <unistd.h>
using namespace vh;

// Each thread plays its own solver.
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static thread_local std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }

namespace
{
    struct Gate
    {
        std::atomic<int> n; int all; explicit Gate(int k) : n(0), all(k) {}
        void pass() { n.fetch_add(1, std::memory_order_relaxed); while (n.load(std::memory_order_relaxed) < all) sched_yield(); }
    };
    // Gives way at random, so that the threads meet in many orders. Nothing here orders the threads' memory accesses.
    void giveWay(Rng& q) { int k = q.i(0, 9); if (k < 3) sched_yield(); else if (k == 3) { struct timespec t = {0, q.i(1000, 120000)}; nanosleep(&t, nullptr); } }
    std::string dirFor(int k) { std::string d = scratchDir() + "/t" + std::to_string(k); mkdir(d.c_str(), 0700); return d; }
    Digest fileDigest(const std::string& p) { FILE* F = fopen(p.c_str(), "rb"); if (!F) return 3; char b[4096]; size_t k; Digest h = 1; while ((k = fread(b, 1, sizeof b, F)) > 0) h = hashBytes(b, k, h); fclose(F); unlink(p.c_str()); return h; }

    // The most threads that were inside the library at one moment.
    std::atomic<int> inside(0), peak(0);
    struct In
    {
        In() { int k = inside.fetch_add(1, std::memory_order_relaxed) + 1, m = peak.load(std::memory_order_relaxed); while (k > m && !peak.compare_exchange_weak(m, k, std::memory_order_relaxed)) {} }
        ~In() { inside.fetch_sub(1, std::memory_order_relaxed); }
    };

    struct Shared
    {
        std::unique_ptr<slsm::LevelSet> ls; slsm::Boundary b; slsm::Sensitivity sens; slsm::InputOutput io; std::vector<slsm::Hole> holes; std::vector<slsm::Coord> outline; slsm::MersenneTwister g;
        bool usable, extend; double kx, ky; Shared() : usable(false), extend(false), kx(0), ky(0) {}
    };
    enum { READS = 14 };
    const char* readName(int k) { static const char* n[] = {"locating points", "normals", "limits of an own boundary", "sensitivities", "Ito correction", "saving a field", "saving a boundary", "saving areas", "marching", "copying", "velocity extension of a copy", "areas of a copy", "construction", "generator copies"}; return n[k]; }
    // One piece of work that changes only objects of its own and reads the shared ones.
    Digest work(const Shared& s, int kind, uint64_t seed, const std::string& dir)
    {
        Rng q(seed); Digest d = kind; const slsm::Mesh& m = s.ls->mesh; const slsm::LevelSet& ls = *s.ls;
        switch (kind)
        {
            case 0: for (int i=0;i<40;i++) { slsm::Coord p(q.coin(0.3) ? q.i(0, m.width) : q.u(0, m.width), q.coin(0.3) ? q.i(0, m.height) : q.u(0, m.height)); d = hashU(m.getElement(p), hashU(m.getClosestNode(p), d)); d = hashU(m.getElement(p.x, p.y), hashU(m.getClosestNode(p.x, p.y), d)); } break;
            case 1: { slsm::Boundary b(s.b); if (s.usable) b.computeNormalVectors(ls); d = hashU(digest(b), d); break; }
            case 2: { slsm::LevelSet l(ls); slsm::Boundary b; b.discretise(l); if (b.nPoints) for (auto& p : b.points) d = hashBits(b.computePerimeter(p), d); d = hashU(digest(b), d); break; }
            case 3: { double kx = s.kx, ky = s.ky; slsm::SensitivityCallback f = [kx, ky](const slsm::BoundaryPoint& p) { return p.length*sin(kx*p.coord.x + ky*p.coord.y); }; for (size_t i=0;i<s.b.points.size() && i<60;i++) { slsm::BoundaryPoint p(s.b.points[i]); if (p.length > 1e-9) d = hashBits(s.sens.computeSensitivity(p, f), d); d = hashBits(p.coord.x, d); } break; }
            case 4: { slsm::Boundary b(s.b); bool ok = s.usable; for (auto& p : b.points) { ok &= p.length > 1e-9; p.sensitivities.assign(1, 1.0); } if (ok) { if (q.coin()) s.sens.itoCorrection(b, ls, 0.1); else s.sens.itoCorrection(b, 0.1); } d = hashU(digest(b), d); break; }
            case 5: { int k = q.i(0, 5); unsigned n = q.i(0, 99); std::string f = dir + "/f"; bool x = q.coin(), y = q.coin(); char name[80];
                if (k == 0) s.io.saveLevelSetVTK(f, ls, x, y); else if (k == 1) s.io.saveLevelSetTXT(f, ls, x); else if (k == 2) s.io.saveLevelSetBIN(f, ls);
                else if (k == 3) { s.io.saveLevelSetVTK(n, ls, x, y, dir); snprintf(name, sizeof name, "/level-set_%04u.vtk", n); f = dir + name; } else if (k == 4) { s.io.saveLevelSetTXT(n, ls, dir, x); snprintf(name, sizeof name, "/level-set_%04u.txt", n); f = dir + name; } else { s.io.saveLevelSetBIN(n, ls, dir); snprintf(name, sizeof name, "/level-set_%04u.bin", n); f = dir + name; }
                if (k == 2) { slsm::LevelSet l(ls); for (double& v : l.signedDistance) v = 0.25; s.io.loadLevelSetBIN(f, l); d = hashBitsV(l.signedDistance, d); } else if (k == 1) { slsm::LevelSet l(ls); s.io.loadLevelSetTXT(f, l, x); d = hashBitsV(l.signedDistance, d); }
                d = hashU(fileDigest(f), d); break; }
            case 6: { std::string f = dir + "/f"; if (q.coin()) s.io.saveBoundaryPointsTXT(f, s.b); else s.io.saveBoundarySegmentsTXT(f, s.b); d = hashU(fileDigest(f), d); break; }
            case 7: { std::string f = dir + "/f"; if (q.coin()) s.io.saveAreaFractionsVTK(f, m); else s.io.saveAreaFractionsTXT(f, m, q.coin()); d = hashU(fileDigest(f), d); break; }
            case 8: { slsm::FastMarchingMethod f(m, q.coin(0.3)); std::vector<double> v = ls.signedDistance; f.march(v); d = hashBitsV(v, d); break; }
            case 9: { slsm::LevelSet l(ls); slsm::Boundary b; b = s.b; d = hashU(digest(l, true), hashU(digest(b), d)); l.reinitialise(); d = hashU(digest(l, true), d); break; }
            case 10: { if (!s.extend) break; slsm::LevelSet l(ls); l.computeVelocities(s.b.points); if (m.width > 3 && m.height > 3) { l.computeGradients(); l.update(0); } d = hashU(digest(l, true), d); break; }
            case 11: { if (!s.usable) break; slsm::LevelSet l(ls); slsm::Boundary b; b.discretise(l); d = hashBits(l.computeAreaFractions(b), d); break; }
            case 12: { if (q.coin()) { slsm::LevelSet l(m.width, m.height, s.holes, 0.5, 6, q.coin()); d = hashU(digest(l, true), d); } else if (q.coin()) { slsm::LevelSet l(m.width, m.height, s.outline, 0.5, 6, q.coin()); d = hashU(digest(l, true), d); } else { slsm::LevelSet l(m.width, m.height, s.holes, s.outline, 0.5, 6, q.coin()); d = hashU(digest(l, true), d); } break; }
            default: { slsm::MersenneTwister g(s.g); for (int i=0;i<40;i++) { d = hashBits(g(), d); d = hashBits(g.normal(), d); d = hashBits(g.normal(1, 2), d); d = hashU(g.integer(-9, 9), d); } slsm::MersenneTwister o; d = hashU(o.getSeed() != 0 || true, d); }
        }
        return d;
    }
}

VH_CHECK(T01, 400, 8000, "random programs on objects of their own in two to four threads at once, and threads reading one structure, each compared step by step with the same work done alone; non-trivial: threads that were inside the library together")
{
    Rng& r = c.rng; int T = r.i(2, 4); std::vector<std::string> dirs; for (int k=0;k<T;k++) dirs.push_back(dirFor(k));
    peak.store(0); Digest all = 1;
    if (c.caseNo % 2 == 0)
    {
        // Objects of their own. Sometimes all threads run the same program.
        int n = r.i(3, c.thorough ? 24 : 14); bool same = r.coin(0.3); std::vector<uint64_t> seeds, noise; uint64_t first = r.next();
        for (int k=0;k<T;k++) { seeds.push_back(same ? first : r.next()); noise.push_back(r.next()); }
        std::vector<std::vector<Digest>> want(T), got(T); std::vector<std::string> hist(T); std::vector<std::vector<std::string>> names(T);
        for (int k=0;k<T;k++)
        {
            Program p(c, seeds[k], Program::NO_RECORD); p.dir = dirs[k]; p.run(n); want[k] = p.steps; hist[k] = p.history; names[k] = p.names;
            if (c.failed()) { c.tag("alone: %s", p.history.c_str()); return; }
        }
        std::string t; for (int k=0;k<T;k++) t += (k ? " || " : "") + hist[k].substr(0, 1300/T); c.tag("%s", t.c_str());
        {
            Gate gate(T); std::vector<std::thread> th; std::vector<Ctx> cs(T, c);
            for (int k=0;k<T;k++) th.emplace_back([&, k]()
            {
                Rng q(noise[k]); gate.pass(); Program p(cs[k], seeds[k], Program::NO_RECORD); p.dir = dirs[k]; p.between = [&]() { giveWay(q); };
                { In in; p.run(n); } got[k] = p.steps;
            });
            for (auto& x : th) x.join();
            for (auto& x : cs) c.nFail += x.nFail;
        }
        for (int k=0;k<T && !c.failed();k++)
        {
            size_t m = std::min(want[k].size(), got[k].size());
            for (size_t i=0;i<m;i++) if (want[k][i] != got[k][i]) return c.fail("diverged", "the program in thread %d of %d differs from the same program alone after step %zu (%s)", k, T, i, names[k][i].c_str());
            if (want[k].size() != got[k].size()) return c.fail("diverged", "the program in thread %d took %zu steps instead of %zu", k, got[k].size(), want[k].size());
            c.count("steps compared", m); all = hashU(want[k].empty() ? 0 : want[k].back(), all);
        }
        c.count("programs run at the same time", T);
    }
    else
    {
        // One structure, read by all.
        Shared s; Scene sc; for (int tries=0;tries<20;tries++) if (makeScene(r, sc, S_NOTARGET)) break; if (!hasInterface(sc.field())) return;
        s.ls = std::move(sc.ls); if (r.coin(0.6)) s.ls->reinitialise(); s.b.discretise(*s.ls); s.usable = s.b.nPoints > 0; if (s.usable) s.ls->computeAreaFractions(s.b);
        s.extend = s.usable; s.kx = r.u(-0.5, 0.5); s.ky = r.u(-0.5, 0.5); for (auto& p : s.b.points) p.velocity = r.u(-1, 1); s.g.setSeed(r.i(1, 1000000)); if (r.coin()) s.g();
        int w = sc.w, h = sc.h; for (int i=r.i(0, 6);i>0;i--) s.holes.push_back(slsm::Hole(r.u(0, w), r.u(0, h), r.u(0.3, 0.3*std::min(w, h) + 0.5)));
        { std::string t; s.outline = randomPoly(r, w, h, t); }
        bool room = false; for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) { bool o = true; for (auto& k : s.holes) o &= hypot(k.coord.x - x, k.coord.y - y) > k.r; room |= o; } if (!room) s.holes.clear();
        c.tag("shared %dx%d %s, %u boundary points, %d threads", w, h, sc.text.c_str(), s.b.nPoints, T);
        int per = r.i(3, 7); bool same = r.coin(0.3); int kind0 = (c.caseNo/2) % READS; std::vector<std::vector<std::pair<int, uint64_t>>> jobs(T);
        for (int k=0;k<T;k++) for (int i=0;i<per;i++) { if (same && k) jobs[k].push_back(jobs[0][i]); else { int kind = i == 0 ? kind0 : r.i(0, READS - 1); if (w < 2 || h < 2) if (kind == 12) kind = 9; jobs[k].push_back(std::make_pair(kind, r.next())); } }
        std::vector<std::vector<Digest>> want(T), got(T); std::vector<uint64_t> noise; for (int k=0;k<T;k++) noise.push_back(r.next());
        Digest before = hashU(digest(*s.ls, true), digest(s.b));
        for (int k=0;k<T;k++) for (auto& j : jobs[k]) want[k].push_back(work(s, j.first, j.second, dirs[k]));
        if (hashU(digest(*s.ls, true), digest(s.b)) != before) return c.fail("changed", "reading changed the structure that was read");
        {
            Gate gate(T); std::vector<std::thread> th;
            for (int k=0;k<T;k++) th.emplace_back([&, k]() { Rng q(noise[k]); gate.pass(); In in; for (auto& j : jobs[k]) { giveWay(q); got[k].push_back(work(s, j.first, j.second, dirs[k])); } });
            for (auto& x : th) x.join();
        }
        for (int k=0;k<T;k++) for (size_t i=0;i<jobs[k].size();i++)
        {
            if (want[k][i] != got[k][i]) return c.fail("diverged", "%s in thread %d of %d differs from the same work alone", readName(jobs[k][i].first), k, T);
            c.count(readName(jobs[k][i].first)); all = hashU(want[k][i], all);
        }
        if (hashU(digest(*s.ls, true), digest(s.b)) != before) return c.fail("changed", "reading in several threads changed the structure that was read");
        c.count("structures shared");
    }
    c.maxOf("threads inside the library together", peak.load()); if (peak.load() >= 2) c.nontrivial(all);
}
