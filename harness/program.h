// Random programs over the public interface: one interpreter shared by the memory-safety and reproducibility checks.
// A program is a function of its seed and of the library's answers only.
#ifndef VH_PROGRAM_H
#define VH_PROGRAM_H
#include "scene.h"
#include "digest.h"
#ifdef VH_SHIM
#include <nlopt.hpp>
#include "Optimise.h"
#endif

namespace vh
{
    struct Program
    {
        enum { NO_IO = 1, LARGE = 2, NO_RECORD = 4, LIGHT = 8 };
        Ctx& c; Rng r; int flags; std::string dir;
        std::string history; std::vector<Digest> steps; std::vector<std::string> names;
        std::function<void()> between;                  // called before every operation
        std::unique_ptr<slsm::LevelSet> ls; slsm::Boundary b, bt; slsm::MersenneTwister g;
        bool synced, targetLast, haveVel, haveTarget; int w, h, bw; bool fixed; double ml; bool bad;
        std::vector<double> lambdas; long nOps; bool twice;
        std::vector<const char*> kinds;

        Program(Ctx& c_, uint64_t seed, int flags_) : c(c_), r(seed), flags(flags_), synced(false), targetLast(false), haveVel(false), haveTarget(false), bad(false), nOps(0), twice(false)
        { unsigned s = (unsigned)r.next(); g.setSeed(s); if (!(flags & NO_IO)) dir = scratchDir(); }

        void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
        {
            char buf[400]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
            if (history.size() < 1400) { if (!history.empty()) history += "; "; history += buf; }
            nOps++; if (between) between();
            if (!(flags & NO_RECORD)) c.tag("%s", history.c_str());
        }
        void did(const char* kind) { if (!(flags & NO_RECORD)) { c.count(kind); } kinds.push_back(kind); }
        void step(Digest d) { Digest q = hashU(d, 99); if (flags & LIGHT) { q = hashU(b.nPoints, q); if (ls) q = hashBitsV(ls->signedDistance, q); steps.push_back(q); names.push_back(kinds.empty() ? "start" : kinds.back()); return; } q = hashU(digest(b), q); if (ls) q = hashU(digest(*ls, true), q); steps.push_back(q); names.push_back(kinds.empty() ? "start" : kinds.back()); }
        bool live() const { if (!ls) return false; bool p = false, n = false, z = false; for (double v : ls->signedDistance) { p |= v > 0; n |= v < 0; z |= v == 0; } return z || (p && n); }
        void finite(const char* what, const std::vector<double>& v)
        { for (size_t i=0;i<v.size();i++) if (!std::isfinite(v[i])) { if (!bad) c.fail("not-finite", "%s: entry %zu is %g after '%s'", what, i, v[i], names.empty() ? "start" : kinds.back()); bad = true; return; } }
        void checkFinite()
        {
            if (bad || !ls) return;
            finite("level set", ls->signedDistance); finite("velocity", ls->velocity); finite("gradient", ls->gradient); finite("target", ls->target);
            if (!std::isfinite(ls->area)) { c.fail("not-finite", "area"); bad = true; }
            for (auto& e : ls->mesh.elements) if (!std::isfinite(e.area)) { if (!bad) c.fail("not-finite", "element area"); bad = true; }
            for (auto& p : b.points) if (!std::isfinite(p.coord.x + p.coord.y + p.normal.x + p.normal.y + p.length + p.negativeLimit + p.positiveLimit)) { if (!bad) c.fail("not-finite", "boundary point after '%s'", kinds.back()); bad = true; }
        }

        std::vector<slsm::Hole> holes(int most)
        {
            std::vector<slsm::Hole> v; int n = r.i(0, most);
            for (int i=0;i<n;i++) v.push_back(slsm::Hole(r.coin(0.4) ? r.i(0, w) : r.u(-1, w + 1), r.coin(0.4) ? r.i(0, h) : r.u(-1, h + 1), r.coin(0.15) ? r.i(0, 4) : r.u(0.05, 0.4*std::min(w, h) + 0.5)));
            return v;
        }
        // A structure needs an interface for its target or itself to be reinitialised.
        void create()
        {
            int route = r.i(0, 7); bool degenerate = r.coin(0.15);
            w = degenerate ? r.i(1, 3) : r.i(3, 26); h = r.coin(degenerate ? 0.5 : 0.1) ? r.i(1, 3) : r.i(3, 26);
            if (r.coin(0.03) && route == 0) { w = r.i(75, 100); h = r.i(75, 100); }
            if (flags & LARGE) { w = r.i(280, 320); h = r.i(280, 320); }
            bool big = w > 74 && h > 74;
            fixed = r.coin(0.3); bw = r.coin(0.1) ? r.pick(std::vector<int>{3, 60, 100000}) : r.i(3, 9); ml = r.coin(0.1) ? r.pick(std::vector<double>{0.01, 0.5, 0.99}) : r.u(0.05, 0.95);
            std::string t; using namespace slsm;
            if (route == 0 && !big) route = 1;
            if (std::min(w, h) < 2 && (route == 2 || route >= 4)) route = r.coin() ? 1 : 7;
            note("%dx%d band %d limit %.3g %s route %d", w, h, bw, ml, fixed ? "fixed" : "free", route);
            switch (route)
            {
                case 0: ls.reset(new LevelSet(w, h, ml, bw, fixed)); break;
                case 1: ls.reset(new LevelSet(w, h, holes(5), ml, bw, fixed)); break;
                case 2: ls.reset(new LevelSet(w, h, randomPoly(r, w, h, t), ml, bw, fixed)); break;
                case 3: case 4:
                {
                    // a target of holes away from the edge always has an interface
                    std::vector<Hole> a = holes(4), q(1, Hole(0.5*w, 0.5*h, 0.3*std::min(w, h) + 0.6)); std::vector<Hole> m = holes(3); q.insert(q.end(), m.begin(), m.end());
                    bool out = false; for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) { bool o = true; for (auto& k : q) o &= hypot(k.coord.x - x, k.coord.y - y) > k.r; out |= o; }
                    if (!out) q.clear();       // the edge of the domain is the interface
                    ls.reset(new LevelSet(w, h, a, q, ml, bw, fixed)); haveTarget = true; break;
                }
                case 5: { std::vector<Hole> a = holes(4); ls.reset(new LevelSet(w, h, a, randomPoly(r, w, h, t), ml, bw, fixed)); haveTarget = true; break; }
                case 6: { Poly p = randomPoly(r, w, h, t), q = randomPoly(r, w, h, t); ls.reset(new LevelSet(w, h, p, q, ml, bw, fixed)); haveTarget = true; break; }
                default: ls.reset(new LevelSet(w, h, std::vector<Hole>(), ml, bw, fixed)); field();
            }
            did("structures created"); step(1);
        }
        void field()
        {
            std::string t; Field f = randomField(r, w, h, t); double s = r.coin(0.1) ? pow(10, r.u(-12, 12)) : 1; int wall = r.i(0, 3);
            if (r.coin(0.25)) for (double& v : f.v) if (r.coin(0.15)) v = 0;
            for (double& v : f.v) v *= s;
            if (wall == 0) for (int x=0;x<=w;x++) for (int y=0;y<=h;y++) if (x == 0 || y == 0 || x == w || y == h) f.at(x, y) = std::min(f.at(x, y), 0.0);
            ls->signedDistance = f.v; synced = false;
        }
        void mask()
        {
            int k = r.i(0, 2); bool ok = false; note("mask %d", k);
            if (k == 0) ok = maskBox(r, *ls);
            else if (k == 1) ok = maskDisc(r, *ls);
            else
            {
                std::string t; Poly p = randomPoly(r, w, h, t); bool left = false;
                for (auto& n : ls->mesh.nodes) { size_t i = &n - &ls->mesh.nodes[0]; if (ls->signedDistance[i] >= 0 && outlineDist(p, n.coord.x, n.coord.y) > 1e-6 && !inside(p, n.coord.x, n.coord.y)) left = true; }
                if (left) { ls->mask(p); ok = true; }
            }
            if (ok) { did("masks"); synced = false; }
            step(2);
        }
        void reinit() { if (!live()) return; note("reinitialise"); ls->reinitialise(); synced = false; did("reinitialisations"); step(3); }
        void discretise()
        {
            bool t = haveTarget && r.coin(0.3), reuse = r.coin(0.7); note("discretise%s%s", t ? " target" : "", reuse ? "" : " afresh");
            if (!reuse) b = slsm::Boundary();
            b.discretise(*ls, t);
            synced = !t; targetLast = t; did("discretisations"); Digest d = digest(b); step(d);
            if (twice)
            {
                Digest m = digest(*ls, true); slsm::Boundary q; q.discretise(*ls, t); if (digest(q) != d || digest(*ls, true) != m) { c.fail("twice", "discretising again into a new boundary differs"); bad = true; }
                b.discretise(*ls, t); if (digest(b) != d || digest(*ls, true) != m) { c.fail("twice", "discretising again into the same boundary differs"); bad = true; }
                did("repeats compared");
            }
        }
        void normals()
        {
            if (!b.nPoints || !synced) return; note("normals"); b.computeNormalVectors(*ls); did("normal computations"); step(4);
            if (twice) { Digest d = digest(b); b.computeNormalVectors(*ls); if (digest(b) != d) { c.fail("twice", "computing normals again differs"); bad = true; } did("repeats compared"); }
        }
        void areas()
        {
            if (!synced && !targetLast) return; note("areas"); double a = ls->computeAreaFractions(b); did("area computations"); step(hashBits(a, 5));
            if (twice) { Digest d = digest(*ls, true); double q = ls->computeAreaFractions(b); if (memcmp(&a, &q, 8) || digest(*ls, true) != d) { c.fail("twice", "computing areas again differs"); bad = true; } did("repeats compared"); }
        }
        void perimeter()
        {
            if (!b.nPoints) return; note("perimeter"); double s = 0; for (auto& p : b.points) s += b.computePerimeter(p); did("perimeter computations"); step(hashBits(s, 6));
        }
        void sensitivities()
        {
            if (!b.nPoints || !synced) return; int n = r.i(1, 4); double delta = r.coin() ? 1e-4 : pow(10, r.u(-6, -2)); note("sensitivities of %d functions", n);
            slsm::Sensitivity s(delta); double kx = r.u(-0.5, 0.5), ky = r.u(-0.5, 0.5);
            for (auto& p : b.points)
            {
                p.sensitivities.assign(n, 0); if (!(p.length > 1e-9)) continue;
                for (int k=0;k<n;k++) { slsm::SensitivityCallback f = [&](const slsm::BoundaryPoint& q) { return (k + 1)*p.length*sin(kx*q.coord.x + ky*q.coord.y + k); }; p.sensitivities[k] = s.computeSensitivity(p, f); }
            }
            did("sensitivity computations"); step(7);
        }
        void ito()
        {
            if (!b.nPoints || !synced || b.points[0].sensitivities.empty()) return; for (auto& p : b.points) if (!(p.length > 1e-9)) return;
            note("Ito correction"); slsm::Sensitivity s; if (r.coin()) s.itoCorrection(b, *ls, r.coin(0.2) ? 0 : r.u(0, 0.5)); else s.itoCorrection(b, r.u(0, 0.5)); did("Ito corrections"); step(8);
        }
#ifdef VH_SHIM
        void optimise()
        {
            if (!b.nPoints || !synced) return; size_t n = b.points[0].sensitivities.size(); if (!n) return; for (auto& p : b.points) if (p.sensitivities.size() != n) return;
            bool movable = false; for (auto& p : b.points) movable |= !p.isFixed && p.length > 1e-9 && p.sensitivities[0] != 0; if (!movable) return;
            note("optimise with %zu constraints", n - 1); std::vector<double> dist(n - 1); for (double& d : dist) d = r.coin(0.2) ? 0 : (r.coin() ? 1 : -1)*pow(10, r.u(-2, 3));
            std::vector<bool> eq; if (r.coin()) for (size_t i=1;i<n;i++) eq.push_back(r.coin());
            lambdas.resize(n); for (double& l : lambdas) l = r.u(-1, 1);
            int fails = r.coin(0.2) ? r.i(1, 3) : 0; Rng q(r.next());
            nlopt::hook() = [&q, &fails](nlopt::Problem& p, std::vector<double>& x, double& f) -> nlopt::result
            {
                std::vector<double> grad; f = 0;
                for (int t=0;t<4;t++)
                {
                    for (unsigned j=0;j<p.n;j++) x[j] = std::max(p.lb[j], std::min(p.ub[j], q.u(-1, 1)*std::min(p.ub[j], 1e6))); if (std::fabs(x[0]) < 1e-9) x[0] = 1e-3*std::min(p.ub[0], 1.0);
                    if (q.coin()) grad.assign(p.n, 0); else grad.clear(); f = p.obj.f(x, grad, p.obj.d);
                    for (auto& k : p.cons) { if (q.coin()) grad.assign(p.n, 0); else grad.clear(); k.f(x, grad, k.d); }
                }
                if (fails > 0) { fails--; if (q.coin()) throw nlopt::roundoff_limited(); return nlopt::FAILURE; }
                return nlopt::XTOL_REACHED;
            };
            double ts = 0; slsm::Optimise o(b.points, dist, lambdas, ts, r.coin() ? ml : 0.5, r.coin(), eq, r.coin() ? nlopt::LD_SLSQP : nlopt::LD_MMA);
            double v = o.solve(); did("optimisations"); Digest d = hashBits(v, hashBits(ts, hashBitsV(lambdas, 9))); nlopt::hook() = nullptr; step(d);
        }
#else
        void optimise() {}
#endif
        void velocities()
        {
            if (!b.nPoints || !synced || !live()) return; bool noise = r.coin(0.3), any = r.coin(0.7); double v = r.u(-1, 1);
            for (auto& p : b.points) if (!std::isfinite(p.velocity)) any = true;
            if (noise) for (auto& p : b.points) if (!(p.length > 1e-9)) noise = false;
            note("velocities%s", noise ? " with noise" : "");
            if (any) for (auto& p : b.points) p.velocity = r.coin(0.7) ? v : r.u(-1, 1);
            Digest d = 10;
            if (noise) { double dt = r.u(0.05, 0.8), T = r.coin(0.2) ? 0 : r.u(0, 0.3); double k = ls->computeVelocities(b.points, dt, T, g); d = hashBits(k, hashBits(dt, d)); }
            else { const std::vector<slsm::BoundaryPoint>& p = b.points; ls->computeVelocities(p); }
            haveVel = true; did("velocity extensions"); step(d);
            if (twice) { Digest m = digest(*ls, true); const std::vector<slsm::BoundaryPoint>& p = b.points; ls->computeVelocities(p); Digest m2 = digest(*ls, true); if (m2 != m) { c.fail("twice", "extending the same velocities again differs"); bad = true; } did("repeats compared"); }
        }
        void gradients()
        {
            if (w < 4 || h < 4) return; note("gradients"); ls->computeGradients(); did("gradient computations"); step(11);
            if (twice) { Digest m = digest(*ls, true); ls->computeGradients(); if (digest(*ls, true) != m) { c.fail("twice", "computing gradients again differs"); bad = true; } did("repeats compared"); }
        }
        void update()
        {
            double dt = (r.coin() ? r.u(0, 1) : r.u(0.7, 1))*std::min(0.9, 2*ml); if (!haveVel) return; double big = 0; for (unsigned i=0;i<ls->mesh.nNodes;i++) big = std::max(big, std::fabs(ls->gradient[i]*ls->velocity[i])); if (big*dt > 0.95) dt = r.coin(0.9) ? 0.95/big : dt;
            bool p = false, n = false, z = false, near = false;
            for (unsigned i=0;i<ls->mesh.nNodes;i++)
            {
                const slsm::Node& q = ls->mesh.nodes[i]; double v = ls->signedDistance[i]; if (q.isActive) { v -= dt*ls->gradient[i]*ls->velocity[i]; if (q.isDomain && v > 0) v = 0; if (q.isMine && std::fabs(v) < 1.001) near = true; }
                // values that hang on rounding don't count
                if (v > 1e-9) p = true; else if (v < -1e-9) n = true; else if (v == 0) z = true;
            }
            if (near && !(z || (p && n))) return;
            note("update by %.4g", dt); bool re = ls->update(dt); synced = false; did(re ? "updates that reinitialised" : "updates"); step(12 + re);
        }
        void file()
        {
            if (flags & NO_IO) return; int k = r.i(0, 9); note("file %d", k); slsm::InputOutput io; std::string f = dir + "/p"; unsigned n = r.i(0, 12000); bool xy = r.coin();
            switch (k)
            {
                case 0: io.saveLevelSetVTK(f + ".vtk", *ls, r.coin(), r.coin()); break;
                case 1: io.saveLevelSetVTK(n, *ls, r.coin(), r.coin(), dir); break;
                case 2: case 3: if (r.coin()) { io.saveLevelSetTXT(f + ".txt", *ls, xy); io.loadLevelSetTXT(f + ".txt", *ls, xy); } else { io.saveLevelSetTXT(n, *ls, dir, xy); io.loadLevelSetTXT(n, *ls, dir, xy); } synced = false; break;
                case 4: case 5: if (r.coin()) { io.saveLevelSetBIN(f + ".bin", *ls); io.loadLevelSetBIN(f + ".bin", *ls); } else { io.saveLevelSetBIN(n, *ls, dir); io.loadLevelSetBIN(n, *ls, dir); } break;
                case 6: io.saveBoundaryPointsTXT(f + ".pts", b); io.saveBoundaryPointsTXT(n, b, dir); break;
                case 7: io.saveBoundarySegmentsTXT(f + ".seg", b); io.saveBoundarySegmentsTXT(n, b, dir); break;
                case 8: io.saveAreaFractionsVTK(f + ".avtk", ls->mesh); io.saveAreaFractionsVTK(n, ls->mesh, dir); break;
                default: io.saveAreaFractionsTXT(f + ".atxt", ls->mesh, xy); io.saveAreaFractionsTXT(n, ls->mesh, dir, xy);
            }
            did("file operations"); step(14);
        }
        void marching()
        {
            if (!live()) return; note("fast marching"); slsm::FastMarchingMethod f(ls->mesh, !(flags & LARGE) && r.coin(0.3)); int n = r.i(1, 3); Digest d = 15;
            for (int i=0;i<n;i++) { std::vector<double> s = ls->signedDistance; f.march(s); d = hashBitsV(s, d);
                if (r.coin(0.25)) { slsm::FastMarchingMethod g(f); std::vector<double> q = ls->signedDistance; g.march(q); if (memcmp(q.data(), s.data(), 8*s.size())) { c.fail("copy", "a copy of a used marcher marches differently"); bad = true; } did("copied marchers"); }
                if (r.coin(0.4)) { std::string t; Field q = randomField(r, w, h, t); f.march(q.v); d = hashBitsV(q.v, d); } }
            did("direct marches"); step(d);
        }
        void copies()
        {
            note("copies"); slsm::LevelSet q(*ls); Digest a = digest(q, true), z = digest(*ls, true); slsm::Boundary d(b), e; e = d; Digest x = digest(e);
            if (a != z || x != digest(b)) { c.fail("copy", "a copy differs from its original"); bad = true; }
            if (live()) { q.reinitialise(); if (digest(*ls, true) != z) { c.fail("copy", "work on a copy changed the original"); bad = true; } }
            if (r.coin()) { ls.reset(new slsm::LevelSet(*ls)); b = d; }
            did("copies"); step(x);
        }
        void heap()
        {
            note("heap"); int n = r.i(1, 40), in = 0; slsm::Heap q(n, r.coin()); std::vector<unsigned> key; Digest d = 16; std::vector<char> live;
            for (int i=0;i<3*n;i++)
            {
                if (in < n && r.coin(0.6) ) { q.push(i, r.coin(0.3) ? r.i(0, 3) : r.u(0, 9)); in++; }
                else if (in) { unsigned a; double v; q.peek(); q.pop(a, v); d = hashU(a, hashBits(v, d)); in--; }
                if (r.coin(0.03)) { slsm::Heap o(q); for (int k=in;k>0;k--) { unsigned a; double v; o.pop(a, v); d = hashU(a, hashBits(v, d)); } did("copied queues"); }
            }
            did("heap histories"); step(hashU(q.size(), d));
        }
        void mesh()
        {
            note("mesh"); unsigned W = r.i(1, 9), H = r.i(1, 9); slsm::Mesh m(W, H); Digest d = digest(m);
            for (int i=0;i<20;i++) { slsm::Coord p(r.coin(0.4) ? r.i(0, W) : r.u(0, W), r.coin(0.4) ? r.i(0, H) : r.u(0, H)); d = hashU(m.getElement(p), hashU(m.getClosestNode(p), d)); }
            did("mesh queries"); step(d);
        }
        void random() { note("random numbers"); Digest d = 17; for (int i=0;i<5;i++) { d = hashBits(g(), d); d = hashBits(g.normal(1, 2), d); d = hashBits(g.normal(), d); d = hashU(g.integer(-3, 9), d); } if (r.coin(0.3)) g.setSeed(r.i(0, 1000)); did("random draws"); step(d); }

        void cycle()
        {
            // the normal order of things
            discretise(); if (r.coin()) areas(); if (r.coin()) normals(); if (r.coin(0.6)) { sensitivities(); if (r.coin()) ito(); if (r.coin()) optimise(); }
            velocities(); gradients(); update();
        }
        // Several steps in one direction, to bring on reinitialisations.
        void motion()
        {
            double v = r.coin() ? 1 : -1; int n = r.i(2, 9); if (w < 4 || h < 4) return;
            for (int i=0;i<n && !bad;i++)
            {
                if (!live()) return; note("move %+g", v); b.discretise(*ls); targetLast = false; synced = true; if (!b.nPoints) return; did("discretisations"); step(21);
                for (auto& p : b.points) p.velocity = v*r.u(0.9, 1);
                const std::vector<slsm::BoundaryPoint>& p = b.points; ls->computeVelocities(p); ls->computeGradients(); haveVel = true; did("moving steps"); step(22); update();
            }
        }
        void run(int n)
        {
            create(); checkFinite();
            for (int i=0;i<n && !bad;i++)
            {
                switch (r.i(0, 24))
                {
                    case 0: case 1: case 2: case 3: cycle(); break;
                    case 4: case 5: motion(); break;
                    case 6: case 7: reinit(); break;
                    case 8: mask(); break;
                    case 9: note("new field"); field(); did("fields set"); step(20); if (r.coin(0.8)) reinit(); break;
                    case 10: case 11: discretise(); break;
                    case 12: areas(); break;
                    case 13: normals(); break;
                    case 14: perimeter(); break;
                    case 15: sensitivities(); ito(); break;
                    case 16: optimise(); break;
                    case 17: velocities(); break;
                    case 18: gradients(); break;
                    case 19: file(); break;
                    case 20: marching(); break;
                    case 21: copies(); break;
                    case 22: heap(); break;
                    case 23: mesh(); break;
                    default: random();
                }
                checkFinite();
            }
        }
    };
}
#endif
