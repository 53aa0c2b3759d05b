// L01 hole structures, L02 outlines, L03 narrow-band bookkeeping, L04 masks and rims.
#include "polygon.h"
#include <set>
using namespace slsm; using namespace vh;

static std::vector<Hole> randomHoles(Rng& r, int w, int h, int most)
{
    std::vector<Hole> v; int n = r.i(0, most);
    for (int i=0;i<n;i++)
    {
        bool g = r.coin(0.3);
        double x = r.u(-2, w + 2), y = r.u(-2, h + 2), R = r.u(0.1, 0.35*std::min(w, h) + 1);
        if (g) { x = std::round(x); y = std::round(y); R = std::round(R) + (r.coin() ? 0 : 0.5); if (R <= 0) R = 1; }
        v.push_back(Hole(x, y, R));
    }
    return v;
}
static double rimDist(int w, int h, double x, double y) { return std::min(std::min(x, w - x), std::min(y, h - y)); }
static double holesValue(const std::vector<Hole>& hs, int w, int h, double x, double y)
{
    double d = rimDist(w, h, x, y);
    for (const Hole& o : hs) d = std::min(d, hypot(x - o.coord.x, y - o.coord.y) - o.r);
    return d;
}
static void compareHoles(Ctx& c, const LevelSet& ls, const std::vector<Hole>& hs, int w, int h, const char* what)
{
    if (ls.signedDistance.size() != ls.mesh.nNodes) return c.fail("size", "%s: field has %zu values", what, ls.signedDistance.size());
    for (unsigned i=0;i<ls.mesh.nNodes;i++)
    {
        double x = ls.mesh.nodes[i].coord.x, y = ls.mesh.nodes[i].coord.y, e = holesValue(hs, w, h, x, y);
        if (!(std::fabs(ls.signedDistance[i] - e) <= 1e-9*(1 + std::fabs(e))))
            return c.fail("hole-value", "%s: value %.12g at (%g,%g), geometry gives %.12g", what, ls.signedDistance[i], x, y, e);
    }
    c.count("grid points compared with hole geometry", ls.mesh.nNodes);
}

VH_CHECK(L01, 1500, 20000, "random hole lists (0-12 holes, some on grid points, some over the rim) on random grids, every fifth case the default structure, every third with a target; non-trivial: some hole meets the domain")
{
    Rng& r = c.rng;
    if (c.caseNo % 5 == 0)
    {
        int w = r.i(75, 170), h = r.i(75, 170); bool fixed = r.coin();
        c.tag("default structure %dx%d", w, h);
        LevelSet ls(w, h, r.u(0.05, 0.95), r.i(3, 9), fixed);
        int nx = (int)floor(w/30.0 + 0.5), ny = (int)floor(h/30.0 + 0.5);
        std::vector<Hole> hs;
        for (int j=0;j<ny;j++) for (int i=0;i<nx;i++) hs.push_back(Hole((2*i + 1)*w/(2.0*nx), (2*j + 1)*h/(2.0*ny), 5));
        for (int j=1;j<ny;j++) for (int i=1;i<nx;i++) hs.push_back(Hole(i*w/(double)nx, j*h/(double)ny, 5));
        compareHoles(c, ls, hs, w, h, "default");
        if (!ls.target.empty()) c.fail("target", "default structure has a target");
        c.nontrivial(hashU(w, hashU(h, 5)));
        return;
    }
    int w = r.i(2, 60), h = r.i(2, 60); largeGrid(c, 64, w, h); if (c.caseNo % 500 == 251) { w = r.i(515, 700); h = r.i(515, 700); } bool fixed = r.coin(); double ml = r.u(0.05, 0.95); int bw = r.i(3, 9);
    std::vector<Hole> hs = randomHoles(r, w, h, c.caseNo % 75 == 37 ? 1200 : 12);
    c.tag("%zu holes on %dx%d", hs.size(), w, h);
    LevelSet ls(w, h, hs, ml, bw, fixed);
    compareHoles(c, ls, hs, w, h, "initial");
    if (ls.moveLimit != ml) c.fail("move-limit", "stored move limit %g, given %g", ls.moveLimit, ml);
    for (unsigned i=0;i<ls.mesh.nNodes;i++) if (ls.velocity[i] != 0 || ls.gradient[i] != 0) { c.fail("fresh", "fresh velocity/gradient not zero"); break; }
    bool meets = false; for (double v : ls.signedDistance) if (v < 0) meets = true;
    if (c.caseNo % 3 == 0)
    {
        std::vector<Hole> t = randomHoles(r, w, h, 6);
        bool frozen = false;
        { Field f(w, h); for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) { f.at(x, y) = holesValue(t, w, h, x, y); if (std::fabs(f.at(x, y)) < 1e-9) frozen = true; } frozen |= bothSigns(f); }
        if (frozen)
        {
            LevelSet a(w, h, hs, t, ml, bw, fixed), b(w, h, t, 0.5, 6, false);
            compareHoles(c, a, hs, w, h, "initial beside target");
            b.reinitialise();
            if (a.target.size() != b.signedDistance.size()) c.fail("target", "target has %zu values", a.target.size());
            else for (size_t i=0;i<a.target.size();i++)
                if (!(std::fabs(a.target[i] - b.signedDistance[i]) <= 1e-9)) { c.fail("target", "target %.12g at node %zu, its own holes reinitialised give %.12g", a.target[i], i, b.signedDistance[i]); break; }
            std::vector<Hole> other = randomHoles(r, w, h, 6);
            LevelSet d(w, h, other, t, ml, bw, fixed);
            if (d.target != a.target) c.fail("target-independent", "target depends on the initial structure");
            c.count("targets checked");
        }
    }
    if (meets) c.nontrivial(hashV(ls.signedDistance));
}

static bool clearOf(const Poly& p, double x, double y) { return outlineDist(p, x, y) > 1e-9; }
// Whether some grid point clearly outside every mask shape is material or interface.
static bool survives(const LevelSet& ls, const std::vector<Hole>& hs, const Poly& q)
{
    for (unsigned i=0;i<ls.mesh.nNodes;i++)
    {
        if (ls.signedDistance[i] < 0) continue;
        double x = ls.mesh.nodes[i].coord.x, y = ls.mesh.nodes[i].coord.y; bool out = true;
        for (const Hole& o : hs) if (hypot(x - o.coord.x, y - o.coord.y) < o.r + 1e-6) out = false;
        if (!q.empty() && (inside(q, x, y) || !clearOf(q, x, y))) out = false;
        if (out) return true;
    }
    return false;
}

static void comparePoly(Ctx& c, const LevelSet& ls, const Poly& p, int w, int h, const char* what)
{
    double tol = minEdge(p) < 1e-3 ? 1.1e-3 : 1e-8;
    long in = 0;
    for (unsigned i=0;i<ls.mesh.nNodes;i++)
    {
        double x = ls.mesh.nodes[i].coord.x, y = ls.mesh.nodes[i].coord.y, v = ls.signedDistance[i];
        double e = std::min(rimDist(w, h, x, y), outlineDist(p, x, y));
        if (!(std::fabs(std::fabs(v) - e) <= tol)) return c.fail("outline-distance", "%s: |value| %.12g at (%g,%g), geometry gives %.12g", what, std::fabs(v), x, y, e);
        if (clearOf(p, x, y))
        {
            bool is = inside(p, x, y); in += is;
            if (e > 1e-8 && (v < 0) != is) return c.fail("outline-side", "%s: value %.12g at (%g,%g), which is %s the outline", what, v, x, y, is ? "inside" : "outside");
        }
    }
    c.count("grid points compared with outlines", ls.mesh.nNodes);
    c.count("grid points found inside outlines", in);
}

VH_CHECK(L02, 3000, 40000, "random simple outlines (stars, rectangles, combs, finely divided edges; either orientation; some on grid points) as initial, target and mask shapes; non-trivial: the outline encloses a grid point")
{
    Rng& r = c.rng; std::string t1, t2;
    int w = r.i(4, 50), h = r.i(4, 50); largeGrid(c, 401, w, h); bool fixed = r.coin(); double ml = r.u(0.05, 0.95); int bw = r.i(3, 9);
    Poly p = randomPoly(r, w, h, t1);
    c.tag("%dx%d %s", w, h, t1.c_str());
    LevelSet ls(w, h, p, ml, bw, fixed);
    comparePoly(c, ls, p, w, h, "initial");
    bool some = false; for (double v : ls.signedDistance) if (v < 0) some = true;
    if (some) c.nontrivial(hashV(ls.signedDistance));
    if (c.caseNo % 2 == 0)
    {
        Poly q = randomPoly(r, w, h, t2);
        LevelSet own(w, h, q, 0.5, 6, false); own.reinitialise();
        std::unique_ptr<LevelSet> a; bool viaHoles = r.coin();
        std::vector<Hole> hs = randomHoles(r, w, h, 5);
        if (viaHoles) a.reset(new LevelSet(w, h, hs, q, ml, bw, fixed)); else a.reset(new LevelSet(w, h, p, q, ml, bw, fixed));
        if (viaHoles) compareHoles(c, *a, hs, w, h, "initial beside outline target"); else comparePoly(c, *a, p, w, h, "initial beside outline target");
        if (a->target.size() != a->mesh.nNodes) c.fail("outline-target", "target has %zu values", a->target.size());
        else for (size_t i=0;i<a->target.size();i++) if (!(std::fabs(a->target[i] - own.signedDistance[i]) <= 1e-9))
        { c.fail("outline-target", "target %.12g at node %zu, its own outline reinitialised gives %.12g", a->target[i], i, own.signedDistance[i]); break; }
        c.count("outline targets checked");
    }
    // Masks.
    Poly m = randomPoly(r, w, h, t2); int kind = r.i(0, 2);
    LevelSet k(w, h, randomHoles(r, w, h, 4), ml, bw, fixed);
    std::vector<double> before = k.signedDistance;
    std::vector<Hole> mh; Poly rect;
    if (!survives(k, mh, m)) { c.count("masks that would leave nothing"); return; }
    if (kind == 0) k.mask(m);
    else if (kind == 1)
    {
        double x = r.u(-1, w), y = r.u(-1, h); rect.push_back(Coord(x, y)); rect.push_back(Coord(x + r.u(0.2, w), y + r.u(0.2, h)));
        if (r.coin()) for (auto& q : rect) { q.x = std::round(q.x); q.y = std::round(q.y); }
        Poly box; box.push_back(rect[0]); box.push_back(Coord(rect[1].x, rect[0].y)); box.push_back(rect[1]); box.push_back(Coord(rect[0].x, rect[1].y)); box.push_back(rect[0]);
        if (rect[0].x == rect[1].x || rect[0].y == rect[1].y || !survives(k, mh, box)) return;
        k.mask(rect);
    }
    else { mh = randomHoles(r, w, h, 4); if (!survives(k, mh, Poly())) return; k.mask(mh); }
    long masked = 0;
    for (unsigned i=0;i<k.mesh.nNodes;i++)
    {
        double x = k.mesh.nodes[i].coord.x, y = k.mesh.nodes[i].coord.y; bool want = false, sure = true;
        if (kind == 0) { sure = clearOf(m, x, y); want = inside(m, x, y); }
        else if (kind == 1) want = x > rect[0].x && x < rect[1].x && y > rect[0].y && y < rect[1].y;
        else for (const Hole& o : mh) { double d = hypot(x - o.coord.x, y - o.coord.y) - o.r; if (std::fabs(d) < 1e-9) sure = false; if (d < 0) want = true; }
        bool is = k.mesh.nodes[i].isMasked; masked += is;
        if (sure && is != want) { c.fail("mask-selects", "mask kind %d: point (%g,%g) %s masked", kind, x, y, is ? "wrongly" : "not"); break; }
        double v = k.signedDistance[i];
        if (is && !(v < 0)) { c.fail("mask-negative", "masked point (%g,%g) has value %g", x, y, v); break; }
        if (!is && ((v < 0) != (before[i] < 0) || (v == 0) != (before[i] == 0))) { c.fail("mask-elsewhere", "masking changed the side of unmasked (%g,%g): %g to %g", x, y, before[i], v); break; }
    }
    // The void of a mask reaches exactly to its outermost grid points, however deep in the material they were.
    long edge = 0;
    for (unsigned i=0;i<k.mesh.nNodes && !c.failed();i++) if (k.mesh.nodes[i].isMasked && before[i] > 0)
        for (unsigned n : k.mesh.nodes[i].neighbours) if (n < k.mesh.nNodes && !k.mesh.nodes[n].isMasked && before[n] > 1e-2)
        {
            edge++;
            if (!(std::fabs(k.signedDistance[i]) <= 1e-4)) { c.fail("mask-edge", "masked point (%g,%g) beside material (%g before) is %g from the interface", k.mesh.nodes[i].coord.x, k.mesh.nodes[i].coord.y, before[n], k.signedDistance[i]); break; }
        }
    c.count("mask edges checked", edge);
    c.count("grid points masked", masked);
    c.count("masks applied");
}

static void checkBand(Ctx& c, const LevelSet& ls, unsigned bw, bool fixed, const char* when)
{
    std::vector<char> in(ls.mesh.nNodes, 0), mine(ls.mesh.nNodes, 0);
    if (ls.nNarrowBand > ls.narrowBand.size() || ls.nMines > ls.mines.size()) return c.fail("band-count", "%s: counts %u/%u exceed the lists", when, ls.nNarrowBand, ls.nMines);
    for (unsigned i=0;i<ls.nNarrowBand;i++)
    {
        unsigned n = ls.narrowBand[i];
        if (n >= ls.mesh.nNodes) return c.fail("band-range", "%s: band entry %u is node %u", when, i, n);
        if (in[n]++) return c.fail("band-duplicate", "%s: node %u twice in the band", when, n);
    }
    for (unsigned i=0;i<ls.nMines;i++)
    {
        unsigned n = ls.mines[i];
        if (n >= ls.mesh.nNodes) return c.fail("mine-range", "%s: mine entry %u is node %u", when, i, n);
        if (mine[n]++) return c.fail("mine-duplicate", "%s: node %u twice among the mines", when, n);
    }
    for (unsigned i=0;i<ls.mesh.nNodes;i++)
    {
        const Node& nd = ls.mesh.nodes[i]; double a = std::fabs(ls.signedDistance[i]);
        bool act = !nd.isMasked && !(nd.isDomain && fixed) && a < bw, mn = act && a > bw - 1.0;
        if ((bool)in[i] != act) return c.fail("band-member", "%s: node (%g,%g) value %.9g masked %d rim %d is %s the band of width %u", when, nd.coord.x, nd.coord.y, ls.signedDistance[i], nd.isMasked, nd.isDomain, in[i] ? "in" : "not in", bw);
        if ((bool)mine[i] != mn) return c.fail("mine-member", "%s: node (%g,%g) value %.9g is %s the mines (band width %u)", when, nd.coord.x, nd.coord.y, ls.signedDistance[i], mine[i] ? "among" : "not among", bw);
        if (nd.isActive != act) return c.fail("active-flag", "%s: node (%g,%g) activity flag %d", when, nd.coord.x, nd.coord.y, nd.isActive);
        if (nd.isMine != mn) return c.fail("mine-flag", "%s: node (%g,%g) warning flag %d", when, nd.coord.x, nd.coord.y, nd.isMine);
    }
    c.count("band rebuilds checked");
    c.count("band members seen", ls.nNarrowBand); c.count("early-warning points seen", ls.nMines);
}

// One random step of the usual cycle, or of direct field motion.
// Returns 1/0 as update does, or -1 if the step would leave no interface (not taken).
// A drift keeps the interface moving one way from step to step.
static int randomStep(Ctx& c, LevelSet& ls, bool fixed, bool& cycle, double drift = 0)
{
    Rng& r = c.rng; cycle = r.coin(drift ? 0.9 : 0.5) && ls.mesh.width > 3 && ls.mesh.height > 3;
    double dt = r.u(0.2, 1);
    if (cycle)
    {
        Boundary b; b.discretise(ls);
        double bias = drift ? drift*r.u(0.8, 1) : r.u(-0.5, 0.5);
        for (auto& p : b.points)
        {
            double v = bias + (drift ? 0.2 : 1)*r.u(-0.4, 0.4);
            p.velocity = std::max(p.negativeLimit, std::min(p.positiveLimit, v));
            if (p.isFixed) p.velocity = 0;
        }
        ls.computeVelocities(b.points);
        ls.computeGradients();
    }
    else for (unsigned i=0;i<ls.mesh.nNodes;i++) { ls.velocity[i] = drift ? drift*r.u(0.8, 1) : r.u(-0.6, 0.6); ls.gradient[i] = drift ? r.u(0.9, 1.1) : r.coin(0.1) ? 0 : r.u(0, 1.3); }
    bool p = false, n = false, z = false;
    std::vector<double> next = ls.signedDistance;
    for (unsigned i=0;i<ls.nNarrowBand;i++)
    {
        unsigned k = ls.narrowBand[i];
        next[k] -= dt*ls.gradient[k]*ls.velocity[k];
        if (ls.mesh.nodes[k].isDomain && next[k] > 0) next[k] = 0;
    }
    for (double v : next) { p |= v > 1e-9; n |= v < -1e-9; z |= v == 0; }
    if (!(z || (p && n))) return -1;
    return ls.update(dt);
}
VH_CHECK(L03, 2000, 30000, "histories of construction, masking, field changes, steps and reinitialisations with random band widths, rims free or fixed; non-trivial: a history with several rebuilds and both band and warning points")
{
    Rng& r = c.rng; std::string t;
    int w = r.i(3, 50), h = r.i(3, 50); largeGrid(c, 99, w, h); bool fixed = r.coin(); unsigned bw = r.i(3, 10);
    if (c.caseNo % 7 == 3) { bw = r.i(0, 9) ? r.i(11, std::max(12, std::max(w, h))) : r.coin() ? 4294967295u : 100000u; c.count("wide bands"); }
    c.tag("%dx%d band %u %s", w, h, bw, fixed ? "fixed" : "free");
    std::unique_ptr<LevelSet> p;
    // Every way of construction; targets only where there is something to aim at.
    {
        int way = r.i(0, 6); double ml = r.u(0.1, 0.9); std::vector<Hole> H = randomHoles(r, w, h, 6), T(1, Hole(0.5*w, 0.5*h, 0.3*std::min(w, h))); Poly q = randomPoly(r, w, h, t), s = randomPoly(r, w, h, t);
        if (way == 4 && r.coin(0.7)) way = 5;
        bool rim = false; { LevelSet k(w, h, way == 3 ? T : std::vector<Hole>(), 0.5, 6, false); for (double v : k.signedDistance) rim |= v >= 0; }
        if (way == 3 && !rim) way = 1;
        switch (way)
        {
            case 0: p.reset(new LevelSet(w, h, q, ml, bw, fixed)); break;
            case 3: p.reset(new LevelSet(w, h, H, T, ml, bw, fixed)); c.count("built with hole target"); break;
            case 4: w = r.i(75, 110); h = r.i(75, 110); p.reset(new LevelSet(w, h, ml, bw, fixed)); c.count("built by default arrangement"); break;
            case 5: p.reset(new LevelSet(w, h, H, s, ml, bw, fixed)); c.count("built with outline target"); break;
            case 6: p.reset(new LevelSet(w, h, q, s, ml, bw, fixed)); c.count("built from outline with outline target"); break;
            default: p.reset(new LevelSet(w, h, H, ml, bw, fixed));
        }
    }
    LevelSet& ls = *p;
    checkBand(c, ls, bw, fixed, "construction");
    if (c.failed()) return;
    int rebuilds = 0; bool both = false; double drift = r.coin(0.4) ? r.u(0.3, 0.9)*(r.coin() ? 1 : -1) : 0;
    for (int k=0, n=drift ? r.i(5, 30) : r.i(2, 10);k<n && !c.failed();k++)
    {
        int op = r.i(0, drift ? 14 : 4);
        if (op == 0) 
        {
            std::vector<Hole> hs; Poly q;
            if (r.coin()) hs = randomHoles(r, w, h, 2); else q = randomPoly(r, w, h, t);
            if (!survives(ls, hs, q)) continue;
            if (q.empty()) ls.mask(hs); else ls.mask(q);
            checkBand(c, ls, bw, fixed, "mask"); rebuilds++; }
        else if (op == 1)
        {
            Field f = randomField(r, w, h, t, r.i(0, 2)); double s = r.coin() ? 1 : r.u(0.2, 5);
            for (unsigned i=0;i<ls.mesh.nNodes;i++) if (!ls.mesh.nodes[i].isMasked) ls.signedDistance[i] = s*f.v[i]; else ls.signedDistance[i] = -std::fabs(ls.signedDistance[i]);
            bool ok = false; { Field g = f; g.v = ls.signedDistance; ok = bothSigns(g); for (double v : g.v) ok |= v == 0; }
            if (!ok) continue;
            ls.reinitialise(); checkBand(c, ls, bw, fixed, "reinitialise"); rebuilds++;
        }
        else
        {
            bool can = false; { Field g(w, h); g.v = ls.signedDistance; can = bothSigns(g); for (double v : g.v) can |= v == 0; }
            if (!can) break;
            bool cyc; std::vector<unsigned> nb(ls.narrowBand.begin(), ls.narrowBand.begin() + ls.nNarrowBand);
            int re = randomStep(c, ls, fixed, cyc, drift);
            if (re < 0) break;
            if (re) { checkBand(c, ls, bw, fixed, "update that reinitialised"); rebuilds++; c.count("updates that reinitialised"); }
            else
            {
                c.count("updates without reinitialisation");
                if (nb.size() != ls.nNarrowBand || !std::equal(nb.begin(), nb.end(), ls.narrowBand.begin())) c.fail("band-kept", "band changed by an update that reported no reinitialisation");
            }
        }
        both |= ls.nNarrowBand > 0 && ls.nMines > 0;
    }
    if (rebuilds >= 2 && both) c.nontrivial(hashV(ls.signedDistance));
}

VH_CHECK(L04, 1500, 20000, "30-step motions with masks and free or fixed rims under hostile velocities, by the full cycle and by direct field motion; non-trivial: a motion with masked points whose neighbourhood moved")
{
    Rng& r = c.rng; std::string t;
    int w = r.i(6, 40), h = r.i(6, 40); largeGrid(c, 100, w, h); bool fixed = r.coin(); unsigned bw = c.caseNo % 9 == 4 ? r.i(9, 60) : r.i(3, 8);
    LevelSet ls(w, h, randomHoles(r, w, h, 5), r.u(0.2, 0.9), bw, fixed);
    int nm = r.i(0, 2); std::vector<char> want(ls.mesh.nNodes, 0); // 0 outside all masks, 1 inside one, 2 on the rim of one
    auto note = [&](const std::vector<Hole>& hs, const Poly& q, bool box)
    {
        for (unsigned i=0;i<ls.mesh.nNodes;i++)
        {
            double x = ls.mesh.nodes[i].coord.x, y = ls.mesh.nodes[i].coord.y; int in = 0;
            for (const Hole& o : hs) { double d = hypot(x - o.coord.x, y - o.coord.y) - o.r; if (std::fabs(d) < 1e-9) in = std::max(in, 2); else if (d < 0) in = 1; if (in == 1) break; }
            if (box) in = x > q[0].x && x < q[2].x && y > q[0].y && y < q[2].y;
            else if (!q.empty()) in = !clearOf(q, x, y) ? 2 : inside(q, x, y);
            if (in == 1 || (in == 2 && !want[i])) want[i] = in;
        }
    };
    std::vector<char> masked(ls.mesh.nNodes, 0); long nMasked = 0;
    auto addMask = [&](bool many)
    {
        int k = many ? 0 : r.i(0, 2);
        if (k == 0)
        {
            std::vector<Hole> hs = randomHoles(r, w, h, 2);
            if (many) { for (int n=r.i(257, 700);n>0;n--) hs.push_back(Hole(r.u(0, w), r.u(0, h), r.u(0.1, 0.4))); for (int n=r.i(1, 3);n>0;n--) hs.push_back(Hole(r.u(0, w), r.u(0, h), r.u(0.8, 2))); c.count("masks of hundreds of circles"); }
            if (survives(ls, hs, Poly())) { ls.mask(hs); note(hs, Poly(), false); }
        }
        else if (k == 1) { Poly q = randomPoly(r, w, h, t); if (survives(ls, std::vector<Hole>(), q)) { ls.mask(q); note(std::vector<Hole>(), q, false); } }
        else { double x = r.i(-1, w), y = r.i(-1, h); Poly q; q.push_back(Coord(x, y)); q.push_back(Coord(x + r.u(1, w), y + r.u(1, h)));
            Poly box; box.push_back(q[0]); box.push_back(Coord(q[1].x, q[0].y)); box.push_back(q[1]); box.push_back(Coord(q[0].x, q[1].y)); box.push_back(q[0]);
            if (survives(ls, std::vector<Hole>(), box)) { ls.mask(q); note(std::vector<Hole>(), box, true); } }
        for (unsigned i=0;i<ls.mesh.nNodes;i++)
        {
            if (want[i] < 2 && ls.mesh.nodes[i].isMasked != (want[i] == 1)) return c.fail("mask-selects", "point (%g,%g) is %s masked", ls.mesh.nodes[i].coord.x, ls.mesh.nodes[i].coord.y, want[i] ? "not" : "wrongly");
            if (masked[i] && !ls.mesh.nodes[i].isMasked) return c.fail("mask-selects", "point (%g,%g) was masked before, another mask lifts it", ls.mesh.nodes[i].coord.x, ls.mesh.nodes[i].coord.y);
        }
        nMasked = 0; for (unsigned i=0;i<ls.mesh.nNodes;i++) nMasked += masked[i] = ls.mesh.nodes[i].isMasked;
    };
    for (int i=0;i<nm && !c.failed();i++) addMask(c.caseNo % 40 == 13 && !i);
    if (c.failed()) return;
    bool later = r.coin(0.3);
    c.tag("%dx%d band %u %s, %ld masked", w, h, bw, fixed ? "fixed" : "free", nMasked);
    long moved = 0, re = 0; int steps = 0; double drift = r.coin(0.6) ? r.u(0.2, 0.9)*(r.coin() ? 1 : -1) : 0;
    for (int k=0;k<30 && !c.failed();k++)
    {
        // masks may also come in the middle of a motion
        if (later && r.coin(0.08)) { addMask(false); c.count("masks during a motion"); if (c.failed()) break; }
        std::vector<double> before = ls.signedDistance; bool cyc;
        if (drift && r.coin(0.05)) drift = -drift;
        int rein = randomStep(c, ls, fixed, cyc, drift); if (rein < 0) break;
        re += rein; steps++;
        for (unsigned i=0;i<ls.mesh.nNodes;i++)
        {
            const Node& nd = ls.mesh.nodes[i]; double v = ls.signedDistance[i];
            if (masked[i])
            {
                if (!nd.isMasked) { c.fail("mask-lost", "masked point (%g,%g) lost its mask", nd.coord.x, nd.coord.y); break; }
                if (!(v < 0)) { c.fail("mask-material", "masked point (%g,%g) became %g after step %d", nd.coord.x, nd.coord.y, v, k); break; }
                if (!rein && v != before[i]) { c.fail("mask-moved", "masked point (%g,%g) moved %.9g to %.9g without reinitialisation", nd.coord.x, nd.coord.y, before[i], v); break; }
                if (nd.isActive) { c.fail("mask-active", "masked point (%g,%g) is active", nd.coord.x, nd.coord.y); break; }
            }
            else if (nd.isMasked) { c.fail("mask-spread", "point (%g,%g) became masked", nd.coord.x, nd.coord.y); break; }
            if (nd.isDomain)
            {
                if (v > 0) { c.fail("rim-material", "rim point (%g,%g) became material (%g) in step %d", nd.coord.x, nd.coord.y, v, k); break; }
                if (fixed)
                {
                    if (!rein && v != before[i]) { c.fail("rim-moved", "fixed rim point (%g,%g) moved %.9g to %.9g", nd.coord.x, nd.coord.y, before[i], v); break; }
                    if (rein && (v == 0) != (before[i] == 0)) { c.fail("rim-moved", "fixed rim point (%g,%g) changed %.9g to %.9g on reinitialisation", nd.coord.x, nd.coord.y, before[i], v); break; }
                }
            }
            if (v != before[i]) moved++;
        }
    }
    c.count("steps", steps); c.count("grid-point moves seen", moved); c.count("reinitialisations", re); c.count("masked points watched", nMasked);
    if (nMasked && moved && steps > 3) c.nontrivial(hashV(ls.signedDistance));
}
