// F01-F03 reinitialisation, V01 velocity extension.
#include "slsm_all.h"
#include "ref_fmm.h"
#include "contour.h"
using namespace slsm; using namespace vh;

static std::vector<double> lib(const Field& f, bool self = false)
{
    Mesh m(f.w, f.h); FastMarchingMethod fmm(m, self);
    std::vector<double> v = f.v; fmm.march(v); return v;
}
// Through the level set, as a user does it.
static std::vector<double> libLevelSet(const Field& f)
{
    LevelSet ls(f.w, f.h, std::vector<Hole>(), 0.5, 6, false);
    ls.signedDistance = f.v; ls.reinitialise(); return ls.signedDistance;
}
static double maxDiff(const std::vector<double>& a, const std::vector<double>& b)
{
    if (a.size() != b.size()) return 1e300;
    double m = 0; for (size_t i=0;i<a.size();i++) { double d = std::fabs(a[i] - b[i]); if (!(d <= m)) m = d; if (d != d) return 1e300; }
    return m;
}
static Field perturbed(Rng& r, const Field& f)
{
    Field g = f; for (double& v : g.v) v *= 1 + r.u(-1e-12, 1e-12); return g;
}
// Whether the field's distances do not hinge on rounding-level ties.
static bool stable(Rng& r, const Field& f, RefFmm& ref)
{
    ref.run(f);
    RefFmm o; o.jitter = &r;
    for (int k=0;k<3;k++) { o.run(perturbed(r, f)); if (maxDiff(o.out.v, ref.out.v) > 1e-8) return false; }
    for (int k=0;k<2;k++)
    {
        int s = r.i(1, 7); o.run(transformed(perturbed(r, f), s));
        if (maxDiff(o.out.v, transformed(ref.out, s).v) > 1e-8) return false;
    }
    return true;
}
static Field anyField(Ctx& c, std::string& t, int kind = -1, int most = 36)
{
    Rng& r = c.rng; int w, h;
    if (r.coin(0.12)) { w = r.i(1, 4); h = r.i(1, 4); } else if (r.coin(0.1)) { w = r.i(1, 3); h = r.i(4, most); if (r.coin()) std::swap(w, h); } else { w = r.i(4, most); h = r.i(4, most); }
    largeGrid(c, 250, w, h);
    Field f = randomField(r, w, h, t, kind);
    switch (r.i(0, 5))
    {
        case 0: { double s = pow(10, r.u(-8, 8)); for (double& v : f.v) v *= s; t += " rescaled"; break; }
        case 1: { for (double& v : f.v) if (r.coin(0.1)) v *= pow(10, r.u(-60, 0)); t += " with tiny values"; break; }
        case 2: { for (double& v : f.v) if (r.coin(0.05)) v = 0; t += " with zeros"; break; }
        case 3: { for (double& v : f.v) v = v*std::fabs(v); t += " squared"; break; }
        default: ;
    }
    if (!bothSigns(f)) { f.v[0] = 1; f.v.back() = -1; }
    c.tag("%dx%d %s", w, h, t.c_str());
    return f;
}

VH_CHECK(F01, 8000, 60000, "random fields of seven kinds, rescaled, squared, with tiny values and zeros, through the solver and through LevelSet; non-trivial: field with both interface and far points")
{
    Rng& r = c.rng; std::string t; Field f = anyField(c, t);
    std::vector<double> a = r.coin() ? lib(f) : libLevelSet(f);
    RefFmm ref; ref.in = f; ref.seed();
    long far = 0, sd = 0;
    for (size_t i=0;i<f.n();i++)
    {
        int x = i % (f.w+1), y = i / (f.w+1); double v = f.v[i];
        if ((v > 0) != (a[i] > 0) || (v < 0) != (a[i] < 0)) return c.fail("sign", "(%d,%d): %.9g became %.9g", x, y, v, a[i]);
        if (!std::isfinite(a[i])) return c.fail("finite", "(%d,%d): %.9g became %.9g", x, y, v, a[i]);
        if (ref.seeded[i])
        {
            sd++;
            if (!(std::fabs(a[i] - ref.out.v[i]) <= 1e-10*std::fabs(ref.out.v[i]) + 1e-13)) return c.fail("front-distance", "(%d,%d): %.12g next to the interface, crossings give %.12g", x, y, a[i], ref.out.v[i]);
        }
        else far++;
    }
    c.count("points next to the interface", sd); c.count("points away from it", far);
    // Only the interface matters.
    Field g = f; double s = ldexp(1, r.i(-20, 20));
    for (size_t i=0;i<g.n();i++)
    {
        bool cross = false; for (int d=0;d<4;d++) { int n = ref.nb(i, d); if (n >= 0 && f.v[i]*f.v[n] < 0) cross = true; }
        if (cross || f.v[i] == 0) g.v[i] = f.v[i]*s; else g.v[i] = (f.v[i] < 0 ? -1 : 1)*pow(10, r.coin(0.1) ? r.u(-40, 0) : r.u(-3, 3));
    }
    std::vector<double> b = lib(g);
    double d = maxDiff(a, b); c.maxOf("change caused by other values off the interface", d);
    if (!(d <= 1e-12)) c.fail("depends-on-far", "values away from the interface changed the outcome by %.9g", d);
    // Doing it again keeps every sign and every zero.
    Field h = f; h.v = a; std::vector<double> e = lib(h);
    for (size_t i=0;i<f.n();i++) if ((a[i] > 0) != (e[i] > 0) || (a[i] < 0) != (e[i] < 0)) { c.fail("sign", "second pass: node %zu %.9g became %.9g", i, a[i], e[i]); break; }
    if (far && sd) c.nontrivial(hashV(a));
}

VH_CHECK(F02, 2500, 40000, "random fields and exact shapes; compared with a naive reference solver, with brute-force distance to the contour, and with neighbours; non-trivial: the outcome does not hinge on ties and was compared with the reference")
{
    Rng& r = c.rng; std::string t; int kind = -1;
    if (c.caseNo % 2) kind = r.coin(0.6) ? F_COSINE : F_NOISE;
    bool exact = c.caseNo % 4 == 0;
    Field f; Shape s;
    if (exact)
    {
        int w = r.i(16, 44), h = r.i(16, 44); largeGrid(c, 248, w, h); s = randomShape(r, w, h, r.i(0, 1));
        if (s.kind == 0) { s.p[2] = std::max(s.p[2], 4.0); t = "disc"; }
        f = sample(s, w, h); t = s.text;
        if (!bothSigns(f)) { c.tag("empty"); return; }
        if (r.coin()) for (double& v : f.v) v *= 1 + 0.3*v*v;         // same zero, other values
        c.tag("%dx%d %s", w, h, t.c_str());
    }
    else f = anyField(c, t, kind);
    std::vector<double> a = r.coin() ? lib(f) : libLevelSet(f);
    RefFmm ref; bool st = stable(r, f, ref);
    if (st)
    {
        double d = maxDiff(a, ref.out.v); c.maxOf("difference from the reference solver", d);
        if (!(d <= 1e-7))
        {
            size_t k = 0; for (size_t i=0;i<a.size();i++) if (!(std::fabs(a[i] - ref.out.v[i]) <= 1e-7)) { k = i; break; }
            return c.fail("upwind-solution", "%zu,%zu: %.12g, reference %.12g (worst difference %.3g)", k % (f.w+1), k / (f.w+1), a[k], ref.out.v[k], d);
        }
        c.count("fields compared with the reference"); c.count("points compared with the reference", a.size());
        c.nontrivial(hashV(a));
    }
    else c.count("fields hinging on ties (bounds only)");
    // Order: every far point lies above its nearest neighbour and below what a single direction would give.
    double worstUp = 0, worstDown = 0, worstJump = 0;
    for (size_t i=0;i<f.n();i++)
    {
        double m = DBL_MAX;
        for (int d=0;d<4;d++)
        {
            int n = ref.nb(i, d); if (n < 0) continue;
            m = std::min(m, std::fabs(a[n]));
            worstJump = std::max(worstJump, std::fabs(a[n] - a[i]));
        }
        if (ref.seeded[i]) continue;
        worstUp = std::max(worstUp, std::fabs(a[i]) - m); worstDown = std::max(worstDown, m - std::fabs(a[i]));
    }
    c.maxOf("rise above nearest neighbour", worstUp); c.maxOf("drop below nearest neighbour", worstDown); c.maxOf("jump between neighbours", worstJump);
    if (!(worstUp <= 1 + 1e-6)) c.fail("order", "a point lies %.9g above its nearest neighbour", worstUp);
    if (!(worstDown <= 1e-9)) c.fail("order", "a point lies %.9g below its nearest neighbour", worstDown);
    if (!(worstJump <= 1 + 1e-6)) c.fail("jump", "neighbouring points differ by %.9g", worstJump);
    // Distance to the contour of the field as given.
    if (f.n() <= 700 || exact)
    {
        std::vector<Seg> ct = simpleContour(f); double over = 0, under = 0;
        for (size_t i=0;i<f.n();i+=f.n() > 5000 ? 7 : 1)
        {
            int x = i % (f.w+1), y = i / (f.w+1);
            double e = std::fabs(a[i]) - contourDist(ct, x, y);
            over = std::max(over, e); under = std::max(under, -e);
        }
        static const char* nm[2][2] = {{"distance error above (any field)", "distance error below (any field)"}, {"distance error above (smooth shape)", "distance error below (smooth shape)"}};
        c.maxOf(nm[exact][0], over); c.maxOf(nm[exact][1], under);
        if (!(over <= (exact ? 0.75 : 0.9)) || !(under <= (exact ? 0.6 : 1.2))) c.fail("distance", "distances off by +%.4g -%.4g from the contour", over, under);
    }
    // Accuracy near whole circles, away from their centres.
    if (exact && s.kind == 0)
    {
        double R = s.p[2], e = 0, sum = 0; long n = 0;
        if (s.p[0] - R < 2 || s.p[1] - R < 2 || s.p[0] + R > f.w - 2 || s.p[1] + R > f.h - 2) return;
        if (maxDiff(f.v, sample(s, f.w, f.h).v) > 0) return;
        for (size_t i=0;i<f.n();i++)
        {
            int x = i % (f.w+1), y = i / (f.w+1); double d = s.sd(x, y);
            if (std::fabs(d) < 0.5*R) { e = std::max(e, std::fabs(a[i] - d)); sum += std::fabs(a[i] - d); n++; }
        }
        if (n == 0) return;
        c.maxOf("greatest error near circles", e); c.maxOf("mean error near circles", sum/n); c.count("circles checked for accuracy");
        if (!(e <= 0.6 && sum/n <= 0.09)) c.fail("accuracy", "distance near a circle of radius %.4g is off by up to %.5g, on average %.5g", R, e, sum/n);
    }
}

VH_CHECK(F03, 3000, 60000, "random fields through all eight symmetries and negation, and sequences of distance and velocity marches on one solver object; non-trivial: outcome does not hinge on ties and all nine images agreed")
{
    Rng& r = c.rng; std::string t; Field f = anyField(c, t, c.caseNo % 3 ? -1 : (int)F_COSINE, 30);
    std::vector<double> a = lib(f);
    RefFmm ref;
    if (stable(r, f, ref))
    {
        double worst = 0;
        Field fa = f; fa.v = a;
        for (int s=0;s<8;s++)
        {
            std::vector<double> b = lib(transformed(f, s));
            double d = maxDiff(b, transformed(fa, s).v); worst = std::max(worst, d);
            if (!(d <= 1e-8)) { c.fail("symmetry", "symmetry %d changes the outcome by %.9g", s, d); break; }
        }
        Field n = f; for (double& v : n.v) v = -v;
        std::vector<double> b = lib(n); for (double& v : b) v = -v;
        double d = maxDiff(a, b); worst = std::max(worst, d);
        if (!(d <= 1e-8)) c.fail("negation", "negating the field changes the outcome by %.9g", d);
        c.maxOf("asymmetry", worst); c.count("images compared", 9);
        c.nontrivial(hashV(a));
    }
    else c.count("fields hinging on ties (reuse only)");
    if (c.failed()) return;
    // One solver object through several jobs.
    Mesh m(f.w, f.h); bool self = r.coin(0.2) && f.n() < 5000;
    for (auto& nd : m.nodes) nd.isActive = true;
    FastMarchingMethod fmm(m, self);
    std::vector<Field> fs{f}; for (int k=r.i(1, 3);k>0;k--) { std::string u; fs.push_back(randomField(r, f.w, f.h, u)); }
    for (int k=0;k<5;k++)
    {
        const Field& g = r.pick(fs);
        std::vector<double> x = g.v, y = g.v;
        if (r.coin(0.7))
        {
            fmm.march(x); FastMarchingMethod fresh(m, false); fresh.march(y);
            double d = maxDiff(x, y);
            if (!(d <= 1e-9)) { c.fail("reuse", "job %d on a used solver differs by %.9g from a new one", k, d); break; }
            if (r.coin(0.3)) { std::vector<double> z = x; fmm.march(z); std::vector<double> q = x; FastMarchingMethod f2(m, false); f2.march(q); d = maxDiff(z, q); if (!(d <= 1e-9)) { c.fail("reuse", "second pass on a used solver differs by %.9g from a new one", d); break; } }
        }
        else
        {
            FastMarchingMethod pre(m, false); pre.march(x); y = x;
            std::vector<double> v1(x.size()); for (double& v : v1) v = r.u(-1, 1); std::vector<double> v2 = v1;
            fmm.march(x, v1); FastMarchingMethod fresh(m, false); fresh.march(y, v2);
            double d = std::max(maxDiff(x, y), maxDiff(v1, v2));
            if (!(d <= 1e-9)) { c.fail("reuse", "velocity job %d on a used solver differs by %.9g from a new one", k, d); break; }
        }
        c.count("jobs on a used solver");
    }
}

VH_CHECK(V01, 5000, 60000, "random level sets with masks, fixed and free rims, band widths and velocity patterns; non-trivial: velocities compared with the reference extension throughout the band")
{
    Rng& r = c.rng; std::string t; int w = r.i(3, 32), h = r.i(3, 32); largeGrid(c, 301, w, h); bool fixed = r.coin(0.35); int bw = c.caseNo % 9 == 4 ? r.i(10, 60) : r.i(3, 9);
    Field f = randomField(r, w, h, t, c.caseNo % 2 ? (int)F_COSINE : -1);
    LevelSet ls(w, h, std::vector<Hole>(), r.u(0.1, 0.9), bw, fixed);
    if (r.coin(0.3)) for (int x=0;x<=w;x++) for (int y=0;y<=h;y++) if (x == 0 || y == 0 || x == w || y == h) f.at(x, y) = std::min(f.at(x, y), 0.0);
    ls.signedDistance = f.v;
    bool masked = false;
    if (r.coin(0.4))
    {
        double x = r.i(-1, w), y = r.i(-1, h); std::vector<Coord> q{Coord(x, y), Coord(x + r.u(1.1, 0.5*w + 1), y + r.u(1.1, 0.5*h + 1))};
        bool left = false; for (unsigned i=0;i<ls.mesh.nNodes;i++) { const Coord& k = ls.mesh.nodes[i].coord; if (f.v[i] >= 0 && !(k.x > q[0].x && k.y > q[0].y && k.x < q[1].x && k.y < q[1].y)) left = true; }
        if (left) { ls.mask(q); for (auto& n : ls.mesh.nodes) masked |= n.isMasked; }
    }
    { Field g = f; g.v = ls.signedDistance; bool ok = bothSigns(g); for (double v : g.v) ok |= v == 0; if (!ok) return; }
    ls.reinitialise();
    c.tag("%dx%d band %d %s%s %s", w, h, bw, fixed ? "fixed" : "free", masked ? " masked" : "", t.c_str());
    Boundary b; b.discretise(ls);
    std::vector<double> sd = ls.signedDistance;
    int mode = r.i(0, 3); double lo = r.u(-1, 0.5), hi = lo + r.u(0, 1), uni = r.u(-1, 1);
    for (auto& p : b.points) p.velocity = mode == 0 ? uni : mode == 1 ? r.u(lo, hi) : mode == 2 ? sin(0.7*p.coord.x + 0.4*p.coord.y) : (r.coin(0.1) ? r.u(-100, 100) : 0);
    std::vector<double> v1(b.points.size()), v2(b.points.size());
    for (size_t i=0;i<b.points.size();i++) v1[i] = b.points[i].velocity;
    if (r.coin(0.3)) for (double& v : ls.velocity) v = r.u(-5, 5);      // leftovers of earlier work
    ls.computeVelocities(b.points);
    for (size_t i=0;i<sd.size();i++) if (memcmp(&sd[i], &ls.signedDistance[i], sizeof(double))) return c.fail("field-changed", "extension changed node %zu from %.17g to %.17g", i, sd[i], ls.signedDistance[i]);
    for (size_t i=0;i<v1.size();i++) if (v1[i] != b.points[i].velocity) return c.fail("points-changed", "extension changed the velocity of point %zu", i);
    std::vector<double> got = ls.velocity;
    // Reference: inverse-square means, then extension in order of distance.
    std::vector<double> want(sd.size(), 0.0); std::vector<char> border(sd.size(), 0), has(sd.size(), 0);
    std::vector<double> pmin(sd.size(), DBL_MAX), pmax(sd.size(), -DBL_MAX);
    std::vector<std::vector<unsigned>> around(sd.size());       // points that may lie within reach of a node
    for (unsigned k=0;k<b.points.size();k++)
    {
        int X = (int)std::floor(b.points[k].coord.x), Y = (int)std::floor(b.points[k].coord.y);
        for (int y=std::max(0, Y-2);y<=std::min(h, Y+3);y++) for (int x=std::max(0, X-2);x<=std::min(w, X+3);x++) around[x + y*(w+1)].push_back(k);
    }
    for (int y=0;y<=h;y++) for (int x=0;x<=w;x++)
    {
        size_t i = x + y*(w+1); double num = 0, den = 0; bool on = false;
        for (unsigned k : around[i])
        {
            const BoundaryPoint& p = b.points[k];
            double dx = x - p.coord.x, dy = y - p.coord.y, q = dx*dx + dy*dy;
            if (q > 1.1 || std::fabs(dx) > 1.1) continue;
            if (q != 1 && std::fabs(q - 1) < 1e-9) border[i] = 1;
            if (q > 1) continue;
            has[i] = 1;
            if (std::fabs(q - 1e-6) < 1e-9) border[i] = 1;
            if (q < 1e-6) { if (on && want[i] != p.velocity) border[i] = 1; on = true; want[i] = p.velocity; }
            pmin[i] = std::min(pmin[i], p.velocity); pmax[i] = std::max(pmax[i], p.velocity);
            num += p.velocity/q; den += 1/q;
        }
        if (!on && den > 0) want[i] = num/den;
        if (on) pmin[i] = pmax[i] = want[i];
    }
    Field g = f; g.v = sd; std::vector<char> act(sd.size());
    for (size_t i=0;i<sd.size();i++) act[i] = ls.mesh.nodes[i].isActive;
    RefFmm ref; ref.in = g; ref.seed();
    bool whole = true; double vmin = DBL_MAX, vmax = -DBL_MAX, big = 1e-300;
    for (double v : v1) { vmin = std::min(vmin, v); vmax = std::max(vmax, v); big = std::max(big, std::fabs(v)); }
    std::vector<char> seeded = ref.seeded;
    for (size_t i=0;i<sd.size();i++)
    {
        if (!seeded[i]) continue;
        if (!has[i]) { whole = false; continue; }
        if (border[i]) { c.count("borderline weights skipped"); continue; }
        if (!(std::fabs(got[i] - want[i]) <= 1e-9*big)) return c.fail("front-velocity", "node (%zu,%zu) next to the interface has %.12g, the weighted mean is %.12g", i % (w+1), i / (w+1), got[i], want[i]);
        c.count("front velocities checked");
    }
    if (!whole) { vmin = std::min(vmin, 0.0); vmax = std::max(vmax, 0.0); }
    bool uniform = mode == 0 && whole;
    if (uniform) c.count("uniform fields kept");
    auto refRun = [&](RefFmm& q, std::vector<double>& v, Rng* jit) { v = want; q.active = &act; q.vel = &v; q.jitter = jit; q.run(g); };
    std::vector<double> e, e2; refRun(ref, e, nullptr);
    for (size_t i=0;i<sd.size();i++)
    {
        if (!act[i] && !seeded[i]) continue;
        if (ref.order[i] < 0) { c.count("points cut off from the interface"); continue; }
        if (!(got[i] >= vmin - 1e-9*big && got[i] <= vmax + 1e-9*big)) return c.fail("range", "node (%zu,%zu): %.9g outside the boundary velocities [%.9g,%.9g]", i % (w+1), i / (w+1), got[i], vmin, vmax);
        if (uniform && !(std::fabs(got[i] - uni) <= 1e-9*big)) return c.fail("uniform", "uniform velocity %.12g became %.12g at (%zu,%zu)", uni, got[i], i % (w+1), i / (w+1));
    }
    bool st = true;
    for (int k=0;k<3;k++) { RefFmm q; refRun(q, e2, &r); for (size_t i=0;i<sd.size();i++) if (act[i] && !(std::fabs(e[i] - e2[i]) <= 1e-8*big)) st = false; }
    for (size_t i=0;i<sd.size();i++) if (border[i] && has[i]) st = false;
    if (st)
    {
        double m = 0; long n = 0;
        for (size_t i=0;i<sd.size();i++) if (act[i] && !seeded[i])
        {
            double d = std::fabs(got[i] - e[i]); m = std::max(m, d/big); n++;
            if (!(d <= 1e-7*big)) return c.fail("extension", "(%zu,%zu) value %.9g: velocity %.12g, reference %.12g", i % (w+1), i / (w+1), sd[i], got[i], e[i]);
        }
        c.maxOf("difference from the reference extension", m); c.count("extended velocities compared", n);
        if (n) c.nontrivial(hashV(got));
    }
    else c.count("extensions hinging on ties");
    // Linearity.
    for (size_t i=0;i<v2.size();i++) b.points[i].velocity = v2[i] = r.u(-1, 1);
    ls.computeVelocities(b.points); std::vector<double> g2 = ls.velocity;
    double k1 = r.u(-2, 2), k2 = r.u(-2, 2);
    for (size_t i=0;i<v2.size();i++) b.points[i].velocity = k1*v1[i] + k2*v2[i];
    ls.computeVelocities(b.points);
    for (size_t i=0;i<sd.size();i++) if (act[i] || seeded[i])
        if (!(std::fabs(ls.velocity[i] - k1*got[i] - k2*g2[i]) <= 1e-8*(1 + big))) { c.fail("linear", "node %zu: %.12g is not the combination %.12g", i, ls.velocity[i], k1*got[i] + k2*g2[i]); break; }
    c.count("linearity checks");
}
