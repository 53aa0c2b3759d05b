// S01, S02: finite-difference sensitivities and the Ito correction.
#include "vh.h"
#include "scene.h"
#include <set>
using namespace vh;
using namespace slsm;

namespace
{
    typedef long double ld;
    // Everything a boundary point carries, for bitwise comparison.
    struct Snap
    {
        std::vector<double> d; std::vector<unsigned> u;
        static Snap of(const BoundaryPoint& p, bool coord = true, bool sens = true)
        {
            Snap s;
            if (coord) { s.d.push_back(p.coord.x); s.d.push_back(p.coord.y); }
            s.d.push_back(p.normal.x); s.d.push_back(p.normal.y); s.d.push_back(p.length); s.d.push_back(p.velocity); s.d.push_back(p.negativeLimit); s.d.push_back(p.positiveLimit);
            if (sens) for (double v : p.sensitivities) s.d.push_back(v);
            s.u.push_back(p.isDomain); s.u.push_back(p.isFixed); s.u.push_back(p.nSegments); s.u.push_back(p.nNeighbours);
            for (unsigned v : p.segments) s.u.push_back(v);
            for (unsigned v : p.neighbours) s.u.push_back(v);
            return s;
        }
        bool same(const Snap& o) const
        { return u == o.u && d.size() == o.d.size() && (d.empty() || !memcmp(d.data(), o.d.data(), d.size()*sizeof(double))); }
    };

    struct Fun { std::function<double(double, double)> f; int degree; std::string text; std::function<double(double, double, double, double)> slope; double scale; };
    // Random test function with its directional derivative.
    Fun randomFun(Rng& r, double cx, double cy)
    {
        Fun F; char b[160]; int k = r.i(0, 6); double S = r.coin(0.3) ? pow(10, r.u(-6, 6)) : 1; F.scale = S;
        double a[10]; for (double& v : a) v = r.u(-2, 2)*S;
        double ox = r.coin(0.5) ? cx : 0, oy = r.coin(0.5) ? cy : 0;
        if (k <= 2)
        {
            int deg = k; for (int i=0;i<6;i++) { int dg = i == 0 ? 0 : i < 3 ? 1 : 2; if (dg > deg) a[i] = 0; }
            std::vector<double> A(a, a + 6);
            F.f = [A, ox, oy](double x, double y) { x -= ox; y -= oy; return A[0] + A[1]*x + A[2]*y + A[3]*x*x + A[4]*x*y + A[5]*y*y; };
            F.slope = [A, ox, oy](double x, double y, double nx, double ny) { x -= ox; y -= oy; return (A[1] + 2*A[3]*x + A[4]*y)*nx + (A[2] + A[4]*x + 2*A[5]*y)*ny; };
            F.degree = deg; snprintf(b, sizeof b, "polynomial of degree %d, scale %.3g", deg, S);
        }
        else if (k <= 4)
        {
            double kx = r.u(-1.5, 1.5), ky = r.u(-1.5, 1.5), ph = r.u(0, 6.3), am = S;
            F.f = [=](double x, double y) { return am*sin(kx*x + ky*y + ph); };
            F.slope = [=](double x, double y, double nx, double ny) { return am*cos(kx*x + ky*y + ph)*(kx*nx + ky*ny); };
            F.degree = -1; snprintf(b, sizeof b, "wave, scale %.3g", S);
        }
        else if (k == 5)
        {
            double qx = r.u(-3, 3), qy = r.u(-3, 3), am = S;
            F.f = [=](double x, double y) { return am*exp(0.1*(qx*(x - cx) + qy*(y - cy))); };
            F.slope = [=](double x, double y, double nx, double ny) { return am*exp(0.1*(qx*(x - cx) + qy*(y - cy)))*0.1*(qx*nx + qy*ny); };
            F.degree = -1; snprintf(b, sizeof b, "exponential, scale %.3g", S);
        }
        else
        {
            double t = r.u(-1, 1)*S, am = S*r.u(0.5, 2);
            F.f = [=](double x, double y) { return x*0.6 + y*0.8 > cx*0.6 + cy*0.8 ? am : t; };
            F.degree = -2; snprintf(b, sizeof b, "step function, scale %.3g", S);
        }
        F.text = b; return F;
    }
}

VH_CHECK(S01, 12000, 80000, "a case counts when at least one sensitivity of a non-constant function was compared; identified by functions, points and steps")
{
    // Points of a real boundary or made up.
    std::vector<BoundaryPoint> pts; Boundary bd; Scene s; std::string where;
    if (c.rng.coin(0.5))
    {
        if (!makeScene(c.rng, s, S_SMALL)) return;
        bd.discretise(*s.ls, s.target); bd.computeNormalVectors(*s.ls); pts = bd.points; where = s.text;
    }
    else
    {
        int n = c.rng.i(1, 6);
        for (int i=0;i<n;i++)
        {
            BoundaryPoint p; double a = c.rng.coin(0.2) ? c.rng.i(0, 3)*1.5707963267948966 : c.rng.u(0, 6.3);
            p.coord = Coord(c.rng.u(0, 300), c.rng.u(0, 300)); p.normal = Coord(cos(a), sin(a)); p.length = c.rng.coin(0.2) ? pow(10, c.rng.u(-6, 3)) : c.rng.u(0.05, 2);
            p.velocity = c.rng.u(-1, 1); p.negativeLimit = -c.rng.u(0, 1); p.positiveLimit = c.rng.u(0, 1); p.isDomain = c.rng.coin(); p.isFixed = c.rng.coin();
            p.nSegments = p.nNeighbours = 0;
            for (double& v : p.sensitivities) v = c.rng.u(-5, 5);
            pts.push_back(p);
        }
        where = "made-up points";
    }
    bool def = c.rng.coin(0.2); double delta = def ? 1e-4 : c.rng.coin(0.3) ? pow(10, c.rng.u(-7, -1)) : c.rng.pick(std::vector<double>{1e-4, 1e-3, 1e-2, 0.1, 0.5, 0.25});
    Sensitivity sensitivity = def ? Sensitivity() : Sensitivity(delta);
    c.tag("%s, %zu points, step %.6g%s", where.c_str(), pts.size(), delta, def ? " (default)" : "");
    uint64_t h = hashD(delta, 7); bool any = false;
    size_t most = std::min<size_t>(pts.size(), 12);
    std::vector<Snap> before; for (auto& p : pts) before.push_back(Snap::of(p));
    for (size_t j=0;j<most;j++)
    {
        size_t k = pts.size() <= most ? j : (size_t)c.rng.i(0, (int)pts.size() - 1);
        BoundaryPoint& p = pts[k];
        if (!(p.length > 1e-9) || !std::isfinite(p.normal.x) || !std::isfinite(p.normal.y)) { c.count("skipped: point without length"); continue; }
        double cx = p.coord.x, cy = p.coord.y, nx = p.normal.x, ny = p.normal.y, len = p.length;
        Fun F = randomFun(c.rng, cx, cy); bool plainBits = c.rng.coin(0.05); double special = c.rng.coin() ? INFINITY : NAN;
        Snap rest = Snap::of(p, false);
        long calls = 0; bool strange = false, hitP = false, hitM = false, other = false; double fp = 0, fm = 0, sx = 0, sy = 0;
        double tolx = 8*DBL_EPSILON*(std::fabs(cx) + delta), toly = 8*DBL_EPSILON*(std::fabs(cy) + delta);
        SensitivityCallback cb = [&](const BoundaryPoint& q) -> double
        {
            calls++;
            if (!Snap::of(q, false).same(rest)) other = true;
            double v = plainBits ? special : F.f(q.coord.x, q.coord.y);
            bool P = std::fabs(q.coord.x - (cx + delta*nx)) <= tolx && std::fabs(q.coord.y - (cy + delta*ny)) <= toly;
            bool M = std::fabs(q.coord.x - (cx - delta*nx)) <= tolx && std::fabs(q.coord.y - (cy - delta*ny)) <= toly;
            if (P) { hitP = true; fp = v; } if (M) { hitM = true; fm = v; }
            if (!P && !M) { strange = true; sx = q.coord.x; sy = q.coord.y; }
            return v;
        };
        double got = sensitivity.computeSensitivity(p, cb);
        if (strange) return c.fail("position", "point (%.9g,%.9g) normal (%.9g,%.9g) step %.9g: evaluated at (%.12g,%.12g)", cx, cy, nx, ny, delta, sx, sy);
        if (!hitP || !hitM) return c.fail("position", "function not evaluated on both sides (%ld evaluations)", calls);
        if (calls != 2) return c.fail("evaluations", "%ld evaluations of the function", calls);
        if (other) return c.fail("state", "the function saw a point with other fields changed");
        for (size_t i=0;i<pts.size();i++) if (!Snap::of(pts[i]).same(before[i])) return c.fail("trace", "point %zu differs after the sensitivity of point %zu: (%.17g,%.17g), was (%.17g,%.17g)", i, k, pts[i].coord.x, pts[i].coord.y, before[i].d[0], before[i].d[1]);
        if (plainBits) { if (std::isfinite(got)) return c.fail("special", "function value %g gives sensitivity %g", special, got); c.count("special function values"); continue; }
        // Central difference of what the function returned.
        ld want = ((ld)fp - (ld)fm)/(2*(ld)delta)/(ld)len;
        double tol = 8*DBL_EPSILON*(double)fabsl(want) + 2*DBL_EPSILON*(std::fabs(fp) + std::fabs(fm))/(2*delta)/len*0.51;
        if (!(std::fabs(got - (double)want) <= tol)) return c.fail("quotient", "%s: sensitivity %.12g, central difference per unit length %.12g (length %.6g, step %.6g)", F.text.c_str(), got, (double)want, len, delta);
        // The analytic derivative.
        if (F.degree > -2)
        {
            double d = F.slope(cx, cy, nx, ny)/len, mag = std::max(std::fabs(fp), std::fabs(fm)) + F.scale*(1 + cx*cx + cy*cy)*2;
            double round = (40*DBL_EPSILON*mag/delta)/len, trunc = F.degree >= 0 ? 0 : delta*delta/6*F.scale*12/len*std::max(1.0, std::fabs(fp)/F.scale)*std::max(1.0, pow(hypot(nx, ny), 3));
            if (!(std::fabs(got - d) <= round + trunc + 1e-12*std::fabs(d))) return c.fail("derivative", "%s: sensitivity %.12g, derivative per unit length %.12g, allowance %.3g", F.text.c_str(), got, d, round + trunc);
            if (d != 0) any = true;
        }
        h = hashD(got, h); c.count("sensitivities"); c.maxOf("largest sensitivity", std::fabs(got));
    }
    if (any) c.nontrivial(h);
}

// Independent Ito term from positions alone.
static double itoTerm(const std::vector<BoundaryPoint>& pts, size_t k, double delta, double T, double* curv, double* tol)
{
    const BoundaryPoint& p = pts[k]; ld per[2];
    for (int s=0;s<2;s++)
    {
        ld sg = s ? -1 : 1, x = (ld)p.coord.x + sg*delta*(ld)p.normal.x, y = (ld)p.coord.y + sg*delta*(ld)p.normal.y; per[s] = 0;
        for (unsigned i=0;i<p.nNeighbours;i++) { const Coord& q = pts[p.neighbours[i]].coord; per[s] += hypotl(x - q.x, y - q.y); }
    }
    ld cu = (per[0] - per[1])/(2*(ld)delta)/p.length;
    if (curv) *curv = (double)cu;
    // rounding of the displaced position and the root, per evaluation
    if (tol) *tol = T/(2*p.length)*(8*DBL_EPSILON*((double)per[0] + std::fabs(p.coord.x) + std::fabs(p.coord.y) + 1)*std::max(1u, p.nNeighbours)/delta/p.length);
    return (double)(T*cu/(2*(ld)p.length));
}

VH_CHECK(S02, 5000, 30000, "a case counts when at least one point received a correction; identified by the corrections")
{
    Scene s; double R = 0, cx = 0, cy = 0; bool solid = false, circle = c.rng.coin(0.3);
    if (circle)
    {
        int n = c.rng.i(14, 40); R = c.rng.u(4, 0.38*n); cx = n/2.0 + c.rng.u(-1, 1); cy = n/2.0 + c.rng.u(-1, 1); solid = c.rng.coin();
        Field f(n, n); for (int y=0;y<=n;y++) for (int x=0;x<=n;x++) f.at(x, y) = (solid ? 1 : -1)*(R - hypot(x - cx, y - cy));
        s.w = s.h = n; s.fixed = s.target = s.masked = s.raw = false; s.ml = 0.5; s.bw = 6; s.text = solid ? "solid disc" : "void disc";
        s.ls.reset(new LevelSet(n, n, std::vector<Hole>(), 0.5, 1000, false)); s.ls->signedDistance = f.v;
    }
    else if (largeScene(c, 200), !makeScene(c.rng, s, S_NOTARGET)) return;
    Boundary bd; bd.discretise(*s.ls, false);
    double delta = c.rng.pick(std::vector<double>{1e-4, 1e-4, 1e-3, 1e-2, 1e-5}); Sensitivity sensitivity(delta);
    double T = c.rng.coin(0.1) ? 0 : c.rng.coin(0.3) ? pow(10, c.rng.u(-8, 3)) : c.rng.u(0, 0.5);
    int nS = c.rng.i(1, 5);
    for (auto& p : bd.points) { p.sensitivities.assign(nS, 0); for (double& v : p.sensitivities) v = c.rng.coin(0.1) ? 0 : c.rng.u(-3, 3); p.velocity = c.rng.u(-1, 1); }
    if (circle) tagScene(c, s); else tagScene(c, s);
    c.tag("%dx%d %s temperature %.6g step %.3g, %d functions, %zu points%s", s.w, s.h, s.text.c_str(), T, delta, nS, bd.points.size(), circle ? "" : s.masked ? " masked" : "");
    std::vector<double> sd = s.ls->signedDistance;
    Boundary b1 = bd, b2 = bd, b3 = bd, b4 = bd;
    b2.computeNormalVectors(*s.ls);
    std::vector<BoundaryPoint> orig = b2.points;
    sensitivity.itoCorrection(b1, *s.ls, T);
    sensitivity.itoCorrection(b2, T);
    if (s.ls->signedDistance != sd) return c.fail("field", "the correction changed the level set");
    for (Boundary* b : {&b1, &b2})
    {
        if (b->points.size() != orig.size() || b->segments.size() != bd.segments.size() || b->nPoints != bd.nPoints || b->nSegments != bd.nSegments) return c.fail("connectivity", "the correction changed the numbers of points or segments");
        for (size_t i=0;i<bd.segments.size();i++)
            if (b->segments[i].start != bd.segments[i].start || b->segments[i].end != bd.segments[i].end || b->segments[i].element != bd.segments[i].element || b->segments[i].length != bd.segments[i].length || b->segments[i].weight != bd.segments[i].weight)
                return c.fail("connectivity", "the correction changed segment %zu", i);
    }
    uint64_t h = hashD(T, 3); bool any = false; ld sumK = 0, sumL = 0; double kmin = 1e300, kmax = -1e300;
    for (size_t i=0;i<orig.size();i++)
    {
        const BoundaryPoint &o = orig[i], &p = b1.points[i], &q = b2.points[i];
        bool usable = o.length > 1e-7 && std::isfinite(o.normal.x);
        if (T == 0)
        {
            // Nothing at all may change, normals included.
            if (!Snap::of(p).same(Snap::of(bd.points[i])) || !Snap::of(q).same(Snap::of(o))) return c.fail("cold", "temperature zero changed point %zu", i);
            continue;
        }
        if (!Snap::of(p, true, false).same(Snap::of(o, true, false))) return c.fail("trace", "point %zu at (%.12g,%.12g) changed (normals supplied by the correction)", i, o.coord.x, o.coord.y);
        if (!Snap::of(q, true, false).same(Snap::of(o, true, false))) return c.fail("trace", "point %zu at (%.12g,%.12g) changed (normals precomputed)", i, o.coord.x, o.coord.y);
        if (p.sensitivities.size() != (size_t)nS || q.sensitivities.size() != (size_t)nS) return c.fail("sensitivities", "number of sensitivities changed at point %zu", i);
        for (int k=1;k<nS;k++) if (p.sensitivities[k] != o.sensitivities[k] || q.sensitivities[k] != o.sensitivities[k]) return c.fail("constraints", "constraint sensitivity %d of point %zu changed from %.12g to %.12g", k, i, o.sensitivities[k], p.sensitivities[k]);
        if (!usable) { c.count("skipped: point without length"); continue; }
        double curv, tol, term = itoTerm(orig, i, delta, T, &curv, &tol);
        double lim = tol + 1e-9*std::fabs(term) + 4*DBL_EPSILON*std::fabs(o.sensitivities[0]);
        double d1 = o.sensitivities[0] - p.sensitivities[0], d2 = o.sensitivities[0] - q.sensitivities[0];
        c.maxOf("largest deviation over its allowance", std::fabs(d1 - term)/lim);
        if (!(std::fabs(d1 - term) <= lim)) return c.fail("term", "point %zu: correction %.12g, T x perimeter derivative / (2 length) is %.12g (T %.6g, curvature %.9g, length %.9g, allowance %.3g)", i, d1, term, T, curv, o.length, lim);
        if (p.sensitivities[0] != q.sensitivities[0] && !(std::fabs(d1 - d2) <= lim)) return c.fail("overloads", "point %zu: correction %.12g with normals computed inside, %.12g with precomputed ones", i, d1, d2);
        if (std::fabs(term) > 10*tol) { any = true; c.count("corrections"); } h = hashD(d1, h);
        sumK += curv*o.length; sumL += o.length; kmin = std::min(kmin, curv); kmax = std::max(kmax, curv);
    }
    if (T == 0) { c.count("cold runs"); c.nontrivial(hashU(c.caseNo, 4)); return; }
    // Linear in temperature.
    double k = c.rng.u(0.2, 4); b3.computeNormalVectors(*s.ls); sensitivity.itoCorrection(b3, k*T);
    for (size_t i=0;i<orig.size();i++)
    {
        if (!(orig[i].length > 1e-7)) continue;
        double d1 = orig[i].sensitivities[0] - b2.points[i].sensitivities[0], d3 = orig[i].sensitivities[0] - b3.points[i].sensitivities[0];
        if (!(std::fabs(d3 - k*d1) <= 1e-10*(std::fabs(d3) + std::fabs(k*d1)) + 8*DBL_EPSILON*(1 + k)*std::fabs(orig[i].sensitivities[0]))) return c.fail("linear", "temperature %.6g corrects by %.12g, %.6g by %.12g", T, d1, k*T, d3);
    }
    // Applied one after the other, two corrections add up.
    sensitivity.itoCorrection(b2, k*T);
    for (size_t i=0;i<orig.size();i++)
    {
        if (!(orig[i].length > 1e-7)) continue;
        double a = b2.points[i].sensitivities[0], w = b1.points[i].sensitivities[0] + b3.points[i].sensitivities[0] - orig[i].sensitivities[0];
        if (!(std::fabs(a - w) <= 1e-9*(std::fabs(a) + std::fabs(w) + std::fabs(orig[i].sensitivities[0]) + std::fabs(b1.points[i].sensitivities[0])))) return c.fail("additive", "two corrections give %.12g, their sum is %.12g", a, w);
    }
    if (circle)
    {
        // Normals point into the material: curvature of a solid disc is negative, of a void positive.
        double sg = solid ? -1 : 1, total = (double)sumK*sg, mean = (double)(sumK/sumL)*sg;
        c.maxOf("circle: total turning off 2 pi", std::fabs(total/6.283185307179586 - 1)); c.maxOf("circle: mean curvature x radius off one", std::fabs(mean*R - 1));
        if (!(std::fabs(total/6.283185307179586 - 1) < 0.02)) return c.fail("circle-total", "radius %.6g: total curvature is %.6g, expected %.6g", R, (double)sumK, sg*6.2831853);
        if (!(std::fabs(mean*R - 1) < 0.05)) return c.fail("circle-mean", "radius %.6g: mean curvature %.6g", R, mean*sg);
        c.count("circles");
    }
    if (any) c.nontrivial(h);
}
