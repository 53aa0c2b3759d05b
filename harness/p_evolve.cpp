// G01 gradients, U01 update rule, U02 motion of the interface, N01 thermal noise.
#include "scene.h"
using namespace slsm; using namespace vh;

namespace
{
    double weno(double a, double b, double c, double d, double e)
    {
        double eps = 1e-6, S1 = 13.0/12*pow(a - 2*b + c, 2) + 0.25*pow(a - 4*b + 3*c, 2), S2 = 13.0/12*pow(b - 2*c + d, 2) + 0.25*pow(b - d, 2), S3 = 13.0/12*pow(c - 2*d + e, 2) + 0.25*pow(3*c - 4*d + e, 2);
        double w1 = 0.1/pow(S1 + eps, 2), w2 = 0.6/pow(S2 + eps, 2), w3 = 0.3/pow(S3 + eps, 2), W = w1 + w2 + w3;
        return (w1*(2*a - 7*b + 11*c) + w2*(-b + 5*c + 2*d) + w3*(2*c + 5*d - e))/6/W;
    }
    // Reference gradient: differences along a line, continued beyond the ends by the last one.
    double refGrad(const Field& f, int x, int y, double vel, bool& close)
    {
        int W = f.w, H = f.h; close = false;
        if ((x == 0 || x == W) && (y == 0 || y == H))
        {
            int ix = x ? x - 1 : 1, iy = y ? y - 1 : 1; double a = std::fabs(f.at(ix, y) - f.at(x, y)), b = std::fabs(f.at(x, iy) - f.at(x, y));
            if (std::fabs(a - 1e-6) < 1e-9 || std::fabs(b - 1e-6) < 1e-9) close = true;
            if (a < 1e-6 && b < 1e-6) return sqrt(2.0)*std::fabs(f.at(ix, iy) - f.at(x, y));
        }
        auto D = [&](int dir, int i) { int n = dir ? H : W; i = std::max(0, std::min(n - 1, i)); return dir ? f.at(x, i+1) - f.at(x, i) : f.at(i+1, y) - f.at(i, y); };
        double sum = 0, sg = vel < 0 ? -1 : 1;
        for (int dir=0;dir<2;dir++)
        {
            int i = dir ? y : x;
            double back = sg*weno(D(dir, i-3), D(dir, i-2), D(dir, i-1), D(dir, i), D(dir, i+1));
            double fore = sg*weno(D(dir, i+2), D(dir, i+1), D(dir, i), D(dir, i-1), D(dir, i-2));
            if (back > 0) sum += back*back;
            if (fore < 0) sum += fore*fore;
        }
        return sqrt(sum);
    }
    // Predicts whether reinitialising is possible (an interface exists).
    bool survives(const Field& f) { return hasInterface(f); }
}

VH_CHECK(G01, 6000, 80000, "raw and reinitialised random fields, linear fields, smooth fields at two resolutions; all band points compared with the documented scheme; non-trivial: a field with at least one band point with non-zero gradient")
{
    Rng& r = c.rng; int mode = c.caseNo % 8; Scene s;
    auto setVel = [&](LevelSet& ls) { int k = r.i(0, 3); double u = r.u(-1, 1); for (double& v : ls.velocity) v = k == 0 ? u : k == 1 ? r.u(-1, 1) : k == 2 ? (r.coin() ? 0 : r.u(-1, 1)) : (r.coin() ? -1e-300 : 1e-300); };
    if (mode == 0)
    {
        // Linear fields: exact everywhere.
        s.w = r.i(4, 16); s.h = r.i(4, 16); largeGrid(c, 200, s.w, s.h); double a = r.u(-1, 1), b = r.coin(0.2) ? 0 : r.u(-1, 1), k = r.u(-8, 8);
        c.tag("%dx%d plane %.6g %.6g %.6g", s.w, s.h, a, b, k);
        LevelSet ls(s.w, s.h, std::vector<Hole>(), 0.5, 1000, false);
        for (int y=0;y<=s.h;y++) for (int x=0;x<=s.w;x++) ls.signedDistance[x + y*(s.w+1)] = a*(x - 0.5*s.w) + b*(y - 0.5*s.h) + k;
        setVel(ls); ls.computeGradients(); double g = hypot(a, b);
        for (unsigned i=0;i<ls.mesh.nNodes;i++) if (!(std::fabs(ls.gradient[i] - g) <= 1e-9*(1 + g))) return c.fail("linear", "gradient %.12g at (%d,%d) of a plane of slope %.12g", ls.gradient[i], i % (s.w+1), i / (s.w+1), g);
        c.count("points of planes", ls.mesh.nNodes); c.nontrivial(hashV(ls.signedDistance)); return;
    }
    if (mode == 1)
    {
        // Smooth monotone fields: high order in the bulk.
        double kx = r.u(0.2, 0.35), ky = r.u(0.2, 0.35), px = r.u(0, 6), py = r.u(0, 6), am = r.u(0.2, 0.6); int w = r.i(16, 24), h = r.i(16, 24); double err[2]; int sg = r.coin() ? 1 : -1;
        c.tag("%dx%d smooth, wavenumbers %.4g %.4g", w, h, kx, ky);
        for (int l=0;l<2;l++)
        {
            int m = 1 << l; double e = 0; LevelSet ls(w*m, h*m, std::vector<Hole>(), 0.5, 1000, false);
            for (int y=0;y<=h*m;y++) for (int x=0;x<=w*m;x++) { double X = x/(double)m, Y = y/(double)m; ls.signedDistance[x + y*(w*m+1)] = X + am*sin(kx*X + px)/kx + 1.2*(Y + am*sin(ky*Y + py)/ky) - 10; }
            for (double& v : ls.velocity) v = sg;
            ls.computeGradients();
            for (int y=3*m;y<=(h-3)*m;y++) for (int x=3*m;x<=(w-3)*m;x++) { double X = x/(double)m, Y = y/(double)m; double want = hypot(1 + am*cos(kx*X + px), 1.2*(1 + am*cos(ky*Y + py))); e = std::max(e, std::fabs(ls.gradient[x + y*(w*m+1)]*m - want)); }
            err[l] = e;
        }
        c.maxOf("bulk error on smooth fields", err[0]); c.maxOf("bulk error at doubled resolution", err[1]); c.maxOf("error ratio (fine/coarse)", err[1]/err[0]);
        if (!(err[0] <= 0.02 && err[1] <= std::max(err[0]/6, 1e-7))) return c.fail("order", "bulk error %.3g, %.3g at twice the resolution", err[0], err[1]);
        c.nontrivial(hashU(c.caseNo, hashD(kx, hashD(ky, hashU(w, 7))))); return;
    }
    largeScene(c, 201);
    for (int t=0;t<20;t++) { if (makeScene(r, s, S_NOTARGET) && s.w > 3 && s.h > 3) break; s.ls.reset(); }
    if (!s.ls || s.w < 4 || s.h < 4) return;
    LevelSet& ls = *s.ls; tagScene(c, s);
    if (mode == 2) { int k = r.i(0, 3); int cx = k & 1 ? s.w : 0, cy = k & 2 ? s.h : 0; double v = ls.signedDistance[cx + cy*(s.w+1)]; ls.signedDistance[(cx ? cx-1 : 1) + cy*(s.w+1)] = v + (r.coin(0.7) ? r.u(-2e-6, 2e-6) : 0); ls.signedDistance[cx + (cy ? cy-1 : 1)*(s.w+1)] = v + (r.coin(0.7) ? r.u(-2e-6, 2e-6) : 0); }
    setVel(ls);
    if (r.coin(0.5)) for (double& g : ls.gradient) g = r.u(-5, 5);
    std::vector<double> sd = ls.signedDistance, vel = ls.velocity;
    ls.computeGradients();
    if (sd != ls.signedDistance || vel != ls.velocity) return c.fail("side-effect", "computing gradients changed the field or the velocities");
    Field f(s.w, s.h); f.v = sd; double m = 0; long n = 0, zero = 0;
    for (int y=0;y<=s.h;y++) for (int x=0;x<=s.w;x++)
    {
        int i = x + y*(s.w+1); double g = ls.gradient[i]; bool close;
        if (!ls.mesh.nodes[i].isActive) { zero++; if (g != 0) return c.fail("outside-band", "gradient %.9g at (%d,%d) outside the band", g, x, y); continue; }
        double want = refGrad(f, x, y, vel[i], close); if (close) { c.count("corners within tolerance of the diagonal rule"); continue; }
        double e = std::fabs(g - want)/(1 + want); m = std::max(m, e); n++;
        if (!(e <= 1e-8)) return c.fail("scheme", "(%d,%d) velocity %.3g: gradient %.12g, scheme gives %.12g", x, y, vel[i], g, want);
        int dx = std::min(x, s.w - x), dy = std::min(y, s.h - y); if (dx < 3 || dy < 3) c.count("points with shortened stencils");
    }
    c.count("band points compared", n); c.count("points outside the band", zero); c.maxOf("difference from the scheme", m);
    std::vector<double> g1 = ls.gradient; ls.computeGradients(); if (g1 != ls.gradient) c.fail("repeat", "a second evaluation differs");
    // Images.
    int sym = r.i(1, 7); Field a = transformed(f, sym), vf(s.w, s.h), gf(s.w, s.h); vf.v = vel; gf.v = g1; Field vt = transformed(vf, sym), gt = transformed(gf, sym);
    if (!s.masked && !s.fixed)
    {
        LevelSet im(a.w, a.h, std::vector<Hole>(), 0.5, 1000, false); im.signedDistance = a.v; im.velocity = vt.v; im.computeGradients();
        std::vector<char> act; Field af(s.w, s.h); for (size_t i=0;i<af.v.size();i++) af.v[i] = ls.mesh.nodes[i].isActive; af = transformed(af, sym);
        for (size_t i=0;i<a.v.size();i++) if (af.v[i] && !(std::fabs(im.gradient[i] - gt.v[i]) <= 1e-8*(1 + gt.v[i]))) { bool cl; refGrad(a, i % (a.w+1), i / (a.w+1), vt.v[i], cl); if (cl) continue; c.fail("symmetry", "image %d: gradient %.12g at (%d,%d), original %.12g", sym, im.gradient[i], (int)i % (a.w+1), (int)i / (a.w+1), gt.v[i]); break; }
        c.count("images compared");
        // Swapping material and void together with the sense of motion.
        LevelSet ng(s.w, s.h, std::vector<Hole>(), 0.5, 1000, false); bool zv = false; for (size_t i=0;i<sd.size();i++) { ng.signedDistance[i] = -sd[i]; ng.velocity[i] = -vel[i]; zv |= vel[i] == 0; }
        if (!zv) { ng.computeGradients(); for (size_t i=0;i<sd.size();i++) if (ls.mesh.nodes[i].isActive && !(std::fabs(ng.gradient[i] - g1[i]) <= 1e-8*(1 + g1[i]))) { c.fail("negation", "negated field: gradient %.12g instead of %.12g", ng.gradient[i], g1[i]); break; } c.count("negations compared"); }
    }
    bool some = false; for (double g : g1) some |= g != 0; if (some) c.nontrivial(hashV(g1, hashV(sd)));
}

VH_CHECK(U01, 3000, 60000, "random histories of updates with computed or arbitrary gradients and velocities; each step predicted point by point; non-trivial: history with at least one step that moved something")
{
    largeScene(c, 200); Rng& r = c.rng; Scene s; if (!makeScene(r, s, S_NOTARGET)) return; tagScene(c, s);
    if (s.raw && r.coin(0.7)) { s.ls.reset(new LevelSet(s.w, s.h, std::vector<Hole>(), s.ml, s.bw, s.fixed)); Field f = randomField(r, s.w, s.h, s.text); s.masked = false; if (!hasInterface(f)) return; s.ls->signedDistance = f.v; s.ls->reinitialise(); tagScene(c, s); }
    LevelSet& ls = *s.ls; int steps = r.i(1, c.thorough ? 24 : 10), re = 0; bool moved = false; uint64_t h = 1;
    bool real = r.coin(0.6) && s.w > 3 && s.h > 3; double dir = r.u(-1, 1);
    for (int k=0;k<steps && !c.failed();k++)
    {
        double dt = r.coin(0.1) ? 0 : r.u(0, 1)*s.ml;
        if (real)
        {
            Boundary b; b.discretise(ls); if (!b.nPoints) return;
            for (auto& p : b.points) p.velocity = r.coin(0.8) ? dir : r.u(-1, 1);
            ls.computeVelocities(b.points); ls.computeGradients();
        }
        else
        {
            double big = r.coin(0.2) ? 12 : 1;
            for (double& v : ls.velocity) v = r.u(-big, big); for (double& g : ls.gradient) g = r.coin(0.1) ? 0 : r.u(0.5, 1.5);
        }
        if (r.coin(0.3)) for (unsigned i=0;i<ls.mesh.nNodes;i++) if (!ls.mesh.nodes[i].isActive) { ls.velocity[i] = r.u(-9, 9); ls.gradient[i] = r.u(0, 2); }
        std::vector<double> sd = ls.signedDistance, want = sd, vel = ls.velocity, gr = ls.gradient; bool trig = false, edge = false;
        for (int y=0;y<=s.h;y++) for (int x=0;x<=s.w;x++)
        {
            int i = x + y*(s.w+1); const Node& q = ls.mesh.nodes[i]; if (!q.isActive) continue;
            want[i] = sd[i] - dt*gr[i]*vel[i];
            if ((x == 0 || y == 0 || x == s.w || y == s.h) && want[i] > 0) want[i] = 0;
            if (q.isMine) { double a = std::fabs(want[i]); if (a < 1) trig = true; if (std::fabs(a - 1) < 1e-9) edge = true; }
        }
        if (edge) { c.count("triggers within rounding skipped"); return; }
        Field wf(s.w, s.h); wf.v = want;
        if (trig && !survives(wf)) { c.count("histories ended by vanishing"); break; }
        LevelSet ref(ls); std::vector<unsigned> band(ls.narrowBand.begin(), ls.narrowBand.begin() + ls.nNarrowBand), mines(ls.mines.begin(), ls.mines.begin() + ls.nMines);
        bool got = ls.update(dt);
        if (got != trig) return c.fail("report", "step %d: reported %d, an early-warning point %s within one cell", k, got, trig ? "is" : "isn't");
        if (vel != ls.velocity || gr != ls.gradient) return c.fail("side-effect", "step %d changed velocities or gradients", k);
        if (!trig)
        {
            for (size_t i=0;i<sd.size();i++)
            {
                bool act = ref.mesh.nodes[i].isActive;
                if (!act && memcmp(&ls.signedDistance[i], &sd[i], 8)) return c.fail("inactive-changed", "step %d: point %zu outside the band went from %.12g to %.12g", k, i, sd[i], ls.signedDistance[i]);
                if (!(std::fabs(ls.signedDistance[i] - want[i]) <= 1e-12*(1 + std::fabs(sd[i]) + std::fabs(dt*gr[i]*vel[i])))) return c.fail("rule", "step %d: point (%zu,%zu) is %.12g, should be %.12g (was %.12g, dt %.6g, gradient %.6g, velocity %.6g)", k, i % (s.w+1), i / (s.w+1), ls.signedDistance[i], want[i], sd[i], dt, gr[i], vel[i]);
                if (ls.signedDistance[i] != sd[i]) moved = true;
            }
            bool same = ls.nNarrowBand == band.size() && ls.nMines == mines.size();
            for (size_t i=0;same && i<band.size();i++) same = band[i] == ls.narrowBand[i];
            for (size_t i=0;same && i<mines.size();i++) same = mines[i] == ls.mines[i];
            for (size_t i=0;same && i<sd.size();i++) same = ref.mesh.nodes[i].isActive == ls.mesh.nodes[i].isActive && ref.mesh.nodes[i].isMine == ls.mesh.nodes[i].isMine;
            if (!same) return c.fail("band-changed", "step %d changed the band without reinitialising", k);
        }
        else
        {
            re++; moved = true;
            ref.signedDistance = want; ref.reinitialise();
            // Last-digit differences in the rule may flip ties in marching: compare where a rounding-level disturbance doesn't matter.
            bool st = true; LevelSet dist(ref); 
            { LevelSet q(ls); q.signedDistance = want; for (double& v : q.signedDistance) if (v != 0) v *= 1 + r.u(-1e-13, 1e-13); q.reinitialise(); for (size_t i=0;i<want.size();i++) if (!(std::fabs(q.signedDistance[i] - ref.signedDistance[i]) <= 1e-9)) st = false; }
            double m = 0; for (size_t i=0;i<want.size();i++) m = std::max(m, std::fabs(ls.signedDistance[i] - ref.signedDistance[i]));
            if (m != 0 && (st ? !(m <= 1e-8) : !(m <= 0.5))) return c.fail("reinitialised", "step %d: after reinitialisation the field differs by %.3g from that of the updated values", k, m);
            if (m == 0)
            {
                bool same = ls.nNarrowBand == ref.nNarrowBand && ls.nMines == ref.nMines;
                for (unsigned i=0;same && i<ref.nNarrowBand;i++) same = ls.narrowBand[i] == ref.narrowBand[i];
                for (size_t i=0;same && i<sd.size();i++) same = ref.mesh.nodes[i].isActive == ls.mesh.nodes[i].isActive && ref.mesh.nodes[i].isMine == ls.mesh.nodes[i].isMine;
                if (!same) return c.fail("band-stale", "step %d: the band wasn't rebuilt after reinitialising", k);
                c.count("reinitialisations compared bit by bit");
            }
        }
        h = hashV(ls.signedDistance, h); c.count("steps predicted");
        if (!hasInterface(wf)) break;
    }
    c.count("steps that reinitialised", re); if (moved) c.nontrivial(h);
}

namespace
{
    double enclosed(LevelSet& ls, Boundary& b) { b.discretise(ls); return ls.computeAreaFractions(b); }
    // Some ridge of the field is less than a cell and a half from the interface: a feature too thin for the grid.
    bool thin(const std::vector<double>& v, int w, int h)
    {
        for (int y=0;y<=h;y++) for (int x=0;x<=w;x++)
        {
            double q = v[x + y*(w+1)]; bool top = std::fabs(q) < 1.5 && q != 0;
            for (int dy=-1;dy<=1 && top;dy++) for (int dx=-1;dx<=1;dx++) { int X = x + dx, Y = y + dy; if (X < 0 || Y < 0 || X > w || Y > h) continue; double o = v[X + Y*(w+1)]; if (o*q > 0 && std::fabs(o) > std::fabs(q)) top = false; }
            if (top) return true;
        }
        return false;
    }
    // An early-warning point, driven by stale values from outside the band, is about to change sign from
    // more than a cell away, past the warning zone: see the known finding.
    std::vector<Coord> astray(const LevelSet& ls, double dt)
    {
        std::vector<Coord> v; for (unsigned i=0;i<ls.nMines;i++) { int n = ls.mines[i]; double s = ls.signedDistance[n], t = s - dt*ls.gradient[n]*ls.velocity[n]; if (std::fabs(s) > 1 && ls.gradient[n] > 1.5 && s*t <= 0) v.push_back(ls.mesh.nodes[n].coord); }
        return v;
    }
    // Cut elements over which the field is far from flat (a corner of the front): the polygon cuts such a
    // corner by up to half an element, and the cut comes and goes as the corner passes a grid point.
    int corners(const std::vector<double>& v, int w, int h)
    {
        int n = 0; for (int y=0;y<h;y++) for (int x=0;x<w;x++) { double a = v[x + y*(w+1)], b = v[x+1 + y*(w+1)], d = v[x + (y+1)*(w+1)], e = v[x+1 + (y+1)*(w+1)]; bool in = a > 0 || b > 0 || d > 0 || e > 0, out = a <= 0 || b <= 0 || d <= 0 || e <= 0; if (in && out && std::fabs(a + e - b - d) > 0.4) n++; }
        return n;
    }
    int loops(const Boundary& b)
    {
        std::vector<int> up(b.points.size()); for (size_t i=0;i<up.size();i++) up[i] = i;
        std::function<int(int)> root = [&](int i) { while (up[i] != i) i = up[i] = up[up[i]]; return i; };
        int n = up.size(); for (auto& s : b.segments) { int p = root(s.start), q = root(s.end); if (p != q) { up[p] = q; n--; } }
        return n;
    }
}

VH_CHECK(U02, 1200, 8000, "discs, half-planes and smooth shapes moved through many steps and reinitialisations; non-trivial: run that moved the interface by at least one cell")
{
    Rng& r = c.rng; int mode = c.caseNo % 6; double ml = r.u(0.2, 0.9); unsigned bw = r.i(3, 8);
    double vmax = r.u(0.2, 2); double dt = std::min(0.9*ml, 0.5)/vmax*r.u(0.3, 1);
    if (mode <= 1)
    {
        // Disc under uniform velocity: stays a disc of the expected radius.
        int w = r.i(40, 60), h = r.i(40, 60); bool solid = mode == 0; double R = r.u(7, 11), cx = w/2.0 + r.u(-2, 2), cy = h/2.0 + r.u(-2, 2); bool grow = r.coin();
        std::unique_ptr<LevelSet> ls;
        if (!solid) { std::vector<Hole> o(1, Hole(cx, cy, R)); ls.reset(new LevelSet(w, h, o, ml, bw, r.coin(0.2))); }
        else { ls.reset(new LevelSet(w, h, std::vector<Hole>(), ml, bw, r.coin(0.2))); for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) ls->signedDistance[x + y*(w+1)] = R - hypot(x - cx, y - cy); }
        ls->reinitialise();
        // velocity acts inwards, into material: a solid disc shrinks under positive velocity, a hole grows
        double v = (solid ? (grow ? -1 : 1) : (grow ? 1 : -1))*vmax;
        double target = grow ? r.u(2, 5) : r.u(1, 3.5), t = 0; int re = 0, n = 0; double prevA = -1, prevL = 0; bool fresh = false;
        // A reinitialisation resets the interface by a hundredth of a cell or so, however short the step.
        auto allowed = [&]() { return fresh ? 0.15 + 0.025/(vmax*dt) : 0.08; };
        bool known = c.caseNo == 0; std::vector<Coord> stray;      // the history of the known finding
        if (known) { w = 53; h = 50; R = 8.728; cx = 27.33; cy = 23.83; ml = 0.9; bw = 7; vmax = 0.492; dt = 0.916; v = -vmax; target = 5; ls.reset(new LevelSet(w, h, std::vector<Hole>(), ml, bw, false)); for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) ls->signedDistance[x + y*(w+1)] = R - hypot(x - cx, y - cy); ls->reinitialise(); grow = true; }
        c.tag("%s disc r %.4g in %dx%d, %s at %.3g, dt %.4g, band %u", solid ? "solid" : "void", R, w, h, grow ? "growing" : "shrinking", vmax, dt, bw);
        while (t*vmax < target)
        {
            Boundary b; b.discretise(*ls); double A = ls->computeAreaFractions(b), e = grow ? R + vmax*t : R - vmax*t;
            double worst = 0, mean = 0; long k = 0;
            for (auto& p : b.points) { double d = hypot(p.coord.x - cx, p.coord.y - cy); if (!solid && (p.coord.x < 2 || p.coord.y < 2 || p.coord.x > w-2 || p.coord.y > h-2)) continue; worst = std::max(worst, std::fabs(d - e)); mean += d - e; k++; }
            if (!k) return c.fail("lost", "the interface vanished at expected radius %.4g after %d steps", e, n);
            mean /= k;
            double drift = 0.2 + 0.012*n + 0.02*re, drift2 = 0.05 + 0.005*n + 0.01*re; c.maxOf("mean radius error per allowance", std::fabs(mean)/drift2);
            c.maxOf("worst radius error", worst); c.maxOf("mean radius error", std::fabs(mean)); c.maxOf("worst radius error per allowance", worst/drift);
            if (!(std::fabs(mean) <= std::min(drift2, 0.2))) return c.fail("mean-radius", "after %d steps (%d reinitialisations) the mean radius is off the expected %.4g by %.4g", n, re, e, mean);
            if (known && !stray.empty() && worst > 0.4)
            {
                bool only = true; for (auto& p : b.points) if (std::fabs(hypot(p.coord.x - cx, p.coord.y - cy) - e) > 0.4) { bool near = false; for (auto& q : stray) near |= hypot(p.coord.x - q.x, p.coord.y - q.y) < 1.1; only &= near; }
                if (only) return c.fail("band-edge-island", "after %d steps spurious material appears around (%g,%g), %.3g from the front", n, stray[0].x, stray[0].y, worst);
            }
            if (!(worst <= std::min(drift, 0.4))) return c.fail("radius", "after %d steps (%d reinitialisations) a boundary point is %.4g off the expected radius %.4g", n, re, worst, e);
            if (prevA >= 0)
            {
                double want = -v*dt*0.5*(prevL + b.length); double err = std::fabs(A - prevA - want)/(vmax*dt*prevL); c.maxOf(fresh ? "relative error of area change per step with reinitialisation" : "relative error of area change per step", err);
                if (!(err <= allowed())) return c.fail("area-rate", "step %d changed the area by %.6g, velocity times length times time gives %.6g", n, A - prevA, want);
            }
            prevA = A; prevL = b.length; if (!solid) { double q = 0; for (auto& sg : b.segments) { auto& p = b.points[sg.start].coord; if (!(p.x < 2 || p.y < 2 || p.x > w-2 || p.y > h-2)) q += sg.length; } prevL = q; }
            (void)solid;
            for (auto& p : b.points) { bool outer = !solid && (p.coord.x < 2 || p.coord.y < 2 || p.coord.x > w-2 || p.coord.y > h-2); p.velocity = outer ? 0 : v; }
            ls->computeVelocities(b.points); ls->computeGradients(); if (known) { auto q = astray(*ls, dt); stray.insert(stray.end(), q.begin(), q.end()); } else if (!astray(*ls, dt).empty()) { c.count("runs ended where the band edge ran astray (known finding)"); break; } fresh = ls->update(dt); if (fresh) re++;
            t += dt; n++; c.count("steps");
            if (!solid) { Boundary q; q.discretise(*ls); double L = 0; for (auto& sg : q.segments) { auto& p = q.points[sg.start].coord; if (!(p.x < 2 || p.y < 2 || p.x > w-2 || p.y > h-2)) L += sg.length; } double A2 = ls->computeAreaFractions(q), want = -v*dt*0.5*(prevL + L), err = std::fabs(A2 - prevA - want)/(vmax*dt*prevL); c.maxOf(fresh ? "relative error of area change per step with reinitialisation" : "relative error of area change per step", err); if (!(err <= allowed())) return c.fail("area-rate", "step %d changed the area by %.6g, velocity times length times time gives %.6g", n, A2 - prevA, want); prevA = -1; }
        }
        c.count("reinitialisations", re); c.nontrivial(hashV(ls->signedDistance)); return;
    }
    if (mode == 2)
    {
        // A straight front moves exactly.
        int w = r.i(24, 44), h = r.i(16, 26); bool flip = r.coin(), tr = r.coin(); double x0 = flip ? w - r.u(5, 8) : r.u(5, 8); if (tr) std::swap(w, h);
        int n = tr ? h : w; LevelSet ls(w, h, std::vector<Hole>(), ml, bw, false);
        // material on the high side (or low side): fronts that advance into material move away from void
        double sg = flip ? -1 : 1; for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) ls.signedDistance[x + y*(w+1)] = sg*((tr ? y : x) - x0);
        ls.reinitialise(); double t = 0; int re = 0, k = 0; c.tag("straight front at %.4g in %dx%d, velocity %.3g, dt %.4g, band %u", x0, w, h, vmax, dt, bw);
        while (t*vmax < 0.4*n)
        {
            Boundary b; b.discretise(ls); double want = x0 + sg*vmax*t; double worst = 0; long np = 0;
            for (auto& p : b.points)
            {
                double a = tr ? p.coord.y : p.coord.x, o = tr ? p.coord.x : p.coord.y, O = tr ? w : h; if (o < 5 || o > O - 5 || std::fabs(a - want) > 3) continue;
                worst = std::max(worst, std::fabs(a - want)); np++;
            }
            if (!np) return c.fail("lost", "the front vanished after %d steps", k);
            c.maxOf("straight front position error", worst);
            if (!(worst <= 0.06)) return c.fail("front", "after %d steps (%d reinitialisations) the front is %.4g off %.4g", k, re, worst, want);
            for (auto& p : b.points) p.velocity = std::fabs((tr ? p.coord.y : p.coord.x) - want) < 1 ? vmax : 0;      // walls rest
            ls.computeVelocities(b.points); ls.computeGradients(); if (ls.update(dt)) re++; t += dt; k++; c.count("steps");
        }
        c.count("reinitialisations", re); c.nontrivial(hashV(ls.signedDistance)); return;
    }
    if (mode == 3)
    {
        // Rest: nothing moves, to the last bit, and repeated reinitialisation doesn't creep.
        Scene s; if (!makeScene(r, s, S_NOTARGET)) return; if (s.w < 4 || s.h < 4) return; tagScene(c, s);
        LevelSet& ls = *s.ls; std::vector<double> sd;
        // Let the rim condition take effect first.
        std::fill(ls.velocity.begin(), ls.velocity.end(), 0.0);
        for (int k=0;;k++) { sd = ls.signedDistance; Field q(s.w, s.h); q.v = sd; for (auto& v : q.v) v = std::min(v, 0.0); if (!hasInterface(q) || k > 6) return; bool u = ls.update(dt); if (!u && sd == ls.signedDistance) break; }
        { Field q(s.w, s.h); q.v = sd; if (!hasInterface(q)) return; }
        for (int k=0;k<10;k++)
        {
            Boundary b; b.discretise(ls); if (!b.nPoints) return; for (auto& p : b.points) p.velocity = 0;
            ls.computeVelocities(b.points); ls.computeGradients(); if (ls.update(dt)) { if (s.raw) return; return c.fail("drift", "an interface at rest triggered a reinitialisation"); }
            for (size_t i=0;i<sd.size();i++) if (ls.signedDistance[i] != sd[i]) return c.fail("rest", "an interface at rest moved: point %zu from %.12g to %.12g", i, sd[i], ls.signedDistance[i]);
            c.count("steps at rest");
        }
        c.nontrivial(hashV(sd)); return;
    }
    if (mode == 4)
    {
        // Translation: velocity u.n moves a disc rigidly.
        int w = r.i(40, 56), h = r.i(40, 56); double R = r.u(6, 9), cx = w/2.0 + r.u(-3, 3), cy = h/2.0 + r.u(-3, 3), a = r.u(0, 6.2831853), ux = vmax*cos(a), uy = vmax*sin(a);
        LevelSet ls(w, h, std::vector<Hole>(), ml, bw, false); bool solid = r.coin(); if (!solid) { std::vector<Hole> o(1, Hole(cx, cy, R)); LevelSet q(w, h, o, ml, bw, false); ls.signedDistance = q.signedDistance; }
        else for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) ls.signedDistance[x + y*(w+1)] = R - hypot(x - cx, y - cy);
        ls.reinitialise(); double t = 0; int n = 0, re = 0, normals = r.coin(); c.tag("%s disc r %.4g in %dx%d carried along (%.3g,%.3g), dt %.4g, band %u", solid ? "solid" : "void", R, w, h, ux, uy, dt, bw);
        while (t*vmax < 5)
        {
            Boundary b; b.discretise(ls); double X = cx + ux*t, Y = cy + uy*t, worst = 0; if (normals) b.computeNormalVectors(ls);
            for (auto& p : b.points)
            {
                bool outer = !solid && (p.coord.x < 2 || p.coord.y < 2 || p.coord.x > w-2 || p.coord.y > h-2); if (outer) { p.velocity = 0; continue; }
                double d = hypot(p.coord.x - X, p.coord.y - Y), nx = (X - p.coord.x)/d, ny = (Y - p.coord.y)/d; if (!solid) { nx = -nx; ny = -ny; }
                if (normals) { nx = p.normal.x; ny = p.normal.y; }
                worst = std::max(worst, std::fabs(d - R)); p.velocity = ux*nx + uy*ny;
            }
            double allow = std::min(0.15 + 0.02*n + 0.04*re, 0.6); c.maxOf("carried disc error", worst); c.maxOf("carried disc error per allowance", worst/allow);
            if (!(worst <= allow)) return c.fail("carried", "after %d steps (%d reinitialisations) a boundary point is %.4g off the carried disc", n, re, worst);
            ls.computeVelocities(b.points); ls.computeGradients(); if (!astray(ls, dt).empty()) { c.count("runs ended where the band edge ran astray (known finding)"); break; } if (ls.update(dt)) re++; t += dt; n++; c.count("steps");
        }
        c.count("reinitialisations", re); c.nontrivial(hashV(ls.signedDistance)); return;
    }
    // Arbitrary smooth shapes: area change per step against velocity integrated over the boundary.
    Scene s; int w = r.i(24, 40), h = r.i(24, 40); Field f(w, h); 
    double a1 = r.u(0, 6), a2 = r.u(0, 6), a3 = r.u(0, 6), k1 = r.u(0.2, 0.4), k2 = r.u(0.2, 0.4), off = r.u(-0.4, 0.4);
    for (int y=0;y<=h;y++) for (int x=0;x<=w;x++) { f.at(x, y) = sin(k1*x + a1) + sin(k2*y + a2) + 0.4*sin(0.2*(x + y) + a3) + off; double d = std::min(std::min(x, y), std::min(w - x, h - y)) - 2.5; f.at(x, y) = std::min(f.at(x, y), 0.35*d); }
    if (!hasInterface(f)) return;
    LevelSet ls(w, h, std::vector<Hole>(), ml, bw, false); ls.signedDistance = f.v; ls.reinitialise();
    c.tag("smooth shape in %dx%d, velocity up to %.3g, dt %.4g", w, h, vmax, dt); double kv = r.u(0, 0.3), pv = r.u(0, 6); int steps = 14, re = 0; double tot = 0, totWant = 0, sumAbs = 0; bool uni = r.coin();
    for (int n=0;n<steps;n++)
    {
        Boundary b; double A = enclosed(ls, b); if (b.length < 20) break; bool slim = thin(ls.signedDistance, w, h); int kinks = corners(ls.signedDistance, w, h);
        bool reachRim = false; for (auto& p : b.points) { double d = std::min(std::min(p.coord.x, p.coord.y), std::min(w - p.coord.x, h - p.coord.y)); if (d < 1.5) reachRim = true; } if (reachRim) break;
        double want = 0, mag = 0; for (auto& p : b.points) { p.velocity = uni ? (pv > 3 ? vmax : -vmax) : vmax*sin(kv*p.coord.x + kv*p.coord.y + pv); want -= p.velocity*p.length*dt; mag += std::fabs(p.velocity)*p.length*dt; }
        ls.computeVelocities(b.points); ls.computeGradients(); if (ls.update(dt)) re++;
        Field q(w, h); q.v = ls.signedDistance; if (!hasInterface(q)) break;
        Boundary b2; double A2 = enclosed(ls, b2); double e = std::fabs(A2 - A - want), allow = 0.2*mag + 15*dt*dt*vmax*vmax + 0.02 + 0.5*std::max(kinks, corners(ls.signedDistance, w, h));
        slim |= thin(ls.signedDistance, w, h); if (!slim && loops(b) == loops(b2)) c.maxOf("area change error per allowance", e/allow); tot += A2 - A; totWant += want; sumAbs += mag; c.count("steps");
        if (slim) { c.count("steps with features thinner than the grid resolves"); continue; }
        if (loops(b) != loops(b2)) { c.count("steps that changed the topology"); continue; }
        if (!(e <= allow)) return c.fail("area-rate", "step %d changed the area by %.6g, velocity over the boundary gives %.6g (allowance %.3g)", n, A2 - A, want, allow);
    }
    if (sumAbs > 0) { c.count("reinitialisations", re); c.nontrivial(hashV(ls.signedDistance)); }
}

VH_CHECK(N01, 2000, 3000, "noise added repeatedly to the points of random boundaries; first moments, per-point strength, shape and independence; non-trivial: at least 2000 draws")
{
    largeScene(c, 100); Rng& r = c.rng; Scene s; bool ok = false; for (int t=0;t<20 && !ok;t++) ok = makeScene(r, s, S_NOTARGET | S_REINIT);
    if (!ok) return; Boundary b; b.discretise(*s.ls); std::vector<BoundaryPoint> pts; for (auto& p : b.points) if (p.length > 1e-9) pts.push_back(p);
    if (pts.size() < 3) return; tagScene(c, s); if (pts.size() > 80) pts.resize(80);
    for (auto& p : pts) { p.velocity = r.u(-1, 1); if (r.coin(0.5)) p.length *= exp(r.u(-3, 3)); }     // lengths are what the caller says they are
    double T = r.coin(0.1) ? 0 : r.coin(0.2) ? pow(10, r.u(-8, 3)) : r.u(0, 0.3), dt0 = r.coin(0.2) ? pow(10, r.u(-6, 2)) : r.u(0.01, 1); unsigned seed = r.next();
    double lim = 0.5*s.ml, typ = sqrt(2*T*dt0); bool edge = std::fabs(typ - lim) < 1e-9;
    if (c.caseNo % 10 == 0 && T > 0) { T = 0.5*lim*lim/dt0*(r.coin() ? 1 + 1e-6 : 1 - 1e-6); typ = sqrt(2*T*dt0); edge = false; }
    MersenneTwister g, g2, g3; g.setSeed(seed); g2.setSeed(seed); g3.setSeed(seed + 1); std::vector<double> sd = s.ls->signedDistance; LevelSet ref(*s.ls);
    // One call looked at closely.
    std::vector<BoundaryPoint> a = pts, a2 = pts, a3 = pts; double dt = dt0, dt2 = dt0, dt3 = dt0;
    double k = s.ls->computeVelocities(a, dt, T, g);
    if (sd != s.ls->signedDistance) return c.fail("field", "adding noise changed the level set");
    if (!edge)
    {
        if (typ <= lim) { if (k != 1 || dt != dt0) return c.fail("needless-scaling", "typical noise %.6g within %.6g but factor %.9g, time step %.9g -> %.9g", typ, lim, k, dt0, dt); c.count("time steps kept"); }
        else
        {
            if (!(std::fabs(dt*k - dt0) <= 1e-12*dt0)) return c.fail("factor", "time step %.12g -> %.12g with factor %.12g", dt0, dt, k);
            if (!(std::fabs(sqrt(2*T*dt) - lim) <= 1e-9*lim)) return c.fail("limit", "after scaling typical noise is %.12g, limit %.12g", sqrt(2*T*dt), lim);
            if (!(k >= 1)) return c.fail("factor", "factor %.12g", k);
            c.count("time steps scaled");
        }
    }
    for (size_t i=0;i<a.size();i++)
    {
        if (!std::isfinite(a[i].velocity)) return c.fail("finite", "noise %.6g", a[i].velocity);
        if (a[i].coord.x != pts[i].coord.x || a[i].coord.y != pts[i].coord.y || a[i].length != pts[i].length) return c.fail("points", "adding noise changed point %zu", i);
        if (T == 0 && a[i].velocity != pts[i].velocity) return c.fail("cold", "temperature zero changed a velocity from %.12g to %.12g", pts[i].velocity, a[i].velocity);
    }
    if (!(k > 0)) return c.fail("factor", "factor %.12g", k);
    // The extension is the one of the noisy velocities.
    ref.computeVelocities(a); for (size_t i=0;i<sd.size();i++) if (!(std::fabs(ref.velocity[i] - s.ls->velocity[i]) <= 1e-12*(1 + std::fabs(ref.velocity[i])))) return c.fail("extension", "extended velocity %.12g at point %zu, extending the noisy velocities gives %.12g", s.ls->velocity[i], i, ref.velocity[i]);
    // Same generator state, same noise; another seed, other noise.
    s.ls->computeVelocities(a2, dt2, T, g2); bool same = true, differ = false; for (size_t i=0;i<a.size();i++) if (a[i].velocity != a2[i].velocity) same = false;
    if (!same || dt != dt2) return c.fail("generator", "two generators in the same state give different noise");
    s.ls->computeVelocities(a3, dt3, T, g3); for (size_t i=0;i<a.size();i++) if (a[i].velocity != a3[i].velocity) differ = true;
    if (T > 1e-9 && !differ) return c.fail("generator", "noise doesn't depend on the generator");
    if (T == 0) { c.count("cold runs"); c.nontrivial(hashU(seed, 5)); return; }
    // Statistics. dt is now within the limit, so later calls leave it alone.
    size_t n = pts.size(); int calls = std::max(60, (int)(6000/n)); std::vector<double> s2(n, 0), s1(n, 0); double m1 = 0, m2 = 0, m4 = 0, nb = 0, tc = 0, worst = 0; long N = 0; std::vector<double> prev(n, 0);
    // Every other call is asked for the long step again if that had to be shortened.
    double dtn = dt*(1 - 1e-9); long over = 0, shortened = 0;
    LevelSet tiny(4, 4, std::vector<Hole>(1, Hole(2, 2, 1.2)), s.ml, 6, false); std::vector<BoundaryPoint> q = pts;
    for (auto& p : q) { p.coord.x = 2; p.coord.y = 0.8; p.velocity = 0; }
    tiny.reinitialise();
    for (int cidx=0;cidx<calls;cidx++)
    {
        bool full = k != 1 && !edge && cidx % 2;
        for (auto& p : q) p.velocity = 0; double d = full ? dt0 : dtn; double kk = tiny.computeVelocities(q, d, T, g); if (!full && (kk != 1 || d != dtn)) return c.fail("needless-scaling", "factor %.12g at the limit", kk);
        if (full && (kk != k || d != dt)) return c.fail("factor", "factor %.12g, earlier %.12g", kk, k);
        double last = 0, scale = sqrt(2*T/d); shortened += full;
        for (size_t i=0;i<n;i++)
        {
            double z = q[i].velocity*sqrt(q[i].length)/scale; s1[i] += z; s2[i] += z*z; m1 += z; m2 += z*z; m4 += z*z*z*z; N++; worst = std::max(worst, std::fabs(z)); over += std::fabs(z) > 1;
            if (i) nb += z*last; if (cidx) tc += z*prev[i]; last = z; prev[i] = z;
        }
    }
    double q5 = 7.0; // standard deviations
    double e1 = m1/sqrt(N), e2 = (m2/N - 1)*sqrt(N/2.0), enb = nb/sqrt(N), etc = tc/sqrt(N), e4 = (m4/N - 3)*sqrt(N/96.0), eo = (over/(double)N - 0.31731)*sqrt(N/(0.31731*0.68269));
    c.maxOf("mean, in standard errors", std::fabs(e1)); c.maxOf("variance, in standard errors", std::fabs(e2)); c.maxOf("neighbour correlation, in standard errors", std::fabs(enb)); c.maxOf("time correlation, in standard errors", std::fabs(etc)); c.maxOf("fourth moment, in standard errors", std::fabs(e4)); c.maxOf("largest draw", worst);
    if (!(std::fabs(e1) < q5)) return c.fail("mean", "mean noise %.6g of its strength over %ld draws", m1/N, N);
    if (!(std::fabs(e2) < q5)) return c.fail("variance", "noise variance is %.6g times 2T/(dt length) over %ld draws", m2/N, N);
    if (!(std::fabs(enb) < q5)) return c.fail("independence", "correlation %.4g between points", nb/N);
    if (!(std::fabs(etc) < q5)) return c.fail("independence", "correlation %.4g between calls", tc/N);
    if (!(std::fabs(e4) < 3*q5) || !(std::fabs(eo) < q5)) return c.fail("shape", "fourth moment %.4g, %.4g beyond one deviation", m4/N, over/(double)N);
    for (size_t i=0;i<n;i++)
    {
        double v = s2[i]/calls, lo = 1 - 7*sqrt(2.0/calls), hi = 1 + 10*sqrt(2.0/calls);
        if (!(v < hi && (lo <= 0 || v > lo))) return c.fail("strength", "point of length %.4g: noise variance %.4g times 2T/(dt length) over %d draws", q[i].length, v, calls);
    }
    c.count("draws", N); c.count("shortened steps among the statistics", shortened); if (N >= 2000) c.nontrivial(hashD(m2, hashU(seed, 3)));
}
