// B01 connectivity, B02 geometry, B03 area fractions, B04 normals, B05 limits and flags.
#include "scene.h"
#include <set>
using namespace slsm; using namespace vh;

struct Got { Boundary b; RefBoundary ref; Field f; std::vector<char> live; bool undecided = false; };

static bool prepare(Ctx& c, Scene& s, Got& g, int flags = 0, int kind = -1)
{
    largeScene(c, 400);
    if (!makeScene(c.rng, s, flags, kind)) { c.tag("%s", s.text.c_str()); c.count("scenes without interface"); return false; }
    tagScene(c, s);
    g.f = s.field(); g.live = s.live(); g.ref.build(g.f, g.live);
    if (g.ref.tight) { c.count("scenes crossing within tolerance of a grid point (left out)"); return false; }
    // Where the corners of a saddle add up to nothing the library may take either side, but everything must follow that choice.
    std::map<int, bool> pick; for (size_t e=0;e<g.ref.cells.size();e++) if (g.ref.cells[e].ambiguous) pick[e] = true;
    if (!pick.empty())
    {
        g.ref.build(g.f, g.live, pick);
        Boundary t; t.discretise(*s.ls, s.target);
        for (auto& q : t.segments)
        {
            if (!pick.count(q.element) || q.start >= t.points.size() || q.end >= t.points.size()) continue;
            const Coord &a = t.points[q.start].coord, &e = t.points[q.end].coord; bool found = false, rv;
            for (auto& r : g.ref.cells[q.element].segs) found |= sameSeg(r, a.x, a.y, e.x, e.y, 1e-9, rv);
            if (!found) pick[q.element] = false;
        }
        g.ref.build(g.f, g.live, pick); g.undecided = true; c.count("undecided saddles", pick.size());
    }
    return true;
}
static uint64_t hashB(const Boundary& b)
{
    uint64_t h = 1469598103934665603ULL;
    for (auto& p : b.points) { h = hashD(p.coord.x, h); h = hashD(p.coord.y, h); }
    for (auto& q : b.segments) { h = hashU(q.start, h); h = hashU(q.end, h); }
    return h;
}
static bool rim(const Scene& s, const Coord& p) { return p.x < 1e-6 || p.y < 1e-6 || p.x > s.w - 1e-6 || p.y > s.h - 1e-6; }

// Orientation of every library segment taken from the reference; false if some segment has no counterpart.
static bool orient(Ctx& c, const Scene& s, const Got& g, std::vector<char>& rev, std::vector<char>& skip)
{
    rev.assign(g.b.segments.size(), 0); skip.assign(g.b.segments.size(), 0);
    std::map<unsigned, std::vector<char>> used;
    for (size_t k=0;k<g.b.segments.size();k++)
    {
        const BoundarySegment& q = g.b.segments[k];
        if (q.element >= s.ls->mesh.nElements || q.start >= g.b.points.size() || q.end >= g.b.points.size()) { c.fail("segment-range", "segment %zu refers to points %u,%u element %u", k, q.start, q.end, q.element); return false; }
        const RefCell& rc = g.ref.cells[q.element];
        if (rc.hard) { skip[k] = 1; continue; }
        auto& u = used[q.element]; if (u.empty()) u.assign(rc.segs.size() + 1, 0);
        const Coord &a = g.b.points[q.start].coord, &e = g.b.points[q.end].coord; bool found = false;
        for (size_t m=0;m<rc.segs.size() && !found;m++) { bool rv; if (!u[m] && sameSeg(rc.segs[m], a.x, a.y, e.x, e.y, 1e-9, rv)) { u[m] = 1; rev[k] = rv; found = true; } }
        if (!found) { c.fail("segment-extra", "segment (%.9g,%.9g)-(%.9g,%.9g) of cell %u isn't part of the contour", a.x, a.y, e.x, e.y, q.element); return false; }
    }
    return true;
}

VH_CHECK(B01, 10000, 200000, "random boundaries (raw, reinitialised, masked, fixed rims, targets, lattice and one-node features); every cross reference rebuilt from the segment list, every point's incoming and outgoing segments balanced; non-trivial: boundary with at least three segments")
{
    Scene s; Got g; if (!prepare(c, s, g)) return;
    Boundary& b = g.b;
    if (b.nPoints || b.nSegments || !b.points.empty() || !b.segments.empty() || b.length != 0) return c.fail("empty", "a new boundary has %u points, %u segments, length %.9g", b.nPoints, b.nSegments, b.length);
    if (c.rng.coin(0.3)) { Scene o; if (makeScene(c.rng, o, S_SMALL)) b.discretise(*o.ls, o.target); c.count("boundary objects used before"); }
    if (c.rng.coin(0.3)) b.discretise(*s.ls, s.target);
    b.discretise(*s.ls, s.target);
    const Mesh& m = s.ls->mesh;
    if (b.nPoints != b.points.size() || b.nSegments != b.segments.size()) return c.fail("counts", "counts %u/%u, lists %zu/%zu", b.nPoints, b.nSegments, b.points.size(), b.segments.size());
    std::vector<char> rev, skip; if (!orient(c, s, g, rev, skip)) return;
    // Point lists against the segment list.
    std::vector<std::vector<unsigned>> segs(b.nPoints), nbs(b.nPoints); std::vector<int> bal(b.nPoints, 0); std::vector<char> exempt(b.nPoints, 0);
    for (unsigned k=0;k<b.nSegments;k++)
    {
        const BoundarySegment& q = b.segments[k];
        if (q.start == q.end) return c.fail("segment-degenerate", "segment %u joins point %u to itself", k, q.start);
        segs[q.start].push_back(k); segs[q.end].push_back(k); nbs[q.start].push_back(q.end); nbs[q.end].push_back(q.start);
        int from = rev[k] ? q.end : q.start, to = rev[k] ? q.start : q.end;
        bal[from]++; bal[to]--; if (skip[k]) exempt[q.start] = exempt[q.end] = 1;
    }
    // Points touching cells in which part of the contour runs along a fixed rim.
    auto nearCells = [&](const Coord& p, bool& skippedRim, bool& hard)
    {
        skippedRim = hard = false;
        for (int y=(int)std::floor(p.y - 1e-9);y<=(int)std::floor(p.y + 1e-9);y++) for (int x=(int)std::floor(p.x - 1e-9);x<=(int)std::floor(p.x + 1e-9);x++)
            if (x >= 0 && y >= 0 && x < s.w && y < s.h) { const RefCell& rc = g.ref.cells[x + y*s.w]; skippedRim |= rc.rimSkipped; hard |= rc.hard; }
    };
    long open = 0;
    for (unsigned i=0;i<b.nPoints;i++)
    {
        const BoundaryPoint& p = b.points[i];
        if (p.nSegments > p.segments.size() || p.nNeighbours > p.neighbours.size()) return c.fail("point-lists", "point %u claims %u segments, list holds %zu", i, p.nSegments, p.segments.size());
        std::vector<unsigned> a(p.segments.begin(), p.segments.begin() + p.nSegments), n(p.neighbours.begin(), p.neighbours.begin() + p.nNeighbours);
        std::sort(a.begin(), a.end()); std::sort(n.begin(), n.end()); std::sort(nbs[i].begin(), nbs[i].end());
        if (a != segs[i]) return c.fail("point-segments", "point %u (%.6g,%.6g) lists %zu segments, %zu end there (or others)", i, p.coord.x, p.coord.y, a.size(), segs[i].size());
        if (n != nbs[i]) return c.fail("point-neighbours", "point %u (%.6g,%.6g) neighbour list disagrees with the segments", i, p.coord.x, p.coord.y);
        bool sr, hd; nearCells(p.coord, sr, hd);
        if (segs[i].empty() && !hd && !sr) return c.fail("orphan", "point %u (%.6g,%.6g) has no segment", i, p.coord.x, p.coord.y);
        if (bal[i] != 0)
        {
            open++;
            if (!exempt[i] && !hd && !rim(s, p.coord)) return c.fail("open-curve", "point %u (%.9g,%.9g) away from the rim joins %zu segments, unbalanced by %d", i, p.coord.x, p.coord.y, segs[i].size(), bal[i]);
        }
        if (!rim(s, p.coord) && !hd && segs[i].size() % 2) return c.fail("open-curve", "point %u (%.9g,%.9g) away from the rim joins %zu segments", i, p.coord.x, p.coord.y, segs[i].size());
    }
    c.count("curve ends on the rim", open);
    // Duplicates, by cell buckets.
    std::map<std::pair<int,int>, std::vector<unsigned>> bucket;
    for (unsigned i=0;i<b.nPoints;i++)
    {
        int x = (int)std::floor(b.points[i].coord.x + 0.25), y = (int)std::floor(b.points[i].coord.y + 0.25);
        for (int dy=-1;dy<=1;dy++) for (int dx=-1;dx<=1;dx++)
        {
            auto it = bucket.find(std::make_pair(x+dx, y+dy)); if (it == bucket.end()) continue;
            for (unsigned j : it->second) if (std::fabs(b.points[i].coord.x - b.points[j].coord.x) < 5e-7 && std::fabs(b.points[i].coord.y - b.points[j].coord.y) < 5e-7)
                return c.fail("duplicate-point", "points %u and %u coincide at (%.9g,%.9g)", i, j, b.points[i].coord.x, b.points[i].coord.y);
        }
        bucket[std::make_pair(x, y)].push_back(i);
    }
    // Cells.
    std::vector<std::vector<unsigned>> per(m.nElements);
    for (unsigned k=0;k<b.nSegments;k++) per[b.segments[k].element].push_back(k);
    for (unsigned e=0;e<m.nElements;e++)
    {
        const Element& el = m.elements[e];
        if (el.nBoundarySegments > el.boundarySegments.size()) return c.fail("cell-lists", "cell %u claims %u segments", e, el.nBoundarySegments);
        std::vector<unsigned> a(el.boundarySegments.begin(), el.boundarySegments.begin() + el.nBoundarySegments); std::sort(a.begin(), a.end());
        if (a != per[e]) return c.fail("cell-segments", "cell %u lists %zu segments, %zu lie in it (or others)", e, a.size(), per[e].size());
    }
    // Grid points: the points at the node or inside one of its edges.
    std::vector<std::vector<unsigned>> pn(m.nNodes);
    for (unsigned i=0;i<b.nPoints;i++)
    {
        const Coord& p = b.points[i].coord; int x = (int)std::lround(p.x), y = (int)std::lround(p.y);
        bool ox = std::fabs(p.x - x) < 1e-12, oy = std::fabs(p.y - y) < 1e-12;
        if (ox && oy) pn[x + y*(s.w+1)].push_back(i);
        else if (oy) { int x0 = (int)std::floor(p.x); pn[x0 + y*(s.w+1)].push_back(i); pn[x0 + 1 + y*(s.w+1)].push_back(i); }
        else if (ox) { int y0 = (int)std::floor(p.y); pn[x + y0*(s.w+1)].push_back(i); pn[x + (y0+1)*(s.w+1)].push_back(i); }
        else return c.fail("off-edge", "point %u (%.9g,%.9g) lies on no grid edge", i, p.x, p.y);
    }
    for (unsigned n=0;n<m.nNodes;n++)
    {
        const Node& nd = m.nodes[n];
        if (nd.nBoundaryPoints > nd.boundaryPoints.size()) return c.fail("node-lists", "node %u claims %u points", n, nd.nBoundaryPoints);
        std::vector<unsigned> a(nd.boundaryPoints.begin(), nd.boundaryPoints.begin() + nd.nBoundaryPoints); std::sort(a.begin(), a.end());
        if (a != pn[n]) return c.fail("node-points", "node %u (%g,%g) lists %zu points, %zu lie on its edges (or others)", n, nd.coord.x, nd.coord.y, a.size(), pn[n].size());
    }
    for (auto& v : segs) { char t[60]; snprintf(t, sizeof t, "points joining %zu segments", v.size()); c.count(t); }
    c.count("segments checked", b.nSegments);
    if (b.nSegments > 2) c.nontrivial(hashB(b));
}

VH_CHECK(B02, 10000, 200000, "as B01; every point, segment and length compared with an independent cell-by-cell contour; non-trivial: boundary with at least three segments")
{
    Scene s; Got g; if (!prepare(c, s, g)) return;
    Boundary& b = g.b; b.discretise(*s.ls, s.target);
    std::vector<char> rev, skip; if (!orient(c, s, g, rev, skip)) return;
    const Field& f = g.f;
    // Points.
    std::set<std::pair<int,int>> carried; // edge: (lower node, 0 right / 1 up)
    for (auto& p : b.points)
    {
        int x0 = (int)std::floor(p.coord.x), y0 = (int)std::floor(p.coord.y);
        double tx = p.coord.x - x0, ty = p.coord.y - y0;
        if (tx == 0 && ty == 0) { if (!(std::fabs(f.at(x0, y0)) < 1e-6)) return c.fail("point-zero", "point on node (%d,%d) whose value is %.9g", x0, y0, f.at(x0, y0)); continue; }
        if (tx != 0 && ty != 0) return c.fail("point-off-edge", "point (%.12g,%.12g) lies on no grid edge", p.coord.x, p.coord.y);
        double a = f.at(x0, y0), e = tx != 0 ? f.at(x0+1, y0) : f.at(x0, y0+1), t = tx + ty;
        if (!(a*e < 0) || !(std::fabs(a + t*(e - a)) <= 1e-10*(std::fabs(a) + std::fabs(e)))) return c.fail("point-zero", "point (%.12g,%.12g): interpolated value %.6g between %.9g and %.9g", p.coord.x, p.coord.y, a + t*(e - a), a, e);
        carried.insert(std::make_pair(x0 + y0*(s.w+1), tx != 0 ? 0 : 1));
    }
    long cuts = 0;
    for (int y=0;y<=s.h;y++) for (int x=0;x<=s.w;x++) for (int d=0;d<2;d++)
    {
        int X = x + (d == 0), Y = y + (d == 1); if (X > s.w || Y > s.h) continue;
        int n = x + y*(s.w+1), m = X + Y*(s.w+1);
        if (g.ref.st[n]*g.ref.st[m] >= 0) continue;
        if (!g.live.empty() && !g.live[n] && !g.live[m]) continue;
        cuts++;
        if (!carried.count(std::make_pair(n, d))) return c.fail("edge-missed", "edge (%d,%d)-(%d,%d) from %.6g to %.6g carries no point", x, y, X, Y, f.at(x, y), f.at(X, Y));
    }
    if (carried.size() != (size_t)cuts) return c.fail("edge-extra", "%zu edges carry points, %ld change sign", carried.size(), cuts);
    // Segments: as many as in the reference (each was matched once above).
    std::vector<unsigned> per(s.ls->mesh.nElements, 0); double total = 0; std::vector<double> half(b.points.size(), 0.0); bool whole = true;
    for (auto& q : b.segments)
    {
        per[q.element]++;
        double l = hypot(b.points[q.start].coord.x - b.points[q.end].coord.x, b.points[q.start].coord.y - b.points[q.end].coord.y);
        if (!(std::fabs(q.length - l) <= 1e-12)) return c.fail("segment-length", "segment of length %.12g says %.12g", l, q.length);
        total += l; half[q.start] += 0.5*l; half[q.end] += 0.5*l;
    }
    for (unsigned e=0;e<per.size();e++)
    {
        if (g.ref.cells[e].hard) { whole = false; continue; }
        if (per[e] != g.ref.cells[e].segs.size()) return c.fail("segment-missing", "cell %u has %u segments, its contour has %zu", e, per[e], g.ref.cells[e].segs.size());
    }
    if (!(std::fabs(total - b.length) <= 1e-9*(1 + total))) c.fail("total-length", "total length %.12g, segments add up to %.12g", b.length, total);
    if (whole && !(std::fabs(b.length - g.ref.length) <= 1e-8*(1 + total))) c.fail("total-length", "total length %.12g, contour %.12g", b.length, g.ref.length);
    double sum = 0;
    for (size_t i=0;i<half.size();i++)
    {
        sum += b.points[i].length;
        if (!(std::fabs(b.points[i].length - half[i]) <= 1e-10)) return c.fail("point-length", "point %zu has length %.12g, half its segments is %.12g", i, b.points[i].length, half[i]);
        double per = 0; for (unsigned k=0;k<b.points[i].nNeighbours;k++) { const Coord& q = b.points[b.points[i].neighbours[k]].coord; per += hypot(q.x - b.points[i].coord.x, q.y - b.points[i].coord.y); }
        double gp = b.computePerimeter(b.points[i]);
        if (!(std::fabs(gp - per) <= 1e-10)) return c.fail("point-perimeter", "perimeter of point %zu is %.12g, neighbours give %.12g", i, gp, per);
    }
    if (!(std::fabs(sum - b.length) <= 1e-9*(1 + sum))) c.fail("length-sum", "point lengths add up to %.12g, total %.12g", sum, b.length);
    c.count("points checked", b.nPoints); c.count("segments checked", b.nSegments); c.count("sign-changing edges", cuts);
    if (s.target) c.count("target boundaries"); if (s.fixed) c.count("fixed-rim boundaries"); if (s.masked) c.count("masked boundaries");
    if (b.nSegments > 2) c.nontrivial(hashB(b));
}

VH_CHECK(B03, 10000, 200000, "as B01; every cell's fraction compared with exact clipping, totals with Green's theorem over the oriented boundary and with the complement; non-trivial: boundary with a partly filled cell")
{
    Scene s; Got g; if (!prepare(c, s, g)) return;
    Boundary& b = g.b; b.discretise(*s.ls, s.target);
    LevelSet& ls = *s.ls;
    if (c.rng.coin(0.2)) { for (auto& e : ls.mesh.elements) e.area = c.rng.u(-3, 3); ls.area = 17; }
    double ret = ls.computeAreaFractions(b), sum = 0; long partial = 0; bool hard = false;
    for (unsigned e=0;e<ls.mesh.nElements;e++)
    {
        double a = ls.mesh.elements[e].area; sum += a;
        if (!(a >= -1e-12 && a <= 1 + 1e-12)) return c.fail("fraction-range", "cell %u has fraction %.12g", e, a);
        const RefCell& rc = g.ref.cells[e]; if (rc.hard) { hard = true; continue; }
        if (!(std::fabs(a - rc.area) <= 1e-9))
        {
            int x = e % s.w, y = e / s.w;
            return c.fail("fraction", "cell (%d,%d) has fraction %.12g, material covers %.12g (corners %.6g %.6g %.6g %.6g)", x, y, a, rc.area, g.f.at(x, y), g.f.at(x+1, y), g.f.at(x+1, y+1), g.f.at(x, y+1));
        }
        partial += a > 1e-9 && a < 1 - 1e-9;
    }
    if (!(std::fabs(ret - sum) <= 1e-9*(1 + sum))) c.fail("total", "returned %.12g, fractions add up to %.12g", ret, sum);
    if (!(std::fabs(ls.area - sum) <= 1e-9*(1 + sum))) c.fail("total", "stored area %.12g, fractions add up to %.12g", ls.area, sum);
    // Again: same answer.
    double again = ls.computeAreaFractions(b);
    if (!(std::fabs(again - ret) <= 1e-12*(1 + ret))) c.fail("repeat", "second evaluation gives %.15g, first %.15g", again, ret);
    if (hard) { c.count("boundaries cut on a fixed rim"); return; }
    // Area swept by the boundary, oriented with material on the left; material sitting on the rim is added from the node values.
    std::vector<char> rev, skip; if (!orient(c, s, g, rev, skip)) return;
    double green = 0; bool rimMaterial = false, rimSkip = false;
    for (size_t k=0;k<b.segments.size();k++)
    {
        const Coord *p = &b.points[b.segments[k].start].coord, *q = &b.points[b.segments[k].end].coord; if (rev[k]) std::swap(p, q);
        green += 0.5*(p->x*q->y - q->x*p->y);
    }
    for (int y=0;y<=s.h;y++) for (int x=0;x<=s.w;x++) if ((x == 0 || y == 0 || x == s.w || y == s.h) && g.ref.at(x, y) > 0) rimMaterial = true;
    for (auto& q : g.ref.cells) rimSkip |= q.rimSkipped;
    if (!rimMaterial && !rimSkip)
    {
        if (!(std::fabs(green - ret) <= 1e-7*(1 + ret))) c.fail("enclosed", "fractions add up to %.12g, the boundary encloses %.12g", ret, green);
        c.count("closed boundaries compared with enclosed area");
    }
    // Complement.
    if (!s.target && !s.fixed && !s.masked && !g.undecided)
    {
        LevelSet neg(s.w, s.h, std::vector<Hole>(), s.ml, 1000, false);
        for (size_t i=0;i<g.f.v.size();i++) neg.signedDistance[i] = -g.f.v[i];
        Boundary nb; nb.discretise(neg); neg.computeAreaFractions(nb);
        for (unsigned e=0;e<ls.mesh.nElements;e++)
        {
            int x = e % s.w, y = e / s.w; bool flat = false; const int ox[4] = {0, 1, 1, 0}, oy[4] = {0, 0, 1, 1};
            for (int k=0;k<4;k++) { int m = (k+1)%4; if (g.ref.at(x + ox[k], y + oy[k]) == 0 && g.ref.at(x + ox[m], y + oy[m]) == 0) flat = true; }   // contour along a cell edge
            if (flat) continue;
            if (!(std::fabs(ls.mesh.elements[e].area + neg.mesh.elements[e].area - 1) <= 1e-9)) { c.fail("complement", "cell (%d,%d): %.12g material and %.12g after the swap", x, y, ls.mesh.elements[e].area, neg.mesh.elements[e].area); break; }
        }
        c.count("complements compared");
    }
    c.count("cells compared", ls.mesh.nElements); c.count("partly filled cells", partial);
    if (partial) c.nontrivial(hashB(b));
}

VH_CHECK(B05, 16000, 200000, "as B01 with random move limits, masks and rims; every limit and flag recomputed from coordinates; non-trivial: boundary with points near the rim or a mask")
{
    largeScene(c, 400); Scene s; if (!makeScene(c.rng, s, S_NOTARGET)) return; tagScene(c, s);
    Boundary b; b.discretise(*s.ls);
    long near = 0;
    for (size_t i=0;i<b.points.size();i++)
    {
        const BoundaryPoint& p = b.points[i]; double d = std::min(std::min(p.coord.x, s.w - p.coord.x), std::min(p.coord.y, s.h - p.coord.y));
        if (p.positiveLimit != s.ml) return c.fail("positive-limit", "point (%.6g,%.6g): %.9g instead of %.9g", p.coord.x, p.coord.y, p.positiveLimit, s.ml);
        bool edgy = std::fabs(d - 1e-6) < 1e-10;
        if (!edgy && p.isDomain != (d < 1e-6)) return c.fail("domain-flag", "point (%.9g,%.9g) at %.3g from the rim has flag %d", p.coord.x, p.coord.y, d, p.isDomain);
        double want = std::min(d, s.ml);
        // The nearest grid point, and whether there is a tie.
        int x = (int)std::floor(p.coord.x), y = (int)std::floor(p.coord.y); double best = 1e9, second = 1e9; int bn = 0, sn = 0;
        for (int Y=y;Y<=y+1;Y++) for (int X=x;X<=x+1;X++) if (X <= s.w && Y <= s.h)
        {
            double q = hypot(p.coord.x - X, p.coord.y - Y); int n = X + Y*(s.w+1);
            if (q < best) { second = best; sn = bn; best = q; bn = n; } else if (q < second) { second = q; sn = n; }
        }
        bool m1 = s.ls->mesh.nodes[bn].isMasked, m2 = second - best < 3e-6 ? s.ls->mesh.nodes[sn].isMasked : m1;
        if (m1 != m2) { c.count("points half way between masked and free"); continue; }
        bool fix = m1 && best < 1e-6;
        if (!(m1 && std::fabs(best - 1e-6) < 1e-10) && p.isFixed != fix) return c.fail("fixed-flag", "point (%.9g,%.9g), %.3g from a %s grid point, has flag %d", p.coord.x, p.coord.y, best, m1 ? "masked" : "free", p.isFixed);
        if (m1 && !fix) want = std::min(want, best);
        if (!(std::fabs(p.negativeLimit + want) <= 1e-6 + 0*want) || !(p.negativeLimit <= 0)) return c.fail("negative-limit", "point (%.9g,%.9g): %.9g instead of %.9g (rim at %.6g, %s grid point at %.6g, limit %.6g)", p.coord.x, p.coord.y, p.negativeLimit, -want, d, m1 ? "masked" : "free", best, s.ml);
        if (std::fabs(p.negativeLimit + want) > 1e-12 && second - best > 3e-6) return c.fail("negative-limit", "point (%.9g,%.9g): %.15g instead of %.15g", p.coord.x, p.coord.y, p.negativeLimit, -want);
        if (d < s.ml) { near++; c.count("points within the limit of the rim"); } if (m1) { near++; c.count(fix ? "points on masked grid points" : "points next to masked grid points"); }
    }
    c.count("points checked", b.nPoints);
    if (near) c.nontrivial(hashB(b));
}

VH_CHECK(B04, 12000, 60000, "half-planes (exact), circles (accuracy), random scenes with masks and rims (finite, unit, inward, symmetric, repeatable); non-trivial: at least three free points with unit normals")
{
    Rng& r = c.rng; int mode = c.caseNo % 4; Scene s;
    if (mode < 2)
    {
        s.w = r.i(4, 40); s.h = r.i(4, 40); largeGrid(c, 199, s.w, s.h); s.fixed = r.coin(0.2); s.ml = 0.5; s.bw = 6; s.target = s.masked = false; s.raw = true;
        Shape sh = randomShape(r, s.w, s.h, mode == 0 ? 1 : 0); if (mode == 1) { sh.p[2] = std::max(sh.p[2], 3.0); sh.text = "circle"; }
        Field f = sample(sh, s.w, s.h); double k = r.coin() ? 1 : r.u(0.2, 5); for (double& v : f.v) v *= k;
        if (!bothSigns(f)) return;
        s.ls.reset(new LevelSet(s.w, s.h, std::vector<Hole>(), s.ml, 1000, s.fixed)); s.ls->signedDistance = f.v; s.text = sh.text; tagScene(c, s);
        Boundary b; b.discretise(*s.ls); if (r.coin(0.3)) for (auto& p : b.points) { p.normal.x = 1e9; p.normal.y = NAN; }
        b.computeNormalVectors(*s.ls); long n = 0;
        for (auto& p : b.points)
        {
            if (!std::isfinite(p.normal.x) || !std::isfinite(p.normal.y)) return c.fail("finite", "point (%.9g,%.9g): normal (%g,%g)", p.coord.x, p.coord.y, p.normal.x, p.normal.y);
            if (p.isFixed) continue;
            double ex, ey;
            if (mode == 0) { ex = sh.sgn*sh.p[0]; ey = sh.sgn*sh.p[1]; }
            else { double d = hypot(p.coord.x - sh.p[0], p.coord.y - sh.p[1]); ex = -sh.sgn*(p.coord.x - sh.p[0])/d; ey = -sh.sgn*(p.coord.y - sh.p[1])/d; }
            // On a fixed rim the rim's grid points don't contribute; if no grid point does there is nothing to check.
            bool some = false;
            if (s.fixed) { for (int y=(int)floor(p.coord.y);y<=(int)ceil(p.coord.y);y++) for (int x=(int)floor(p.coord.x);x<=(int)ceil(p.coord.x);x++) some |= s.ls->mesh.nodes[x + y*(s.w+1)].isActive; if (!some) continue; }
            double l = hypot(p.normal.x, p.normal.y); n++;
            if (!(std::fabs(l - 1) <= 1e-9)) return c.fail("unit", "point (%.9g,%.9g): normal of length %.12g", p.coord.x, p.coord.y, l);
            double e = hypot(p.normal.x - ex, p.normal.y - ey);
            bool nearRim = p.coord.x < 1 || p.coord.y < 1 || p.coord.x > s.w - 1 || p.coord.y > s.h - 1;
            if (mode == 0) { c.maxOf("normal error on straight interfaces", e); if (!(e <= 1e-7)) return c.fail("straight", "point (%.9g,%.9g): normal (%.9g,%.9g), exact (%.9g,%.9g)", p.coord.x, p.coord.y, p.normal.x, p.normal.y, ex, ey); }
            else
            {
                double q = e*sh.p[2];
                c.maxOf(nearRim ? "normal error times radius near the rim" : "normal error times radius", q);
                if (!(q <= (nearRim ? 1.5 : 0.35))) return c.fail("circle", "point (%.9g,%.9g): normal off by %.5g on a circle of radius %.5g", p.coord.x, p.coord.y, e, sh.p[2]);
            }
        }
        c.count("normals compared with exact ones", n); if (n > 2) c.nontrivial(hashB(b));
        return;
    }
    largeScene(c, 201);
    if (!makeScene(r, s, S_NOTARGET, mode == 2 ? (int)F_COSINE : -1)) return;
    tagScene(c, s);
    if (s.w < 1 || s.h < 1) return;
    Boundary b; b.discretise(*s.ls);
    bool wild = r.coin(0.3); if (wild) for (auto& p : b.points) { p.normal.x = r.coin() ? NAN : 3; p.normal.y = 1e300; }
    b.computeNormalVectors(*s.ls);
    Boundary a; a.discretise(*s.ls); a.computeNormalVectors(*s.ls); a.computeNormalVectors(*s.ls);
    long n = 0; const Field sf = s.field();
    for (size_t i=0;i<b.points.size();i++)
    {
        const BoundaryPoint& p = b.points[i]; double l = hypot(p.normal.x, p.normal.y);
        if (!std::isfinite(p.normal.x) || !std::isfinite(p.normal.y)) return c.fail("finite", "point (%.9g,%.9g)%s%s: normal (%g,%g)", p.coord.x, p.coord.y, p.isDomain ? " on the rim" : "", p.isFixed ? " fixed" : "", p.normal.x, p.normal.y);
        if (!(std::fabs(p.normal.x - a.points[i].normal.x) <= 1e-12*(1 + l)) || !(std::fabs(p.normal.y - a.points[i].normal.y) <= 1e-12*(1 + l))) return c.fail("history", "point (%.9g,%.9g): normal (%.12g,%.12g) or (%.12g,%.12g) depending on earlier work", p.coord.x, p.coord.y, p.normal.x, p.normal.y, a.points[i].normal.x, a.points[i].normal.y);
        // Some adjacent band point must have a gradient; contributions must not cancel (then the length is 0, never something else).
        if (!(std::fabs(l - 1) <= 1e-9))
        {
            double gx = 0, gy = 0, ws = 0; bool any = false; int x0 = (int)floor(p.coord.x), y0 = (int)floor(p.coord.y), x1 = (int)ceil(p.coord.x), y1 = (int)ceil(p.coord.y);
            for (int y=y0;y<=y1;y++) for (int x=x0;x<=x1;x++)
            {
                if (!s.ls->mesh.nodes[x + y*(s.w+1)].isActive) continue;
                const Field& f = sf; int xl = std::max(x-1, 0), xr = std::min(x+1, s.w), yl = std::max(y-1, 0), yr = std::min(y+1, s.h);
                double dx = (f.at(xr, y) - f.at(xl, y))/(xr - xl), dy = (f.at(x, yr) - f.at(x, yl))/(yr - yl), g = hypot(dx, dy);
                if (g > 0) { any = true; double q = std::max(1e-6, (x - p.coord.x)*(x - p.coord.x) + (y - p.coord.y)*(y - p.coord.y)); gx += dx/g/q; gy += dy/g/q; ws += 1/q; }
            }
            if (any && hypot(gx, gy) > 1e-9*ws) return c.fail("unit", "point (%.9g,%.9g): normal of length %.12g", p.coord.x, p.coord.y, l);
            c.count("points without defined normal"); continue;
        }
        n++;
    }
    c.count("normals checked for length and history", n);
    // Symmetry.
    if (!s.masked && !s.fixed)
    {
        int sym = r.i(1, 7); Field f = s.field(), g = transformed(f, sym);
        LevelSet t(g.w, g.h, std::vector<Hole>(), s.ml, 1000, false), u(f.w, f.h, std::vector<Hole>(), s.ml, 1000, false); t.signedDistance = g.v; u.signedDistance = f.v;
        Boundary tb, ub; tb.discretise(t); tb.computeNormalVectors(t); ub.discretise(u); ub.computeNormalVectors(u);
        std::map<std::pair<long,long>, const BoundaryPoint*> at; bool clash = false;
        auto key = [](double x, double y) { return std::make_pair(std::lround(x*1e5), std::lround(y*1e5)); };
        for (auto& p : tb.points) { auto& q = at[key(p.coord.x, p.coord.y)]; if (q) clash = true; q = &p; }
        if (!clash) for (auto& p : ub.points)
        {
            double x = p.coord.x, y = p.coord.y, nx = p.normal.x, ny = p.normal.y; transformPoint(s.w, s.h, sym, x, y);
            if (sym & 1) nx = -nx; if (sym & 2) ny = -ny; if (sym & 4) std::swap(nx, ny);
            auto it = at.find(key(x, y)); if (it == at.end()) continue;
            if (!(hypot(nx - it->second->normal.x, ny - it->second->normal.y) <= 1e-6)) { if (std::fabs(hypot(nx, ny) - 1) > 0.5) continue; return c.fail("symmetry", "point (%.9g,%.9g): normal (%.9g,%.9g), from the image %d (%.9g,%.9g)", p.coord.x, p.coord.y, nx, ny, sym, it->second->normal.x, it->second->normal.y); }
            c.count("normals compared with images");
        }
    }
    if (n > 2) c.nontrivial(hashB(b));
}
