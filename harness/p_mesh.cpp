// M01 grid connectivity, M02 point location, H01 priority queue.
#include "vh.h"
#include "slsm_all.h"
#include <set>
using namespace slsm;

VH_CHECK(M01, 720, 3000, "one grid per case: all 12x12 small sizes first, then random non-square sizes up to 150; non-trivial: every grid, identified by its size")
{
    unsigned w, h;
    if (c.caseNo < 144) { w = 1 + c.caseNo % 12; h = 1 + c.caseNo / 12; }
    else
    {
        int big = c.thorough ? 400 : 150;
        w = c.rng.i(1, c.rng.coin(0.3) ? 8 : big); h = c.rng.i(1, c.rng.coin(0.3) ? 8 : big);
        int W = w, H = h; if (c.caseNo % 50 == 49) { W = c.rng.i(33000, 70000); H = c.rng.i(1, 2); if (c.rng.coin()) std::swap(W, H); } else largeGrid(c, 25, W, H, 400); w = W; h = H;
    }
    c.tag("grid %ux%u", w, h);
    Mesh m(w, h);
    if (m.width != w || m.height != h) c.fail("size", "width/height %u %u", m.width, m.height);
    if (m.nElements != w*h || m.nNodes != (w+1)*(h+1)) return c.fail("size", "counts %u %u", m.nElements, m.nNodes);
    if (m.nodes.size() != m.nNodes || m.elements.size() != m.nElements) return c.fail("size", "vector sizes");
    const unsigned oob = m.nNodes;
    if (m.xyToIndex.size() != w+1) return c.fail("lookup", "lookup width");
    for (unsigned x=0;x<=w;x++) if (m.xyToIndex[x].size() != h+1) return c.fail("lookup", "lookup height");
    // Lookup is a bijection that inverts the coordinates.
    std::vector<char> seen(m.nNodes, 0);
    for (unsigned x=0;x<=w;x++) for (unsigned y=0;y<=h;y++)
    {
        unsigned n = m.xyToIndex[x][y];
        if (n >= m.nNodes) return c.fail("lookup", "lookup (%u,%u) out of range", x, y);
        if (seen[n]++) return c.fail("lookup", "lookup (%u,%u) duplicates node %u", x, y, n);
        const Node& nd = m.nodes[n];
        if (nd.coord.x != x || nd.coord.y != y) return c.fail("coord", "node %u at (%g,%g), looked up as (%u,%u)", n, nd.coord.x, nd.coord.y, x, y);
        bool rim = x == 0 || x == w || y == 0 || y == h;
        if (nd.isDomain != rim) return c.fail("rim", "node (%u,%u) domain flag %d", x, y, nd.isDomain);
        if (nd.isActive && false) return;
        if (nd.isMasked || nd.isMine) c.fail("flags", "fresh node (%u,%u) masked/mine", x, y);
        if (nd.nBoundaryPoints != 0) c.fail("flags", "fresh node (%u,%u) has boundary points", x, y);
    }
    auto at = [&](int x, int y) -> unsigned { return (x < 0 || y < 0 || x > (int)w || y > (int)h) ? oob : m.xyToIndex[x][y]; };
    std::vector<std::set<unsigned> > touch(m.nNodes);
    for (unsigned e=0;e<m.nElements;e++)
    {
        const Element& el = m.elements[e];
        double cx = el.coord.x, cy = el.coord.y;
        if (cx != (e % w) + 0.5 || cy != (e / w) + 0.5) return c.fail("element-coord", "element %u centre (%g,%g)", e, cx, cy);
        if (el.nodes.size() < 4) return c.fail("element-nodes", "element %u has %zu nodes", e, el.nodes.size());
        const double ox[4] = {-.5, .5, .5, -.5}, oy[4] = {-.5, -.5, .5, .5};
        for (int j=0;j<4;j++)
        {
            unsigned n = el.nodes[j];
            if (n >= m.nNodes) return c.fail("element-nodes", "element %u node %d out of range", e, j);
            if (m.nodes[n].coord.x != cx + ox[j] || m.nodes[n].coord.y != cy + oy[j])
                return c.fail("element-nodes", "element %u corner %d is node %u at (%g,%g)", e, j, n, m.nodes[n].coord.x, m.nodes[n].coord.y);
            touch[n].insert(e);
        }
    }
    size_t links = 0;
    for (unsigned n=0;n<m.nNodes;n++)
    {
        const Node& nd = m.nodes[n];
        int x = nd.coord.x, y = nd.coord.y;
        unsigned want[4] = {at(x-1,y), at(x+1,y), at(x,y-1), at(x,y+1)};
        if (nd.neighbours.size() < 4) return c.fail("neighbour", "node %u has %zu neighbours", n, nd.neighbours.size());
        for (int j=0;j<4;j++)
        {
            if (nd.neighbours[j] != want[j]) return c.fail("neighbour", "node (%d,%d) neighbour %d is %u, want %u", x, y, j, nd.neighbours[j], want[j]);
            if (want[j] != oob)
            {
                links++;
                if (m.nodes[want[j]].neighbours[j^1] != n) return c.fail("neighbour", "relation not symmetric at (%d,%d) direction %d", x, y, j);
            }
        }
        std::set<unsigned> got(nd.elements.begin(), nd.elements.begin() + std::min<size_t>(nd.nElements, nd.elements.size()));
        if (nd.nElements != touch[n].size() || got != touch[n]) return c.fail("node-elements", "node (%d,%d) lists %u elements, touches %zu", x, y, nd.nElements, touch[n].size());
    }
    c.count("neighbour links checked", links);
    c.count("elements checked", m.nElements);
    c.nontrivial(vh::hashU(w, vh::hashU(h, 1)));
}

VH_CHECK(M02, 1000, 6000, "300 points per grid: uniform, on grid lines, on nodes, at cell centres, on the rim and within 2e-6 of those; non-trivial: a grid with points of every class")
{
    unsigned w = c.rng.i(1, c.rng.coin(0.3) ? 6 : 60), h = c.rng.i(1, c.rng.coin(0.3) ? 6 : 60);
    { int W = w, H = h; if (c.caseNo % 100 == 99) { W = c.rng.i(33000, 70000); H = c.rng.i(1, 2); if (c.rng.coin()) std::swap(W, H); } else largeGrid(c, 20, W, H, 400); w = W; h = H; }
    c.tag("grid %ux%u", w, h);
    Mesh m(w, h);
    uint64_t hash = vh::hashU(w, vh::hashU(h, 2));
    for (int k=0;k<300;k++)
    {
        double p[2]; unsigned lim[2] = {w, h}; int kind[2];
        for (int d=0;d<2;d++)
        {
            kind[d] = c.rng.i(0, 7);
            double v;
            switch (kind[d])
            {
                case 0: case 1: v = c.rng.u(0, lim[d]); break;
                case 2: v = c.rng.i(0, lim[d]); break;                                     // grid line
                case 3: v = c.rng.i(0, lim[d]-1) + 0.5; break;                             // centre line
                case 4: v = c.rng.i(0, lim[d]) + c.rng.u(-2e-6, 2e-6); break;              // near grid line
                case 5: v = c.rng.i(0, lim[d]-1) + 0.5 + c.rng.u(-2e-6, 2e-6); break;      // near centre line
                case 6: v = c.rng.coin() ? 0 : lim[d]; break;                              // rim
                default: v = c.rng.coin() ? c.rng.u(0, 3e-6) : lim[d] - c.rng.u(0, 3e-6);  // near rim
            }
            p[d] = std::min<double>(lim[d], std::max(0.0, v));
        }
        unsigned e1 = m.getElement(Coord(p[0], p[1])), e2 = m.getElement(p[0], p[1]);
        unsigned n1 = m.getClosestNode(Coord(p[0], p[1])), n2 = m.getClosestNode(p[0], p[1]);
        if (e1 != e2) c.fail("overloads-element", "(%.9g,%.9g): %u vs %u", p[0], p[1], e1, e2);
        if (n1 != n2) c.fail("overloads-node", "(%.9g,%.9g): %u vs %u", p[0], p[1], n1, n2);
        if (e1 >= m.nElements) { c.fail("element-range", "(%.9g,%.9g): element %u of %u", p[0], p[1], e1, m.nElements); continue; }
        if (n1 >= m.nNodes) { c.fail("node-range", "(%.9g,%.9g): node %u", p[0], p[1], n1); continue; }
        double ex = e1 % w, ey = e1 / w;
        const double tol = 2e-6;
        if (p[0] < ex - tol || p[0] > ex + 1 + tol || p[1] < ey - tol || p[1] > ey + 1 + tol)
            c.fail("element-contains", "(%.9g,%.9g) reported in cell (%g,%g) of %ux%u", p[0], p[1], ex, ey, w, h);
        double bx = std::min<double>(w, floor(p[0] + 0.5)), by = std::min<double>(h, floor(p[1] + 0.5));
        double best = hypot(bx - p[0], by - p[1]);
        double got = hypot(m.nodes[n1].coord.x - p[0], m.nodes[n1].coord.y - p[1]);
        if (got > best + 1e-5) c.fail("closest", "(%.9g,%.9g): node at distance %.9g, nearest %.9g", p[0], p[1], got, best);
        c.maxOf("excess distance of reported node", got - best);
        c.count("points located");
        hash = vh::hashD(p[0], vh::hashD(p[1], hash));
    }
    c.nontrivial(hash);
}

VH_CHECK(H01, 8000, 60000, "random operation histories (bulk fill, drain, march-like, tie-heavy, refill after drain) against a sorted model; non-trivial: at least one removal after a re-prioritisation")
{
    bool huge = c.caseNo % 300 == 299;      // more entries than sixteen bits can count
    int cap = huge ? c.rng.i(66000, 90000) : c.rng.i(1, c.rng.coin(0.4) ? 12 : 150);
    bool selfTest = c.rng.coin(0.5);
    int style = c.rng.i(0, 6);
    int nOps = huge ? c.rng.i(90000, 160000) : c.rng.i(1, 400); if (huge) selfTest = false;
    bool refill = c.rng.coin(0.5);          // total pushes may exceed the capacity, live entries may not
    c.tag("cap %d style %d ops %d refill %d selftest %d", cap, style, nOps, refill, selfTest);
    Heap heap(cap, selfTest);
    struct Ent { unsigned addr; double val; bool live; };
    std::map<unsigned, Ent> byHandle;        // live entries only
    std::multiset<double> live;
    std::multimap<std::pair<unsigned,double>, unsigned> byEntry;      // live entries by address and value
    auto forget = [&](unsigned a, double v, unsigned hd) { auto q = byEntry.equal_range(std::make_pair(a, v)); for (auto e=q.first;e!=q.second;++e) if (e->second == hd) { byEntry.erase(e); return; } };
    auto find = [&](unsigned a, double v) { auto e = byEntry.lower_bound(std::make_pair(a, v)); return e == byEntry.end() || e->first != std::make_pair(a, v) ? byHandle.end() : byHandle.find(e->second); };
    int pushes = 0, popsAfterSet = 0, sets = 0; bool wasSet = false;
    uint64_t hash = vh::hashU(cap, 77);
    double clock = 0; const unsigned salt = c.rng.i(0, 1000000);
    auto newVal = [&]() -> double {
        switch (style)
        {
            case 0: return c.rng.u(0, 100);
            case 1: return c.rng.i(0, 3);                        // many ties
            case 2: return clock + c.rng.u(0, 1);                // march-like
            case 3: return pushes;                               // ascending
            case 4: return -pushes;                              // descending
            case 5: return 1e3 + c.rng.i(0, 50)*1e-10;           // apart by less than seven digits show
            default: return c.rng.coin(0.1) ? 0 : pow(10, c.rng.u(-12, 12)) * (c.rng.coin() ? 1 : -1);
        }
    };
    int phase = huge ? 1 : 0;
    for (int k=0;k<nOps && !c.failed();k++)
    {
        if (huge ? k == nOps*3/4 : c.rng.coin(0.02)) phase = c.rng.i(0, 3);
        double r = c.rng.u();
        double pPush = phase == 0 ? 0.5 : phase == 1 ? 0.9 : phase == 2 ? 0.05 : 0.33;
        double pSet = phase == 3 ? 0.5 : 0.2;
        bool canPush = (int)live.size() < cap && (refill || pushes < cap);
        if (r < pPush && canPush)
        {
            unsigned a = ((unsigned)pushes + salt)*2654435761u; double v = newVal();      // every address once
            unsigned hd = heap.push(a, v);
            if (byHandle.count(hd)) { c.fail("handle", "handle %u of a live entry returned again", hd); break; }
            byHandle[hd] = Ent{a, v, true}; byEntry.insert(std::make_pair(std::make_pair(a, v), hd)); live.insert(v); pushes++; c.count("push");
            hash = vh::hashD(v, vh::hashU(1, hash));
        }
        else if (r < pPush + pSet && !byHandle.empty())
        {
            auto it = byHandle.lower_bound(c.rng.i(0, 2*pushes)); if (it == byHandle.end()) it = byHandle.begin();
            double v = c.rng.coin(0.1) ? it->second.val : c.rng.coin(0.2) ? *live.begin() : c.rng.coin(0.2) ? *live.rbegin() + 1 : c.rng.coin(0.25) ? it->second.val*(1 + c.rng.u(-1, 1)*pow(10, c.rng.u(-15, -1))) : newVal();
            heap.set(it->first, v);
            forget(it->second.addr, it->second.val, it->first); byEntry.insert(std::make_pair(std::make_pair(it->second.addr, v), it->first));
            live.erase(live.find(it->second.val)); live.insert(v); it->second.val = v; sets++; wasSet = true; c.count("set");
            hash = vh::hashD(v, vh::hashU(2, hash));
        }
        else if (!live.empty())
        {
            double top = heap.peek();
            if (top != *live.begin()) { c.fail("peek", "peek %.17g, minimum %.17g", top, *live.begin()); break; }
            unsigned a = 0; double v = 0;
            heap.pop(a, v);
            if (v != *live.begin()) { c.fail("pop-value", "popped %.17g, minimum %.17g of %zu", v, *live.begin(), live.size()); break; }
            auto it = find(a, v);
            if (it == byHandle.end()) { c.fail("pop-address", "popped address %u with value %.17g is no live entry", a, v); break; }
            live.erase(live.begin()); forget(a, v, it->first); byHandle.erase(it); c.count("pop");
            clock = v; if (wasSet) popsAfterSet++;
            hash = vh::hashD(v, vh::hashU(3, hash));
        }
        if (heap.size() != live.size()) { c.fail("size", "size %u, model %zu", heap.size(), live.size()); break; }
        if (heap.empty() != live.empty()) { c.fail("empty", "empty() %d with %zu entries", heap.empty(), live.size()); break; }
        if (!live.empty() && heap.peek() != *live.begin()) { c.fail("peek", "after op %d: peek %.17g, minimum %.17g", k, heap.peek(), *live.begin()); break; }
    }
    // Drain: everything comes out exactly once, in order.
    while (!c.failed() && !live.empty())
    {
        unsigned a; double v;
        if (heap.empty()) { c.fail("lost", "%zu entries lost", live.size()); break; }
        heap.pop(a, v);
        if (v != *live.begin()) { c.fail("drain-order", "drained %.17g, minimum %.17g", v, *live.begin()); break; }
        auto it = find(a, v);
        if (it == byHandle.end()) { c.fail("drain-address", "address %u value %.17g", a, v); break; }
        live.erase(live.begin()); forget(a, v, it->first); byHandle.erase(it); c.count("pop");
        if (wasSet) popsAfterSet++;
    }
    if (!c.failed() && !heap.empty()) c.fail("phantom", "entries left in the queue after all were removed");
    c.maxOf("largest capacity", cap);
    if (popsAfterSet) c.nontrivial(hash);
}
