// Bit-exact digests of library objects.
#ifndef VH_DIGEST_H
#define VH_DIGEST_H
#include "vh.h"
#include "slsm_all.h"

namespace vh
{
    typedef uint64_t Digest;
    inline Digest hashBits(double d, Digest h) { return hashBytes(&d, sizeof d, h); }
    inline Digest hashBitsV(const std::vector<double>& v, Digest h) { h = hashU(v.size(), h); return v.empty() ? h : hashBytes(v.data(), v.size()*sizeof(double), h); }
    template<class V> inline Digest hashUV(const V& v, Digest h) { h = hashU(v.size(), h); for (auto x : v) h = hashU(x, h); return h; }

    inline Digest digest(const slsm::Mesh& m)
    {
        Digest h = 11; h = hashU(m.width, h); h = hashU(m.height, h); h = hashU(m.nNodes, h); h = hashU(m.nElements, h);
        for (auto& n : m.nodes)
        {
            h = hashBits(n.coord.x, h); h = hashBits(n.coord.y, h); h = hashUV(n.neighbours, h);
            h = hashU(n.nElements, h); for (unsigned i=0;i<n.nElements && i<n.elements.size();i++) h = hashU(n.elements[i], h);
            h = hashU(n.nBoundaryPoints, h); for (unsigned i=0;i<n.nBoundaryPoints && i<n.boundaryPoints.size();i++) h = hashU(n.boundaryPoints[i], h);
            h = hashU(n.isActive*8 + n.isDomain*4 + n.isMasked*2 + n.isMine, h); h = hashU((uint64_t)n.status, h);
        }
        for (auto& e : m.elements)
        {
            h = hashBits(e.coord.x, h); h = hashBits(e.coord.y, h); h = hashBits(e.area, h); h = hashUV(e.nodes, h);
            h = hashU(e.nBoundarySegments, h); for (unsigned i=0;i<e.nBoundarySegments && i<e.boundarySegments.size();i++) h = hashU(e.boundarySegments[i], h);
            h = hashU((uint64_t)e.status, h);
        }
        return h;
    }
    inline Digest digest(const slsm::LevelSet& l, bool values)
    {
        Digest h = digest(l.mesh);
        if (values) h = hashBitsV(l.signedDistance, h);
        h = hashBitsV(l.velocity, h); h = hashBitsV(l.gradient, h); h = hashBitsV(l.target, h);
        h = hashU(l.nNarrowBand, h); for (unsigned i=0;i<l.nNarrowBand && i<l.narrowBand.size();i++) h = hashU(l.narrowBand[i], h);
        h = hashU(l.nMines, h); for (unsigned i=0;i<l.nMines && i<l.mines.size();i++) h = hashU(l.mines[i], h);
        h = hashBits(l.moveLimit, h); h = hashBits(l.area, h);
        return h;
    }
    inline Digest digest(const slsm::Boundary& b)
    {
        Digest h = 13; h = hashU(b.nPoints, h); h = hashU(b.nSegments, h); h = hashBits(b.length, h); h = hashU(b.points.size(), h); h = hashU(b.segments.size(), h);
        for (auto& p : b.points)
        {
            h = hashBits(p.coord.x, h); h = hashBits(p.coord.y, h); h = hashBits(p.normal.x, h); h = hashBits(p.normal.y, h);
            h = hashBits(p.length, h); h = hashBits(p.velocity, h); h = hashBits(p.negativeLimit, h); h = hashBits(p.positiveLimit, h);
            h = hashU(p.isDomain*2 + p.isFixed, h); h = hashU(p.nSegments, h); h = hashU(p.nNeighbours, h);
            for (unsigned i=0;i<p.nSegments && i<p.segments.size();i++) h = hashU(p.segments[i], h);
            for (unsigned i=0;i<p.nNeighbours && i<p.neighbours.size();i++) h = hashU(p.neighbours[i], h);
            h = hashBitsV(p.sensitivities, h);
        }
        for (auto& s : b.segments) { h = hashU(s.start, h); h = hashU(s.end, h); h = hashU(s.element, h); h = hashBits(s.length, h); h = hashBits(s.weight, h); }
        return h;
    }
}
#endif
