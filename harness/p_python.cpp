// Y01: the Python module, executed in an embedded interpreter (see pyshim) and compared with the C++ interface.
#include <Python.h>
#include "vh.h"
#include "slsm_all.h"
#include <nlopt.hpp>
#include "Optimise.h"
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
#include <cfloat>
using namespace vh;
using namespace slsm;

extern "C" PyObject* PyInit_pyslsm();
namespace nlopt { std::function<result(Problem&, std::vector<double>&, double&)>& hook() { static std::function<result(Problem&, std::vector<double>&, double&)> h; return h; } }

namespace
{
    std::vector<double>* sink;
    bool collect(PyObject* o)
    {
        if (PyBool_Check(o)) { sink->push_back(o == Py_True); return true; }
        if (PyFloat_Check(o)) { sink->push_back(PyFloat_AS_DOUBLE(o)); return true; }
        if (PyLong_Check(o)) { sink->push_back((double)PyLong_AsLongLong(o)); return !PyErr_Occurred(); }
        PyObject* it = PyObject_GetIter(o); if (!it) return false; bool ok = true;
        while (ok) { PyObject* x = PyIter_Next(it); if (!x) break; ok = collect(x); Py_DECREF(x); }
        Py_DECREF(it); return ok && !PyErr_Occurred();
    }
    PyObject* pyOut(PyObject*, PyObject* args)
    { for (Py_ssize_t i=0;i<PyTuple_GET_SIZE(args);i++) if (!collect(PyTuple_GET_ITEM(args, i))) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_TypeError, "cannot collect"); return nullptr; } Py_INCREF(Py_None); return Py_None; }
    PyMethodDef outDef = {"out", pyOut, METH_VARARGS, nullptr};

    const char* prelude =
        "def points(b):\n"
        "  out(b.nPoints, b.nSegments, b.length, len(b.points))\n"
        "  for k in range(OFF, len(b.points), STEP):\n"
        "   p = b.points[k]; out(p.coord.x, p.coord.y, p.normal.x, p.normal.y, p.length, p.velocity, p.negativeLimit, p.positiveLimit, p.isDomain, p.isFixed, p.nSegments, p.segments, p.nNeighbours, p.neighbours, p.sensitivities)\n"
        "def segments(b):\n"
        "  out(len(b.segments))\n"
        "  for k in range(OFF, len(b.segments), STEP):\n"
        "   s = b.segments[k]; out(s.start, s.end, s.element, s.length, s.weight)\n"
        "def field(l): out(l.signedDistance, l.velocity, l.gradient, l.area, l.moveLimit)\n"
        "def areas(l):\n"
        "  for k in range(OFF, len(l.mesh.elements), STEP): out(l.mesh.elements[k].area)\n"
        "def grid(m):\n"
        "  out(m.width, m.height, m.nElements, m.nNodes)\n"
        "  for k in range(OFF, len(m.nodes), STEP):\n"
        "   n = m.nodes[k]; out(n.coord.x, n.coord.y, n.neighbours)\n"
        "  for k in range(OFF, len(m.elements), STEP):\n"
        "   e = m.elements[k]; out(e.coord.x, e.coord.y, e.area)\n";

    // Each program looks at every STEP-th entry of the big arrays, from OFF.
    size_t STEP = 1, OFF = 0;
    void points(const Boundary& b, std::vector<double>& o)
    {
        o.push_back(b.nPoints); o.push_back(b.nSegments); o.push_back(b.length); o.push_back(b.points.size());
        for (size_t k=OFF;k<b.points.size();k+=STEP)
        {
            auto& p = b.points[k]; for (double d : {p.coord.x, p.coord.y, p.normal.x, p.normal.y, p.length, p.velocity, p.negativeLimit, p.positiveLimit, (double)p.isDomain, (double)p.isFixed, (double)p.nSegments}) o.push_back(d);
            for (unsigned s : p.segments) o.push_back(s); o.push_back(p.nNeighbours); for (unsigned s : p.neighbours) o.push_back(s); for (double s : p.sensitivities) o.push_back(s);
        }
    }
    void segments(const Boundary& b, std::vector<double>& o) { o.push_back(b.segments.size()); for (size_t k=OFF;k<b.segments.size();k+=STEP) { auto& s = b.segments[k]; for (double d : {(double)s.start, (double)s.end, (double)s.element, s.length, s.weight}) o.push_back(d); } }
    void all(const std::vector<double>& v, std::vector<double>& o) { o.insert(o.end(), v.begin(), v.end()); }
    void field(const LevelSet& l, std::vector<double>& o) { all(l.signedDistance, o); all(l.velocity, o); all(l.gradient, o); o.push_back(l.area); o.push_back(l.moveLimit); }
    void grid(const Mesh& m, std::vector<double>& o)
    {
        for (double d : {(double)m.width, (double)m.height, (double)m.nElements, (double)m.nNodes}) o.push_back(d);
        for (size_t k=OFF;k<m.nodes.size();k+=STEP) { auto& n = m.nodes[k]; o.push_back(n.coord.x); o.push_back(n.coord.y); for (unsigned q : n.neighbours) o.push_back(q); }
        for (size_t k=OFF;k<m.elements.size();k+=STEP) { auto& e = m.elements[k]; o.push_back(e.coord.x); o.push_back(e.coord.y); o.push_back(e.area); }
    }
    void areas(const LevelSet& l, std::vector<double>& o) { for (size_t k=OFF;k<l.mesh.elements.size();k+=STEP) o.push_back(l.mesh.elements[k].area); }
    std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); std::string s = b; if (s.find_first_of(".en") == std::string::npos) s += ".0"; return s; }
    std::string num(int d) { return std::to_string(d); }
    std::string num(unsigned d) { return std::to_string(d); }
    std::string num(bool d) { return d ? "True" : "False"; }

    struct Py
    {
        Ctx& c; PyObject* g; std::string text; bool dead;
        explicit Py(Ctx& c_) : c(c_), dead(false)
        {
            static bool up = false;
            if (!up)
            {
                up = true; PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre); pre.allocator = PYMEM_ALLOCATOR_MALLOC; PyStatus s = Py_PreInitialize(&pre); if (PyStatus_Exception(s)) { fprintf(stderr, "no Python\n"); _exit(92); }
                PyImport_AppendInittab("pyslsm", PyInit_pyslsm); PyConfig cfg; PyConfig_InitIsolatedConfig(&cfg); cfg.site_import = 0; cfg.install_signal_handlers = 0; s = Py_InitializeFromConfig(&cfg); PyConfig_Clear(&cfg); if (PyStatus_Exception(s)) { fprintf(stderr, "no Python: %s\n", s.err_msg ? s.err_msg : ""); _exit(92); }
            }
            g = PyDict_New(); PyDict_SetItemString(g, "__builtins__", PyEval_GetBuiltins()); PyObject* f = PyCFunction_New(&outDef, nullptr); PyDict_SetItemString(g, "out", f); Py_DECREF(f); std::vector<double> none; sink = &none;
            if (!run("import pyslsm, gc\n") || !run(prelude)) {} text.clear();
        }
        ~Py() { PyDict_Clear(g); Py_DECREF(g); }
        bool run(const std::string& s)
        {
            text += s; PyObject* r = PyRun_String(s.c_str(), Py_file_input, g, g); if (r) { Py_DECREF(r); return true; }
            PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); PyObject* m = v ? PyObject_Str(v) : nullptr; const char* q = m ? PyUnicode_AsUTF8(m) : "?";
            std::string kind = t ? ((PyTypeObject*)t)->tp_name : "?", first = s.substr(0, 200); Py_XDECREF(m); std::string msg = q ? q : "?"; Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b);
            if (!dead) c.fail("raises", "%s: %s, by: %s", kind.c_str(), msg.c_str(), first.c_str()); dead = true; return false;
        }
        // The same statement both ways: everything put out must agree to the last bit.
        bool same(const std::string& s, const std::function<void(std::vector<double>&)>& f)
        {
            if (dead) return false; std::vector<double> a, b; sink = &a; bool ok = run(s); sink = nullptr; if (!ok) return false; f(b); c.count("statements compared"); c.count("values compared", a.size());
            if (a.size() != b.size()) { c.fail("differs", "%zu values from Python, %zu from C++, by: %s", a.size(), b.size(), s.substr(0, 300).c_str()); dead = true; return false; }
            for (size_t i=0;i<a.size();i++) if (memcmp(&a[i], &b[i], sizeof(double)) && !(a[i] == 0 && b[i] == 0) && !(a[i] != a[i] && b[i] != b[i])) { c.fail("differs", "value %zu of %zu: %.17g from Python, %.17g from C++, by: %s", i, a.size(), a[i], b[i], s.substr(0, 300).c_str()); dead = true; return false; }
            c.log("%s", s.c_str()); return true;
        }
    };
    // keyword arguments in any order
    std::string mix(Rng& r, std::vector<std::string> pos, std::vector<std::pair<std::string, std::string>> kw)
    {
        std::string s; size_t given = 0; if (r.coin()) given = r.i(0, kw.size()); for (size_t i=0;i<given;i++) pos.push_back(kw[i].second); kw.erase(kw.begin(), kw.begin() + given);
        for (size_t i=kw.size();i>1;i--) std::swap(kw[i-1], kw[r.i(0, i-1)]);
        for (auto& p : pos) s += (s.empty() ? "" : ", ") + p; for (auto& k : kw) s += (s.empty() ? "" : ", ") + k.first + "=" + k.second; return s;
    }
    typedef std::pair<std::string, std::string> KV;
    std::string slurp(const std::string& p) { FILE* f = fopen(p.c_str(), "rb"); if (!f) return "(missing)"; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

    void solver(std::vector<double>& trace, uint64_t salt)
    {
        int calls = 0; nlopt::hook() = [&trace, salt, calls](nlopt::Problem& p, std::vector<double>& x, double& f) mutable -> nlopt::result
        {
            trace.push_back(p.alg); trace.push_back(p.n); trace.push_back(p.isMax); Rng q(salt + trace.size()); std::vector<double> g(p.n), none;
            for (unsigned i=0;i<p.n;i++) { trace.push_back(p.lb[i]); trace.push_back(p.ub[i]); trace.push_back(x[i]); x[i] = p.lb[i] + q.u()*(p.ub[i] - p.lb[i]); }
            for (auto& k : p.cons) { trace.push_back(k.equality); trace.push_back(k.f(x, g, k.d)); for (double d : g) trace.push_back(d); }
            f = p.obj.f(x, g, p.obj.d); trace.push_back(f); for (double d : g) trace.push_back(d); if (salt % 7 == 0 && !calls++) throw nlopt::roundoff_limited(); return nlopt::SUCCESS;
        };
    }
}

VH_CHECK(Y01, 600, 10000, "random programs carried out through the Python module and through C++; counts when at least one object was built and used; identified by the program")
{
    Rng& r = c.rng; Py py(c); if (py.dead) return; int mode = c.caseNo % 6; STEP = r.coin(0.15) ? 1 : r.i(4, 16); OFF = r.i(0, (int)STEP - 1); py.run("STEP = " + std::to_string(STEP) + "\nOFF = " + std::to_string(OFF) + "\n");
    if (mode == 3)
    {
        // Small classes: coordinates, holes, mutable numbers, generators, grids.
        double x = r.u(-50, 50), y = r.u(-50, 50), R = r.u(0, 9); int w = r.i(1, 9), h = r.i(1, 9); unsigned seed = r.coin(0.2) ? 4294967295u : (unsigned)r.next();
        c.tag("small classes %.3g %.3g %dx%d", x, y, w, h);
        py.same("k = pyslsm.Coord(" + mix(r, {}, {KV("x", num(x)), KV("y", num(y))}) + ")\nout(k.x, k.y)\nk.x = 3\nk.y = k.x + 1.5\nout(k.x, k.y)\nz = pyslsm.Coord()\nz.x = 1.0; z.y = 2; out(z.x, z.y)\n", [&](std::vector<double>& o) { Coord k(x, y); o = {k.x, k.y, 3, 4.5, 1, 2}; });
        py.same("q = pyslsm.Hole(" + mix(r, {}, {KV("x", num(x)), KV("y", num(y)), KV("r", num(R))}) + ")\nout(q.coord.x, q.coord.y, q.r)\nq.coord = k\nq.r = 2.5\nout(q.coord.x, q.coord.y, q.r)\nk.x = 77\nout(q.coord.x)\nq.coord.x = 8\nout(q.coord.x)\n", [&](std::vector<double>& o) { Hole q(x, y, R); o = {q.coord.x, q.coord.y, q.r, 3, 4.5, 2.5, 3, 8}; });
        py.same("q = pyslsm.Hole(" + mix(r, {}, {KV("coord", "k"), KV("r", num(R))}) + ")\nout(q.coord.x, q.coord.y, q.r)\nq = pyslsm.Hole()\nq.r = 1; out(q.r)\n", [&](std::vector<double>& o) { Coord k(77, 4.5); Hole q(k, R); o = {q.coord.x, q.coord.y, q.r, 1}; });
        py.same("m = pyslsm.MutableFloat()\nout(m.value)\nm.value = " + num(x) + "\nout(m.value)\nm = pyslsm.MutableFloat(" + mix(r, {}, {KV("value", num(y))}) + ")\nout(m.value)\n", [&](std::vector<double>& o) { MutableFloat a, b(y); o.push_back(a.value); a.value = x; o.push_back(a.value); o.push_back(b.value); });
        MersenneTwister t; std::string s; std::vector<std::function<double()>> f; t.setSeed(seed); s = "t = pyslsm.MersenneTwister()\nt.setSeed(" + num(seed) + ")\nout(t.getSeed())\n"; f.push_back([&]() { return (double)t.getSeed(); });
        for (int i=0;i<40;i++) switch (r.i(0, 3))
        {
            case 0: s += "out(t())\n"; f.push_back([&]() { return t(); }); break;
            case 1: { int a = r.i(-100, 100), b = r.i(a, 200); s += "out(t.integer(" + mix(r, {}, {KV("lower", num(a)), KV("upper", num(b))}) + "))\n"; f.push_back([&t, a, b]() { return (double)t.integer(a, b); }); break; }
            case 2: s += "out(t.normal())\n"; f.push_back([&]() { return t.normal(); }); break;
            default: { double a = r.u(-5, 5), b = r.u(0.1, 5); s += "out(t.normal(" + num(a) + ", " + num(b) + "))\n"; f.push_back([&t, a, b]() { return t.normal(a, b); }); }
        }
        py.same(s, [&](std::vector<double>& o) { for (auto& g : f) o.push_back(g()); });
        Mesh m(w, h); py.same("m = pyslsm.Mesh(" + mix(r, {}, {KV("width", num(w)), KV("height", num(h))}) + ")\ngrid(m)\n", [&](std::vector<double>& o) { grid(m, o); });
        s.clear(); f.clear(); std::vector<double> want;
        for (int i=0;i<20;i++)
        {
            double a = r.coin(0.2) ? r.i(0, w) : r.u(0, w), b = r.coin(0.2) ? r.i(0, h) : r.u(0, h); Coord k(a, b); bool whole = a == (int)a && b == (int)b && r.coin();
            std::string xy = whole ? mix(r, {}, {KV("x", num((int)a)), KV("y", num((int)b))}) : mix(r, {}, {KV("x", num(a)), KV("y", num(b))}); s += "out(m.getClosestNode(" + xy + "), m.getElement(" + xy + "), m.getClosestNode(" + mix(r, {}, {KV("coord", "pyslsm.Coord(" + num(a) + ", " + num(b) + ")")}) + "), m.getElement(pyslsm.Coord(" + num(a) + ", " + num(b) + ")))\n";
            for (unsigned n : {m.getClosestNode(a, b), m.getElement(a, b), m.getClosestNode(k), m.getElement(k)}) want.push_back(n);
        }
        py.same(s, [&](std::vector<double>& o) { o = want; });
        // Containers.
        std::vector<double> v, u; s = "v = pyslsm.VectorDouble()\n"; std::vector<double> init; for (int i=r.i(0, 6);i>0;i--) init.push_back(r.u(-9, 9)); s += "v = pyslsm.VectorDouble(["; for (double d : init) s += num(d) + ","; s += "])\nout(v)\n"; v = init; want = v;
        for (int i=0;i<12;i++) { double d = r.u(-9, 9); switch (r.i(0, 4)) { case 0: v.push_back(d); s += "v.append(" + num(d) + ")\n"; break; case 1: { u = v; v.insert(v.end(), u.begin(), u.end()); if (v.size() > 60) v.resize(60); s += "v.extend(pyslsm.VectorDouble(list(v)))\nwhile len(v) > 60: v.pop()\n"; break; } case 2: if (v.size()) { int k = r.i(0, v.size() - 1); v[k] = d; s += "v[" + num(k) + "] = " + num(d) + "\n"; } break; case 3: if (v.size()) { v.pop_back(); s += "v.pop()\n"; } break; default: s += "v2 = pyslsm.VectorDouble(v)\nv2.append(1)\n"; } s += "out(len(v), v)\n"; want.push_back(v.size()); all(v, want); }
        py.same(s, [&](std::vector<double>& o) { o = want; });
        py.same("b = pyslsm.VectorBool([True, False, True])\nb.append(False)\nout(b, len(b))\ni = pyslsm.VectorInt([1, -2])\ni.append(3)\nout(i)\nn = pyslsm.VectorUnsignedInt([4294967295, 2])\nout(n)\n", [&](std::vector<double>& o) { o = {1, 0, 1, 0, 4, 1, -2, 3, 4294967295.0, 2}; });
        py.same("h = pyslsm.VectorHole()\nfor i in range(4): h.append(pyslsm.Hole(i, 2*i, 1))\nh[2].r = 5\nout([q.r for q in h], h[3].coord.y, len(h))\nk = pyslsm.VectorCoord([pyslsm.Coord(1, 2), pyslsm.Coord(3, 4)])\nk[0].x = 9\nout([[q.x, q.y] for q in k])\np = pyslsm.VectorBoundaryPoint()\np.append(pyslsm.BoundaryPoint())\np[0].velocity = 4\nout(p[0].velocity, len(p))\n", [&](std::vector<double>& o) { o = {1, 1, 5, 1, 6, 4, 9, 2, 3, 4, 4, 1}; });
        py.same("x = pyslsm.VectorBoundarySegment()\nx.append(pyslsm.BoundarySegment())\nout(len(x))\ne = pyslsm.VectorElement(); n = pyslsm.VectorNode(); e.append(pyslsm.Element()); n.append(pyslsm.Node()); out(len(e), len(n))\n", [&](std::vector<double>& o) { o = {1, 1, 1}; });
        c.nontrivial(hashBytes(py.text.data(), py.text.size())); return;
    }
    // A level set, any constructor, any arguments left at their defaults.
    int w = r.i(6, 26), h = r.i(6, 26), kind = r.coin(0.05) ? 0 : r.i(1, 5); double ml = r.u(0.05, 0.9); unsigned bw = r.i(3, 8); bool fix = r.coin(0.3); int given = r.i(0, 3);
    std::vector<Hole> H, H2; std::vector<Coord> P, P2; std::string sH = "H = pyslsm.VectorHole()\n", sP = "P = pyslsm.VectorCoord()\n", sH2 = "H2 = pyslsm.VectorHole()\n", sP2 = "P2 = pyslsm.VectorCoord()\n";
    if (kind == 0) { w = r.i(76, 95); h = r.i(76, 95); }
    auto someHoles = [&](std::vector<Hole>& v, std::string& s, const char* n) { for (int i=r.i(1, 3);i>0;i--) { Hole q(r.u(0, w), r.u(0, h), r.u(1.5, 0.4*std::min(w, h))); v.push_back(q); s += std::string(n) + ".append(pyslsm.Hole(" + num(q.coord.x) + ", " + num(q.coord.y) + ", " + num(q.r) + "))\n"; } };
    auto somePoints = [&](std::vector<Coord>& v, std::string& s, const char* n) { double a = r.u(0.1, 0.3)*w, b = r.u(0.1, 0.3)*h, A = r.u(0.6, 0.9)*w, B = r.u(0.6, 0.9)*h; for (Coord q : {Coord(a, b), Coord(A, b), Coord(A, B), Coord(a, B), Coord(a, b)}) { v.push_back(q); s += std::string(n) + ".append(pyslsm.Coord(" + num(q.x) + ", " + num(q.y) + "))\n"; } };
    someHoles(H, sH, "H"); someHoles(H2, sH2, "H2"); somePoints(P, sP, "P"); somePoints(P2, sP2, "P2");
    std::unique_ptr<LevelSet> ls; std::vector<KV> kw{KV("width", num(w)), KV("height", num(h))};
    static const char* names[6][2] = {{0, 0}, {"holes", 0}, {"points", 0}, {"initialHoles", "targetHoles"}, {"initialHoles", "targetPoints"}, {"initialPoints", "targetPoints"}};
    static const char* vars[6][2] = {{0, 0}, {"H", 0}, {"P", 0}, {"H", "H2"}, {"H", "P2"}, {"P", "P2"}};
    for (int i=0;i<2;i++) if (names[kind][i]) kw.push_back(KV(names[kind][i], vars[kind][i]));
    if (given > 0) kw.push_back(KV("moveLimit", num(ml))); if (given > 1) kw.push_back(KV("bandWidth", num(bw))); if (given > 2) kw.push_back(KV("isFixedDomain", num(fix)));
    std::string S = sH + sP + sH2 + sP2 + "ls = pyslsm.LevelSet(" + mix(r, {}, kw) + ")\nfield(ls)\nout(ls.target)\ngrid(ls.mesh)\n"; c.tag("level set %dx%d by constructor %d with %d options", w, h, kind, given);
    py.same(S, [&](std::vector<double>& o)
    {
#define MAKE(...) (given == 0 ? new LevelSet(__VA_ARGS__) : given == 1 ? new LevelSet(__VA_ARGS__, ml) : given == 2 ? new LevelSet(__VA_ARGS__, ml, bw) : new LevelSet(__VA_ARGS__, ml, bw, fix))
        LevelSet* p = nullptr; switch (kind) { case 0: p = MAKE(w, h); break; case 1: p = MAKE(w, h, H); break; case 2: p = MAKE(w, h, P); break; case 3: p = MAKE(w, h, H, H2); break; case 4: p = MAKE(w, h, H, P2); break; default: p = MAKE(w, h, P, P2); }
        ls.reset(p); field(*ls, o); all(ls->target, o); grid(ls->mesh, o);
    });
    if (py.dead) return;
    { bool in = false, out = false; for (double d : ls->signedDistance) { in |= d > 0; out |= d < 0; } if (!in || !out) return; }
    c.nontrivial(hashBytes(py.text.data(), py.text.size()));
    Boundary b; bool have = false; py.same("b = pyslsm.Boundary()\nts = pyslsm.MutableFloat(0.3)\ntm = 0.3\nrng = pyslsm.MersenneTwister()\nrng.setSeed(7)\nio = pyslsm.InputOutput()\n", [](std::vector<double>&) {}); MersenneTwister rng; rng.setSeed(7); double ts = 0.3; InputOutput io;
    auto alive = [&]() { bool in = false, out = false; for (double d : ls->signedDistance) { in |= d > 0; out |= d < 0; if (!(std::fabs(d) < 1e6)) return false; } return in && out; };
    if (r.coin(0.7)) py.same("ls.reinitialise()\nfield(ls)\n", [&](std::vector<double>& o) { ls->reinitialise(); field(*ls, o); });
    std::string dir = scratchDir() + "/py"; if (mode == 2) { mkdir(dir.c_str(), 0700); mkdir((dir + "/a").c_str(), 0700); mkdir((dir + "/b").c_str(), 0700); }
    for (int step=0;step<(c.thorough ? 24 : 14) && !py.dead;step++)
    {
        if (!alive()) return;
        if (!have || r.coin(0.25))
        {
            bool t = kind >= 3 && r.coin(0.2), two = r.coin(); have = !t;
            py.same("b.discretise(" + mix(r, {}, t ? std::vector<KV>{KV("levelSet", "ls"), KV("isTarget", "True")} : two ? std::vector<KV>{KV("levelSet", "ls"), KV("isTarget", "False")} : std::vector<KV>{KV("levelSet", "ls")}) + ")\npoints(b)\nsegments(b)\n", [&](std::vector<double>& o) { if (t) b.discretise(*ls, true); else b.discretise(*ls); points(b, o); segments(b, o); });
            if (py.dead || !b.nPoints) return; if (t && r.coin(0.3)) py.same("out(ls.computeAreaFractions(b))\nareas(ls)\n", [&](std::vector<double>& o) { o.push_back(ls->computeAreaFractions(b)); areas(*ls, o); }); if (t) continue;
        }
        switch (mode == 2 ? r.i(8, 10) : r.i(0, 9))
        {
        case 0: py.same("out(ls.computeAreaFractions(b))\nout(ls.area)\nareas(ls)\n", [&](std::vector<double>& o) { o.push_back(ls->computeAreaFractions(b)); o.push_back(ls->area); areas(*ls, o); }); break;
        case 1:
        {
            int i = r.i(0, b.nPoints - 1); py.same("b.computeNormalVectors(" + mix(r, {}, {KV("levelSet", "ls")}) + ")\npoints(b)\nout(b.computePerimeter(" + mix(r, {}, {KV("point", "b.points[" + num(i) + "]")}) + "))\n", [&](std::vector<double>& o) { b.computeNormalVectors(*ls); points(b, o); o.push_back(b.computePerimeter(b.points[i])); }); break;
        }
        case 2:
        {
            // Plain velocity extension and a step.
            double a = r.u(-1, 1), k = r.u(-0.2, 0.2), dt = r.u(0.1, 0.9)*ls->moveLimit/1.2;
            py.same("for p in b.points: p.velocity = " + num(a) + "*(1 + " + num(k) + "*p.coord.x/" + num((double)w) + ")\nls.computeVelocities(" + mix(r, {}, {KV("boundaryPoints", "b.points")}) + ")\nls.computeGradients()\nfield(ls)\nout(ls.update(" + mix(r, {}, {KV("timeStep", num(dt))}) + "))\nfield(ls)\n", [&](std::vector<double>& o)
            { for (auto& p : b.points) p.velocity = a*(1 + k*p.coord.x/w); ls->computeVelocities(b.points); ls->computeGradients(); field(*ls, o); o.push_back(ls->update(dt)); field(*ls, o); }); have = false; break;
        }
        case 3:
        {
            // Noise: the time step comes back through the mutable number.
            double T = r.coin(0.3) ? 0 : pow(10, r.u(-5, 0)), dt = r.u(0.01, 0.5); bool pos = false; for (auto& p : b.points) pos |= !(p.length > 0); if (pos) break; ts = dt;
            py.same("ts.value = " + num(dt) + "\nfor p in b.points: p.velocity = 0.5\nout(ls.computeVelocities(" + mix(r, {}, {KV("boundaryPoints", "b.points"), KV("timeStep", "ts"), KV("temperature", num(T)), KV("rng", "rng")}) + "), ts.value)\nfield(ls)\npoints(b)\nout(rng())\n", [&](std::vector<double>& o)
            { for (auto& p : b.points) p.velocity = 0.5; o.push_back(ls->computeVelocities(b.points, ts, T, rng)); o.push_back(ts); field(*ls, o); points(b, o); o.push_back(rng()); }); break;
        }
        case 4: case 5:
        {
            // Optimiser.
            unsigned m = r.i(0, 2); bool mx = r.coin(), eq = r.coin(); double far = r.u(0.05, 0.9); int opt = r.i(0, 3); uint64_t salt = r.next() % 1000; std::vector<double> lam(m + 1), dist(m); std::string sl = "[", sd = "["; for (double& d : lam) { d = r.u(-1, 1); sl += num(d) + ","; } for (double& d : dist) { d = r.u(-5, 5); sd += num(d) + ","; } double s1 = r.u(-1, 1), s2 = r.u(-0.5, 0.5);
            std::string s = "i = 0\nfor p in b.points:\n  q = p.sensitivities\n  while len(q) < " + num(m + 1) + ": q.append(0)\n"; for (unsigned j=0;j<=m;j++) s += "  p.sensitivities[" + num(j) + "] = " + num(s1) + " + " + num(s2) + "*((i*" + num(7 + (int)j) + ") % 5)\n"; s += "  i += 1\nlam = pyslsm.VectorDouble(" + sl + "])\ndist = pyslsm.VectorDouble(" + sd + "])\nts = pyslsm.MutableFloat(9)\n";
            std::vector<KV> kw; if (opt > 0) kw.push_back(KV("maxDisplacement", num(far))); if (opt > 1) kw.push_back(KV("isMax", num(mx))); std::vector<bool> q(m, eq); if (opt > 2) { std::string e = "pyslsm.VectorBool(["; for (unsigned j=0;j<m;j++) e += num(eq) + ","; kw.push_back(KV("isEquality", e + "])")); }
            std::string args = mix(r, {"b.points", r.coin() ? "dist" : "pyslsm.VectorDouble(dist)", "lam", "ts"}, kw); s += "o = pyslsm.Optimise(" + args + ")\nout(o.solve(), ts.value, lam)\npoints(b)\n"; std::vector<double> t1, t2; solver(t1, salt);
            std::vector<double> va; py.same(s, [&](std::vector<double>& o)
            {
                for (size_t i=0;i<b.points.size();i++) { auto& p = b.points[i]; if (p.sensitivities.size() < m + 1) p.sensitivities.resize(m + 1); for (unsigned j=0;j<=m;j++) p.sensitivities[j] = s1 + s2*(double)((i*(7 + j)) % 5); }
                solver(t2, salt); double t = 9; std::unique_ptr<Optimise> x; if (opt == 0) x.reset(new Optimise(b.points, dist, lam, t)); else if (opt == 1) x.reset(new Optimise(b.points, dist, lam, t, far)); else if (opt == 2) x.reset(new Optimise(b.points, dist, lam, t, far, mx)); else x.reset(new Optimise(b.points, dist, lam, t, far, mx, q));
                o.push_back(x->solve()); o.push_back(t); all(lam, o); points(b, o); ts = t;
            });
            if (!py.dead && (t1.size() != t2.size() || memcmp(t1.data(), t2.data(), t1.size()*sizeof(double)))) return c.fail("problem", "the optimisation problem posed differs from the one posed through C++: %s", args.c_str());
            nlopt::hook() = nullptr; c.count("optimisations"); break;
        }
        case 6:
        {
            // Sensitivities with a Python function.
            int i = r.i(0, b.nPoints - 1); double d = pow(10, r.u(-5, -1)), A = r.u(-3, 3), B = r.u(-3, 3), C = r.u(-1, 1), T = r.u(0, 2); bool def = r.coin(); if (!(b.points[i].length > 0)) break; bool bad = false; for (auto& p : b.points) bad |= !(p.length > 0);
            py.same("def f(p): return " + num(A) + "*p.coord.x + " + num(B) + "*p.coord.y + " + num(C) + "*p.coord.x*p.coord.y + p.length\ncb = pyslsm.Callback()\ncb.callback = f\ns = pyslsm.Sensitivity(" + (def ? "" : mix(r, {}, {KV("delta", num(d))})) + ")\nout(s.computeSensitivity(" + mix(r, {}, {KV("point", "b.points[" + num(i) + "]"), KV("callback", r.coin() ? "cb.callback" : "f")}) + "))\npoints(b)\n", [&](std::vector<double>& o)
            { SensitivityCallback f = [&](const BoundaryPoint& p) { return A*p.coord.x + B*p.coord.y + C*p.coord.x*p.coord.y + p.length; }; Sensitivity s(def ? Sensitivity() : Sensitivity(d)); o.push_back(s.computeSensitivity(b.points[i], f)); points(b, o); });
            if (!bad) { bool two = r.coin(); py.same("s.itoCorrection(" + mix(r, {}, two ? std::vector<KV>{KV("boundary", "b"), KV("levelSet", "ls"), KV("temperature", num(T))} : std::vector<KV>{KV("boundary", "b"), KV("temperature", num(T))}) + ")\npoints(b)\n", [&](std::vector<double>& o) { Sensitivity s(def ? Sensitivity() : Sensitivity(d)); if (two) s.itoCorrection(b, *ls, T); else s.itoCorrection(b, T); points(b, o); }); }
            c.count("callbacks"); break;
        }
        case 7:
        {
            // Masks, direct marching, direct access to the fields.
            int what = r.i(0, 3);
            if (what == 0) { double x = r.u(0, w), y = r.u(0, h), R = r.u(1, 0.25*std::min(w, h)); py.same("M = pyslsm.VectorHole()\nM.append(pyslsm.Hole(" + num(x) + ", " + num(y) + ", " + num(R) + "))\nls.mask(" + mix(r, {}, {KV("holes", "M")}) + ")\nfield(ls)\n", [&](std::vector<double>& o) { ls->mask(std::vector<Hole>(1, Hole(x, y, R))); field(*ls, o); }); have = false; }
            else if (what == 1) { double x = r.u(0, w - 2), y = r.u(0, h - 2), X = x + r.u(1, 3), Y = y + r.u(1, 3); py.same("ls.mask(" + mix(r, {}, {KV("points", "pyslsm.VectorCoord([pyslsm.Coord(" + num(x) + ", " + num(y) + "), pyslsm.Coord(" + num(X) + ", " + num(Y) + ")])")}) + ")\nfield(ls)\n", [&](std::vector<double>& o) { ls->mask(std::vector<Coord>{Coord(x, y), Coord(X, Y)}); field(*ls, o); }); have = false; }
            else if (what == 2) { int t = r.i(0, 2); py.same(std::string("sd = pyslsm.VectorDouble(ls.signedDistance)\nve = pyslsm.VectorDouble(ls.velocity)\nfm = pyslsm.FastMarchingMethod(") + (t == 0 ? mix(r, {}, {KV("mesh", "ls.mesh")}) : mix(r, {}, {KV("mesh", "ls.mesh"), KV("isTest", "False")})) + ")\nfm.march(" + mix(r, {}, {KV("signedDistance", "sd")}) + ")\nout(sd)\n", [&](std::vector<double>& o) { FastMarchingMethod f(ls->mesh); std::vector<double> s = ls->signedDistance; f.march(s); all(s, o); }); }
            else { int n = r.i(0, ls->mesh.nNodes - 1); double d = r.u(-0.5, 0.5), z = r.u(-2, 2); py.same("ls.signedDistance[" + num(n) + "] = ls.signedDistance[" + num(n) + "] + " + num(d) + "\nls.velocity = pyslsm.VectorDouble([" + num(z) + "]*ls.mesh.nNodes)\nls.gradient[" + num(n) + "] = 1.5\nfield(ls)\n", [&](std::vector<double>& o) { ls->signedDistance[n] += d; std::fill(ls->velocity.begin(), ls->velocity.end(), z); ls->gradient[n] = 1.5; field(*ls, o); }); py.same("ls.reinitialise()\nfield(ls)\n", [&](std::vector<double>& o) { ls->reinitialise(); field(*ls, o); }); have = false; }
            break;
        }
        case 8: case 10:
        {
            // Files: every exporter, either naming form, both sides the same bytes.
            if (mode != 2) { py.same("ls.computeGradients()\nfield(ls)\n", [&](std::vector<double>& o) { ls->computeGradients(); field(*ls, o); }); break; }
            int what = r.i(0, 6), form = r.coin(); unsigned k = r.i(0, 12000); int n = r.i(0, 2); bool f1 = r.coin(), f2 = r.coin();
            static const char* fn[] = {"saveLevelSetVTK", "saveLevelSetTXT", "saveLevelSetBIN", "saveBoundaryPointsTXT", "saveBoundarySegmentsTXT", "saveAreaFractionsVTK", "saveAreaFractionsTXT"};
            static const char* stem[] = {"level-set_%04u.vtk", "level-set_%04u.txt", "level-set_%04u.bin", "boundary-points_%04u.txt", "boundary-segments_%04u.txt", "area_%04u.vtk", "area_%04u.txt"};
            char file[64]; snprintf(file, sizeof file, stem[what], k); std::string A = form ? dir + "/a/x" : dir + "/a/" + file, B = form ? dir + "/b/x" : dir + "/b/" + file; std::string obj = what < 3 ? "ls" : what < 5 ? "b" : "ls.mesh";
            std::string first = form ? "'" + A + "'" : num(k), tail; if (!form && what != 0 && what != 1 && what != 6) tail = ", outputDirectory='" + dir + "/a'";
            if (what == 0) { if (n > 0) tail += ", isVelocity=" + num(f1); if (n > 1) tail += ", isGradient=" + num(f2); if (!form) tail += ", outputDirectory='" + dir + "/a'"; }
            if (what == 1 || what == 6) { if (!form) tail += ", '" + dir + "/a'"; if (n > 0) tail += r.coin() ? ", isXY=" + num(f1) : ", " + num(f1); }
            bool v = n > 0 && f1, g = n > 1 && f2; std::string D = dir + "/b"; unlink(A.c_str()); unlink(B.c_str());
            py.same(std::string("io.") + fn[what] + "(" + first + ", " + obj + tail + ")\n", [&](std::vector<double>&)
            {
                switch (what * 2 + form)
                {
                    case 0: io.saveLevelSetVTK(k, *ls, v, g, D); break; case 1: io.saveLevelSetVTK(B, *ls, v, g); break;
                    case 2: io.saveLevelSetTXT(k, *ls, D, v); break; case 3: io.saveLevelSetTXT(B, *ls, v); break;
                    case 4: io.saveLevelSetBIN(k, *ls, D); break; case 5: io.saveLevelSetBIN(B, *ls); break;
                    case 6: io.saveBoundaryPointsTXT(k, b, D); break; case 7: io.saveBoundaryPointsTXT(B, b); break;
                    case 8: io.saveBoundarySegmentsTXT(k, b, D); break; case 9: io.saveBoundarySegmentsTXT(B, b); break;
                    case 10: io.saveAreaFractionsVTK(k, ls->mesh, D); break; case 11: io.saveAreaFractionsVTK(B, ls->mesh); break;
                    case 12: io.saveAreaFractionsTXT(k, ls->mesh, D, v); break; default: io.saveAreaFractionsTXT(B, ls->mesh, v);
                }
            });
            if (py.dead) return; std::string x = slurp(A), y = slurp(B); c.count("files compared"); if (x == "(missing)" || x != y) return c.fail("file", "%s wrote %s from Python (%zu bytes), %zu bytes from C++", fn[what], x == "(missing)" ? "nothing where expected" : "something else", x.size(), y.size());
            if (what == 1 || what == 2)
            {
                // Load it back through Python, in either form, into fresh objects.
                std::string call = std::string("q.") + (what == 1 ? "loadLevelSetTXT" : "loadLevelSetBIN") + "(" + first + ", l2" + (form ? "" : ", '" + dir + "/a'") + (what == 1 && n > 0 ? ", isXY=" + num(f1) : "") + ")\n";
                py.same("q = pyslsm.InputOutput()\nl2 = pyslsm.LevelSet(" + num(w) + ", " + num(h) + ", H)\n" + call + "out(l2.signedDistance)\n", [&](std::vector<double>& o) { LevelSet l2(w, h, H); if (what == 1) { if (form) io.loadLevelSetTXT(B, l2, v); else io.loadLevelSetTXT(k, l2, D, v); } else { if (form) io.loadLevelSetBIN(B, l2); else io.loadLevelSetBIN(k, l2, D); } all(l2.signedDistance, o); });
            }
            unlink(A.c_str()); unlink(B.c_str()); break;
        }
        default:
        {
            // Lifetimes: whatever Python still holds stays valid after its owner's name is gone.
            int i = r.i(0, b.nPoints - 1), what = r.i(0, 5); std::vector<double> t1, t2;
            switch (what)
            {
            case 0: py.same("def mk():\n  l = pyslsm.LevelSet(" + num(w) + ", " + num(h) + ", H)\n  return l.mesh\nm = mk()\ngc.collect()\ngrid(m)\n", [&](std::vector<double>& o) { LevelSet l(w, h, H); grid(l.mesh, o); }); break;
            case 1: py.same("def mk():\n  x = pyslsm.Boundary()\n  x.discretise(ls)\n  return x.points[" + num(i % 3) + "]\np = mk()\ngc.collect()\nout(p.coord.x, p.coord.y, p.length, p.neighbours)\nk = mk().coord\ngc.collect()\nout(k.x, k.y)\n", [&](std::vector<double>& o) { Boundary x; x.discretise(*ls); auto& p = x.points[i % 3]; o = {p.coord.x, p.coord.y, p.length}; for (unsigned n : p.neighbours) o.push_back(n); o.push_back(p.coord.x); o.push_back(p.coord.y); }); break;
            case 2: py.same("f = pyslsm.FastMarchingMethod(pyslsm.Mesh(" + num(w) + ", " + num(h) + "))\njunk = [pyslsm.Mesh(" + num(w) + ", 3) for i in range(3)]\nsd = pyslsm.VectorDouble(ls.signedDistance)\nf.march(sd)\nout(sd)\n", [&](std::vector<double>& o) { Mesh m(w, h); FastMarchingMethod f(m); std::vector<double> s = ls->signedDistance; f.march(s); all(s, o); }); break;
            case 3:
            {
                solver(t1, 5); py.same("def mk():\n  x = pyslsm.Boundary()\n  x.discretise(ls)\n  for p in x.points: p.sensitivities[0] = 1.25\n  return pyslsm.Optimise(x.points, pyslsm.VectorDouble(), pyslsm.VectorDouble([0.5]), pyslsm.MutableFloat())\no = mk()\ngc.collect()\njunk = [pyslsm.VectorDouble([1.0]*k) for k in range(9)]\nout(o.solve())\n", [&](std::vector<double>& o) { Boundary x; x.discretise(*ls); for (auto& p : x.points) p.sensitivities[0] = 1.25; solver(t2, 5); std::vector<double> l(1, 0.5); std::vector<double> none; double t = 0; Optimise z(x.points, none, l, t); o.push_back(z.solve()); }); nlopt::hook() = nullptr; break;
            }
            case 4: py.same("def mk(a):\n  c = pyslsm.Callback()\n  c.callback = lambda p: a*p.coord.x\n  return c\np = pyslsm.Boundary()\np.discretise(ls)\np = p.points[" + num(i % 3) + "]\nif p.length > 0: out(pyslsm.Sensitivity().computeSensitivity(p, mk(2.5).callback))\n", [&](std::vector<double>& o) { Boundary x; x.discretise(*ls); SensitivityCallback f = [](const BoundaryPoint& p) { return 2.5*p.coord.x; }; if (x.points[i % 3].length > 0) o.push_back(Sensitivity().computeSensitivity(x.points[i % 3], f)); }); break;
            default: py.same("def mk():\n  l = pyslsm.LevelSet(" + num(w) + ", " + num(h) + ", H)\n  return l.signedDistance, l.mesh.nodes[" + num(i % 5) + "], l.mesh.elements\na, n, e = mk()\ngc.collect()\nout(a, n.coord.x, n.neighbours, [q.coord.x for q in e])\n", [&](std::vector<double>& o) { LevelSet l(w, h, H); all(l.signedDistance, o); auto& n = l.mesh.nodes[i % 5]; o.push_back(n.coord.x); for (unsigned k : n.neighbours) o.push_back(k); for (auto& e : l.mesh.elements) o.push_back(e.coord.x); });
            }
            c.count("lifetime programs");
        }
        }
    }
}
