// I01-I03: input and output.
#include "vh.h"
#include "scene.h"
#include "digest.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <cstdlib>
using namespace vh;
using namespace slsm;

namespace
{
    std::string slurp(const std::string& p, bool& ok)
    {
        FILE* f = fopen(p.c_str(), "rb"); ok = f != nullptr; std::string s; if (!f) return s;
        char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
    }
    void spill(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
    std::vector<std::string> linesOf(const std::string& s)
    { std::vector<std::string> v; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }
    std::vector<std::string> wordsOf(const std::string& s)
    { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { while (i < s.size() && isspace((unsigned char)s[i])) i++; size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j])) j++; if (j > i) v.push_back(s.substr(i, j - i)); i = j; } return v; }
    bool isNumber(const std::string& w) { if (w.empty()) return false; char* e; strtod(w.c_str(), &e); return *e == 0; }
    bool plain(const std::string& w) { for (char ch : w) if (!strchr("0123456789+-.eE", ch)) return false; return isNumber(w); }

    // A fresh scratch folder per case.
    struct Room
    {
        std::string dir; char old[4096];
        explicit Room(Ctx& c) { dir = scratchDir() + "/io"; mkdir(dir.c_str(), 0700); if (!getcwd(old, sizeof old)) abort(); if (chdir(dir.c_str())) abort(); clear(); }
        std::vector<std::string> files;
        void add(const std::string& f) { files.push_back(f); }
        void clear() { for (auto& f : files) unlink(f.c_str()); files.clear(); }
        ~Room() { clear(); if (chdir(old)) abort(); }
    };
    double oddValue(Rng& r)
    {
        switch (r.i(0, 9))
        {
            case 0: return 0; case 1: return -0.0; case 2: return r.u(-1e-6, 1e-6); case 3: return r.u(-1, 1)*pow(10, r.u(-300, 300));
            case 4: return r.i(-1000, 1000); case 5: return r.i(-100, 100)*0.5e-6; case 6: return (r.coin() ? 1 : -1)*DBL_MAX*r.u(); case 7: return 5e-324*r.i(-3, 3);
            default: return r.u(-40, 40);
        }
    }
    void fillOdd(Rng& r, std::vector<double>& v) { bool mild = r.coin(0.6); for (double& x : v) x = mild ? r.u(-30, 30) : oddValue(r); }
    std::unique_ptr<LevelSet> makeLS(Rng& r, int w, int h)
    {
        std::unique_ptr<LevelSet> p(new LevelSet(w, h, std::vector<Hole>(), 0.5, r.i(3, 8), r.coin(0.3)));
        return p;
    }
    std::string numbered(const char* stem, unsigned k, const char* ext, const std::string& dir)
    { char b[64]; snprintf(b, sizeof b, "%s_%04u.%s", stem, k, ext); return dir.empty() ? std::string(b) : dir + "/" + b; }
    unsigned randomIndex(Rng& r) { switch (r.i(0, 5)) { case 0: return 0; case 1: return r.i(10000, 99999); case 2: return r.i(900, 1100); case 3: return r.coin() ? 4294967295u : 9999; default: return r.i(1, 9998); } }
    bool sixDecimals(const std::string& w) { size_t d = w.find('.'); return d != std::string::npos && w.size() - d == 7 && plain(w) && w.find('e') == std::string::npos; }
    bool printed(const std::string& w, double v) { if (!sixDecimals(w)) return false; double g = strtod(w.c_str(), nullptr); return std::fabs(g - v) <= 0.5e-6*(1 + 1e-9) + 4*DBL_EPSILON*std::fabs(v); }
}

VH_CHECK(I01, 6000, 40000, "a case counts when a level set with varied values came back; identified by values and options")
{
    int w = c.rng.coin(0.2) ? c.rng.i(1, 3) : c.rng.i(2, 24), h = c.rng.coin(0.2) ? c.rng.i(1, 3) : c.rng.i(2, 24); if (c.rng.coin(0.01)) { w = 150; h = 170; } largeGrid(c, 250, w, h);
    std::unique_ptr<LevelSet> a = makeLS(c.rng, w, h), b = makeLS(c.rng, w, h);
    fillOdd(c.rng, a->signedDistance); fillOdd(c.rng, a->velocity); fillOdd(c.rng, a->gradient);
    if (c.rng.coin(0.3)) { Field f(w, h); std::string t; f = randomField(c.rng, w, h, t); b->signedDistance = f.v; b->reinitialise(); }
    fillOdd(c.rng, b->signedDistance); fillOdd(c.rng, b->velocity); fillOdd(c.rng, b->gradient); fillOdd(c.rng, b->target); b->area = c.rng.u();
    bool bin = c.rng.coin(), xy = !bin && c.rng.coin(), numS = c.rng.coin(), numL = c.rng.coin(); unsigned k = randomIndex(c.rng);
    std::string dir = c.rng.coin(0.4) ? "" : c.rng.pick(std::vector<std::string>{"out", "out", "./out", "a b", ".", "v1.", "out/", "%s%d", "-x", "a.vtk"});
    Room room(c); if (!dir.empty()) mkdir(dir.c_str(), 0700);
    std::string name = numbered("level-set", k, bin ? "bin" : "txt", dir); room.add(name);
    c.tag("%dx%d %s%s index %u folder '%s', saved by %s, loaded by %s", w, h, bin ? "binary" : "text", xy ? " with coordinates" : "", k, dir.c_str(), numS ? "number" : "name", numL ? "number" : "name");
    InputOutput io; Digest da = digest(*a, true);
    if (c.rng.coin(0.2)) spill(name, std::string(c.rng.i(1, 100000), 'x'));        // something longer to overwrite
    if (bin) { if (numS) { if (dir.empty() && c.rng.coin()) io.saveLevelSetBIN(k, *a); else io.saveLevelSetBIN(k, *a, dir); } else io.saveLevelSetBIN(name, *a); }
    else { if (numS) { if (dir.empty() && !xy && c.rng.coin()) io.saveLevelSetTXT(k, *a); else io.saveLevelSetTXT(k, *a, dir, xy); } else io.saveLevelSetTXT(name, *a, xy); }
    if (digest(*a, true) != da) return c.fail("saving-changes", "saving changed the level set");
    if (access(name.c_str(), R_OK)) return c.fail("name", "no file %s", name.c_str());
    Digest db = digest(*b, false);
    if (bin) { if (numL) io.loadLevelSetBIN(k, *b, dir); else io.loadLevelSetBIN(name, *b); }
    else { if (numL) io.loadLevelSetTXT(k, *b, dir, xy); else io.loadLevelSetTXT(name, *b, xy); }
    if (b->signedDistance.size() != a->signedDistance.size()) return c.fail("size", "%zu values after loading", b->signedDistance.size());
    for (size_t i=0;i<a->signedDistance.size();i++)
    {
        double x = a->signedDistance[i], y = b->signedDistance[i];
        if (bin ? memcmp(&x, &y, 8) != 0 : !(std::fabs(x - y) <= 0.5e-6*(1 + 1e-9) + 4*DBL_EPSILON*std::fabs(x))) return c.fail("value", "value %zu of %zu: saved %.17g, loaded %.17g", i, a->signedDistance.size(), x, y);
        if (!bin && std::fabs(x) >= 1e-6 && std::signbit(x) != std::signbit(y)) return c.fail("sign", "value %zu: saved %.17g, loaded %.17g", i, x, y);
    }
    if (digest(*b, false) != db) return c.fail("loading-changes", "loading changed more than the level-set values");
    // A second pass through text reproduces the very same file.
    if (!bin)
    {
        std::string n2 = "again.txt"; room.add(n2); bool ok; b->velocity = a->velocity; b->gradient = a->gradient; io.saveLevelSetTXT(n2, *b, xy);
        if (slurp(n2, ok) != slurp(name, ok)) return c.fail("idempotent", "saving the loaded level set gives another file");
    }
    else { std::string n2 = "again.bin"; room.add(n2); bool ok; io.saveLevelSetBIN(n2, *b); std::string s = slurp(n2, ok); if (s != slurp(name, ok)) return c.fail("idempotent", "saving the loaded level set gives another file"); if (s.size() != a->signedDistance.size()*8) return c.fail("layout", "%zu bytes for %zu values", s.size(), a->signedDistance.size()); }
    c.count("values compared", a->signedDistance.size()); c.count(bin ? "binary" : "text");
    c.nontrivial(hashU(k*8 + bin*4 + xy*2 + numS, hashV(a->signedDistance)));
}

namespace
{
    // The documented layout, line by line; "" as a word in front means a printed value to compare.
    struct Want { std::vector<std::vector<std::string>> words; std::vector<std::vector<double>> vals; std::vector<char> any; };
    void text(Want& w, const std::string& l) { w.words.push_back(wordsOf(l)); w.vals.push_back({}); w.any.push_back(0); }
    void vals(Want& w, std::vector<double> v) { w.words.push_back({}); w.vals.push_back(v); w.any.push_back(0); }
    void vtkHead(Want& w, unsigned W, unsigned H)
    {
        char b[100]; text(w, "# vtk DataFile Version 3.0"); text(w, ""); w.any.back() = 1; text(w, "ASCII"); text(w, "DATASET RECTILINEAR_GRID");
        snprintf(b, sizeof b, "DIMENSIONS %u %u 1", W + 1, H + 1); text(w, b);
        for (int a=0;a<2;a++)
        {
            unsigned n = (a ? H : W) + 1; snprintf(b, sizeof b, "%c_COORDINATES %u int", "XY"[a], n); text(w, b);
            std::string l; for (unsigned i=0;i<n;i++) l += std::to_string(i) + " "; text(w, l);
        }
        text(w, "Z_COORDINATES 1 int"); text(w, "0");
    }
    void vtkData(Want& w, const char* name, const std::vector<double>& v)
    { text(w, std::string("SCALARS ") + name + " float 1"); text(w, "LOOKUP_TABLE default"); for (double x : v) vals(w, {x}); }
    // Blank lines are only significant in the segment file.
    bool matches(const std::string& content, const Want& w, bool skipBlank, std::string& why)
    {
        std::vector<std::string> L = linesOf(content); char b[400]; size_t k = 0;
        if (!content.empty() && content.back() != '\n') { why = "no line end at the end of the file"; return false; }
        for (size_t i=0;i<w.words.size();i++, k++)
        {
            while (skipBlank && k < L.size() && wordsOf(L[k]).empty()) k++;
            if (k >= L.size()) { snprintf(b, sizeof b, "file ends at line %zu", k); why = b; return false; }
            std::vector<std::string> g = wordsOf(L[k]); if (w.any[i]) continue;
            if (w.vals[i].empty()) { if (g != w.words[i]) { snprintf(b, sizeof b, "line %zu is '%.150s'", k + 1, L[k].c_str()); why = b; return false; } continue; }
            bool ok = g.size() == w.vals[i].size(); for (size_t j=0;ok && j<g.size();j++) ok = printed(g[j], w.vals[i][j]);
            if (!ok) { snprintf(b, sizeof b, "line %zu is '%.150s', data are %.9g%s", k + 1, L[k].c_str(), w.vals[i][0], w.vals[i].size() > 1 ? " ..." : ""); why = b; return false; }
        }
        while (skipBlank && k < L.size() && wordsOf(L[k]).empty()) k++;
        if (k != L.size()) { snprintf(b, sizeof b, "%zu extra lines, first '%.100s'", L.size() - k, L[k].c_str()); why = b; return false; }
        return true;
    }
}

VH_CHECK(I02, 6000, 40000, "a case counts when an exported file was compared with the data; identified by the file's content")
{
    largeScene(c, 250); Scene s; bool big = c.rng.coin(0.01) || dueSize().first; if (!makeScene(c.rng, s, big ? S_NOTARGET : S_NOTARGET | S_SMALL)) return;
    Boundary bd; bd.discretise(*s.ls); s.ls->computeAreaFractions(bd);
    fillOdd(c.rng, s.ls->velocity); fillOdd(c.rng, s.ls->gradient); if (c.rng.coin(0.3)) fillOdd(c.rng, s.ls->signedDistance);
    if (c.rng.coin(0.1)) { Boundary none; bd = none; bd.nPoints = bd.nSegments = 0; bd.points.clear(); bd.segments.clear(); }
    int kind = c.rng.i(0, 5); unsigned k = randomIndex(c.rng); bool o1 = c.rng.coin(), o2 = c.rng.coin();
    std::string dir = c.rng.coin(0.4) ? "" : c.rng.pick(std::vector<std::string>{"out", "out", "./out", "a b", ".", "v1.", "out/", "%s%d", "-x", "a.vtk"});
    static const char* stems[] = {"level-set", "level-set", "boundary-points", "boundary-segments", "area", "area"};
    static const char* exts[] = {"vtk", "txt", "txt", "txt", "vtk", "txt"};
    Room room(c); if (!dir.empty()) mkdir(dir.c_str(), 0700);
    std::string num = numbered(stems[kind], k, exts[kind], dir), nam = c.rng.coin() ? "named.out" : (dir.empty() ? "x" : dir + "/y.z"); room.add(num); room.add(nam);
    c.tag("%s.%s %dx%d options %d %d index %u folder '%s' (%s)", stems[kind], exts[kind], s.w, s.h, o1, o2, k, dir.c_str(), s.text.c_str());
    InputOutput io; LevelSet& ls = *s.ls; Mesh& m = ls.mesh; Want w; Digest before = digest(ls, true), bb = digest(bd);
    if (c.rng.coin(0.2)) spill(num, std::string(c.rng.i(1, 200000), '7')), spill(nam, std::string(c.rng.i(1, 200000), '7'));
    bool defs = c.rng.coin(0.3);   // leave out trailing arguments where they are at their defaults
    switch (kind)
    {
        case 0:
            if (defs && dir.empty() && !o1 && !o2) { io.saveLevelSetVTK(k, ls); io.saveLevelSetVTK(nam, ls); }
            else { io.saveLevelSetVTK(k, ls, o1, o2, dir); io.saveLevelSetVTK(nam, ls, o1, o2); }
            vtkHead(w, m.width, m.height); text(w, "POINT_DATA " + std::to_string(m.nNodes)); vtkData(w, "distance", ls.signedDistance);
            if (o1) vtkData(w, "velocity", ls.velocity); if (o2) vtkData(w, "gradient", ls.gradient);
            break;
        case 1:
            if (defs && !o1) { io.saveLevelSetTXT(k, ls, dir); io.saveLevelSetTXT(nam, ls); } else { io.saveLevelSetTXT(k, ls, dir, o1); io.saveLevelSetTXT(nam, ls, o1); }
            for (unsigned i=0;i<m.nNodes;i++)
            {
                std::vector<double> v; if (o1) v = {(double)(i % (s.w + 1)), (double)(i/(s.w + 1))};
                v.push_back(ls.signedDistance[i]); v.push_back(ls.velocity[i]); v.push_back(ls.gradient[i]); vals(w, v);
            }
            break;
        case 2:
            io.saveBoundaryPointsTXT(k, bd, dir); io.saveBoundaryPointsTXT(nam, bd);
            for (auto& p : bd.points) vals(w, {p.coord.x, p.coord.y, p.length});
            break;
        case 3:
            io.saveBoundarySegmentsTXT(k, bd, dir); io.saveBoundarySegmentsTXT(nam, bd);
            for (auto& g : bd.segments) { vals(w, {bd.points[g.start].coord.x, bd.points[g.start].coord.y}); vals(w, {bd.points[g.end].coord.x, bd.points[g.end].coord.y}); text(w, ""); }
            break;
        case 4:
            io.saveAreaFractionsVTK(k, m, dir); io.saveAreaFractionsVTK(nam, m);
            vtkHead(w, m.width, m.height); text(w, "CELL_DATA " + std::to_string(m.nElements));
            { std::vector<double> v; for (auto& e : m.elements) v.push_back(e.area); vtkData(w, "area", v); }
            break;
        default:
            if (defs && !o1) { io.saveAreaFractionsTXT(k, m, dir); io.saveAreaFractionsTXT(nam, m); } else { io.saveAreaFractionsTXT(k, m, dir, o1); io.saveAreaFractionsTXT(nam, m, o1); }
            for (unsigned i=0;i<m.nElements;i++) { std::vector<double> v; if (o1) v = {i % s.w + 0.5, i/s.w + 0.5}; v.push_back(m.elements[i].area); vals(w, v); }
    }
    if (digest(ls, true) != before || digest(bd) != bb) return c.fail("saving-changes", "saving changed the data");
    bool ok1, ok2; std::string a = slurp(num, ok1), b = slurp(nam, ok2), why;
    if (!ok1) return c.fail("name", "no file %s", num.c_str()); if (!ok2) return c.fail("name", "no file %s", nam.c_str());
    if (a != b) return c.fail("forms", "the numbered and the named form write different files (%zu and %zu bytes)", a.size(), b.size());
    if (!matches(a, w, kind == 0 || kind == 4, why)) return c.fail("content", "%s", why.c_str());
    c.count("files"); c.count("lines compared", w.words.size()); c.nontrivial(hashBytes(a.data(), a.size(), kind*4 + o1*2 + o2));
}

VH_CHECK(I03, 1500, 20000, "a case counts when a damaged or unwritable file was tried; identified by the damage")
{
    int w = c.rng.i(1, 9), h = c.rng.i(1, 9); std::unique_ptr<LevelSet> a = makeLS(c.rng, w, h), b = makeLS(c.rng, w, h);
    for (auto* v : {&a->signedDistance, &a->velocity, &a->gradient}) for (double& x : *v) x = c.rng.coin(0.1) ? oddValue(c.rng) : c.rng.u(-9, 9);
    for (double& x : b->signedDistance) x = 12345; for (double& x : b->velocity) x = 7;
    Room room(c); InputOutput io; std::string err; size_t n = a->signedDistance.size();
    if (c.rng.coin(0.15))
    {
        // Output that can't be opened or written.
        int kind = c.rng.i(0, 6), fault = c.rng.i(0, 2); std::string name = fault == 0 ? "missing/file" : fault == 1 ? "/dev/full" : "short"; if (fault == 2) room.add(name);
        Scene s; if (!makeScene(c.rng, s, S_NOTARGET)) return; Boundary bd; bd.discretise(*s.ls); s.ls->computeAreaFractions(bd); if (bd.nPoints < 3) return;
        // How long the whole file is.
        auto save = [&](const std::string& nm)
        {
            switch (kind)
            {
                case 0: io.saveLevelSetVTK(nm, *s.ls, true, true); break; case 1: io.saveLevelSetTXT(nm, *s.ls); break; case 2: io.saveLevelSetBIN(nm, *s.ls); break;
                case 3: io.saveBoundaryPointsTXT(nm, bd); break; case 4: io.saveBoundarySegmentsTXT(nm, bd); break; case 5: io.saveAreaFractionsVTK(nm, s.ls->mesh); break; default: io.saveAreaFractionsTXT(nm, s.ls->mesh);
            }
        };
        long limit = 0;
        if (fault == 2) { room.add("whole"); save("whole"); struct stat st; if (stat("whole", &st)) return c.fail("name", "no file written"); if (!st.st_size) return; limit = c.rng.coin(0.3) ? st.st_size - 1 : c.rng.i(0, st.st_size - 1); }
        c.tag("saving kind %d, fault %d%s", kind, fault, fault == 0 ? " (missing folder)" : fault == 1 ? " (device full)" : " (size limit)");
        int rc = runChild([&]() { if (fault == 2) { signal(SIGXFSZ, SIG_IGN); struct rlimit rl; rl.rlim_cur = rl.rlim_max = limit; setrlimit(RLIMIT_FSIZE, &rl); } save(name); _exit(0); }, err);
        if (rc == 0) return c.fail("write-fault", "saving to %s (limit %ld bytes) reported no error", name.c_str(), limit);
        if (rc != EXIT_FAILURE) return c.fail("write-crash", "saving ended with status %d: %.300s", rc, err.c_str());
        if (fault != 2 && err.find_first_not_of(" \n") == std::string::npos) return c.fail("message", "stopped without a message");
        c.count("unwritable outputs"); c.nontrivial(hashU(kind*3 + fault, hashU(limit, 5))); return;
    }
    bool bin = c.rng.coin(0.35), xy = !bin && c.rng.coin(), rxy = xy, numbered_ = c.rng.coin(0.3); std::string name = numbered_ ? numbered("level-set", 3, bin ? "bin" : "txt", "") : "file", what; bool ok; room.add(name);
    if (bin) io.saveLevelSetBIN(name, *a); else io.saveLevelSetTXT(name, *a, xy);
    std::string t = slurp(name, ok); bool missing = false; std::vector<std::string> L = linesOf(t); auto join = [&]() { t.clear(); for (auto& l : L) t += l + "\n"; };
    if (bin) switch (c.rng.i(0, 6))
    {
        case 0: { size_t k = c.rng.i(0, (int)t.size() - 1); t.resize(k); what = "cut to " + std::to_string(k) + " bytes"; break; }
        case 1: { size_t k = c.rng.i(1, 40); t += std::string(k, 'z'); what = std::to_string(k) + " extra bytes"; break; }
        case 2: t.clear(); what = "empty"; break;
        case 3: missing = true; what = "missing"; break;
        case 4: { int dw = c.rng.i(1, 3); std::unique_ptr<LevelSet> o = makeLS(c.rng, w + (c.rng.coin() ? dw : 0), h + dw); io.saveLevelSetBIN(name, *o); t = slurp(name, ok); what = "larger grid"; break; }
        case 5: { size_t k = c.rng.i(0, (int)n - 1); t.resize(8*k); what = "cut to " + std::to_string(k) + " values"; break; }
        default: what = "intact";
    }
    else switch (c.rng.i(0, 13))
    {
        case 0: { size_t k = c.rng.i(0, (int)t.size() - 1); t.resize(k); what = "cut to " + std::to_string(k) + " bytes"; break; }
        case 1: { L.erase(L.begin() + c.rng.i(0, (int)L.size() - 1)); join(); what = "a line removed"; break; }
        case 2: { L.insert(L.begin() + c.rng.i(0, (int)L.size()), L[c.rng.i(0, (int)L.size() - 1)]); join(); what = "a line repeated"; break; }
        case 3: missing = true; what = "missing"; break;
        case 4: t.clear(); what = "empty"; break;
        case 5: rxy = !xy; what = rxy ? "read as if it held coordinates" : "coordinates not expected"; break;
        case 6: { std::string& l = L[c.rng.i(0, (int)L.size() - 1)]; auto W = wordsOf(l); int k = c.rng.i(0, (int)W.size() - 1); W[k] = c.rng.pick(std::vector<std::string>{"x", "--1", "1..5", "1,5", "abc", "1e", "#", "0x", "nanx"}); l = ""; for (auto& v : W) l += v + " "; join(); what = "a word spoilt"; break; }
        case 7: { std::string& l = L[c.rng.i(0, (int)L.size() - 1)]; auto W = wordsOf(l); W.erase(W.begin() + c.rng.i(0, (int)W.size() - 1)); l = ""; for (auto& v : W) l += v + " "; join(); what = "a word missing"; break; }
        case 8: { std::string& l = L[c.rng.i(0, (int)L.size() - 1)]; l += " 1.5"; join(); what = "an extra word"; break; }
        case 9: { int k = c.rng.i(0, (int)L.size() - 1); L[k] = ""; join(); what = "a line blanked"; break; }
        case 10: { if (L.size() < 2) { what = "intact"; break; } int k = c.rng.i(0, (int)L.size() - 2); L[k] += " " + L[k + 1]; L[k + 1] = ""; join(); what = "two lines joined, one blank"; break; }
        case 11: { int dw = c.rng.i(1, 3); std::unique_ptr<LevelSet> o = makeLS(c.rng, w + (c.rng.coin() ? dw : 0), h + dw); io.saveLevelSetTXT(name, *o, xy); t = slurp(name, ok); what = "larger grid"; break; }
        case 12: { size_t k = c.rng.i(0, (int)t.size() - 1); t[k] = (char)c.rng.i(0, 255); what = "byte " + std::to_string(k) + " changed to " + std::to_string((unsigned char)t[k]); break; }
        default: what = "intact";
    }
    if (missing) unlink(name.c_str()); else spill(name, t);
    c.tag("%dx%d %s%s file %s, %s", w, h, bin ? "binary" : "text", xy ? " coordinate" : "", what.c_str(), numbered_ ? "by number" : "by name");
    bool intact = what == "intact";
    // What a faithful reading gives, if there is one.
    bool valid = false, mustLoad = false; std::vector<double> want;
    if (!missing)
    {
        if (bin) { valid = mustLoad = t.size() == 8*n; if (valid) { want.resize(n); memcpy(want.data(), t.data(), 8*n); } }
        else
        {
            size_t cols = rxy ? 5 : 3; std::vector<std::string> K; bool blank = false;
            for (auto& l : linesOf(t)) { if (wordsOf(l).empty()) { blank = true; continue; } K.push_back(l); }
            valid = K.size() == n; mustLoad = valid && !blank;
            for (size_t i=0;valid && i<n;i++)
            {
                auto W = wordsOf(K[i]); if (W.size() != cols) mustLoad = false;
                for (auto& v : W) if (!plain(v)) mustLoad = false;
                // Numbers that run into each other ("1.5-2.5") may be read as two.
                std::vector<double> V; const char* q = K[i].c_str(); char* e;
                while (V.size() <= cols) { double v = strtod(q, &e); if (e == q) break; V.push_back(v); q = e; }
                while (isspace((unsigned char)*q)) q++;
                if (*q || V.size() != cols) { valid = false; break; }
                want.push_back(V[cols - 3]);
            }
            if (!valid) mustLoad = false;
            if (t.find('\0') != std::string::npos || t.find('\r') != std::string::npos) mustLoad = false;
            if (!intact) mustLoad = false;
        }
    }
    Digest rest = digest(*b, false);
    int rc = runChild([&]()
    {
        if (bin) { if (numbered_) io.loadLevelSetBIN(3, *b); else io.loadLevelSetBIN(name, *b); }
        else { if (numbered_) io.loadLevelSetTXT(3, *b, "", rxy); else io.loadLevelSetTXT(name, *b, rxy); }
        if (b->signedDistance.size() != n || digest(*b, false) != rest) _exit(43);
        if (!valid) _exit(44);
        for (size_t i=0;i<n;i++) if (memcmp(&want[i], &b->signedDistance[i], 8) && !(want[i] == b->signedDistance[i]) && !(std::fabs(want[i] - b->signedDistance[i]) <= 1e-15*std::fabs(want[i]))) { fprintf(stderr, "value %zu is %.17g, file says %.17g\n", i, b->signedDistance[i], want[i]); _exit(42); }
        _exit(40);
    }, err);
    if (rc == 44) return c.fail("accepted", "a damaged file was loaded without complaint");
    if (rc == 43) return c.fail("damage", "loading changed more than the level-set values");
    if (rc == 42) return c.fail("value", "%.200s", err.c_str());
    if (rc == 40) { c.count("files loaded faithfully"); if (what != "intact") c.nontrivial(hashBytes(t.data(), t.size(), 3)); return; }
    if (rc != EXIT_FAILURE) return c.fail("crash", "loading ended with status %d: %.500s", rc, err.c_str());
    if (err.find_first_not_of(" \n") == std::string::npos) return c.fail("message", "stopped without a message");
    if (mustLoad) return c.fail("refused", "an intact file was refused: %.200s", err.c_str());
    c.count("files refused"); c.nontrivial(hashBytes(t.data(), t.size(), hashBytes(what.data(), what.size())));
}
