#include "world.h"
#include <algorithm>
using fisx::Element;
using fisx::Elements;
using fisx::Material;
namespace sim {
long dataVersion = 1;
int dataFileExpectation(const std::string & path);
int directoryExpectation(const std::string & dir, int kind);
void loadedFileFacts(const std::string & what, const std::string & main, const std::string & path, size_t index, std::vector<std::pair<std::string, MSD> > & constants, MSV & table);

static Elements * bases[2] = {nullptr, nullptr};
const Elements & baseLibrary(int kind) {
    if (kind != 1) kind = 0;
    if (!bases[kind]) {
        if (kind == 0) bases[kind] = new Elements("/sim/data");
        else bases[kind] = new Elements("/sim/data", (short) 1);
    }
    return *bases[kind];
}
void loadBase() { baseLibrary(0); baseLibrary(1); }

LibSlot * findLib(World & w, const std::string & n) {
    auto it = w.lib.find(n);
    return it == w.lib.end() ? nullptr : it->second;
}
static void dropLib(World & w, const std::string & n) {
    auto it = w.lib.find(n);
    if (it == w.lib.end()) return;
    delete it->second->sut;
    delete it->second;
    w.lib.erase(it);
}
Material makeMaterial(const MatRec & r) {
    Material m(r.name, r.density, r.thickness, r.comment);
    if (r.comp.size()) m.setComposition(r.comp);
    return m;
}
// name:density:thickness:El=amount+El=amount:comment
MatRec parseMat(const std::string & spec) {
    VS p = splitStr(spec, ':');
    MatRec r;
    r.name = untilde(p[0]);
    if (p.size() > 1) r.density = strtod(p[1].c_str(), nullptr);
    if (p.size() > 2) r.thickness = strtod(p[2].c_str(), nullptr);
    if (p.size() > 3 && p[3] != "-" && p[3].size()) for (auto & c : splitStr(p[3], '+')) {
        VS kv = splitStr(c, '=');
        if (kv.size() == 2) r.comp[untilde(kv[0])] = strtod(kv[1].c_str(), nullptr);
    }
    if (p.size() > 4) r.comment = untilde(p[4]);
    return r;
}
static MSD parseComp(const std::string & s) {
    MSD m;
    if (s == "-") return m;
    for (auto & c : splitStr(s, '+')) { VS kv = splitStr(c, '='); if (kv.size() == 2) m[untilde(kv[0])] = strtod(kv[1].c_str(), nullptr); }
    return m;
}
static MSD normalised(const MSD & m) {
    double t = 0;
    for (auto & x : m) t += x.second;
    MSD r;
    for (auto & x : m) r[x.first] = x.second / t;
    return r;
}
static bool cyclic(const std::vector<MatRec> & mats, const std::string & name, std::set<std::string> & path, const Elements & lib) {
    if (path.count(name)) return true;
    for (auto & m : mats) if (m.name == name) {
        path.insert(name);
        for (auto & c : m.comp) if (cyclic(mats, c.first, path, lib)) return true;
        path.erase(name);
        break;
    }
    return false;
}

// ---------------------------------------------------------------- queries
static LibQuery parseLibQuery(const Op & op, size_t k) {
    LibQuery q;
    q.kind = op.s(k);
    const std::string & n = q.kind;
    auto escape = [&](size_t i) {
        q.comp = parseComp(op.s(i));
        q.ethr = op.d(i + 1); q.ithr = op.d(i + 2); q.n = (int) op.i(i + 3); q.alpha = op.d(i + 4); q.thick = op.d(i + 5);
    };
    if (n == "el" || n == "elw") { q.el = op.s(k + 1); q.eq = parseElQuery(op, k + 2); }
    else if (n == "names" || n == "mats" || n == "files") ;
    else if (n == "def" || n == "info" || n == "comp" || n == "compf" || n == "parse" || n == "mat" || n == "muel") q.s1 = untilde(op.s(k + 1));
    else if (n == "muc") { q.s1 = untilde(op.s(k + 1)); q.x = op.d(k + 2); }
    else if (n == "mucv") { q.s1 = untilde(op.s(k + 1)); q.xs = op.ds(k + 2); }
    else if (n == "mucomp") { q.comp = parseComp(op.s(k + 1)); q.x = op.d(k + 2); q.i1 = (int) op.i(k + 3); }
    else if (n == "mucompv") { q.comp = parseComp(op.s(k + 1)); q.xs = op.ds(k + 2); q.i1 = (int) op.i(k + 3); }
    else if (n == "compmap") { q.comp = parseComp(op.s(k + 1)); q.names = op.ss(k + 2); }
    else if (n == "compm") { q.s1 = untilde(op.s(k + 1)); q.names = op.ss(k + 2); }
    else if (n == "peak") { q.s1 = untilde(op.s(k + 1)); q.x = op.d(k + 2); }
    else if (n == "peakl") { q.names = op.ss(k + 1); for (auto & x : q.names) x = untilde(x); q.x = op.d(k + 2); }
    else if (n == "esc") { escape(k + 1); q.x = op.d(k + 7); }
    else if (n == "create") { q.s1 = untilde(op.s(k + 1)); q.x = op.d(k + 2); q.w = op.d(k + 3); }
    else throw HarnessError{"unknown library query " + n};
    return q;
}
static Ans flatMaterial(Material m) {
    Ans a;
    flat(a, m.getName());
    flat(a, m.getComment());
    flat(a, m.getDefaultDensity());
    flat(a, m.getDefaultThickness());
    flat(a, m.getComposition());
    return a;
}
template<class F> static Ans QM(F f) {
    bool old = seam::inSut;
    Material m = f();
    seam::inSut = false;
    Ans a = flatMaterial(m);
    seam::inSut = old;
    return a;
}
static std::vector<Material> materialsOf(const VS & specs) {
    std::vector<Material> r;
    for (auto & s : specs) {
        MatRec m = parseMat(s);
        try { r.push_back(makeMaterial(m)); } catch (const std::exception &) {}
    }
    return r;
}
static Ans askLibrary(Elements & l, const LibQuery & q, const std::vector<Material> & mats) {
    const Elements & c = l;
    const std::string & n = q.kind;
    if (n == "el") return askElement(const_cast<Element &>(c.getElement(q.el)), q.eq);
    if (n == "elw") {
        // the same through the methods of the library
        const ElQuery & e = q.eq;
        if (e.kind == "emitted") return Q([&]() { return c.getEmittedXRayLines(q.el, e.x); });
        if (e.kind == "rad") return Q([&]() { return c.getRadiativeTransitions(q.el, e.s1); });
        if (e.kind == "non") return Q([&]() { return c.getNonradiativeTransitions(q.el, e.s1); });
        if (e.kind == "con") return Q([&]() { return c.getShellConstants(q.el, e.s1); });
        if (e.kind == "vac1") return Q([&]() { return c.getInitialPhotoelectricVacancyDistribution(q.el, e.x); });
        if (e.kind == "vacv") return Q([&]() { return c.getInitialPhotoelectricVacancyDistribution(q.el, e.xs); });
        if (e.kind == "casdist") return Q([&]() { return c.getCascadeModifiedVacancyDistribution(q.el, e.dist); });
        if (e.kind == "lines") return Q([&]() { return c.getXRayLinesFromVacancyDistribution(q.el, e.dist, e.i1, e.i2); });
        if (e.kind == "exc1") return Q([&]() { return c.getExcitationFactors(q.el, e.x, e.w); });
        if (e.kind == "excv") return Q([&]() { return c.getExcitationFactors(q.el, e.xs, e.ws); });
        if (e.kind == "be") return Q([&]() { return c.getBindingEnergies(q.el); });
        if (e.kind == "mutable") return Q([&]() { return c.getMassAttenuationCoefficients(q.el); });
        return askElement(const_cast<Element &>(c.getElement(q.el)), e);
    }
    if (n == "names") return Q([&]() { return l.getElementNames(); });
    if (n == "mats") return Q([&]() { return l.getMaterialNames(); });
    if (n == "files") {
        VS r;
        for (const char * s : {"K", "L", "M"}) {
            r.push_back(c.getShellConstantsFile(s));
            r.push_back(c.getShellRadiativeTransitionsFile(s));
            r.push_back(c.getShellNonradiativeTransitionsFile(s));
        }
        return answer(r);
    }
    if (n == "def") return Q([&]() { return c.isElementNameDefined(q.s1); });
    if (n == "info") {
        double d[5] = {(double) c.getAtomicNumber(q.s1), c.getAtomicMass(q.s1), c.getDensity(q.s1), (double) c.getColumn(q.s1), (double) c.getRow(q.s1)};
        std::string t = c.getLongName(q.s1);
        bool old = seam::inSut;
        seam::inSut = false;
        Ans a;
        for (double x : d) flat(a, x);
        flat(a, t);
        seam::inSut = old;
        return a;
    }
    if (n == "comp") return Q([&]() { return c.getComposition(q.s1); });
    if (n == "compm") return Q([&]() { return c.getComposition(q.s1, mats); });
    if (n == "compmap") return Q([&]() { return c.getComposition(q.comp, mats); });
    if (n == "compf") return Q([&]() { return c.getCompositionFromFormula(q.s1); });
    if (n == "parse") return Q([&]() { return c.parseFormula(q.s1); });
    if (n == "mat") return QM([&]() { return l.getMaterialCopy(q.s1); });
    if (n == "create") return QM([&]() { return l.createMaterial(q.s1, q.x, q.w, ""); });
    if (n == "muel") return Q([&]() { return c.getMassAttenuationCoefficients(q.s1); });
    if (n == "muc") return Q([&]() { return c.getMassAttenuationCoefficients(q.s1, q.x); });
    if (n == "mucv") return Q([&]() { return c.getMassAttenuationCoefficients(q.s1, q.xs); });
    if (n == "mucomp") return Q([&]() { return c.getMassAttenuationCoefficients(q.comp, q.x, q.i1); });
    if (n == "mucompv") return Q([&]() { return c.getMassAttenuationCoefficients(q.comp, q.xs, q.i1); });
    if (n == "peak") return Q([&]() { return c.getPeakFamilies(q.s1, q.x); });
    if (n == "peakl") return Q([&]() { return c.getPeakFamilies(q.names, q.x); });
    if (n == "esc") return Q([&]() { return c.getEscape(q.comp, q.x, q.ethr, q.ithr, q.n, q.alpha, q.thick); });
    throw HarnessError{"unknown library query " + n};
}
static bool usesMaterials(const LibQuery & q, std::vector<std::string> & names) {
    if (q.kind == "comp" || q.kind == "compm" || q.kind == "muc" || q.kind == "mucv" || q.kind == "peak" || q.kind == "muel") { names.push_back(q.s1); return true; }
    if (q.kind == "compmap" || q.kind == "mucomp" || q.kind == "mucompv") { for (auto & c : q.comp) names.push_back(c.first); return true; }
    if (q.kind == "peakl") { names = q.names; return true; }
    if (q.kind == "esc") { for (auto & c : q.comp) names.push_back(c.first); return true; }
    return false;
}
// does the question depend on a material defined by itself?
static bool questionIsCyclic(LibSlot & s, const LibQuery & q) {
    VS names;
    if (!usesMaterials(q, names)) return false;
    std::vector<MatRec> all;
    for (auto & m : q.names) if (q.kind == "compm" || q.kind == "compmap") all.push_back(parseMat(m));
    for (auto & m : s.mats) {
        bool hidden = false;
        for (auto & a : all) if (a.name == m.name) hidden = true;
        (void) hidden;
        all.push_back(m);
    }
    // redefinitions of a name count together
    std::map<std::string, std::set<std::string> > g;
    for (auto & m : all) for (auto & c : m.comp) g[m.name].insert(c.first);
    std::set<std::string> done;
    std::function<bool(const std::string &, std::set<std::string> &)> walk = [&](const std::string & x, std::set<std::string> & path) {
        if (path.count(x)) return true;
        path.insert(x);
        for (auto & y : g[x]) if (walk(y, path)) return true;
        path.erase(x);
        return false;
    };
    std::set<std::string> path;
    for (auto & x : names) if (walk(x, path)) return true;
    return false;
}
// reference model of the composition of a name
static MSD modelComposition(LibSlot & s, const std::string & name, int depth = 0) {
    MSD r = s.twin->getCompositionFromFormula(name);
    if (r.size()) return r;
    if (depth > 20) throw HarnessError{"cyclic material"};
    for (auto & m : s.mats) if (m.name == name) {
        if (m.comp.empty()) throw std::invalid_argument("empty");
        MSD n = normalised(m.comp);
        for (auto & c : n) {
            MSD sub = modelComposition(s, c.first, depth + 1);
            if (sub.empty()) return MSD();
            for (auto & x : sub) r[x.first] += x.second * c.second;
        }
        return r;
    }
    return MSD();
}

// all the elements of importance for a question have up to date cascades
static void refreshLib(Ctx & cx, LibSlot & s) {
    VS v(s.stale.begin(), s.stale.end());
    for (auto & n : v) {
        Outcome o = cx.sut([&]() { s.sut->fillElementCascadeCache(n); });
        if (o.threw) {
            bool fits = true;
            try { Element t(s.twin->getElement(n)); t.fillCascadeCache(); } catch (const std::exception &) { fits = false; }
            cx.require(!fits, "unexpected-failure", "the cascade cache of " + n + " could not be refilled");
        }
        s.stale.erase(n);
    }
}
static void compareElement(Ctx & cx, LibSlot & s, const std::string & n, const std::string & why, bool light) {
    if (!s.twin->isElementNameDefined(n)) {
        cx.require(!s.sut->isElementNameDefined(n), "wrong-answer", why + ": element " + n + " should not be defined");
        return;
    }
    Element & t = const_cast<Element &>(s.twin->getElement(n));
    std::vector<ElQuery> d = elementDigest(t, true), known = recentQuestions(s.recent[n], true);
    d.insert(d.end(), known.begin(), known.end());
    for (auto & q : d) {
        if (light && (q.kind == "aug" || q.kind == "ck" || q.kind == "flu" || q.kind == "mutable" || q.kind == "part" || q.kind == "casdist")) continue;
        Outcome o;
        LibQuery lq;
        lq.kind = "el"; lq.el = n; lq.eq = q;
        std::vector<Material> none;
        Ans a = cx.ask([&]() { return askLibrary(*s.sut, lq, none); }, nullptr, &o);
        Ans b = Ctx::model([&]() { return askLibrary(*s.twin, lq, none); });
        cx.judge(why + ": " + n + " " + q.kind + " " + q.s1, a, o, b);
        refLibraryCheck(cx, s, lq, b);
    }
    if (!s.ref || !s.ref->has(n) || (!refWants(cx, "mu1") && !refWants(cx, "exc1"))) return;
    for (auto & q : refDigest(s.ref->get(n), cx.profile)) {
        LibQuery lq;
        lq.kind = "el"; lq.el = n; lq.eq = q;
        std::vector<Material> none;
        refLibraryCheck(cx, s, lq, Ctx::model([&]() { return askLibrary(*s.twin, lq, none); }));
    }
}
// the files loaded: shell constants, radiative and non radiative rates of K, L and M
static std::string fileName(const Elements & c, int k) {
    const char * s = k < 3 ? "K" : k < 6 ? "L" : "M";
    return k % 3 == 0 ? c.getShellConstantsFile(s) : k % 3 == 1 ? c.getShellRadiativeTransitionsFile(s) : c.getShellNonradiativeTransitionsFile(s);
}
static Ans expectedOf(LibSlot & s, const LibQuery & q, const std::vector<Material> & mats) {
    if (q.kind != "files" || s.given.empty()) return Ctx::model([&]() { return askLibrary(*s.twin, q, mats); });
    return Ctx::model([&]() {
        VS r;
        for (int k = 0; k < 9; k++) { auto g = s.given.find(std::to_string(k)); r.push_back(g == s.given.end() ? fileName(*s.twin, k) : g->second); }
        return answer(r);
    });
}
static void compareSimple(Ctx & cx, LibSlot & s, LibQuery q, const std::string & why) {
    std::vector<Material> none;
    Outcome o;
    Ans a = cx.ask([&]() { return askLibrary(*s.sut, q, none); }, nullptr, &o);
    Ans b = expectedOf(s, q, none);
    cx.judge(why + ": " + q.kind + " " + q.s1, a, o, b);
}
static void checkMaterials(Ctx & cx, LibSlot & s, const std::string & why) {
    VS names;
    for (auto & m : s.mats) names.push_back(m.name);
    cx.same(why + ": material names", cx.ask([&]() { return Q([&]() { return s.sut->getMaterialNames(); }); }), answer(names));
    for (size_t i = 0; i < s.mats.size(); i++) {
        const MatRec & m = s.mats[i];
        Ans e;
        flat(e, m.name); flat(e, m.comment); flat(e, m.density); flat(e, m.thickness);
        flat(e, m.comp.size() ? normalised(m.comp) : MSD());
        cx.same(why + ": material " + m.name, cx.ask([&]() { return QM([&]() { return s.sut->getMaterial(m.name); }); }), e);
        LibQuery q;
        q.kind = "comp";
        q.s1 = m.name;
        if (questionIsCyclic(s, q)) continue;
        std::vector<Material> none;
        Outcome o;
        Ans a = cx.ask([&]() { return askLibrary(*s.sut, q, none); }, nullptr, &o);
        cx.judge(why + ": composition of " + m.name, a, o, Ctx::model([&]() { return modelComposition(s, m.name); }));
    }
}
static void libUnchanged(Ctx & cx, LibSlot & s, const std::string & why, bool light = true, const VS & more = VS()) {
    LibQuery q;
    q.kind = "names";
    compareSimple(cx, s, q, why);
    q.kind = "files";
    compareSimple(cx, s, q, why);
    checkMaterials(cx, s, why);
    refreshLib(cx, s);
    std::set<std::string> els(more.begin(), more.end());
    for (size_t i = s.touched.size() > 3 ? s.touched.size() - 3 : 0; i < s.touched.size(); i++) els.insert(s.touched[i]);
    for (auto & n : els) compareElement(cx, s, n, why, light);
    for (auto & e : s.escRecent) { if (!questionIsCyclic(s, e)) compareSimple(cx, s, e, why); }
    for (const char * f : {"H2O", "Fe2O3"}) { q.kind = "muc"; q.s1 = f; q.x = 9.3; compareSimple(cx, s, q, why); }
    cx.count["check.unchanged"]++;
}

// ---------------------------------------------------------------- changes of the library
static LibSlot * makeSlot(World & w, const std::string & name, Elements * p) {
    dropLib(w, name);
    LibSlot * s = new LibSlot();
    s->sut = p;
    w.lib[name] = s;
    s->version = ++dataVersion;
    return s;
}
static std::shared_ptr<Elements> twinFrom(const Elements & e) {
    std::shared_ptr<Elements> t(new Elements(e));
    t->setEscapeCacheEnabled(0);
    t->clearEscapeCache();
    return t;
}
static VS sample(int kind, Rng & r, int n) {
    VS names = const_cast<Elements &>(baseLibrary(kind)).getElementNames(), v;
    for (int i = 0; i < n; i++) v.push_back(names[r.below(names.size())]);
    return v;
}
static const char * dirOf(int kind) { (void) kind; return "/sim/data"; }
static Elements * construct(int kind, const std::string & dir) {
    if (kind == 1) return new Elements(dir, (short) 1);
    if (kind == 2) return new Elements(dir, dir + "/BindingEnergies.dat", "");
    if (kind == 3) return new Elements(dir, dir + "/BindingEnergies.dat", dir + "/XCOM_CrossSections.dat");
    if (kind == 4) return new Elements(dir, std::string(""), dir + "/XCOM_CrossSections.dat");
    return new Elements(dir);
}
// l.new L kind dir
SIM_OP(lNew, "l.new") {
    int kind = (int) op.i(1);
    Path as = givenPath(op.has(2) ? op.s(2) : dirOf(kind));
    std::string dir = as.target;
    // what an undisturbed construction gives
    std::shared_ptr<Elements> ref;
    if (dir == "/sim/data" && kind <= 1) ref = twinFrom(baseLibrary(kind));
    else {
        static std::map<std::string, std::shared_ptr<Elements> > seen;
        std::string key = std::to_string(kind) + dir;
        if (!seen.count(key)) {
            try { seen[key] = std::shared_ptr<Elements>(construct(kind, dir)); } catch (const std::exception &) { seen[key] = nullptr; }
        }
        if (seen[key]) ref = twinFrom(*seen[key]);
    }
    int known = directoryExpectation(dir, kind);
    cx.require(!(ref && known == 0), "accepted-invalid", "a library was constructed from an incomplete or malformed directory");
    cx.require(ref || known != 1, "unexpected-failure", "a library could not be constructed from a complete directory");
    Elements * p = nullptr;
    std::string arg(as.name);
    Outcome o;
    auto attempt = [&]() { p = construct(kind, arg); };
    o = cx.mutate(attempt, op.f, []() {});
    if (o.threw) {
        cx.require(o.fired || !ref, "unexpected-failure", "the library could not be constructed: " + o.what);
        cx.count[o.fired ? "open.failed" : "open.rejected"]++;
        return;
    }
    if (!ref) { delete p; cx.fail("accepted-invalid", "a library was constructed from an incomplete or malformed directory"); }
    LibSlot * s = makeSlot(w, op.s(0), p);
    s->twin = ref;
    s->kind = kind;
    if (as.name != dir) for (int k = 0; k < 9; k++) {
        std::string n = fileName(*ref, k);
        if (n.compare(0, dir.size(), dir) == 0) s->given[std::to_string(k)] = as.name + n.substr(dir.size());
    }
    if (refWants(cx, "")) s->ref = refDirectory(dir, kind);
    {
        std::shared_ptr<Elements> keep(new Elements(*ref));
        s->log.push_back([keep](std::shared_ptr<Elements> & t) { t = twinFrom(*keep); });
    }
    cx.mutations++;
    Rng r(hashStr(op.text));
    libUnchanged(cx, *s, "after construction", true, sample(kind & 1, r, 4));
    cx.state("lib new " + std::to_string(kind));
}
// l.copy L src
SIM_OP(lCopy, "l.copy") {
    const Elements * src = nullptr;
    LibSlot * b = findLib(w, op.s(1));
    if (b) src = b->sut;
    else if (op.s(1) == "base0") src = &baseLibrary(0);
    else if (op.s(1) == "base1") src = &baseLibrary(1);
    else return;
    if (op.s(0) == op.s(1)) return;
    Elements * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Elements(*src); }, op.f, [&]() { if (b) libUnchanged(cx, *b, "original after a failed copy"); });
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "library copy failed: " + o.what); return; }
    LibSlot old;
    if (b) old = *b;
    LibSlot * s = makeSlot(w, op.s(0), p);
    if (b) {
        *s = old;
        s->sut = p;
        s->version = ++dataVersion;
        s->twin.reset();
        for (auto & e : s->log) e(s->twin);
    } else {
        s->kind = op.s(1) == "base1";
        if (refWants(cx, "")) s->ref = refBase(s->kind);
        s->twin = twinFrom(*src);
        int k = s->kind;
        s->log.push_back([k](std::shared_ptr<Elements> & t) { t = twinFrom(baseLibrary(k)); });
    }
    cx.mutations++;
}
SIM_OP(lDel, "l.del") { SIM_UNUSED; dropLib(w, op.s(0)); }

// changes are described by one line, applied to the system and to the twin
struct LibChange {
    std::string what, a, b, c, given;
    VD e, p, co, in, pa;
    MatRec mat;
    int flag = 1;
    VS names;
    VD amounts;
};
static LibChange parseChange(const std::string & line) {
    Op op = parseOp(line);
    LibChange c;
    c.what = op.name;
    if (c.what == "file") { c.a = op.s(0); c.b = op.s(1); c.c = op.s(2); size_t at = c.c.find('>'); if (at != std::string::npos) { c.given = c.c.substr(0, at); c.c = c.c.substr(at + 1); } }
    else if (c.what == "mu") { c.a = op.s(0); c.e = op.ds(1); c.p = op.ds(2); c.co = op.ds(3); c.in = op.ds(4); c.pa = op.ds(5); }
    else if (c.what == "addmat") { c.mat = parseMat(op.s(0)); c.flag = (int) op.i(1); }
    else if (c.what == "addobj") { c.mat = parseMat(op.s(0)); c.flag = (int) op.i(1); }
    else if (c.what == "setcomp") { c.a = untilde(op.s(0)); c.flag = op.s(1) == "vec"; c.names = op.ss(2); for (auto & x : c.names) x = untilde(x); c.amounts = op.ds(3); for (size_t i = 0; i < c.names.size() && i < c.amounts.size(); i++) c.mat.comp[c.names[i]] = c.amounts[i]; }
    else if (c.what == "rm") c.a = untilde(op.s(0));
    else if (c.what == "rmall") ;
    else throw HarnessError{"unknown change " + c.what};
    return c;
}
static void apply(Elements & l, const LibChange & c, const Material * obj) {
    if (c.what == "file") {
        if (c.a == "con") l.setShellConstantsFile(c.b, c.c);
        else if (c.a == "rad") l.setShellRadiativeTransitionsFile(c.b, c.c);
        else if (c.a == "non") l.setShellNonradiativeTransitionsFile(c.b, c.c);
        else if (c.a == "mac") l.setMassAttenuationCoefficientsFile(c.c);
    }
    else if (c.what == "mu") l.setMassAttenuationCoefficients(c.a, c.e, c.p, c.co, c.in, c.pa);
    else if (c.what == "addmat") l.addMaterial(c.mat.name, c.mat.density, c.mat.thickness, c.mat.comment, c.flag);
    else if (c.what == "addobj") l.addMaterial(*obj, c.flag);
    else if (c.what == "setcomp") { if (c.flag) l.setMaterialComposition(c.a, c.names, c.amounts); else l.setMaterialComposition(c.a, c.mat.comp); }
    else if (c.what == "rm") l.removeMaterial(c.a);
    else if (c.what == "rmall") l.removeMaterials();
}
static void replay(Elements & l, const std::string & entry) {
    LibChange c = parseChange(entry);
    std::unique_ptr<Material> obj;
    if (c.what == "addobj") obj.reset(new Material(makeMaterial(c.mat)));
    apply(l, c, obj.get());
}
static bool shape(const VD & v) { for (double x : v) if (!(x > 0)) return false; return true; }
static void change(World & w, Ctx & cx, const Op & op, const std::string & line) {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    LibChange c = parseChange(line);
    std::unique_ptr<Material> obj;
    if (c.what == "addobj") {
        try { obj.reset(new Material(makeMaterial(c.mat))); } catch (const std::exception &) { return; }
    }
    // what the reference model thinks
    int expect = -1;  // 0 reject 1 accept
    auto index = [&](const std::string & n) { for (size_t i = 0; i < s->mats.size(); i++) if (s->mats[i].name == n) return (long) i; return -1L; };
    if (c.what == "addmat") expect = !((index(c.mat.name) >= 0 && c.flag) || c.mat.name.empty() || c.mat.density <= 0 || c.mat.thickness <= 0);
    if (c.what == "addobj") expect = !(index(c.mat.name) >= 0 && c.flag);
    if (c.what == "setcomp") expect = !(index(c.a) < 0 || (c.flag && c.names.size() != c.amounts.size()) || !shape(c.amounts));
    if (c.what == "rm") expect = index(c.a) >= 0;
    if (c.what == "rmall") expect = 1;
    if (c.what == "mu") {
        if (!s->twin->isElementNameDefined(c.a)) expect = 0;
        else if (c.e.empty() || (c.pa.size() && c.pa.size() != c.e.size())) expect = 0;
        else if (c.p.size() != c.e.size() || c.co.size() != c.e.size() || c.in.size() != c.e.size() || !std::is_sorted(c.e.begin(), c.e.end())) expect = 0;
    }
    if (c.what == "setcomp" && c.mat.comp.size() != c.names.size() && c.names.size() == c.amounts.size()) return;
    if (c.what == "setcomp" && !c.flag && c.names.size() != c.amounts.size()) return;
    // the twin decides the rest
    std::shared_ptr<Elements> next(new Elements(*s->twin));
    bool fits = true;
    try { apply(*next, c, obj.get()); } catch (const std::exception &) { fits = false; }
    if (c.what == "file" && dataFileExpectation(c.c) == 0) expect = 0;
    if (c.what == "file" && c.a == "con" && c.c.find("/extra") != std::string::npos) expect = 0;
    if (expect >= 0 && (expect == 1) != fits && expect == 1) fits = true;  // the model has precedence
    VS more;
    if (c.what == "file") { Rng r(hashStr(op.text)); more = sample(s->kind & 1, r, 3); more.push_back("Fe"); more.push_back("Pb"); }
    if (c.what == "mu") more.push_back(c.a);
    LibChange own = c;
    if (c.given.size()) { seam::fsLink(c.given, c.c); own.c = c.given; }
    Outcome o = cx.mutate([&]() { apply(*s->sut, own, obj.get()); }, op.f, [&]() { libUnchanged(cx, *s, "after a failed change", true, more); });
    if (o.ok && (!fits || expect == 0)) cx.fail("accepted-invalid", "an invalid change was accepted");
    if (o.threw) {
        if (!o.fired && fits) cx.fail("unexpected-failure", "a valid change was rejected: " + o.what);
        cx.count[o.fired ? "change.failed" : "change.rejected"]++;
        libUnchanged(cx, *s, o.fired ? "after a failed change" : "after a rejected change", true, more);
        return;
    }
    s->twin = next;
    s->log.push_back([line](std::shared_ptr<Elements> & t) { replay(*t, line); });
    if (c.what == "file" && c.a != "mac") {
        std::string k = std::to_string((c.b == "K" ? 0 : c.b == "L" ? 3 : 6) + (c.a == "con" ? 0 : c.a == "rad" ? 1 : 2));
        if (c.given.size()) s->given[k] = c.given; else s->given.erase(k);
    }
    s->version = ++dataVersion;
    cx.mutations++;
    if (s->ref && c.what == "mu") s->ref = refChanged(cx, s->ref, [&](ref::Lib & l) { l.setMu(c.a, c.e, c.p, c.co, c.in, c.pa); });
    if (s->ref && c.what == "file") s->ref = refChanged(cx, s->ref, [&](ref::Lib & l) {
        std::vector<ref::Scan> scans;
        if (!cleanScans(c.c, scans)) throw ref::No("file");
        if (c.a == "con") l.conFile(c.b, scans);
        else if (c.a == "mac") l.macFile(scans);
        else l.radFile(c.b, scans, c.a == "rad");
    });
    if (c.what == "file" || c.what == "mu") {
        for (auto & n : s->twin->getElementNames()) if (s->sut->isElementCascadeCacheFilled(n)) s->stale.insert(n);
        for (auto & n : more) s->touched.push_back(n);
        refreshLib(cx, *s);
        for (auto & n : more) compareElement(cx, *s, n, "after an accepted change", true);
        LibQuery q;
        q.kind = "files";
        compareSimple(cx, *s, q, "after an accepted change");
        if (c.what == "file" && c.a != "mac") {
            const std::string & f = c.a == "con" ? s->sut->getShellConstantsFile(c.b) : (c.a == "rad" ? s->sut->getShellRadiativeTransitionsFile(c.b) : s->sut->getShellNonradiativeTransitionsFile(c.b));
            cx.require(f == own.c, "wrong-answer", "the library does not report the file just loaded");
        }
        if (c.what == "file" && (c.a == "con" || c.a == "mac")) {
            VS all = s->twin->getElementNames();
            for (auto & n : more) {
                size_t k = (size_t) (std::find(all.begin(), all.end(), n) - all.begin());
                std::vector<std::pair<std::string, MSD> > cons;
                MSV table;
                loadedFileFacts(c.a, c.b, c.c, k, cons, table);
                for (auto & x : cons) {
                    MSD got;
                    cx.sut([&]() { got = s->sut->getShellConstants(n, x.first); });
                    for (auto & v : x.second) {
                        auto g = got.find(v.first);
                        cx.require(g != got.end() && std::fabs(g->second - v.second) <= 1e-12 * std::fabs(v.second), "wrong-answer", "the constant " + v.first + " of " + n + " " + x.first + " is not the one of the file just loaded");
                    }
                }
                if (table.size()) {
                    MSV got;
                    cx.sut([&]() { got = s->sut->getMassAttenuationCoefficients(n); });
                    for (auto & x : table) {
                        auto g = got.find(x.first);
                        // the end of the table is the one of the file, its energies may be moved up to an edge
                        bool ok = g != got.end() && g->second.size() >= x.second.size();
                        size_t first = ok ? g->second.size() - x.second.size() : 0;
                        for (size_t i = 0; ok && i < x.second.size(); i++) {
                            double v = g->second[first + i];
                            ok = (x.first == "energy" && v > x.second[i]) || std::fabs(v - x.second[i]) <= 1e-5 * std::fabs(x.second[i]);
                        }
                        cx.require(ok, "wrong-answer", "the coefficients <" + x.first + "> of " + n + " are not the ones of the file just loaded");
                    }
                }
                cx.compares++;
            }
        }
        cx.state("lib " + c.what + c.a + c.b);
    } else {
        if (c.what == "addmat" || c.what == "addobj") {
            MatRec m = c.mat;
            if (c.what == "addmat") { m.comp = s->twin->getCompositionFromFormula(m.name); }
            long i = index(m.name);
            if (c.what == "addmat") { if (i >= 0) s->mats.erase(s->mats.begin() + i); s->mats.push_back(m); }
            else if (i >= 0) s->mats[i] = m;
            else s->mats.push_back(m);
        }
        if (c.what == "setcomp") s->mats[index(c.a)].comp = c.mat.comp;
        if (c.what == "rm") s->mats.erase(s->mats.begin() + index(c.a));
        if (c.what == "rmall") s->mats.clear();
        checkMaterials(cx, *s, "after an accepted change");
        std::string t = "mats";
        for (auto & m : s->mats) t += " " + m.name + "/" + std::to_string(m.comp.size());
        cx.state(t);
    }
}
static std::string rest(const Op & op, const char * name) {
    std::string r = name;
    for (size_t i = 1; i < op.a.size(); i++) r += " " + op.a[i];
    return r;
}
SIM_OP(lFile, "l.file") { change(w, cx, op, rest(op, "file")); }
SIM_OP(lMu, "l.mu") { change(w, cx, op, rest(op, "mu")); }
SIM_OP(lAddMat, "l.addmat") { change(w, cx, op, rest(op, "addmat")); }
SIM_OP(lAddObj, "l.addobj") { change(w, cx, op, rest(op, "addobj")); }
SIM_OP(lSetComp, "l.setcomp") { change(w, cx, op, rest(op, "setcomp")); }
SIM_OP(lRm, "l.rm") { change(w, cx, op, rest(op, "rm")); }
SIM_OP(lRmAll, "l.rmall") { change(w, cx, op, rest(op, "rmall")); }

// l.add L E : the element of slot E
SIM_OP(lAdd, "l.add") {
    LibSlot * s = findLib(w, op.s(0));
    ElSlot * e = findEl(w, op.s(1));
    if (!s || !e) return;
    if (!e->twin) e->twin = canonical(e->rec);
    if (!(e->twin->getAtomicMass() > 0)) return;  // formulas cannot use an element without a mass
    std::string n = e->twin->getName();
    VS more(1, n);
    Outcome o = cx.mutate([&]() { s->sut->addElement(*e->sut); }, op.f, [&]() { libUnchanged(cx, *s, "after a failed addition", true, more); });
    if (o.threw) {
        if (!o.fired) cx.fail("unexpected-failure", "the element could not be added: " + o.what);
        libUnchanged(cx, *s, "after a failed addition", true, more);
        return;
    }
    s->twin->addElement(*e->twin);
    CEl keep = e->twin;
    if (s->ref) {
        ref::CRef m = refOf(*e);
        if (m) s->ref = refChanged(cx, s->ref, [&](ref::Lib & l) { if (!l.has(n)) l.order.push_back(n); l.el[n] = m; });
        else s->ref.reset();
    }
    s->log.push_back([keep](std::shared_ptr<Elements> & t) { t->addElement(*keep); });
    s->version = ++dataVersion;
    s->touched.push_back(n);
    s->cacheOn[n] = e->cacheOn;
    s->stale.erase(n);
    if (e->stale || e->sut->isCascadeCacheFilled()) s->stale.insert(n);
    cx.mutations++;
    if (op.has(2)) {
        // what happens to the caller's object afterwards is of no importance
        cx.sut([&]() { e->sut->setAtomicMass(77.0); e->sut->setBindingEnergies(MSD()); });
        e->rec.mass = 77.0;
        e->rec.beSet = true;
        e->rec.be.clear();
        e->rec.rad.clear(); e->rec.non.clear(); e->rec.con.clear();
        afterElementChange(*e);
    }
    refreshLib(cx, *s);
    libUnchanged(cx, *s, "after adding an element", true, more);
}
// l.take E L symbol how : an element out of the library
SIM_OP(lTake, "l.take") {
    LibSlot * s = findLib(w, op.s(1));
    if (!s) return;
    std::string n = op.s(2);
    bool how = op.i(3) != 0;
    bool known = s->twin->isElementNameDefined(n);
    Element * p = nullptr;
    Outcome o = cx.mutate([&]() { p = how ? new Element(s->sut->getElement(n)) : new Element(s->sut->getElementCopy(n)); }, op.f, [&]() {});
    if (o.threw) { cx.require(o.fired || !known, "unexpected-failure", "the element could not be obtained: " + o.what); return; }
    if (!known) { delete p; cx.fail("accepted-invalid", "an undefined element was given"); }
    auto it = w.el.find(op.s(0));
    if (it != w.el.end()) { delete it->second->sut; delete it->second; w.el.erase(it); }
    ElSlot * e = new ElSlot();
    e->sut = p;
    e->rec.base = CEl(new Element(s->twin->getElement(n)));
    if (s->ref) e->rec.refBase = s->ref->el.at(n);
    e->cacheOn = s->sut->isCacheEnabled(n);
    e->casOn = 1;   // unknown, assume it
    e->stale = s->stale.count(n) > 0;
    w.el[op.s(0)] = e;
    cx.mutations++;
    if (e->stale) { cx.sut([&]() { p->emptyCascadeCache(); }); e->stale = false; }
    elementUnchanged(cx, *e, "element obtained from the library");
}
// ---------------------------------------------------------------- caches
SIM_OP(lCache, "l.cache") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    std::string n = op.s(1);
    int f = (int) op.i(2);
    bool known = s->twin->isElementNameDefined(n);
    Outcome o = cx.mutate([&]() { s->sut->setCacheEnabled(n, f); }, op.f, []() {});
    if (!o.fired) cx.require(o.ok == known, "wrong-answer", "setCacheEnabled of " + n + (o.ok ? " accepted" : " rejected"));
    if (o.ok) { s->cacheOn[n] = f != 0; cx.mutations++; }
    if (known) cx.require(s->sut->isCacheEnabled(n) == s->cacheOn[n], "wrong-answer", "isCacheEnabled does not give the last setting");
    cx.state("lib cache " + n + std::to_string(f));
}
static void lfill(World & w, Ctx & cx, const Op & op, bool update) {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    std::string n = op.s(1);
    VD es = op.ds(2);
    bool known = s->twin->isElementNameDefined(n);
    refreshLib(cx, *s);
    bool fits = known;
    if (known) for (double x : es) {
        try { const Element & t = s->twin->getElement(n); t.getMassAttenuationCoefficients(x); t.getPhotoelectricExcitationFactors(x, 1.0); } catch (const std::exception &) { fits = false; break; }
    }
    VS more(1, n);
    if (known) remember(s->recent[n], es);
    int before = known ? s->sut->getCacheSize(n) : 0;
    Outcome o = cx.mutate([&]() { if (update) s->sut->updateCache(n, es); else s->sut->fillCache(n, es); }, op.f, [&]() { compareElement(cx, *s, n, "after a failed cache operation", true); });
    if (o.threw && !o.fired && fits) cx.fail("unexpected-failure", "the cache could not be filled: " + o.what);
    if (o.ok && !known) cx.fail("accepted-invalid", "the cache of an undefined element was filled");
    if (o.ok) cx.mutations++;
    if (known) {
        cx.require(s->sut->isCacheEnabled(n) == s->cacheOn[n], "wrong-answer", "filling the cache changed the cache setting");
        if (o.ok && !update) { std::set<double> d(es.begin(), es.end()); cx.require((size_t) s->sut->getCacheSize(n) == d.size(), "wrong-answer", "cache size after filling"); }
        if (o.ok && update) { std::set<double> d(es.begin(), es.end()); cx.require((size_t) s->sut->getCacheSize(n) >= std::max((size_t) before, std::min(d.size(), (size_t) 10000)), "wrong-answer", "the cache size after an update that was not reported as failed"); }
        if (op.f.any()) compareElement(cx, *s, n, "after a cache operation", true);
        if (!s->cacheOn[n]) cx.sut([&]() { s->sut->setCacheEnabled(n, 1); });
        std::vector<Material> none;
        for (auto & eq : recentQuestions(s->recent[n], true)) {
            LibQuery lq;
            lq.kind = "el"; lq.el = n; lq.eq = eq;
            Outcome oq;
            Ans a = cx.ask([&]() { return askLibrary(*s->sut, lq, none); }, nullptr, &oq);
            cx.judge(o.ok ? "with the cache just filled" : "after a cache operation that failed", a, oq, Ctx::model([&]() { return askLibrary(*s->twin, lq, none); }));
        }
        if (!s->cacheOn[n]) cx.sut([&]() { s->sut->setCacheEnabled(n, 0); });
    }
    cx.state("lib fill " + n + std::to_string(update) + std::to_string(s->cacheOn[n]));
}
SIM_OP(lFill, "l.fill") { lfill(w, cx, op, false); }
SIM_OP(lUpd, "l.upd") { lfill(w, cx, op, true); }
SIM_OP(lClear, "l.clear") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    std::string n = op.s(1);
    Outcome o = cx.mutate([&]() { s->sut->clearCache(n); }, op.f, []() {});
    if (!o.fired) cx.require(o.ok == s->twin->isElementNameDefined(n), "wrong-answer", "clearCache");
    if (o.ok) { cx.mutations++; cx.require(s->sut->getCacheSize(n) == 0, "wrong-answer", "the cache is not empty after clearing it"); }
}
SIM_OP(lCas, "l.cas") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    std::string n = op.s(1);
    std::string how = op.s(2);   // on off fill empty
    bool known = s->twin->isElementNameDefined(n);
    refreshLib(cx, *s);
    bool fits = known;
    if (known && (how == "on" || how == "fill")) {
        Element t(s->twin->getElement(n));
        try { t.fillCascadeCache(); } catch (const std::exception &) { fits = false; }
    }
    Outcome o = cx.mutate([&]() {
        if (how == "on") s->sut->setElementCascadeCacheEnabled(n, 1);
        else if (how == "off") s->sut->setElementCascadeCacheEnabled(n, 0);
        else if (how == "fill") s->sut->fillElementCascadeCache(n);
        else s->sut->emptyElementCascadeCache(n);
    }, op.f, [&]() { compareElement(cx, *s, n, "after a failed cascade cache operation", true); });
    if (o.threw && !o.fired && fits) cx.fail("unexpected-failure", "the cascade cache operation was rejected: " + o.what);
    if (o.ok && !known) cx.fail("accepted-invalid", "cascade cache of an undefined element");
    if (o.ok) cx.mutations++;
    if (known) compareElement(cx, *s, n, "after a cascade cache operation", true);
    cx.state("lib cas " + n + how);
}
SIM_OP(lEsc, "l.esc") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    int f = (int) op.i(1);
    Outcome o = cx.mutate([&]() { s->sut->setEscapeCacheEnabled(f); }, op.f, []() {});
    if (o.ok) { s->escOn = f; cx.mutations++; }
    if (s->escOn >= 0) cx.require((s->sut->isEscapeCacheEnabled() != 0) == (s->escOn != 0), "wrong-answer", "isEscapeCacheEnabled does not give the last setting");
}
SIM_OP(lEscClear, "l.escclear") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    cx.mutate([&]() { s->sut->clearEscapeCache(); }, op.f, []() {});
    cx.mutations++;
}
static Ans escapeOf(Elements & l, const LibQuery & q) { std::vector<Material> none; return askLibrary(l, q, none); }
// l.escupd L comp ethr ithr n alpha thick energies
SIM_OP(lEscUpd, "l.escupd") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    LibQuery q;
    q.kind = "esc";
    q.comp = parseComp(op.s(1));
    q.ethr = op.d(2); q.ithr = op.d(3); q.n = (int) op.i(4); q.alpha = op.d(5); q.thick = op.d(6);
    VD es = op.ds(7);
    if (questionIsCyclic(*s, q)) return;
    refreshLib(cx, *s);
    bool fits = true;
    for (double x : es) { q.x = x; if (Ctx::model([&]() { return escapeOf(*s->twin, q); }).threw) fits = false; }
    auto look = [&](const std::string & why) {
        for (double x : es) {
            q.x = x;
            Outcome o;
            Ans a = cx.ask([&]() { return escapeOf(*s->sut, q); }, nullptr, &o);
            cx.judge(why, a, o, Ctx::model([&]() { return escapeOf(*s->twin, q); }));
        }
    };
    Outcome o = cx.mutate([&]() { s->sut->updateEscapeCache(q.comp, es, q.ethr, q.ithr, q.n, q.alpha, q.thick); }, op.f, [&]() { look("escape peaks after a failed cache operation"); });
    if (o.threw && !o.fired && fits) cx.fail("unexpected-failure", "the escape cache could not be filled: " + o.what);
    if (o.ok) cx.mutations++;
    if (es.size()) { q.x = es[0]; s->escRecent.push_back(q); if (s->escRecent.size() > 3) s->escRecent.erase(s->escRecent.begin()); }
    if (op.f.any()) look("escape peaks after a cache operation");
    cx.state("esc " + op.s(1) + op.s(2) + op.s(4) + std::to_string(s->escOn));
}
SIM_OP(lQ, "l.q") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    LibQuery q = parseLibQuery(op, 1);
    if (questionIsCyclic(*s, q)) return;
    if ((q.kind == "el" || q.kind == "elw") && s->twin->isElementNameDefined(q.el)) keepOwnShells(q.eq, s->twin->getElement(q.el));
    std::vector<Material> mats = materialsOf((q.kind == "compm" || q.kind == "compmap") ? q.names : VS());
    refreshLib(cx, *s);
    Ans e = expectedOf(*s, q, mats);
    cx.query("library query " + q.kind, [&]() { return askLibrary(*s->sut, q, mats); }, e, op.f);
    if (q.kind == "comp") {
        std::string d = differ(e, Ctx::model([&]() { return modelComposition(*s, q.s1); }), 1e-9);
        if (!d.empty()) cx.fail("wrong-answer", "composition of " + q.s1 + ": " + d);
    }
    refLibraryCheck(cx, *s, q, e);
    cx.count["queries"]++;
}
SIM_OP(lCheck, "l.check") {
    LibSlot * s = findLib(w, op.s(0));
    if (!s) return;
    VS more = op.has(1) ? op.ss(1) : VS();
    libUnchanged(cx, *s, "library", false, more);
}
}
