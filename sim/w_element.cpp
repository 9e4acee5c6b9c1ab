#include "world.h"
#include <algorithm>
using fisx::Element;
namespace sim {

std::string untilde(const std::string & s) {
    if (s == "-") return "";
    std::string r = s;
    for (auto & c : r) if (c == '~') c = ' ';
    return r;
}
static MSD zip(const VS & k, const VD & v) {
    MSD m;
    for (size_t i = 0; i < k.size() && i < v.size(); i++) m[untilde(k[i])] = v[i];
    return m;
}
static MSD parseDist(const std::string & s) {
    MSD m;
    if (s == "-") return m;
    for (auto & p : splitStr(s, ',')) { VS kv = splitStr(p, ':'); if (kv.size() == 2) m[untilde(kv[0])] = strtod(kv[1].c_str(), nullptr); }
    return m;
}
// The functions taking a vacancy distribution expect vacancies in shells of the element.
void keepOwnShells(ElQuery & q, const Element & e) {
    if (q.dist.empty()) return;
    const MSD & be = e.getBindingEnergies();
    MSD kept;
    for (auto & v : q.dist) { auto b = be.find(v.first); if (b != be.end() && b->second > 0) kept.insert(v); }
    q.dist.swap(kept);
}
ElQuery parseElQuery(const Op & op, size_t k) {
    ElQuery q;
    q.kind = op.s(k);
    const std::string & n = q.kind;
    if (n == "mu1" || n == "part" || n == "vac1" || n == "emitted" || n == "shells") q.x = op.d(k + 1);
    else if (n == "muv" || n == "vacv") q.xs = op.ds(k + 1);
    else if (n == "exc1") { q.x = op.d(k + 1); q.w = op.d(k + 2); }
    else if (n == "excv") { q.xs = op.ds(k + 1); q.ws = op.ds(k + 2); }
    else if (n == "lines") { q.dist = parseDist(op.s(k + 1)); q.i1 = (int) op.i(k + 2); q.i2 = (int) op.i(k + 3); }
    else if (n == "casdist") q.dist = parseDist(op.s(k + 1));
    else if (n == "trans" || n == "rad" || n == "non" || n == "con" || n == "flu" || n == "aug" || n == "ck" || n == "xlines" || n == "yield") q.s1 = untilde(op.s(k + 1));
    else if (n == "dvt") { q.s1 = untilde(op.s(k + 1)); q.s2 = untilde(op.s(k + 2)); }
    else if (n == "edges" || n == "mutable" || n == "be" || n == "meta") ;
    else if (n == "edgesv") { q.xs = op.ds(k + 1); q.ws = op.ds(k + 2); }
    else if (n == "idx") { q.xs = op.ds(k + 1); q.x = op.d(k + 2); }
    else throw HarnessError{"unknown element query " + n};
    return q;
}
Ans askElement(Element & e, const ElQuery & q) {
    const Element & c = e;
    const std::string & n = q.kind;
    if (n == "mu1") return Q([&]() { return c.getMassAttenuationCoefficients(q.x); });
    if (n == "muv") return Q([&]() { return c.getMassAttenuationCoefficients(q.xs); });
    if (n == "part") return Q([&]() { return c.getPartialPhotoelectricMassAttenuationCoefficients(q.x); });
    if (n == "vac1") return Q([&]() { return c.getInitialPhotoelectricVacancyDistribution(q.x); });
    if (n == "vacv") return Q([&]() { return c.getInitialPhotoelectricVacancyDistribution(q.xs); });
    if (n == "exc1") return Q([&]() { return c.getPhotoelectricExcitationFactors(q.x, q.w); });
    if (n == "excv") return Q([&]() { return c.getPhotoelectricExcitationFactors(q.xs, q.ws); });
    if (n == "lines") return Q([&]() { return c.getXRayLinesFromVacancyDistribution(q.dist, q.i1, q.i2); });
    if (n == "casdist") return Q([&]() { return c.getCascadeModifiedVacancyDistribution(q.dist); });
    if (n == "emitted") return Q([&]() { return c.getEmittedXRayLines(q.x); });
    if (n == "shells") return Q([&]() { return c.getExcitedShells(q.x); });
    if (n == "trans") return Q([&]() { return c.getTransitionEnergy(q.s1); });
    if (n == "rad") return Q([&]() { return c.getRadiativeTransitions(q.s1); });
    if (n == "non") return Q([&]() { return c.getNonradiativeTransitions(q.s1); });
    if (n == "con") return Q([&]() { return c.getShellConstants(q.s1); });
    if (n == "flu") return Q([&]() { return c.getFluorescenceRatios(q.s1); });
    if (n == "xlines") return Q([&]() { return c.getXRayLines(q.s1); });
    if (n == "aug") return Q([&]() { return e.getAugerRatios(q.s1); });
    if (n == "ck") return Q([&]() { return e.getCosterKronigRatios(q.s1); });
    if (n == "yield") return Q([&]() { return c.getShell(q.s1).getFluorescenceYield(); });
    if (n == "dvt") return Q([&]() { return c.getShell(q.s1).getDirectVacancyTransferRatios(q.s2); });
    if (n == "edges") return Q([&]() { return e.extractEdgeEnergiesFromMassAttenuationCoefficients(); });
    if (n == "edgesv") return Q([&]() { return e.extractEdgeEnergiesFromMassAttenuationCoefficients(q.xs, q.ws); });
    if (n == "mutable") return Q([&]() { return c.getMassAttenuationCoefficients(); });
    if (n == "be") return Q([&]() { return c.getBindingEnergies(); });
    if (n == "idx") return Q([&]() { return c.getInterpolationIndices(q.xs, q.x); });
    if (n == "meta") {
        std::string a = c.getName(), b = c.getLongName();
        double d[5] = {(double) c.getAtomicNumber(), c.getAtomicMass(), c.getDensity(), (double) c.getColumn(), (double) c.getRow()};
        bool old = seam::inSut;
        seam::inSut = false;
        Ans r;
        flat(r, a); flat(r, b);
        for (double x : d) flat(r, x);
        seam::inSut = old;
        return r;
    }
    throw HarnessError{"unknown element query " + n};
}

static const char * const SHELLS[9] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};

// a copy of an element without any cache
static std::shared_ptr<Element> plain(const Element & e) {
    std::shared_ptr<Element> p(new Element(e));
    p->setCacheEnabled(0);
    p->clearCache();
    p->setCascadeCacheEnabled(0);
    p->emptyCascadeCache();
    return p;
}
CEl canonical(const ElRec & r) {
    std::shared_ptr<Element> p = r.base ? plain(*r.base) : std::shared_ptr<Element>(new Element(r.blankName, r.blankZ));
    if (r.name) p->setName(*r.name);
    if (r.longName) p->setLongName(*r.longName);
    if (r.mass) p->setAtomicMass(*r.mass);
    if (r.density) p->setDensity(*r.density);
    if (r.column) p->setColumn(*r.column);
    if (r.row) p->setRow(*r.row);
    if (r.z) p->setAtomicNumber(*r.z);
    bool touched = false;
    // first the partial coefficients that were given with the initial binding energies
    for (int pass = 0; pass < 2; pass++)
        for (auto & q : r.part) {
            if (q.second.beSet != (pass == 1)) continue;
            if (q.second.beSet) { p->setBindingEnergies(q.second.be); touched = true; }
            p->setPartialPhotoelectricMassAttenuationCoefficients(q.first, q.second.e, q.second.v);
        }
    if (r.beSet) p->setBindingEnergies(r.be);
    else if (touched) throw HarnessError{"record of binding energies"};
    if (r.muSet) {
        VD pair = r.muPair ? r.mx : VD();
        p->setMassAttenuationCoefficients(r.me, r.mp, r.mc, r.mi, pair);
    }
    for (auto & q : r.con) p->setShellConstants(q.first, q.second);
    for (auto & q : r.rad) p->setRadiativeTransitions(q.first, q.second);
    for (auto & q : r.non) p->setNonradiativeTransitions(q.first, q.second);
    return p;
}
static Element & twinOf(ElSlot & s) {
    if (!s.twin) s.twin = canonical(s.rec);
    return const_cast<Element &>(*s.twin);
}
ElSlot * findEl(World & w, const std::string & n) {
    auto it = w.el.find(n);
    return it == w.el.end() ? nullptr : it->second;
}
static void dropEl(World & w, const std::string & n) {
    auto it = w.el.find(n);
    if (it == w.el.end()) return;
    delete it->second->sut;
    delete it->second;
    w.el.erase(it);
}
std::vector<ElQuery> elementDigest(const Element & t, bool cascade) {
    std::vector<ElQuery> r;
    auto add = [&](const char * k) -> ElQuery & { r.push_back(ElQuery()); r.back().kind = k; return r.back(); };
    add("meta");
    add("be");
    add("mutable");
    VD xs;
    const MSD & be = t.getBindingEnergies();
    double top = 0;
    for (auto & b : be) if (b.second > top) top = b.second;
    xs.push_back(top > 0 ? top * 1.3 + 0.5 : 10.0);
    xs.push_back(top > 0 ? top * 0.61 : 3.0);
    auto l3 = be.find("L3");
    if (l3 != be.end() && l3->second > 0) xs.push_back(l3->second * 1.001);
    add("muv").xs = xs;
    for (double x : xs) add("mu1").x = x;
    add("part").x = xs[0];
    if (cascade) for (double x : xs) { ElQuery & q = add("exc1"); q.x = x; q.w = 0.5; }
    for (const char * s : SHELLS) {
        if (!be.count(s)) continue;
        for (const char * k : {"rad", "non", "con", "flu", "aug", "ck"}) add(k).s1 = s;
    }
    MSD d;
    d["K"] = 0.7; d["L1"] = 0.2; d["L3"] = 0.05;
    { ElQuery & q = add("casdist"); q.dist = d; }
    { ElQuery & q = add("lines"); q.dist = d; q.i1 = 0; q.i2 = 1; }
    { ElQuery & q = add("lines"); q.dist = d; q.i1 = 1; q.i2 = 0; }
    return r;
}
void remember(VD & recent, const VD & es) {
    for (size_t i = 0; i < es.size() && i < 4; i++) if (std::find(recent.begin(), recent.end(), es[i]) == recent.end()) recent.push_back(es[i]);
    if (recent.size() > 8) recent.erase(recent.begin(), recent.end() - 8);
}
std::vector<ElQuery> recentQuestions(const VD & recent, bool cascade) {
    std::vector<ElQuery> r;
    for (double x : recent) {
        r.push_back(ElQuery());
        r.back().kind = "mu1"; r.back().x = x;
        if (!cascade) continue;
        r.push_back(ElQuery());
        r.back().kind = "exc1"; r.back().x = x; r.back().w = 0.7;
    }
    return r;
}
static void lookRecent(Ctx & cx, ElSlot & s, const std::string & why) {
    if (s.recent.empty()) return;
    Element & t = twinOf(s);
    for (auto & q : recentQuestions(s.recent, !(s.stale && s.casOn))) {
        Outcome o;
        Ans a = cx.ask([&]() { return askElement(*s.sut, q); }, nullptr, &o);
        cx.judge(why + " (" + q.kind + " at an energy of the cache)", a, o, Ctx::model([&]() { return askElement(t, q); }));
    }
}
static void digest(Ctx & cx, ElSlot & s, const std::string & why) {
    Element & t = twinOf(s);
    std::vector<ElQuery> all = elementDigest(t, !(s.stale && s.casOn)), more = recentQuestions(s.recent, !(s.stale && s.casOn));
    all.insert(all.end(), more.begin(), more.end());
    for (auto & q : all) {
        Outcome o;
        Ans a = cx.ask([&]() { return askElement(*s.sut, q); }, nullptr, &o);
        Ans b = Ctx::model([&]() { return askElement(t, q); });
        cx.judge(why + " (" + q.kind + (q.s1.empty() ? "" : " " + q.s1) + ")", a, o, b);
        refElementCheck(cx, s, q, b);
    }
    if (!refWants(cx, "mu1") && !refWants(cx, "exc1")) return;
    if (ref::CRef m = refOf(s)) for (auto & q : refDigest(*m, cx.profile)) refElementCheck(cx, s, q, Ctx::model([&]() { return askElement(t, q); }));
}
void elementUnchanged(Ctx & cx, ElSlot & s, const char * why) { digest(cx, s, why); cx.count["check.unchanged"]++; }
void afterElementChange(ElSlot & s) {
    s.twin.reset();
    if (s.sut->isCascadeCacheFilled()) s.stale = true;
}

// what a state looks like, for the measure of distinct states
static void noteState(Ctx & cx, ElSlot & s) {
    std::string t = "el ";
    t += s.rec.base ? "b" : "n";
    t += std::to_string(s.rec.be.size()) + (s.rec.muSet ? "m" : "") + std::to_string(s.rec.part.size()) + "/" + std::to_string(s.rec.rad.size()) + std::to_string(s.rec.non.size()) + std::to_string(s.rec.con.size());
    t += " c" + std::to_string(s.cacheOn) + (s.sut->getCacheSize() ? "f" : "e") + " k" + std::to_string(s.casOn) + std::to_string(s.sut->isCascadeCacheFilled()) + (s.stale ? "s" : "");
    cx.state(t);
}

SIM_OP(eBlank, "e.blank") {
    dropEl(w, op.s(0));
    std::string name = untilde(op.s(1));
    int z = (int) op.i(2);
    Element * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Element(name, z); }, op.f, []() {});
    if (o.threw) {
        if (!o.fired) cx.require(z < 1, "unexpected-failure", "an element could not be created: " + o.what);
        return;
    }
    ElSlot * s = new ElSlot();
    s->sut = p;
    s->rec.blankName = name;
    s->rec.blankZ = z;
    w.el[op.s(0)] = s;
    cx.mutations++;
}
SIM_OP(eBase, "e.base") {
    dropEl(w, op.s(0));
    const fisx::Elements & lib = baseLibrary(op.has(2) ? (int) op.i(2) : 0);
    if (!lib.isElementNameDefined(op.s(1))) return;
    const Element & e = lib.getElement(op.s(1));
    Element * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Element(e); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "element copy failed: " + o.what); return; }
    ElSlot * s = new ElSlot();
    s->sut = p;
    s->rec.base = CEl(&e, [](const Element *) {});
    if (refWants(cx, "")) if (auto l = refBase(op.has(2) ? (int) op.i(2) : 0)) s->rec.refBase = l->el.at(op.s(1));
    w.el[op.s(0)] = s;
    cx.mutations++;
}
SIM_OP(eCopy, "e.copy") {
    ElSlot * b = findEl(w, op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    dropEl(w, op.s(0));
    Element * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Element(*b->sut); }, op.f, [&]() { elementUnchanged(cx, *b, "original after a failed copy"); });
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "element copy failed: " + o.what); return; }
    ElSlot * s = new ElSlot(*b);
    s->sut = p;
    w.el[op.s(0)] = s;
    cx.mutations++;
    cx.require(s->sut->isCacheEnabled() == b->sut->isCacheEnabled(), "copy", "the copy does not have the calculation cache setting of the original");
}
SIM_OP(eAssign, "e.assign") {
    ElSlot * b = findEl(w, op.s(1));
    ElSlot * d = findEl(w, op.s(0));
    if (!b || !d || b == d) return;
    Outcome o = cx.mutate([&]() { *d->sut = *b->sut; }, op.f, [&]() { elementUnchanged(cx, *b, "original after a failed assignment"); });
    if (o.threw) {
        // half assigned: only a complete assignment makes it usable again
        o = cx.sut([&]() { *d->sut = *b->sut; });
        cx.require(o.ok, "unexpected-failure", "element assignment failed: " + o.what);
    }
    Element * p = d->sut;
    *d = *b;
    d->sut = p;
    cx.mutations++;
    digest(cx, *d, "assigned element");
}
SIM_OP(eDel, "e.del") { SIM_UNUSED; dropEl(w, op.s(0)); }

static void applied(Ctx & cx, ElSlot & s) { cx.mutations++; afterElementChange(s); noteState(cx, s); if (s.cacheOn) lookRecent(cx, s, "after an accepted change"); }
template<class F> static bool change(Ctx & cx, const Op & op, ElSlot & s, bool mustReject, F f) {
    // does it fit an element with the same data? (no cache, no fault)
    bool fits = true;
    {
        std::shared_ptr<Element> scratch = plain(twinOf(s));
        try { f(*scratch); } catch (const std::exception &) { fits = false; }
    }
    Outcome o = cx.mutate([&]() { f(*s.sut); }, op.f, [&]() { elementUnchanged(cx, s, "after a failed change"); });
    if (o.ok && mustReject) cx.fail("accepted-invalid", "invalid data were accepted");
    if (o.ok && !fits) cx.fail("accepted-invalid", "data rejected by an element with the same contents were accepted");
    if (o.threw) {
        if (!o.fired && fits) cx.fail("unexpected-failure", "valid data were rejected: " + o.what);
        cx.count[o.fired ? "change.failed" : "change.rejected"]++;
        elementUnchanged(cx, s, o.fired ? "after a failed change" : "after a rejected change");
        return false;
    }
    return true;
}
SIM_OP(eMeta, "e.meta") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    std::string f = op.s(1), t = untilde(op.s(2));
    double x = op.d(2);
    int i = (int) op.i(2);
    bool reject = (f == "mass" && x < 0) || (f == "z" && i < 1);
    bool ok = change(cx, op, *s, reject, [&](Element & e) {
        if (f == "name") e.setName(t);
        else if (f == "long") e.setLongName(t);
        else if (f == "mass") e.setAtomicMass(x);
        else if (f == "density") e.setDensity(x);
        else if (f == "column") e.setColumn(i);
        else if (f == "row") e.setRow(i);
        else if (f == "z") e.setAtomicNumber(i);
    });
    if (!ok) return;
    ElRec & r = s->rec;
    if (f == "name") r.name = t;
    else if (f == "long") r.longName = t;
    else if (f == "mass") r.mass = x;
    else if (f == "density") r.density = x;
    else if (f == "column") r.column = i;
    else if (f == "row") r.row = i;
    else if (f == "z") r.z = i;
    s->twin.reset();
    cx.mutations++;
}
SIM_OP(eBe, "e.be") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    bool vec = op.s(1) == "vec";
    VS l = op.ss(2);
    for (auto & x : l) x = untilde(x);
    VD v = op.ds(3);
    MSD m = zip(l, v);
    bool reject = vec && l.size() != v.size();
    if (!vec && l.size() != v.size()) return;
    bool ok = change(cx, op, *s, reject, [&](Element & e) { if (vec) e.setBindingEnergies(l, v); else e.setBindingEnergies(m); });
    if (!ok) return;
    ElRec & r = s->rec;
    r.beSet = true;
    r.be = m;
    r.rad.clear();
    r.non.clear();
    r.con.clear();
    applied(cx, *s);
    cx.same("binding energies just accepted", cx.ask([&]() { return Q([&]() { return s->sut->getBindingEnergies(); }); }), answer(m));
}
SIM_OP(eMu, "e.mu") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    VD e = op.ds(1), p = op.ds(2), c = op.ds(3), i = op.ds(4), x;
    bool pair = op.has(5) && op.s(5) != "-";
    if (pair) x = op.ds(5);
    bool reject = p.size() != e.size() || c.size() != e.size() || i.size() != e.size() || (x.size() && x.size() != e.size()) || !std::is_sorted(e.begin(), e.end());
    bool four = op.has(6);   // the overload without pair production
    bool ok = change(cx, op, *s, reject, [&](Element & el) {
        if (four && !pair) el.setMassAttenuationCoefficients(e, p, c, i);
        else el.setMassAttenuationCoefficients(e, p, c, i, x);
    });
    if (!ok) return;
    ElRec & r = s->rec;
    r.muSet = true;
    r.muPair = x.size() > 0;
    r.me = e; r.mp = p; r.mc = c; r.mi = i; r.mx = x;
    applied(cx, *s);
    if (x.empty()) x.assign(e.size(), 0.0);
    MSV t;
    t["energy"] = e; t["photoelectric"] = p; t["coherent"] = c; t["compton"] = i; t["pair"] = x;
    VD tot;
    for (size_t k = 0; k < e.size(); k++) tot.push_back(c[k] + (i[k] + x[k] + p[k]));
    t["total"] = tot;
    cx.same("attenuation table just accepted", cx.ask([&]() { return Q([&]() { return s->sut->getMassAttenuationCoefficients(); }); }), answer(t));
}
SIM_OP(ePart, "e.part") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    std::string shell = untilde(op.s(1));
    VD e = op.ds(2), v = op.ds(3);
    bool known = shell == "all other";
    for (auto k : SHELLS) if (shell == k) known = true;
    bool reject = !known || e.size() != v.size() || !std::is_sorted(e.begin(), e.end()) || (e.size() && e[0] < 0);
    bool ok = change(cx, op, *s, reject, [&](Element & el) { el.setPartialPhotoelectricMassAttenuationCoefficients(shell, e, v); });
    if (!ok) return;
    ElRec & r = s->rec;
    ElRec::Part p;
    p.beSet = r.beSet;
    p.be = r.be;
    p.e = e;
    p.v = v;
    r.part[shell] = p;
    applied(cx, *s);
}
// the normalised name of a radiative transition
static std::string upper(std::string s) { for (auto & c : s) c = (char) toupper(c); return s; }
static void rates(World & w, Ctx & cx, const Op & op, bool radiative) {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    std::string shell = op.s(1);
    VS l = op.ss(2);
    VD v = op.ds(3);
    bool vec = op.s(4) == "vec";
    if (!vec && l.size() != v.size()) return;
    MSD m = zip(l, v);
    if (vec && l.size() == v.size() && m.size() != l.size()) return;
    const MSD & be = s->sut->getBindingEnergies();
    auto b = be.find(shell);
    bool reject = b == be.end() || b->second <= 0 || (vec && l.size() != v.size());
    bool ok = change(cx, op, *s, reject, [&](Element & el) {
        if (radiative) { if (vec) el.setRadiativeTransitions(shell, l, v); else el.setRadiativeTransitions(shell, m); }
        else { if (vec) el.setNonradiativeTransitions(shell, l, v); else el.setNonradiativeTransitions(shell, m); }
    });
    if (!ok) return;
    (radiative ? s->rec.rad : s->rec.non)[shell] = m;
    applied(cx, *s);
    if (radiative) {
        // emission ratios follow the accepted values
        MSD got, ratios;
        double total = 0;
        bool plain = true;
        for (auto & x : m) {
            std::string k = upper(x.first);
            if (k.size() == 2) k += "2";
            if (k.size() == 5 && k != "TOTAL") plain = false;
            if (k == "TOTAL") continue;
            got[k] = x.second;
            total += x.second;
        }
        if (plain && total > 0) {
            MSD sutRatios;
            Outcome o = cx.sut([&]() { sutRatios = s->sut->getFluorescenceRatios(shell); });
            if (o.ok) for (auto & x : got) {
                auto f = sutRatios.find(x.first);
                // the table may call the line by its shell and the origin shell
                if (f == sutRatios.end()) { cx.count["ratio.othername"]++; continue; }
                cx.same("emission ratio of " + x.first, answer(f->second), answer(x.second / total));
            }
            cx.require(sutRatios.size() == got.size(), "wrong-answer", "number of emission ratios after an accepted change");
        }
    }
}
SIM_OP(eRad, "e.rad") { rates(w, cx, op, true); }
SIM_OP(eNon, "e.non") { rates(w, cx, op, false); }
SIM_OP(eCon, "e.con") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    std::string shell = op.s(1);
    MSD m = zip(op.ss(2), op.ds(3));
    const MSD & be = s->sut->getBindingEnergies();
    bool ok = change(cx, op, *s, !be.count(shell), [&](Element & el) { el.setShellConstants(shell, m); });
    if (!ok) return;
    for (auto & x : m) s->rec.con[shell][x.first] = x.second;
    cx.mutations++;
    s->twin.reset();
    // the constants reset the cascade
    if (!s->sut->isCascadeCacheFilled()) s->stale = false; else s->stale = true;
    noteState(cx, *s);
    if (s->cacheOn) lookRecent(cx, *s, "after accepted constants");
    MSD now;
    Outcome o = cx.sut([&]() { now = s->sut->getShellConstants(shell); });
    cx.require(o.ok, "unexpected-failure", "shell constants cannot be read");
    for (auto & x : m) {
        cx.require(now.count(x.first) > 0, "wrong-answer", "accepted constant " + x.first + " is not there");
        cx.same("constant " + x.first, answer(now[x.first]), answer(x.second));
    }
}
SIM_OP(eCache, "e.cache") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    int f = (int) op.i(1);
    Outcome o = cx.mutate([&]() { s->sut->setCacheEnabled(f); }, op.f, [&]() {});
    if (o.ok) { s->cacheOn = f != 0; cx.mutations++; }
    cx.require(s->sut->isCacheEnabled() == s->cacheOn, "wrong-answer", "isCacheEnabled does not give the last setting");
    noteState(cx, *s);
}
static void refreshCascade(Ctx & cx, ElSlot & s) {
    if (!s.stale) return;
    Outcome o = cx.sut([&]() { s.sut->fillCascadeCache(); });
    if (o.threw) {
        // the data do not allow a cascade
        std::shared_ptr<Element> t = plain(twinOf(s));
        bool fits = true;
        try { t->fillCascadeCache(); } catch (const std::exception &) { fits = false; }
        cx.require(!fits, "unexpected-failure", "the cascade cache could not be refilled: " + o.what);
    }
    s.stale = false;
}
static void fill(World & w, Ctx & cx, const Op & op, bool update) {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    VD es = op.ds(1);
    if (s->casOn) refreshCascade(cx, *s);
    Element & t = twinOf(*s);
    bool fits = true;
    for (size_t i = 0; i < es.size() && fits; i++) {
        if (es.size() > 200 && i > 3 && i + 3 < es.size()) continue;
        try { t.getMassAttenuationCoefficients(es[i]); t.getPhotoelectricExcitationFactors(es[i], 1.0); } catch (const std::exception &) { fits = false; }
    }
    remember(s->recent, es);
    int before = s->sut->getCacheSize();
    Outcome o = cx.mutate([&]() { if (update) s->sut->updateCache(es); else s->sut->fillCache(es); }, op.f, [&]() {
        cx.require(s->sut->isCacheEnabled() == s->cacheOn, "wrong-answer", "a failed cache operation changed the cache setting");
        elementUnchanged(cx, *s, "after a failed cache operation");
    });
    if (o.threw && !o.fired && fits) cx.fail("unexpected-failure", "the cache could not be filled: " + o.what);
    if (o.ok) cx.mutations++;
    cx.require(s->sut->isCacheEnabled() == s->cacheOn, "wrong-answer", "filling the cache changed the cache setting");
    if (o.ok && !update) {
        std::set<double> d;
        for (size_t i = 0; i < es.size() && i < 10000; i++) d.insert(es[i]);
        cx.require((size_t) s->sut->getCacheSize() == d.size(), "wrong-answer", "the cache size after filling is " + std::to_string(s->sut->getCacheSize()) + ", expected " + std::to_string(d.size()));
    }
    if (o.ok && update) {
        std::set<double> d(es.begin(), es.end());
        size_t least = std::max((size_t) before, std::min(d.size(), (size_t) 10000));
        cx.require((size_t) s->sut->getCacheSize() >= least, "wrong-answer", "the cache size after an update that was not reported as failed is " + std::to_string(s->sut->getCacheSize()) + ", expected at least " + std::to_string(least));
    }
    cx.require(s->sut->getCacheSize() <= 10000, "wrong-answer", "the cache exceeds its maximum size");
    if (op.f.any()) elementUnchanged(cx, *s, "after a cache operation");
    // what is in the cache, also if the cache is not in use now
    if (!s->cacheOn) cx.sut([&]() { s->sut->setCacheEnabled(1); });
    lookRecent(cx, *s, o.ok ? "with the cache just filled" : "after a cache operation that failed");
    if (!s->cacheOn) cx.sut([&]() { s->sut->setCacheEnabled(0); });
    noteState(cx, *s);
}
SIM_OP(eFill, "e.fill") { fill(w, cx, op, false); }
SIM_OP(eUpd, "e.upd") { fill(w, cx, op, true); }
SIM_OP(eClear, "e.clear") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    Outcome o = cx.mutate([&]() { s->sut->clearCache(); }, op.f, [&]() { elementUnchanged(cx, *s, "after a failed clear"); });
    if (o.ok) { cx.mutations++; cx.require(s->sut->getCacheSize() == 0, "wrong-answer", "the cache is not empty after clearing it"); }
    noteState(cx, *s);
}
// outcome of a cascade cache operation on an element with the same data
static bool cascadeFits(ElSlot & s) {
    std::shared_ptr<Element> t = plain(twinOf(s));
    try { t->fillCascadeCache(); } catch (const std::exception &) { return false; }
    return true;
}
SIM_OP(eCas, "e.cas") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    int f = (int) op.i(1);
    bool fits = cascadeFits(*s);
    bool filled = s->sut->isCascadeCacheFilled() > 0;
    if (f && s->stale && filled) { refreshCascade(cx, *s); filled = s->sut->isCascadeCacheFilled() > 0; }
    Outcome o = cx.mutate([&]() { s->sut->setCascadeCacheEnabled(f); }, op.f, [&]() { elementUnchanged(cx, *s, "after a failed cascade cache operation"); });
    if (o.threw && !o.fired) cx.require(f && !filled && !fits, "unexpected-failure", "the cascade cache could not be enabled: " + o.what);
    if (o.ok) { s->casOn = f != 0; cx.mutations++; }
    elementUnchanged(cx, *s, "after a cascade cache operation");
    noteState(cx, *s);
}
SIM_OP(eCasFill, "e.casfill") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    bool fits = cascadeFits(*s);
    if (op.f.any()) refreshCascade(cx, *s);
    Outcome o = cx.mutate([&]() { s->sut->fillCascadeCache(); }, op.f, [&]() { elementUnchanged(cx, *s, "after a failed cascade cache operation"); });
    if (o.threw && !o.fired) cx.require(!fits, "unexpected-failure", "the cascade cache could not be filled: " + o.what);
    if (o.ok) { s->stale = false; cx.mutations++; }
    if (!s->stale || !s->casOn) elementUnchanged(cx, *s, "after a cascade cache operation");
    noteState(cx, *s);
}
SIM_OP(eCasEmpty, "e.casempty") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    Outcome o = cx.mutate([&]() { s->sut->emptyCascadeCache(); }, op.f, [&]() {});
    if (o.ok) { s->stale = false; cx.mutations++; cx.require(s->sut->isCascadeCacheFilled() == 0, "wrong-answer", "the cascade cache is not empty after emptying it"); }
    noteState(cx, *s);
}
SIM_OP(eQ, "e.q") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    ElQuery q = parseElQuery(op, 1);
    if (q.cascade() && s->casOn) refreshCascade(cx, *s);
    Element & t = twinOf(*s);
    keepOwnShells(q, t);
    Ans known = Ctx::model([&]() { return askElement(t, q); });
    cx.query("element query " + q.kind, [&]() { return askElement(*s->sut, q); }, known, op.f);
    refElementCheck(cx, *s, q, known);
    cx.count["queries"]++;
}
SIM_OP(eCheck, "e.check") {
    ElSlot * s = findEl(w, op.s(0));
    if (!s) return;
    if (s->casOn) refreshCascade(cx, *s);
    digest(cx, *s, "element");
}
}
