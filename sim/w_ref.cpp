// Refinement: what the library answers against the independent model, for the
// data accepted in the history of the object.
#include "world.h"
#include <algorithm>
namespace sim {
// which kinds of questions are compared with the model
static int part(const std::string & k) {
    for (const char * n : {"mu1", "muv", "part", "mutable", "edges", "edgesv", "muel", "muc", "mucv", "mucomp", "mucompv", "be"}) if (k == n) return 20;
    for (const char * n : {"comp", "compf", "parse", "compm", "compmap"}) if (k == n) return 21;
    return 22;
}
bool refWants(const Ctx & cx, const std::string & kind) {
    const std::string & p = cx.profile;
    bool any = p == "C20" || p == "C21" || p == "C22" || p == "C24";
    if (!any || kind.empty()) return any;
    return atoi(p.c_str() + 1) == part(kind);
}
static VD columnOf(const MSV & m, const std::string & k) { auto i = m.find(k); return i == m.end() ? VD() : i->second; }

ref::CRef refOf(ElSlot & s) {
    if (!s.twin) s.twin = canonical(s.rec);
    if (s.refTwin == s.twin && s.refTwin) return s.ref;
    s.refTwin = s.twin;
    s.ref.reset();
    const ElRec & r = s.rec;
    if (r.base && !r.refBase) return s.ref;
    std::shared_ptr<ref::El> e(r.refBase ? new ref::El(*r.refBase) : new ref::El(r.blankName, r.blankZ));
    if (r.name) e->name = *r.name;
    if (r.mass) e->mass = *r.mass;
    if (r.z) e->z = *r.z;
    for (int pass = 0; pass < 2; pass++) for (auto & q : r.part) {
        if (q.second.beSet != (pass == 1)) continue;
        if (q.second.beSet) e->setBe(q.second.be);
        e->setPart(q.first, q.second.e, q.second.v);
    }
    if (r.beSet) e->setBe(r.be);
    if (r.muSet) e->setMu(r.me, r.mp, r.mc, r.mi, r.muPair ? r.mx : VD());
    for (auto & q : r.con) e->setCon(q.first, q.second);
    for (auto & q : r.rad) e->setRad(q.first, q.second);
    for (auto & q : r.non) e->setNon(q.first, q.second);
    s.ref = e;
    return s.ref;
}
std::shared_ptr<const ref::Lib> refChanged(Ctx & cx, const std::shared_ptr<const ref::Lib> & l, std::function<void(ref::Lib &)> f) {
    std::shared_ptr<ref::Lib> n(new ref::Lib(*l));
    try { f(*n); } catch (const std::exception &) { cx.count["ref.lost"]++; return nullptr; }
    cx.count["ref.change"]++;
    return n;
}
std::shared_ptr<const ref::Lib> refDirectory(const std::string & dir, int kind) {
    static std::map<std::string, std::shared_ptr<const ref::Lib> > seen;
    std::string key = std::to_string(kind) + dir;
    auto it = seen.find(key);
    if (it != seen.end()) return it->second;
    std::shared_ptr<const ref::Lib> & r = seen[key];
    auto file = [&](const std::string & n) {
        std::vector<ref::Scan> s;
        if (!cleanScans(dir + "/" + n, s)) throw ref::No(n);
        return s;
    };
    try {
        std::shared_ptr<ref::Lib> l(new ref::Lib());
        auto data = file("EPDL97_CrossSections.dat");
        std::shared_ptr<ref::Photo> ph(new ref::Photo(ref::readPhoto(file("EADL97_BindingEnergies.dat").at(0), data)));
        if (kind == 1 || kind == 2 || kind == 3) {
            ref::Photo other = ref::readPhoto(file("BindingEnergies.dat").at(0), std::vector<ref::Scan>());
            ph->be.resize(other.be.size());
            for (size_t i = 0; i < other.be.size(); i++) for (auto & x : other.be[i]) ph->be[i][x.first] = x.second;
        }
        l->photo = ph;
        fisx::Elements & known = const_cast<fisx::Elements &>(baseLibrary(0));
        for (auto & n : known.getElementNames()) {
            std::shared_ptr<ref::El> e(new ref::El(n, known.getAtomicNumber(n)));
            e->mass = known.getAtomicMass(n);
            e->setBe(ph->be[std::min((size_t) e->z, ph->be.size()) - 1]);
            const MSV & t = ph->mu[std::min((size_t) e->z, ph->mu.size()) - 1];
            e->setMu(t.at("energy"), t.at("photoelectric"), t.at("coherent"), t.at("compton"), t.at("pair"));
            for (const char * s : {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"}) e->setPart(s, t.at("energy"), t.at(s));
            l->el[n] = e;
            l->order.push_back(n);
        }
        for (const char * m : {"K", "L", "M"}) {
            std::string s = std::string("EADL97_") + m;
            l->conFile(m, file(s + "ShellConstants.dat"));
            l->radFile(m, file(s + "ShellNonradiativeRates.dat"), false);
            l->radFile(m, file(s + "ShellRadiativeRates.dat"), true);
        }
        if (kind == 1 || kind == 3 || kind == 4) l->macFile(file("XCOM_CrossSections.dat"));
        if (kind == 1) for (const char * m : {"K", "L", "M"}) {
            l->conFile(m, file(std::string(m) + "ShellConstants.dat"));
            l->radFile(m, file(std::string(m) + "ShellRates.dat"), true);
        }
        r = l;
    } catch (const std::exception & e) {
        if (getenv("SIM_VERBOSE")) fprintf(stderr, "no model of %s: %s\n", key.c_str(), e.what());
    }
    return r;
}
std::shared_ptr<const ref::Lib> refBase(int kind) { return refDirectory("/sim/data", kind == 1); }

static Ans refElement(const ref::El & e, const ElQuery & q) {
    const std::string & n = q.kind;
    auto vec = [&](const VD & xs, std::function<MSD(double)> f) { MSV r; for (double x : xs) for (auto & y : f(x)) r[y.first].push_back(y.second); return r; };
    if (n == "mu1") return answer(e.mu1(q.x));
    if (n == "muv") return answer(vec(q.xs, [&](double x) { return e.mu1(x); }));
    if (n == "part") return answer(e.partials(q.x));
    if (n == "vac1") return answer(e.vacancies(q.x));
    if (n == "vacv") {
        MSV r = vec(q.xs, [&](double x) { return e.vacancies(x); });
        for (const char * s : {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"}) r[s];
        return answer(r);
    }
    if (n == "exc1") return answer(e.excitation(q.x, q.w));
    if (n == "excv") {
        std::vector<ref::MMD> r;
        for (size_t i = 0; i < q.xs.size(); i++) r.push_back(e.excitation(q.xs[i], q.ws.size() > 1 ? q.ws.at(i) : (q.ws.size() == 1 ? q.ws[0] : 1.0 / (double) q.xs.size())));
        return answer(r);
    }
    if (n == "lines") return answer(e.lines(q.dist, q.i1 != 0, q.i2 != 0));
    if (n == "casdist") return answer(e.cascade(q.dist));
    if (n == "emitted") return answer(e.emitted(q.x));
    if (n == "shells") return answer(e.excited(q.x));
    if (n == "trans") return answer(e.energy(q.s1));
    auto known = [&](const std::map<std::string, MSD> & m) {
        if (!e.has(q.s1)) throw ref::No("shell");
        auto i = m.find(q.s1);
        return i == m.end() ? MSD() : i->second;
    };
    if (n == "rad") return answer(known(e.rad));
    if (n == "non") return answer(known(e.non));
    if (n == "con") return answer(known(e.con));
    if (n == "flu" || n == "xlines") return answer(e.fluorescence(q.s1));
    if (n == "aug") return answer(e.auger(q.s1));
    if (n == "ck") return answer(e.costerKronig(q.s1));
    if (n == "yield") return answer(e.omega(q.s1));
    if (n == "dvt") return answer(e.transfer(q.s1, q.s2));
    if (n == "edges") return answer(e.edges(columnOf(e.mu, "energy"), columnOf(e.mu, "photoelectric")));
    if (n == "edgesv") return answer(e.edges(q.xs, q.ws));
    if (n == "mutable") return answer(e.mu);
    if (n == "be") return answer(e.be);
    throw HarnessError{"no model"};
}
static bool modelled(const std::string & k) { return k != "idx" && k != "meta"; }
// an unknown name is an error or has no composition
static bool nothing(const Ans & a) { return a.threw || a.num.empty(); }
template<class F> static Ans expected(F f) {
    Ans a;
    ref::vague = false;
    try { a = f(); } catch (const std::exception &) { a = Ans(); a.threw = true; a.shape = "!threw"; }
    return a;
}
static void compare(Ctx & cx, const std::string & what, const Ans & got, const Ans & want, double tol = 1e-6) {
    if (ref::vague) { cx.count["ref.vague"]++; return; }
    if (got.threw != want.threw) cx.fail("wrong-answer", what + (got.threw ? ": refused, the model gives " + want.text() : ": the model refuses, got " + got.text()));
    if (!got.threw) cx.sameTol(what + " (reference model)", got, want, tol, 1e-13);
    cx.count["ref.compare"]++;
}
void refElementCheck(Ctx & cx, ElSlot & s, const ElQuery & q, const Ans & got) {
    if (!refWants(cx, q.kind) || !modelled(q.kind)) return;
    ref::CRef e = refOf(s);
    if (!e) { cx.count["ref.unknown"]++; return; }
    compare(cx, "element " + q.kind + " " + q.s1, got, expected([&]() { return refElement(*e, q); }));
}
static std::vector<ref::Mat> matsOf(const std::vector<MatRec> & v) {
    std::vector<ref::Mat> r;
    for (auto & m : v) { ref::Mat x; x.name = m.name; x.comp = m.comp; r.push_back(x); }
    return r;
}
static MSD scaled(const MSD & m) {
    double t = 0;
    MSD r;
    for (auto & x : m) t += x.second;
    for (auto & x : m) r[x.first] = x.second / t;
    return r;
}
void refLibraryCheck(Ctx & cx, LibSlot & s, const LibQuery & q, const Ans & got) {
    const std::string & n = q.kind;
    bool el = n == "el" || n == "elw";
    if (!refWants(cx, el ? q.eq.kind : n)) return;
    if (!s.ref) { cx.count["ref.unknown"]++; return; }
    const ref::Lib & l = *s.ref;
    std::string what = "library " + n + " " + (el ? q.el + " " + q.eq.kind + " " + q.eq.s1 : q.s1);
    if (el) {
        if (!modelled(q.eq.kind)) return;
        compare(cx, what, got, expected([&]() { return refElement(l.get(q.el), q.eq); }));
        return;
    }
    std::vector<ref::Mat> own = matsOf(s.mats), extra;
    if (n == "compm" || n == "compmap") for (auto & t : q.names) {
        MatRec m = parseMat(t);
        try { makeMaterial(m); } catch (const std::exception &) { continue; }
        ref::Mat x;
        x.name = m.name;
        x.comp = m.comp;
        extra.push_back(x);
    }
    bool with = extra.size() > 0;
    auto elemental = [&](const std::string & name) {
        MSD c = l.composition(name, own, extra, with);
        if (c.empty()) throw ref::No("composition");
        return c;
    };
    auto mixed = [&](const MSD & in, bool composition) {
        if (composition) return in;
        MSD c;
        double t = 0;
        for (auto & x : in) {
            if (x.second < 0) throw ref::No("negative");
            for (auto & y : elemental(x.first)) c[y.first] += y.second * x.second;
            t += x.second;
        }
        if (!(t > 0)) throw ref::No("total");
        for (auto & x : c) x.second /= t;
        return c;
    };
    auto vec = [&](const MSD & c, const VD & xs) {
        MSV r;
        for (const char * k : {"coherent", "compton", "pair", "photoelectric", "total", "energy"}) r[k];
        for (auto & x : c) l.get(x.first);
        for (double e : xs) for (auto & y : l.mixture(c, e)) r[y.first].push_back(y.second);
        return r;
    };
    MSD atoms;
    int kind = n == "parse" || n == "compf" || n == "comp" || n == "compm" ? ref::parse(q.s1, atoms) : 1;
    // a text of unspecified meaning
    if (kind == 0) { cx.count["ref.unspecified"]++; return; }
    Ans want;
    if (n == "parse") want = expected([&]() { return answer(atoms); });
    else if (n == "compf") want = expected([&]() { return answer(l.formula(q.s1)); });
    else if (n == "comp") want = expected([&]() { return answer(l.composition(q.s1, own, extra, false)); });
    else if (n == "compm") {
        want = expected([&]() { return answer(l.composition(q.s1, own, extra, with)); });
    }
    else if (n == "compmap") {
        for (auto & x : q.comp) { MSD a; if (ref::parse(x.first, a) == 0) return; }
        want = expected([&]() {
            MSD c;
            for (auto & x : q.comp) {
                MSD p = l.composition(x.first, own, extra, with);
                if (p.empty()) return answer(p);
                for (auto & y : p) c[y.first] += y.second * x.second;
            }
            return answer(scaled(c));
        });
    }
    else if (n == "muel") want = expected([&]() { return answer(l.get(q.s1).mu); });
    else if (n == "muc" || n == "mucv") {
        if (!l.has(q.s1) && ref::parse(q.s1, atoms) == 0) return;
        want = expected([&]() {
            if (l.has(q.s1)) {
                if (n == "muc") return answer(l.get(q.s1).mu1(q.x));
                MSV r;
                for (double x : q.xs) for (auto & y : l.get(q.s1).mu1(x)) r[y.first].push_back(y.second);
                return answer(r);
            }
            MSD c = elemental(q.s1);
            if (n == "muc") return answer(l.mixture(c, q.x));
            return answer(vec(c, q.xs));
        });
    }
    else if (n == "mucomp" || n == "mucompv") {
        for (auto & x : q.comp) { MSD a; if (ref::parse(x.first, a) == 0) return; }
        want = expected([&]() {
            MSD c = mixed(q.comp, q.i1 != 0);
            if (n == "mucomp") return answer(l.mixture(c, q.x));
            return answer(vec(c, q.xs));
        });
    }
    else if (n == "peak" || n == "peakl") {
        if (n == "peak" && ref::parse(q.s1, atoms) == 0) return;
        want = expected([&]() {
            VS names = q.names;
            if (n == "peak") { names.clear(); for (auto & x : elemental(q.s1)) names.push_back(x.first); }
            return answer(l.families(names, q.x));
        });
        if (!want.threw && !got.threw) {
            // families of equal energy in any order: compare them by name, and the energies in order
            cx.sameTol(what + " energies (reference model)", answer(got.num), answer(want.num), 1e-12);
            VS a, b;
            auto cut = [](const std::string & t) {
                VS r;
                size_t p = 0;
                while ((p = t.find('"', p)) != std::string::npos) { size_t e = t.find('"', p + 1); r.push_back(t.substr(p + 1, e - p - 1)); p = e + 1; }
                std::sort(r.begin(), r.end());
                return r;
            };
            a = cut(got.shape);
            b = cut(want.shape);
            cx.require(a == b, "wrong-answer", what + ": families " + got.text() + " expected " + want.text());
            cx.count["ref.compare"]++;
            return;
        }
    }
    else if (n == "esc") {
        bool close = false;
        want = expected([&]() {
            MSD margin;
            double t = 0;
            for (auto & x : q.comp) { l.get(x.first); t += x.second; if (x.second < 0) throw ref::No("negative"); }
            if (!(t > 0)) throw ref::No("total");
            ref::MMD r = l.escape(q.comp, q.x, q.ithr, q.alpha, q.thick, &margin);
            for (auto & x : margin) if (std::fabs(x.second - 1) < 1e-6) close = true;
            return answer(r);
        });
        if (close) { cx.count["ref.close"]++; return; }
    }
    else return;
    if ((n == "compm" || n == "compmap") && got.threw && nothing(want)) return;
    compare(cx, what, got, want);
}
// ---------------------------------------------------------------- configurations
std::vector<ref::Mat> refMats(const std::vector<MatRec> & v) { return matsOf(v); }
std::shared_ptr<const ref::Lib> refLib(const Ctx & cx, const LibSlot * l, const std::string & name) {
    if (cx.profile != "C24") return nullptr;
    if (l) return l->ref;
    return refBase(name == "base1");
}
ref::Layer refLayer(const LayRec & r, bool) {
    ref::Layer y;
    y.name = r.materialName;
    if (r.how == "object" && r.mat.comp.size()) { y.own = true; y.comp = r.mat.comp; }
    else if (r.how == "object") { y.own = true; }
    y.density = r.density;
    y.thickness = r.thickness;
    y.funny = r.funny;
    return y;
}
static ref::Conf refConf(const ConfRec & c) {
    ref::Conf r;
    r.e = c.e; r.w = c.w;
    for (auto & x : c.filters) r.filters.push_back(refLayer(x));
    for (auto & x : c.sample) r.sample.push_back(refLayer(x));
    for (auto & x : c.attenuators) r.attenuators.push_back(refLayer(x));
    for (auto & x : c.userFilters) r.userFilters.push_back(x.table);
    for (auto & x : c.userAttenuators) r.userAttenuators.push_back(x.table);
    r.materials = matsOf(c.materials);
    r.reference = c.reference;
    r.detector = refLayer(c.detector);
    r.diameter = c.detector.diameter;
    r.distance = c.detector.distance > 0 ? c.detector.distance : 10;
    r.escapeIntensity = c.detector.imin;
    r.in = c.in; r.out = c.out;
    return r;
}
// texts of unspecified meaning among the names used
static bool unspecified(const ref::Layer & y) {
    MSD a;
    if (!y.own) return ref::parse(y.name, a) == 0 && y.name.size();
    for (auto & x : y.comp) if (ref::parse(x.first, a) == 0) return true;
    return false;
}
static bool contribution(const std::string & k) { size_t n = k.size(); return n > 3 && k[n - 3] == ' ' && isdigit(k[n - 1]) && isdigit(k[n - 2]); }
void refFluoCheck(Ctx & cx, const LibSlot * ls, const std::string & lib, const ConfRec & conf, const ref::Request & q, const Ans & got, const ref::Emission & lines) {
    auto l = refLib(cx, ls, lib);
    if (!l) { if (cx.profile == "C24") cx.count["ref.unknown"]++; return; }
    ref::Conf c = refConf(conf);
    if (c.e.empty()) return;             // no radiation: nothing to compare
    for (auto * v : {&c.filters, &c.sample, &c.attenuators}) for (auto & y : *v) if (unspecified(y)) return;
    if (unspecified(c.detector)) return;
    std::vector<ref::Mat> own = ls ? matsOf(ls->mats) : std::vector<ref::Mat>();
    ref::Fluo m(*l, own, c);
    ref::Emission want;
    bool refused = false;
    std::string why;
    ref::vague = false;
    try { want = m.run(q); } catch (const std::exception & e) { refused = true; why = e.what(); }
    for (auto * v : {&c.filters, &c.sample, &c.attenuators}) for (auto & y : *v) if (m.strange(y)) ref::vague = true;
    if (m.strange(c.detector)) ref::vague = true;
    for (auto & a : want) for (auto & b : a.second) for (auto & d : b.second) for (auto & x : d.second) if (!std::isfinite(x.second)) ref::vague = true;
    if (m.close || ref::vague) { cx.count[m.close ? "ref.close" : "ref.vague"]++; return; }
    // a line that takes no part in the answer can still be one for which there is no attenuation
    if (got.threw && !refused && m.unusable()) { cx.count["ref.unusable"]++; return; }
    std::string what = "intensities";
    for (size_t i = 0; i < q.el.size(); i++) what += " " + q.el[i] + " " + q.fam[i];
    if (got.threw != refused) cx.fail("wrong-answer", what + (refused ? ": the model refuses (" + why + ")" : ": refused, the model does not"));
    cx.count["ref.compare"]++;
    if (refused) return;
    // everything either side knows; a contribution not listed is none
    ref::Emission a, b;
    for (int pass = 0; pass < 2; pass++) for (auto & x : pass ? want : lines) for (auto & y : x.second) for (auto & z : y.second) for (auto & f : z.second) {
        const std::string & k = f.first;
        {
            (pass ? b : a)[x.first][y.first][z.first][k] = f.second;
            if (contribution(k)) (pass ? a : b)[x.first][y.first][z.first][k] += 0.0;
        }
    }
    ref::Emission exactA, exactB;
    for (int pass = 0; pass < 2; pass++) for (auto & x : pass ? b : a) for (auto & y : x.second) for (auto & z : y.second) for (auto & f : z.second) {
        bool rough = contribution(f.first) || f.first == "secondary" || f.first == "rate" || f.first == "tertiary";
        if (!rough || q.secondary == 0) (pass ? exactB : exactA)[x.first][y.first][z.first][f.first] = f.second;
        // both list the same things
        else if (!contribution(f.first)) (pass ? exactB : exactA)[x.first][y.first][z.first][f.first + " listed"] = 1;
    }
    cx.sameTol(what + " (reference model)", answer(exactA), answer(exactB), 1e-6, 1e-26);
    if (q.secondary) for (auto & x : b) for (auto & y : x.second) for (auto & z : y.second) for (auto & f : z.second) {
        double v = a[x.first][y.first][z.first][f.first], d = std::fabs(v - f.second), allowed = m.slack[x.first][y.first][z.first][f.first];
        if (v != f.second && !(d <= 1e-6 * std::fabs(f.second) + allowed + 1e-26)) cx.fail("wrong-answer", what + " (reference model): " + x.first + " layer " + std::to_string(y.first) + " " + z.first + " " + f.first + ": got " + fmt(v) + " expected " + fmt(f.second) + " allowed " + fmt(allowed));
    }
}
void refLayerCheck(Ctx & cx, const LibSlot * ls, const std::string & lib, const LayRec & y, const ConfRec * conf, const LayerQuestion & q, const Ans & got) {
    auto l = refLib(cx, ls, lib);
    if (!l) return;
    ref::Conf c;
    if (conf) c = refConf(*conf);
    std::vector<ref::Mat> own = ls ? matsOf(ls->mats) : std::vector<ref::Mat>();
    c.attenuators.push_back(refLayer(y));
    const ref::Layer & z = c.attenuators.back();
    ref::Fluo m(*l, own, c);
    if (q.kind != "eff" && q.kind != "thr" && unspecified(z)) return;
    auto vec = [&](std::function<double(double)> f) { VD r; for (double x : q.xs) r.push_back(f(x)); return r; };
    Ans want = expected([&]() {
        if (q.kind == "eff") return answer(m.geometric(q.i));
        if (q.kind == "thr") return answer(m.threshold(q.el, q.fam));
        // a name nobody knows has no composition
        if (q.kind == "comp") return answer(z.own ? m.composition(z) : l->composition(z.name, own, c.materials, true));
        if (q.kind == "mu1") return answer(m.mu(z, q.x));
        if (q.kind == "muv") {
            MSV r;
            for (const char * k : {"coherent", "compton", "pair", "photoelectric", "total", "energy"}) r[k];
            for (double x : q.xs) for (auto & t : m.mu(z, x)) r[t.first].push_back(t.second);
            return answer(r);
        }
        if (q.kind == "tr1") return answer(m.transmission(z, q.x, q.angle));
        if (q.kind == "trv") return answer(vec([&](double x) { return m.transmission(z, x, q.angle); }));
        throw ref::No("kind");
    });
    if (q.kind == "peak") return;
    if (q.kind == "comp" && got.threw && nothing(want)) return;
    compare(cx, "layer " + q.kind + " " + y.materialName, got, want);
}
void refDetectorCheck(Ctx & cx, const LibSlot * ls, const std::string & lib, const LayRec & d, double e, const Ans & got) {
    auto l = refLib(cx, ls, lib);
    if (!l) return;
    ref::Conf c;
    c.detector = refLayer(d);
    if (unspecified(c.detector)) return;
    std::vector<ref::Mat> own = ls ? matsOf(ls->mats) : std::vector<ref::Mat>();
    ref::Fluo m(*l, own, c);
    bool close = false;
    Ans want = expected([&]() {
        MSD margin;
        ref::MMD r = l->escape(m.composition(c.detector), e, d.imin, 90, 0, &margin);
        for (auto & x : margin) if (std::fabs(x.second - 1) < 1e-6) close = true;
        return answer(r);
    });
    if (!close) compare(cx, "escape of " + d.materialName, got, want);
}
std::vector<ElQuery> refDigest(const ref::El & e, const std::string & profile) {
    std::vector<ElQuery> r;
    auto add = [&](const char * k) -> ElQuery & { r.push_back(ElQuery()); r.back().kind = k; return r.back(); };
    if (profile == "C20") {
        auto m = e.mu.find("energy");
        // at, below and above edges and table points
        for (auto & b : e.be) if (b.second > 0 && (b.first[0] == 'K' || b.first[0] == 'L' || b.first == "M5")) for (double f : {0.9999, 1.0, 1.0001, 1.03}) add("mu1").x = b.second * f;
        if (m != e.mu.end() && m->second.size()) {
            const VD & t = m->second;
            size_t n = t.size();
            for (double x : {t[0], t[0] * 0.7, t[n / 2], t[n - 1], t[n - 1] * 1.2, (t[n / 3] + t[n / 3 + (n > 1 ? 1 : 0)]) / 2}) if (x > 0) add("mu1").x = x;
        }
        add("edges");
    }
    if (profile == "C22") {
        double top = 0;
        for (auto & b : e.be) if (b.second > top) top = b.second;
        add("emitted").x = top + 1;
        add("emitted").x = top * 0.5;
        add("shells").x = top * 0.5;
        for (auto & b : e.be) if (b.second > 0 && e.has(b.first)) {
            add("vac1").x = b.second * 1.01;
            ElQuery & q = add("exc1");
            q.x = b.second * 1.01;
            q.w = 0.8;
            add("shells").x = b.second;
            add("emitted").x = b.second;
        }
        for (const char * s : {"K", "L1", "L2", "M1", "M3"}) if (e.has(s)) for (const char * d : {"L2", "L3", "M2", "M5"}) {
            ElQuery & q = add("dvt");
            q.s1 = s;
            q.s2 = d;
        }
        for (const char * s : {"KL3", "L3M5", "L1M3", "M5N7"}) add("trans").s1 = s;
    }
    return r;
}
}
