// Plans for the Python classes: seeded histories of calls with arguments of
// every accepted kind, of wrong kinds, and with faults underneath.
#include "world.h"
#include <algorithm>
namespace sim {
typedef std::string S;
struct P {
    Rng & r;
    VS & o;
    double pAlloc = 0, pFs = 0, pBad = 0.04, pWrong = 0.03;
    std::map<S, S> shellName;        // slot -> shell
    std::map<S, VS> have;            // class -> slots
    VD pool;
    VS focus;
    int n = 0;
    P(Rng & rr, VS & oo) : r(rr), o(oo) {
        static const double E[] = {7.11, 7.112, 7.2, 13.04, 88.0, 1.84, 5.9, 10, 20, 3.3, 30, 60, 0.71};
        for (long k = r.range(3, 6); k > 0; k--) pool.push_back(r.chance(0.6) ? E[r.below(sizeof E / sizeof *E)] : std::floor(r.logreal(0.5, 120) * 100) / 100);
        for (long k = r.range(1, 3); k > 0; k--) focus.push_back(sym());
    }
    static S q(const S & s) {
        S t = "\"";
        for (unsigned char c : s) {
            if (c <= 32 || c > 126 || c == '"' || c == '\\' || c == '@' || c == '#') { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); t += b; }
            else t += (char) c;
        }
        return t + "\"";
    }
    // text as text or as bytes
    S t(const S & s) { return (r.chance(0.2) ? "b" : "") + q(s); }
    S sym() { if (focus.size() && r.chance(0.6)) return focus[r.below(focus.size())]; return r.pick({"Fe", "Pb", "Cu", "Ca", "Si", "O", "C", "H", "Au", "Sn", "U", "Mo", "Ba", "Cr", "Ni"}); }
    S shell() { return r.pick({"K", "K", "L1", "L2", "L3", "L3", "M1", "M2", "M3", "M4", "M5"}); }
    double en() { if (r.chance(0.05)) return pool[r.below(pool.size())] * (1 + r.pick(VD{1e-12, 1e-9, 1e-6, -1e-9})); return r.chance(0.8) ? pool[r.below(pool.size())] : std::floor(r.logreal(0.2, 150) * 1000) / 1000; }
    static S d(double x) { S s = num(x); return s; }
    template<class F> S many(F f, long a, long b, const char * open = nullptr) {
        S k = open ? open : r.pick({"[", "[", "(", "a["}), s = k;
        long m = r.range(a, b);
        for (long i = 0; i < m; i++) s += (i ? "," : "") + f();
        if (k == "(") { return s + ")"; }
        return s + "]";
    }
    S textList(VS v) { bool tuple = r.chance(0.3); S s = tuple ? "(" : "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + t(v[i]); return s + (tuple ? ")" : "]"); }
    S dblList(const VD & v) { S k = r.pick({"[", "(", "a["}), s = k; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + d(v[i]); return s + (k == "(" ? ")" : "]"); }
    S ENs() { return many([&]() { return d(en()); }, r.chance(0.05) ? 0 : 1, 4); }
    S dict(const std::vector<std::pair<S, double> > & m, bool bytes) { S s = "{"; for (size_t i = 0; i < m.size(); i++) s += (i ? "," : "") + (bytes ? "b" + q(m[i].first) : t(m[i].first)) + ":" + d(m[i].second); return s + "}"; }
    S matName() {
        if (have["m"].size() && r.chance(0.3)) return have["m"][r.below(have["m"].size())];
        switch (r.below(8)) {
        case 0: return r.pick({"PbSO4", "H2O", "CaCO3", "Fe2O3", "SiO2", "C6H12O6"});
        case 1: return r.pick({"Steel", "Goethite", "Mix", "Air", "Nothing"});
        case 2: return sym() + std::to_string(r.range(1, 4)) + sym();
        default: return sym();
        }
    }
    S file(int what) {
        // 0 constants 1 radiative rates 2 cross sections 3 spec 4 ini 5 configuration
        if (r.chance(0.05)) return r.pick({"/sim/nowhere", "/sim/data/missing.dat", "/sim/v/none/orig", "relative"});
        static const char * const V[] = {"orig", "orig", "extra", "cr", "noscan", "nolabel", "empty"};
        S v;
        switch (r.below(8)) {
        case 0: v = "t" + std::to_string(r.range(0, 999)); break;
        case 1: v = "row" + std::to_string(r.below(9)); break;
        case 2: case 3: v = "p" + std::to_string(r.below(9)); break;
        default: v = V[r.below(r.chance(0.8) ? 4 : 7)];
        }
        switch (what) {
        case 0: return "/sim/v/" + S(r.pick({"K", "L", "M"})) + "ShellConstants.dat/" + v;
        case 1: return "/sim/v/" + S(r.pick({"K", "L", "M"})) + "ShellRates.dat/" + v;
        case 2: return "/sim/v/XCOM_CrossSections.dat/" + v;
        case 3: return r.chance(0.6) ? "/sim/s/" + std::to_string(r.below(400)) : "/sim/v/EADL97_BindingEnergies.dat/" + v;
        case 4: return "/sim/i/" + std::to_string(r.below(400)) + (r.chance(0.2) ? "." + std::to_string(r.below(50)) : "");
        default: return "/sim/c/" + std::to_string(r.below(400)) + (r.chance(0.15) ? "." + std::to_string(r.below(50)) : "");
        }
    }
    S objectOf(const S & cls) { auto & v = have[cls]; if (v.empty()) make(cls); return "$" + have[cls][r.below(have[cls].size())]; }
    VD sorted(VD v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    // five lists of a table of coefficients
    S table() {
        VD e;
        for (long k = r.range(2, 6); k > 0; k--) e.push_back(std::floor(r.logreal(0.5, 120) * 100) / 100);
        e = sorted(e);
        if (r.chance(pBad) && e.size() > 1) std::swap(e[0], e[1]);
        S s = dblList(e);
        for (int k = 0; k < 4; k++) { VD v; for (size_t i = 0; i < e.size() + (r.chance(pBad) ? 1 : 0); i++) v.push_back(std::floor(r.logreal(0.01, 1000) * 1000) / 1000); s += "," + dblList(v); }
        return s;
    }
    std::vector<std::pair<S, double> > lastComposition;
    std::vector<std::pair<S, double> > composition() {
        if (lastComposition.size() && r.chance(0.3)) {
            // nearly the same once more
            auto m = lastComposition;
            if (r.chance(0.8)) m[r.below(m.size())].second *= 1 + r.pick(VD{1e-12, 1e-8, 1e-5, 0.25});
            return m;
        }
        return lastComposition = newComposition();
    }
    // a container used before, changed in place or not
    int keptNames = 0;
    std::map<S, VS> kept;
    template<class F> S keep(const S & kind, F f) {
        auto & v = kept[kind];
        if (v.size() < 2 && (v.empty() || r.chance(0.2))) { v.push_back(kind + std::to_string(keptNames++)); o.push_back("py.keep " + v.back() + " " + f()); return "&" + v.back(); }
        S s = v[r.below(v.size())];
        if (r.chance(0.6)) o.push_back("py.keep " + s + " " + f());
        return "&" + s;
    }
    std::vector<std::pair<S, double> > newComposition() {
        std::vector<std::pair<S, double> > m;
        for (long k = r.range(r.chance(0.05) ? 0 : 1, 3); k > 0; k--) {
            S e = r.chance(pBad) ? "Qq" : sym();
            bool dup = false;
            for (auto & x : m) if (x.first == e) dup = true;
            if (!dup) m.push_back({e, (double) r.range(1, 20) / 20});
        }
        return m;
    }
    S rates(const S & sh, bool radiative, bool bytes = false) {
        VS l; VD v;
        for (long k = r.range(1, 4); k > 0; k--) {
            S x = radiative ? (sh[0] == 'K' ? r.pick({"L2", "L3", "M2", "M3"}) : sh[0] == 'L' ? r.pick({"M1", "M4", "M5", "N1"}) : r.pick({"N1", "N6", "N7"}))
                            : (sh[0] == 'K' ? r.pick({"L1L1", "L2L3", "L3M1", "M1M1"}) : sh[0] == 'L' ? r.pick({"M1M1", "M4M5", "L3M1"}) : r.pick({"N1N1", "M5N1"}));
            x = sh + x;
            if (std::find(l.begin(), l.end(), x) != l.end()) continue;
            l.push_back(x); v.push_back(std::floor(r.real(0.01, 0.9) * 1000) / 1000);
        }
        if (r.chance(pBad)) v.push_back(0.1);
        return (bytes && !r.chance(pBad) ? many([&]() { S x = l.back(); l.pop_back(); return "b" + q(x); }, (long) l.size(), (long) l.size(), r.pick({"[", "("})) : textList(l)) + "," + dblList(v);
    }
    std::vector<std::pair<S, double> > vac() { std::vector<std::pair<S, double> > m; for (auto s : {"K", "L1", "L2", "L3", "M1", "M5"}) if (r.chance(0.35)) m.push_back({s, (double) r.range(1, 10) / 10}); return m; }
    S consts(const S & sh, bool bytes = false) {
        std::vector<std::pair<S, double> > m;
        m.push_back({"omega" + S(), 0.3});
        m[0].first = "omega";
        if (sh == "L1") { m.push_back({"f12", 0.1}); m.push_back({"f13", 0.2}); }
        if (sh == "L2") m.push_back({"f23", 0.1});
        m[0].second = (double) r.range(0, 6) / 10;
        if (r.chance(pBad)) m.push_back({r.pick({"f99", "zeta"}), 0.1});
        return dict(m, bytes);
    }
    // a parameter by its kind
    S arg(const S & k) {
        if (r.chance(pWrong)) return r.pick({"None", "5", "2.5", "\"Fe\"", "b\"Fe\"", "[1.5,2.5]", "[\"Fe\"]", "{}", "{\"Fe\":1.0}", "[]"});
        if (k == "el") return t(r.chance(pBad) ? r.pick({"Qq", "", "fe", "Xx"}) : S(sym()));
        if (k == "bel") return "b" + q(r.chance(pBad) ? S("Qq") : sym());
        if (k == "mat") return t(r.chance(pBad) ? r.pick({"Qq", "", "fe", "Fe(", "2"}) : matName());
        if (k == "main") return t(r.chance(pBad) ? r.pick({"N", "", "L1"}) : r.pick({"K", "L", "M"}));
        if (k == "sub") return t(r.chance(pBad) ? r.pick({"N1", "", "Q"}) : shell());
        if (k == "e") return d(en());
        if (k == "E") return r.chance(0.4) ? d(en()) : arg("EL");
        if (k == "E1") return r.chance(0.6) ? d(en()) : "[" + d(en()) + "]";
        if (k == "EN") return r.chance(0.15) ? S("None") : arg("E");
        if (k == "EL") return r.chance(0.15) ? keep("E", [&]() { return many([&]() { return d(en()); }, 1, 3, "["); }) : ENs();
        if (k == "comp") return r.chance(0.25) ? keep("C", [&]() { return dict(composition(), false); }) : dict(composition(), false);
        if (k == "flag") return r.pick({"0", "1", "1"});
        if (k == "flag01") return r.pick({"0", "1"});
        if (k == "fcon") return t(file(0));
        if (k == "frad") return t(file(1));
        if (k == "fxcom") return t(file(2));
        if (k == "fspec") return t(file(3));
        if (k == "fini") return t(file(4));
        if (k == "fconf") return t(r.chance(0.05) ? S() : file(5));
        if (k == "lib") return objectOf("Elements");
        if (k == "lay") return objectOf("Layer");
        if (k == "det") return objectOf("Detector");
        if (k == "Mat") return objectOf("Material");
        if (k == "beam") return objectOf("Beam");
        if (k == "vac") return r.chance(0.2) ? keep("V", [&]() { return dict(vac(), false); }) : dict(vac(), false);
        if (k == "x") return d(std::floor(r.logreal(0.001, 40) * 1000) / 1000);
        if (k == "pos") return d(r.chance(pBad) ? -1.0 : std::floor(r.logreal(0.0001, 20) * 10000) / 10000);
        if (k == "dens") return d(r.chance(pBad) ? r.pick(VD{-1.0, 0.0}) : std::floor(r.logreal(0.001, 20) * 10000) / 10000);
        if (k == "angle") return d(r.chance(pBad) ? r.pick(VD{0.0, -30.0, 135.0, 89.999}) : (double) r.range(5, 90));
        if (k == "funny") return d(r.chance(0.1) ? 0.5 : 1.0);
        if (k == "n") return std::to_string(r.range(0, 12));
        if (k == "idx") return std::to_string(r.chance(pBad) ? (r.chance(0.5) ? -1 : 99) : (int) r.below(4));
        if (k == "z") return std::to_string(r.chance(pBad) ? (r.chance(0.5) ? 0 : 120) : (int) r.range(1, 99));
        if (k == "mname") return t(r.chance(pBad) ? S("") : S(r.pick({"Steel", "Goethite", "Mix", "Brass", "Water"})));
        if (k == "name") return t(r.pick({"a", "Some name", "", "x_1", "\xc3\xa9t\xc3\xa9"}));
        if (k == "limit") return r.pick({"0.0", "1e-5", "0.001"});
        throw HarnessError{"unknown kind of argument " + k};
    }
    S alloc(S s, long cap) {
        if (!r.chance(pAlloc)) return s;
        if (r.chance(0.4)) return s + " @sweep=" + std::to_string(r.logint(1, cap)) + ":" + std::to_string(r.chance(0.6) ? 1 : r.logint(1, std::max(2L, cap / 12)));
        s += (r.chance(0.25) ? " @allocp=" : " @alloc=") + std::to_string(r.logint(1, cap));
        if (r.chance(0.7)) s += " @retry";
        return s;
    }
    S disk(S s, long opens, long reads) {
        if (!r.chance(pFs)) return s;
        switch (r.below(7)) {
        case 0: s += " @fs=open:" + std::to_string(r.range(1, opens)) + ":" + r.pick({"24", "13", "2", "5"}); break;
        case 1: s += " @fs=vanish:" + std::to_string(r.range(1, opens)); break;
        case 2: case 3: s += " @fs=read:" + std::to_string(r.logint(1, reads)) + ":" + r.pick({"5", "21"}); break;
        case 4: s += " @fs=readp:" + std::to_string(r.logint(1, reads)) + ":5"; break;
        case 5: s += " @fs=eintrs:" + std::to_string(r.range(2, 5)); break;
        default: s += " @fs=short:" + std::to_string(r.range(1, 999)); break;
        }
        if (r.chance(0.6)) s += " @retry";
        return s;
    }
    // "el,energy=E" -> values, the last ones perhaps by name or left out
    S args(const S & params) {
        VS pos, kw;
        bool named = false;
        for (auto & p : splitStr(params, ' ')) {
            if (p.empty()) continue;
            size_t c = p.find(':');
            S name = p.substr(0, c), kind = p.substr(c + 1);
            bool optional = name[0] == '?';
            if (optional) name = name.substr(1);
            if (optional && r.chance(0.4)) { named = true; continue; }
            if (!named && r.chance(0.12)) named = true;
            S v = arg(kind);
            if (named) kw.push_back(q(name) + ":" + v); else pos.push_back(v);
        }
        S s = "[";
        for (size_t i = 0; i < pos.size(); i++) s += (i ? "," : "") + pos[i];
        s += "]";
        if (kw.size()) { s += " {"; for (size_t i = 0; i < kw.size(); i++) s += (i ? "," : "") + kw[i]; s += "}"; }
        return s;
    }
    S fresh(const S & cls) {
        auto & v = have[cls];
        if (v.size() >= 2) return v[r.below(v.size())];
        S s = cls.substr(0, 2) + std::to_string(n++);
        v.push_back(s);
        return s;
    }
    void make(const S & cls) {
        S a;
        long cap = 60;
        if (cls == "Elements") {
            if (have[cls].empty()) { S s = fresh(cls); o.push_back("py.base " + s + " " + (r.chance(0.6) ? "1" : "0")); return; }
            if (r.chance(0.3)) { o.push_back("py.new X Elements [" + t(r.pick({"/sim/nowhere", "/sim/d/orig.3", "/sim/d/empty.7", "/sim/d/t500.12", "/sim/d/nolabel.1"})) + "]" + (r.chance(0.3) ? " {\"pymca\":1}" : "")); return; }
            auto opt = [&](const S & good) { return t(r.chance(0.3) ? S("") : r.chance(0.3) ? S(r.pick({"/sim/data/missing.dat", "/sim/nowhere"})) : r.chance(0.4) ? "/sim/v/" + good + "/" + r.pick({"p1", "extra", "t600", "nolabel", "empty", "row2"}) : "/sim/data/" + good); };
            S f = r.chance(0.5) ? "[" + t(r.chance(0.5) ? "" : "/sim/data") + "," + opt("BindingEnergies.dat") + "," + opt("XCOM_CrossSections.dat") + "]" : r.chance(0.5) ? "[] {\"pymca\":1}" : r.chance(0.5) ? "[]" : "[" + t("/sim/data") + ",\"/sim/data/BindingEnergies.dat\"," + t("/sim/data/XCOM_CrossSections.dat") + "]";
            o.push_back(disk(alloc("py.new " + fresh(cls) + " Elements " + f, 20000), 20, 400));
            return;
        }
        if (cls == "Element") a = "[" + t(r.pick({"Fe", "Qa", "Xx"})) + "," + std::to_string(r.chance(pBad) ? 0 : (int) r.range(1, 100)) + "]";
        else if (cls == "Shell") a = "[" + t(r.chance(pBad) ? r.pick({"", "Q", "N1"}) : shell()) + "]";
        else if (cls == "Material") a = args("materialName:mname ?density:dens ?thickness:pos ?comment:name");
        else if (cls == "Layer" || cls == "Detector") a = args("materialName:mat ?density:dens ?thickness:pos ?funny:funny");
        else if (cls == "TransmissionTable" || cls == "Beam" || cls == "Math") a = "[]";
        else if (cls == "XRF") a = r.chance(0.7) ? S("[]") : args("configurationFile:fconf");
        else if (cls == "SimpleIni") { a = args("name:fini"); }
        else if (cls == "SimpleSpecfile") { a = args("name:fspec"); cap = 300; }
        else if (cls == "EPDL97") { a = r.chance(0.5) ? S("[]") : r.chance(0.8) ? "[" + t("/sim/data") + "]" : "[" + t(r.pick({"/sim/nowhere", "/sim/d/orig.3", "/sim/d/empty.1"})) + "]"; cap = 4000; }
        bool files = cls == "SimpleIni" || cls == "SimpleSpecfile" || cls == "EPDL97" || a.find("/sim/") != S::npos;
        S name = fresh(cls);
        S l = alloc("py.new " + name + " " + cls + " " + a, cap);
        if (cls == "Shell") { size_t q0 = a.find('"'); shellName[name] = a.substr(q0 + 1, a.find('"', q0 + 1) - q0 - 1); }
        if (cls == "Element" && r.chance(0.85)) { o.push_back(l); bindingEnergies(name); return; }
        o.push_back(files ? disk(l, cls == "EPDL97" ? 3 : 1, cls == "EPDL97" ? 60 : 4) : l);
    }
    struct M { const char * method, * params; long cap; int files; double weight; };
    void call(const S & cls, const std::vector<M> & ms) {
        S s = objectOf(cls).substr(1);
        double total = 0;
        for (auto & m : ms) total += m.weight;
        double x = r.real(0, total);
        size_t i = 0;
        while (i + 1 < ms.size() && x >= ms[i].weight) { x -= ms[i].weight; i++; }
        const M & m = ms[i];
        S l = alloc("py.call " + s + " " + m.method + " " + args(m.params), m.cap);
        o.push_back(m.files ? disk(l, m.files, 6 * m.files) : l);
    }
    void raw(const S & cls, const S & method, const S & values, long cap) { S s = objectOf(cls).substr(1); o.push_back(alloc("py.call " + s + " " + method + " " + values, cap)); }
    void elements() {
        static const std::vector<M> MS = {
            {"initializeAsPyMca", "", 20000, 8, 0.05}, {"getElementNames", "", 300, 0, 0.1}, {"getAtomicMass", "element:el", 6, 0, 0.4}, {"getAtomicNumber", "element:el", 6, 0, 0.4}, {"getDensity", "element:el", 6, 0, 0.4},
            {"getLongName", "element:el", 6, 0, 0.4}, {"getColumn", "element:el", 6, 0, 0.3}, {"getRow", "element:el", 6, 0, 0.3}, {"getMaterialNames", "", 10, 0, 0.3}, {"getComposition", "materialOrFormula:mat", 40, 0, 2},
            {"addMaterial", "material:Mat ?errorOnReplace:flag01", 60, 0, 2}, {"removeMaterials", "", 4, 0, 0.3},
            {"setShellConstantsFile", "mainShellName:main fileName:fcon", 2000, 1, 0.6}, {"getShellConstantsFile", "mainShellName:main", 6, 0, 0.3},
            {"setShellRadiativeTransitionsFile", "mainShellName:main fileName:frad", 2000, 1, 0.6}, {"getShellRadiativeTransitionsFile", "mainShellName:main", 6, 0, 0.3}, {"getShellNonradiativeTransitionsFile", "mainShellName:main", 6, 0, 0.3},
            {"setMassAttenuationCoefficientsFile", "crossSectionsFile:fxcom", 4000, 1, 0.5},
            {"getElementMassAttenuationCoefficients", "element:el ?energy:EN", 80, 0, 2}, {"getMassAttenuationCoefficients", "name:mat ?energy:EN", 120, 0, 2}, {"getMassAttenuationCoefficients", "name:comp energy:E", 120, 0, 1.5},
            {"_getSingleMassAttenuationCoefficients", "element:bel energy:e", 60, 0, 0.4}, {"getPeakFamilies", "nameOrVector:mat energy:e", 120, 0, 1},
            {"getBindingEnergies", "elementName:el", 30, 0, 0.8}, {"getEscape", "composition:comp energy:e ?energyThreshold:limit ?intensityThreshold:limit ?nThreshold:n ?alphaIn:angle ?thickness:pos", 600, 0, 2},
            {"updateEscapeCache", "composition:comp energyList:EL ?energyThreshold:limit ?intensityThreshold:limit ?nThreshold:n ?alphaIn:angle ?thickness:pos", 2000, 0, 1},
            {"getShellConstants", "elementName:el subshell:sub", 20, 0, 0.8}, {"getEmittedXRayLines", "elementName:el ?energy:e", 200, 0, 1}, {"getRadiativeTransitions", "elementName:el subshell:sub", 60, 0, 0.8},
            {"getNonradiativeTransitions", "elementName:el subshell:sub", 60, 0, 0.8}, {"setElementCascadeCacheEnabled", "elementName:el ?flag:flag", 4, 0, 0.7}, {"emptyElementCascadeCache", "elementName:el", 4, 0, 0.5},
            {"fillCache", "elementName:el energy:EL", 200, 0, 0.8}, {"updateCache", "elementName:el energy:EL", 200, 0, 0.8}, {"setCacheEnabled", "elementName:el ?flag:flag", 4, 0, 0.8}, {"setEscapeCacheEnabled", "?flag:flag", 4, 0, 0.6},
            {"clearCache", "elementName:el", 4, 0, 0.5}, {"isCacheEnabled", "elementName:el", 4, 0, 0.5}, {"isEscapeCacheEnabled", "", 4, 0, 0.4}, {"getCacheSize", "elementName:el", 4, 0, 0.6},
            {"getInitialPhotoelectricVacancyDistribution", "elementName:el energy:e", 60, 0, 0.8}, {"getCascadeModifiedVacancyDistribution", "elementName:el distribution:vac", 200, 0, 0.8},
            {"getXRayLinesFromVacancyDistribution", "elementName:el distribution:vac ?cascade:flag01 ?useFluorescenceYield:flag01", 400, 0, 0.8}};
        switch (r.below(15)) {
        case 3: {
            S m = r.pick({"K", "L", "M"}), rates = r.pick({"Constants", "Rates"});
            o.push_back(disk(alloc("py.call " + objectOf("Elements").substr(1) + " setShell" + (rates == "Rates" ? "RadiativeTransitions" : rates) + "File [" + t(m) + "," + t("/sim/v/" + m + "Shell" + rates + ".dat/" + r.pick({"orig", "extra", "p1", "p2", "p3", "row1", "t700", "cr"})) + "]", 2000), 1, 6));
            return;
        }
        case 0: raw("Elements", "setMassAttenuationCoefficients", "[" + arg("el") + "," + table() + "]", 200); return;
        case 1: {
            // a list of energies is answered for its first one only
            if (r.chance(0.5)) raw("Elements", "getExcitationFactors", "[" + arg("el") + "," + d(en()) + (r.chance(0.5) ? "," + d(r.real(0.1, 1)) : "") + "]", 600);
            else { VD e, w; for (long k = r.range(1, 3); k > 0; k--) { e.push_back(en()); w.push_back(0.5); } raw("Elements", "getExcitationFactors", "[" + arg("el") + "," + dblList(e) + (r.chance(0.5) ? "," + dblList(w) : "") + "]", 600); }
            return;
        }
        case 2: { VS v; for (long k = r.range(1, 3); k > 0; k--) v.push_back(r.chance(pBad) ? S("Qq") : sym()); raw("Elements", "getPeakFamilies", "[" + textList(v) + "," + d(en()) + "]", 300); return; }
        default: call("Elements", MS);
        }
    }
    void bindingEnergies(const S & slot) {
        std::vector<std::pair<S, double> > m;
        double e = r.logreal(2, 80);
        for (auto s : {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"}) { m.push_back({s, std::floor(e * 1000) / 1000}); e *= s[0] == 'K' ? 0.15 : 0.9; if (r.chance(0.06)) break; }
        if (r.chance(pBad)) m.push_back({"Q1", 0.001});
        o.push_back(alloc("py.call " + slot + " setBindingEnergies [" + dict(m, true) + "]", 100));
    }
    void element() {
        static const std::vector<M> MS = {{"setName", "name:name", 4, 0, 0.3}, {"setAtomicNumber", "z:z", 4, 0, 0.5}, {"getAtomicNumber", "", 4, 0, 0.5}, {"getBindingEnergies", "", 20, 0, 1}, {"getMassAttenuationCoefficients", "?energy:EN", 60, 0, 2},
            {"getRadiativeTransitions", "shell:sub", 30, 0, 1}, {"getNonradiativeTransitions", "shell:sub", 30, 0, 1}, {"getShellConstants", "shell:sub", 30, 0, 1}};
        switch (r.below(8)) {
        case 0: {
            bindingEnergies(objectOf("Element").substr(1));
            return;
        }
        case 1: raw("Element", "setMassAttenuationCoefficients", "[" + table() + "]", 100); return;
        case 2: { S s = shell(); raw("Element", "setRadiativeTransitions", "[" + t(s) + "," + rates(s, true, true) + "]", 60); return; }
        case 3: { S s = shell(); raw("Element", "setNonradiativeTransitions", "[" + t(s) + "," + rates(s, false, true) + "]", 60); return; }
        case 4: { S s = shell(); raw("Element", "setShellConstants", "[" + t(s) + "," + consts(s, !r.chance(pBad)) + "]", 60); return; }
        case 5: raw("Element", "getXRayLinesFromVacancyDistribution", "[" + dict(vac(), true) + "]", 100); return;
        default: call("Element", MS);
        }
    }
    void shells() {
        static const std::vector<M> MS = {{"getAugerRatios", "", 30, 0, 1}, {"getCosterKronigRatios", "", 30, 0, 1}, {"getFluorescenceRatios", "", 30, 0, 1}, {"getRadiativeTransitions", "", 30, 0, 1}, {"getNonradiativeTransitions", "", 30, 0, 1},
            {"getDirectVacancyTransferRatios", "subshell:sub", 30, 0, 1}, {"getShellConstants", "", 30, 0, 1}};
        objectOf("Shell");
        S slot = have["Shell"][r.below(have["Shell"].size())], s = r.chance(0.85) ? shellName[slot] : shell();
        if (s.empty()) s = "K";
        auto raw = [&](const S & c, const S & m, const S & v, long cap) { (void) c; o.push_back(alloc("py.call " + slot + " " + m + " " + v, cap)); };
        switch (r.below(6)) {
        case 0: raw("Shell", "setRadiativeTransitions", "[" + rates(s, true) + "]", 60); return;
        case 1: raw("Shell", "setNonradiativeTransitions", "[" + rates(s, false) + "]", 60); return;
        case 2: raw("Shell", "setShellConstants", "[" + consts(s) + "]", 60); return;
        default: call("Shell", MS);
        }
    }
    void material() {
        static const std::vector<M> MS = {{"getName", "", 6, 0, 1}, {"setName", "name:mname", 6, 0, 0.6}, {"setComposition", "composition:comp", 40, 0, 2}, {"getComposition", "", 30, 0, 1}};
        if (r.chance(0.3)) {
            VS l; VD v;
            for (auto & x : composition()) { l.push_back(x.first); v.push_back(x.second); }
            if (r.chance(pBad)) v.push_back(0.5);
            raw("Material", "setCompositionFromLists", "[" + textList(l) + "," + dblList(v) + "]", 40);
        } else call("Material", MS);
    }
    void layer() {
        static const std::vector<M> MS = {{"getComposition", "elementsLib:lib", 60, 0, 1}, {"getTransmission", "energies:E elementsLib:lib ?angle:angle", 100, 0, 2}, {"setMaterial", "material:Mat", 30, 0, 1}, {"getPeakFamilies", "energy:e elementsLib:lib", 200, 0, 1}};
        call("Layer", MS);
    }
    void detector() {
        static const std::vector<M> MS = {{"getTransmission", "energies:E elementsLib:lib ?angle:angle", 100, 0, 1}, {"setActiveArea", "area:pos", 4, 0, 1}, {"setDiameter", "value:pos", 4, 0, 1}, {"getActiveArea", "", 4, 0, 0.5}, {"getDiameter", "", 4, 0, 0.5},
            {"setDistance", "value:pos", 4, 0, 1}, {"getDistance", "", 4, 0, 0.5}, {"setMaximumNumberOfEscapePeaks", "n:n", 4, 0, 0.5}, {"getEscape", "energy:e elementsLib:lib ?label:name ?update:flag01", 900, 0, 2}, {"getEscapePeakEnergyThreshold", "", 4, 0, 0.2},
            {"getEscapePeakIntensityThreshold", "", 4, 0, 0.2}, {"getEscapePeakNThreshold", "", 4, 0, 0.3}, {"getEscapePeakAlphaIn", "", 4, 0, 0.3}, {"getThickness", "", 4, 0, 0.3}, {"getDensity", "", 4, 0, 0.3}, {"getComposition", "elementsLib:lib", 60, 0, 1}};
        call("Detector", MS);
    }
    S tableDict() { S s = "{"; double e = 0; for (long k = r.range(1, 5); k > 0; k--) { e += r.real(0.5, 10); s += (s.size() > 1 ? "," : "") + d(std::floor(e * 100) / 100) + ":" + d(std::floor(r.real(0, 1) * 1000) / 1000); } return s + "}"; }
    S tableLists() { VD e, v; double x = 0; for (long k = r.range(1, 5); k > 0; k--) { x += r.real(0.5, 10); e.push_back(std::floor(x * 100) / 100); v.push_back(std::floor(r.real(0, 1) * 1000) / 1000); } if (r.chance(pBad)) v.push_back(0.5); return dblList(e) + "," + dblList(v); }
    void trans() {
        static const std::vector<M> MS = {{"getName", "", 4, 0, 0.5}, {"setName", "name:name", 4, 0, 0.5}, {"getComment", "", 4, 0, 0.5}, {"setComment", "comment:name", 4, 0, 0.5}, {"getTransmissionTable", "", 20, 0, 1}, {"getTransmission", "energy:E", 20, 0, 2}};
        S more = r.chance(0.5) ? "," + t("a name") + (r.chance(0.5) ? "," + t("a comment") : "") : S();
        switch (r.below(5)) {
        case 0: raw("TransmissionTable", "setTransmissionTableFromLists", "[" + tableLists() + more + "]", 30); return;
        case 1: raw("TransmissionTable", "setTransmissionTable", "[" + tableDict() + more + "]", 30); return;
        default: call("TransmissionTable", MS);
        }
    }
    void beam() {
        if (r.chance(0.3)) { raw("Beam", "getBeamAsDoubleVectors", "[]", 40); return; }
        VD e, w;
        for (long k = r.range(1, 4); k > 0; k--) { e.push_back(en()); w.push_back((double) r.range(1, 10)); }
        if (r.chance(2 * pBad) && w.size() > 1) w.pop_back();
        if (r.chance(pBad)) w.push_back(1.0);
        switch (r.below(4)) {
        case 0: raw("Beam", "setBeam", "[" + d(e[0]) + "]", 40); return;
        case 1: raw("Beam", "setBeam", "[" + dblList(e) + "]", 60); return;
        case 2: raw("Beam", "setBeam", "[" + d(e[0]) + "," + d(w[0]) + "]", 60); return;
        default: raw("Beam", "setBeam", "[" + dblList(e) + "," + dblList(w) + "]", 60);
        }
    }
    void files() {
        switch (r.below(6)) {
        case 0: if (r.chance(0.4)) make("SimpleIni"); else { static const std::vector<M> MS = {{"getKeys", "", 30, 0, 1}}; call("SimpleIni", MS); } return;
        case 1: raw("SimpleIni", "readKey", "[" + t(r.pick({"fit", "Materials.Air", "attenuators", "a section", "x", "nothing", "peaks"})) + "]", 200); return;
        case 2: case 3: if (r.chance(0.4)) make("SimpleSpecfile");
            else { static const std::vector<M> MS = {{"getNumberOfScans", "", 4, 0, 0.5}, {"getScanLabels", "scanIndex:idx", 100, 1, 1}, {"getScanData", "scanIndex:idx", 200, 1, 1}}; call("SimpleSpecfile", MS); } return;
        default: {
            if (r.chance(0.1)) { make("EPDL97"); return; }
            static const std::vector<M> MS = {{"getBindingEnergies", "z:z", 40, 0, 1}, {"getMassAttenuationCoefficients", "z:z ?energy:EN", 100, 0, 1}, {"getPhotoelectricWeights", "z:z energy:E", 100, 0, 1}};
            if (r.chance(0.15)) { raw("EPDL97", "setDataDirectory", "[" + t(r.pick({"/sim/data", "/sim/nowhere", "/sim/d/orig.2", "/sim/d/empty.0", "/sim/d/t500.1"})) + "]", 4000); o.back() = disk(o.back(), 3, 60); return; }
            if (r.chance(0.15)) { raw("EPDL97", "setBindingEnergies", "[" + arg("z") + "," + dict({{"K", 7.1}, {"L1", 0.8}, {"L2", 0.7}}, true) + "]", 60); return; }
            call("EPDL97", MS);
        }
        }
    }
    void maths() {
        static const std::vector<M> MS = {{"E1", "x:x", 4, 0, 1}, {"En", "n:n x:x", 4, 0, 1}, {"deBoerD", "x:x", 4, 0, 1}, {"deBoerL0", "mu1:x mu2:x muj:x ?density:pos ?thickness:pos", 4, 0, 1},
            {"deBoerX", "p:x q:x d1:pos d2:pos mu_1_j:x mu_2_j:x ?mu_b_d_t:pos", 4, 0, 1}, {"erf", "x:x", 4, 0, 1}, {"erfc", "x:x", 4, 0, 1}};
        call("Math", MS);
    }
    S layerList(long a, long b) {
        S s = "[";
        bool obj = r.chance(0.25);
        for (long k = r.range(a, b); k > 0; k--) {
            S l = r.chance(pWrong) ? S(r.pick({"None", "$El0", "5"})) : obj != r.chance(pWrong / 4) ? objectOf("Layer") : "[" + t(r.chance(pBad) ? S("Qq") : matName()) + "," + d(std::floor(r.real(0.5, 12) * 100) / 100) + "," + d(std::floor(r.logreal(1e-5, 1) * 100000) / 100000) + (r.chance(0.2) ? ",1.0]" : "]");
            s += (s.size() > 1 ? "," : "") + l;
        }
        return s + "]";
    }
    // everything a calculation needs
    void goodXrf() {
        S x = objectOf("XRF").substr(1);
        VD e{en()};
        if (r.chance(0.3)) e.push_back(en());
        for (auto & v : e) v = std::max(v, 4.0);
        o.push_back("py.call " + x + " setBeam [" + (e.size() > 1 ? dblList(e) : d(e[0])) + "]");
        S f;
        for (auto & s : focus) f += s + std::to_string(r.range(1, 3));
        S s = "[[" + t(r.chance(0.5) ? focus[0] : f) + ",5.5,0.001]";
        for (long k = r.range(0, 2); k > 0; k--) s += ",[" + t(sym()) + ",2.5,0.002]";
        o.push_back("py.call " + x + " setSample [" + s + "]]");
        if (r.chance(0.4)) o.push_back("py.call " + x + " setAttenuators [[[" + t(sym()) + ",2.0,0.0005]]]");
        S dt = fresh("Detector");
        o.push_back("py.new " + dt + " Detector [\"Si\",2.33,0.05]");
        if (r.chance(0.7)) { o.push_back("py.call " + dt + " setActiveArea [0.5]"); o.push_back("py.call " + dt + " setDistance [3.0]"); }
        o.push_back("py.call " + x + " setDetector [$" + dt + "]");
        o.push_back("py.call " + x + " setGeometry [" + arg("angle") + "," + arg("angle") + "]");
    }
    S famList() {
        VS v;
        for (long k = r.range(1, 3); k > 0; k--) v.push_back(r.chance(pBad) ? S("Qq") : r.chance(0.6) ? sym() : sym() + " " + r.pick({"K", "L", "M", "L3", "KL3", "0"}));
        return textList(v);
    }
    void xrf() {
        static const std::vector<M> MS = {{"readConfigurationFromFile", "fileName:fconf", 2000, 1, 1.5}, {"setDetector", "detector:det", 30, 0, 1}, {"setGeometry", "alphaIn:angle alphaOut:angle ?scatteringAngle:angle", 8, 0, 1},
            {"getLayerComposition", "layerInstance:lay elementsLibrary:lib", 60, 0, 1}, {"getLayerMassAttenuationCoefficients", "layerInstance:lay energies:E elementsLibrary:lib", 100, 0, 1},
            {"getLayerTransmission", "layerInstance:lay energies:E elementsLibrary:lib ?angle:angle", 100, 0, 1}, {"getLayerPeakFamilies", "layerInstance:lay energy:e elementsLibrary:lib", 200, 0, 1}};
        switch (r.below(14)) {
        case 0: {
            VD e, w;
            for (long k = r.range(1, 4); k > 0; k--) { e.push_back(en()); w.push_back((double) r.range(1, 10)); }
            if (r.chance(0.1)) w.pop_back();
            if (r.chance(0.05)) w.push_back(1.0);
            if (r.chance(0.1)) raw("XRF", "setBeam", "[" + dblList(e) + "," + d(2.0) + "]", 60);
            else if (r.chance(0.1)) raw("XRF", "setBeam", "[" + d(e[0]) + "] {\"divergency\":" + d(0.5) + "}", 60);
            else if (r.chance(0.4)) raw("XRF", "setBeam", "[" + d(en()) + "]", 60);
            else {
                S s = "[" + dblList(e);
                if (r.chance(0.7)) s += "," + dblList(w);
                if (r.chance(0.3) && s.find("],") != S::npos) { s += ",["; for (size_t i = 0; i < e.size(); i++) s += i ? ",1" : "1"; s += "]"; }
                raw("XRF", "setBeam", s + "]", 60);
            }
            return;
        }
        case 1: raw("XRF", "setBeamFilters", "[" + layerList(0, 2) + "]", 100); return;
        case 2: case 3: raw("XRF", "setSample", "[" + layerList(1, 3) + (r.chance(0.3) ? "," + std::to_string(r.below(2)) : "") + "]", 100); return;
        case 4: raw("XRF", "setAttenuators", "[" + layerList(0, 2) + "]", 100); return;
        case 5: case 6: {
            S s = "[";
            bool obj = r.chance(0.4);
            for (long k = r.range(0, 2); k > 0; k--) s += (s.size() > 1 ? "," : "") + (obj ? objectOf("TransmissionTable") : r.chance(0.5) ? "[" + tableLists() + "," + t("n1") + "," + t("c1") + "]" : "[" + tableDict() + "," + t("n2") + "," + t("") + "]");
            raw("XRF", r.chance(0.5) ? "setUserBeamFilters" : "setUserAttenuators", "[" + s + "]]", 100);
            return;
        }
        case 7: raw("XRF", "getGeometricEfficiency", r.chance(0.5) ? "[]" : "[0]", 20); return;
        case 8: case 9: case 10: { S l = famList(); raw("XRF", "getMultilayerFluorescence", "[" + l + "," + arg("lib") + opt() + "]", 4000); return; }
        case 11: {
            VS n, f;
            for (long k = r.range(1, 2); k > 0; k--) { n.push_back(sym()); f.push_back(r.pick({"K", "L", "L3"})); }
            S lib = arg("lib");
            auto layer = [&]() { return std::to_string(r.chance(0.7) ? 0 : r.chance(0.6) ? -1 : (int) r.below(3)); };
            if (r.chance(0.4)) raw("XRF", "getFluorescence", "[" + t(n[0]) + "," + lib + "," + layer() + (r.chance(0.7) ? "," + t(f[0]) + opt() : S()) + "]", 3000);
            else {
                S y = layer();
                if (r.chance(0.7)) { y = "["; for (size_t i = 0; i < n.size(); i++) y += (i ? "," : "") + layer(); y += "]"; }
                if (r.chance(pBad)) f.push_back("K");
                raw("XRF", "getFluorescence", "[" + textList(n) + "," + lib + "," + y + "," + textList(f) + opt() + "]", 3000);
            }
            return;
        }
        default: call("XRF", MS);
        }
    }
    S opt() {
        S s;
        if (r.chance(0.6)) s += "," + std::to_string(r.chance(0.8) ? r.below(2) : 2);
        else return "";
        if (r.chance(0.6)) s += S(",") + r.pick({"0", "1"}); else return s;
        if (r.chance(0.6)) s += S(",") + r.pick({"0", "1"}); else return s;
        if (r.chance(0.6)) s += S(",") + r.pick({"0.0", "0.001"}); else return s;
        if (r.chance(0.6)) s += "," + arg("beam");
        return s;
    }
};
static void genC25(Rng & r, VS & o) {
    P p(r, o);
    p.pAlloc = r.chance(0.4) ? 0.25 : 0;
    p.pFs = r.chance(0.4) ? 0.4 : 0;
    p.pWrong = r.chance(0.5) ? 0 : 0.05;
    p.make("Elements");
    if (r.chance(0.4)) p.goodXrf();
    // most histories are about some of the classes
    VD weight;
    for (int i = 0; i < 11; i++) weight.push_back(r.chance(0.5) ? 1.0 : 0.15);
    weight[0] *= 3; weight[10] *= 2;
    double total = 0;
    for (double w : weight) total += w;
    for (long n = r.range(8, 35); n > 0; n--) {
        double x = r.real(0, total);
        size_t i = 0;
        while (i + 1 < weight.size() && x >= weight[i]) { x -= weight[i]; i++; }
        switch (i) {
        case 0: p.elements(); break;
        case 1: p.element(); break;
        case 2: p.shells(); break;
        case 3: p.material(); break;
        case 4: p.layer(); break;
        case 5: p.detector(); break;
        case 6: p.trans(); break;
        case 7: p.beam(); break;
        case 8: p.files(); break;
        case 9: p.maths(); break;
        default: p.xrf();
        }
        if (r.chance(0.06)) p.make(r.pick({"Elements", "Elements", "Elements", "Element", "Shell", "Material", "Layer", "Detector", "TransmissionTable", "Beam", "XRF"}));
        if (r.chance(0.02)) { auto it = p.have.begin(); for (long k = (long) r.below(p.have.size()); k > 0; k--) ++it; if (it->second.size()) o.push_back("py.del " + it->second[r.below(it->second.size())]); }
    }
    o.push_back("py.leak");
}
static struct HookGen { HookGen() { moreProfiles().push_back(Profile{"C25", genC25, false, false, false, false}); } } hookGen;
}
