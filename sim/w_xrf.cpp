#include "world.h"
#include <algorithm>
using namespace fisx;
namespace sim {
typedef std::map<std::string, std::map<int, std::map<std::string, MSD> > > Emission;

// ---------------------------------------------------------------- reference objects
Layer makeLayer(const LayRec & r) {
    Layer l(r.name, r.density, r.thickness, r.funny);
    if (r.how == "name") l.setMaterial(r.materialName);
    if (r.how == "object") { if (r.materialName != r.name) l.setMaterial(r.materialName); l.setMaterial(makeMaterial(r.mat)); }
    return l;
}
Detector makeDetector(const LayRec & r) {
    Detector l(r.name, r.density, r.thickness, r.funny);
    if (r.how == "name") l.setMaterial(r.materialName);
    if (r.how == "object") { if (r.materialName != r.name) l.setMaterial(r.materialName); l.setMaterial(makeMaterial(r.mat)); }
    l.setDiameter(r.diameter);
    if (r.distance > 0) l.setDistance(r.distance);
    l.setMinimumEscapePeakEnergy(r.emin);
    l.setMinimumEscapePeakIntensity(r.imin);
    l.setMaximumNumberOfEscapePeaks(r.nmax);
    return l;
}
TransmissionTable makeTable(const TabRec & r) {
    TransmissionTable t;
    t.setTransmissionTable(r.table, r.name, r.comment);
    return t;
}
static MSD share(const MSD & m) {
    double t = 0;
    for (auto & x : m) t += x.second;
    MSD r;
    for (auto & x : m) r[x.first] = x.second / t;
    return r;
}
static void flatMat(Ans & a, Material m) {
    flat(a, m.getName()); flat(a, m.getComment()); flat(a, m.getDefaultDensity()); flat(a, m.getDefaultThickness()); flat(a, m.getComposition());
}
static void flatMatRec(Ans & a, const MatRec & m) {
    flat(a, m.name); flat(a, m.comment); flat(a, m.density); flat(a, m.thickness); flat(a, m.comp.size() ? share(m.comp) : MSD());
}
// observable state, without any computation
static void flatLayer(Ans & a, const Layer & l) {
    flat(a, l.getName()); flat(a, l.getMaterialName()); flat(a, l.hasMaterialComposition());
    flat(a, l.getDensity()); flat(a, l.getThickness()); flat(a, l.getFunnyFactor());
    if (l.hasMaterialComposition()) flatMat(a, l.getMaterial());
}
static void flatLayRec(Ans & a, const LayRec & r) {
    flat(a, r.name); flat(a, r.materialName); flat(a, r.how == "object");
    flat(a, r.density); flat(a, r.thickness); flat(a, r.funny);
    if (r.how == "object") flatMatRec(a, r.mat);
}
static void flatDet(Ans & a, const Detector & d) {
    flatLayer(a, d);
    flat(a, d.getDiameter()); flat(a, d.getDistance()); flat(a, d.getActiveArea());
    flat(a, d.getEscapePeakEnergyThreshold()); flat(a, d.getEscapePeakIntensityThreshold()); flat(a, d.getEscapePeakNThreshold()); flat(a, d.getEscapePeakAlphaIn());
}
static void flatDetRec(Ans & a, const LayRec & r) {
    flatLayRec(a, r);
    flat(a, r.diameter); flat(a, r.distance); flat(a, 0.25 * acos(-1.0) * r.diameter * r.diameter);
    flat(a, r.emin); flat(a, r.imin); flat(a, r.nmax); flat(a, 90.0);
}
static void flatTab(Ans & a, const TransmissionTable & t) { flat(a, t.getName()); flat(a, t.getComment()); flat(a, t.getTransmissionTable()); }
static void flatTabRec(Ans & a, const TabRec & t) { flat(a, t.name); flat(a, t.comment); flat(a, t.table); }
static void flatConf(Ans & a, const XRFConfig & c) {
    std::vector<VD> b = c.getBeam().getBeamAsDoubleVectors();
    a.shape += " beam";
    flat(a, b);
    a.shape += " filters"; for (auto & l : c.getBeamFilters()) flatLayer(a, l);
    a.shape += " ufilters"; for (auto & l : c.getUserBeamFilters()) flatTab(a, l);
    a.shape += " sample"; for (auto & l : c.getSample()) flatLayer(a, l);
    a.shape += " attenuators"; for (auto & l : c.getAttenuators()) flatLayer(a, l);
    a.shape += " uattenuators"; for (auto & l : c.getUserAttenuators()) flatTab(a, l);
    a.shape += " materials"; for (auto & l : c.getMaterials()) flatMat(a, l);
    a.shape += " detector"; flatDet(a, c.getDetector());
    a.shape += " geometry"; flat(a, c.getAlphaIn()); flat(a, c.getAlphaOut()); flat(a, c.getScatteringAngle());
    a.shape += " reference"; flat(a, c.getReferenceLayer());
}
static void flatConfRec(Ans & a, const ConfRec & c) {
    a.shape += " beam";
    std::vector<VD> b(4);
    b[0] = c.e; b[1] = c.w; b[3] = c.d;
    for (int x : c.c) b[2].push_back(x);
    flat(a, b);
    a.shape += " filters"; for (auto & l : c.filters) flatLayRec(a, l);
    a.shape += " ufilters"; for (auto & l : c.userFilters) flatTabRec(a, l);
    a.shape += " sample"; for (auto & l : c.sample) flatLayRec(a, l);
    a.shape += " attenuators"; for (auto & l : c.attenuators) flatLayRec(a, l);
    a.shape += " uattenuators"; for (auto & l : c.userAttenuators) flatTabRec(a, l);
    a.shape += " materials"; for (auto & l : c.materials) flatMatRec(a, l);
    a.shape += " detector"; flatDetRec(a, c.detector);
    a.shape += " geometry"; flat(a, c.in); flat(a, c.out); flat(a, c.scatter);
    a.shape += " reference"; flat(a, c.reference);
}
template<class F> static Ans outside(F f) {
    bool old = seam::inSut;
    seam::inSut = false;
    Ans a;
    f(a);
    seam::inSut = old;
    return a;
}

// ---------------------------------------------------------------- layers and detectors
static LaySlot * findLay(World & w, const std::string & n) { return slot<LaySlot>(w, "layer", n); }
static void layUnchanged(Ctx & cx, LaySlot & s, const std::string & why) {
    Ans e, a;
    if (s.det) { flatDetRec(e, s.rec); flatDet(a, *s.det); } else { flatLayRec(e, s.rec); flatLayer(a, *s.sut); }
    cx.same(why, a, e);
}
static void layerNew(World & w, Ctx & cx, const Op & op, bool det) {
    std::string name = untilde(op.s(1));
    double d = op.d(2), t = op.d(3), f = op.d(4);
    Layer * p = nullptr;
    Detector * q = nullptr;
    Outcome o = cx.mutate([&]() { if (det) q = new Detector(name, d, t, f); else p = new Layer(name, d, t, f); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "layer not created: " + o.what); return; }
    LaySlot * s = fresh<LaySlot>(w, "layer", op.s(0));
    s->det = q;
    s->sut = det ? (Layer *) q : p;
    s->rec.name = s->rec.materialName = name;
    s->rec.density = d; s->rec.thickness = t; s->rec.funny = f;
    cx.mutations++;
    layUnchanged(cx, *s, "new layer");
}
SIM_OP(yNew, "y.new") { layerNew(w, cx, op, false); }
SIM_OP(dNew, "d.new") { layerNew(w, cx, op, true); }
SIM_OP(yCopy, "y.copy") {
    LaySlot * b = findLay(w, op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    Layer * p = nullptr;
    Detector * q = nullptr;
    Outcome o = cx.mutate([&]() { if (b->det) q = new Detector(*b->det); else p = new Layer(*b->sut); }, op.f, [&]() { layUnchanged(cx, *b, "original after a failed copy"); });
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "layer not copied: " + o.what); return; }
    LaySlot * s = fresh<LaySlot>(w, "layer", op.s(0));
    b = findLay(w, op.s(1));
    s->det = q;
    s->sut = q ? (Layer *) q : p;
    s->rec = b->rec;
    s->labels = b->labels;
    cx.mutations++;
    layUnchanged(cx, *s, "copied layer");
}
SIM_OP(yDel, "y.del") { SIM_UNUSED; dropSlot<LaySlot>(w, "layer", op.s(0)); }
// y.set L what value
SIM_OP(ySet, "y.set") {
    LaySlot * s = findLay(w, op.s(0));
    if (!s) return;
    std::string f = op.s(1), t = untilde(op.s(2));
    double x = op.d(2);
    int n = (int) op.i(2);
    LayRec r = s->rec;
    bool reject = false;
    MatRec m;
    std::unique_ptr<Material> obj;
    if (f == "density") { reject = x <= 0; r.density = x; }
    else if (f == "thickness") { reject = x <= 0; r.thickness = x; }
    else if (f == "name") { r.how = "name"; r.materialName = t; }
    else if (f == "object") {
        m = parseMat(op.s(2));
        try { obj.reset(new Material(makeMaterial(m))); } catch (const std::exception &) { return; }
        r.how = "object"; r.mat = m;
        if (r.density < 0) r.density = m.density;
        if (r.thickness <= 0) r.thickness = m.thickness;
    }
    else if (!s->det) return;
    else if (f == "diameter") { reject = x < 0; r.diameter = x; }
    else if (f == "area") { reject = x < 0; r.diameter = x < 0 ? 0 : 2.0 * sqrt(x / acos(-1.0)); }
    else if (f == "distance") { reject = x <= 0; r.distance = x; }
    else if (f == "emin") r.emin = x;
    else if (f == "imin") r.imin = x;
    else if (f == "nmax") r.nmax = n;
    else return;
    Outcome o = cx.mutate([&]() {
        if (f == "density") s->sut->setDensity(x);
        else if (f == "thickness") s->sut->setThickness(x);
        else if (f == "name") { if (s->det) s->det->setMaterial(t); else s->sut->setMaterial(t); }
        else if (f == "object") { if (s->det) s->det->setMaterial(*obj); else s->sut->setMaterial(*obj); }
        else if (f == "diameter") s->det->setDiameter(x);
        else if (f == "area") s->det->setActiveArea(x);
        else if (f == "distance") s->det->setDistance(x);
        else if (f == "emin") s->det->setMinimumEscapePeakEnergy(x);
        else if (f == "imin") s->det->setMinimumEscapePeakIntensity(x);
        else if (f == "nmax") s->det->setMaximumNumberOfEscapePeaks(n);
    }, op.f, [&]() { layUnchanged(cx, *s, "after a failed update"); });
    if (o.ok && reject) cx.fail("accepted-invalid", "an invalid value was accepted");
    if (o.threw) {
        cx.require(o.fired || reject, "unexpected-failure", "a valid value was rejected: " + o.what);
        layUnchanged(cx, *s, "after a rejected update");
        return;
    }
    s->rec = r;
    if (f != "density" && f != "thickness" && f != "distance" && f != "diameter" && f != "area") s->labels.clear();
    cx.mutations++;
    layUnchanged(cx, *s, "after an update");
    cx.state("layer " + f + s->rec.how);
}
SIM_OP(dClear, "d.clear") {
    LaySlot * s = findLay(w, op.s(0));
    if (!s || !s->det) return;
    cx.mutate([&]() { s->det->clearEscapePeakCache(); }, op.f, []() {});
    s->labels.clear();
}
static LibSlot * libFor(World & w, const std::string & n, Elements *& sut, Elements *& twin) {
    LibSlot * l = findLib(w, n);
    if (l) { sut = l->sut; twin = l->twin.get(); return l; }
    sut = twin = nullptr;
    if (n == "base0" || n == "base1") sut = twin = const_cast<Elements *>(&baseLibrary(n == "base1"));
    return nullptr;
}
static bool refreshed(Ctx & cx, LibSlot * l) {
    if (!l) return true;
    VS v(l->stale.begin(), l->stale.end());
    for (auto & n : v) { cx.sut([&]() { l->sut->fillElementCascadeCache(n); }); l->stale.erase(n); }
    return true;
}
// d.esc D L energy label update
SIM_OP(dEsc, "d.esc") {
    LaySlot * s = findLay(w, op.s(0));
    if (!s || !s->det) return;
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!sut) return;
    double e = op.d(2);
    std::string label = untilde(op.s(3));
    int update = (int) op.i(4);
    long version = l ? l->version : -(op.s(1) == "base1") - 1;
    std::string key = fmt(e);
    refreshed(cx, l);
    if (label.size()) {
        if (update) s->labels.clear();
        else {
            // cached entries are documented to be reused: only ask when they are current
            auto it = s->labels.find(label);
            if (it != s->labels.end() && it->second.count(key) && it->second[key] != version) return;
        }
        s->labels[label].insert(std::make_pair(key, version));
        if (op.f.any() && !update) { /* a failure stores nothing */ }
    }
    Detector ref = makeDetector(s->rec);
    Ans exp = Ctx::model([&]() { return Q([&]() { return ref.getEscape(e, *twin, "", 1); }); });
    cx.query("detector escape", [&]() { return Q([&]() { return s->det->getEscape(e, *sut, label, update); }); }, exp, op.f);
    refDetectorCheck(cx, l, op.s(1), s->rec, e, exp);
    if (label.size() && update) { s->labels.clear(); s->labels[label][key] = version; }
    cx.count["queries"]++;
    cx.state("escape " + std::to_string(s->labels.size()) + "/" + std::to_string(label.size() ? s->labels[label].size() : 0) + "u" + std::to_string(update));
}
struct LayerQuery { std::string kind; double x = 0, angle = 90; VD xs; };
static Ans askLayer(const Layer & y, const Elements & l, const LayerQuery & q) {
    if (q.kind == "comp") return Q([&]() { return y.getComposition(l); });
    if (q.kind == "mu1") return Q([&]() { return y.getMassAttenuationCoefficients(q.x, l); });
    if (q.kind == "muv") return Q([&]() { return y.getMassAttenuationCoefficients(q.xs, l); });
    if (q.kind == "tr1") return Q([&]() { return y.getTransmission(q.x, l, q.angle); });
    if (q.kind == "trv") return Q([&]() { return y.getTransmission(q.xs, l, q.angle); });
    if (q.kind == "peak") return Q([&]() { return y.getPeakFamilies(q.x, l); });
    throw HarnessError{"unknown layer query"};
}
// y.q Y L kind energies angle
SIM_OP(yQ, "y.q") {
    LaySlot * s = findLay(w, op.s(0));
    if (!s) return;
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!sut) return;
    LayerQuery q;
    q.kind = op.s(2);
    q.xs = op.ds(3);
    q.x = q.xs.empty() ? 5.0 : q.xs[0];
    q.angle = op.has(4) ? op.d(4) : 90.0;
    refreshed(cx, l);
    Layer ref = makeLayer(s->rec);
    Ans e = Ctx::model([&]() { return askLayer(ref, *twin, q); });
    cx.query("layer query " + q.kind, [&]() { return askLayer(*s->sut, *sut, q); }, e, op.f);
    LayerQuestion lq;
    lq.kind = q.kind; lq.x = q.x; lq.xs = q.xs; lq.angle = q.angle;
    refLayerCheck(cx, l, op.s(1), s->rec, nullptr, lq, e);
    cx.count["queries"]++;
}
SIM_OP(yCheck, "y.check") {
    LaySlot * s = findLay(w, op.s(0));
    if (s) layUnchanged(cx, *s, "layer");
}

// ---------------------------------------------------------------- standalone materials
struct MatSlot { Material * sut = nullptr; MatRec rec; bool named = false; MatSlot() {} MatSlot(const MatSlot &) = delete; ~MatSlot() { delete sut; } };
static void matUnchanged(Ctx & cx, MatSlot & s, const std::string & why) {
    Ans a, e;
    flatMat(a, *s.sut);
    flatMatRec(e, s.rec);
    cx.same(why, a, e);
}
SIM_OP(mNew, "m.new") {
    bool blank = op.s(1) == "-";
    MatRec r;
    if (!blank) { r = parseMat(op.s(1)); r.comp.clear(); }
    bool reject = !blank && (r.name.empty() || r.density <= 0 || r.thickness <= 0);
    Material * p = nullptr;
    Outcome o = cx.mutate([&]() { p = blank ? new Material() : new Material(r.name, r.density, r.thickness, r.comment); }, op.f, []() {});
    if (o.ok && reject) { delete p; cx.fail("accepted-invalid", "an invalid material was created"); }
    if (o.threw) { cx.require(o.fired || reject, "unexpected-failure", "material not created: " + o.what); return; }
    MatSlot * s = fresh<MatSlot>(w, "material", op.s(0));
    s->sut = p;
    s->rec = r;
    s->named = !blank;
    if (blank) { s->rec.name = p->getName(); s->rec.density = p->getDefaultDensity(); s->rec.thickness = p->getDefaultThickness(); }
    cx.mutations++;
    matUnchanged(cx, *s, "new material");
}
SIM_OP(mCopy, "m.copy") {
    MatSlot * b = slot<MatSlot>(w, "material", op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    Material * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Material(*b->sut); }, op.f, [&]() { matUnchanged(cx, *b, "original after a failed copy"); });
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "material not copied: " + o.what); return; }
    MatRec r = b->rec;
    bool named = b->named;
    MatSlot * s = fresh<MatSlot>(w, "material", op.s(0));
    s->sut = p; s->rec = r; s->named = named;
    matUnchanged(cx, *s, "copied material");
}
// m.set M name|init|map|vec ...
SIM_OP(mSet, "m.set") {
    MatSlot * s = slot<MatSlot>(w, "material", op.s(0));
    if (!s) return;
    std::string f = op.s(1);
    MatRec r = s->rec;
    bool reject = false;
    VS names;
    VD amounts;
    MSD comp;
    MatRec spec;
    std::string t;
    if (f == "name") { t = untilde(op.s(2)); reject = s->named || t.empty(); r.name = t; }
    else if (f == "init") { spec = parseMat(op.s(2)); reject = spec.name.empty() || spec.density <= 0 || spec.thickness <= 0; r.name = spec.name; r.density = spec.density; r.thickness = spec.thickness; r.comment = spec.comment; }
    else {
        names = op.ss(2);
        amounts = op.ds(3);
        for (size_t i = 0; i < names.size() && i < amounts.size(); i++) comp[untilde(names[i])] = amounts[i];
        for (auto & n : names) n = untilde(n);
        if (f == "vec") reject = names.size() != amounts.size();
        else if (names.size() != amounts.size()) return;
        if (names.size() == amounts.size() && comp.size() != names.size()) return;
        for (double x : amounts) if (x <= 0) reject = true;
        r.comp = comp;
    }
    Outcome o = cx.mutate([&]() {
        if (f == "name") s->sut->setName(t);
        else if (f == "init") s->sut->initialize(spec.name, spec.density, spec.thickness, spec.comment);
        else if (f == "vec") s->sut->setComposition(names, amounts);
        else s->sut->setComposition(comp);
    }, op.f, [&]() { matUnchanged(cx, *s, "after a failed update"); });
    if (o.ok && reject) cx.fail("accepted-invalid", "an invalid update was accepted");
    if (o.threw) { cx.require(o.fired || reject, "unexpected-failure", "a valid update was rejected: " + o.what); matUnchanged(cx, *s, "after a rejected update"); return; }
    s->rec = r;
    if (f == "name" || f == "init") s->named = true;
    cx.mutations++;
    matUnchanged(cx, *s, "after an update");
    cx.state("material " + f + std::to_string(r.comp.size()));
}

// ---------------------------------------------------------------- transmission tables
struct TabSlot { TransmissionTable * sut = nullptr; TabRec rec; TabSlot() {} TabSlot(const TabSlot &) = delete; ~TabSlot() { delete sut; } };
static double modelTransmission(const TabRec & r, double x) {
    if (r.table.empty()) return 1.0;
    auto b = r.table.begin();
    if (x <= b->first) return b->second;
    auto p = b;
    for (auto it = r.table.begin(); it != r.table.end(); ++it) {
        if (it->first > x) return p->second + (it->second - p->second) * (x - p->first) / (it->first - p->first);
        p = it;
    }
    return p->second;
}
static void tabUnchanged(Ctx & cx, TabSlot & s, const std::string & why) {
    Ans a, e;
    flatTab(a, *s.sut);
    flatTabRec(e, s.rec);
    cx.sameTol(why, a, e, 0);
    VD xs(1, 0.0), ys;
    for (auto & p : s.rec.table) { xs.push_back(p.first); xs.push_back(p.first * 1.07 + 1e-3); }
    for (double x : xs) ys.push_back(modelTransmission(s.rec, x));
    VD got;
    Outcome o = cx.sut([&]() { got = s.sut->getTransmission(xs); });
    cx.require(o.ok, "unexpected-failure", "transmission query failed");
    cx.same(why + ", transmission", answer(got), answer(ys));
}
SIM_OP(tNew, "t.new") {
    bool blank = op.s(1) == "-" && op.s(2) == "-";
    std::string n = untilde(op.s(1)), c = untilde(op.s(2));
    TransmissionTable * p = nullptr;
    Outcome o = cx.mutate([&]() { p = blank ? new TransmissionTable() : new TransmissionTable(n, c); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "table not created: " + o.what); return; }
    TabSlot * s = fresh<TabSlot>(w, "table", op.s(0));
    s->sut = p;
    s->rec.name = n;
    s->rec.comment = c;
    cx.mutations++;
    tabUnchanged(cx, *s, "new table");
}
SIM_OP(tCopy, "t.copy") {
    TabSlot * b = slot<TabSlot>(w, "table", op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    TransmissionTable * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new TransmissionTable(*b->sut); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "table not copied: " + o.what); return; }
    TabRec r = b->rec;
    TabSlot * s = fresh<TabSlot>(w, "table", op.s(0));
    s->sut = p;
    s->rec = r;
    tabUnchanged(cx, *s, "copied table");
}
// t.set T map|vec energies transmissions name comment
SIM_OP(tSet, "t.set") {
    TabSlot * s = slot<TabSlot>(w, "table", op.s(0));
    if (!s) return;
    bool vec = op.s(1) == "vec";
    VD e = op.ds(2), t = op.ds(3);
    std::string n = untilde(op.s(4)), c = untilde(op.s(5));
    TabRec r = s->rec;
    bool reject = (n.size() && r.name.size()) || (c.size() && r.comment.size());
    if (vec && e.size() != t.size()) reject = true;
    if (!vec && e.size() != t.size()) return;
    if (vec && !std::is_sorted(e.begin(), e.end())) reject = true;
    for (double x : e) if (x < 0) reject = true;
    for (size_t i = 0; i < t.size(); i++) if (t[i] < 0) reject = true;
    std::map<double, double> m;
    for (size_t i = 0; i < e.size() && i < t.size(); i++) {
        if (vec && m.count(e[i])) m[e[i] + 0.000001] = t[i]; else m[e[i]] = t[i];
    }
    if (!vec && m.size() != e.size()) return;
    r.table = m;
    if (n.size()) r.name = n;
    if (c.size()) r.comment = c;
    Outcome o = cx.mutate([&]() { if (vec) s->sut->setTransmissionTable(e, t, n, c); else s->sut->setTransmissionTable(m, n, c); }, op.f, [&]() { tabUnchanged(cx, *s, "after a failed update"); });
    if (o.ok && reject) cx.fail("accepted-invalid", "an invalid table was accepted");
    if (o.threw) { cx.require(o.fired || reject, "unexpected-failure", "a valid table was rejected: " + o.what); tabUnchanged(cx, *s, "after a rejected update"); return; }
    s->rec = r;
    cx.mutations++;
    tabUnchanged(cx, *s, "after an update");
    cx.state("table " + std::to_string(r.table.size()) + (r.name.size() ? "n" : "") + (r.comment.size() ? "c" : ""));
}
SIM_OP(tName, "t.name") {
    TabSlot * s = slot<TabSlot>(w, "table", op.s(0));
    if (!s) return;
    std::string n = untilde(op.s(2));
    bool name = op.s(1) == "name";
    Outcome o = cx.mutate([&]() { if (name) s->sut->setName(n); else s->sut->setComment(n); }, op.f, [&]() { tabUnchanged(cx, *s, "after a failed update"); });
    if (o.threw) cx.require(o.fired, "unexpected-failure", "name rejected: " + o.what);
    else (name ? s->rec.name : s->rec.comment) = n;
    tabUnchanged(cx, *s, "after naming");
}
SIM_OP(tQ, "t.q") {
    TabSlot * s = slot<TabSlot>(w, "table", op.s(0));
    if (!s) return;
    VD xs = op.ds(1), ys;
    for (double x : xs) ys.push_back(modelTransmission(s->rec, x));
    cx.query("transmission", [&]() { return Q([&]() { return s->sut->getTransmission(xs); }); }, answer(ys), op.f);
    if (xs.size()) cx.query("transmission of one energy", [&]() { return Q([&]() { return s->sut->getTransmission(xs[0]); }); }, answer(ys[0]), Faults());
}

// ---------------------------------------------------------------- beams
struct BeamSlot { Beam * sut = nullptr; VD e, w, d; std::vector<int> c; BeamSlot() {} BeamSlot(const BeamSlot &) = delete; ~BeamSlot() { delete sut; } };
struct BeamSpec { VD e, w, d; std::vector<int> c; };
static BeamSpec parseBeam(const Op & op, size_t k) {
    BeamSpec b;
    b.e = op.ds(k);
    if (op.has(k + 1)) b.w = op.ds(k + 1);
    if (op.has(k + 2)) for (double x : op.ds(k + 2)) b.c.push_back((int) x);
    if (op.has(k + 3)) b.d = op.ds(k + 3);
    return b;
}
static bool beamValid(const BeamSpec & b) {
    auto bad = [&](size_t n) { return n > 1 && n < b.e.size(); };
    return !(bad(b.w.size()) || bad(b.c.size()) || bad(b.d.size()));
}
// the rays, sorted and normalised
static void beamModel(const BeamSpec & b, VD & e, VD & w, std::vector<int> & c, VD & d) {
    std::vector<size_t> idx;
    for (size_t i = 0; i < b.e.size(); i++) idx.push_back(i);
    std::sort(idx.begin(), idx.end(), [&](size_t x, size_t y) { return b.e[x] < b.e[y]; });
    auto at = [](const VD & v, size_t i, double def) { return v.size() > 1 ? v[i] : (v.size() ? v[0] : def); };
    double total = 0;
    for (size_t i : idx) total += at(b.w, i, 1.0);
    e.clear(); w.clear(); c.clear(); d.clear();
    for (size_t i : idx) {
        e.push_back(b.e[i]);
        w.push_back(total > 0 ? at(b.w, i, 1.0) / total : at(b.w, i, 1.0));
        c.push_back(b.c.size() > 1 ? b.c[i] : (b.c.size() ? b.c[0] : 1));
        d.push_back(at(b.d, i, 0.0));
    }
}
static void beamUnchanged(Ctx & cx, BeamSlot & s, const std::string & why) {
    std::vector<VD> b(4);
    b[0] = s.e; b[1] = s.w; b[3] = s.d;
    for (int x : s.c) b[2].push_back(x);
    cx.same(why, answer(s.sut->getBeamAsDoubleVectors()), answer(b));
    const std::vector<Ray> & r = s.sut->getBeam();
    cx.require(r.size() == s.e.size(), "wrong-answer", why + ": number of rays");
    for (size_t i = 0; i < r.size(); i++) {
        cx.same(why + ": ray energy", answer(r[i].energy), answer(s.e[i]));
        cx.same(why + ": ray weight", answer(r[i].weight), answer(s.w[i]));
    }
}
SIM_OP(bNew, "b.new") {
    Beam * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Beam(); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "beam"); return; }
    BeamSlot * s = fresh<BeamSlot>(w, "beam", op.s(0));
    s->sut = p;
    beamUnchanged(cx, *s, "new beam");
}
SIM_OP(bCopy, "b.copy") {
    BeamSlot * b = slot<BeamSlot>(w, "beam", op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    Beam * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new Beam(*b->sut); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "beam"); return; }
    VD e = b->e, ww = b->w, d = b->d;
    std::vector<int> c = b->c;
    BeamSlot * s = fresh<BeamSlot>(w, "beam", op.s(0));
    s->sut = p; s->e = e; s->w = ww; s->d = d; s->c = c;
    beamUnchanged(cx, *s, "copied beam");
}
// b.set B energies weights characteristic divergency ; b.raw the same with arrays ; b.one B energy divergency
SIM_OP(bSet, "b.set") {
    BeamSlot * s = slot<BeamSlot>(w, "beam", op.s(0));
    if (!s) return;
    BeamSpec b = parseBeam(op, 1);
    bool ok = beamValid(b);
    Outcome o = cx.mutate([&]() { s->sut->setBeam(b.e, b.w, b.c, b.d); }, op.f, [&]() { beamUnchanged(cx, *s, "after a failed setting"); });
    if (o.ok && !ok) cx.fail("accepted-invalid", "an incomplete beam was accepted");
    if (o.threw) { cx.require(o.fired || !ok, "unexpected-failure", "a valid beam was rejected: " + o.what); beamUnchanged(cx, *s, "after a rejected setting"); return; }
    beamModel(b, s->e, s->w, s->c, s->d);
    cx.mutations++;
    beamUnchanged(cx, *s, "after setting the beam");
    cx.state("beam " + std::to_string(b.e.size()) + "/" + std::to_string(b.w.size()) + "/" + std::to_string(b.c.size()) + "/" + std::to_string(b.d.size()));
}
SIM_OP(bRaw, "b.raw") {
    BeamSlot * s = slot<BeamSlot>(w, "beam", op.s(0));
    if (!s) return;
    BeamSpec b = parseBeam(op, 1);
    size_t n = b.e.size();
    if (!n || (b.w.size() && b.w.size() != n) || (b.c.size() && b.c.size() != n) || (b.d.size() && b.d.size() != n)) return;
    const double * pw = b.w.size() ? &b.w[0] : nullptr, * pd = b.d.size() ? &b.d[0] : nullptr;
    const int * pc = b.c.size() ? &b.c[0] : nullptr;
    std::vector<double> dc(b.c.begin(), b.c.end());
    bool asDouble = op.has(5) && b.c.size();
    const double * pdc = asDouble ? &dc[0] : nullptr;
    Outcome o = cx.sut([&]() { if (asDouble) s->sut->setBeam((int) n, &b.e[0], pw, pdc, pd); else s->sut->setBeam((int) n, &b.e[0], pw, pc, pd); });
    cx.require(o.ok, "unexpected-failure", "a valid beam was rejected: " + o.what);
    beamModel(b, s->e, s->w, s->c, s->d);
    cx.mutations++;
    beamUnchanged(cx, *s, "after setting the beam");
}
SIM_OP(bOne, "b.one") {
    BeamSlot * s = slot<BeamSlot>(w, "beam", op.s(0));
    if (!s) return;
    double e = op.d(1), d = op.d(2);
    Outcome o = cx.sut([&]() { s->sut->setSingleEnergyBeam(e, d); });
    cx.require(o.ok, "unexpected-failure", "a valid beam was rejected: " + o.what);
    s->e = VD(1, e); s->w = VD(1, 1.0); s->c = std::vector<int>(1, 1); s->d = VD(1, d);
    cx.mutations++;
    beamUnchanged(cx, *s, "after setting the beam");
}

// ---------------------------------------------------------------- configurations
struct XrfSlot { XRF * sut = nullptr; ConfRec rec; bool known = true; XrfSlot() {} XrfSlot(const XrfSlot &) = delete; ~XrfSlot() { delete sut; } };
static XrfSlot * findX(World & w, const std::string & n) { return slot<XrfSlot>(w, "xrf", n); }
static std::shared_ptr<XRF> canonicalXrf(const ConfRec & r, std::shared_ptr<XRF> x) {
    if (!x) x.reset(new XRF());
    if (r.e.size()) x->setBeam(r.e, r.w, r.c, r.d);
    else { Beam b; x->setBeam(b); }
    std::vector<Layer> f, s, a;
    for (auto & l : r.filters) f.push_back(makeLayer(l));
    for (auto & l : r.sample) s.push_back(makeLayer(l));
    for (auto & l : r.attenuators) a.push_back(makeLayer(l));
    std::vector<TransmissionTable> uf, ua;
    for (auto & t : r.userFilters) uf.push_back(makeTable(t));
    for (auto & t : r.userAttenuators) ua.push_back(makeTable(t));
    x->setBeamFilters(f);
    x->setUserBeamFilters(uf);
    if (s.size()) x->setSample(s, r.reference);
    x->setAttenuators(a);
    x->setUserAttenuators(ua);
    x->setDetector(makeDetector(r.detector));
    x->setGeometry(r.in, r.out, r.scatter);
    return x;
}
// configuration built directly from the accepted values; the materials only come from files
static std::string configTextOf(const ConfRec & r);
static std::shared_ptr<XRF> directXrf(const ConfRec & r) {
    std::shared_ptr<XRF> m;
    if (r.materials.size()) {
        // a file with nothing but the materials
        ConfRec only;
        only.materials = r.materials;
        std::string path = "/sim/m/" + std::to_string(hashStr(configTextOf(only)));
        if (!seam::fsHas(path)) seam::fsAdd(path, configTextOf(only));
        m.reset(new XRF());
        m->readConfigurationFromFile(path);
    }
    return canonicalXrf(r, m);
}
static void xUnchanged(Ctx & cx, XrfSlot & s, const std::string & why) {
    Ans a, e;
    flatConf(a, s.sut->getConfiguration());
    flatConfRec(e, s.rec);
    cx.same(why, a, e);
}
SIM_OP(xNew, "x.new") {
    XRF * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new XRF(); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "configuration not created: " + o.what); return; }
    XrfSlot * s = fresh<XrfSlot>(w, "xrf", op.s(0));
    s->sut = p;
    cx.mutations++;
    xUnchanged(cx, *s, "new configuration");
}
SIM_OP(xCopy, "x.copy") {
    XrfSlot * b = findX(w, op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    XRF * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new XRF(*b->sut); }, op.f, [&]() { xUnchanged(cx, *b, "original after a failed copy"); });
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "configuration not copied: " + o.what); return; }
    ConfRec r = b->rec;
    XrfSlot * s = fresh<XrfSlot>(w, "xrf", op.s(0));
    s->sut = p;
    s->rec = r;
    cx.mutations++;
    xUnchanged(cx, *s, "copied configuration");
}
SIM_OP(xDel, "x.del") { SIM_UNUSED; dropSlot<XrfSlot>(w, "xrf", op.s(0)); }
template<class F, class G> static void xchange(World & w, Ctx & cx, const Op & op, bool reject, F f, G accepted) {
    XrfSlot * s = findX(w, op.s(0));
    if (!s) return;
    Outcome o = cx.mutate([&]() { f(*s->sut); }, op.f, [&]() { xUnchanged(cx, *s, "after a failed call"); });
    if (o.ok && reject) cx.fail("accepted-invalid", "an invalid setting was accepted");
    if (o.threw) {
        cx.require(o.fired || reject, "unexpected-failure", "a valid setting was rejected: " + o.what);
        cx.count[o.fired ? "change.failed" : "change.rejected"]++;
        xUnchanged(cx, *s, "after a rejected call");
        return;
    }
    accepted(s->rec);
    cx.mutations++;
    xUnchanged(cx, *s, "after a setting");
    const ConfRec & r = s->rec;
    cx.state("conf " + std::to_string(r.e.size()) + std::to_string(r.filters.size()) + std::to_string(r.userFilters.size()) + std::to_string(r.sample.size()) + std::to_string(r.attenuators.size()) + std::to_string(r.userAttenuators.size()) + std::to_string(r.reference) + op.name);
}
SIM_OP(xBeam, "x.beam") {
    BeamSpec b = parseBeam(op, 1);
    xchange(w, cx, op, !beamValid(b), [&](XRF & x) { x.setBeam(b.e, b.w, b.c, b.d); }, [&](ConfRec & r) { beamModel(b, r.e, r.w, r.c, r.d); });
}
SIM_OP(xBeam1, "x.beam1") {
    double e = op.d(1), d = op.d(2);
    xchange(w, cx, op, false, [&](XRF & x) { x.setSingleEnergyBeam(e, d); }, [&](ConfRec & r) { r.e = VD(1, e); r.w = VD(1, 1.0); r.c = std::vector<int>(1, 1); r.d = VD(1, d); });
}
SIM_OP(xBeamObj, "x.beamobj") {
    BeamSlot * b = slot<BeamSlot>(w, "beam", op.s(1));
    if (!b) return;
    xchange(w, cx, op, false, [&](XRF & x) { x.setBeam(*b->sut); }, [&](ConfRec & r) { r.e = b->e; r.w = b->w; r.c = b->c; r.d = b->d; });
}
static bool layerList(World & w, const VS & names, std::vector<Layer> & l, std::vector<LayRec> & r) {
    for (auto & n : names) {
        LaySlot * s = findLay(w, n);
        if (!s) return false;
        l.push_back(*s->sut);
        r.push_back(s->rec);
    }
    return true;
}
static bool tableList(World & w, const VS & names, std::vector<TransmissionTable> & l, std::vector<TabRec> & r) {
    for (auto & n : names) {
        TabSlot * s = slot<TabSlot>(w, "table", n);
        if (!s) return false;
        l.push_back(*s->sut);
        r.push_back(s->rec);
    }
    return true;
}
SIM_OP(xFilters, "x.filters") {
    std::vector<Layer> l; std::vector<LayRec> r;
    if (!layerList(w, op.ss(1), l, r)) return;
    xchange(w, cx, op, false, [&](XRF & x) { x.setBeamFilters(l); }, [&](ConfRec & c) { c.filters = r; });
}
SIM_OP(xAtten, "x.atten") {
    std::vector<Layer> l; std::vector<LayRec> r;
    if (!layerList(w, op.ss(1), l, r)) return;
    xchange(w, cx, op, false, [&](XRF & x) { x.setAttenuators(l); }, [&](ConfRec & c) { c.attenuators = r; });
}
SIM_OP(xUFilters, "x.ufilters") {
    std::vector<TransmissionTable> l; std::vector<TabRec> r;
    if (!tableList(w, op.ss(1), l, r)) return;
    xchange(w, cx, op, false, [&](XRF & x) { x.setUserBeamFilters(l); }, [&](ConfRec & c) { c.userFilters = r; });
}
SIM_OP(xUAtten, "x.uatten") {
    std::vector<TransmissionTable> l; std::vector<TabRec> r;
    if (!tableList(w, op.ss(1), l, r)) return;
    xchange(w, cx, op, false, [&](XRF & x) { x.setUserAttenuators(l); }, [&](ConfRec & c) { c.userAttenuators = r; });
}
SIM_OP(xSample, "x.sample") {
    std::vector<Layer> l; std::vector<LayRec> r;
    if (!layerList(w, op.ss(1), l, r)) return;
    int ref = (int) op.i(2);
    if (ref < 0) return;
    xchange(w, cx, op, ref >= (int) l.size(), [&](XRF & x) { x.setSample(l, ref); }, [&](ConfRec & c) { c.sample = r; c.reference = ref; });
}
SIM_OP(xSample1, "x.sample1") {
    std::string n = untilde(op.s(1));
    double d = op.d(2), t = op.d(3);
    xchange(w, cx, op, false, [&](XRF & x) { x.setSample(n, d, t); }, [&](ConfRec & c) { LayRec r; r.name = r.materialName = n; r.density = d; r.thickness = t; r.funny = 1.0; c.sample.assign(1, r); c.reference = 0; });
}
SIM_OP(xSampleL, "x.samplel") {
    std::vector<Layer> l; std::vector<LayRec> r;
    if (!layerList(w, VS(1, op.s(1)), l, r)) return;
    xchange(w, cx, op, false, [&](XRF & x) { x.setSample(l[0]); }, [&](ConfRec & c) { c.sample = r; c.reference = 0; });
}
SIM_OP(xDet, "x.det") {
    LaySlot * d = findLay(w, op.s(1));
    if (!d || !d->det) return;
    Detector copy(*d->det);
    LayRec r = d->rec;
    xchange(w, cx, op, false, [&](XRF & x) { x.setDetector(copy); }, [&](ConfRec & c) { c.detector = r; });
}
SIM_OP(xGeom, "x.geom") {
    double a = op.d(1), b = op.d(2), c = op.d(3);
    xchange(w, cx, op, false, [&](XRF & x) { x.setGeometry(a, b, c); }, [&](ConfRec & r) { r.in = a; r.out = b; r.scatter = c < 0 ? a + b : c; });
}
// x.read X path : X may be new
SIM_OP(xRead, "x.read") {
    Path as = givenPath(op.s(1));
    std::string path = as.target;
    std::string text;
    ConfRec rec;
    bool known = false;
    bool exists = configFile(path, text, rec, known);
    bool valid = exists && known;
    if (exists && !known) {
        // the answer of a reader that did nothing before
        XRFConfig c;
        try { c.readConfigurationFromFile(path); valid = true; } catch (const std::exception &) {}
        if (valid) { cx.count["config.mutated.accepted"]++; }
    }
    XrfSlot * s = findX(w, op.s(0));
    bool constructor = op.has(2) && op.s(2) == "ctor";
    std::string arg(as.name);
    Outcome o;
    if (!s || constructor) {
        XRF * p = nullptr;
        o = cx.mutate([&]() { p = new XRF(arg); }, op.f, []() {});
        if (o.ok) { s = fresh<XrfSlot>(w, "xrf", op.s(0)); s->sut = p; }
    } else {
        if (exists && !known && valid) {
            // no record of its contents: compared with a fresh reader, then forgotten
            XRFConfig c;
            c.readConfigurationFromFile(path);
            Ans e, a;
            flatConf(e, c);
            o = cx.mutate([&]() { s->sut->readConfigurationFromFile(arg); }, op.f, [&]() { xUnchanged(cx, *s, "after a failed read"); });
            if (o.threw) { cx.require(o.fired, "unexpected-failure", "a file accepted by a fresh reader was rejected: " + o.what); xUnchanged(cx, *s, "after a failed read"); return; }
            flatConf(a, s->sut->getConfiguration());
            cx.same("configuration read from file", a, e);
            dropSlot<XrfSlot>(w, "xrf", op.s(0));
            return;
        }
        o = cx.mutate([&]() { s->sut->readConfigurationFromFile(arg); }, op.f, [&]() { xUnchanged(cx, *s, "after a failed read"); });
    }
    if (o.ok && !valid) cx.fail("accepted-invalid", "a file that cannot be read correctly was accepted");
    if (o.threw) {
        cx.require(o.fired || !valid, "unexpected-failure", "a valid configuration file was rejected: " + o.what);
        cx.count[o.fired ? "read.failed" : "read.rejected"]++;
        if (s && !constructor) xUnchanged(cx, *s, "after a failed read");
        return;
    }
    if (!known) { dropSlot<XrfSlot>(w, "xrf", op.s(0)); return; }
    s->rec = rec;
    cx.mutations++;
    xUnchanged(cx, *s, "configuration read from file");
    cx.state("conf file " + std::to_string(rec.e.size()) + std::to_string(rec.filters.size()) + std::to_string(rec.userFilters.size()) + std::to_string(rec.sample.size()) + std::to_string(rec.attenuators.size()) + std::to_string(rec.materials.size()));
}
SIM_OP(xCheck, "x.check") {
    XrfSlot * s = findX(w, op.s(0));
    if (s) xUnchanged(cx, *s, "configuration");
}

// ---------------------------------------------------------------- fluorescence
struct FluoSpec {
    VS el, fam;
    std::vector<int> layers;
    int secondary = 0, geo = 1, mass = 0;
    double limit = 0;
};
// elements families layers secondary geometric massfractions limit
static FluoSpec parseFluo(const Op & op, size_t k) {
    FluoSpec f;
    f.el = op.ss(k);
    f.fam = op.ss(k + 1);
    for (double x : op.ds(k + 2)) f.layers.push_back((int) x);
    f.secondary = (int) op.i(k + 3);
    f.geo = (int) op.i(k + 4);
    f.mass = (int) op.i(k + 5);
    f.limit = op.d(k + 6);
    return f;
}
static bool fluoUsable(const FluoSpec & f, const ConfRec & r) {
    if (f.el.empty() || f.el.size() != f.fam.size()) return false;
    if (f.layers.size() != 1 && f.layers.size() != f.el.size()) return false;
    std::set<std::string> seen;
    for (size_t i = 0; i < f.el.size(); i++) {
        int l = f.layers.size() == 1 ? f.layers[0] : f.layers[i];
        if (l < -1 || l >= (int) r.sample.size()) return false;
        // the same line asked twice is asked once
        for (size_t j = 0; j < i; j++) {
            int m = f.layers.size() == 1 ? f.layers[0] : f.layers[j];
            if (f.el[i] == f.el[j] && (f.fam[i][0] == f.fam[j][0]) && (l == m || l < 0 || m < 0)) return false;
        }
    }
    return r.sample.size() > 0;
}
static Emission fluo(const XRF & x, const Elements & l, const FluoSpec & f, const Beam & b) {
    return x.getMultilayerFluorescence(f.el, l, f.layers, f.fam, f.secondary, f.geo, f.mass, f.limit, b);
}
static ref::Request request(const FluoSpec & f) {
    ref::Request r;
    r.el = f.el; r.fam = f.fam; r.layers = f.layers;
    r.secondary = f.secondary; r.geo = f.geo; r.mass = f.mass; r.limit = f.limit;
    return r;
}
static bool additive(const std::string & k) {
    if (k == "rate" || k == "primary" || k == "secondary") return true;
    size_t n = k.size();
    return n > 3 && k[n - 3] == ' ' && isdigit(k[n - 1]);
}
static void addEmission(Emission & t, const Emission & e, double weight) {
    for (auto & a : e) for (auto & b : a.second) for (auto & c : b.second) for (auto & d : c.second)
        if (additive(d.first)) t[a.first][b.first][c.first][d.first] += weight * d.second;
}
// only what can be compared between a whole and its parts: sums, without terms that are zero
// The rate includes the tertiary approximation, not linear in the beam.
// The library drops excitations below 1e-30 of the weight normalised to the rays given.
static const double NEGLIGIBLE = 1e-26;
static Ans additiveOnly(const Emission & e, const Emission & other, bool rate) {
    Emission r;
    for (const Emission * x : {&other, &e})
        for (auto & a : *x) for (auto & b : a.second) for (auto & c : b.second) for (auto & d : c.second)
            if (additive(d.first) && (rate || d.first != "rate")) r[a.first][b.first][c.first][d.first] = x == &e ? d.second : 0.0;
    return answer(r);
}
static bool stateOk(Ctx & cx, XrfSlot & s, const std::string & why) { xUnchanged(cx, s, why); return true; }
// f.all X L spec... : equal to a configuration built directly, and repeated
SIM_OP(fAll, "f.all") {
    XrfSlot * s = findX(w, op.s(0));
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!s || !sut) return;
    FluoSpec f = parseFluo(op, 2);
    if (!fluoUsable(f, s->rec)) return;
    refreshed(cx, l);
    std::shared_ptr<XRF> ref = directXrf(s->rec);
    Beam none;
    Emission known;
    Ans e = Ctx::model([&]() { known = fluo(*ref, *twin, f, none); return known; });
    refFluoCheck(cx, l, op.s(1), s->rec, request(f), e, known);
    cx.query("fluorescence", [&]() { return Q([&]() { return fluo(*s->sut, *sut, f, none); }); }, e, op.f);
    stateOk(cx, *s, "configuration after a computation");
    if (!e.threw) cx.count["fluo.lines"] += (long) e.num.size();
    cx.count["queries"]++;
    cx.state("fluo " + std::to_string(f.secondary) + std::to_string(f.geo) + std::to_string(f.mass) + std::to_string(s->rec.sample.size()) + std::to_string(f.el.size()) + (e.threw ? "x" : ""));
}
// f.split X L order copies spec : one computation per ray, in a given order, on copies
SIM_OP(fSplit, "f.split") {
    XrfSlot * s = findX(w, op.s(0));
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!s || !sut) return;
    long seed = op.i(2), copies = op.i(3);
    FluoSpec f = parseFluo(op, 4);
    if (!fluoUsable(f, s->rec) || s->rec.e.size() < 2) return;
    refreshed(cx, l);
    Beam none;
    Emission whole;
    Outcome o = cx.sut([&]() { whole = fluo(*s->sut, *sut, f, none); });
    if (o.threw) return;
    // groups of rays
    Rng r((uint64_t) seed);
    std::vector<std::vector<size_t> > groups;
    size_t n = s->rec.e.size();
    std::vector<size_t> idx;
    for (size_t i = 0; i < n; i++) idx.push_back(i);
    for (size_t i = n; i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
    bool single = r.chance(0.5);
    for (size_t i : idx) { if (groups.empty() || single || r.chance(0.5)) groups.push_back(std::vector<size_t>()); groups.back().push_back(i); }
    std::vector<std::unique_ptr<XRF> > c;
    for (long i = 0; i < copies; i++) {
        XRF * p = nullptr;
        cx.sut([&]() { p = new XRF(*s->sut); });
        c.push_back(std::unique_ptr<XRF>(p));
    }
    Emission sum;
    bool viaConfiguration = copies > 0 && r.chance(0.4);
    for (auto & g : groups) {
        double total = 0;
        VD ge, gw, gd;
        std::vector<int> gc;
        for (size_t i : g) { total += s->rec.w[i]; ge.push_back(s->rec.e[i]); gw.push_back(s->rec.w[i]); gc.push_back(s->rec.c[i]); gd.push_back(s->rec.d[i]); }
        if (!(total > 0)) return;
        XRF * x = c.size() ? c[r.below(c.size())].get() : s->sut;
        Beam b;
        b.setBeam(ge, gw, gc, gd);
        if (viaConfiguration) { cx.sut([&]() { x->setBeam(ge, gw, gc, gd); }); b = Beam(); }
        Emission part;
        bool faulty = op.f.any() && r.chance(0.6);
        if (faulty) {
            Faults ff = op.f;
            o = cx.sut([&]() { part = fluo(*x, *sut, f, b); }, &ff);
            if (o.threw && o.fired) { part.clear(); o = cx.sut([&]() { part = fluo(*x, *sut, f, b); }); }
        } else o = cx.sut([&]() { part = fluo(*x, *sut, f, b); });
        cx.require(o.ok, "unexpected-failure", "the computation of a part of the beam failed: " + o.what);
        addEmission(sum, part, total);
    }
    cx.sameTol("sum of the contributions of the parts of the beam", additiveOnly(sum, whole, f.secondary < 2), additiveOnly(whole, sum, f.secondary < 2), 1e-8, NEGLIGIBLE);
    stateOk(cx, *s, "configuration after split computations");
    cx.count["fluo.splits"]++;
    cx.mutations++;
    cx.state("split " + std::to_string(groups.size()) + "/" + std::to_string(copies) + std::to_string(f.secondary));
}
// f.subset X L seed spec : requested lines alone, permuted or in groups
SIM_OP(fSubset, "f.subset") {
    XrfSlot * s = findX(w, op.s(0));
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!s || !sut) return;
    long seed = op.i(2);
    FluoSpec f = parseFluo(op, 3);
    if (!fluoUsable(f, s->rec) || f.el.size() < 2 || f.secondary > 1) return;
    refreshed(cx, l);
    Beam none;
    Emission whole;
    Outcome o = cx.sut([&]() { whole = fluo(*s->sut, *sut, f, none); });
    if (o.threw) return;
    Rng r((uint64_t) seed);
    std::vector<size_t> idx;
    for (size_t i = 0; i < f.el.size(); i++) idx.push_back(i);
    for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
    Emission merged;
    size_t at = 0;
    while (at < idx.size()) {
        size_t k = 1 + r.below(idx.size() - at);
        FluoSpec g = f;
        g.el.clear(); g.fam.clear();
        if (f.layers.size() > 1) g.layers.clear();
        for (size_t i = at; i < at + k; i++) { g.el.push_back(f.el[idx[i]]); g.fam.push_back(f.fam[idx[i]]); if (f.layers.size() > 1) g.layers.push_back(f.layers[idx[i]]); }
        Emission part;
        o = cx.sut([&]() { part = fluo(*s->sut, *sut, g, none); });
        cx.require(o.ok, "unexpected-failure", "the computation of some of the lines failed: " + o.what);
        for (auto & a : part) for (auto & b : a.second) for (auto & c : b.second) merged[a.first][b.first][c.first] = c.second;
        at += k;
    }
    cx.same("lines computed in groups", answer(merged), answer(whole));
    stateOk(cx, *s, "configuration after grouped computations");
    cx.count["fluo.subsets"]++;
    cx.mutations++;
}
// f.one X L element layer family ... : the short form
SIM_OP(fOne, "f.one") {
    XrfSlot * s = findX(w, op.s(0));
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!s || !sut) return;
    std::string el = op.s(2), fam = untilde(op.s(4));
    int layer = (int) op.i(3), sec = (int) op.i(5), geo = (int) op.i(6), mass = (int) op.i(7);
    if (layer >= (int) s->rec.sample.size()) return;
    refreshed(cx, l);
    std::shared_ptr<XRF> ref = directXrf(s->rec);
    FluoSpec f;
    f.el.push_back(el); f.fam.push_back(fam); f.layers.push_back(layer); f.secondary = sec; f.geo = geo; f.mass = mass;
    Beam none;
    Ans e;
    if (fam.empty() || layer < 0) { e.threw = true; e.shape = "!threw"; }
    else {
        Emission known;
        e = Ctx::model([&]() { known = fluo(*ref, *twin, f, none); return known; });
        refFluoCheck(cx, l, op.s(1), s->rec, request(f), e, known);
    }
    cx.query("fluorescence of one line family", [&]() { return Q([&]() { return s->sut->getMultilayerFluorescence(el, *sut, layer, fam, sec, geo, mass, 0.0); }); }, e, op.f);
    VS list(1, el + " " + fam);
    if (fam.size() && layer >= 0 && op.has(8)) {
        list[0] = el + " " + fam + " " + std::to_string(layer);
        Ans g = cx.ask([&]() { return Q([&]() { return s->sut->getMultilayerFluorescence(list, *sut, sec, geo, mass, 0.0); }); });
        Ans h = Ctx::model([&]() { return ref->getMultilayerFluorescence(list, *twin, sec, geo, mass, 0.0); });
        cx.same("fluorescence of a list of line families", g, h);
    }
    stateOk(cx, *s, "configuration after a computation");
    cx.count["queries"]++;
}
// x.q X L kind ...
struct XQuery { std::string kind, el, fam; int i = 0; double x = 0, angle = 90; VD xs; };
static Ans askX(XRF & x, const Elements & l, const XQuery & q) {
    const XRF & c = x;
    if (q.kind == "eff") return Q([&]() { return c.getGeometricEfficiency(q.i); });
    if (q.kind == "thr") return Q([&]() { return c.getEnergyThreshold(q.el, q.fam, l); });
    const std::vector<Layer> & s = c.getSample();
    if (q.i >= (int) s.size()) return Ans();
    const Layer & y = s[q.i];
    if (q.kind == "comp") return Q([&]() { return c.getLayerComposition(y, l); });
    if (q.kind == "mu1") return Q([&]() { return c.getLayerMassAttenuationCoefficients(y, q.x, l); });
    if (q.kind == "muv") return Q([&]() { return c.getLayerMassAttenuationCoefficients(y, q.xs, l); });
    if (q.kind == "tr1") return Q([&]() { return c.getLayerTransmission(y, q.x, l, q.angle); });
    if (q.kind == "trv") return Q([&]() { return c.getLayerTransmission(y, q.xs, l, q.angle); });
    if (q.kind == "peak") return Q([&]() { return c.getLayerPeakFamilies(y, q.x, l); });
    throw HarnessError{"unknown configuration query " + q.kind};
}
SIM_OP(xQ, "x.q") {
    XrfSlot * s = findX(w, op.s(0));
    Elements * sut, * twin;
    LibSlot * l = libFor(w, op.s(1), sut, twin);
    if (!s || !sut) return;
    XQuery q;
    q.kind = op.s(2);
    if (q.kind == "thr") { q.el = op.s(3); q.fam = op.s(4); }
    else { q.i = (int) op.i(3); q.xs = op.has(4) ? op.ds(4) : VD(1, 7.0); q.x = q.xs.empty() ? 7.0 : q.xs[0]; q.angle = op.has(5) ? op.d(5) : 90.0; if (q.i < 0 || q.i >= (int) s->rec.sample.size()) return; }
    refreshed(cx, l);
    std::shared_ptr<XRF> ref = directXrf(s->rec);
    Ans e = Ctx::model([&]() { return askX(*ref, *twin, q); });
    LayerQuestion lq;
    lq.kind = q.kind; lq.el = q.el; lq.fam = q.fam; lq.i = q.i; lq.x = q.x; lq.angle = q.angle; lq.xs = q.xs;
    refLayerCheck(cx, l, op.s(1), q.i < (int) s->rec.sample.size() ? s->rec.sample[(size_t) q.i] : LayRec(), &s->rec, lq, e);
    cx.query("configuration query " + q.kind, [&]() { return askX(*s->sut, *sut, q); }, e, op.f);
    stateOk(cx, *s, "configuration after a query");
    cx.count["queries"]++;
}

// ---------------------------------------------------------------- configuration files
static std::string list(const VD & v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s; }
static std::string configTextOf(const ConfRec & r) {
    std::string t = "[fit]\nfile = nothing\n";
    if (r.e.size()) {
        t += "energy = " + list(r.e) + "\nenergyweight = " + list(r.w) + "\n";
        VD c(r.c.begin(), r.c.end());
        t += "energyscatter = " + list(c) + "\nenergyflag = " + list(VD(r.e.size(), 1.0)) + "\n";
    }
    for (auto & m : r.materials) {
        VS k; VD v;
        t += "[Materials." + m.name + "]\nDensity = " + num(m.density) + "\nThickness = " + num(m.thickness) + "\n";
        std::string n;
        for (auto & c : m.comp) { n += (n.empty() ? "" : ", ") + c.first; v.push_back(c.second); }
        t += "CompoundList = " + n + "\nCompoundFraction = " + list(v) + "\n";
        if (m.comment.size()) t += "Comment =" + m.comment + "\n";
    }
    return t;
}
static LayRec fileLayer(const std::string & key, const std::string & mat, double d, double t, double f, const std::vector<MatRec> & mats) {
    LayRec r;
    r.name = key;
    r.density = d; r.thickness = t; r.funny = f;
    r.how = "name";
    r.materialName = mat;
    for (auto & m : mats) if (m.name == mat) {
        r.how = "object";
        r.mat = m;
        if (r.density < 0) r.density = m.density;
        if (r.thickness <= 0) r.thickness = m.thickness;
    }
    return r;
}
// /sim/c/<seed>[.<mutation>]
bool configFile(const std::string & path, std::string & text, ConfRec & rec, bool & known) {
    known = false;
    if (path.compare(0, 7, "/sim/c/") != 0) return false;
    VS p = splitStr(path.substr(7), '.');
    if (p[0] == "missing") return false;
    uint64_t seed = strtoull(p[0].c_str(), nullptr, 10);
    Rng r(seed + 77);
    rec = ConfRec();
    VS pool = {"Fe", "SiO2", "Pb", "Air1", "Goethite", "Al", "Mylar1", "Polyester_of_the_beam_line_window", "Steel"};
    std::vector<std::string> sections;
    std::string s;
    // beam
    bool result = r.chance(0.2);
    int nb = (int) r.range(0, 6);
    BeamSpec b;
    VD flags;
    VD fe, fw;
    std::vector<int> fc;
    std::set<double> used;
    for (int i = 0; i < nb; i++) {
        double e;
        do e = std::floor(r.real(2, 60) * 100) / 100; while (used.count(e));
        used.insert(e);
        fe.push_back(e);
        fw.push_back(std::floor(r.real(0.1, 3) * 1000) / 1000);
        fc.push_back(r.chance(0.06) ? -1 : r.chance(0.08) ? 2 : r.chance(0.5));
        flags.push_back(r.chance(0.75));
    }
    bool hasW = r.chance(0.8), hasC = r.chance(0.7), hasF = r.chance(0.8);
    if (!hasF) flags.assign(nb, 1.0);
    // as in PyMca, unused entries are None
    VS es, ws;
    for (int i = 0; i < nb; i++) {
        bool none = hasF && flags[i] == 0 && r.chance(0.5);
        es.push_back(none ? "None" : num(fe[i]));
        ws.push_back(num(fw[i]));
        if (flags[i] > 0) { b.e.push_back(fe[i]); if (hasW) b.w.push_back(fw[i]); else b.w.push_back(1.0); b.c.push_back(hasC ? std::max(fc[i], 0) : 1); }
    }
    auto join = [&](const VS & v) { std::string x; for (size_t i = 0; i < v.size(); i++) x += (i ? (r.chance(0.9) ? ", " : ",") : "") + v[i]; return x; };
    auto numsOf = [&](const VD & v) { VS k; for (double x : v) k.push_back(num(x)); return join(k); };
    std::string sec = result ? "result.config" : std::string(r.pick({"fit", "Fit", "FIT"}));
    s = "[" + sec + "]\n";
    if (r.chance(0.4)) s += "fitfunction = 0 ; a comment\n";
    s += "energy = " + join(es) + "\n";
    if (hasW) { s += "energyweight = " + join(ws) + "\n"; }
    if (hasC) { VD c(fc.begin(), fc.end()); s += "energyscatter = " + numsOf(c) + "\n"; }
    if (hasF) s += "energyflag = " + numsOf(flags) + "\n";
    sections.push_back(s);
    beamModel(b, rec.e, rec.w, rec.c, rec.d);
    // materials
    int nm = (int) r.range(0, 4);
    for (int i = 0; i < nm; i++) {
        MatRec m;
        m.name = i == 0 ? "Air1" : (i == 1 ? "Goethite" : (i == 2 ? "Mylar1" : "Polyester_of_the_beam_line_window"));
        if (r.chance(0.8)) m.density = std::floor(r.real(0.01, 8) * 1000) / 1000;
        if (r.chance(0.8)) m.thickness = std::floor(r.real(0.001, 2) * 1000) / 1000;
        VS k;
        VD v;
        VS els = {"O", "Fe", "H", "N1", "C", "CaO", "SiO2"};
        int n = (int) r.range(1, 3);
        for (int j = 0; j < n; j++) { std::string e = els[(size_t) ((j * 2 + i + r.below(2)) % els.size())]; if (m.comp.count(e)) continue; double a = std::floor(r.real(0.05, 1) * 1000) / 1000; m.comp[e] = a; k.push_back(e); v.push_back(a); }
        s = "[" + std::string(r.pick({"Materials", "materials"})) + "." + m.name + "]\n";
        if (r.chance(0.5)) { m.comment = "a~comment~" + std::to_string(r.below(100)); for (auto & ch : m.comment) if (ch == '~') ch = ' '; s += "Comment =" + m.comment + "\n"; }
        bool density = m.density != 1.0, thick = m.thickness != 1.0;
        if (density) s += "Density = " + num(m.density) + "\n";
        if (thick) s += "Thickness = " + num(m.thickness) + "\n";
        s += "CompoundList = " + join(k) + "\n" + (r.chance(0.5) ? "CompoundFraction" : "CompoundFractions") + " = " + numsOf(v) + "\n";
        sections.push_back(s);
        rec.materials.push_back(m);
    }
    // user tables
    for (int kind = 0; kind < 2; kind++) {
        int n = (int) r.range(0, 2);
        for (int i = 0; i < n; i++) {
            TabRec t;
            t.name = std::string(kind ? "Film" : "Mirror") + std::to_string(i);
            t.table.clear();
            VD e, v;
            double x = r.real(0.5, 3);
            int m = (int) r.range(1, 5);
            for (int j = 0; j < m; j++) { e.push_back(std::floor(x * 100) / 100); v.push_back(std::floor(r.real(0, 1) * 1000) / 1000); t.table[e.back()] = v.back(); x += r.real(0.5, 9); }
            bool use = r.chance(0.7);
            s = std::string("[") + (kind ? "UserAttenuators." : "UserBeamFilters.") + t.name + "]\n";
            s += "energy = " + numsOf(e) + "\ntransmission = " + numsOf(v) + "\n";
            if (use || r.chance(0.5)) s += std::string("use = ") + (use ? "1" : "0") + "\n";
            if (r.chance(0.4)) { t.comment = "measured " + std::to_string(r.below(50)); s += "comment =" + t.comment + "\n"; }
            sections.push_back(s);
            if (use) (kind ? rec.userAttenuators : rec.userFilters).push_back(t);
        }
    }
    // attenuators, in the order of the keys
    std::map<std::string, std::string> lines;
    std::map<std::string, LayRec> filters, atten;
    bool multi = false;
    int nf = (int) r.range(0, 2), na = (int) r.range(0, 5);
    auto row = [&](bool use, const std::string & m, double d, double t, double f) { VS v; v.push_back(use ? "1" : "0"); v.push_back(m); v.push_back(num(d)); v.push_back(num(t)); v.push_back(num(f)); return join(v); };
    for (int i = 0; i < nf + na; i++) {
        bool filter = i < nf;
        std::string key = filter ? "BeamFilter" + std::to_string(i) : std::string(i == nf ? "atmosphere" : (i == nf + 1 ? "deadlayer" : i == nf + 2 ? "absorber" : i == nf + 3 ? "window" : "contact"));
        bool use = r.chance(0.75);
        std::string m = pool[r.below(pool.size() - 1)];
        double d = r.chance(0.1) ? -1.0 : std::floor(r.real(0.01, 8) * 1000) / 1000, t = r.chance(0.1) ? 0.0 : std::floor(r.logreal(0.0001, 0.1) * 1e6) / 1e6, f = std::floor(r.real(0.3, 1) * 100) / 100;
        lines[key] = row(use, m, d, t, f);
        if (use) (filter ? filters : atten)[key] = fileLayer(key, m, d, t, f, rec.materials);
    }
    if (r.chance(0.7)) {
        bool use = r.chance(0.8);
        std::string m = r.pick({"Si1", "Ge", "Steel", "Goethite"});
        double d = std::floor(r.real(1, 8) * 1000) / 1000, t = std::floor(r.real(0.01, 0.5) * 1000) / 1000;
        lines["Detector"] = row(use, m, d, t, 1.0);
        if (use) rec.detector = fileLayer("Detector", m, d, t, 1.0, rec.materials);
    }
    if (r.chance(0.85)) {
        bool use = r.chance(0.9);
        multi = r.chance(0.5);
        std::string m = multi ? "MULTILAYER" : pool[r.below(pool.size() - 1)];
        double d = std::floor(r.real(0.5, 8) * 1000) / 1000, t = std::floor(r.logreal(0.0001, 0.1) * 1e6) / 1e6;
        double ai = r.range(10, 80), ao = r.range(10, 80), sc = r.range(20, 160);
        bool useS = r.chance(0.4);
        VS v;
        v.push_back(use ? "1" : "0"); v.push_back(m); v.push_back(num(d)); v.push_back(num(t)); v.push_back(num(ai)); v.push_back(num(ao)); v.push_back(useS ? "1" : "0"); v.push_back(num(sc));
        lines["Matrix"] = join(v);
        if (use) {
            rec.in = ai; rec.out = ao; rec.scatter = useS ? sc : ai + ao;
            if (!multi) rec.sample.push_back(fileLayer("Matrix", m, d, t, 1.0, rec.materials));
        } else multi = false;
    }
    if (lines.size() || r.chance(0.5)) {
        s = std::string("[") + r.pick({"attenuators", "Attenuators"}) + "]\n";
        VS keys;
        for (auto & k : lines) keys.push_back(k.first);
        for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[r.below(i)]);
        for (auto & k : keys) s += k + " = " + lines[k] + "\n";
        sections.push_back(s);
    }
    for (auto & f : filters) rec.filters.push_back(f.second);
    for (auto & f : atten) rec.attenuators.push_back(f.second);
    if (multi || r.chance(0.3)) {
        s = "[multilayer]\n";
        int n = (int) r.range(1, r.chance(0.2) ? 8 : 3);
        for (int i = 0; i < n; i++) {
            bool use = r.chance(0.8);
            std::string m = pool[r.below(pool.size() - 1)];
            double d = std::floor(r.real(0.5, 8) * 1000) / 1000, t = std::floor(r.logreal(0.0001, 0.1) * 1e6) / 1e6;
            VS v;
            v.push_back(use ? "1" : "0"); v.push_back(m); v.push_back(num(d)); v.push_back(num(t));
            s += "Layer" + std::to_string(i) + " = " + join(v) + "\n";
            if (use && multi) { LayRec l = fileLayer("Layer" + std::to_string(i), m, d, t, 1.0, rec.materials); rec.sample.push_back(l); }
        }
        sections.push_back(s);
    }
    if (r.chance(0.6)) {
        s = "[concentrations]\n";
        if (r.chance(0.8)) { rec.detector.distance = std::floor(r.real(0.5, 20) * 100) / 100; s += "distance = " + num(rec.detector.distance) + "\n"; }
        if (r.chance(0.8)) { double a = std::floor(r.real(0.05, 2) * 100) / 100; s += "area = " + num(a) + "\n"; rec.detector.diameter = 2.0 * sqrt(a / acos(-1.0)); }
        sections.push_back(s);
    }
    // any order of the sections, those of one kind in their own
    if (r.chance(0.5)) {
        auto kind = [](const std::string & x) { size_t d = x.find('.'); return d < x.find(']') && x.compare(0, 7, "[result") != 0 ? x.substr(0, d) == "[Materials" ? std::string("[materials") : x.substr(0, d) : std::string(); };
        VS was = sections;
        for (size_t i = sections.size(); i > 1; i--) std::swap(sections[i - 1], sections[r.below(i)]);
        std::map<std::string, size_t> next;
        for (auto & x : sections) {
            std::string k = kind(x);
            if (k.empty()) continue;
            size_t & j = next[k];
            while (kind(was[j]) != k) j++;
            x = was[j++];
        }
    }
    text.clear();
    if (r.chance(0.3)) text += "# a configuration\n";
    for (auto & x : sections) { text += x; if (r.chance(0.4)) text += "\n"; }
    if (r.chance(0.3)) text += "[other]\nkey = value\n";
    if (r.chance(0.2)) { std::string c; for (char ch : text) { if (ch == '\n') c += '\r'; c += ch; } text = c; }
    known = true;
    if (rec.detector.name.empty()) { rec.detector.materialName = ""; }
    if (p.size() > 1) {
        // a damaged file
        Rng m(strtoull(p[1].c_str(), nullptr, 10) * 31 + seed);
        known = false;
        VS ls = splitStr(text, '\n');
        size_t at = m.below(ls.size());
        switch (m.below(9)) {
        case 0: text = text.substr(0, m.below(text.size() + 1)); break;
        case 1: ls[at] += " \""; text.clear(); break;
        case 2: ls[at] = "[[broken"; text.clear(); break;
        case 3: text = ""; break;
        case 4: { size_t c = ls[at].rfind(','); if (c != std::string::npos) ls[at] = ls[at].substr(0, c); text.clear(); break; }
        case 5: { for (auto & l : ls) if (l.find("energyweight") == 0 || l.find("CompoundList") == 0) { size_t c = l.rfind(','); if (c != std::string::npos) l = l.substr(0, c); } text.clear(); break; }
        case 6: { for (auto & l : ls) if (l.find("distance") == 0) l = "distance = -3"; text.clear(); break; }
        case 7: { for (auto & l : ls) if (l.find("transmission") == 0) l += ", 0.5"; text.clear(); break; }
        default: { size_t c = ls[at].find('='); if (c != std::string::npos) ls[at] = ls[at].substr(0, c + 1) + " garbage"; text.clear(); break; }
        }
        if (text.empty()) for (size_t i = 0; i < ls.size(); i++) text += ls[i] + (i + 1 < ls.size() ? "\n" : "");
    }
    return true;
}
}
