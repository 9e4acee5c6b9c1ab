// The simulated world: every fisx object the plan talks about, each one
// together with the record of what was accepted (the reference model).
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include "core.h"
#include "ref.h"
#include "fisx_element.h"
#include "fisx_elements.h"
#include "fisx_epdl97.h"
#include "fisx_detector.h"
#include "fisx_layer.h"
#include "fisx_material.h"
#include "fisx_transmissiontable.h"
#include "fisx_beam.h"
#include "fisx_xrf.h"
#include "fisx_xrfconfig.h"
#include "fisx_simpleini.h"
#include "fisx_simplespecfile.h"

namespace sim {
typedef std::shared_ptr<const fisx::Element> CEl;

// what an element should contain
struct ElRec {
    CEl base;                 // immutable starting point, null if created blank
    ref::CRef refBase;        // the same for the model, null if unknown
    std::string blankName;
    int blankZ = 1;
    std::optional<std::string> name, longName;
    std::optional<double> mass, density;
    std::optional<int> column, row, z;
    bool beSet = false;
    MSD be;
    struct Part { bool beSet; MSD be; VD e, v; };
    std::map<std::string, Part> part;
    bool muSet = false, muPair = false;
    VD me, mp, mc, mi, mx;
    std::map<std::string, MSD> rad, non, con;  // since the last binding energies
};
struct ElSlot {
    fisx::Element * sut = nullptr;
    ElRec rec;
    CEl twin;          // rebuilt when the record changes
    ref::CRef ref;     // the model of the element, and the twin it belongs to
    CEl refTwin;
    bool stale = false;  // the cascade cache is older than the data
    int cacheOn = 0, casOn = 0;
    VD recent;           // energies the calculation cache may know
};
struct ElQuery {
    std::string kind, s1, s2;
    double x = 0, w = 1;
    VD xs, ws;
    MSD dist;
    int i1 = 1, i2 = 1;
    bool cascade() const { return kind == "exc1" || kind == "excv" || (kind == "lines" && i1 && i2); }
};
ElQuery parseElQuery(const Op & op, size_t from);
void keepOwnShells(ElQuery & q, const fisx::Element & e);
Ans askElement(fisx::Element & e, const ElQuery & q);
std::vector<ElQuery> recentQuestions(const VD & recent, bool cascade);
void remember(VD & recent, const VD & es);
std::vector<ElQuery> elementDigest(const fisx::Element & twin, bool cascade);
CEl canonical(const ElRec & r);
std::string untilde(const std::string & s);   // '~' are spaces, '-' alone is empty

// the library
struct LibQuery {
    std::string kind, el, s1;
    ElQuery eq;
    double x = 0, w = 1, alpha = 90, thick = 0, ethr = 0.010, ithr = 1.0e-7;
    int n = 4, i1 = 0;
    VD xs, ws;
    MSD comp;
    VS names;
};
struct MatRec { std::string name, comment; double density = 1, thickness = 1; MSD comp; };
// a path of a plan: NAME>TARGET makes TARGET appear on the simulated disk as NAME
struct Path { std::string name, target; };
Path givenPath(const std::string & s);
struct LibSlot {
    std::vector<MatRec> mats;
    std::vector<std::string> touched;          // elements to look at
    fisx::Elements * sut = nullptr;
    std::shared_ptr<fisx::Elements> twin;      // same accepted changes, no cache, no fault
    std::shared_ptr<const ref::Lib> ref;       // the model of the library, null if unknown
    std::vector<std::function<void(std::shared_ptr<fisx::Elements> &)> > log;  // accepted changes
    std::set<std::string> stale;               // elements whose cascade cache is old
    std::map<std::string, std::string> given;  // names of loaded files, where they are not those the twin got
    int kind = 0;                              // base it was created from
    std::map<std::string, int> cacheOn;
    long version = 0;
    int escOn = -1;
    std::map<std::string, VD> recent;          // energies the calculation caches may know
    std::vector<LibQuery> escRecent;           // escape questions the escape cache may know
};
// a standalone layer or detector and its last accepted values
struct LayRec {
    std::string name, materialName;
    double density = 0, thickness = 0, funny = 1;
    std::string how;           // "", "name" or "object"
    MatRec mat;
    double diameter = 0, distance = 10, emin = 0.010, imin = 1.0e-7;
    int nmax = 4;
};
struct LaySlot {
    fisx::Layer * sut = nullptr;
    fisx::Detector * det = nullptr;            // the same object if it is a detector
    LayRec rec;
    std::map<std::string, std::map<std::string, long> > labels;  // label -> energy -> data it was computed with
    LaySlot() {}
    LaySlot(const LaySlot &) = delete;
    ~LaySlot() { if (det) delete det; else delete sut; }
};
// a transmission table
struct TabRec { std::string name, comment; std::map<double, double> table; TabRec() { table[0.0] = 1.0; } };
fisx::TransmissionTable makeTable(const TabRec & r);
// a configuration
struct ConfRec {
    VD e, w, d;
    std::vector<int> c;        // beam as it should be: sorted and normalised
    std::vector<LayRec> filters, sample, attenuators;
    std::vector<TabRec> userFilters, userAttenuators;
    std::vector<MatRec> materials;
    int reference = 0;
    LayRec detector;
    double in = 45, out = 45, scatter = 90;
};
bool configFile(const std::string & path, std::string & text, ConfRec & rec, bool & known);
fisx::Layer makeLayer(const LayRec & r);
fisx::Detector makeDetector(const LayRec & r);
fisx::Material makeMaterial(const MatRec & r);
MatRec parseMat(const std::string & spec);
extern long dataVersion;                        // grows with every change of any library

struct World {
    std::map<std::string, ElSlot *> el;
    std::map<std::string, LibSlot *> lib;
    std::map<std::string, void *> more;                       // other kinds of objects, by kind
    std::vector<std::function<void()> > cleanup;
};
// the independent model (w_ref.cpp)
bool refWants(const Ctx & cx, const std::string & kind);
ref::CRef refOf(ElSlot & s);
std::shared_ptr<const ref::Lib> refBase(int kind);
std::shared_ptr<const ref::Lib> refDirectory(const std::string & dir, int kind);
std::shared_ptr<const ref::Lib> refChanged(Ctx & cx, const std::shared_ptr<const ref::Lib> & l, std::function<void(ref::Lib &)> f);
bool cleanScans(const std::string & path, std::vector<ref::Scan> & out);
void refElementCheck(Ctx & cx, ElSlot & s, const ElQuery & q, const Ans & got);
void refLibraryCheck(Ctx & cx, LibSlot & s, const LibQuery & q, const Ans & got);
// configurations: null if the library is not known
std::shared_ptr<const ref::Lib> refLib(const Ctx & cx, const LibSlot * l, const std::string & name);
ref::Layer refLayer(const LayRec & r, bool detector = false);
std::vector<ref::Mat> refMats(const std::vector<MatRec> & v);
void refFluoCheck(Ctx & cx, const LibSlot * l, const std::string & lib, const ConfRec & c, const ref::Request & r, const Ans & got, const ref::Emission & lines);
// kind: comp mu1 muv tr1 trv peak (of a layer), eff thr
struct LayerQuestion { std::string kind, el, fam; int i = 0; double x = 0, angle = 90; VD xs; };
void refLayerCheck(Ctx & cx, const LibSlot * l, const std::string & lib, const LayRec & y, const ConfRec * c, const LayerQuestion & q, const Ans & got);
void refDetectorCheck(Ctx & cx, const LibSlot * l, const std::string & lib, const LayRec & d, double e, const Ans & got);
std::vector<ElQuery> refDigest(const ref::El & e, const std::string & profile);

typedef void (*OpFn)(World &, Ctx &, const Op &);
std::map<std::string, OpFn> & opTable();
struct Reg { Reg(const char * n, OpFn f) { opTable()[n] = f; } };
#define SIM_OP(ident, name) static void ident(World & w, Ctx & cx, const Op & op); static Reg reg_##ident(name, ident); static void ident(World & w, Ctx & cx, const Op & op)
#define SIM_UNUSED (void) w; (void) cx; (void) op

// slots of some kind stored in World::more
template<class T> std::map<std::string, T *> & slots(World & w, const char * kind) {
    void *& p = w.more[kind];
    if (!p) {
        std::map<std::string, T *> * m = new std::map<std::string, T *>();
        p = m;
        w.cleanup.push_back([m]() { for (auto & k : *m) delete k.second; delete m; });
    }
    return *(std::map<std::string, T *> *) p;
}
template<class T> T * slot(World & w, const char * kind, const std::string & name) {
    auto & m = slots<T>(w, kind);
    auto it = m.find(name);
    return it == m.end() ? nullptr : it->second;
}
template<class T> T * fresh(World & w, const char * kind, const std::string & name) {
    auto & m = slots<T>(w, kind);
    auto it = m.find(name);
    if (it != m.end()) { delete it->second; m.erase(it); }
    T * t = new T();
    m[name] = t;
    return t;
}
template<class T> void dropSlot(World & w, const char * kind, const std::string & name) {
    auto & m = slots<T>(w, kind);
    auto it = m.find(name);
    if (it != m.end()) { delete it->second; m.erase(it); }
}
ElSlot * findEl(World & w, const std::string & n);
LibSlot * findLib(World & w, const std::string & n);
const fisx::Elements & baseLibrary(int kind);  // 0 EPDL97 directory, 1 pymca set
void afterElementChange(ElSlot & s);
void elementUnchanged(Ctx & cx, ElSlot & s, const char * why);

// f() evaluated, and flattened outside of the simulated system
template<class F> Ans Q(F f) {
    bool old = seam::inSut;
    auto r = f();
    seam::inSut = false;
    Ans a;
    flat(a, r);
    seam::inSut = old;
    return a;
}
}
#endif
