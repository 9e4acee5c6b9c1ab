// The Python classes inside the simulation: the interpreter is part of the
// simulated process, every call is made through the Python API and again
// through the C++ library on objects with the same history.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "world.h"
#include "fisx_math.h"
#include "fisx_shell.h"
#include "fisx_version.h"
#include <algorithm>
#include <dlfcn.h>
#include <execinfo.h>
#include <cstdlib>
#include <ios>
#include <typeinfo>
extern "C" PyObject * PyInit__fisx(void);
using namespace fisx;

namespace sim {
// ---------------------------------------------------------------- values written in plans
struct Val {
    char k = 'n';     // n none, # number, s text, b bytes, [ list, ( tuple, a array, { dict, $ object, & a container kept between calls
    double d = 0;
    bool integer = false;
    std::string s;
    std::vector<Val> l;
    std::vector<std::pair<Val, Val> > m;
};
struct ArgError { };
struct PyRaise { std::string type, what; };

struct ValParser {
    const std::string & t;
    size_t i = 0;
    explicit ValParser(const std::string & s) : t(s) {}
    [[noreturn]] void bad() { throw HarnessError{"cannot understand the value " + t + " at " + std::to_string(i)}; }
    char at() { if (i >= t.size()) bad(); return t[i]; }
    void expect(char c) { if (at() != c) bad(); i++; }
    std::string text() {
        expect('"');
        std::string r;
        while (at() != '"') {
            char c = t[i++];
            if (c == '\\') {
                char e = at();
                i++;
                if (e == 'u') { r += (char) strtol(t.substr(i, 4).c_str(), nullptr, 16); i += 4; }
                else r += e;
            } else r += c;
        }
        i++;
        return r;
    }
    Val value() {
        Val v;
        char c = at();
        if (c == '"') { v.k = 's'; v.s = text(); }
        else if (c == 'b' && i + 1 < t.size() && t[i + 1] == '"') { i++; v.k = 'b'; v.s = text(); }
        else if (c == 'N') { if (t.compare(i, 4, "None") != 0) bad(); i += 4; }
        else if (c == '[' || c == '(' || c == 'a') {
            if (c == 'a') i++;
            char end = c == '(' ? ')' : ']';
            expect(c == '(' ? '(' : '[');
            v.k = c;
            while (at() != end) { v.l.push_back(value()); if (at() == ',') i++; }
            i++;
        } else if (c == '{') {
            i++;
            v.k = '{';
            while (at() != '}') { Val key = value(); expect(':'); Val x = value(); v.m.push_back(std::make_pair(key, x)); if (at() == ',') i++; }
            i++;
        } else if (c == '$' || c == '&') {
            v.k = c;
            for (i++; i < t.size() && isalnum((unsigned char) t[i]); i++) v.s += t[i];
        } else {
            const char * b = t.c_str() + i;
            char * e;
            v.d = strtod(b, &e);
            if (e == b) bad();
            v.k = '#';
            v.integer = std::string(b, (size_t) (e - b)).find_first_of(".eEni") == std::string::npos;
            i += (size_t) (e - b);
        }
        return v;
    }
};
static Val parseVal(const std::string & s) { ValParser p(s); Val v = p.value(); if (p.i != s.size()) p.bad(); return v; }

// ---------------------------------------------------------------- objects
struct PyObj {
    std::string cls;
    PyObject * py = nullptr;
    std::shared_ptr<void> twin;
    bool sizes = true;     // the number of cached energies is known
    PyObj() {}
    PyObj(const PyObj &) = delete;
    ~PyObj() { Py_XDECREF(py); }
    template<class T> T & t() { return *(T *) twin.get(); }
};
static PyObject * package = nullptr, * numpyArray = nullptr;
static PyObj * theBase[2] = {nullptr, nullptr};

// a list or a dictionary the caller goes on using and changing
struct Kept {
    Val v;
    PyObject * py = nullptr;
    Kept() {}
    Kept(const Kept &) = delete;
    ~Kept() { Py_XDECREF(py); }
};
static Val resolved(World & w, const Val & v) {
    if (v.k == '&') { Kept * k = slot<Kept>(w, "kept", v.s); if (!k) throw HarnessError{"nothing kept as " + v.s}; return k->v; }
    Val r = v;
    for (auto & x : r.l) x = resolved(w, x);
    for (auto & x : r.m) x.second = resolved(w, x.second);
    return r;
}
static PyObject * toPy(World & w, const Val & v) {
    switch (v.k) {
    case '&': { Kept * k = slot<Kept>(w, "kept", v.s); if (!k) throw HarnessError{"nothing kept as " + v.s}; Py_INCREF(k->py); return k->py; }
    case 'n': Py_RETURN_NONE;
    case '#': return v.integer ? PyLong_FromLong((long) v.d) : PyFloat_FromDouble(v.d);
    case 's': return PyUnicode_DecodeUTF8(v.s.data(), (Py_ssize_t) v.s.size(), "surrogateescape");
    case 'b': return PyBytes_FromStringAndSize(v.s.data(), (Py_ssize_t) v.s.size());
    case '$': { PyObj * o = slot<PyObj>(w, "py", v.s); if (!o) throw HarnessError{"no object " + v.s}; Py_INCREF(o->py); return o->py; }
    case '{': {
        PyObject * d = PyDict_New();
        for (auto & x : v.m) { PyObject * a = toPy(w, x.first), * b = toPy(w, x.second); PyDict_SetItem(d, a, b); Py_DECREF(a); Py_DECREF(b); }
        return d;
    }
    case '(': {
        PyObject * p = PyTuple_New((Py_ssize_t) v.l.size());
        for (size_t i = 0; i < v.l.size(); i++) PyTuple_SET_ITEM(p, (Py_ssize_t) i, toPy(w, v.l[i]));
        return p;
    }
    default: {
        PyObject * l = PyList_New((Py_ssize_t) v.l.size());
        for (size_t i = 0; i < v.l.size(); i++) PyList_SET_ITEM(l, (Py_ssize_t) i, toPy(w, v.l[i]));
        if (v.k != 'a') return l;
        PyObject * a = PyObject_CallFunction(numpyArray, "Os", l, "float64");
        Py_DECREF(l);
        if (!a) { PyErr_Clear(); throw HarnessError{"cannot create an array"}; }
        return a;
    }
    }
}
// text and bytes are told apart unless the method is known to answer with bytes
static bool arraysToo = false;
static void flatPy(Ans & a, PyObject * o, bool bytesOk) {
    if (arraysToo && strcmp(Py_TYPE(o)->tp_name, "numpy.ndarray") == 0) {
        PyObject * l = PyObject_CallMethod(o, "tolist", nullptr);
        if (!l) { PyErr_Clear(); a.shape += "<array>"; return; }
        a.shape += 'a';
        flatPy(a, l, bytesOk);
        Py_DECREF(l);
        return;
    }
    if (o == Py_None) { a.shape += "None"; return; }
    if (PyFloat_Check(o)) { flat(a, PyFloat_AsDouble(o)); return; }
    if (PyLong_Check(o)) { flat(a, PyLong_AsDouble(o)); return; }
    if (PyUnicode_Check(o)) {
        PyObject * b = PyUnicode_AsEncodedString(o, "utf-8", "surrogateescape");
        if (!b) { PyErr_Clear(); a.shape += "<undecodable>"; return; }
        flat(a, std::string(PyBytes_AS_STRING(b), (size_t) PyBytes_GET_SIZE(b)));
        Py_DECREF(b);
        return;
    }
    if (PyBytes_Check(o)) { if (!bytesOk) a.shape += 'b'; flat(a, std::string(PyBytes_AS_STRING(o), (size_t) PyBytes_GET_SIZE(o))); return; }
    if (PyTuple_Check(o)) {
        a.shape += '(';
        for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(o); i++) { if (i) a.shape += ','; flatPy(a, PyTuple_GET_ITEM(o, i), bytesOk); }
        a.shape += ')';
        return;
    }
    if (PyList_Check(o)) {
        a.shape += '[';
        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(o); i++) { flatPy(a, PyList_GET_ITEM(o, i), bytesOk); a.shape += ';'; }
        a.shape += ']';
        return;
    }
    if (PyDict_Check(o)) {
        struct Item { std::string text; double number; PyObject * key, * value; };
        std::vector<Item> items;
        PyObject * k, * v;
        Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &v)) {
            Ans x;
            flatPy(x, k, true);
            items.push_back(Item{x.num.size() ? std::string() : x.shape.substr(1, x.shape.size() - 2), x.num.size() ? x.num[0] : 0.0, k, v});
        }
        std::stable_sort(items.begin(), items.end(), [](const Item & p, const Item & q) { return p.text != q.text ? p.text < q.text : p.number < q.number; });
        a.shape += '{';
        for (auto & i : items) { flatPy(a, i.key, bytesOk); a.shape += ':'; flatPy(a, i.value, bytesOk); a.shape += ' '; }
        a.shape += '}';
        return;
    }
    a.shape += std::string("<") + Py_TYPE(o)->tp_name + ">";
}
// what the caller got belongs to the caller: nothing may notice that it is spoiled
static void spoil(PyObject * o) {
    if (PyDict_Check(o)) {
        PyObject * k, * v;
        Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &v)) spoil(v);
        PyDict_Clear(o);
    } else if (PyList_Check(o)) {
        for (Py_ssize_t i = 0; i < PyList_GET_SIZE(o); i++) spoil(PyList_GET_ITEM(o, i));
        PyList_SetSlice(o, 0, PyList_GET_SIZE(o), nullptr);
    } else if (PyTuple_Check(o)) for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(o); i++) spoil(PyTuple_GET_ITEM(o, i));
}
static Ans nothing() { Ans a; a.shape = "None"; return a; }

// ---------------------------------------------------------------- arguments as the C++ library gets them
struct Args {
    World & w;
    std::vector<Val> v;
    explicit Args(World & ww) : w(ww) {}
    static std::string str(const Val & x) { if (x.k != 's' && x.k != 'b') throw ArgError(); return x.s; }
    static double dbl(const Val & x) { if (x.k != '#') throw ArgError(); return x.d; }
    static int integer(const Val & x) { if (x.k != '#' || !x.integer) throw ArgError(); return (int) x.d; }
    static bool seq(const Val & x) { return x.k == '[' || x.k == '(' || x.k == 'a'; }
    static VD dbls(const Val & x) { if (!seq(x)) throw ArgError(); VD r; for (auto & y : x.l) r.push_back(dbl(y)); return r; }
    static VS strs(const Val & x) { if (!seq(x)) throw ArgError(); VS r; for (auto & y : x.l) r.push_back(str(y)); return r; }
    static std::vector<int> ints(const Val & x) { if (!seq(x)) throw ArgError(); std::vector<int> r; for (auto & y : x.l) r.push_back(integer(y)); return r; }
    static std::string bytes(const Val & x) { if (x.k != 'b') throw ArgError(); return x.s; }
    // the values below an element, a shell or a photon library are named with bytes
    static VS bytesList(const Val & x) { if (!seq(x)) throw ArgError(); VS r; for (auto & y : x.l) r.push_back(bytes(y)); return r; }
    static MSD bytesMap(const Val & x) { if (x.k != '{') throw ArgError(); MSD r; for (auto & y : x.m) r[bytes(y.first)] = dbl(y.second); return r; }
    static MSD map(const Val & x) { if (x.k != '{') throw ArgError(); MSD r; for (auto & y : x.m) r[str(y.first)] = dbl(y.second); return r; }
    static std::map<double, double> table(const Val & x) { if (x.k != '{') throw ArgError(); std::map<double, double> r; for (auto & y : x.m) r[dbl(y.first)] = dbl(y.second); return r; }
    bool none(size_t i) const { return v[i].k == 'n'; }
    bool list(size_t i) const { return seq(v[i]); }
    bool dict(size_t i) const { return v[i].k == '{'; }
    std::string s(size_t i) const { return str(v[i]); }
    double d(size_t i) const { return dbl(v[i]); }
    int i(size_t k) const { return integer(v[k]); }
    VD vd(size_t i) const { return dbls(v[i]); }
    VD vd1(size_t i) const { return seq(v[i]) ? dbls(v[i]) : VD(1, dbl(v[i])); }  // a number or several
    VS vs(size_t i) const { return strs(v[i]); }
    MSD m(size_t i) const { return map(v[i]); }
    MSD mb(size_t i) const { return bytesMap(v[i]); }
    VS vsb(size_t i) const { return bytesList(v[i]); }
    PyObj & obj(const Val & x, const char * cls) const {
        if (x.k != '$') throw ArgError();
        PyObj * o = slot<PyObj>(w, "py", x.s);
        if (!o || o->cls != cls) throw ArgError();
        return *o;
    }
    Beam beam(size_t i) const { if (v[i].k == 's' && v[i].s.empty()) return Beam(); return obj(v[i], "Beam").t<Beam>(); }
    Elements & lib(size_t i) const { return obj(v[i], "Elements").t<Elements>(); }
    Layer & lay(size_t i) const { return obj(v[i], "Layer").t<Layer>(); }
};
struct Method {
    VS names;
    std::vector<std::optional<Val> > defaults;
    std::function<Ans(PyObj &, Args &)> f;
    bool bytesOk = false;
};
static std::map<std::string, Method> methods;
static void def(const std::string & name, const std::string & params, std::function<Ans(PyObj &, Args &)> f, bool bytesOk = false) {
    Method m;
    m.f = f;
    m.bytesOk = bytesOk;
    std::istringstream is(params);
    std::string p;
    while (is >> p) {
        size_t e = p.find('=');
        m.names.push_back(p.substr(0, e));
        if (e == std::string::npos) m.defaults.push_back(std::nullopt);
        else m.defaults.push_back(parseVal(p.substr(e + 1)));
    }
    methods[name] = m;
}
template<class T> static Ans A(const T & v) { Ans a; flat(a, v); return a; }
#define DEF(name, params, ...) def(name, params, [](PyObj & o, Args & a) -> Ans { (void) o; (void) a; __VA_ARGS__ })
#define DEFB(name, params, ...) def(name, params, [](PyObj & o, Args & a) -> Ans { (void) o; (void) a; __VA_ARGS__ }, true)
typedef std::vector<std::pair<std::string, double> > Families;
static Families byEnergy(Families f) { std::stable_sort(f.begin(), f.end(), [](const std::pair<std::string, double> & x, const std::pair<std::string, double> & y) { return x.second < y.second; }); return f; }
static std::vector<Layer> layers(Args & a, const Val & v) {
    std::vector<Layer> r;
    if (!Args::seq(v)) throw ArgError();
    for (auto & x : v.l) {
        if (!Args::seq(x) && x.k != '$') throw ArgError();
        if ((x.k == '$') != (v.l[0].k == '$')) throw ArgError();   // either objects or descriptions
        if (x.k == '$') { r.push_back(a.obj(x, "Layer").t<Layer>()); continue; }
        if (!Args::seq(x)) throw ArgError();
        if (x.l.size() != (v.l[0].l.size() == 4 ? 4u : 3u)) throw PyRaise{"ValueError", ""};
        r.push_back(Layer(Args::str(x.l[0]), Args::dbl(x.l[1]), Args::dbl(x.l[2]), x.l.size() > 3 ? Args::dbl(x.l[3]) : 1.0));
    }
    return r;
}
static std::vector<TransmissionTable> tables(Args & a, const Val & v) {
    std::vector<TransmissionTable> r;
    if (!Args::seq(v)) throw ArgError();
    for (auto & x : v.l) {
        TransmissionTable t;
        if ((x.k == '$') != (v.l[0].k == '$')) throw ArgError();
        if (x.k == '$') {
            TransmissionTable & s = a.obj(x, "TransmissionTable").t<TransmissionTable>();
            t.setTransmissionTable(s.getTransmissionTable(), s.getName(), s.getComment());
        } else if (Args::seq(x) && x.l.size() == 4) t.setTransmissionTable(Args::dbls(x.l[0]), Args::dbls(x.l[1]), Args::str(x.l[2]), Args::str(x.l[3]));
        else if (Args::seq(x) && x.l.size() == 3) t.setTransmissionTable(Args::table(x.l[0]), Args::str(x.l[1]), Args::str(x.l[2]));
        else throw ArgError();
        r.push_back(t);
    }
    return r;
}
static void pymca(std::shared_ptr<void> & twin) {
    const std::string d = "/sim/data/";
    std::shared_ptr<Elements> e(new Elements("/sim/data", d + "BindingEnergies.dat", d + "XCOM_CrossSections.dat"));
    for (auto s : {"K", "L", "M"}) e->setShellConstantsFile(s, d + s + "ShellConstants.dat");
    for (auto s : {"K", "L", "M"}) e->setShellRadiativeTransitionsFile(s, d + s + "ShellRates.dat");
    twin = e;
}

static void registerMethods() {
    // ------------------------------------------------------------ Elements
    DEF("Elements", "directoryName=\"\" bindingEnergiesFile=\"\" crossSectionsFile=\"\" pymca=0",
        std::string d = a.s(0), b = a.s(1), c = a.s(2);
        int p = a.i(3);
        if (d.empty()) d = "/sim/data";
        if (p) o.twin.reset(new Elements(d, (short) 1));
        else if (b.size()) o.twin.reset(new Elements(d, b, c));
        else { std::shared_ptr<Elements> e(new Elements(d)); if (c.size()) e->setMassAttenuationCoefficientsFile(c); o.twin = e; }
        return nothing(););
    DEF("Elements.initializeAsPyMca", "", pymca(o.twin); return nothing(););
    DEF("Elements.getElementNames", "", return A(o.t<Elements>().getElementNames()););
    DEF("Elements.getAtomicMass", "element", return A(o.t<Elements>().getAtomicMass(a.s(0))););
    DEF("Elements.getAtomicNumber", "element", return A(o.t<Elements>().getAtomicNumber(a.s(0))););
    DEF("Elements.getDensity", "element", return A(o.t<Elements>().getDensity(a.s(0))););
    DEF("Elements.getLongName", "element", return A(o.t<Elements>().getLongName(a.s(0))););
    DEF("Elements.getColumn", "element", return A(o.t<Elements>().getColumn(a.s(0))););
    DEF("Elements.getRow", "element", return A(o.t<Elements>().getRow(a.s(0))););
    DEF("Elements.getMaterialNames", "", return A(o.t<Elements>().getMaterialNames()););
    DEF("Elements.getComposition", "materialOrFormula", return A(o.t<Elements>().getComposition(a.s(0))););
    DEF("Elements.addMaterial", "material errorOnReplace=1", int e = a.i(1); o.t<Elements>().addMaterial(a.obj(a.v[0], "Material").t<Material>(), e); return nothing(););
    DEF("Elements.removeMaterials", "", o.t<Elements>().removeMaterials(); return nothing(););
    DEF("Elements.setShellConstantsFile", "mainShellName fileName", std::string s = a.s(0); o.t<Elements>().setShellConstantsFile(s, a.s(1)); return nothing(););
    DEF("Elements.getShellConstantsFile", "mainShellName", return A(o.t<Elements>().getShellConstantsFile(a.s(0))););
    DEF("Elements.setShellRadiativeTransitionsFile", "mainShellName fileName", std::string s = a.s(0); o.t<Elements>().setShellRadiativeTransitionsFile(s, a.s(1)); return nothing(););
    DEF("Elements.getShellRadiativeTransitionsFile", "mainShellName", return A(o.t<Elements>().getShellRadiativeTransitionsFile(a.s(0))););
    DEF("Elements.getShellNonradiativeTransitionsFile", "mainShellName", return A(o.t<Elements>().getShellNonradiativeTransitionsFile(a.s(0))););
    DEF("Elements.setMassAttenuationCoefficients", "element energies photo coherent compton pair",
        std::string e = a.s(0); VD x = a.vd(1), p = a.vd(2), c = a.vd(3), i = a.vd(4), q = a.vd(5);
        o.t<Elements>().setMassAttenuationCoefficients(e, x, p, c, i, q); return nothing(););
    DEF("Elements.setMassAttenuationCoefficientsFile", "crossSectionsFile", o.t<Elements>().setMassAttenuationCoefficientsFile(a.s(0)); return nothing(););
    DEF("Elements.getElementMassAttenuationCoefficients", "element energy=None",
        std::string e = a.s(0); Elements & l = o.t<Elements>();
        if (a.none(1)) return A(l.getMassAttenuationCoefficients(e));
        return A(l.getMassAttenuationCoefficients(e, a.vd1(1))););
    DEF("Elements.getMassAttenuationCoefficients", "name energy=None",
        Elements & l = o.t<Elements>();
        if (a.dict(0)) { MSD c = a.m(0); return A(l.getMassAttenuationCoefficients(c, a.vd1(1), 0)); }
        std::string e = a.s(0);
        if (a.none(1)) return A(l.getMassAttenuationCoefficients(e));
        return A(l.getMassAttenuationCoefficients(e, a.vd1(1))););
    DEF("Elements._getSingleMassAttenuationCoefficients", "element energy", std::string e = Args::bytes(a.v[0]); return A(o.t<Elements>().getMassAttenuationCoefficients(e, a.d(1))););
    DEF("Elements.getExcitationFactors", "name energy weight=None",
        std::string e = a.s(0); VD x = a.vd1(1); VD w = a.none(2) ? VD(x.size(), 1.0) : a.vd1(2);
        auto r = o.t<Elements>().getExcitationFactors(e, x, w);
        // one energy is answered with a list of one, a list of energies with the answer for the first
        if (!a.list(1)) return A(r);
        if (r.empty()) throw PyRaise{"IndexError", ""};
        return A(r[0]););
    DEF("Elements.getPeakFamilies", "nameOrVector energy",
        Elements & l = o.t<Elements>();
        if (a.list(0)) { VS n = a.vs(0); return A(byEnergy(l.getPeakFamilies(n, a.d(1)))); }
        std::string n = a.s(0); return A(byEnergy(l.getPeakFamilies(n, a.d(1)))););
    DEF("Elements.getBindingEnergies", "elementName", return A(o.t<Elements>().getBindingEnergies(a.s(0))););
    DEF("Elements.getEscape", "composition energy energyThreshold=0.010 intensityThreshold=1.0e-7 nThreshold=4 alphaIn=90. thickness=0.0",
        MSD c = a.m(0); return A(o.t<Elements>().getEscape(c, a.d(1), a.d(2), a.d(3), a.i(4), a.d(5), a.d(6))););
    DEF("Elements.updateEscapeCache", "composition energyList energyThreshold=0.010 intensityThreshold=1.0e-7 nThreshold=4 alphaIn=90. thickness=0.0",
        MSD c = a.m(0); VD e = a.vd(1); o.t<Elements>().updateEscapeCache(c, e, a.d(2), a.d(3), a.i(4), a.d(5), a.d(6)); return nothing(););
    DEF("Elements.getShellConstants", "elementName subshell", std::string e = a.s(0); return A(o.t<Elements>().getShellConstants(e, a.s(1))););
    DEF("Elements.getEmittedXRayLines", "elementName energy=1000.", std::string e = a.s(0); return A(o.t<Elements>().getEmittedXRayLines(e, a.d(1))););
    DEF("Elements.getRadiativeTransitions", "elementName subshell", std::string e = a.s(0); return A(o.t<Elements>().getRadiativeTransitions(e, a.s(1))););
    DEF("Elements.getNonradiativeTransitions", "elementName subshell", std::string e = a.s(0); return A(o.t<Elements>().getNonradiativeTransitions(e, a.s(1))););
    DEF("Elements.setElementCascadeCacheEnabled", "elementName flag=1", std::string e = a.s(0); o.t<Elements>().setElementCascadeCacheEnabled(e, a.i(1)); return nothing(););
    DEF("Elements.emptyElementCascadeCache", "elementName", o.t<Elements>().emptyElementCascadeCache(a.s(0)); return nothing(););
    DEF("Elements.fillCache", "elementName energy", std::string e = a.s(0); o.t<Elements>().fillCache(e, a.vd(1)); return nothing(););
    DEF("Elements.updateCache", "elementName energy", std::string e = a.s(0); o.t<Elements>().updateCache(e, a.vd(1)); return nothing(););
    DEF("Elements.setCacheEnabled", "elementName flag=1", std::string e = a.s(0); o.t<Elements>().setCacheEnabled(e, a.i(1)); return nothing(););
    DEF("Elements.setEscapeCacheEnabled", "flag=1", o.t<Elements>().setEscapeCacheEnabled(a.i(0)); return nothing(););
    DEF("Elements.clearCache", "elementName", o.t<Elements>().clearCache(a.s(0)); return nothing(););
    DEF("Elements.isCacheEnabled", "elementName", return A(o.t<Elements>().isCacheEnabled(a.s(0))););
    DEF("Elements.isEscapeCacheEnabled", "", return A(o.t<Elements>().isEscapeCacheEnabled()););
    DEF("Elements.getCacheSize", "elementName", return A(o.t<Elements>().getCacheSize(a.s(0))););
    DEF("Elements.getInitialPhotoelectricVacancyDistribution", "elementName energy", std::string e = a.s(0); return A(o.t<Elements>().getInitialPhotoelectricVacancyDistribution(e, a.d(1))););
    DEF("Elements.getCascadeModifiedVacancyDistribution", "elementName distribution", std::string e = a.s(0); return A(o.t<Elements>().getCascadeModifiedVacancyDistribution(e, a.m(1))););
    DEF("Elements.getXRayLinesFromVacancyDistribution", "elementName distribution cascade=1 useFluorescenceYield=1",
        std::string e = a.s(0); MSD d = a.m(1); return A(o.t<Elements>().getXRayLinesFromVacancyDistribution(e, d, a.i(2), a.i(3))););
    // ------------------------------------------------------------ Element
    DEF("Element", "name z=0", std::string n = a.s(0); o.twin.reset(new Element(n, a.i(1))); return nothing(););
    DEF("Element.setName", "name", o.t<Element>().setName(a.s(0)); return nothing(););
    DEF("Element.setAtomicNumber", "z", o.t<Element>().setAtomicNumber(a.i(0)); return nothing(););
    DEF("Element.getAtomicNumber", "", return A(o.t<Element>().getAtomicNumber()););
    DEF("Element.setBindingEnergies", "energies", o.t<Element>().setBindingEnergies(a.mb(0)); return nothing(););
    DEFB("Element.getBindingEnergies", "", return A(o.t<Element>().getBindingEnergies()););
    DEF("Element.setMassAttenuationCoefficients", "energies photo coherent compton pair",
        VD x = a.vd(0), p = a.vd(1), c = a.vd(2), i = a.vd(3), q = a.vd(4); o.t<Element>().setMassAttenuationCoefficients(x, p, c, i, q); return nothing(););
    DEFB("Element.getMassAttenuationCoefficients", "energy=None",
        if (a.none(0)) return A(o.t<Element>().getMassAttenuationCoefficients());
        return A(o.t<Element>().getMassAttenuationCoefficients(a.vd1(0))););
    DEF("Element.setRadiativeTransitions", "shell labels values", std::string s = a.s(0); VS l = a.vsb(1); o.t<Element>().setRadiativeTransitions(s, l, a.vd(2)); return nothing(););
    DEFB("Element.getRadiativeTransitions", "shell", return A(o.t<Element>().getRadiativeTransitions(a.s(0))););
    DEF("Element.setNonradiativeTransitions", "shell labels values", std::string s = a.s(0); VS l = a.vsb(1); o.t<Element>().setNonradiativeTransitions(s, l, a.vd(2)); return nothing(););
    DEFB("Element.getNonradiativeTransitions", "shell", return A(o.t<Element>().getNonradiativeTransitions(a.s(0))););
    DEF("Element.setShellConstants", "shell valuesDict", std::string s = a.s(0); o.t<Element>().setShellConstants(s, a.mb(1)); return nothing(););
    DEFB("Element.getShellConstants", "shell", return A(o.t<Element>().getShellConstants(a.s(0))););
    DEFB("Element.getXRayLinesFromVacancyDistribution", "vacancyDict", return A(o.t<Element>().getXRayLinesFromVacancyDistribution(a.mb(0))););
    // ------------------------------------------------------------ Shell
    DEF("Shell", "name", o.twin.reset(new Shell(a.s(0))); return nothing(););
    DEF("Shell.setRadiativeTransitions", "transitions values", VS l = a.vs(0); o.t<Shell>().setRadiativeTransitions(l, a.vd(1)); return nothing(););
    DEF("Shell.setNonradiativeTransitions", "transitions values", VS l = a.vs(0); o.t<Shell>().setNonradiativeTransitions(l, a.vd(1)); return nothing(););
    DEF("Shell.setShellConstants", "shellConstants", o.t<Shell>().setShellConstants(a.m(0)); return nothing(););
    DEFB("Shell.getAugerRatios", "", return A(o.t<Shell>().getAugerRatios()););
    DEFB("Shell.getCosterKronigRatios", "", return A(o.t<Shell>().getCosterKronigRatios()););
    DEFB("Shell.getFluorescenceRatios", "", return A(o.t<Shell>().getFluorescenceRatios()););
    DEFB("Shell.getRadiativeTransitions", "", return A(o.t<Shell>().getRadiativeTransitions()););
    DEFB("Shell.getNonradiativeTransitions", "", return A(o.t<Shell>().getNonradiativeTransitions()););
    DEFB("Shell.getDirectVacancyTransferRatios", "subshell", return A(o.t<Shell>().getDirectVacancyTransferRatios(a.s(0))););
    DEFB("Shell.getShellConstants", "", return A(o.t<Shell>().getShellConstants()););
    // ------------------------------------------------------------ Material
    DEF("Material", "materialName density=1.0 thickness=1.0 comment=\"\"", std::string n = a.s(0); double d = a.d(1), t = a.d(2); o.twin.reset(new Material(n, d, t, a.s(3))); return nothing(););
    DEF("Material.getName", "", return A(o.t<Material>().getName()););
    DEF("Material.setName", "name", o.t<Material>().setName(a.s(0)); return nothing(););
    DEF("Material.setCompositionFromLists", "elementList massFractions", VS l = a.vs(0); o.t<Material>().setComposition(l, a.vd(1)); return nothing(););
    DEF("Material.setComposition", "composition", o.t<Material>().setComposition(a.m(0)); return nothing(););
    DEF("Material.getComposition", "", return A(o.t<Material>().getComposition()););
    // ------------------------------------------------------------ Layer
    DEF("Layer", "materialName density=1.0 thickness=1.0 funny=1.0", std::string n = a.s(0); double d = a.d(1), t = a.d(2), f = a.d(3); o.twin.reset(new Layer(n, d, t, f)); return nothing(););
    DEF("Layer.getComposition", "elementsLib", return A(o.t<Layer>().getComposition(a.lib(0))););
    DEF("Layer.getTransmission", "energies elementsLib angle=90.", VD e = a.vd1(0); Elements & l = a.lib(1); return A(o.t<Layer>().getTransmission(e, l, a.d(2))););
    DEF("Layer.setMaterial", "material", o.t<Layer>().setMaterial(a.obj(a.v[0], "Material").t<Material>()); return nothing(););
    DEF("Layer.getPeakFamilies", "energy elementsLib", double e = a.d(0); return A(byEnergy(o.t<Layer>().getPeakFamilies(e, a.lib(1)))););
    // ------------------------------------------------------------ Detector
    DEF("Detector", "materialName density=1.0 thickness=1.0 funny=1.0", std::string n = a.s(0); double d = a.d(1), t = a.d(2), f = a.d(3); o.twin.reset(new Detector(n, d, t, f)); return nothing(););
    DEF("Detector.getTransmission", "energies elementsLib angle=90.", VD e = a.vd1(0); Elements & l = a.lib(1); return A(o.t<Detector>().getTransmission(e, l, a.d(2))););
    DEF("Detector.setActiveArea", "area", o.t<Detector>().setActiveArea(a.d(0)); return nothing(););
    DEF("Detector.setDiameter", "value", o.t<Detector>().setDiameter(a.d(0)); return nothing(););
    DEF("Detector.getActiveArea", "", return A(o.t<Detector>().getActiveArea()););
    DEF("Detector.getDiameter", "", return A(o.t<Detector>().getDiameter()););
    DEF("Detector.setDistance", "value", o.t<Detector>().setDistance(a.d(0)); return nothing(););
    DEF("Detector.getDistance", "", return A(o.t<Detector>().getDistance()););
    DEF("Detector.setMaximumNumberOfEscapePeaks", "n", o.t<Detector>().setMaximumNumberOfEscapePeaks(a.i(0)); return nothing(););
    DEF("Detector.getEscape", "energy elementsLib label=\"\" update=1", double e = a.d(0); Elements & l = a.lib(1); std::string s = a.s(2); return A(o.t<Detector>().getEscape(e, l, s, a.i(3) ? 1 : 0)););
    DEF("Detector.getEscapePeakEnergyThreshold", "", return A(o.t<Detector>().getEscapePeakEnergyThreshold()););
    DEF("Detector.getEscapePeakIntensityThreshold", "", return A(o.t<Detector>().getEscapePeakIntensityThreshold()););
    DEF("Detector.getEscapePeakNThreshold", "", return A(o.t<Detector>().getEscapePeakNThreshold()););
    DEF("Detector.getEscapePeakAlphaIn", "", return A(o.t<Detector>().getEscapePeakAlphaIn()););
    DEF("Detector.getThickness", "", return A(o.t<Detector>().getThickness()););
    DEF("Detector.getDensity", "", return A(o.t<Detector>().getDensity()););
    DEF("Detector.getComposition", "elementsLib", return A(o.t<Detector>().getComposition(a.lib(0))););
    // ------------------------------------------------------------ TransmissionTable
    DEF("TransmissionTable", "", o.twin.reset(new TransmissionTable()); return nothing(););
    DEF("TransmissionTable.getName", "", return A(o.t<TransmissionTable>().getName()););
    DEF("TransmissionTable.setName", "name", o.t<TransmissionTable>().setName(a.s(0)); return nothing(););
    DEF("TransmissionTable.getComment", "", return A(o.t<TransmissionTable>().getComment()););
    DEF("TransmissionTable.setComment", "comment", o.t<TransmissionTable>().setComment(a.s(0)); return nothing(););
    DEF("TransmissionTable.setTransmissionTableFromLists", "energy transmission name=\"\" comment=\"\"",
        VD e = a.vd(0), t = a.vd(1); std::string n = a.s(2); o.t<TransmissionTable>().setTransmissionTable(e, t, n, a.s(3)); return nothing(););
    DEF("TransmissionTable.setTransmissionTable", "transmissionTable name=\"\" comment=\"\"",
        std::map<double, double> t = Args::table(a.v[0]); std::string n = a.s(1); o.t<TransmissionTable>().setTransmissionTable(t, n, a.s(2)); return nothing(););
    DEF("TransmissionTable.getTransmissionTable", "", return A(o.t<TransmissionTable>().getTransmissionTable()););
    DEF("TransmissionTable.getTransmission", "energy", if (a.list(0)) return A(o.t<TransmissionTable>().getTransmission(a.vd(0))); return A(o.t<TransmissionTable>().getTransmission(a.d(0))););
    // ------------------------------------------------------------ Beam
    DEF("Beam", "", o.twin.reset(new Beam()); return nothing(););
    DEF("Beam.setBeam", "energies weights=None",
        VD e = a.vd1(0), w = a.none(1) ? VD() : a.vd1(1);
        if (w.empty() || (!a.list(1) && w[0] == 0)) w = VD(e.size(), 1.0);
        o.t<Beam>().setBeam(e, w, std::vector<int>(), VD()); return nothing(););
    DEF("Beam.getBeamAsDoubleVectors", "", std::vector<VD> v = o.t<Beam>().getBeamAsDoubleVectors(); return A(std::make_pair(v[0], v[1])););
    // ------------------------------------------------------------ files
    DEF("SimpleIni", "name", o.twin.reset(new SimpleIni(a.s(0))); return nothing(););
    DEFB("SimpleIni.getKeys", "", return A(o.t<SimpleIni>().getSections()););
    DEFB("SimpleIni.readKey", "key", return A(o.t<SimpleIni>().readSection(a.s(0))););
    DEF("SimpleSpecfile", "name", o.twin.reset(new SimpleSpecfile(a.s(0))); return nothing(););
    DEF("SimpleSpecfile.getNumberOfScans", "", return A(o.t<SimpleSpecfile>().getNumberOfScans()););
    DEF("SimpleSpecfile.getScanLabels", "scanIndex", return A(o.t<SimpleSpecfile>().getScanLabels(a.i(0))););
    DEF("SimpleSpecfile.getScanData", "scanIndex", return A(o.t<SimpleSpecfile>().getScanData(a.i(0))););
    DEF("EPDL97", "name=None", o.twin.reset(new EPDL97(a.none(0) ? "/sim/data" : a.s(0))); return nothing(););
    DEF("EPDL97.setDataDirectory", "name", o.t<EPDL97>().setDataDirectory(a.s(0)); return nothing(););
    DEF("EPDL97.setBindingEnergies", "z energies", int z = a.i(0); o.t<EPDL97>().setBindingEnergies(z, a.mb(1)); return nothing(););
    DEF("EPDL97.getBindingEnergies", "z", return A(o.t<EPDL97>().getBindingEnergies(a.i(0))););
    DEF("EPDL97.getMassAttenuationCoefficients", "z energy=None", int z = a.i(0); if (a.none(1)) return A(o.t<EPDL97>().getMassAttenuationCoefficients(z)); return A(o.t<EPDL97>().getMassAttenuationCoefficients(z, a.vd1(1))););
    DEF("EPDL97.getPhotoelectricWeights", "z energy", int z = a.i(0); return A(o.t<EPDL97>().getPhotoelectricWeights(z, a.vd1(1))););
    // ------------------------------------------------------------ Math
    DEF("Math", "", o.twin.reset(new Math()); return nothing(););
    DEF("Math.E1", "x", return A(Math::E1(a.d(0))););
    DEF("Math.En", "n x", int n = a.i(0); return A(Math::En(n, a.d(1))););
    DEF("Math.deBoerD", "x", return A(Math::deBoerD(a.d(0))););
    DEF("Math.deBoerL0", "mu1 mu2 muj density=0.0 thickness=0.0", return A(Math::deBoerL0(a.d(0), a.d(1), a.d(2), a.d(3), a.d(4))););
    DEF("Math.deBoerX", "p q d1 d2 mu_1_j mu_2_j mu_b_d_t=0.0", return A(Math::deBoerX(a.d(0), a.d(1), a.d(2), a.d(3), a.d(4), a.d(5), a.d(6))););
    DEF("Math.erf", "x", return A(Math::erf(a.d(0))););
    DEF("Math.erfc", "x", return A(Math::erfc(a.d(0))););
    // ------------------------------------------------------------ XRF
    DEF("XRF", "configurationFile=\"\"", std::string f = a.s(0); if (f.size()) o.twin.reset(new XRF(f)); else o.twin.reset(new XRF()); return nothing(););
    DEF("XRF.readConfigurationFromFile", "fileName", o.t<XRF>().readConfigurationFromFile(a.s(0)); return nothing(););
    DEF("XRF.setBeam", "energies weights=None characteristic=None divergency=None",
        XRF & x = o.t<XRF>();
        if (!a.list(0)) { double e = a.d(0); x.setSingleEnergyBeam(e, a.none(3) ? 0.0 : a.d(3)); return nothing(); }
        VD e = a.vd(0), w = a.none(1) ? VD(e.size(), 1.0) : a.vd1(1);
        std::vector<int> c = a.none(2) ? std::vector<int>(e.size(), 1) : Args::ints(a.v[2]);
        x.setBeam(e, w, c, a.none(3) ? VD(e.size(), 0.0) : a.vd(3)); return nothing(););
    DEF("XRF.setBeamFilters", "layerList", o.t<XRF>().setBeamFilters(layers(a, a.v[0])); return nothing(););
    DEF("XRF.setSample", "layerList referenceLayer=0", std::vector<Layer> l = layers(a, a.v[0]); o.t<XRF>().setSample(l, a.i(1)); return nothing(););
    DEF("XRF.setAttenuators", "layerList", o.t<XRF>().setAttenuators(layers(a, a.v[0])); return nothing(););
    DEF("XRF.setUserBeamFilters", "pyTransmissionTableList", o.t<XRF>().setUserBeamFilters(tables(a, a.v[0])); return nothing(););
    DEF("XRF.setUserAttenuators", "pyTransmissionTableList", o.t<XRF>().setUserAttenuators(tables(a, a.v[0])); return nothing(););
    DEF("XRF.setDetector", "detector", o.t<XRF>().setDetector(a.obj(a.v[0], "Detector").t<Detector>()); return nothing(););
    DEF("XRF.setGeometry", "alphaIn alphaOut scatteringAngle=-90.0", double i = a.d(0), u = a.d(1), s = a.d(2); o.t<XRF>().setGeometry(i, u, s < 0.0 ? i + u : s); return nothing(););
    DEF("XRF.getGeometricEfficiency", "layerIndex=0", return A(o.t<XRF>().getGeometricEfficiency(a.i(0))););
    DEF("XRF.getLayerComposition", "layerInstance elementsLibrary", Layer & l = a.lay(0); return A(o.t<XRF>().getLayerComposition(l, a.lib(1))););
    DEF("XRF.getLayerMassAttenuationCoefficients", "layerInstance energies elementsLibrary",
        Layer & l = a.lay(0); Elements & e = a.lib(2);
        if (a.list(1)) return A(o.t<XRF>().getLayerMassAttenuationCoefficients(l, a.vd(1), e));
        return A(o.t<XRF>().getLayerMassAttenuationCoefficients(l, a.d(1), e)););
    DEF("XRF.getLayerTransmission", "layerInstance energies elementsLibrary angle=90.",
        Layer & l = a.lay(0); Elements & e = a.lib(2);
        if (a.list(1)) { VD x = a.vd(1); return A(o.t<XRF>().getLayerTransmission(l, x, e, a.d(3))); }
        double x = a.d(1); return A(o.t<XRF>().getLayerTransmission(l, x, e, a.d(3))););
    DEF("XRF.getLayerPeakFamilies", "layerInstance energy elementsLibrary", Layer & l = a.lay(0); double x = a.d(1); return A(o.t<XRF>().getLayerPeakFamilies(l, x, a.lib(2))););
    DEF("XRF.getMultilayerFluorescence", "elementFamilyLayer elementsLibrary secondary=0 useGeometricEfficiency=1 useMassFractions=0 secondaryCalculationLimit=0.0 overwritingBeam=\"\"",
        VS n = a.vs(0); Elements & l = a.lib(1); int s = a.i(2), g = a.i(3), m = a.i(4); double x = a.d(5);
        return A(o.t<XRF>().getMultilayerFluorescence(n, l, s, g, m, x, a.beam(6))););
    DEF("XRF.getFluorescence", "elementNames elementsLibrary sampleLayer=0 lineFamily=\"K\" secondary=0 useGeometricEfficiency=1 useMassFractions=0 secondaryCalculationLimit=0.0 overwritingBeam=\"\"",
        VS n = a.list(0) ? a.vs(0) : VS(1, a.s(0)); Elements & l = a.lib(1);
        std::vector<int> y = a.list(2) ? Args::ints(a.v[2]) : std::vector<int>(1, a.i(2));
        VS f = a.list(3) ? a.vs(3) : VS(1, a.s(3));
        int s = a.i(4), g = a.i(5), m = a.i(6); double x = a.d(7);
        if (f.size() != n.size() || (y.size() > 1 && y.size() != n.size())) throw PyRaise{"IndexError", ""};
        return A(o.t<XRF>().getMultilayerFluorescence(n, l, y, f, s, g, m, x, a.beam(8))););
}

// ---------------------------------------------------------------- calls
struct Res {
    bool ok = false, wrongKind = false;   // an argument of a kind the method does not take
    Ans a;
    std::string type, msg;
    std::string text() const { return ok ? a.text(500) : "raises " + type + ": " + msg.substr(0, 300); }
};
static void bind(const Method & m, const Val & pos0, const Val & kw0, Args & a) {
    const Val pos = resolved(a.w, pos0), kw = resolved(a.w, kw0);
    if (pos.l.size() > m.names.size()) throw HarnessError{"too many arguments"};
    a.v = pos.l;
    std::vector<bool> given(m.names.size(), false);
    for (size_t i = 0; i < a.v.size(); i++) given[i] = true;
    a.v.resize(m.names.size());
    for (auto & k : kw.m) {
        size_t i = (size_t) (std::find(m.names.begin(), m.names.end(), k.first.s) - m.names.begin());
        if (i >= m.names.size()) throw HarnessError{"unknown argument " + k.first.s};
        a.v[i] = k.second;
        given[i] = true;
    }
    for (size_t i = 0; i < given.size(); i++) if (!given[i]) {
        if (!m.defaults[i]) throw HarnessError{"missing argument " + m.names[i]};
        a.v[i] = *m.defaults[i];
    }
}
// the C++ side, with the disk faults of the call but always enough memory
static Res callTwin(const Method & m, PyObj & o, Args & a, const Faults * f) {
    Res r;
    seam::fsArm(f ? f->fs : std::vector<FsFault>());
    try { r.a = m.f(o, a); r.ok = true; }
    catch (const ArgError &) { r.type = "TypeError"; r.msg = "*"; r.wrongKind = true; }
    catch (const PyRaise & e) { r.type = e.type; r.msg = e.what.empty() ? "*" : e.what; }
    catch (const std::bad_alloc & e) { r.type = "MemoryError"; r.msg = e.what(); }
    catch (const std::bad_cast & e) { r.type = "TypeError"; r.msg = e.what(); }
    catch (const std::bad_typeid & e) { r.type = "TypeError"; r.msg = e.what(); }
    catch (const std::domain_error & e) { r.type = "ValueError"; r.msg = e.what(); }
    catch (const std::invalid_argument & e) { r.type = "ValueError"; r.msg = e.what(); }
    catch (const std::ios_base::failure & e) { r.type = "OSError"; r.msg = e.what(); }
    catch (const std::out_of_range & e) { r.type = "IndexError"; r.msg = e.what(); }
    catch (const std::overflow_error & e) { r.type = "OverflowError"; r.msg = e.what(); }
    catch (const std::range_error & e) { r.type = "ArithmeticError"; r.msg = e.what(); }
    catch (const std::underflow_error & e) { r.type = "ArithmeticError"; r.msg = e.what(); }
    catch (const std::exception & e) { r.type = "RuntimeError"; r.msg = e.what(); }
    seam::fsDisarm();
    return r;
}
static std::string textOf(PyObject * o) {
    PyObject * s = PyObject_Str(o);
    std::string r;
    if (s) {
        PyObject * b = PyUnicode_AsEncodedString(s, "utf-8", "replace");
        if (b) { r.assign(PyBytes_AS_STRING(b), (size_t) PyBytes_GET_SIZE(b)); Py_DECREF(b); }
        Py_DECREF(s);
    }
    PyErr_Clear();
    return r;
}
// The code Cython generates to convert arguments and results does not expect
// to run out of memory: such a process ends, whatever the library does. Only
// faults below a function of the library are its matter.
static bool faultInLibrary = false;
struct LostInterpreter { };
struct EndOfRun { };
static void whereFault() {
    bool old = seam::inSut;
    seam::inSut = false;
    void * f[200];
    int n = backtrace(f, 200);
    faultInLibrary = false;
    for (int i = 0; i < n && !faultInLibrary; i++) {
        Dl_info d;
        if (!dladdr((char *) f[i] - 1, &d) || !d.dli_sname) continue;
        faultInLibrary = strncmp(d.dli_sname, "_ZN4fisx", 8) == 0 || strncmp(d.dli_sname, "_ZNK4fisx", 9) == 0;
    }
    seam::inSut = old;
}
// the Python side
static PyObject * rawPy(World & w, const std::string & cls, PyObject * self, const std::string & method, const Val & pos, const Val & kw,
                        Ctx & cx, const Faults * f, long allocAt, Outcome & o, Res & r) {
    PyObject * fn = self ? PyObject_GetAttrString(self, method.c_str()) : PyObject_GetAttrString(package, cls.c_str());
    if (!fn) { std::string e = textOf(PyErr_GetRaisedException()); throw Violation{"missing", "there is no " + cls + "." + method + ": " + e}; }
    Val tuple = pos;
    tuple.k = '(';
    PyObject * args = toPy(w, tuple), * kws = kw.m.size() ? toPy(w, kw) : nullptr, * out = nullptr;
    Ans before, after;
    arraysToo = true;
    flatPy(before, args, false);
    if (kws) flatPy(before, kws, false);
    arraysToo = false;
    o = cx.sut([&]() { out = PyObject_Call(fn, args, kws); }, f, allocAt);
    PyObject * raised = PyErr_GetRaisedException();
    arraysToo = true;
    flatPy(after, args, false);
    if (kws) flatPy(after, kws, false);
    arraysToo = false;
    std::string changed = differ(after, before, 0);
    Py_DECREF(args);
    Py_XDECREF(kws);
    Py_DECREF(fn);
    if (o.threw && o.badalloc && seam::allocFired && !faultInLibrary) throw LostInterpreter();
    if (o.threw) throw Violation{"escaped-exception", "a C++ exception went through the interpreter: " + o.what};
    if (!changed.empty()) throw Violation{"argument-changed", cls + "." + method + " changed what it was given: " + changed};
    PyObject * e = raised;
    if (out && e) throw Violation{"interpreter-state", "a result together with the exception " + textOf(e)};
    if (!out && !e) throw Violation{"interpreter-state", "neither a result nor an exception"};
    if (!out) {
        r.ok = false;
        r.type = Py_TYPE(e)->tp_name;
        r.msg = textOf(e);
        Py_DECREF(e);
        o.ok = false;
        o.threw = true;
        cx.count["python.raised." + r.type]++;
    } else r.ok = true;
    return out;
}
static void compareRes(Ctx & cx, const std::string & what, const Res & py, const Res & cpp) {
    cx.compares++;
    if (py.ok) cx.log(py.a); else cx.note(py.type);
    if (py.ok != cpp.ok) {
        cx.fail(py.ok ? "failure-lost" : "unexpected-failure", what + ": Python " + py.text() + ", the library " + cpp.text());
    }
    if (!py.ok) {
        bool same = cpp.msg == "*" ? py.type == cpp.type : (py.type == cpp.type && py.msg == cpp.msg);
        if (!same) cx.fail("wrong-exception", what + ": Python " + py.text() + ", the library " + cpp.text());
        return;
    }
    std::string d = differ(py.a, cpp.a, 1e-12);
    if (!d.empty()) cx.fail("wrong-answer", what + ": " + d);
}
static const Method & methodOf(const std::string n) {
    auto it = methods.find(n);
    if (it == methods.end()) throw HarnessError{"unknown method " + n};
    return it->second;
}
static Val list(std::initializer_list<Val> l) { Val v; v.k = '['; v.l = l; return v; }
static Val none(char k) { Val v; v.k = k; return v; }
static Val str(const std::string & s) { Val v; v.k = 's'; v.s = s; return v; }
static Val dbl(double d) { Val v; v.k = '#'; v.d = d; return v; }

// a question to both
static void ask(World & w, Ctx & cx, PyObj & o, const std::string & method, const Val & pos) {
    const Method & m = methodOf(o.cls + "." + method);
    Outcome oc;
    Res p;
    PyObject * out = rawPy(w, o.cls, o.py, method, pos, none('{'), cx, nullptr, 0, oc, p);
    if (out) { flatPy(p.a, out, m.bytesOk); spoil(out); Py_DECREF(out); }
    Args a(w);
    bind(m, pos, none('{'), a);
    compareRes(cx, o.cls + "." + method + " afterwards", p, callTwin(m, o, a, nullptr));
}
// everything that can be seen of an object
static void look(World & w, Ctx & cx, PyObj & o, bool deep) {
    auto q = [&](const char * n, std::initializer_list<Val> l = {}) { ask(w, cx, o, n, list(l)); };
    if (o.cls == "Elements") {
        q("getElementNames"); q("getMaterialNames");
        q("isEscapeCacheEnabled");
        for (auto s : {"K", "L", "M"}) { q("getShellConstantsFile", {str(s)}); q("getShellRadiativeTransitionsFile", {str(s)}); q("getShellNonradiativeTransitionsFile", {str(s)}); }
        VS mats = o.t<Elements>().getMaterialNames();
        for (auto & n : mats) q("getComposition", {str(n)});
        for (auto e : {"Fe", "Pb", "O"}) {
            q("getMassAttenuationCoefficients", {str(e), list({dbl(3.3), dbl(20.0)})});
            q("isCacheEnabled", {str(e)});
            if (o.sizes) q("getCacheSize", {str(e)});
            q("getEmittedXRayLines", {str(e), dbl(60.0)});
            if (!deep) continue;
            q("getBindingEnergies", {str(e)});
            for (auto s : {"K", "L3", "M5"}) { q("getShellConstants", {str(e), str(s)}); q("getRadiativeTransitions", {str(e), str(s)}); }
            q("getExcitationFactors", {str(e), dbl(30.0)});
        }
    } else if (o.cls == "Element") {
        q("getAtomicNumber"); q("getBindingEnergies"); q("getMassAttenuationCoefficients");
        for (auto s : {"K", "L1", "L3", "M1"}) { q("getRadiativeTransitions", {str(s)}); q("getNonradiativeTransitions", {str(s)}); q("getShellConstants", {str(s)}); }
    } else if (o.cls == "Shell") {
        for (auto n : {"getAugerRatios", "getCosterKronigRatios", "getFluorescenceRatios", "getRadiativeTransitions", "getNonradiativeTransitions", "getShellConstants"}) q(n);
    } else if (o.cls == "Material") { q("getName"); q("getComposition"); }
    else if (o.cls == "Detector") {
        for (auto n : {"getActiveArea", "getDiameter", "getDistance", "getEscapePeakEnergyThreshold", "getEscapePeakIntensityThreshold", "getEscapePeakNThreshold", "getEscapePeakAlphaIn", "getThickness", "getDensity"}) q(n);
    } else if (o.cls == "TransmissionTable") { q("getName"); q("getComment"); q("getTransmissionTable"); q("getTransmission", {list({dbl(0.5), dbl(7.0), dbl(30.0)})}); }
    else if (o.cls == "Beam") q("getBeamAsDoubleVectors");
    else if (o.cls == "SimpleSpecfile") q("getNumberOfScans");
    else if (o.cls == "SimpleIni") q("getKeys");
    else if (o.cls == "EPDL97") { Val z = dbl(26); z.integer = true; q("getBindingEnergies", {z}); q("getPhotoelectricWeights", {z, dbl(12.0)}); }
    else if (o.cls == "XRF") q("getGeometricEfficiency");
    // what needs a library
    if (o.cls != "Layer" && o.cls != "Detector" && o.cls != "XRF") return;
    for (auto & s : slots<PyObj>(w, "py")) if (s.second->cls == "Elements") {
        Val l = none('$');
        l.s = s.first;
        if (o.cls == "XRF") { if (deep) q("getMultilayerFluorescence", {list({str("Fe"), str("Cr K")}), l}); }
        else { q("getComposition", {l}); if (deep) q("getTransmission", {list({dbl(5.5), dbl(17.0)}), l}); }
        break;
    }
}
static bool cacheCall(const std::string & m) { return m == "fillCache" || m == "updateCache" || m == "setCacheEnabled" || m == "clearCache" || m == "getMultilayerFluorescence" || m == "getFluorescence"; }

// method "" creates an object
static void perform(World & w, Ctx & cx, const std::string & name, const std::string & cls, const std::string & method, const Val & pos, const Val & kw, const Faults & faults) {
    const Method & m = methodOf(method.empty() ? cls : cls + "." + method);
    const std::string what = cls + (method.empty() ? "()" : "." + method);
    Args a(w);
    bind(m, pos, kw, a);
    PyObj * self = slot<PyObj>(w, "py", name);
    bool fired = false;
    auto attempt = [&](const Faults * f, long allocAt) -> bool {
        Outcome o;
        fired = false;
        Res p, c;
        PyObject * out = rawPy(w, cls, method.empty() ? nullptr : self->py, method, pos, kw, cx, f, allocAt, o, p);
        if (out && !method.empty()) { flatPy(p.a, out, m.bytesOk); spoil(out); Py_DECREF(out); out = nullptr; }
        if (out) p.a = nothing();
        fired = seam::allocFired > 0;
        if (fired && !p.ok) {
            // reported as a failure of the call: nothing may have happened
            cx.count["reported.failure"]++;
            cx.state(what + " runs out of memory");
            cx.compares++;
            if (self && cacheCall(method)) self->sizes = false;
            if (cacheCall(method)) for (auto & s : slots<PyObj>(w, "py")) if (s.second->cls == "Elements") s.second->sizes = false;
            if (p.type == "SystemError") cx.fail("interpreter-state", what + ": " + p.text());
            if (self && !method.empty()) look(w, cx, *self, cls != "XRF");
            return false;
        }
        std::unique_ptr<PyObj> made;
        PyObj * t = self;
        if (method.empty()) { made.reset(new PyObj()); made->cls = cls; made->py = out; t = made.get(); }
        c = callTwin(m, *t, a, f);
        if (c.wrongKind) {
            // to be refused in some way, or to be understood in some way nothing is known about
            cx.count[p.ok ? "python.lenient" : "python.refused"]++;
            if (p.type == "SystemError" || p.type == "MemoryError") cx.fail("wrong-exception", what + " with an argument of the wrong kind: " + p.text());
            if (p.ok) throw EndOfRun();
            if (self && !method.empty()) look(w, cx, *self, false);
            return true;
        }
        cx.count[(p.ok ? "answered." : "raised.") + what]++;
        cx.state(what + (p.ok ? " answers " : " raises " + p.type) + (fired ? " allocation" : f && f->fs.size() ? " disk" : ""));
        compareRes(cx, what + (f && f->any() ? " with an injected fault" : ""), p, c);
        if (method.empty()) {
            if (!p.ok) return false;
            auto & all = slots<PyObj>(w, "py");
            auto it = all.find(name);
            if (it != all.end()) { delete it->second; all.erase(it); }
            self = all[name] = made.release();
        } else if (!p.ok) look(w, cx, *self, false);
        return p.ok;
    };
    if (faults.sweep) {
        long n = faults.sweep;
        for (int k = 0; k < 12; k++, n += faults.stride) {
            if (attempt(nullptr, n)) return;
            if (!fired) return;
        }
    } else if (faults.any()) {
        if (attempt(&faults, 0) || !faults.retry) return;
    }
    attempt(nullptr, 0);
}
static void dropBase() { for (auto & b : theBase) { delete b; b = nullptr; } }

SIM_OP(pyBase, "py.base") {
    (void) cx;
    int k = (int) op.i(1);
    if (!theBase[k]) return;
    auto & all = slots<PyObj>(w, "py");
    auto it = all.find(op.s(0));
    if (it != all.end()) { delete it->second; all.erase(it); }
    all[op.s(0)] = theBase[k];
    theBase[k] = nullptr;
}
static void performs(World & w, Ctx & cx, const std::string & name, const std::string & cls, const std::string & method, const Val & pos, const Val & kw, const Faults & faults) {
    try { perform(w, cx, name, cls, method, pos, kw, faults); }
    catch (const LostInterpreter &) { cx.count["interpreter.lost.in.conversion"]++; cx.stop = true; }
    catch (const EndOfRun &) { cx.stop = true; }
}
SIM_OP(pyNew, "py.new") { performs(w, cx, op.s(0), op.s(1), "", parseVal(op.s(2)), op.has(3) ? parseVal(op.s(3)) : none('{'), op.f); cx.mutations++; }
// an object the plan names may be missing when creating it failed
static bool present(World & w, const Val & v) {
    if (v.k == '$') return slot<PyObj>(w, "py", v.s) != nullptr;
    if (v.k == '&') return slot<Kept>(w, "kept", v.s) != nullptr;
    for (auto & x : v.l) if (!present(w, x)) return false;
    for (auto & x : v.m) if (!present(w, x.second)) return false;
    return true;
}
SIM_OP(pyCall, "py.call") {
    PyObj * o = slot<PyObj>(w, "py", op.s(0));
    Val pos = op.has(2) ? parseVal(op.s(2)) : none('['), kw = op.has(3) ? parseVal(op.s(3)) : none('{');
    if (!o || !present(w, pos) || !present(w, kw)) return;
    if (!o->sizes && op.s(1) == "getCacheSize") return;   // a call without memory may have kept part of its work
    performs(w, cx, op.s(0), o->cls, op.s(1), pos, kw, op.f);
    cx.mutations += op.s(1).compare(0, 3, "get") != 0;
}
// a container is created, or changed in place
SIM_OP(pyKeep, "py.keep") {
    (void) cx;
    Val v = parseVal(op.s(1));
    if (!present(w, v) || (v.k != '[' && v.k != '{')) return;
    auto & all = slots<Kept>(w, "kept");
    Kept * k = slot<Kept>(w, "kept", op.s(0));
    PyObject * o = toPy(w, v);
    if (k && k->v.k == v.k) {
        if (v.k == '{') { PyDict_Clear(k->py); PyDict_Update(k->py, o); }
        else PyList_SetSlice(k->py, 0, PyList_GET_SIZE(k->py), o);
        Py_DECREF(o);
    } else {
        delete k;
        k = all[op.s(0)] = new Kept();
        k->py = o;
    }
    k->v = v;
}
SIM_OP(pyDel, "py.del") { (void) cx; dropSlot<PyObj>(w, "py", op.s(0)); }
SIM_OP(pyCheck, "py.check") { PyObj * o = slot<PyObj>(w, "py", op.s(0)); if (o) look(w, cx, *o, true); }
// after the last object is gone the library holds no memory and no file
SIM_OP(pyLeak, "py.leak") {
    (void) op;
    auto & all = slots<PyObj>(w, "py");
    for (auto & s : all) look(w, cx, *s.second, true);
    for (auto & s : all) delete s.second;
    all.clear();
    auto & kept = slots<Kept>(w, "kept");
    for (auto & s : kept) delete s.second;
    kept.clear();
    dropBase();
    PyGC_Collect();
    cx.compares++;
    if (seam::taggedBlocks != 0) cx.fail("memory-leak", std::to_string(seam::taggedBlocks) + " blocks (" + std::to_string(seam::taggedBytes) + " bytes) are still allocated after the last Python object is gone");
    if (seam::fsCounts().openFds != 0) cx.fail("fd-leak", "files are still open after the last Python object is gone");
}

static void pyDie(const char * what) { fprintf(stderr, "python: %s\n", what); if (PyErr_Occurred()) PyErr_Print(); exit(3); }
static void startPython() {
    const char * program = getenv("SIM_PYTHON"), * dir = getenv("SIM_PYPKG");
    if (!program || !dir) pyDie("SIM_PYTHON and SIM_PYPKG are needed");
    PyImport_AppendInittab("fisx._fisx", PyInit__fisx);
    PyConfig config;
    PyConfig_InitIsolatedConfig(&config);
    config.use_hash_seed = 1;
    config.hash_seed = 0;
    config.write_bytecode = 0;
    config.install_signal_handlers = 0;
    PyStatus st = PyConfig_SetBytesString(&config, &config.program_name, program);
    if (!PyStatus_Exception(st)) st = PyConfig_SetBytesString(&config, &config.executable, program);
    if (!PyStatus_Exception(st)) st = Py_InitializeFromConfig(&config);
    if (PyStatus_Exception(st)) pyDie(st.err_msg ? st.err_msg : "cannot start the interpreter");
    PyConfig_Clear(&config);
    // the installed data directory is the one of the simulated disk
    std::string boot = std::string(
        "import sys, os.path\n"
        "sys.path.insert(0, '") + dir + "')\n"
        "real = os.path.exists\n"
        "os.path.exists = lambda p: True if str(p).startswith('/sim/') else real(p)\n"
        "import fisx.DataDir\n"
        "os.path.exists = real\n"
        "import fisx, numpy, gc\n"
        "sys.modules['PyMca5'] = None\n"
        "gc.collect(); gc.freeze()\n";
    if (PyRun_SimpleString(boot.c_str())) pyDie("cannot import the package");
    package = PyImport_ImportModule("fisx");
    PyObject * np = PyImport_ImportModule("numpy");
    if (!package || !np) pyDie("cannot import the package");
    numpyArray = PyObject_GetAttrString(np, "array");
    Py_DECREF(np);
    registerMethods();
    whereFault();
    seam::onAllocFault = whereFault;
    World w;
    for (int k = 0; k < 2; k++) {
        PyObj * o = new PyObj();
        o->cls = "Elements";
        PyObject * cls = PyObject_GetAttrString(package, "Elements");
        PyObject * kw = k ? Py_BuildValue("{s:i}", "pymca", 1) : PyDict_New(), * args = PyTuple_New(0);
        o->py = PyObject_Call(cls, args, kw);
        Py_DECREF(cls); Py_DECREF(kw); Py_DECREF(args);
        if (!o->py) { std::string e = textOf(PyErr_GetRaisedException()); throw std::runtime_error("from Python: " + e); }
        if (k) o->twin.reset(new Elements("/sim/data", (short) 1));
        else o->twin.reset(new Elements("/sim/data"));
        theBase[k] = o;
    }
}
static struct Hook { Hook() { pythonHook = startPython; } } hook;
}
