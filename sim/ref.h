// An independent, small and slow model of the physics of the library: answers
// computed from the accepted data only, without any code of the library.
#ifndef SIM_REF_H
#define SIM_REF_H
#include "core.h"
#include <memory>
namespace ref {
using sim::MSD;
using sim::MSV;
using sim::VD;
using sim::VS;
typedef std::map<std::string, MSD> MMD;

struct No : std::runtime_error { No(const std::string & w) : std::runtime_error(w) {} };  // no answer expected

struct El {
    std::string name;
    int z = 1;
    double mass = 0;
    MSD be;
    MSV mu;                                // the accepted table, empty if there is none
    std::map<std::string, VD> pe, pv;      // partial photoelectric tables
    std::map<std::string, MSD> rad, non, con;
    El() {}
    El(const std::string & n, int z);
    void setBe(const MSD & m);
    void setMu(const VD & e, const VD & p, const VD & c, const VD & i, VD x);
    void setPart(const std::string & shell, const VD & e, const VD & v);
    void setRad(const std::string & shell, const MSD & m);
    void setNon(const std::string & shell, const MSD & m);
    void setCon(const std::string & shell, const MSD & m);
    bool has(const std::string & shell) const { return con.count(shell) > 0; }

    MSD partials(double e) const;
    MSD mu1(double e) const;
    double total(double e) const { return mu1(e)["total"]; }
    MSD vacancies(double e) const;
    VS excited(double e) const;
    double omega(const std::string & shell) const;
    MSD fluorescence(const std::string & shell) const;
    MSD auger(const std::string & shell) const;
    MMD costerKronig(const std::string & shell) const;
    MSD transfer(const std::string & from, const std::string & to) const;
    double energy(const std::string & line) const;
    MSD cascade(const MSD & d) const;
    MMD lines(const MSD & d, bool cascade, bool yield) const;
    MMD excitation(double e, double w) const;
    MSD emitted(double e) const;
    std::map<std::string, std::pair<double, int> > edges(const VD & e, const VD & p) const;
};
typedef std::shared_ptr<const El> CRef;

struct Scan { VS labels; std::vector<VD> rows; };
struct Photo { std::vector<MSD> be; std::vector<MSV> mu; };   // by atomic number - 1
struct Mat { std::string name; MSD comp; };

struct Lib {
    std::shared_ptr<const Photo> photo;
    std::map<std::string, CRef> el;
    VS order;
    const El & get(const std::string & n) const;
    bool has(const std::string & n) const { return el.count(n) > 0; }
    void setMu(const std::string & name, const VD & e, const VD & p, const VD & c, const VD & i, const VD & x);
    void conFile(const std::string & main, const std::vector<Scan> & s);
    void radFile(const std::string & main, const std::vector<Scan> & s, bool radiative);
    void macFile(const std::vector<Scan> & s);

    MSD formula(const std::string & f) const;       // mass fractions, empty if it is none
    MSD composition(const std::string & name, const std::vector<Mat> & own, const std::vector<Mat> & extra, bool useExtra, int depth = 0) const;
    MSD mixture(const MSD & comp, double e) const;  // elemental composition
    MMD escape(const MSD & comp, double e, double intensity, double alpha, double thickness, MSD * margin = nullptr) const;
    std::vector<std::pair<std::string, double> > families(const VS & names, double e) const;
};
// a configuration and the intensities expected from it
struct Layer { std::string name; MSD comp; bool own = false; double density = 0, thickness = 0, funny = 1; };
struct Conf {
    VD e, w;
    std::vector<Layer> filters, sample, attenuators;
    std::vector<std::map<double, double> > userFilters, userAttenuators;
    std::vector<Mat> materials;
    int reference = 0;
    Layer detector;
    double diameter = 0, distance = 10, escapeIntensity = 1e-7, in = 45, out = 45;
};
typedef std::map<std::string, std::map<int, std::map<std::string, MSD> > > Emission;
struct Request { VS el, fam; std::vector<int> layers; int secondary = 0, geo = 1, mass = 0; double limit = 0; };
struct Fluo {
    const Lib & l;
    const std::vector<Mat> & own;
    const Conf & c;
    Emission slack;         // how much the secondary terms may differ
    bool close = false;                 // too near to a threshold to tell
    std::map<const Layer *, MSD> compositions;
    std::map<std::pair<const Layer *, double>, MSD> mus;
    std::map<std::pair<std::string, double>, MMD> exc;
    std::map<double, MMD> escapes;
    Fluo(const Lib & lib, const std::vector<Mat> & m, const Conf & k) : l(lib), own(m), c(k) {}
    const MSD & composition(const Layer & y);
    bool strange(const Layer & y);
    bool unusable();                    // no attenuation at a line of some element of the sample
    const MSD & mu(const Layer & y, double e);
    double transmission(const Layer & y, double e, double angle);
    double geometric(int layer) const;
    double threshold(const std::string & el, const std::string & fam) const;
    const MMD & excitation(const std::string & el, double e);
    Emission run(const Request & r);
};
double tableValue(const std::map<double, double> & t, double x);
// texts that certainly are no formula: -1, formulas: 1, anything else: 0
int parse(const std::string & f, MSD & atoms);
// set when an answer depends on rounding or on tables that are not numbers
extern thread_local bool vague;
Photo readPhoto(const Scan & be, const std::vector<Scan> & mu);
}
#endif
