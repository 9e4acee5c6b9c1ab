// Intensities of samples made of layers, from the definition of the process:
// what the beam excites, what the radiation of the sample excites, what is seen.
#include "ref.h"
#include <algorithm>
#include <cmath>
namespace ref {
static const double PI = 3.14159265358979323846;
static double sine(double degrees) { return std::sin(degrees * PI / 180); }
double tableValue(const std::map<double, double> & t, double x) {
    if (t.empty()) return 1;
    auto hi = t.lower_bound(x);
    if (hi == t.begin()) return hi->second;
    if (hi == t.end()) return t.rbegin()->second;
    auto lo = std::prev(hi);
    return lo->second + (hi->second - lo->second) * (x - lo->first) / (hi->first - lo->first);
}
const MSD & Fluo::composition(const Layer & y) {
    auto i = compositions.find(&y);
    if (i != compositions.end()) return i->second;
    MSD r;
    bool detector = &y == &c.detector;      // it knows nothing of the materials of the configuration
    if (y.own) {
        double t = 0;
        for (auto & x : y.comp) {
            MSD s = l.composition(x.first, own, c.materials, !detector);
            if (s.empty()) throw No("composition");
            for (auto & z : s) r[z.first] += z.second * x.second;
            t += x.second;
        }
        if (!(t > 0)) throw No("composition");
        for (auto & x : r) x.second /= t;
    } else r = l.composition(y.name, own, c.materials, !detector);
    if (r.empty()) throw No("composition");
    return compositions[&y] = r;
}
bool Fluo::strange(const Layer & y) {
    try {
        for (auto & x : composition(y)) {
            const El & e = l.get(x.first);
            for (auto * m : {&e.mu, &e.pe, &e.pv}) for (auto & v : *m) for (double d : v.second) if (!std::isfinite(d) || d < 0) return true;
        }
    } catch (const No &) {}
    return false;
}
bool Fluo::unusable() {
    try {
        for (auto & y : c.sample) for (auto & x : composition(y)) {
            const MSD & be = l.get(x.first).be;
            for (auto & a : be) if (a.second > 0) {
                for (auto & z : c.sample) mu(z, a.second);
                for (auto & b : be) if (b.second < a.second) for (auto & z : c.sample) mu(z, a.second - b.second);
            }
        }
    } catch (const No &) { return true; }
    return vague;
}
const MSD & Fluo::mu(const Layer & y, double e) {
    auto k = std::make_pair(&y, e);
    auto i = mus.find(k);
    if (i != mus.end()) return i->second;
    return mus[k] = l.mixture(composition(y), e);
}
double Fluo::transmission(const Layer & y, double e, double angle) {
    double m = y.density * y.thickness / (angle == 90 ? 1 : std::fabs(sine(angle)));
    if (!(m > 0)) throw No("no thickness");
    return 1 - y.funny + y.funny * std::exp(-m * mu(y, e).at("total"));
}
double Fluo::geometric(int layer) const {
    if (c.diameter == 0) return 1;
    double d = c.distance;
    if (d == 0 && layer == 0) return 0.5;
    int a = std::min(layer, c.reference), b = std::max(layer, c.reference);
    double between = 0;
    for (int i = a; i < b; i++) between += c.sample.at((size_t) i).thickness / sine(c.out);
    d += layer > c.reference ? between : -between;
    double r = c.diameter / 2;
    return 0.5 * (1 - d / std::sqrt(d * d + r * r));
}
double Fluo::threshold(const std::string & el, const std::string & fam) const {
    const MSD & b = l.get(el).be;
    auto of = [&](const std::string & s) { auto i = b.find(s); return i == b.end() ? 0.0 : i->second; };
    if (fam == "K" || fam.size() == 2) return of(fam);
    if (fam == "L" || fam == "M") for (int i = fam == "L" ? 3 : 5; i > 0; i--) { double x = of(fam + std::to_string(i)); if (x > 0) return x; }
    return 0;
}
const MMD & Fluo::excitation(const std::string & el, double e) {
    auto k = std::make_pair(el, e);
    auto i = exc.find(k);
    if (i != exc.end()) return i->second;
    return exc[k] = l.get(el).excitation(e, 1);
}
typedef double LD;
// integral of exp(-s x), x from 0 to t
static LD G(LD s, LD t) {
    LD z = s * t;
    if (std::fabs((double) z) < 1e-9) return t * (1 - z / 2);
    return -std::expm1(-z) / s;
}
static LD dG(LD s, LD t) {
    LD z = s * t;
    if (std::fabs((double) z) < 1e-4) return -t * t * (0.5 - z / 3 + z * z / 8);
    return (t * std::exp(-z) - G(s, t)) / s;
}
static LD divided(LD a, LD b, LD t) {     // (G(a) - G(b)) / (a - b)
    if (std::fabs((double) (a - b)) < 1e-5 * std::fabs((double) (a + b))) return dG((a + b) / 2, t);
    return (G(a, t) - G(b, t)) / (a - b);
}
// all the directions of an isotropic emission, as exp(-x) of the cosine; what is
// further away than "steep" absorption lengths is only seen close to the normal
template<class F> static LD directions(F f, LD length, LD steep) {
    static const LD X[4] = {0.1834346424956498, 0.5255324099163290, 0.7966664774136267, 0.9602898564975363};
    static const LD W[4] = {0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763};
    LD sum = 0, h = 2 / (2 + (steep < 0 ? 0 : steep < 1e4 ? steep : 1e4));
    for (LD a = 0; a < length; a += h, h = std::min((LD) 1, 1.5 * h)) for (int k = 0; k < 4; k++) for (int s = -1; s <= 1; s += 2)
        sum += h * 0.5 * W[k] * f(std::exp(a + h * 0.5 * (1 + s * X[k])));
    return sum;
}
static LD depth(LD smallest) { return 16 + std::max((LD) 0, -std::log(std::max(smallest, (LD) 1e-12))); }
// emission and excitation in the same layer: 1 / cosine is k
static double same(LD p, LD q, LD mu, LD t) {
    return (double) directions([&](LD k) {
        LD a = mu * k;
        // fluorescence deeper than emission, and the other way round
        return -divided(q + a, p + q, t) - divided(p + a, p + q, t);
    }, depth(mu / (1 / t + p + q)), 0);
}
// emission below the layer that is excited
static double below(LD p, LD q, LD mu1, LD t1, LD between, LD mu2, LD t2) {
    return (double) directions([&](LD k) {
        LD a = mu1 * k, e = between * k;
        // along the layer excited, from its lower side
        LD up = std::exp(-q * t1) * G(a - q, t1);
        if (a < q) up = std::exp(-a * t1) * G(q - a, t1);
        return e > 11000 ? 0.0 : up * std::exp(-e) * G(p + mu2 * k, t2);
    }, depth(std::max(mu1 * t1, mu2 * t2)), between + mu1 * t1 + mu2 * t2);
}
// emission above it
static double above(LD p, LD q, LD mu1, LD t1, LD between, LD mu2, LD t2) { return below(q, p, mu2, t2, between, mu1, t1); }

static std::string at(size_t layer) { char where[8]; snprintf(where, sizeof where, " %02d", (int) layer); return where; }
struct Source { std::string name; double energy, rate; };
Emission Fluo::run(const Request & r) {
    double si = sine(c.in), so = sine(c.out);
    size_t n = c.sample.size();
    for (auto & y : c.sample) composition(y);
    VD w = c.w;
    for (size_t k = 0; k < c.e.size(); k++) {
        for (auto & f : c.filters) w[k] *= transmission(f, c.e[k], 90);
        for (auto & f : c.userFilters) w[k] *= tableValue(f, c.e[k]);
    }
    bool detector = c.detector.own || c.detector.name.size();
    Emission out;
    for (size_t k = 0; k < c.e.size(); k++) {
        double E = c.e[k];
        VD reach(n, 1.0), depths(n, 0.0), muIn(n);
        for (size_t i = 0; i < n; i++) {
            const Layer & y = c.sample[i];
            muIn[i] = mu(y, E).at("total");
            depths[i] = y.density * y.thickness;
            if (i + 1 < n) reach[i + 1] = reach[i] * std::exp(-depths[i] * muIn[i] / si);
        }
        // what the layers emit
        std::vector<std::vector<Source> > source(n);
        if (r.secondary > 0) for (size_t j = 0; j < n; j++) {
            for (auto & m : composition(c.sample[j])) {
                const El & el = l.get(m.first);
                const MMD & x = excitation(m.first, E);
                for (auto & s : el.excited(E)) {
                    if (!el.has(s) || !(el.omega(s) > 0)) continue;
                    for (auto & line : x) {
                        if (line.first.compare(0, s.size(), s)) continue;
                        double v = line.second.at("rate");
                        if (!(v * m.second > 0)) continue;
                        if (r.limit > 0) { if (std::fabs(v / r.limit - 1) < 1e-6) close = true; if (v < r.limit) continue; }
                        source[j].push_back(Source{m.first + " " + line.first, line.second.at("energy"), v * m.second * w[k] * reach[j]});
                    }
                }
            }
            source[j].push_back(Source{"coherent scattering", E, w[k] * reach[j] * mu(c.sample[j], E).at("coherent")});
        }
        for (size_t q = 0; q < r.el.size(); q++) {
            const std::string & el = r.el[q], & fam = r.fam[q], key = el + " " + fam;
            int only = r.layers.size() > 1 ? r.layers[q] : r.layers[0];
            double thr = threshold(el, fam.substr(0, 1));
            if (thr > E) continue;
            MMD first = excitation(el, E);
            for (size_t i = 0; i < n; i++) {
                if (only >= 0 && only != (int) i) continue;
                const Layer & y = c.sample[i];
                const MSD & comp = composition(y);
                double fraction = comp.count(el) ? comp.at(el) : 0, factor = r.mass ? fraction : 1;
                if (factor == 0) continue;
                for (auto & line : first) {
                    const std::string & t = line.first;
                    bool mine = fam == "Ka" ? t.compare(0, 2, "KL") == 0 : fam == "Kb" ? t[0] == 'K' && t[1] != 'L' : t.compare(0, fam.size(), fam) == 0;
                    if (!mine || !(line.second.at("factor") * w[k] > 0)) continue;
                    double e = line.second.at("energy"), muOut = mu(y, e).at("total");
                    MSD & o = out[key][(int) i][t];
                    double efficiency = 1;
                    for (size_t a = 0; a < i; a++) efficiency *= transmission(c.sample[a], e, c.out);
                    for (auto & a : c.attenuators) efficiency *= transmission(a, e, 90);
                    for (auto & a : c.userAttenuators) efficiency *= tableValue(a, e);
                    if (r.geo) efficiency *= geometric((int) i);
                    MMD esc;
                    double escaped = 0;
                    if (detector) {
                        if (c.detector.density > 0 && c.detector.thickness > 0) efficiency *= 1 - transmission(c.detector, e, 90);
                        if (!escapes.count(e)) {
                            MSD margin;
                            escapes[e] = l.escape(composition(c.detector), e, c.escapeIntensity, 90, 0, &margin);
                            for (auto & x : margin) if (std::fabs(x.second - 1) < 1e-6) close = true;
                        }
                        esc = escapes[e];
                        for (auto & x : esc) escaped += x.second["rate"];
                    }
                    o["efficiency"] = efficiency;
                    o["energy"] = e;
                    o["energy_threshold"] = thr;
                    o["mu_1_i"] = muOut;
                    o["massFraction"] = fraction;
                    double chi = muIn[i] / si + muOut / so;
                    double primary = (double) G(chi, depths[i]) * factor / si * line.second.at("rate") * w[k] * reach[i], secondary = 0, slackSum = 0;
                    for (size_t j = 0; j < n && r.secondary > 0; j++) {
                        if (j != i) {
                            double ratio = reach[j] / reach[i];
                            if (std::fabs(ratio / 1e-4 - 1) < 1e-6) close = true;
                            if (ratio < 1e-4) continue;
                            if (j > i) {
                                double seen = std::exp(-muOut * depths[i] / so);
                                if (std::fabs(seen / 1e-3 - 1) < 1e-6) close = true;
                                if (seen < 1e-3) continue;
                            }
                        }
                        for (auto & s : source[j]) {
                            if (thr > s.energy) continue;
                            const MMD & again = excitation(el, s.energy);
                            auto x = again.find(t);
                            if (x == again.end()) continue;
                            double p = muIn[j] / si, out1 = muOut / so, m1 = mu(y, s.energy).at("total"), m2 = mu(c.sample[j], s.energy).at("total"), between = 0, v;
                            for (size_t b = std::min(i, j) + 1; b < std::max(i, j); b++) between += depths[b] * mu(c.sample[b], s.energy).at("total");
                            // the library neglects it in very thin layers
                            if (i == j && std::fabs((p + out1) * depths[i] / 0.01 - 1) < 1e-6) close = true;
                            if (i == j) v = (p + out1) * depths[i] < 0.01 ? 0 : same(p, out1, m1, depths[i]);
                            else if (j > i) v = below(p, out1, m1, depths[i], between, m2, depths[j]);
                            else v = above(p, out1, m1, depths[i], between, m2, depths[j]);
                            // what its approximations of the exponential integral allow
                            double strength = factor * 0.5 / si * x->second.at("rate") * s.rate;
                            double allowed = strength * (((i == j ? 3e-4 : 1e-5) + (p == m2 ? 1e-5 * p * depths[j] : 0)) * v + 1e-6 * std::exp(-between) / (p * out1));
                            v *= strength;
                            slackSum += allowed;
                            slack[key][(int) i][t][s.name + at(j)] += allowed;
                            o[s.name + at(j)] += v;
                            secondary += v;
                        }
                    }
                    double rate = (primary + secondary) * efficiency;
                    for (auto & x : esc) {
                        MSD & z = out[key][(int) i][t + " " + x.first];
                        z["energy"] = x.second["energy"];
                        z["ratio"] = x.second["rate"];
                        z["rate"] += x.second["rate"] * rate;
                        z["primary"] += x.second["rate"] * primary;
                        z["secondary"] += x.second["rate"] * secondary;
                        MSD & a = slack[key][(int) i][t + " " + x.first];
                        a["secondary"] += x.second["rate"] * slackSum;
                        a["rate"] += x.second["rate"] * slackSum * efficiency;
                    }
                    slack[key][(int) i][t]["secondary"] += slackSum;
                    slack[key][(int) i][t]["rate"] += slackSum * efficiency * (1 - escaped);
                    o["rate"] += rate * (1 - escaped);
                    o["primary"] += primary;
                    o["secondary"] += secondary;
                }
            }
        }
    }
    if (r.secondary < 2) return out;
    // the sources are stronger than the beam alone makes them
    auto factorOf = [&](MSD & x, double allowed, double & error) {
        double p = x["primary"], f = p > 0 ? (p + x["secondary"]) / p : 1;
        error = p > 0 ? allowed / p : 0;
        if (std::fabs(f - 1.01) < 1e-6 + error) close = true;
        return f;
    };
    std::map<std::string, std::pair<double, double> > stronger;
    for (auto & a : out) for (auto & b : a.second) for (auto & d : b.second) {
        if (d.first.find("esc") != std::string::npos) continue;
        if (std::fabs(d.second["massFraction"] - 5e-3) < 1e-8) close = true;
        if (d.second["massFraction"] < 5e-3) continue;
        double error, f = factorOf(d.second, slack[a.first][b.first][d.first]["secondary"], error);
        if (f < 1.01) continue;
        stronger[a.first.substr(0, a.first.find(' ')) + " " + d.first + at((size_t) b.first)] = std::make_pair(f, error);
    }
    for (auto & a : out) for (auto & b : a.second) for (auto & d : b.second) {
        MSD & x = d.second, & z = slack[a.first][b.first][d.first];
        x["tertiary"] = 0;
        double error, f = factorOf(x, z["secondary"], error);
        if (f < 1.01) continue;
        double t = 0, u = 0, sum = x["primary"] + x["secondary"];
        if (d.first.find("esc") != std::string::npos) {
            std::string of = d.first.substr(0, d.first.find(' '));
            MSD & line = b.second[of];
            double k = sum / (line["primary"] + line["secondary"]);
            t = line["tertiary"] * k;
            u = slack[a.first][b.first][of]["tertiary"] * k + t * 2 * z["secondary"] / sum;
        } else for (auto & s : stronger) {
            auto i = x.find(s.first);
            if (i == x.end()) continue;
            t += i->second * (s.second.first - 1);
            u += z[s.first] * (s.second.first - 1) + i->second * s.second.second;
        }
        x["tertiary"] = t;
        z["tertiary"] = u;
        double k = 1 + t / sum;
        z["rate"] = z["rate"] * k + x["rate"] * (u / sum + t * z["secondary"] / (sum * sum));
        x["rate"] *= k;
    }
    return out;
}
}
