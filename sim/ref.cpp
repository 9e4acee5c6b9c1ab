#include "ref.h"
#include <algorithm>
#include <cmath>
#include <cctype>
namespace ref {
static const char * const SH[9] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"};
static std::string up(std::string s) { for (auto & c : s) c = (char) toupper((unsigned char) c); return s; }
static bool starts(const std::string & s, const std::string & p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const std::string & s, const std::string & p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static const double * look(const MSD & m, const std::string & k) { auto i = m.find(k); return i == m.end() ? nullptr : &i->second; }

El::El(const std::string & n, int z_) : name(n), z(z_) {}
void El::setBe(const MSD & m) {
    be = m;
    rad.clear(); non.clear(); con.clear();
    for (const char * s : SH) if (be.count(s)) {
        con[s]["omega"] = 0;
        if (s[0] == 'K') continue;
        for (int j = s[1] - '0' + 1; j <= (s[0] == 'L' ? 3 : 5); j++) con[s][std::string("f") + s[1] + std::to_string(j)] = 0;
    }
}
void El::setMu(const VD & e, const VD & p, const VD & c, const VD & i, VD x) {
    if (x.empty()) x.assign(e.size(), 0.0);
    mu.clear();
    VD t;
    for (size_t k = 0; k < e.size(); k++) t.push_back(p[k] + c[k] + i[k] + x[k]);
    mu["energy"] = e; mu["photoelectric"] = p; mu["coherent"] = c; mu["compton"] = i; mu["pair"] = x; mu["total"] = t;
}
void El::setPart(const std::string & shell, const VD & e, const VD & v) {
    VD ne(e), nv(v);
    const double * b = look(be, shell);
    double edge = b ? *b : 0;
    if (shell != "all other") for (size_t k = 1; k < e.size(); k++) {
        if (ne[k] < edge) nv[k] = 0;               // not excited
        else if (ne[k] == ne[k - 1]) { ne[k] += 1e-6; nv[k - 1] = nv[k]; }   // a step above the edge is no step of this shell
    }
    pe[shell] = ne;
    pv[shell] = nv;
}
void El::setRad(const std::string & shell, const MSD & m) {
    MSD r;
    for (auto & x : m) {
        std::string l = up(x.first);
        if (l.size() == 2) l += "2";
        if (l.size() == 5 && l != "TOTAL") l = l.substr(0, 4);
        r[l] = x.second;
    }
    rad[shell] = r;
}
void El::setNon(const std::string & shell, const MSD & m) {
    MSD r;
    double t = 0;
    for (auto & x : m) r[up(x.first)] = x.second;
    for (auto & x : r) if (x.first != "TOTAL") t += x.second;
    if (!r.count("TOTAL")) r["TOTAL"] = t;
    non[shell] = r;
}
void El::setCon(const std::string & shell, const MSD & m) { for (auto & x : m) con[shell][x.first] = x.second; }

// position of x in an ascending table: the segment used for it
static std::pair<size_t, size_t> segment(const VD & v, double x) {
    if (v.size() < 2) return std::make_pair(0, 0);
    size_t k = 0;
    while (k < v.size() && v[k] < x) k++;
    if (k == v.size()) k--;
    if (k == 0) k = 1;
    // exactly at a step: above it
    if (v[k] == x && k + 1 < v.size() && v[k + 1] == x) k++;
    return std::make_pair(k - 1, k);
}
thread_local bool vague = false;
static double power(double x, double x0, double y0, double x1, double y1) {
    double f = std::log(x / x0) / std::log(x1 / x0);
    // steps continued far away: rounding, also that of the values in the table, decides
    if (!(std::fabs(f) < 500)) vague = true;
    double l0 = y0 > 0 ? std::log(y0) : 0, l1 = y1 > 0 ? std::log(y1) : 0;
    if (!(std::fabs(f) * (x1 / (x1 - x0) * std::fabs(l1 - l0) + std::fabs(l0) + std::fabs(l1)) < 3e8)) vague = true;
    return std::exp((1 - f) * std::log(y0) + f * std::log(y1));
}
// a cross section that can be zero at the beginning of a segment
static double plainValue(const VD & ex, const VD & v, double x, bool last) {
    auto s = segment(ex, x);
    double x0 = ex[s.first], x1 = ex[s.second], y0 = v[s.first], y1 = v[s.second];
    if (!std::isfinite(x0 + x1 + y0 + y1)) vague = true;
    if (s.first == s.second || x1 - x0 < 5e-10) return last ? y1 : y0;
    if (y0 > 0 && y1 > 0) return power(x, x0, y0, x1, y1);
    if (y1 > 0 && x - x0 > 1e-5) return std::exp(std::log(x / x0) / std::log(x1 / x0) * std::log(y1));
    return 0;
}
static double finite(double x) { if (!std::isfinite(x)) throw No("not finite"); return x; }
MSD El::partials(double e) const {
    MSD r;
    for (const char * s : SH) {
        r[s] = 0;
        const double * b = look(be, s);
        auto t = pe.find(s);
        if (!b || *b == 0 || e < *b || t == pe.end() || t->second.empty()) continue;
        const VD & ex = t->second, & v = pv.find(s)->second;
        auto k = segment(ex, e);
        double x0 = ex[k.first], x1 = ex[k.second], y0 = v[k.first], y1 = v[k.second];
        if (!std::isfinite(x0 + x1 + y0 + y1)) vague = true;
        bool same = k.first == k.second || x1 - x0 < 5e-10;
        if (y0 > 0) { r[s] = finite(same ? y0 : power(e, x0, y0, x1, y1)); continue; }
        if (same && x1 - x0 < 5e-10 && y1 > 0) { r[s] = y1; continue; }
        // excited, without value there: continue the first values known downwards
        size_t f = k.first;
        while (f < v.size() && !(v[f] > 0)) f++;
        if (f + 1 >= v.size()) continue;
        if (!same && ex[f + 1] - ex[f] < 1e-10 && f + 2 < v.size()) f++;
        r[s] = finite(power(e, ex[f], v[f], ex[f + 1], v[f + 1]));
    }
    r["all other"] = 0;
    auto t = pe.find("all other");
    if (t != pe.end() && t->second.size()) r["all other"] = finite(plainValue(t->second, pv.find("all other")->second, e, true));
    return r;
}
MSD El::mu1(double e) const {
    auto t = mu.find("energy");
    if (t == mu.end() || t->second.empty()) throw No("no table");
    MSD r;
    bool any = false;
    for (auto & p : pe) if (p.second.size()) any = true;
    if (any) r = partials(e);
    else { for (const char * s : SH) r[s] = 0; r["all other"] = 0; }
    double photo = 0;
    for (auto & x : r) photo += x.second;
    double sum = photo;
    for (const char * k : {"coherent", "compton", "pair"}) { double v = plainValue(t->second, mu.find(k)->second, e, false); r[k] = v; sum += v; }
    r["energy"] = e;
    r["photoelectric"] = photo;
    r["total"] = finite(sum);
    return r;
}
MSD El::vacancies(double e) const {
    MSD m = mu1(e), r;
    double p = m["photoelectric"];
    for (const char * s : SH) r[s] = p > 0 ? m[s] / p : 0;
    r["all other"] = p > 0 ? m["all other"] / p : 0;
    return r;
}
VS El::excited(double e) const {
    VS r;
    for (auto & b : be) if (b.second > 0 && e > b.second) r.push_back(b.first);
    return r;
}
double El::omega(const std::string & s) const {
    auto c = con.find(s);
    if (c == con.end()) throw No("shell");
    return c->second.find("omega")->second;
}
MSD El::fluorescence(const std::string & s) const {
    if (!has(s)) throw No("shell");
    MSD r;
    auto t = rad.find(s);
    if (t == rad.end()) return r;
    double sum = 0;
    for (auto & x : t->second) if (x.first != "TOTAL") sum += x.second;
    for (auto & x : t->second) if (x.first != "TOTAL" && x.second > 0) r[x.first] = x.second / sum;
    return r;
}
// the Coster-Kronig group of a transition, empty for an Auger transition
static std::string group(const std::string & shell, const std::string & transition) {
    if (shell[0] == 'K') return "";
    for (int j = shell[1] - '0' + 1; j <= (shell[0] == 'L' ? 3 : 5); j++)
        if (starts(transition, shell + "-" + shell[0] + std::to_string(j))) return std::string("f") + shell[1] + std::to_string(j);
    return "";
}
MMD El::costerKronig(const std::string & s) const {
    if (!has(s)) throw No("shell");
    MMD r;
    auto t = non.find(s);
    if (t == non.end() || s[0] == 'K') return r;
    for (int j = s[1] - '0' + 1; j <= (s[0] == 'L' ? 3 : 5); j++) r[std::string("f") + s[1] + std::to_string(j)]["TOTAL"] = 0;
    MSD sum;
    for (auto & x : t->second) if (x.second > 0) {
        std::string g = group(s, x.first);
        if (g.size()) { r[g][x.first] = x.second; sum[g] += x.second; }
    }
    for (auto & g : r) for (auto & x : g.second) { if (x.first == "TOTAL") x.second = sum[g.first]; else x.second /= sum[g.first]; }
    return r;
}
MSD El::auger(const std::string & s) const {
    if (!has(s)) throw No("shell");
    MSD r;
    auto t = non.find(s);
    if (t == non.end()) return r;
    double left = t->second.find("TOTAL")->second;
    for (auto & x : t->second) if (x.second > 0 && group(s, x.first).size()) left -= x.second;
    for (auto & x : t->second) if (x.second > 0 && x.first != "TOTAL" && group(s, x.first).empty()) r[x.first] = x.second / left;
    r["TOTAL"] = left;
    return r;
}
MSD El::transfer(const std::string & from, const std::string & to) const {
    if (!has(from) || to.size() != 2) throw No("shell");
    const MSD & c = con.find(from)->second;
    double sum = 0;
    for (auto & x : c) sum += x.second;
    if (sum > 1.0001) throw No("yields");
    MSD r, f = fluorescence(from), a = auger(from);
    MMD ck = costerKronig(from);
    const double * x = look(f, from + to);
    r["fluorescence"] = (x ? *x : 0) * omega(from);
    auto reach = [&](const MSD & m) {
        double t = 0;
        for (auto & y : m) { if (starts(y.first, from + "-" + to)) t += y.second; if (ends(y.first, to)) t += y.second; }
        return t;
    };
    r["auger"] = reach(a) * (1 - sum);
    for (auto & g : ck) { const double * k = look(c, g.first); r[g.first] = reach(g.second) * (k ? *k : 0); }
    return r;
}
double El::energy(const std::string & line) const {
    if (line.size() != 3 && line.size() != 4) throw No("transition");
    const double * to = look(be, line.substr(0, line.size() - 2)), * from = look(be, line.substr(line.size() - 2));
    if (!to || *to <= 0) throw No("shell");
    if (from && *from < 0) throw No("shell");
    return *to - (from && *from > 0 ? *from : 0.003);
}
MSD El::cascade(const MSD & d) const {
    MSD r;
    for (const char * s : SH) if (has(s)) { const double * v = look(d, s); r[s] = v ? *v : 0; }
    for (int i = 0; i < 9; i++) {
        if (!has(SH[i]) || !(r[SH[i]] > 0)) continue;
        for (int j = i + 1; j < 9; j++) {
            if (!has(SH[j])) continue;
            double t = 0;
            for (auto & x : transfer(SH[i], SH[j])) t += x.second;
            r[SH[j]] += t * r[SH[i]];
        }
    }
    return r;
}
MMD El::lines(const MSD & d, bool useCascade, bool yield) const {
    MSD v;
    if (useCascade) v = cascade(d);
    else for (const char * s : SH) if (has(s)) { const double * x = look(d, s); v[s] = x ? *x : 0; }
    MMD r;
    for (auto & s : v) for (auto & l : fluorescence(s.first)) {
        double rate = l.second * s.second * (yield ? omega(s.first) : 1);
        if (!(rate > 0)) continue;
        // the energy from the shell of the vacancy
        const double * to = look(be, s.first), * from = look(be, l.first.substr(l.first.size() - 2));
        if (!to || *to <= 0 || (from && *from < 0)) throw No("shell");
        r[l.first]["rate"] = rate;
        r[l.first]["energy"] = *to - (from && *from > 0 ? *from : 0.003);
    }
    return r;
}
MMD El::excitation(double e, double w) const {
    MMD r = lines(vacancies(e), true, true);
    double p = mu1(e)["photoelectric"];
    for (auto & x : r) { x.second["factor"] = x.second["rate"] * w; x.second["rate"] = x.second["factor"] * p; }
    return r;
}
MSD El::emitted(double e) const {
    MSD r;
    for (const char * s : SH) {
        if (!has(s) || e <= be.find(s)->second || !(omega(s) > 0)) continue;
        for (auto & l : fluorescence(s)) r[l.first] = energy(l.first);
    }
    return r;
}
// the edges found in a table: the highest steps, one for every shell in order
std::map<std::string, std::pair<double, int> > El::edges(const VD & e, const VD & p) const {
    if (p.empty() || e.size() != p.size() || be.empty()) throw No("table");
    std::map<double, int> steps;
    for (size_t i = 0; i + 1 < p.size(); i++) if (e[i] == e[i + 1] && p[i] < p[i + 1]) steps[e[i]] = (int) i;
    std::map<std::string, std::pair<double, int> > r;
    int k = 0;
    for (auto i = steps.rbegin(); i != steps.rend() && k < 9; ++i, ++k) {
        const double * b = look(be, SH[k]);
        if (b && *b > 0 && std::fabs(i->first - *b) < 0.1) r[SH[k]] = *i;
    }
    return r;
}

// ---------------------------------------------------------------- libraries
const El & Lib::get(const std::string & n) const {
    auto i = el.find(n);
    if (i == el.end()) throw No("element " + n);
    return *i->second;
}
Photo readPhoto(const Scan & b, const std::vector<Scan> & mu) {
    Photo r;
    for (auto & row : b.rows) {
        MSD m;
        for (size_t j = 1; j < b.labels.size() && j < row.size(); j++) {
            std::string l = b.labels[j];
            if (l[0] == 'K') l = "K";
            else l = l.substr(0, l.size() > 3 && l[3] == '(' ? 3 : 2);
            m[l] = row[j];
        }
        r.be.push_back(m);
    }
    for (size_t i = 0; i < mu.size(); i++) {
        std::map<std::string, size_t> col;
        for (const char * k : {"energy", "compton", "coherent", "total", "K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"}) {
            std::string want = up(k);
            if (want == "ALL OTHER") want = "ALLOTHER";
            for (size_t j = 0; j < mu[0].labels.size(); j++) {
                std::string l = up(mu[0].labels[j]);
                bool hit = want.size() < 3 ? starts(l, want) : l.find(want) != std::string::npos;
                if (want == "COHERENT" && l.find("INCOHERENT") != std::string::npos) hit = false;
                if (hit) { col[k] = j; break; }
            }
            if (!col.count(k)) throw No("cross section");
        }
        MSV t;
        for (auto & row : mu[i].rows) {
            if (row.size() != mu[0].labels.size()) throw No("row");
            MSD v;
            for (auto & c : col) v[c.first] = row[c.second];
            double photo = v["total"] - v["compton"] - v["coherent"], shells = 0;
            for (const char * s : SH) shells += v[s];
            if (photo > 0) v["all other"] = v["all other"] > 0 && i > 17 ? photo - shells : 0;
            if (v["all other"] < 0) v["all other"] = 0;
            v["photoelectric"] = shells + v["all other"];
            v["pair"] = 0;
            for (auto & x : v) if (x.first != "total") t[x.first].push_back(x.second);
        }
        r.mu.push_back(t);
    }
    return r;
}
template<class T> static const T & upTo(const std::vector<T> & v, int z) { return v[std::min((size_t) z, v.size()) - 1]; }
static VS subshells(const std::string & main) {
    if (main == "K") return VS(1, "K");
    VS r;
    for (int i = 1; i <= (main == "L" ? 3 : 5); i++) r.push_back(main + std::to_string(i));
    return r;
}
void Lib::conFile(const std::string & main, const std::vector<Scan> & s) {
    VS sub = subshells(main);
    for (size_t i = 0; i < sub.size(); i++) for (size_t n = 0; n < s.at(i).rows.size(); n++) {
        MSD m;
        for (size_t j = 0; j < s[i].labels.size(); j++) {
            std::string l = s[i].labels[j];
            if (l == "Z") continue;
            if (l.size() > 4) { if (!starts(l, "omega")) continue; l = "omega"; }
            m[l] = s[i].rows[n][j];
        }
        std::shared_ptr<El> e(new El(get(order.at(n))));
        if (!e->has(sub[i])) throw No("shell");
        e->setCon(sub[i], m);
        el[order[n]] = e;
    }
}
void Lib::radFile(const std::string & main, const std::vector<Scan> & s, bool radiative) {
    VS sub = subshells(main);
    for (size_t i = 0; i < sub.size(); i++) for (size_t n = 0; n < s.at(i).rows.size(); n++) {
        MSD m;
        for (size_t j = 0; j < s[i].labels.size(); j++) if (s[i].labels[j] != "Z") m[s[i].labels[j]] = s[i].rows[n][j];
        const El & old = get(order.at(n));
        const double * b = look(old.be, sub[i]);
        if (!b || *b <= 0) continue;
        std::shared_ptr<El> e(new El(old));
        if (radiative) e->setRad(sub[i], m); else e->setNon(sub[i], m);
        el[order[n]] = e;
    }
}
void Lib::macFile(const std::vector<Scan> & s) {
    for (size_t n = 0; n < s.size(); n++) {
        MSV t;
        for (size_t j = 0; j < s[n].labels.size(); j++) {
            std::string l = up(s[n].labels[j]), k;
            if (l.find("ENERGY") != std::string::npos) k = "energy";
            else if (l.find("PHOTO") != std::string::npos) k = "photoelectric";
            else if (l.find("PAIR") != std::string::npos) k = "pair";
            else if (l.find("COMPTON") != std::string::npos) k = "compton";
            else if (l.find("RAYLEIGH") != std::string::npos) k = "coherent";
            else if (l.find("COHERENT") != std::string::npos && l.find("INCOHERENT") == std::string::npos) k = "coherent";
            else continue;
            VD v;
            for (auto & row : s[n].rows) v.push_back(row.at(j));
            t[k] = v;
        }
        setMu(order.at(n), t["energy"], t["photoelectric"], t["coherent"], t["compton"], t["pair"]);
    }
}
// A supplied table replaces the one of EPDL97 from its first energy on; the
// photoelectric coefficient is shared by the shells as in EPDL97.
void Lib::setMu(const std::string & name, const VD & e, const VD & p, const VD & c, const VD & i, const VD & x) {
    std::shared_ptr<El> r(new El(get(name)));
    const MSV & t = upTo(photo->mu, r->z);
    const VD & te = t.at("energy");
    r->setMu(te, t.at("photoelectric"), t.at("coherent"), t.at("compton"), t.at("pair"));
    for (const char * s : SH) r->setPart(s, te, t.at(s));
    r->setPart("all other", te, t.at("all other"));
    size_t below = 0;
    while (below < te.size() && te[below] < e[0]) below++;
    if (below > 0) below--;
    auto ed = r->edges(e, p);
    VD grid(te.begin(), te.begin() + below);
    for (size_t k = 0; k < e.size(); k++) {
        double v = e[k];
        bool moved = false;
        // the first point above an edge must be able to excite the shell; the last shell checked wins
        for (auto & q : ed) {
            if ((long) k - 1 != q.second.second) continue;
            double b = r->be.at(q.first);
            if (q.second.first < b) { v = b; moved = true; }
        }
        (void) moved;
        if (below > 0 && v < grid.back()) v = grid.back() + 1e-6;
        grid.push_back(v);
    }
    MSV old;
    for (double g : grid) for (auto & y : r->mu1(g)) old[y.first].push_back(y.second);
    MSV now = old;
    auto put = [&](const char * k, const VD & v) { for (size_t j = 0; j < e.size(); j++) now[k][below + j] = v.size() ? v[j] : 0; };
    put("photoelectric", p); put("coherent", c); put("compton", i); put("pair", x);
    auto share = [&](const std::string & s, size_t first) {
        for (size_t j = first; j < grid.size(); j++) {
            double o = old["photoelectric"][j];
            now[s][j] = o > 0 ? p[j - below] * (old[s][j] / o) : 0;
        }
    };
    VS shells(SH, SH + 9);
    shells.push_back("all other");
    if (ed.empty()) for (auto & s : shells) share(s, below);
    else for (auto & q : ed) {
        size_t first = below + (size_t) q.second.second + 1;
        for (size_t j = 0; j < first; j++) now[q.first][j] = 0;
        share(q.first, first);
    }
    r->setMu(grid, now["photoelectric"], now["coherent"], now["compton"], now["pair"]);
    for (auto & s : shells) r->setPart(s, grid, now[s]);
    el[name] = r;
}
// ---------------------------------------------------------------- formulas
namespace {
struct Parser {
    const std::string & s;
    size_t i = 0;
    explicit Parser(const std::string & t) : s(t) {}
    bool number(double & x) {
        size_t b = i;
        int digits = 0, dots = 0;
        while (i < s.size() && (isdigit((unsigned char) s[i]) || s[i] == '.')) { if (s[i] == '.') dots++; else digits++; i++; }
        x = 1;
        if (b == i) return true;
        if (!digits || dots > 1) return false;
        x = strtod(s.substr(b, i - b).c_str(), nullptr);
        return true;
    }
    bool group(MSD & m, int depth) {
        bool any = false;
        while (i < s.size() && s[i] != ')') {
            MSD part;
            double n;
            if (s[i] == '(') {
                i++;
                if (!group(part, depth + 1) || i >= s.size() || s[i] != ')') return false;
                i++;
            } else if (isupper((unsigned char) s[i])) {
                size_t b = i++;
                while (i < s.size() && islower((unsigned char) s[i])) i++;
                part[s.substr(b, i - b)] = 1;
            } else return false;
            if (!number(n)) return false;
            for (auto & x : part) m[x.first] += x.second * n;
            any = true;
        }
        return any && (depth > 0 || i == s.size());
    }
};
}
int parse(const std::string & f, MSD & atoms) {
    Parser p(f);
    atoms.clear();
    if (p.group(atoms, 0)) return 1;
    atoms.clear();
    // certainly none
    if (f.empty() || islower((unsigned char) f[0]) || isdigit((unsigned char) f[0]) || f.find(' ') != std::string::npos || f.find("()") != std::string::npos) return -1;
    int depth = 0;
    for (char c : f) { if (c == '(') depth++; if (c == ')') depth--; if (depth < 0) return -1; }
    if (depth) return -1;
    for (size_t i = 1; i < f.size(); i++) if (f[i] == '-' && (isalpha((unsigned char) f[i - 1]) || f[i - 1] == ')') && i + 1 < f.size() && f[i + 1] >= '1' && f[i + 1] <= '9') return -1;
    // a symbol does not continue after a number or a parenthesis
    for (size_t i = 1; i < f.size(); i++) if (islower((unsigned char) f[i]) && (isdigit((unsigned char) f[i - 1]) || f[i - 1] == ')')) return -1;
    return 0;
}
MSD Lib::formula(const std::string & f) const {
    MSD a, r;
    if (parse(f, a) != 1) return r;
    double t = 0;
    for (auto & x : a) { if (!has(x.first)) return r; t += x.second * get(x.first).mass; }
    if (!(t > 0) || !std::isfinite(t)) return r;
    for (auto & x : a) r[x.first] = x.second * get(x.first).mass / t;
    return r;
}
MSD Lib::composition(const std::string & name, const std::vector<Mat> & own, const std::vector<Mat> & extra, bool useExtra, int depth) const {
    MSD r = formula(name);
    if (r.size()) return r;
    if (depth > 20) throw sim::HarnessError{"cyclic material"};
    const Mat * m = nullptr;
    if (useExtra) for (auto & x : extra) if (x.name == name) { m = &x; break; }
    bool ofLibrary = !m;             // its definition does not depend on the materials given
    if (!m) for (auto & x : own) if (x.name == name) { m = &x; break; }
    if (!m) return r;
    if (m->comp.empty()) throw No("empty material");
    double t = 0;
    for (auto & x : m->comp) t += x.second;
    for (auto & x : m->comp) {
        MSD s = composition(x.first, own, extra, useExtra && !ofLibrary, depth + 1);
        if (s.empty()) return s;
        for (auto & y : s) r[y.first] += y.second * x.second / t;
    }
    return r;
}
MSD Lib::mixture(const MSD & comp, double e) const {
    MSD r;
    for (const char * k : {"coherent", "compton", "pair", "photoelectric", "total"}) r[k] = 0;
    for (auto & c : comp) {
        MSD m = get(c.first).mu1(e);
        for (const char * k : {"coherent", "compton", "pair", "photoelectric"}) { r[k] += c.second * m[k]; r["total"] += c.second * m[k]; }
    }
    r["energy"] = e;
    return r;
}
MMD Lib::escape(const MSD & comp, double e, double intensity, double alpha, double thickness, MSD * margin) const {
    const double pi = 3.14159265358979323846;
    MSD whole;
    double all = 0;
    for (auto & c : comp) all += c.second;
    for (auto & c : comp) whole[c.first] = c.second / all;
    double s = std::fabs(std::sin(alpha * pi / 180)), in = mixture(whole, e)["total"];
    double detected = thickness > 0 ? 1 - std::exp(-in * thickness / s) : 1;
    MMD r;
    for (auto & c : comp) for (auto & l : get(c.first).excitation(e, c.second)) {
        double out = mixture(whole, l.second["energy"])["total"], t = s * out / in;
        double v = l.second["rate"] * 0.5 / in * (1 - t * std::log(1 + 1 / t));
        std::string k = c.first + "_" + l.first + "esc";
        // how far it is from the threshold
        if (margin) (*margin)[k] = intensity > 0 ? v / intensity : 2;
        if (v <= intensity) continue;
        r[k]["rate"] = v / detected;
        r[k]["energy"] = e - l.second["energy"];
    }
    return r;
}
std::vector<std::pair<std::string, double> > Lib::families(const VS & names, double e) const {
    std::vector<std::pair<std::string, double> > r;
    for (auto & n : names) {
        const El & x = get(n);
        for (auto & s : x.excited(e)) if (x.has(s) && x.omega(s) > 0) r.push_back(std::make_pair(n + " " + s, x.be.at(s)));
    }
    std::stable_sort(r.begin(), r.end(), [](const std::pair<std::string, double> & a, const std::pair<std::string, double> & b) { return a.second < b.second; });
    return r;
}
}
