// Plans: what one seed does to the simulated system, and the faults it meets.
#include "world.h"
#include <algorithm>
namespace sim {
typedef std::string S;
static S cat(const S & a) { return a; }
static S toS(const S & a) { return a; }
static S toS(const char * a) { return a; }
static S toS(double x) { return num(x); }
static S toS(int x) { return std::to_string(x); }
static S toS(long x) { return std::to_string(x); }
static S toS(const VD & v) { return nums(v); }
static S toS(const VS & v) { S s; for (auto & x : v) s += (s.empty() ? "" : ",") + x; return s.empty() ? "-" : s; }
template<class T, class... R> static S cat(const S & a, const T & b, const R &... r) { return cat(a + " " + toS(b), r...); }
static double r4(double x) { char b[40]; snprintf(b, sizeof b, "%.4g", x); return strtod(b, nullptr); }

// absorption edges in the data sets: most mistakes of interpolation and caching need exactly these energies
static const double EDGES[] = {
    0.10798, 0.10867, 0.1487, 0.15155, 0.1642, 0.1654, 0.1714, 0.17273, 0.22597, 0.227, 0.2292, 0.237, 0.3464, 0.35, 0.3552, 0.35904, 0.3667, 0.37655, 0.43411, 0.4378, 0.4848, 0.49462, 0.532, 0.53728, 
    0.7081, 0.72069, 0.7211, 0.73355, 0.7807, 0.79049, 0.84296, 0.8461, 0.9311, 0.93749, 0.951, 0.95853, 1.0449, 1.0622, 1.0861, 1.0961, 1.1367, 1.2167, 1.2228, 1.2478, 1.2554, 1.2726, 1.2928, 1.4023, 
    1.4143, 1.4408, 1.8092, 1.8162, 1.8285, 1.8389, 1.8716, 2.2057, 2.2122, 2.281, 2.2911, 2.4559, 2.472, 2.484, 2.489, 2.5202, 2.521, 2.5749, 2.5856, 2.6251, 2.6295, 2.743, 2.8196, 2.8465, 2.8655, 
    3.0664, 3.1478, 3.35, 3.3511, 3.4249, 3.5237, 3.5281, 3.55, 3.5517, 3.5542, 3.5552, 3.7276, 3.7834, 3.8058, 3.8507, 3.9268, 3.9288, 4.015, 4.0381, 4.1561, 4.1608, 4.3034, 4.4403, 4.4647, 5.1822, 
    5.2434, 5.247, 5.548, 5.6236, 5.6303, 5.9608, 5.9888, 7.0834, 7.112, 8.9432, 8.9789, 10.206, 10.207, 11.067, 11.103, 11.544, 11.573, 11.919, 11.922, 12.077, 12.1, 13.035, 13.04, 13.734, 13.776, 
    14.336, 14.353, 15.2, 15.251, 15.847, 15.861, 17.166, 17.168, 17.182, 19.965, 20.0, 20.948, 21.044, 21.757, 21.758, 21.768, 25.489, 25.514, 29.184, 29.2, 37.441, 37.449, 69.525, 69.689, 80.725, 
    80.96, 88.004, 88.29, 115.6, 115.61, 116.11, 250.0};

struct G {
    Rng & r;
    VS & out;
    double pAlloc = 0, pFs = 0, pInvalid = 0.06;
    bool retry = true;
    VD pool;            // energies that come back
    VS els, libs, lays, dets, xs, tabs, mats, beams;
    std::map<S, S> symbol;        // element slot -> what it was
    std::map<S, int> libKind;
    G(Rng & rr, VS & o) : r(rr), out(o) {
        int n = (int) r.range(3, 7);
        for (int i = 0; i < n; i++) pool.push_back(r4(r.logreal(0.3, 120)));
        static const double E[] = {7.11, 7.112, 7.2, 13.04, 88.0, 88.1, 1.84, 1.839, 5.9, 10, 20, 0.71, 4.04, 25.52};
        for (int i = 0; i < 3; i++) pool.push_back(E[r.below(sizeof E / sizeof *E)]);
        for (int i = (int) r.below(4); i > 0; i--) pool.push_back(EDGES[r.below(sizeof EDGES / sizeof *EDGES)]);
        if (r.chance(0.6)) for (int i = (int) r.range(1, 3); i > 0; i--) focus.push_back(sym());
        if (r.chance(0.6)) { escTheme = escSettings(); escSeed = escBase; }
    }
    VS focus;           // elements most of the history is about
    S escTheme;         // escape peak settings most of the history uses
    VD marks;           // energies of tables and edges set in this history
    void mark(double x) { if (marks.size() < 40) marks.push_back(x); else marks[r.below(40)] = x; }
    double en() {
        if (marks.size() && r.chance(0.3)) { double x = marks[r.below(marks.size())]; return r.chance(0.8) ? x : r4(x * (r.chance(0.5) ? 1.001 : 0.999)); }
        if (r.chance(0.06)) return EDGES[r.below(sizeof EDGES / sizeof *EDGES)];
        if (r.chance(0.04)) return pool[r.below(pool.size())] * (1 + r.pick(VD{1e-3, 1e-5, 1e-7}) * (r.chance(0.5) ? 1 : -1));
        return r.chance(0.75) ? pool[r.below(pool.size())] : r4(r.logreal(0.2, 150));
    }
    VD ens(int a, int b) { VD v; for (long n = r.range(a, b); n > 0; n--) v.push_back(en()); return v; }
    VD distinctEns(int a, int b) { VD v = ens(a, b); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); return v; }
    void put(const S & s) { out.push_back(s); }
    // allocation faults: cap is about the number of allocations of the operation
    S af(S s, long cap) {
        if (!r.chance(pAlloc)) return s;
        if (r.chance(0.35)) return s + " @sweep=" + std::to_string(r.logint(1, std::max(1L, cap / 4))) + ":" + std::to_string(r.chance(0.6) ? 1 : r.logint(1, std::max(2L, cap / 12)));
        s += (r.chance(0.25) ? " @allocp=" : " @alloc=") + std::to_string(r.logint(1, cap));
        if (retry && r.chance(0.6)) s += " @retry";
        return s;
    }
    void puta(const S & s, long cap) { put(af(s, cap)); }
    // faults of the disk; several opens: the truncation spares the first one
    S ff(S s, long opens, long reads, bool trunc, double p = -1) {
        if (!r.chance(p < 0 ? pFs : p)) return s;
        int k = (int) r.range(1, r.chance(0.2) ? 2 : 1);
        for (int i = 0; i < k; i++) switch (r.below(trunc ? 8 : 7)) {
        case 0: s += " @fs=open:" + std::to_string(r.range(1, opens)) + ":" + r.pick({"24", "13", "2", "23", "5", "12"}); break;
        case 1: s += " @fs=vanish:" + std::to_string(r.range(1, opens)); break;
        case 2: case 3: s += " @fs=read:" + std::to_string(r.logint(1, reads)) + ":" + r.pick({"5", "21", "12", "11"}); break;
        case 4: s += " @fs=readp:" + std::to_string(r.logint(1, reads)) + ":5"; break;
        case 5: s += " @fs=eintrs:" + std::to_string(r.range(2, 5)); break;
        case 6: s += " @fs=short:" + std::to_string(r.range(1, 999)); break;
        default: s += " @fs=trunc:" + std::to_string(r.range(2, std::max(2L, opens))) + ":0:" + std::to_string(r.range(0, 999));
        }
        if (retry && r.chance(0.6)) s += " @retry";
        return s;
    }
    // the file got shorter since it was opened
    S shorter(S s) {
        if (s.find('@') != S::npos || !r.chance(0.12)) return s;
        return s + " @fs=trunc:1:0:" + std::to_string(r.range(0, 999)) + (retry && r.chance(0.6) ? " @retry" : "");
    }
    // ------------------------------------------------------------ elements
    S sym() { if (focus.size() && r.chance(0.65)) return focus[r.below(focus.size())]; return r.pick({"Fe", "Fe", "Pb", "Cu", "Ca", "Si", "O", "C", "H", "Au", "Sn", "U", "Mo", "Ba", "W", "S", "Ge", "Ag"}); }
    S shell() { return r.pick({"K", "K", "L1", "L2", "L3", "L3", "M1", "M2", "M3", "M4", "M5"}); }
    VS shellsFor(const S & s) {
        (void) s;
        return VS();
    }
    S newEl(bool blank) {
        S n(1, (char) ('A' + r.below(4)));
        if (std::find(els.begin(), els.end(), n) == els.end()) els.push_back(n);
        if (blank) {
            put(cat("e.blank", n, r.pick({"Xx", "Fe", "Qa", "Uux", "Zz"}), (long) r.range(1, 110)));
            symbol[n] = "";
            int k = (int) r.range(0, 9);
            putBe(n, k);
            if (r.chance(0.9)) putMu(n);
            if (r.chance(0.8)) for (int i = 0; i <= k && i < 10; i++) if (r.chance(0.75)) putPart(n, i);
            for (int i = 0; i < k && i < 9; i++) { if (r.chance(0.7)) putRad(n, i); if (r.chance(0.4)) putNon(n, i); if (r.chance(0.8)) putCon(n, i); }
        } else {
            symbol[n] = sym();
            put(cat("e.base", n, symbol[n], (int) r.chance(0.4)));
        }
        return n;
    }
    S el() { if (els.empty()) return newEl(r.chance(0.3)); return els[r.below(els.size())]; }
    static const char * sh(int i) { static const char * const N[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all~other"}; return N[i]; }
    void putBe(const S & n, int k = -1) {
        if (k < 0) k = (int) r.range(0, 9);
        VS l;
        VD v;
        double e = r.logreal(2, 90);
        for (int i = 0; i < k; i++) {
            l.push_back(sh(i));
            v.push_back(r4(e));
            mark(v.back());
            e *= i == 0 || i == 3 ? r.real(0.1, 0.35) : r.real(0.85, 0.99);
        }
        if (r.chance(pInvalid)) { if (r.chance(0.5) || v.empty()) { l.push_back(r.pick({"Q1", "L4", "M6", "N1", "K1"})); v.push_back(0.001); } else v.pop_back(); }
        if (v.size() && r.chance(0.05)) v.back() = 0.0;
        puta(cat("e.be", n, l.size() != v.size() || r.chance(0.4) ? "vec" : "map", l, v), 60);
    }
    VD grid(int n) {
        VD e;
        double x = r.logreal(0.1, 2);
        bool early = r.chance(0.08);
        for (int i = 0; i < n; i++) { e.push_back(r4(x)); if ((r.chance(0.15) || (early && i == 1)) && i + 1 < n) { e.push_back(r4(x)); i++; } x *= r.real(1.2, 3.5); }
        for (size_t i = 0; i < e.size(); i++) if (r.chance(i && e[i] == e[i - 1] ? 0.9 : 0.15)) mark(e[i]);
        return e;
    }
    // like real tables: nothing below the edge; seldom a value no computation accepts
    VD odd(VD v) {
        if (r.chance(0.12)) for (size_t i = 0, n = r.below(v.size() + 1); i < n; i++) v[i] = 0;
        if (r.chance(pInvalid * 0.7) && v.size()) v[r.below(v.size())] = HUGE_VAL;
        return v;
    }
    VD falling(const VD & e, double a) { VD v; double j = 1; for (size_t i = 0; i < e.size(); i++) { if (i && e[i] == e[i - 1]) j *= r.real(1.5, 6); v.push_back(r4(j * a / (e[i] * std::sqrt(e[i])))); } return v; }
    void putMu(const S & n) {
        VD e = grid((int) r.range(2, 12)), p = odd(falling(e, r.logreal(1, 2000))), c = odd(falling(e, r.logreal(0.1, 5))), i, x;
        for (size_t k = 0; k < e.size(); k++) { i.push_back(r4(r.real(0.01, 0.3))); x.push_back(e[k] > 1000 ? 0.01 : 0.0); }
        bool pair = r.chance(0.4);
        if (r.chance(pInvalid)) switch (r.below(5)) {
            case 0: p.pop_back(); break;
            case 1: c.push_back(1); break;
            case 2: i.pop_back(); break;
            case 3: pair = true; x.push_back(1); break;
            default: std::reverse(e.begin(), e.end());
        }
        S l = cat("e.mu", n, e, p, c, i, pair ? toS(x) : S("-"));
        if (!pair && r.chance(0.4)) l += " 4";
        puta(l, 40);
    }
    void putPart(const S & n, int i = -1) {
        VD e = grid((int) r.range(2, 10)), v = odd(falling(e, r.logreal(1, 800)));
        S s = sh(i < 0 ? (int) r.below(10) : i);
        if (r.chance(pInvalid)) switch (r.below(4)) {
            case 0: v.pop_back(); break;
            case 1: std::reverse(e.begin(), e.end()); break;
            case 2: s = r.pick({"N1", "Q", "L", "L4"}); break;
            default: e[0] = -1;
        }
        else if (r.chance(0.05)) { e.clear(); v.clear(); }
        puta(cat("e.part", n, s, e, v), 40);
    }
    void putRad(const S & n, int i = -1) {
        if (i < 0) i = (int) r.below(6);
        VS l, all;
        VD v;
        S s = sh(i);
        if (i == 0) all = {"KL2", "KL3", "KM3", "KM2", "KL1"};
        else if (i < 4) { all = {"M1", "M4", "M5", "M3", "N1"}; for (auto & x : all) x = s + x; }
        else { all = {"N2", "N4", "N5", "N6", "O3"}; for (auto & x : all) x = s + x; }
        int k = (int) r.range(1, 4);
        size_t a = r.below(2);
        for (int j = 0; j < k; j++) { l.push_back(all[(a + (size_t) j) % all.size()]); v.push_back(r4(r.real(0.01, 1))); }
        if (r.chance(pInvalid)) switch (r.below(3)) {
            case 0: v.pop_back(); break;
            case 1: s = r.pick({"N1", "Q", "X9"}); break;
            default: l[0] = l[0].substr(0, 2);
        }
        else {
            // the ways such tables are written
            if (i > 0 && r.chance(0.1)) { l.push_back(s + r.pick({"O45", "P23", "O23"})); v.push_back(r4(r.real(0.01, 1))); }
            if (r.chance(0.15)) { double t = 0; for (double x : v) t += x; l.push_back(r.pick({"TOTAL", "Total"})); v.push_back(r.chance(0.7) ? r4(t) : r4(r.real(0.01, 3))); }
            if (r.chance(0.1)) for (auto & x : l) for (auto & c : x) c = (char) tolower(c);
        }
        puta(cat("e.rad", n, s, l, v, l.size() != v.size() || r.chance(0.4) ? "vec" : "map"), 60);
    }
    void putNon(const S & n, int i = -1) {
        if (i < 0) i = (int) r.below(6);
        S s = sh(i);
        VS l, all;
        VD v;
        if (i == 0) all = {"KL1L1", "KL1L2", "KL2L3", "KL3M1"};
        else if (i == 1) all = {"L1L2M1", "L1L3M4", "L1M1M2", "L1M5N1"};
        else if (i < 4) { all = {"M1M2", "M3M4", "M5N1"}; for (auto & x : all) x = s + x; }
        else { all = {"N1N2", "N3N4", "N6O1"}; for (auto & x : all) x = s + x; }
        // with a dash, as in the EADL tables: the only form in which transitions within a shell are known
        if (r.chance(0.6)) {
            all.clear();
            S x = i == 0 ? "K" : i < 4 ? "L" : "M", y = i == 0 ? "L" : i < 4 ? "M" : "N";
            int a = i == 0 ? 0 : i < 4 ? i : i - 3, b = i == 0 ? 0 : i < 4 ? 3 : 5;
            for (int j = a + 1; j <= b; j++) {
                if (r.chance(0.7)) all.push_back(s + "-" + x + std::to_string(j) + y + std::to_string(r.range(1, 4)));
                if (r.chance(0.4)) all.push_back(s + "-" + x + std::to_string(j) + "O" + std::to_string(r.range(1, 3)));
                if (r.chance(0.3)) all.push_back(s + "-" + x + std::to_string(j) + x + std::to_string(r.range(j, b)));
            }
            for (long j = r.range(1, 3); j > 0; j--) all.push_back(s + "-" + y + std::to_string(j) + y + std::to_string(r.range(1, 3)));
            for (size_t j = all.size(); j > 1; j--) std::swap(all[j - 1], all[r.below(j)]);
        }
        int k = (int) r.range(1, (int) all.size());
        for (int j = 0; j < k; j++) { l.push_back(all[j]); v.push_back(r4(r.real(0.01, 1))); }
        // a total below the sum of the transitions would be a negative rate of the others
        if (r.chance(0.25)) { double t = 0; for (double x : v) t += x; l.push_back(r.pick({"TOTAL", "Total"})); v.push_back(r4(t * (r.chance(0.7) ? 1.001 : r.real(1.001, 1.6)))); }
        if (r.chance(0.07)) for (auto & x : l) for (auto & c : x) c = (char) tolower(c);
        if (r.chance(pInvalid)) { if (r.chance(0.5)) v.pop_back(); else s = r.pick({"N1", "Q"}); }
        puta(cat("e.non", n, s, l, v, l.size() != v.size() || r.chance(0.4) ? "vec" : "map"), 60);
    }
    void putCon(const S & n, int i = -1) {
        if (i < 0) i = (int) r.below(6);
        S s = sh(i);
        VS l;
        VD v;
        double left = r.chance(0.06) ? 1.6 : 0.98;
        auto give = [&](const char * k) { double x = r4(r.real(0, left * 0.7)); l.push_back(k); v.push_back(x); left -= x; };
        if (r.chance(0.8)) give("omega");
        if (i == 1) { if (r.chance(0.7)) give("f12"); if (r.chance(0.7)) give("f13"); }
        if (i == 2 && r.chance(0.7)) give("f23");
        if (i > 3) for (int j = i - 2; j <= 5; j++) if (r.chance(0.5)) { S f = "f" + std::to_string(i - 3) + std::to_string(j); give(f.c_str()); }
        if (r.chance(pInvalid)) { if (r.chance(0.5)) { l.push_back(r.pick({"f99", "omegaX", "zeta"})); v.push_back(0.1); } else s = r.pick({"N1", "Q"}); }
        puta(cat("e.con", n, s, l, v), 30);
    }
    void elementChange(const S & n) {
        switch (r.below(9)) {
        case 0: case 1: putMu(n); break;
        case 2: case 3: putPart(n); break;
        case 4: putRad(n); break;
        case 5: putNon(n); break;
        case 6: putCon(n); break;
        case 7: if (r.chance(0.4)) putBe(n); else putCon(n); break;
        default:
            switch (r.below(4)) {
            case 0: puta(cat("e.meta", n, "mass", r.chance(pInvalid) ? -1.0 : r4(r.real(1, 250))), 10); break;
            case 1: puta(cat("e.meta", n, "density", r4(r.real(0.001, 20))), 10); break;
            case 2: puta(cat("e.meta", n, r.pick({"name", "long"}), r.pick({"Xx", "A~rather~long~name~of~an~element~indeed", "Q"})), 10); break;
            default: puta(cat("e.meta", n, r.pick({"z", "row", "column"}), (long) r.range(r.chance(pInvalid) ? -2 : 1, 100)), 10);
            }
        }
    }
    S dist() {
        S d;
        for (const char * s : {"K", "L1", "L2", "L3", "M1", "M3", "M5"}) if (r.chance(0.4)) d += (d.empty() ? "" : ",") + S(s) + ":" + num(r4(r.real(0.01, 1)));
        return d.empty() ? "K:1" : d;
    }
    S elq(bool cas) {
        if (cas) switch (r.below(8)) {
            case 0: return cat("casdist", dist());
            case 1: return cat("lines", dist(), (int) r.chance(0.6), (int) r.chance(0.7));
            case 2: return cat("emitted", en());
            case 3: case 4: { VD e = ens(1, 4); VD w; for (size_t i = 0; i < e.size(); i++) w.push_back(r4(r.real(0.1, 2))); if (r.chance(0.3)) w.resize(1); return cat("excv", e, w); }
            default: return cat("exc1", en(), r4(r.real(0.1, 2)));
        }
        switch (r.below(16)) {
        case 0: case 1: case 2: return cat("mu1", en());
        case 3: return cat("muv", ens(1, 6));
        case 4: case 5: return cat("part", en());
        case 6: return cat("vac1", en());
        case 7: return cat("vacv", ens(1, 4));
        case 8: return elq(true);
        case 9: return cat("shells", en());
        case 10: return cat(r.pick({"rad", "non", "con", "flu", "aug", "ck", "xlines", "yield"}), shell());
        case 11: return cat("trans", r.pick({"KL3", "KM3", "L3M5", "L1M3", "KL2"}));
        case 12: return cat("dvt", shell(), shell());
        case 13: return r.pick({"edges", "mutable", "be", "meta"});
        case 14: { VD g = grid(6); return cat("edgesv", g, falling(g, 100)); }
        default: { VD g = grid(5); g.erase(std::unique(g.begin(), g.end()), g.end()); return cat("idx", g, r4(g[0] + (g.back() - g[0]) * r.unit())); }
        }
    }
    long qcap(const S & q) { return q[0] == 'm' || q[0] == 'p' ? 80 : 900; }
    void elq(const S & n, bool cas) { S q = elq(cas); put(af("e.q " + n + " " + q, qcap(q))); }
    void elCache(const S & n) {
        switch (r.below(8)) {
        case 0: case 1: puta(cat("e.cache", n, (int) r.chance(0.75)), 4); break;
        case 2: case 3: puta(cat("e.fill", n, ens(0, 8)), 300); break;
        case 4: case 5: puta(cat("e.upd", n, ens(1, 8)), 300); break;
        case 6: puta(cat("e.clear", n), 4); break;
        default: put(cat("e.cache", n, 1)); put(cat("e.upd", n, pool));
        }
    }
    void elCascade(const S & n) {
        switch (r.below(6)) {
        case 0: case 1: puta(cat("e.cas", n, (int) r.chance(0.75)), 400); break;
        case 2: case 3: puta(cat("e.casfill", n), 400); break;
        case 4: puta(cat("e.casempty", n), 4); break;
        default: put(cat("e.cas", n, 1)); put(cat("e.casfill", n));
        }
    }
    // ------------------------------------------------------------ libraries
    S newLib() {
        S n(1, (char) ('P' + r.below(2)));
        if (std::find(libs.begin(), libs.end(), n) == libs.end()) libs.push_back(n);
        int k = r.chance(0.45);
        libKind[n] = k;
        put(cat("l.copy", n, k ? "base1" : "base0"));
        return n;
    }
    S lib() { if (libs.empty()) return newLib(); return libs[r.below(libs.size())]; }
    S formula() { return r.pick({"Fe2O3", "H2O", "SiO2", "PbS", "CaSO4", "Fe", "Cu", "CuSn", "Au", "C", "Si", "Ge", "Ca5P3O13H", "NaCl"}); }
    S matName() { return r.pick({"Steel", "Air", "Goethite", "My~mat", "Brass", "Paint", "Fe2O3", "Water"}); }
    // compositions only refer to materials further in this list: no cycles
    S comp(const S & of, VS & k, VD & v) {
        static const char * const ORDER[] = {"Paint", "My~mat", "Goethite", "Brass", "Steel", "Air", "Water", "Fe2O3"};
        size_t at = 0;
        for (size_t i = 0; i < 8; i++) if (of == ORDER[i]) at = i;
        k.clear(); v.clear();
        std::set<S> used;
        for (long n = r.range(1, 4); n > 0; n--) {
            S c = r.chance(0.35) && at < 6 ? S(ORDER[at + 1 + r.below(6 - at)]) : formula();
            if (r.chance(pInvalid)) c = r.pick({"Nothing", "xyz", "Qq2"});
            if (!used.insert(c).second) continue;
            k.push_back(c);
            v.push_back(r.chance(0.3) ? (double) r.range(1, 4) : r4(r.real(0.01, 1)));
        }
        S s;
        for (size_t i = 0; i < k.size(); i++) s += (i ? "+" : "") + k[i] + "=" + num(v[i]);
        return s;
    }
    S matSpec(bool withComp) {
        S n = matName();
        VS k; VD v;
        double d = r.chance(pInvalid) ? (r.chance(0.5) ? 0.0 : -1.0) : r4(r.real(0.01, 15)), t = r.chance(pInvalid) ? 0.0 : r4(r.logreal(0.0001, 2));
        return n + ":" + num(d) + ":" + num(t) + ":" + (withComp ? comp(n, k, v) : S("-")) + ":" + r.pick({"-", "a~comment", "other"});
    }
    // a list of supplied materials, often made of each other; top: the name to ask for
    S matSpecs(S & top) {
        if (r.chance(0.45)) { top = matName(); return matSpec(true); }
        static const char * const ORDER[] = {"Paint", "My~mat", "Goethite", "Brass", "Steel", "Air", "Water"};
        VS specs;
        size_t at = r.below(4);
        top = ORDER[at];
        for (long n = r.range(2, 3); n > 0 && at < 7; n--) {
            VS k; VD v;
            size_t next = std::min<size_t>(6, at + 1 + r.below(2));
            S c = comp(ORDER[at], k, v);
            if (next > at) { bool has = false; for (auto & x : k) if (x == ORDER[next]) has = true; if (!has) c += S("+") + ORDER[next] + "=" + num(r4(r.real(0.05, 1))); }
            specs.push_back(S(ORDER[at]) + ":" + num(r4(r.real(0.01, 15))) + ":" + num(r4(r.logreal(0.0001, 2))) + ":" + c + ":-");
            if (next == at) break;
            at = next;
        }
        if (r.chance(0.3)) std::swap(specs.front(), specs.back());
        S s;
        for (auto & x : specs) s += (s.size() ? "," : "") + x;
        return s;
    }
    void libMaterial(const S & l) {
        switch (r.below(9)) {
        case 0: case 1: puta(cat("l.addmat", l, matSpec(false), (int) r.chance(0.7)), 30); break;
        case 2: case 3: puta(cat("l.addobj", l, matSpec(r.chance(0.85)), (int) r.chance(0.7)), 30); break;
        case 4: case 5: case 6: {
            S n = matName();
            VS k; VD v;
            comp(n, k, v);
            bool vec = r.chance(0.5);
            if (r.chance(pInvalid)) { if (vec && r.chance(0.5)) v.pop_back(); else v[0] = r.chance(0.5) ? -0.5 : 0.0; }
            if (r.chance(0.03)) { k.clear(); v.clear(); }
            puta(cat("l.setcomp", l, n, vec ? "vec" : "map", k, v), 40);
            break;
        }
        case 7: puta(cat("l.rm", l, matName()), 10); break;
        default: if (r.chance(0.25)) puta(cat("l.rmall", l), 4); else puta(cat("l.rm", l, matName()), 10);
        }
    }
    S anyName() { return r.chance(0.6) ? matName() : formula(); }
    S libq() {
        VS k; VD v; S top;
        switch (r.below(22)) {
        case 0: return cat("el", sym(), elq(r.chance(0.3)));
        case 1: return cat("elw", sym(), elq(r.chance(0.5)));
        case 2: return r.pick({"names", "mats", "files"});
        case 3: return cat("def", r.pick({"Fe", "Steel", "Xx", "H2O"}));
        case 4: return cat("info", r.pick({"Fe", "Pb", "Xx", "U"}));
        case 5: case 6: return cat("comp", anyName());
        case 7: return cat(r.pick({"compf", "parse"}), r.pick({"Fe2O3", "H2O", "Ca5(PO4)3OH", "Steel", "()", "2O", "NaCl", "(CuSO4)5H2O"}));
        case 8: return cat("mat", matName());
        case 9: return cat("muel", anyName());
        case 10: case 11: return cat("muc", anyName(), en());
        case 12: case 13: return cat("mucv", anyName(), ens(1, 5));
        case 14: return cat("mucomp", comp("Paint", k, v), en(), (int) r.chance(0.8));
        case 15: return cat("mucompv", comp("Paint", k, v), ens(1, 4), (int) r.chance(0.8));
        case 16: return cat("compmap", comp("Paint", k, v), r.chance(0.6) ? matSpecs(top) : S("-"));
        case 17: top = matName(); if (r.chance(0.8)) { S m = matSpecs(top); return cat("compm", top, m); } return cat("compm", top, "-");
        case 18: return cat("peak", anyName(), en());
        case 19: return cat("peakl", r.pick({"Fe,Pb", "Fe,Cu,Si", "O", "Au,Sn,Ba"}), en());
        case 20: return "esc " + escArgs() + " " + num(en());
        default: return cat("create", matName(), r4(r.real(0.1, 5)), r4(r.real(0.01, 2)));
        }
    }
    void libq(const S & l) { put(af("l.q " + l + " " + libq(), 1500)); }
    void libCache(const S & l) {
        S e = r.chance(0.04) ? "Xx" : sym();
        switch (r.below(7)) {
        case 0: case 1: puta(cat("l.cache", l, e, (int) r.chance(0.75)), 8); break;
        case 2: puta(cat("l.fill", l, e, ens(1, 6)), 400); break;
        case 3: case 4: puta(cat("l.upd", l, e, ens(1, 6)), 400); break;
        case 5: puta(cat("l.clear", l, e), 8); break;
        default: puta(cat("l.cas", l, e, r.pick({"on", "off", "fill", "empty", "fill"})), 800);
        }
    }
    void libMu(const S & l) {
        VD e = grid((int) r.range(2, 10)), p = odd(falling(e, r.logreal(1, 2000))), c = odd(falling(e, r.logreal(0.1, 5))), i, x;
        for (size_t k = 0; k < e.size(); k++) { i.push_back(r4(r.real(0.01, 0.3))); x.push_back(0); }
        if (r.chance(pInvalid)) switch (r.below(3)) { case 0: p.pop_back(); break; case 1: c.push_back(1); break; default: std::reverse(e.begin(), e.end()); }
        puta(cat("l.mu", l, r.chance(0.04) ? S("Xx") : sym(), e, p, c, i, x), 60);
    }
    S dataFile(const S & what, const S & m, int kind) {
        if (what == "mac") return "XCOM_CrossSections.dat";
        bool eadl = kind == 0 || r.chance(0.5);
        if (what == "con") return (eadl ? "EADL97_" : "") + m + "ShellConstants.dat";
        if (what == "non") return "EADL97_" + m + "ShellNonradiativeRates.dat";
        return eadl ? "EADL97_" + m + "ShellRadiativeRates.dat" : m + "ShellRates.dat";
    }
    S variant() {
        switch (r.below(12)) {
        case 0: return "empty";
        case 1: return "noscan";
        case 2: return "nolabel";
        case 3: return "missing";
        case 4: return "row" + std::to_string(r.below(50));
        case 5: return "junk" + std::to_string(r.below(50));
        case 6: return "extra";
        case 7: return "t" + std::to_string(r.range(1, 999));
        case 8: return "cr";
        default: return "p" + std::to_string(r.below(60));
        }
    }
    // now and then a file or directory appears under a name another one had before
    S as(const S & name, const S & path, double p = 0.35) { return r.chance(p) ? "/sim/w/" + name + std::to_string(r.below(2)) + ">" + path : path; }
    void libFile(const S & l, double pBad = 0.5) {
        S what = r.pick({"con", "con", "rad", "rad", "non", "mac"}), m = r.pick({"K", "L", "M"});
        S f = dataFile(what, m, libKind[l]);
        if (r.chance(pBad * 0.08)) f = dataFile(what, r.pick({"K", "L", "M"}), libKind[l]);
        S v = r.chance(pBad) ? variant() : (r.chance(0.2) ? S("orig") : "p" + std::to_string(r.below(60)));
        if (r.chance(0.02)) m = r.pick({"N", "L1", "Q"});
        S s = cat("l.file", l, what, m, as("data", "/sim/v/" + f + "/" + v));
        s = ff(s, what == "mac" ? 99 * 2 : (m == "K" ? 3 : m == "L" ? 7 : 11), what == "mac" ? 3000 : 40, true);
        if (s.find('@') == S::npos) s = af(s, 60000);
        put(s);
    }
    // ------------------------------------------------------------ escape
    struct Esc { S comp; double energy, intensity; long n; double alpha, thickness; } escBase{"", 0, 0, 0, 0, 0}, escSeed{"", 0, 0, 0, 0, 0};
    static S escText(const Esc & e) { return cat(e.comp, num(e.energy), num(e.intensity), e.n, num(e.alpha), num(e.thickness)); }
    S escSettings() {
        Esc e;
        e.comp = r.pick({"Si=1", "Ge=1", "Si=1+O=2", "Cd=0.4+Te=0.6"});
        e.energy = r.pick(VD{0.01, 0.01, 0.5});
        e.intensity = r.pick(VD{1e-7, 1e-7, 0.001});
        e.n = r.chance(0.7) ? 4L : r.range(1, 6);
        e.alpha = r.pick(VD{90.0, 90.0, 45.0, 45.0, 30.0, -45.0, 5.0, 150.0});
        e.thickness = r.chance(0.5) ? 0.0 : r.pick(VD{0.05, 0.3, 0.002, 1e-4, 1e-6, 3.0});
        escBase = e;
        return escText(e);
    }
    // other settings that differ in one value only, often by very little
    S escNear() {
        Esc e = escSeed.comp.size() ? escSeed : escBase;
        double d = r.pick(VD{1e-2, 1e-4, 1e-6, 1e-9}) * (r.chance(0.5) ? 1 : -1);
        switch (r.below(7)) {
        case 0: case 1: case 2: e.thickness = e.thickness > 0 ? e.thickness * (1 + d) : std::max(1e-6, std::fabs(d)); break;
        case 3: e.alpha *= 1 + d; break;
        case 4: e.intensity *= 1 + d; break;
        case 5: e.energy *= 1 + d; break;
        default: e.comp = e.comp == "Si=1+O=2" ? "Si=1+O=" + num(2 * (1 + d)) : e.comp == "Cd=0.4+Te=0.6" ? "Cd=" + num(0.4 * (1 + d)) + "+Te=0.6" : e.comp + "+O=" + num(std::fabs(d));
        }
        return escText(e);
    }
    S escArgs() { return escTheme.size() && r.chance(0.75) ? (r.chance(0.25) ? escNear() : escTheme) : escBase.comp.size() && r.chance(0.4) ? escNear() : escSettings(); }
    void libEscape(const S & l) {
        switch (r.below(8)) {
        case 0: puta(cat("l.esc", l, (int) r.chance(0.8)), 4); break;
        case 1: puta(cat("l.escclear", l), 4); break;
        case 2: case 3: puta(cat("l.escupd", l, escArgs(), ens(1, 5)), 2500); break;
        default: put(af(cat("l.q " + l + " esc", escArgs(), en()), 1500));
        }
    }
    // ------------------------------------------------------------ layers and detectors
    S layerName() { return r.pick({"Fe2O3", "SiO2", "PbS", "Cu", "CaSO4", "Fe", "Au", "Si", "Steel", "C"}); }
    S newLay() {
        S n = "Y" + std::to_string(r.below(5));
        if (std::find(lays.begin(), lays.end(), n) == lays.end()) lays.push_back(n);
        puta(cat("y.new", n, layerName(), r.chance(0.06) ? -1.0 : r4(r.real(0.5, 12)), r.chance(0.06) ? -1.0 : r4(r.logreal(1e-5, 0.1)), r.chance(0.8) ? 1.0 : r4(r.real(0.3, 1))), 4);
        return n;
    }
    S newDet() {
        S n = "D" + std::to_string(r.below(3));
        if (std::find(dets.begin(), dets.end(), n) == dets.end()) dets.push_back(n);
        puta(cat("d.new", n, r.pick({"Si", "Ge", "Si", "CdTe"}), r4(r.real(1, 8)), r4(r.logreal(0.005, 0.5)), 1.0), 8);
        return n;
    }
    S lay() { if (lays.empty() || r.chance(0.1)) return newLay(); return lays[r.below(lays.size())]; }
    S det() { if (dets.empty()) return newDet(); return dets[r.below(dets.size())]; }
    void laySet(const S & n, bool isDet) {
        bool bad = r.chance(pInvalid * 2);
        switch (r.below(isDet ? 10 : 4)) {
        case 0: puta(cat("y.set", n, "density", bad ? -1.0 : r4(r.real(0.1, 15))), 4); break;
        case 1: puta(cat("y.set", n, "thickness", bad ? 0.0 : r4(r.logreal(1e-5, 0.5))), 4); break;
        case 2: puta(cat("y.set", n, "name", isDet ? r.pick({"Si", "Ge", "SiO2"}) : r.pick({"Fe2O3", "SiO2", "PbS", "Steel", "Cu"})), 12); break;
        case 3: puta(cat("y.set", n, "object", isDet ? S(r.pick({"MySi:2.3:0.04:Si=1:-", "CZT:5.8:0.1:Cd=0.45+Zn=0.05+Te=0.5:detector"})) : matSpec(true)), 25); break;
        case 4: puta(cat("y.set", n, "diameter", bad ? -2.0 : r4(r.real(0.1, 3))), 4); break;
        case 5: puta(cat("y.set", n, "area", bad ? -2.0 : r4(r.real(0.1, 3))), 4); break;
        case 6: puta(cat("y.set", n, "distance", bad ? -1.0 : r4(r.real(0.5, 20))), 4); break;
        case 7: puta(cat("y.set", n, "emin", r.pick({"0.01", "0.5", "1.5"})), 4); break;
        case 8: puta(cat("y.set", n, "imin", r.pick({"1e-07", "0.0001", "0.01"})), 4); break;
        default: puta(cat("y.set", n, "nmax", (long) r.range(1, 6)), 4);
        }
    }
    S libOrBase() { if (libs.size() && r.chance(0.7)) return libs[r.below(libs.size())]; return r.chance(0.5) ? "base0" : "base1"; }
    void detEsc(const S & d) {
        S label = r.chance(0.35) ? S("-") : S(r.pick({"a", "b", "a~longer~label"}));
        put(af(cat("d.esc", d, libOrBase(), en(), label, (int) r.chance(0.3)), 1500));
    }
    void layQ(const S & n) {
        put(af(cat("y.q", n, libOrBase(), r.pick({"comp", "mu1", "muv", "tr1", "trv", "peak"}), ens(1, 4), r.chance(0.7) ? 90.0 : r4(r.real(10, 90))), 900));
    }
    // ------------------------------------------------------------ transmission tables, materials, beams
    S newTab() {
        S n = "T" + std::to_string(r.below(4));
        if (std::find(tabs.begin(), tabs.end(), n) == tabs.end()) tabs.push_back(n);
        if (r.chance(0.3)) puta(cat("t.new", n, "-", "-"), 6); else puta(cat("t.new", n, r.pick({"Mirror", "Film"}), r.pick({"-", "measured~today"})), 6);
        if (r.chance(0.85)) tabSet(n);
        return n;
    }
    S tab() { if (tabs.empty() || r.chance(0.08)) return newTab(); return tabs[r.below(tabs.size())]; }
    void tabSet(const S & n) {
        VD e = grid((int) r.range(1, 7)), t;
        bool vec = r.chance(0.5);
        if (!vec || r.chance(0.4)) e.erase(std::unique(e.begin(), e.end()), e.end());
        for (size_t i = 0; i < e.size(); i++) t.push_back(r4(r.real(0, 1)));
        if (vec && r.chance(0.3)) for (size_t i = e.size(); i > 1; i--) { size_t j = r.below(i); std::swap(e[i - 1], e[j]); std::swap(t[i - 1], t[j]); }
        if (r.chance(pInvalid)) { if (vec && r.chance(0.5)) t.pop_back(); else if (r.chance(0.5)) { e.clear(); t.clear(); } else t[0] = 1.5; }
        puta(cat("t.set", n, vec ? "vec" : "map", e, t, r.pick({"-", "Mirror", "Film", "T"}), r.pick({"-", "again", "c"})), 30);
    }
    void tabAny(const S & n) {
        switch (r.below(4)) {
        case 0: tabSet(n); break;
        case 1: puta(cat("t.name", n, r.pick({"name", "comment"}), r.pick({"A", "another~name~that~is~long~enough", "-"})), 6); break;
        default: put(af(cat("t.q", n, ens(1, 5)), 8));
        }
    }
    S newMat() {
        S n = "M" + std::to_string(r.below(3));
        if (std::find(mats.begin(), mats.end(), n) == mats.end()) mats.push_back(n);
        puta(cat("m.new", n, r.chance(0.3) ? S("-") : matSpec(false)), 8);
        return n;
    }
    S mat() { if (mats.empty()) return newMat(); return mats[r.below(mats.size())]; }
    void matAny(const S & n) {
        VS k; VD v;
        switch (r.below(5)) {
        case 0: puta(cat("m.set", n, "name", r.pick({"Q", "a~name~long~enough~to~allocate"})), 6); break;
        case 1: puta(cat("m.set", n, "init", matSpec(false)), 8); break;
        default: {
            comp("Paint", k, v);
            bool vec = r.chance(0.5);
            if (r.chance(pInvalid * 2)) { if (vec && r.chance(0.5)) v.pop_back(); else v[r.below(v.size())] = r.chance(0.5) ? -1.0 : 0.0; }
            puta(cat("m.set", n, vec ? "vec" : "map", k, v), 20);
        } }
    }
    S beamSpec() {
        VD e = distinctEns(1, 6), w, c, d;
        for (size_t i = 0; i < e.size(); i++) { w.push_back(r4(r.real(0.05, 3))); c.push_back((double) r.below(2)); d.push_back(r4(r.real(0, 2))); }
        auto cut = [&](VD & v) { double x = r.unit(); if (x < 0.3) v.clear(); else if (x < 0.4) v.resize(1); else if (x < 0.4 + pInvalid && v.size() > 2) v.pop_back(); };
        cut(w); cut(c); cut(d);
        return cat(toS(e), w, c, d);
    }
    S newBeam() {
        S n = "B" + std::to_string(r.below(3));
        if (std::find(beams.begin(), beams.end(), n) == beams.end()) beams.push_back(n);
        puta(cat("b.new", n), 4);
        return n;
    }
    S beam() { if (beams.empty()) return newBeam(); return beams[r.below(beams.size())]; }
    void beamAny(const S & n) {
        switch (r.below(6)) {
        case 0: put(cat("b.one", n, en(), r4(r.real(0, 2)))); break;
        case 1: put(cat("b.raw", n, beamSpec()) + (r.chance(0.4) ? " 1" : "")); break;
        default: puta(cat("b.set", n, beamSpec()), 30);
        }
    }
    // ------------------------------------------------------------ configurations
    S newX() {
        S n = "X" + std::to_string(r.below(3));
        if (std::find(xs.begin(), xs.end(), n) == xs.end()) xs.push_back(n);
        puta(cat("x.new", n), 30);
        return n;
    }
    S x() { if (xs.empty()) return newX(); return xs[r.below(xs.size())]; }
    VS some(VS (G::*none)(), int a, int b) { (void) none; (void) a; (void) b; return VS(); }
    VS layList(int a, int b) { VS v; for (long n = r.range(a, b); n > 0; n--) v.push_back(lay()); return v; }
    VS tabList(int a, int b) { VS v; for (long n = r.range(a, b); n > 0; n--) v.push_back(tab()); return v; }
    void xSet(const S & n) {
        switch (r.below(15)) {
        case 0: case 1: puta(cat("x.beam", n, beamSpec()), 40); break;
        case 2: puta(cat("x.beam1", n, en(), r4(r.real(0, 2))), 20); break;
        case 3: { S b = beam(); if (r.chance(0.7)) beamAny(b); puta(cat("x.beamobj", n, b), 20); break; }
        case 4: { VS l = layList(0, 2); puta(cat("x.filters", n, l), 60); break; }
        case 5: { VS l = layList(0, 2); puta(cat("x.atten", n, l), 60); break; }
        case 6: { VS l = tabList(0, 2); puta(cat("x.ufilters", n, l), 60); break; }
        case 7: { VS l = tabList(0, 2); puta(cat("x.uatten", n, l), 60); break; }
        case 8: case 9: { VS l = layList(1, 3); puta(cat("x.sample", n, l, (long) (r.chance(pInvalid * 2) ? l.size() + r.below(3) : r.below(l.size()))), 60); break; }
        case 10: puta(cat("x.sample1", n, layerName(), r4(r.real(0.5, 12)), r4(r.logreal(1e-5, 0.1))), 20); break;
        case 11: { S l = lay(); puta(cat("x.samplel", n, l), 20); break; }
        case 12: { S d = det(); if (r.chance(0.5)) laySet(d, true); puta(cat("x.det", n, d), 20); break; }
        case 13: puta(cat("x.geom", n, (long) r.range(10, 80), (long) r.range(10, 80), r.chance(0.4) ? -1L : r.range(20, 160)), 4); break;
        default: xRead(n);
        }
    }
    void xRead(const S & n, double pMut = 0.2) {
        S f = "/sim/c/" + std::to_string(r.below(400));
        if (r.chance(pMut)) f += "." + std::to_string(r.below(40));
        else if (r.chance(0.03)) f = "/sim/c/missing";
        S s = cat("x.read", n, as("conf", f));
        if (r.chance(0.15)) { s += " ctor"; if (std::find(xs.begin(), xs.end(), n) == xs.end()) xs.push_back(n); }
        s = ff(s, 1, 3, false);
        if (s.find('@') == S::npos) s = af(s, 2500);
        put(s);
    }
    // ------------------------------------------------------------ fluorescence
    struct Target { VS el, fam; };
    std::vector<std::pair<S, S> > lines(const S & layer) {
        if (layer == "Fe2O3") return {{"Fe", "K"}, {"Fe", "Ka"}, {"O", "K"}};
        if (layer == "SiO2" || layer == "Si") return {{"Si", "K"}};
        if (layer == "PbS") return {{"Pb", "L3"}, {"Pb", "L"}, {"Pb", "M"}, {"S", "K"}};
        if (layer == "Cu") return {{"Cu", "K"}, {"Cu", "Kb"}, {"Cu", "L"}};
        if (layer == "CaSO4") return {{"Ca", "K"}, {"S", "K"}};
        if (layer == "Au") return {{"Au", "L"}, {"Au", "L1"}, {"Au", "M"}};
        if (layer == "Ni") return {{"Ni", "K"}, {"Ni", "Ka"}};
        if (layer == "Cr2O3") return {{"Cr", "K"}, {"O", "K"}};
        if (layer == "BaSO4") return {{"Ba", "L"}, {"Ba", "K"}, {"S", "K"}};
        if (layer == "Ag") return {{"Ag", "K"}, {"Ag", "L"}, {"Ag", "L2"}};
        if (layer == "Fe") return {{"Fe", "K"}, {"Fe", "Kb"}};
        return {{"Fe", "K"}};
    }
    // a usable configuration: returns the layers of the sample
    VS goodX(const S & n, int minRays) {
        VS names;
        VS slots;
        long k = r.chance(0.12) ? 4 : r.range(1, 3);
        for (long i = 0; i < k; i++) {
            S m = r.pick({"Fe2O3", "SiO2", "PbS", "Cu", "CaSO4", "Fe", "Au", "Ni", "Cr2O3", "BaSO4", "Ag"});
            S y = "S" + std::to_string(i);
            put(cat("y.new", y, m, r4(r.real(1, 12)), r4(r.chance(0.07) ? r.logreal(0.02, 0.5) : r.logreal(1e-5, 0.02)), r.chance(0.85) ? 1.0 : r4(r.real(0.3, 0.95))));
            names.push_back(m);
            slots.push_back(y);
        }
        put(cat("x.sample", n, slots, (long) r.below(slots.size())));
        VD e, w, c;
        std::set<double> used;
        for (long i = r.range(minRays, 4); i > 0; i--) { double x = r4(r.chance(0.12) ? r.real(2, 8) : r.real(8, 45)); if (!used.insert(x).second) continue; e.push_back(x); w.push_back(r.chance(0.1) && w.size() ? r.logreal(1e-12, 1e-2) : r4(r.real(0.1, 2))); c.push_back((double) r.chance(0.6)); }
        if (e.empty()) { e.push_back(20); w.push_back(1); c.push_back(1); }
        puta(cat("x.beam", n, e, w, c, "-"), 40);
        if (r.chance(0.5)) { double in = r.chance(0.2) ? r4(r.real(2, 90)) : (double) r.range(20, 70), ex = r.chance(0.2) ? r4(r.real(2, 90)) : (double) r.range(20, 70); put(cat("x.geom", n, in, ex, -1L)); }
        // what the beam and the lines have to go through: often several of each
        for (int atten = 0; atten < 2; atten++) if (r.chance(0.4)) {
            VS fs;
            for (long i = r.chance(0.5) ? 1 : r.range(2, 3); i > 0; i--) {
                S f = (atten ? "F1" : "F0") + S(i > 1 ? std::to_string(i) : "");
                put(cat("y.new", f, atten ? r.pick({"Be", "C", "Al", "C5H2O1N1"}) : r.pick({"Al", "Cu", "C", "SiO2"}), r4(r.real(1, 3)), r4(r.logreal(1e-4, 0.01)), r.chance(0.7) ? 1.0 : r4(r.real(0.5, 0.9))));
                fs.push_back(f);
            }
            put(cat(atten ? "x.atten" : "x.filters", n, fs));
        }
        for (int atten = 0; atten < 2; atten++) if (r.chance(0.2)) {
            VS ts;
            for (long i = r.chance(0.4) ? 1 : r.range(2, 3); i > 0; i--) { S t = newTab(); if (std::find(ts.begin(), ts.end(), t) == ts.end()) ts.push_back(t); }
            put(cat(atten ? "x.uatten" : "x.ufilters", n, ts));
        }
        if (r.chance(0.5)) { S d = newDet(); put(cat("y.set", d, "diameter", r4(r.real(0.2, 1)))); put(cat("x.det", n, d)); }
        return names;
    }
    S fluoSpec(const VS & names, bool single = false) {
        VS el, fam;
        VD lay;
        long want = r.range(1, single ? 1 : 4);
        bool perLine = r.chance(0.4);
        std::set<S> used;
        for (int tries = 0; tries < 12 && (long) el.size() < want; tries++) {
            size_t k = r.below(names.size());
            std::vector<std::pair<S, S> > l = lines(names[k]);
            auto p = l[r.below(l.size())];
            if (!used.insert(p.first + p.second[0]).second) continue;
            el.push_back(p.first); fam.push_back(p.second);
            lay.push_back(perLine && r.chance(0.6) ? (double) k : -1.0);
        }
        if (!perLine) lay.assign(1, r.chance(0.7) ? -1.0 : (double) r.below(names.size()));
        long sec = r.chance(0.45) ? 0 : (r.chance(0.75) ? 1 : 2);
        return cat(toS(el), fam, lay, sec, (int) r.chance(0.7), (int) r.chance(0.3), r.chance(0.85) ? 0.0 : r.pick(VD{1e-9, 1e-9, 1e-3, 0.3}));
    }
    void fluo(const S & n, const S & l, const VS & names) {
        switch (r.below(6)) {
        case 0: case 1: put(af(cat("f.split", n, l, (long) r.below(100000), (long) r.below(3), fluoSpec(names)), 4000)); break;
        case 2: put(cat("f.subset", n, l, (long) r.below(100000), fluoSpec(names))); break;
        case 3: {
            std::vector<std::pair<S, S> > k = lines(names[r.below(names.size())]);
            auto p = k[r.below(k.size())];
            put(af(cat("f.one", n, l, p.first, (long) r.below(names.size()), r.chance(0.05) ? S("-") : p.second, (long) r.below(2), (int) r.chance(0.7), (int) r.chance(0.3)) + (r.chance(0.4) ? " 1" : ""), 4000));
            break;
        }
        default: put(af(cat("f.all", n, l, fluoSpec(names)), 4000));
        }
    }
    void xq(const S & n, const S & l, const VS & names) {
        S k = r.pick({"eff", "thr", "comp", "mu1", "muv", "tr1", "trv", "peak"});
        if (k == "thr") put(af(cat("x.q", n, l, "thr", r.pick({"Fe", "Pb", "Cu"}), r.pick({"K", "L", "L3", "M"})), 60));
        else put(af(cat("x.q", n, l, k, (long) r.below(names.size()), ens(1, 3), r.chance(0.7) ? 90.0 : 45.0), 900));
    }
    // ------------------------------------------------------------ readers
    void spec(bool library) {
        S n = "R" + std::to_string(r.below(2));
        auto path = [&]() -> S {
            if (library && r.chance(0.3)) return "/sim/v/" + S(r.pick({"KShellRates.dat", "EADL97_LShellConstants.dat", "BindingEnergies.dat", "XCOM_CrossSections.dat", "EADL97_MShellRadiativeRates.dat"})) + "/" + r.pick({"orig", "cr", "t500", "t123", "extra", "p5", "empty", "noscan", "nolabel"});
            if (r.chance(0.03)) return "/sim/s/missing";
            return "/sim/s/" + std::to_string(r.below(3000));
        };
        long scans = r.range(-1, 6);
        switch (r.below(8)) {
        case 0: put(af(ff(cat("s.new", n) + (r.chance(0.6) ? " " + path() : ""), 1, 4, false), 60)); break;
        case 1: case 2: { S s = ff(cat("s.file", n, as(r.chance(0.7) ? n : S("spec"), path())), 1, 4, false); put(s.find('@') == S::npos ? af(s, 60) : s); break; }
        case 3: case 4: { S s = shorter(ff(cat("s.labels", n, scans), 1, 4, false)); put(s.find('@') == S::npos ? af(s, 60) : s); break; }
        case 5: case 6: { S s = shorter(ff(cat("s.data", n, scans), 1, 4, false)); put(s.find('@') == S::npos ? af(s, 200) : s); break; }
        default: puta(cat("s.copy", "R" + std::to_string(r.below(2)), n), 10);
        }
    }
    void ini() {
        S n = "I" + std::to_string(r.below(2));
        auto path = [&]() -> S { if (r.chance(0.03)) return "/sim/i/missing"; S p = "/sim/i/" + std::to_string(r.below(3000)); if (r.chance(0.2)) p += "." + std::to_string(r.below(60)); return p; };
        auto sec = [&]() -> S { return r.pick({"fit", "FIT", "Fit", "materials", "Materials.Air", "materials.goethite", "MATERIALS.AIR", "peaks", "x", "Materials", "a~section", "result", "-", "MaterialsX", "nothing", "Materials.Air.sub"}); };
        switch (r.below(8)) {
        case 0: put(af(ff(cat("i.new", n) + (r.chance(0.7) ? " " + as("ini", path()) : ""), 1, 4, false), 100)); break;
        case 1: case 2: case 3: { S s = ff(cat("i.read", n, as("ini", path())), 1, 4, false); put(s.find('@') == S::npos ? af(s, 200) : s); break; }
        case 4: put(af(cat("i.sec", n, sec(), (int) r.below(2)), 40)); break;
        case 5: put(af(cat("i.sub", n, sec(), (int) r.below(2)), 40)); break;
        case 6: {
            S kind = r.pick({"doubles", "ints", "strings", "double"});
            S text = kind == "ints" ? r.pick({"1,2,3", "7", "-", "1,,3", "1,2,", "~a~b,c", "None", "-4,12", "x,5,y"}) : r.pick({"1,2,3", "~1.5,~2e3,None", "7", "-", "1,,3", "1,2,", "~a~b,c", "12.75", "None", "1e-3,-4", "x,5,y", "2.5,Fe,3"});
            put(af(cat("i.val", kind, text, r.pick({"0", "-1", "3"})), 40));
        } break;
        default: put(cat("i.copy", "I" + std::to_string(r.below(2)), n));
        }
    }
    S dirName() {
        if (r.chance(0.25)) return "/sim/data";
        if (r.chance(0.05)) return "/sim/nowhere";
        S v = r.pick({"miss", "miss", "empty", "noscan", "nolabel", "row", "t", "junk", "extra", "p", "p", "cr", "orig"});
        if (v == "row" || v == "junk" || v == "p") v += std::to_string(r.below(20));
        if (v == "t") v += std::to_string(r.range(1, 990));
        if (v == "orig") return "/sim/d/orig";
        return "/sim/d/" + v + "." + std::to_string(r.below(19));
    }
    void photon() {
        S n = "H" + std::to_string(r.below(2));
        switch (r.below(10)) {
        case 0: { S s = cat("p.new", n); if (r.chance(0.8)) s = ff(s + " " + as("dir", dirName()), 30, 200, false); put(s.find('@') == S::npos ? af(s, 20000) : s); break; }
        case 1: puta(cat("p.copy", "H" + std::to_string(r.below(2)), n), 4000); break;
        case 2: { S s = ff(cat("p.dir", n, as("dir", dirName())), 30, 200, false); put(s.find('@') == S::npos ? af(s, 20000) : s); break; }
        case 3: { S s = ff(cat("p.be", n, as("be", "/sim/v/" + S(r.pick({"BindingEnergies.dat", "EADL97_BindingEnergies.dat"})) + "/" + (r.chance(0.5) ? variant() : S("orig")))), 4, 20, false); put(s.find('@') == S::npos ? af(s, 3000) : s); break; }
        case 4: { VS l; VD v; double e = r.logreal(1, 80); int k = (int) r.range(1, 10); for (int i = 0; i < k; i++) { static const char * const N[] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "N1"}; l.push_back(N[i]); v.push_back(r4(e)); e *= i == 0 || i == 3 ? 0.2 : 0.93; } puta(cat("p.setbe", n, (long) (r.chance(0.06) ? r.range(-1, 0) : r.range(1, 100)), l, v), 40); break; }
        default: {
            S k = r.pick({"mu1", "muv", "table", "w1", "wv", "be"});
            put(af(cat("p.q", n, k, (long) r.range(1, 99), ens(1, 5)), 300));
        } }
    }
};

// ---------------------------------------------------------------- the profiles
static void genC01(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.2) ? 0.15 : 0;
    if (r.chance(0.3)) {
        S l = g.newLib();
        for (long n = r.range(12, 40); n > 0; n--) switch (r.below(8)) {
            case 0: case 1: case 2: g.libCache(l); break;
            case 3: g.libMu(l); break;
            case 4: if (r.chance(0.3)) g.libFile(l, 0.05); else g.put(cat("l.upd", l, g.sym(), g.pool)); break;
            default: g.put(cat("l.q", l, r.chance(0.5) ? "el" : "elw", g.sym(), g.elq(r.chance(0.25))));
        }
        return;
    }
    for (long n = r.range(1, 3); n > 0; n--) g.newEl(r.chance(0.4));
    if (r.chance(0.04)) {
        // more energies than the cache may hold
        S n = "Z";
        o.push_back("e.blank Z Zz 3");
        o.push_back("e.mu Z 0.1,1,10,200 50,5,0.5,0.05 1,0.5,0.1,0.01 0.1,0.1,0.1,0.1 -");
        g.els.push_back(n);
        o.push_back("e.cache Z 1");
        o.push_back("e.fill Z range:1:100:" + std::to_string(r.range(9990, 10000)));
        for (int k = 0; k < 3; k++) { o.push_back("e.upd Z range:" + num(r4(r.real(0.2, 0.9))) + ":199:" + std::to_string(r.range(1, 30))); g.elq(n, false); }
    }
    for (long n = r.range(15, 60); n > 0; n--) {
        S e = g.el();
        switch (r.below(10)) {
        case 0: case 1: case 2: g.elCache(e); break;
        case 3: case 4: g.elementChange(e); break;
        case 5: if (r.chance(0.3)) g.elCascade(e); else g.elq(e, true); break;
        default: g.elq(e, false);
        }
        if (r.chance(0.03)) { S b = g.el(); o.push_back(cat(r.chance(0.5) ? "e.copy" : "e.assign", b, e)); }
    }
}
static void genC02(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.2) ? 0.15 : 0;
    if (r.chance(0.3)) {
        S l = g.newLib();
        for (long n = r.range(8, 30); n > 0; n--) switch (r.below(6)) {
            case 0: case 1: g.puta(cat("l.cas", l, g.sym(), r.pick({"on", "off", "fill", "empty", "fill"})), 800); break;
            case 2: if (r.chance(0.4)) g.libFile(l, 0.1); else g.libCache(l); break;
            default: g.put(cat("l.q", l, r.chance(0.5) ? "el" : "elw", g.sym(), g.elq(true)));
        }
        return;
    }
    for (long n = r.range(1, 2); n > 0; n--) g.newEl(r.chance(0.4));
    for (long n = r.range(15, 50); n > 0; n--) {
        S e = g.el();
        switch (r.below(10)) {
        case 0: case 1: g.elCascade(e); break;
        case 2: g.putCon(e); break;
        case 3: if (r.chance(0.5)) g.putRad(e); else g.putNon(e); break;
        case 4: if (r.chance(0.2)) g.putBe(e); else if (r.chance(0.3)) g.elCache(e); else g.elCascade(e); break;
        default: g.elq(e, true);
        }
        if (r.chance(0.03)) { S b = g.el(); o.push_back(cat(r.chance(0.5) ? "e.copy" : "e.assign", b, e)); }
    }
}
static void genC03(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.2) ? 0.15 : 0;
    g.pool.clear();
    for (int i = 0; i < 4; i++) g.pool.push_back(r4(r.real(2, 40)));
    g.focus = {"Si", "Ge"};
    S l = g.newLib();
    for (long n = r.range(1, 2); n > 0; n--) g.newDet();
    bool materials = r.chance(0.3);
    for (long n = r.range(12, 40); n > 0; n--) switch (r.below(12)) {
        case 0: case 1: case 2: case 3: g.libEscape(l); break;
        case 4: case 5: case 6: g.detEsc(g.det()); break;
        case 7: g.laySet(g.det(), true); break;
        case 8: if (r.chance(0.4)) g.puta(cat("d.clear", g.det()), 4); else g.detEsc(g.det()); break;
        case 9: if (r.chance(0.5)) g.puta(cat("l.cas", l, r.pick({"Si", "Ge", "O", "Cd"}), r.pick({"on", "off", "fill", "empty"})), 500); else if (r.chance(0.5)) g.libMu(l); else g.libFile(l, 0.1); break;
        case 10: if (materials) g.libMaterial(l); else g.libEscape(l); break;
        default: if (r.chance(0.2)) { S d = g.det(); o.push_back(cat("y.copy", "D9", d)); g.detEsc("D9"); } else g.libEscape(l);
    }
}
static void genC04(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.35) ? 0.25 : 0;
    S x = g.newX();
    VS names = g.goodX(x, 2);
    S l = r.chance(0.5) ? S(r.chance(0.5) ? "base0" : "base1") : g.newLib();
    for (long n = r.range(3, 9); n > 0; n--) {
        g.fluo(x, l, names);
        if (r.chance(0.2)) names = g.goodX(x, 2);
        if (r.chance(0.1)) { S d = g.det(); g.laySet(d, true); o.push_back(cat("x.det", x, d)); }
        if (r.chance(0.1)) { o.push_back(cat("x.copy", "X9", x)); g.fluo("X9", l, names); }
        if (g.libs.size() && r.chance(0.2)) g.libCache(l);
        if (g.libs.size() && r.chance(0.1)) g.libEscape(l);
    }
}
static void genC05(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.02;
    S l = g.newLib();
    for (long n = r.range(0, 2); n > 0; n--) g.newEl(r.chance(0.4));
    VS names;
    S x;
    if (r.chance(0.5)) { x = g.newX(); names = g.goodX(x, 1); }
    bool det = r.chance(0.4), photon = r.chance(0.25);
    if (det) g.newDet();
    if (photon) o.push_back("p.new H0 /sim/data");
    for (long n = r.range(0, 3); n > 0; n--) g.libMaterial(l);
    for (long n = r.range(10, 40); n > 0; n--) switch (r.below(12)) {
        case 0: case 1: case 2: g.libq(l); break;
        case 3: if (g.els.size()) { g.elq(g.el(), r.chance(0.4)); break; } /* fallthrough */
        case 4: g.libq(l); break;
        case 5: if (x.size()) g.xq(x, r.chance(0.6) ? l : S("base0"), names); else g.libq(l); break;
        case 6: case 7: if (x.size()) g.fluo(x, r.chance(0.6) ? l : S("base0"), names); else g.libq(l); break;
        case 8: if (det) g.detEsc(g.det()); else g.layQ(g.lay()); break;
        case 9: if (photon) g.photon(); else g.layQ(g.lay()); break;
        case 10: if (r.chance(0.5)) o.push_back(cat("t.q", g.tab(), g.ens(1, 4))); else g.libq(l); break;
        default:
            if (r.chance(0.3)) g.libCache(l);
            else if (r.chance(0.2)) g.libMu(l);
            else if (r.chance(0.3) && g.els.size()) g.elCache(g.el());
            else if (r.chance(0.3)) g.libEscape(l);
            else g.libq(l);
    }
}
// threads asking questions on shared objects
static void genC06(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.03;
    S l, x, base = r.chance(0.5) ? "base0" : "base1";
    VS names;
    bool fluo = r.chance(0.45);
    // shared objects, in any state of their caches
    if (r.chance(0.75)) {
        l = g.newLib();
        if (r.chance(0.3)) g.libMu(l);
        for (long n = r.range(0, 4); n > 0; n--) g.libMaterial(l);
        for (long n = r.range(0, 4); n > 0; n--) {
            S e = g.sym();
            o.push_back(cat("l.cache", l, e, 1));
            if (r.chance(0.8)) o.push_back(cat(r.pick({"l.fill", "l.upd"}), l, e, r.chance(0.5) ? g.pool : g.ens(1, 5)));
        }
        for (long n = r.range(0, 3); n > 0; n--) { S e = g.sym(); o.push_back(cat("l.cas", l, e, "on")); if (r.chance(0.9)) o.push_back(cat("l.cas", l, e, "fill")); }
        if (r.chance(0.4)) o.push_back(cat("l.esc", l, 1));
        if (r.chance(0.4)) o.push_back(cat("l.escupd", l, r.pick({"Si=1", "Ge=1", "Si=1+O=2"}), "0.01", "1e-07", 4, "90", "0", g.ens(1, 4)));
    }
    S lib = l.size() ? l : base;
    for (long n = r.range(0, 2); n > 0; n--) {
        S e = g.newEl(r.chance(0.4));
        if (r.chance(0.6)) { o.push_back(cat("e.cache", e, 1)); if (r.chance(0.8)) o.push_back(cat(r.pick({"e.fill", "e.upd"}), e, r.chance(0.5) ? g.pool : g.ens(1, 6))); }
        if (r.chance(0.6)) { o.push_back(cat("e.cas", e, 1)); o.push_back(cat("e.casfill", e)); }
    }
    bool ph = r.chance(0.25);
    if (ph) { o.push_back("p.new H0 /sim/data"); if (r.chance(0.3)) g.photon(); }
    if (fluo) { x = g.newX(); names = g.goodX(x, 1); }
    for (long n = r.range(0, 2); n > 0; n--) g.newLay();
    if (r.chance(0.3)) { g.newTab(); g.newTab(); }
    bool readers = r.chance(0.2), ownDet = r.chance(0.3);
    long nt = r.chance(0.6) ? 2 : r.range(2, 4);
    for (long k = 0; k < nt; k++) {
        if (readers) { o.push_back(cat("s.new", "R" + std::to_string(k), "/sim/s/" + std::to_string(r.below(3000)))); o.push_back(cat("i.new", "I" + std::to_string(k), "/sim/i/" + std::to_string(r.below(3000)))); }
        if (ownDet) o.push_back(cat("d.new", "D" + std::to_string(5 + k), r.pick({"Si", "Ge", "CdTe"}), r4(r.real(1, 8)), r4(r.logreal(0.005, 0.5)), 1.0));
    }
    long rounds = r.chance(0.8) ? 1 : 2;
    while (rounds--) {
        // the threads often ask the same kind of question: they meet in the same code
        int kind = r.chance(0.5) ? (int) r.below(9) : -1;
        S twice = r.chance(0.3) ? g.libq() : S();
        VS mark = o;
        for (long k = 0; k < nt; k++) for (long n = r.logint(1, 5); n > 0; n--) {
            VS save;
            save.swap(o);
            switch (kind >= 0 && r.chance(0.8) ? kind : (int) r.below(9)) {
            case 0: case 1: o.push_back(cat("l.q", lib, twice.size() && r.chance(0.5) ? twice : g.libq())); break;
            case 2: if (g.els.size()) { g.elq(g.el(), r.chance(0.4)); break; } o.push_back(cat("l.q", lib, r.chance(0.5) ? "el" : "elw", g.sym(), g.elq(r.chance(0.3)))); break;
            case 3: if (fluo) { g.fluo(x, lib, names); break; } o.push_back(cat("l.q", lib, "peak", g.anyName(), g.en())); break;
            case 4: if (fluo) { g.xq(x, lib, names); break; } o.push_back(cat("l.q", lib, "muc", g.anyName(), g.en())); break;
            case 5: if (g.lays.size()) { o.push_back(cat("y.q", g.lays[r.below(g.lays.size())], lib, r.pick({"comp", "mu1", "muv", "tr1", "trv", "peak"}), g.ens(1, 4), r.chance(0.7) ? 90.0 : r4(r.real(10, 90)))); break; } o.push_back(cat("l.q", lib, g.libq())); break;
            case 6: if (ph) { o.push_back(cat("p.q", "H0", r.pick({"mu1", "muv", "table", "w1", "wv", "be"}), (long) r.range(1, 99), g.ens(1, 5))); break; } o.push_back(cat("l.q", lib, "comp", g.anyName())); break;
            case 7:
                if (g.tabs.size() && r.chance(0.5)) { o.push_back(cat("t.q", g.tabs[r.below(g.tabs.size())], g.ens(1, 4))); break; }
                if (readers) {
                    S R = "R" + std::to_string(k), I = "I" + std::to_string(k);
                    switch (r.below(4)) {
                    case 0: o.push_back(cat(r.pick({"s.labels", "s.data"}), R, r.range(0, 5))); break;
                    case 1: o.push_back(cat("s.file", R, "/sim/s/" + std::to_string(r.below(3000)))); break;
                    case 2: o.push_back(cat("i.sec", I, r.pick({"fit", "materials", "peaks", "x"}), 0)); break;
                    default: o.push_back(cat("i.read", I, "/sim/i/" + std::to_string(r.below(3000))));
                    }
                    break;
                }
                o.push_back(cat("l.q", lib, "mucomp", "Fe2O3=0.5+SiO2=0.5", g.en(), 1)); break;
            default:
                if (ownDet) { o.push_back(cat("d.esc", "D" + std::to_string(5 + k), lib, g.en(), r.chance(0.5) ? S("-") : S("a"), 0)); break; }
                o.push_back(cat("l.q", lib, "esc", r.pick({"Si=1", "Ge=1"}), 0.010, 1e-7, 4L, "90", "0", g.en()));
            }
            save.swap(o);
            for (auto & q : save) o.push_back(cat("th", k, q));
        }
        S st;
        switch (r.below(6)) {
        case 0: case 1: st = "hot"; break;
        case 2: st = "uni:" + num(r4(r.logreal(1e-6, 1e-2))); break;
        case 3: st = "fun:" + num(r4(r.logreal(0.0005, 0.1))); break;
        case 4: st = "sync"; break;
        default: st = "few:" + std::to_string(r.range(1, 8));
        }
        o.push_back(cat("par", (long) r.below(1u << 30), st));
    }
}
static void genC07(Rng & r, VS & o) {
    G g(r, o);
    g.pFs = r.chance(0.7) ? 0.35 : 0;
    g.pAlloc = r.chance(0.3) ? 0.2 : 0;
    o.push_back("s.new R0"); o.push_back("s.new R1");
    for (long n = r.range(6, 30); n > 0; n--) g.spec(true);
}
static void genC08(Rng & r, VS & o) {
    G g(r, o);
    g.pFs = 0.4;
    g.pAlloc = r.chance(0.3) ? 0.15 : 0;
    S l = g.newLib();
    if (r.chance(0.2)) { S e = g.newEl(true); o.push_back(cat("l.add", l, e)); }
    if (r.chance(0.3)) for (int i = 0; i < 3; i++) g.libCache(l);
    for (long n = r.range(2, 7); n > 0; n--) {
        g.libFile(l);
        if (r.chance(0.15)) g.libMu(l);
        if (r.chance(0.2)) g.libCache(l);
        if (r.chance(0.2)) g.libq(l);
        if (r.chance(0.08)) { S q = "V"; o.push_back(cat("l.copy", q, l)); g.libKind[q] = g.libKind[l]; }
    }
}
static void genC09(Rng & r, VS & o) {
    G g(r, o);
    g.pFs = 0.5;
    g.pAlloc = r.chance(0.3) ? 0.3 : 0;
    if (r.chance(0.45)) {
        for (long n = r.range(3, 9); n > 0; n--) g.photon();
        return;
    }
    for (long n = r.range(1, 2); n > 0; n--) {
        int kind = (int) r.below(5);
        S d = g.dirName();
        S s = cat("l.new", "P", kind, g.as("dir", d));
        if (r.chance(0.5)) s = g.ff(s, 60, 400, true, 1.0);
        else if (r.chance(0.2)) s = g.ff(s, 2, 10, true, 1.0);
        if (s.find('@') == S::npos) s = g.af(s, 300000);
        size_t at;
        while ((at = s.find("@sweep")) != S::npos) s = s.substr(0, at) + "@alloc=" + std::to_string(r.logint(1, 300000));
        o.push_back(s);
        if (r.chance(0.5)) o.push_back(cat("l.q", "P", g.libq()));
    }
}
static void genC10(Rng & r, VS & o) {
    G g(r, o);
    g.pFs = r.chance(0.6) ? 0.3 : 0;
    g.pAlloc = r.chance(0.3) ? 0.2 : 0;
    o.push_back("i.new I0"); o.push_back("i.new I1");
    for (long n = r.range(6, 30); n > 0; n--) g.ini();
}
static void genC11(Rng & r, VS & o) {
    G g(r, o);
    g.pFs = r.chance(0.6) ? 0.3 : 0;
    g.pAlloc = r.chance(0.3) ? 0.2 : 0;
    S x = g.newX();
    for (long n = r.range(2, 10); n > 0; n--) {
        g.xRead(r.chance(0.8) ? x : g.newX(), 0.25);
        if (r.chance(0.3)) g.xSet(g.x());
        if (r.chance(0.1)) o.push_back(cat("x.copy", "X9", g.x()));
    }
}
// a bit of everything
static void anything(G & g, const S & l, const S & x, const VS & names) {
    Rng & r = g.r;
    switch (r.below(22)) {
    case 0: g.elementChange(g.el()); break;
    case 1: g.elCache(g.el()); break;
    case 2: g.elCascade(g.el()); break;
    case 3: g.elq(g.el(), r.chance(0.5)); break;
    case 4: { S a = g.el(), b = r.pick({"A", "B", "C", "D"}); if (std::find(g.els.begin(), g.els.end(), b) == g.els.end()) { if (a == b) break; g.els.push_back(b); g.puta(cat("e.copy", b, a), 120); } else g.puta(cat(r.chance(0.5) ? "e.copy" : "e.assign", b, a), 120); break; }
    case 5: if (l.size()) g.libMaterial(l); else g.matAny(g.mat()); break;
    case 6: if (l.size()) g.libq(l); else g.elq(g.el(), false); break;
    case 7: if (l.size()) g.libCache(l); else g.elCache(g.el()); break;
    case 8: if (l.size()) g.libMu(l); else g.elementChange(g.el()); break;
    case 9: if (l.size()) g.libEscape(l); else g.detEsc(g.det()); break;
    case 10: if (l.size()) { S e = g.el(); g.puta(cat("l.add", l, e) + (r.chance(0.3) ? " 1" : ""), 200); } break;
    case 11: g.detEsc(g.det()); break;
    case 12: { bool d = r.chance(0.5); g.laySet(d ? g.det() : g.lay(), d); break; }
    case 13: g.layQ(g.lay()); break;
    case 14: g.tabAny(g.tab()); break;
    case 15: g.matAny(g.mat()); break;
    case 16: g.beamAny(g.beam()); break;
    case 17: case 18: g.xSet(g.x()); break;
    case 19: if (names.size()) g.fluo(x, l.size() && r.chance(0.6) ? l : S("base0"), names); else g.xSet(g.x()); break;
    case 20: if (names.size()) g.xq(x, l.size() && r.chance(0.6) ? l : S("base0"), names); break;
    default: if (r.chance(0.5)) g.ini(); else g.spec(false);
    }
}
static void genC12(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.real(0.2, 0.7);
    S l, x;
    VS names;
    if (r.chance(0.4)) l = g.newLib();
    if (r.chance(0.35)) { x = g.newX(); names = g.goodX(x, 1); }
    o.push_back("s.new R0"); o.push_back("i.new I0");
    long n = r.range(6, 22);
    for (; n > 0; n--) {
        anything(g, l, x, names);
        if (r.chance(0.06)) g.photon();
        if (l.size() && r.chance(0.06)) g.libFile(l, 0.1);
        if (r.chance(0.05)) g.puta(cat("l.copy", r.chance(0.5) ? "V" : "P", l.size() ? l : S("base0")), 45000);
    }
}
static void genC13(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.6) ? 0.25 : 0;
    g.pFs = 0.3;
    g.pInvalid = 0.2;
    S l, x;
    VS names;
    if (r.chance(0.3)) l = g.newLib();
    if (r.chance(0.25)) { x = g.newX(); names = g.goodX(x, 1); }
    o.push_back("s.new R0"); o.push_back("i.new I0");
    for (long n = r.range(5, 18); n > 0; n--) {
        switch (r.below(6)) {
        case 0: g.spec(true); break;
        case 1: g.ini(); break;
        case 2: if (l.size()) g.libFile(l, 0.4); else g.xRead(g.x(), 0.3); break;
        case 3: if (r.chance(0.3)) g.photon(); else g.xRead(g.x(), 0.3); break;
        default: anything(g, l, x, names);
        }
    }
    if (r.chance(0.06)) o.push_back(g.ff(cat("l.new", "P", (long) r.below(5), g.as("dir", g.dirName())), 40, 300, true));
}
static void genC14(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.12;
    g.pAlloc = r.chance(0.3) ? 0.2 : 0;
    S l = g.newLib();
    for (long n = r.range(8, 30); n > 0; n--) switch (r.below(8)) {
        case 0: o.push_back(cat("l.q", l, "comp", g.anyName())); break;
        case 1: { VS k; VD v; o.push_back(cat("l.q", l, r.chance(0.5) ? "muc" : "mat", g.matName(), g.en())); break; }
        case 2: g.libq(l); break;
        case 3: if (r.chance(0.15)) { o.push_back(cat("l.copy", "V", l)); g.libKind["V"] = g.libKind[l]; g.libMaterial("V"); g.libMaterial(l); } else g.libMaterial(l); break;
        default: g.libMaterial(l);
    }
}
static void genC15(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.03;
    g.pAlloc = r.chance(0.3) ? 0.15 : 0;
    int kind = (int) r.below(8);
    if (kind <= 2) {
        g.newEl(r.chance(0.4));
        VS e = {"A", "B", "C"};
        S a = g.els[0];
        if (r.chance(0.6)) g.elCache(a);
        if (r.chance(0.6)) g.elCascade(a);
        for (auto & b : e) if (b != a) { g.puta(cat("e.copy", b, a), 150); if (std::find(g.els.begin(), g.els.end(), b) == g.els.end()) g.els.push_back(b); }
        for (long n = r.range(6, 25); n > 0; n--) {
            S b = g.el();
            switch (r.below(7)) { case 0: case 1: g.elementChange(b); break; case 2: g.elCache(b); break; case 3: g.elCascade(b); break; case 4: { S c = g.el(); g.puta(cat(r.chance(0.5) ? "e.copy" : "e.assign", c, b), 150); break; } case 5: o.push_back(cat("e.check", b)); break; default: g.elq(b, r.chance(0.5)); }
            if (r.chance(0.05)) { o.push_back(cat("e.del", b)); g.els.erase(std::find(g.els.begin(), g.els.end(), b)); }
        }
    } else if (kind <= 4) {
        S l = g.newLib();
        bool escapes = r.chance(0.4);   // a history about escape peaks
        if (escapes) { g.focus = {"Si", "Ge"}; g.pool.resize(2); o.push_back(cat("l.esc", l, 1)); g.libEscape(l); }
        for (int i = 0; i < 3; i++) { if (r.chance(0.5)) g.libMaterial(l); if (r.chance(0.5)) g.libCache(l); if (r.chance(0.3)) g.libEscape(l); }
        o.push_back(cat("l.copy", "V", l));
        g.libKind["V"] = g.libKind[l];
        VS two = {l, "V"};
        if (r.chance(0.5)) { S e = g.newEl(r.chance(0.5)); }
        for (long n = r.range(4, 14); n > 0; n--) {
            S k = two[r.below(2)];
            if (escapes && r.chance(0.5)) { g.libEscape(k); continue; }
            switch (r.below(9)) {
            case 0: case 1: g.libMaterial(k); break;
            case 2: g.libCache(k); break;
            case 3: g.libMu(k); break;
            case 4: g.libFile(k, 0.1); break;
            case 5: g.libEscape(k); break;
            case 6: if (r.chance(0.5)) o.push_back(cat("l.take", "A", k, g.sym(), (int) r.below(2))); if (std::find(g.els.begin(), g.els.end(), "A") == g.els.end()) g.els.push_back("A"); g.elementChange("A"); break;
            case 7: if (g.els.size()) { o.push_back(cat("l.add", k, g.el(), 1)); break; } /* fallthrough */
            default: g.libq(k);
            }
            if (r.chance(0.1)) o.push_back("l.check " + two[r.below(2)]);
        }
        if (r.chance(0.4)) { o.push_back("l.del " + two[r.below(2)]); }
    } else if (kind <= 6) {
        S x = g.newX();
        VS names;
        if (r.chance(0.6)) names = g.goodX(x, 1); else for (int i = 0; i < 4; i++) g.xSet(x);
        o.push_back(cat("x.copy", "X9", x));
        VS two = {x, "X9"};
        for (long n = r.range(4, 16); n > 0; n--) {
            S k = two[r.below(2)];
            if (names.size() && r.chance(0.25)) g.fluo(k, "base0", names); else { g.xSet(k); if (k == x || true) names.clear(); }
            if (r.chance(0.1)) g.puta(cat("x.copy", two[r.below(2)], two[r.below(2)]), 80);
            o.push_back("x.check " + two[r.below(2)]);
        }
        if (r.chance(0.5)) { o.push_back("x.del " + x); o.push_back("x.check X9"); }
    } else {
        S d = g.newDet(), t = g.newTab(), m = g.newMat(), b = g.newBeam(), y = g.newLay();
        g.detEsc(d);
        o.push_back(cat("y.copy", "D9", d)); o.push_back(cat("y.copy", "Y9", y)); o.push_back(cat("t.copy", "T9", t)); o.push_back(cat("m.copy", "M9", m)); o.push_back(cat("b.copy", "B9", b));
        for (long n = r.range(6, 20); n > 0; n--) switch (r.below(6)) {
            case 0: g.laySet(r.chance(0.5) ? d : S("D9"), true); break;
            case 1: g.laySet(r.chance(0.5) ? y : S("Y9"), false); break;
            case 2: g.tabAny(r.chance(0.5) ? t : S("T9")); break;
            case 3: g.matAny(r.chance(0.5) ? m : S("M9")); break;
            case 4: g.beamAny(r.chance(0.5) ? b : S("B9")); break;
            default: g.detEsc(r.chance(0.5) ? d : S("D9"));
        }
    }
}
static void genC16(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.12;
    g.pAlloc = r.chance(0.5) ? 0.3 : 0;
    S x = g.newX();
    for (long n = r.range(8, 30); n > 0; n--) {
        if (r.chance(0.12)) g.beamAny(g.beam());
        else if (r.chance(0.05)) g.puta(cat("x.copy", "X" + std::to_string(r.below(3)), x), 80);
        else if (r.chance(0.1)) { VS names = g.goodX(x, 1); g.fluo(x, "base0", names); if (r.chance(0.5)) g.xq(x, "base0", names); }
        else g.xSet(r.chance(0.9) ? x : g.newX());
    }
}
static void genC17(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.35;
    g.pAlloc = r.chance(0.2) ? 0.15 : 0;
    for (long n = r.range(1, 3); n > 0; n--) g.newEl(r.chance(0.6));
    S l;
    if (r.chance(0.25)) l = g.newLib();
    for (long n = r.range(10, 35); n > 0; n--) {
        S e = g.el();
        switch (r.below(8)) {
        case 0: g.elq(e, r.chance(0.4)); break;
        case 1: if (r.chance(0.5)) g.elCache(e); else g.elCascade(e); break;
        case 2: if (l.size()) { if (r.chance(0.5)) g.libMu(l); else o.push_back(cat("l.add", l, e)); break; } /* fallthrough */
        default: g.elementChange(e);
        }
    }
}
static void genC18(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.15;
    g.pAlloc = r.chance(0.3) ? 0.2 : 0;
    S l;
    if (r.chance(0.3)) l = g.newLib();
    for (long n = r.range(10, 35); n > 0; n--) switch (r.below(10)) {
        case 0: case 1: case 2: g.tabAny(g.tab()); break;
        case 3: case 4: g.matAny(g.mat()); break;
        case 5: g.laySet(g.lay(), false); break;
        case 6: g.laySet(g.det(), true); break;
        case 7: g.layQ(r.chance(0.6) ? g.lay() : g.det()); break;
        case 8: switch (r.below(4)) { case 0: g.puta(cat("y.copy", "Y9", g.lay()), 20); break; case 1: g.puta(cat("t.copy", "T9", g.tab()), 20); break; case 2: g.puta(cat("m.copy", "M9", g.mat()), 20); break; default: g.puta(cat("y.copy", "D9", g.det()), 20); } break;
        default: if (l.size() && r.chance(0.5)) g.libMaterial(l); else if (r.chance(0.5)) g.newTab(); else if (r.chance(0.5)) g.newMat(); else g.newDet();
    }
}
static void genC19(Rng & r, VS & o) {
    G g(r, o);
    g.pInvalid = 0.05;
    g.pAlloc = r.chance(0.15) ? 0.1 : 0;
    g.pFs = r.chance(0.2) ? 0.1 : 0;
    S l, x;
    VS names;
    for (long n = r.range(0, 2); n > 0; n--) g.newEl(true);
    if (r.chance(0.35)) l = g.newLib();
    if (r.chance(0.5)) { x = g.newX(); if (r.chance(0.7)) names = g.goodX(x, 1); }
    o.push_back("s.new R0"); o.push_back("i.new I0");
    if (r.chance(0.3)) { S e = "E"; o.push_back("e.blank E Ee 7"); g.els.push_back(e); for (int i = 0; i < 3; i++) g.elq(e, r.chance(0.3)); }
    if (r.chance(0.3)) { g.newDet(); g.detEsc(g.det()); }
    if (r.chance(0.1)) { g.photon(); g.photon(); }
    for (long n = r.range(6, 25); n > 0; n--) anything(g, l, x, names);
    if (r.chance(0.05)) o.push_back(cat("l.new", "P", (long) r.below(5)));
}

// ---------------------------------------------------------------- against the model
// texts that look like formulas: groups in groups, fractional amounts, mistakes
static S anyFormula(G & g, bool good = false) {
    Rng & r = g.r;
    std::function<S(int)> group = [&](int depth) {
        S s;
        for (long n = r.range(1, depth ? 3 : 4); n > 0; n--) {
            if (depth < 4 && r.chance(depth ? 0.25 : 0.35)) s += "(" + group(depth + 1) + ")";
            else s += r.chance(0.03) && !good ? S(r.pick({"Xx", "Qq", "D", "Abc", "Uuo"})) : r.chance(0.5) ? g.sym() : S(r.pick({"H", "He", "C", "Ca", "Co", "N", "Na", "Ni", "O", "Os", "P", "Pb", "Po", "S", "Si", "Sn", "Sc", "K", "Kr", "F", "Fe", "Fr", "B", "Be", "U", "Y", "Yb", "I", "In", "W", "V", "Lr", "Mt"}));
            switch (r.below(8)) {
            case 0: case 1: case 2: s += std::to_string(r.range(2, 12)); break;
            case 3: s += num(r4(r.real(0.01, 4))); break;
            case 4: if (r.chance(0.3)) s += r.pick({"100", "0.001", "1000000", "0.5", ".5", "2.", "12.3456789", "1", "1.0", "0123"}); break;
            default:;
            }
        }
        return s;
    };
    S s = group(0);
    if (good || r.chance(0.8)) return s;
    for (long n = r.range(1, 2); n > 0; n--) {
        size_t at = r.below(s.size() + 1);
        switch (r.below(4)) {
        case 0: s.insert(at, r.pick({"(", ")", "()", "-1", "-", "~", "2", "a", "O", ".", ",", "e5", "0", "\xc3\xa9", "_"})); break;
        case 1: if (at < s.size() && s.size() > 1) s.erase(at, 1); break;
        case 2: if (at < s.size()) s[at] = (char) (r.chance(0.5) ? tolower((unsigned char) s[at]) : toupper((unsigned char) s[at])); break;
        default: if (s.size() > 1) std::swap(s[r.below(s.size())], s[r.below(s.size())]);
        }
    }
    return s;
}
static void modelElement(G & g, const S & e, const S & kind) {
    // kind: which data and questions matter
    Rng & r = g.r;
    switch (r.below(12)) {
    case 0: g.elCache(e); break;
    case 1: if (kind == "C20") r.chance(0.6) ? g.putMu(e) : g.putPart(e); else if (r.chance(0.5)) g.putCon(e); else r.chance(0.5) ? g.putRad(e) : g.putNon(e); break;
    case 2: g.elementChange(e); break;
    case 3: if (kind == "C22") g.elCascade(e); else g.elCache(e); break;
    default:
        if (kind == "C20") g.put(cat("e.q", e, r.chance(0.5) ? cat("mu1", g.en()) : r.chance(0.5) ? cat(r.pick({"muv"}), g.ens(1, 6)) : r.chance(0.6) ? cat("part", g.en()) : g.elq(false)));
        else if (r.chance(0.2)) g.put(cat("e.q", e, "dvt", g.shell(), g.shell()));
        else if (r.chance(0.15)) g.put(cat("e.q", e, r.pick({"flu", "aug", "ck", "yield", "rad", "non", "con"}), g.shell()));
        else if (r.chance(0.15)) g.put(cat("e.q", e, r.pick({"shells", "vac1", "emitted"}), g.en()));
        else g.elq(e, r.chance(0.8));
    }
}
static void modelStart(G & g, Rng & r, VS & o, S & l, double pDirectory) {
    if (r.chance(pDirectory)) {
        l = "P";
        g.libs.push_back(l);
        int k = (int) r.below(5);
        g.libKind[l] = k != 0;
        o.push_back(cat("l.new", l, (long) k));
    } else l = g.newLib();
}
static void genC20(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.25) ? 0.15 : 0;
    g.pFs = r.chance(0.25) ? 0.2 : 0;
    if (r.chance(0.4)) {
        for (long n = r.range(1, 3); n > 0; n--) g.newEl(r.chance(0.6));
        for (long n = r.range(20, 60); n > 0; n--) { S e = g.el(); modelElement(g, e, "C20"); if (r.chance(0.03)) { S b = g.el(); o.push_back(cat(r.chance(0.5) ? "e.copy" : "e.assign", b, e)); } }
        return;
    }
    S l;
    modelStart(g, r, o, l, 0.12);
    if (r.chance(0.3)) { g.newEl(r.chance(0.5)); }
    for (long n = r.range(0, 3); n > 0; n--) g.libMaterial(l);
    VS k; VD v;
    for (long n = r.range(12, 40); n > 0; n--) switch (r.below(16)) {
        case 0: case 1: g.libMu(l); break;
        case 2: if (r.chance(0.5)) g.put(g.ff(cat("l.file", l, "mac", r.pick({"K", "L", "M"}), g.as("data", "/sim/v/XCOM_CrossSections.dat/" + (r.chance(0.4) ? g.variant() : "p" + std::to_string(r.below(60))))), 198, 3000, true)); else g.libCache(l); break;
        case 3: g.libCache(l); break;
        case 4: g.libMaterial(l); break;
        case 5: if (g.els.size()) { S e = g.el(); modelElement(g, e, "C20"); if (r.chance(0.3)) g.puta(cat("l.add", l, e), 200); break; } /* fallthrough */
        case 6: case 7: case 8: g.put(cat("l.q", l, r.chance(0.5) ? "el" : "elw", g.sym(), r.chance(0.6) ? cat("mu1", g.en()) : r.chance(0.5) ? cat("muv", g.ens(1, 5)) : r.chance(0.5) ? cat("part", g.en()) : S("edges"))); break;
        case 9: case 10: g.put(cat("l.q", l, "muc", r.chance(0.4) ? anyFormula(g, true) : g.anyName(), g.en())); break;
        case 11: g.put(cat("l.q", l, "mucv", r.chance(0.4) ? anyFormula(g, true) : g.anyName(), g.ens(1, 5))); break;
        case 12: g.put(cat("l.q", l, "mucomp", g.comp("Paint", k, v), g.en(), (int) r.chance(0.8))); break;
        case 13: g.put(cat("l.q", l, "mucompv", g.comp("Paint", k, v), g.ens(1, 4), (int) r.chance(0.8))); break;
        case 14: g.put(cat("l.q", l, "muel", r.chance(0.8) ? g.sym() : g.anyName())); break;
        default:
            if (r.chance(0.3)) { S q = l == "P" ? "Q" : "P"; o.push_back(cat("l.copy", q, l)); g.libKind[q] = g.libKind[l]; if (r.chance(0.5)) l = q; }
            else if (r.chance(0.3)) { S e(1, (char) ('A' + r.below(4))); o.push_back(cat("l.take", l, g.sym(), e)); g.els.push_back(e); }
            else g.put(cat("l.check", l));
    }
}
static void genC21(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.25) ? 0.15 : 0;
    g.pInvalid = 0.08;
    S l;
    modelStart(g, r, o, l, 0.03);
    VS k; VD v;
    for (long n = r.range(15, 60); n > 0; n--) switch (r.below(14)) {
        case 0: case 1: case 2: g.put(g.af(cat("l.q", l, "compf", anyFormula(g)), 200)); break;
        case 3: case 4: case 5: g.put(g.af(cat("l.q", l, "parse", anyFormula(g)), 200)); break;
        case 6: g.put(g.af(cat("l.q", l, "comp", r.chance(0.5) ? anyFormula(g) : g.anyName()), 300)); break;
        case 7: if (r.chance(0.6)) { S top, m = g.matSpecs(top), c = g.comp("Paint", k, v); if (r.chance(0.6) && c.find(top + "=") == S::npos) c += "+" + top + "=0.5"; g.put(g.af(cat("l.q", l, "compmap", c, m), 300)); } else g.put(g.af(cat("l.q", l, "compmap", g.comp("Paint", k, v), "-"), 300)); break;
        case 8: if (r.chance(0.8)) { S top, m = g.matSpecs(top); g.put(g.af(cat("l.q", l, "compm", r.chance(0.85) ? top : r.chance(0.5) ? g.matName() : anyFormula(g), m), 300)); } else g.put(g.af(cat("l.q", l, "compm", anyFormula(g), "-"), 300)); break;
        case 9: {
            // an element of another mass, or a new one
            S e(1, (char) ('A' + r.below(4)));
            if (r.chance(0.6)) o.push_back(cat("e.base", e, g.sym(), (int) r.chance(0.4)));
            else o.push_back(cat("e.blank", e, r.pick({"Xx", "Fe", "Qq", "D", "O", "Abc"}), (long) r.range(1, 110)));
            if (r.chance(0.8)) g.puta(cat("e.meta", e, "mass", r4(r.real(1, 250))), 10);
            g.puta(cat("l.add", l, e), 300);
            break;
        }
        case 10: if (r.chance(0.2)) { S q = l == "P" ? "Q" : "P"; o.push_back(cat("l.copy", q, l)); g.libKind[q] = g.libKind[l]; if (r.chance(0.5)) l = q; } else g.libMaterial(l); break;
        default: g.libMaterial(l);
    }
}
static S anyDist(G & g) {
    Rng & r = g.r;
    S d;
    for (const char * s : {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5"}) if (r.chance(0.4)) d += (d.empty() ? "" : ",") + S(s) + ":" + num(r4(r.chance(0.1) ? 0.0 : r.logreal(0.001, 10)));
    return d.empty() ? "K:1" : d;
}
static void genC22(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.25) ? 0.15 : 0;
    g.pFs = r.chance(0.25) ? 0.2 : 0;
    if (r.chance(0.45)) {
        for (long n = r.range(1, 3); n > 0; n--) g.newEl(r.chance(0.5));
        for (long n = r.range(20, 60); n > 0; n--) {
            S e = g.el();
            if (r.chance(0.12)) g.put(cat("e.q", e, r.chance(0.5) ? cat("casdist", anyDist(g)) : cat("lines", anyDist(g), (int) r.chance(0.6), (int) r.chance(0.7))));
            else modelElement(g, e, "C22");
            if (r.chance(0.03)) { S b = g.el(); o.push_back(cat(r.chance(0.5) ? "e.copy" : "e.assign", b, e)); }
        }
        return;
    }
    S l;
    modelStart(g, r, o, l, 0.12);
    if (r.chance(0.3)) g.newEl(r.chance(0.5));
    for (long n = r.range(12, 40); n > 0; n--) switch (r.below(16)) {
        case 0: case 1: g.libFile(l, 0.3); break;
        case 2: g.libMu(l); break;
        case 3: g.libCache(l); break;
        case 4: if (g.els.size()) { S e = g.el(); modelElement(g, e, "C22"); if (r.chance(0.3)) g.puta(cat("l.add", l, e), 200); break; } /* fallthrough */
        case 5: case 6: case 7: g.put(cat("l.q", l, r.chance(0.5) ? "el" : "elw", g.sym(), g.elq(true))); break;
        case 8: g.put(cat("l.q", l, "el", g.sym(), r.chance(0.5) ? cat("casdist", anyDist(g)) : cat("lines", anyDist(g), (int) r.chance(0.6), (int) r.chance(0.7)))); break;
        case 9: g.put(cat("l.q", l, "el", g.sym(), r.pick({"rad", "non", "con", "flu", "aug", "ck", "yield"}), g.shell())); break;
        case 10: g.put(cat("l.q", l, "el", g.sym(), r.chance(0.5) ? cat("dvt", g.shell(), g.shell()) : cat(r.pick({"shells", "vac1", "emitted"}), g.en()))); break;
        case 11: g.put(cat("l.q", l, "peak", r.chance(0.5) ? anyFormula(g, true) : g.anyName(), g.en())); break;
        case 12: g.put(cat("l.q", l, "peakl", r.pick({"Fe,Pb", "Fe,Cu,Si", "O", "Au,Sn,Ba", "U,Pb,Au,Hg"}), g.en())); break;
        case 13: g.libEscape(l); break;
        case 14: g.put(g.af(cat("l.q", l, "esc", g.escArgs(), g.en()), 1500)); break;
        default: if (r.chance(0.2)) { S q = l == "P" ? "Q" : "P"; o.push_back(cat("l.copy", q, l)); g.libKind[q] = g.libKind[l]; if (r.chance(0.5)) l = q; } else if (r.chance(0.3)) { S e(1, (char) ('A' + r.below(4))); o.push_back(cat("l.take", l, g.sym(), e)); g.els.push_back(e); } else g.libFile(l, 0.1);
    }
}
static void genC24(Rng & r, VS & o) {
    G g(r, o);
    g.pAlloc = r.chance(0.25) ? 0.15 : 0;
    g.pInvalid = 0.02;
    S x = g.newX();
    VS names = g.goodX(x, 1);
    S l = r.chance(0.6) ? S(r.chance(0.5) ? "base0" : "base1") : g.newLib();
    for (long n = r.range(4, 14); n > 0; n--) switch (r.below(12)) {
        case 0: names = g.goodX(x, 1); break;
        case 1: { S d = g.det(); g.laySet(d, true); o.push_back(cat("x.det", x, d)); break; }
        case 2: if (r.chance(0.3)) { g.xSet(x); } else o.push_back(cat("x.geom", x, (long) r.range(10, 90), (long) r.range(10, 90), -1L)); break;
        case 3: if (g.libs.size()) r.chance(0.6) ? g.libMu(l) : r.chance(0.5) ? g.libFile(l, 0.1) : g.libMaterial(l); else g.xq(x, l, names); break;
        case 4: g.xq(x, l, names); break;
        case 5: if (r.chance(0.5)) g.layQ(r.chance(0.6) ? g.lay() : g.det()); else g.detEsc(g.det()); break;
        case 6: if (g.libs.size()) { r.chance(0.5) ? g.libCache(l) : g.libEscape(l); } else g.xq(x, l, names); break;
        case 7: o.push_back(cat("x.copy", "X9", x)); g.put(g.af(cat("f.all", "X9", l, g.fluoSpec(names)), 4000)); break;
        default: g.put(g.af(cat("f.all", x, l, g.fluoSpec(names)), 4000));
    }
}
static bool registered = [] {
    for (auto p : {Profile{"C20", genC20, false, false, true, false}, Profile{"C21", genC21, false, false, true, false}, Profile{"C22", genC22, false, false, true, false}, Profile{"C24", genC24, false, false, true, false}}) moreProfiles().push_back(p);
    return true;
}();

std::vector<Profile> profiles = {
    {"C01", genC01, false, false, true, false}, {"C02", genC02, false, false, true, false}, {"C03", genC03, false, false, true, false},
    {"C04", genC04, false, false, true, false}, {"C05", genC05, false, false, true, true}, {"C06", genC06, false, false, true, false}, {"C07", genC07, false, false, false, false},
    {"C08", genC08, false, false, true, false}, {"C09", genC09, false, false, true, false}, {"C10", genC10, false, false, false, false},
    {"C11", genC11, false, false, false, false}, {"C12", genC12, false, false, true, false}, {"C13", genC13, true, true, true, false},
    {"C14", genC14, false, false, true, false}, {"C15", genC15, false, false, true, false}, {"C16", genC16, false, false, true, false},
    {"C17", genC17, false, false, true, false}, {"C18", genC18, false, false, true, false}, {"C19", genC19, false, false, true, false}};
}
