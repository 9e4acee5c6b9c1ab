// Files of the simulated disk made on demand, and the readers: SPEC data
// files, INI files and the photon data (EPDL97).
#include "world.h"
#include <algorithm>
using namespace fisx;
namespace sim {

// ---------------------------------------------------------------- text of data files
struct Scan { bool dirty = false; bool hasLabels = false, bad = false; VS labels; std::vector<VD> rows; };
// an independent reader of the SPEC format, as used for the data files
static std::vector<Scan> parseSpec(const std::string & text) {
    std::vector<Scan> r;
    bool in = false;
    VS lines = splitStr(text, '\n');
    for (auto & full : lines) {
        std::string l = full;
        if (l.size() && l.back() == '\r') l.pop_back();
        if (l.compare(0, 2, "#S") == 0) { r.push_back(Scan()); in = true; continue; }
        if (l.empty()) { in = false; continue; }
        if (!in) continue;
        Scan & s = r.back();
        if (l.compare(0, 2, "#L") == 0 && !s.hasLabels) {
            s.hasLabels = true;
            std::string cur;
            size_t i = 2;
            while (i < l.size() && l[i] == ' ') i++;
            for (; i <= l.size(); i++) {
                bool sep = i == l.size() || (l[i] == ' ' && i + 1 < l.size() && l[i + 1] == ' ');
                if (!sep) { cur += l[i]; continue; }
                while (cur.size() && cur.back() == ' ') cur.pop_back();
                if (cur.size()) s.labels.push_back(cur);
                cur.clear();
                while (i < l.size() && l[i] == ' ') i++;
                if (i < l.size()) i--;
            }
            continue;
        }
        if (l[0] == '#') continue;
        // what stray characters mean is not specified
        if (l.find_first_not_of("0123456789+-.eE \t") != std::string::npos) s.dirty = true;
        VD row;
        std::istringstream is(l);
        std::string w;
        while (is >> w) row.push_back(strtod(w.c_str(), nullptr));
        if (row.empty()) continue;
        if (s.rows.size() && s.rows[0].size() != row.size()) s.bad = true;
        s.rows.push_back(row);
    }
    return r;
}
static bool isData(const std::string & l) { return l.size() && l[0] != '#' && l[0] != '\r'; }
static std::string joinLines(const VS & l) { std::string t; for (size_t i = 0; i < l.size(); i++) { t += l[i]; if (i + 1 < l.size()) t += '\n'; } return t; }
// expect: 1 valid, 0 must be refused, -1 unknown
static std::string damaged(const std::string & base, const std::string & text, const std::string & variant, int & expect) {
    expect = -1;
    if (variant == "orig") { expect = 1; return text; }
    if (variant == "empty") { expect = 0; return ""; }
    VS ls = splitStr(text, '\n');
    char c = variant[0];
    uint64_t seed = 0;
    for (size_t i = 0; i < variant.size(); i++) if (isdigit(variant[i])) { seed = strtoull(variant.c_str() + i, nullptr, 10); break; }
    Rng r(seed + 991);
    if (variant == "noscan") { expect = 0; for (auto & l : ls) if (l.compare(0, 2, "#S") == 0) l = "#C no scan"; return joinLines(ls); }
    if (variant == "nolabel") {
        expect = 0;
        for (auto & l : ls) if (l.compare(0, 2, "#L") == 0) { l = "#C no labels"; break; }
        return joinLines(ls);
    }
    if (variant == "cr") { std::string t; for (char ch : text) { if (ch == '\n') t += '\r'; t += ch; } return t; }
    if (c == 't') return text.substr(0, (size_t) ((double) text.size() * (double) (seed % 1000) / 1000.0));
    std::vector<size_t> rows;
    for (size_t i = 0; i < ls.size(); i++) if (isData(ls[i])) rows.push_back(i);
    if (variant.compare(0, 3, "row") == 0) {
        expect = 0;
        std::string & l = ls[rows[r.below(rows.size())]];
        size_t p = l.find_last_of(" \t");
        if (p == std::string::npos) expect = -1;
        else { l = l.substr(0, p); while (l.size() && l.back() == ' ') l.pop_back(); }
        return joinLines(ls);
    }
    if (variant.compare(0, 4, "junk") == 0) {
        std::string & l = ls[rows[r.below(rows.size())]];
        l[r.below(l.size())] = 'x';
        return joinLines(ls);
    }
    if (variant.compare(0, 5, "extra") == 0) {
        // the last scan twice
        std::string t = text;
        size_t p = t.rfind("#S");
        if (t.size() && t.back() != '\n') t += '\n';
        return t + "\n" + t.substr(p);
    }
    if (c == 'p') {
        // other values, still consistent
        expect = 1;
        double k = r.real(0.4, 0.99);
        bool binding = base.find("Binding") != std::string::npos, cross = base.find("Cross") != std::string::npos;
        for (size_t i : rows) {
            std::istringstream is(ls[i]);
            std::string w, o;
            int col = 0;
            double f = binding ? 0.999 : (r.chance(0.7) ? k : 1.0);
            while (is >> w) {
                double v = strtod(w.c_str(), nullptr);
                if (col > 0 && !(cross && col == 0)) { char b[40]; snprintf(b, sizeof b, "%.6g", v * f); w = b; }
                o += (col ? " " : "") + w;
                col++;
            }
            ls[i] = o;
        }
        return joinLines(ls);
    }
    throw HarnessError{"unknown variant " + variant};
}
static const char * const DATAFILES[] = {
    "EADL97_BindingEnergies.dat", "EPDL97_CrossSections.dat",
    "EADL97_KShellConstants.dat", "EADL97_KShellRadiativeRates.dat", "EADL97_KShellNonradiativeRates.dat",
    "EADL97_LShellConstants.dat", "EADL97_LShellRadiativeRates.dat", "EADL97_LShellNonradiativeRates.dat",
    "EADL97_MShellConstants.dat", "EADL97_MShellRadiativeRates.dat", "EADL97_MShellNonradiativeRates.dat",
    "BindingEnergies.dat", "XCOM_CrossSections.dat",
    "KShellConstants.dat", "KShellRates.dat", "LShellConstants.dat", "LShellRates.dat", "MShellConstants.dat", "MShellRates.dat"};
static const int NDATA = 19;

// expectation of /sim/v/<base>/<variant>
int dataFileExpectation(const std::string & path) {
    if (path.compare(0, 10, "/sim/data/") == 0) return 1;
    if (path.compare(0, 7, "/sim/v/") != 0) return -1;
    VS p = splitStr(path.substr(7), '/');
    if (p.size() != 2) return -1;
    if (p[1] == "missing") return 0;
    int e = -1;
    damaged(p[0], seam::fsContent("/sim/data/" + p[0]), p[1], e);
    return e;
}
// /sim/d/<variant>.<file index>/ : what has to happen when everything is needed
static bool dirFile(const std::string & dir, const std::string & file, std::string & text) {
    if (!seam::fsHas("/sim/data/" + file)) return false;
    text = seam::fsContent("/sim/data/" + file);
    if (dir == "orig") return true;
    VS p = splitStr(dir, '.');
    if (p.size() != 2) return false;
    long k = atol(p[1].c_str());
    if (k < 0 || k >= NDATA) return false;
    if (file != DATAFILES[k]) return true;
    if (p[0] == "miss") return false;
    int e;
    text = damaged(file, text, p[0], e);
    return true;
}
// 0 the directory cannot be used for a library of this kind, 1 it can, -1 unknown
int directoryExpectation(const std::string & dir, int kind) {
    if (dir == "/sim/data") return 1;
    if (dir.compare(0, 7, "/sim/d/") != 0) return dir == "/sim/nowhere" ? 0 : -1;
    std::string v = dir.substr(7);
    if (v == "orig") return 1;
    VS p = splitStr(v, '.');
    if (p.size() != 2) return -1;
    long k = atol(p[1].c_str());
    bool needed = false;
    if (k <= 1) needed = true;
    else if (k <= 10) needed = kind != 9;
    else if (k == 11) needed = kind == 1 || kind == 2 || kind == 3;
    else if (k == 12) needed = kind == 1 || kind == 3 || kind == 4;
    else needed = kind == 1;
    if (!needed) return -1;
    if (p[0] == "miss") return 0;
    int e;
    damaged(DATAFILES[k], seam::fsContent(std::string("/sim/data/") + DATAFILES[k]), p[0], e);
    return e == 0 ? 0 : -1;
}

// ---------------------------------------------------------------- generated SPEC files
static bool specFile(const std::string & path, std::string & text, std::vector<Scan> & scans) {
    if (path.compare(0, 7, "/sim/s/") != 0) return false;
    std::string n = path.substr(7);
    if (n == "missing" || n.empty()) return false;
    Rng r(strtoull(n.c_str(), nullptr, 10) + 4242);
    text.clear();
    scans.clear();
    std::string eol = r.chance(0.3) ? "\r\n" : "\n";
    int ns = (int) (r.chance(0.1) ? 0 : (r.chance(0.2) ? r.range(1, 60) : r.range(1, 6)));
    if (r.chance(0.7)) text += "#F " + n + eol + "#U00 simulated file" + eol + eol;
    bool big = r.chance(0.2);
    for (int i = 0; i < ns; i++) {
        Scan s;
        text += "#S " + std::to_string(i + 1) + " scan " + r.pick({"one", "Fe", "with  two spaces"}) + eol;
        for (long k = r.range(0, 3); k > 0; k--) text += std::string(r.pick({"#D today", "#N 3", "#UT a comment", "#C #L not  a label", "#"})) + (r.chance(0.3) ? std::string((size_t) r.range(1, 90), 'x') : "") + eol;
        int nc = (int) r.range(1, big ? 12 : 6);
        s.hasLabels = !r.chance(0.06);
        if (s.hasLabels) {
            text += "#L ";
            VS names = {"Z", "PHOTON ENERGY [KEV]", "omegaK", "f12", "K", "L1(1)", "all other", "Rayleigh(coherent)", "x"};
            for (int c = 0; c < nc; c++) {
                std::string l = names[r.below(names.size())] + (r.chance(0.5) ? std::to_string(c) : "");
                if (nc == 1 && l.size() < 2) l += "x";
                s.labels.push_back(l);
                text += l;
                if (c + 1 < nc) text += r.chance(0.8) ? "  " : "    ";
            }
            if (s.labels.back().size() < 2) { s.labels.back() += "yy"; text += "yy"; }
            if (r.chance(0.1)) text += "  ";
            text += eol;
        }
        long rows = r.chance(0.1) ? 0 : (big ? r.range(1, 200) : r.range(1, 12));
        bool bad = rows > 1 && r.chance(0.05);
        long badRow = r.range(1, rows > 1 ? rows - 1 : 1);
        for (long k = 0; k < rows; k++) {
            if (r.chance(0.04)) text += "#C comment 12 34" + eol;
            VD row;
            std::string l;
            int cols = nc + ((bad && k == badRow) ? 1 : 0);
            for (int c = 0; c < cols; c++) {
                char b[60];
                double v = r.chance(0.2) ? (double) r.range(-20, 200) : r.logreal(1e-8, 1e6) * (r.chance(0.1) ? -1 : 1);
                const char * f = r.pick({"%.6g", "%.10E", "%.3f", "%+.5e", "%.17g"});
                snprintf(b, sizeof b, f, v);
                row.push_back(strtod(b, nullptr));
                if (c) l += r.pick({" ", "  ", "\t"});
                l += b;
            }
            if (r.chance(0.1)) l = " " + l;
            if (r.chance(0.1)) l += " ";
            text += l + eol;
            s.rows.push_back(row);
        }
        s.bad = bad;
        bool last = i + 1 == ns;
        if (last && r.chance(0.3)) { if (text.size() >= eol.size() && r.chance(0.5)) text.resize(text.size() - eol.size()); }
        else if (!r.chance(0.15)) { text += eol; if (r.chance(0.1)) text += "#C between scans" + eol + "1 2 3" + eol; }
        scans.push_back(s);
    }
    return true;
}

// ---------------------------------------------------------------- generated INI files
struct IniModel { VS sections; std::map<std::string, std::map<std::string, std::string> > contents; };
static bool iniFile(const std::string & path, std::string & text, IniModel & m, bool & valid) {
    valid = false;
    if (path.compare(0, 7, "/sim/i/") != 0) return false;
    VS p = splitStr(path.substr(7), '.');
    if (p[0] == "missing") return false;
    uint64_t seed = strtoull(p[0].c_str(), nullptr, 10);
    Rng r(seed + 31337);
    text.clear();
    m = IniModel();
    valid = true;
    std::string eol = r.chance(0.3) ? "\r\n" : "\n";
    VS lines;
    if (r.chance(0.4)) lines.push_back("# a comment");
    VS pool = {"fit", "Fit", "FIT", "attenuators", "Materials", "Materials.Air", "materials.Goethite", "Materials.Air.sub", "peaks", "a section", "result.config", "fit.peaks", "MaterialsX.y", "x", "result.Materials.Air", "my.fit.peaks", "fit.", "Materials.", "FitX"};
    int ns = (int) r.range(0, 9);
    for (int i = 0; i < ns; i++) {
        std::string name = pool[r.below(pool.size())];
        std::string head = "[" + name + "]";
        if (r.chance(0.1)) head += "  ";
        lines.push_back(head);
        m.sections.push_back(name);
        int nk = (int) r.range(1, 5);
        bool open = false;   // a continuation line may follow
        std::string key;
        for (int k = 0; k < nk; k++) {
            key = r.pick({"energy", "Energy", "weight", "atmosphere", "key", "BeamFilter0", "Detector", "use"});
            if (r.chance(0.3)) key += std::to_string(r.below(4));
            std::string v;
            switch (r.below(9)) {
            case 7: v = r.pick({" \"one\" and \"two ; not # a comment\"", " \"\" \"\" x", " \"a=b\", \"c;d\", \"e#f\"", "\"#\"\";\"", " 5 \"key = [value]\""}); break;
            case 8: v = r.pick({" [not a header]", " -", " \\ backslash", " 1\t2\tx y", " =", " key2 = 5"}); break;
            case 0: v = " " + num(std::floor(r.real(0, 100) * 100) / 100); break;
            case 1: v = " 1, Fe, 2.5, 0.001, 1.0"; break;
            case 2: v = ""; break;
            case 3: v = "no leading space"; break;
            case 4: v = " \"quoted # and ; inside\""; break;
            case 5: v = " a=b=c"; break;
            default: { v = " "; long n = r.range(2, 40); for (long j = 0; j < n; j++) v += (j ? ", " : "") + num((double) r.below(1000)); }
            }
            std::string line = std::string(r.pick({"", "", " ", "\t"})) + key + r.pick({"", " ", "  "}) + "=" + v;
            if (r.chance(0.15)) { v += " "; line += std::string(" ") + r.pick({"# comment = 5", "; other \tcomment", "#"}); }
            else if (r.chance(0.1)) line += "  ";
            lines.push_back(line);
            m.contents[name][key] = v;
            open = true;
            while (open && r.chance(0.2)) {
                if (r.chance(0.3)) lines.push_back("");
                std::string c = r.pick({"  5.5, 6.6 , 7", "more text here", "  \"a b\" c", "1", "\"a ; b\" c \"d # e\"", "\"[x]\""});
                lines.push_back(c);
                std::string stripped;
                bool q = false;
                for (char ch : c) { if (ch == '"') q = !q; if (q || !isspace(ch)) stripped += ch; }
                m.contents[name][key] += stripped;
            }
            if (r.chance(0.15)) lines.push_back(r.chance(0.5) ? "" : "# comment");
            else if (r.chance(0.05)) lines.push_back(";");
        }
    }
    bool finalEol = r.chance(0.7);
    if (p.size() > 1) {
        uint64_t mut = strtoull(p[1].c_str(), nullptr, 10);
        Rng q(mut * 131 + seed);
        size_t at = lines.empty() ? 0 : q.below(lines.size() + 1);
        static const char * const BADLINES[] = {"[[double]", "[never closed", "[]", "[a]]", "key = \"never closed", "key = value \" again", "\""};
        lines.insert(lines.begin() + (long) at, BADLINES[q.below(7)]);
        valid = false;
    }
    for (size_t i = 0; i < lines.size(); i++) text += lines[i] + ((i + 1 < lines.size() || finalEol) ? eol : "");
    return true;
}
static std::string upperOf(std::string s) { for (auto & c : s) c = (char) toupper(c); return s; }

// ---------------------------------------------------------------- files on demand
static void generate(const std::string & path) {
    std::string text;
    if (path.compare(0, 7, "/sim/v/") == 0) {
        VS p = splitStr(path.substr(7), '/');
        if (p.size() != 2 || p[1] == "missing" || !seam::fsHas("/sim/data/" + p[0])) return;
        int e;
        text = damaged(p[0], seam::fsContent("/sim/data/" + p[0]), p[1], e);
        seam::fsAdd(path, text);
    } else if (path.compare(0, 7, "/sim/d/") == 0) {
        VS p = splitStr(path.substr(7), '/');
        if (p.size() != 2 || !dirFile(p[0], p[1], text)) return;
        seam::fsAdd(path, text);
    } else if (path.compare(0, 7, "/sim/c/") == 0) {
        ConfRec rec;
        bool known;
        if (configFile(path, text, rec, known)) seam::fsAdd(path, text);
    } else if (path.compare(0, 7, "/sim/s/") == 0) {
        std::vector<Scan> s;
        if (specFile(path, text, s)) seam::fsAdd(path, text);
    } else if (path.compare(0, 7, "/sim/i/") == 0) {
        IniModel m;
        bool v;
        if (iniFile(path, text, m, v)) seam::fsAdd(path, text);
    }
}
Path givenPath(const std::string & s) {
    size_t at = s.find('>');
    if (at == std::string::npos) return Path{s, s};
    Path p{s.substr(0, at), s.substr(at + 1)};
    seam::fsLink(p.name, p.target);
    return p;
}
void installGenerator() { seam::fsGenerator = generate; }

// what an accepted file has to leave in an element: checked by parsing the text independently
void loadedFileFacts(const std::string & what, const std::string & main, const std::string & path, size_t index, std::vector<std::pair<std::string, MSD> > & constants, MSV & table) {
    const std::string & text = seam::fsContent(path);
    std::vector<Scan> s = parseSpec(text);
    if (what == "con") {
        for (size_t i = 0; i < s.size(); i++) {
            if (s[i].dirty) continue;
            if (index >= s[i].rows.size()) continue;
            MSD d;
            for (size_t j = 0; j < s[i].labels.size() && j < s[i].rows[index].size(); j++) {
                std::string l = s[i].labels[j];
                if (l == "Z") continue;
                if (l.size() > 4) { if (l.compare(0, 5, "omega") != 0) continue; l = "omega"; }
                d[l] = s[i].rows[index][j];
            }
            constants.push_back(std::make_pair(main == "K" ? "K" : main + std::to_string(i + 1), d));
        }
    } else if (what == "mac" && index < s.size() && !s[index].dirty) {
        for (size_t j = 0; j < s[index].labels.size(); j++) {
            std::string k, l = upperOf(s[index].labels[j]);
            if (l.find("ENERGY") != std::string::npos) k = "energy";
            else if (l.find("COMPTON") != std::string::npos) k = "compton";
            else if (l.find("PHOTO") != std::string::npos) k = "photoelectric";
            else if (l.find("PAIR") != std::string::npos) k = "pair";
            else if (l.find("RAYLEIGH") != std::string::npos || (l.find("COHERENT") != std::string::npos && l.find("INCOHERENT") == std::string::npos)) k = "coherent";
            else continue;
            VD v;
            for (auto & row : s[index].rows) v.push_back(row[j]);
            table[k] = v;
        }
    }
}

// ---------------------------------------------------------------- SPEC reader
struct SpecSlot { SimpleSpecfile * sut = nullptr; std::string path, given; std::vector<Scan> scans; SpecSlot() {} SpecSlot(const SpecSlot &) = delete; ~SpecSlot() { delete sut; } };
static std::vector<Scan> scansOf(const std::string & path) {
    std::vector<Scan> r;
    std::string text;
    if (path.compare(0, 7, "/sim/s/") == 0) { if (!specFile(path, text, r)) r.clear(); return r; }
    if (path.empty()) return r;
    if (!seam::fsHas(path)) generate(path);
    if (!seam::fsHas(path)) return r;
    return parseSpec(seam::fsContent(path));
}
bool cleanScans(const std::string & path, std::vector<ref::Scan> & out) {
    std::string p = path;
    size_t d;
    while ((d = p.find("//")) != std::string::npos) p.erase(d, 1);
    out.clear();
    std::vector<Scan> s = scansOf(p);
    if (s.empty()) return false;
    for (auto & x : s) {
        if (x.dirty || x.bad || !x.hasLabels || x.rows.empty() || x.rows[0].size() != x.labels.size()) return false;
        ref::Scan t;
        t.labels = x.labels;
        t.rows = x.rows;
        out.push_back(t);
    }
    return true;
}
static Ans expectLabels(const SpecSlot & s, long k) {
    Ans a;
    if (k < 0 || k >= (long) s.scans.size() || !s.scans[k].hasLabels) { a.threw = true; a.shape = "!threw"; return a; }
    return answer(s.scans[k].labels);
}
static Ans expectData(const SpecSlot & s, long k) {
    Ans a;
    if (k < 0 || k >= (long) s.scans.size() || s.scans[k].bad) { a.threw = true; a.shape = "!threw"; return a; }
    return answer(s.scans[k].rows);
}
static void specUnchanged(Ctx & cx, SpecSlot & s, const std::string & why) {
    cx.same(why + ": number of scans", cx.ask([&]() { return Q([&]() { return s.sut->getNumberOfScans(); }); }), answer((int) s.scans.size()));
    size_t n = s.scans.size();
    for (size_t i = 0; i < n; i += (n > 8 ? n / 4 : 1)) {
        Outcome o;
        Ans a = cx.ask([&]() { return Q([&]() { return s.sut->getScanLabels((int) i); }); }, nullptr, &o);
        cx.sameTol(why + ": labels of scan " + std::to_string(i), a, expectLabels(s, (long) i), 0);
        a = cx.ask([&]() { return Q([&]() { return s.sut->getScanData((int) i); }); }, nullptr, &o);
        cx.sameTol(why + ": data of scan " + std::to_string(i), a, expectData(s, (long) i), 0);
    }
}
// s.new R [path]
SIM_OP(sNew, "s.new") {
    std::string path = op.has(1) ? op.s(1) : "";
    SimpleSpecfile * p = nullptr;
    long openFired = 0;
    auto make = [&]() { p = path.size() ? new SimpleSpecfile(path) : new SimpleSpecfile(); };
    Outcome o = cx.mutate(make, op.f, []() {});
    for (auto & k : seam::fsFiredKinds) if (k.first == "open" || k.first == "vanish") openFired += k.second;
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "reader not created: " + o.what); return; }
    SpecSlot * s = fresh<SpecSlot>(w, "spec", op.s(0));
    s->sut = p;
    s->path = path;
    if (!openFired) {
        cx.require(!o.fired, "swallowed-failure", "a failure while reading the file was not reported");
        s->scans = scansOf(path);
    }
    cx.mutations++;
    specUnchanged(cx, *s, "new reader");
}
// s.file R path
SIM_OP(sFile, "s.file") {
    SpecSlot * s = slot<SpecSlot>(w, "spec", op.s(0));
    if (!s) return;
    // a file is only replaced on the disk while no other reader, and no failing reading, needs it
    std::string path = op.s(1), given;
    size_t at = path.find('>');
    if (at != std::string::npos) {
        bool used = false;
        for (auto & x : slots<SpecSlot>(w, "spec")) if (x.second && (x.second != s || op.f.any()) && x.second->given == path.substr(0, at)) used = true;
        if (!used) given = givenPath(path).name;
        path = path.substr(at + 1);
    }
    std::string arg = given.empty() ? path : given;
    long openFired = 0;
    Outcome o = cx.mutate([&]() { s->sut->setFileName(arg); }, op.f, [&]() { specUnchanged(cx, *s, "after a failed reading"); });
    for (auto & k : seam::fsFiredKinds) if (k.first == "open" || k.first == "vanish") openFired += k.second;
    if (o.threw) {
        cx.require(o.fired, "unexpected-failure", "the file could not be read: " + o.what);
        cx.count["read.failed"]++;
        specUnchanged(cx, *s, "after a failed reading");
        return;
    }
    s->path = path;
    s->given = given;
    s->scans.clear();
    if (!openFired) {
        cx.require(!o.fired, "swallowed-failure", "a failure while reading the file was not reported");
        s->scans = scansOf(path);
    }
    cx.mutations++;
    specUnchanged(cx, *s, "file just read");
    cx.state("spec " + std::to_string(s->scans.size()) + "r" + std::to_string(s->scans.size() ? s->scans[0].rows.size() : 0));
}
SIM_OP(sCopy, "s.copy") {
    SpecSlot * b = slot<SpecSlot>(w, "spec", op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    SimpleSpecfile * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new SimpleSpecfile(*b->sut); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "reader not copied"); return; }
    std::string path = b->path, given = b->given;
    std::vector<Scan> sc = b->scans;
    SpecSlot * s = fresh<SpecSlot>(w, "spec", op.s(0));
    s->sut = p; s->path = path; s->given = given; s->scans = sc;
    specUnchanged(cx, *s, "copied reader");
}
SIM_OP(sLabels, "s.labels") {
    SpecSlot * s = slot<SpecSlot>(w, "spec", op.s(0));
    if (!s) return;
    long k = op.i(1);
    bool exact = cx.exact;
    cx.exact = true;
    cx.query("scan labels", [&]() { return Q([&]() { return s->sut->getScanLabels((int) k); }); }, expectLabels(*s, k), op.f);
    cx.exact = exact;
    cx.count["queries"]++;
}
SIM_OP(sData, "s.data") {
    SpecSlot * s = slot<SpecSlot>(w, "spec", op.s(0));
    if (!s) return;
    long k = op.i(1);
    bool exact = cx.exact;
    cx.exact = true;
    cx.query("scan data", [&]() { return Q([&]() { return s->sut->getScanData((int) k); }); }, expectData(*s, k), op.f);
    cx.exact = exact;
    cx.count["queries"]++;
}
SIM_OP(sCheck, "s.check") {
    SpecSlot * s = slot<SpecSlot>(w, "spec", op.s(0));
    if (s) specUnchanged(cx, *s, "reader");
}

// ---------------------------------------------------------------- INI reader
struct IniSlot { SimpleIni * sut = nullptr; IniModel m; IniSlot() {} IniSlot(const IniSlot &) = delete; ~IniSlot() { delete sut; } };
static std::map<std::string, std::string> modelSection(const IniModel & m, const std::string & key, bool cs) {
    auto it = m.contents.find(key);
    if (it != m.contents.end()) return it->second;
    if (!cs) for (auto & s : m.sections) if (upperOf(s) == upperOf(key)) { auto k = m.contents.find(s); return k == m.contents.end() ? std::map<std::string, std::string>() : k->second; }
    return std::map<std::string, std::string>();
}
static VS modelSub(const IniModel & m, const std::string & parent, bool cs) {
    if (parent.empty()) return m.sections;
    VS r;
    std::string t = parent + ".";
    if (!cs) t = upperOf(t);
    for (auto & s : m.sections) if ((cs ? s : upperOf(s)).compare(0, t.size(), t) == 0) r.push_back(s);
    return r;
}
static Ans askSub(SimpleIni & i, const std::string & parent, bool cs) { return Q([&]() { VS d(1, "leftover"); i.getSubsections(parent, d, cs); return d; }); }
static void iniUnchanged(Ctx & cx, IniSlot & s, const std::string & why) {
    cx.same(why + ": sections", cx.ask([&]() { return Q([&]() { return s.sut->getSections(); }); }), answer(s.m.sections));
    std::set<std::string> names(s.m.sections.begin(), s.m.sections.end());
    for (const char * n : {"fit", "Materials", "peaks", "not there"}) names.insert(n);
    for (auto & n : names) for (int cs = 0; cs < 2; cs++) {
        cx.same(why + ": section " + n, cx.ask([&]() { return Q([&]() { return s.sut->readSection(n, cs); }); }), answer(modelSection(s.m, n, cs)));
        cx.same(why + ": sections below " + n, cx.ask([&]() { return askSub(*s.sut, n, cs); }), answer(modelSub(s.m, n, cs)));
    }
}
SIM_OP(iNew, "i.new") {
    Path as = givenPath(op.has(1) ? op.s(1) : "");
    std::string path = as.target, text;
    IniModel m;
    bool valid = true;
    if (path.size()) { valid = iniFile(path, text, m, valid) && valid; }
    SimpleIni * p = nullptr;
    Outcome o = cx.mutate([&]() { p = path.size() ? new SimpleIni(as.name) : new SimpleIni(); }, op.f, []() {});
    if (o.ok && !valid) { delete p; cx.fail("accepted-invalid", "a file that cannot be read was accepted"); }
    if (o.threw) { cx.require(o.fired || !valid, "unexpected-failure", "reader not created: " + o.what); return; }
    cx.require(!o.fired, "swallowed-failure", "a failure while reading the file was not reported");
    IniSlot * s = fresh<IniSlot>(w, "ini", op.s(0));
    s->sut = p;
    s->m = m;
    cx.mutations++;
    iniUnchanged(cx, *s, "new reader");
}
SIM_OP(iRead, "i.read") {
    IniSlot * s = slot<IniSlot>(w, "ini", op.s(0));
    if (!s) return;
    Path as = givenPath(op.s(1));
    std::string path = as.target, text;
    IniModel m;
    bool valid = false;
    valid = iniFile(path, text, m, valid) && valid;
    Outcome o = cx.mutate([&]() { s->sut->readFileName(as.name); }, op.f, [&]() { iniUnchanged(cx, *s, "after a failed reading"); });
    if (o.ok && !valid) cx.fail("accepted-invalid", "a file that cannot be read was accepted");
    if (o.threw) {
        cx.require(o.fired || !valid, "unexpected-failure", "the file could not be read: " + o.what);
        cx.count[o.fired ? "read.failed" : "read.rejected"]++;
        iniUnchanged(cx, *s, "after a failed reading");
        return;
    }
    cx.require(!o.fired, "swallowed-failure", "a failure while reading the file was not reported");
    s->m = m;
    cx.mutations++;
    iniUnchanged(cx, *s, "file just read");
    std::string t = "ini";
    for (auto & x : m.contents) t += x.first[0] + std::to_string(x.second.size());
    cx.state(t);
}
SIM_OP(iCopy, "i.copy") {
    IniSlot * b = slot<IniSlot>(w, "ini", op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    SimpleIni * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new SimpleIni(*b->sut); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "reader not copied"); return; }
    IniModel m = b->m;
    IniSlot * s = fresh<IniSlot>(w, "ini", op.s(0));
    s->sut = p; s->m = m;
    iniUnchanged(cx, *s, "copied reader");
}
SIM_OP(iSec, "i.sec") {
    IniSlot * s = slot<IniSlot>(w, "ini", op.s(0));
    if (!s) return;
    std::string k = untilde(op.s(1));
    bool cs = op.i(2) != 0;
    cx.query("section", [&]() { return Q([&]() { return s->sut->readSection(k, cs); }); }, answer(modelSection(s->m, k, cs)), op.f);
    cx.count["queries"]++;
}
SIM_OP(iSub, "i.sub") {
    IniSlot * s = slot<IniSlot>(w, "ini", op.s(0));
    if (!s) return;
    std::string k = untilde(op.s(1));
    bool cs = op.i(2) != 0;
    cx.query("subsections", [&]() { return askSub(*s->sut, k, cs); }, answer(modelSub(s->m, k, cs)), op.f);
    cx.count["queries"]++;
}
// i.val doubles|ints|strings|double text default
SIM_OP(iVal, "i.val") {
    (void) w;
    std::string kind = op.s(0), text = untilde(op.s(1));
    double def = op.d(2);
    VS items;
    if (text.size()) { items = splitStr(text, ','); if (items.back().empty()) items.pop_back(); }
    VD want;
    VS words;
    for (auto & x : items) {
        const char * c = x.c_str();
        char * end;
        double v = strtod(c, &end);
        bool any = false;
        for (char ch : x) if (isalpha(ch) && ch != 'e' && ch != 'E') any = true;
        if (end == c || any) v = def;
        if (kind == "ints") v = end == c || any ? def : (double) (int) v;
        want.push_back(v);
        std::istringstream is(x);
        std::string wd;
        if (!(is >> wd)) wd = "none";
        words.push_back(wd);
    }
    if (kind == "doubles") cx.query("list of values", [&]() { return Q([&]() { VD d(3, 1.0); SimpleIni::parseStringAsMultipleValues(text, d, def); return d; }); }, answer(want), op.f);
    else if (kind == "ints") { std::vector<int> k; for (double x : want) k.push_back((int) x); cx.query("list of values", [&]() { return Q([&]() { std::vector<int> d(2, 7); SimpleIni::parseStringAsMultipleValues(text, d, (int) def); return d; }); }, answer(k), op.f); }
    else if (kind == "strings") cx.query("list of values", [&]() { return Q([&]() { VS d(1, "old"); SimpleIni::parseStringAsMultipleValues(text, d, std::string("none")); return d; }); }, answer(words), op.f);
    else if (kind == "double") {
        double v = want.size() ? want[0] : def;
        if (items.size() > 1) return;
        cx.query("value", [&]() { return Q([&]() { double d = 3; SimpleIni::parseStringAsSingleValue(text, d, def); return d; }); }, answer(v), op.f);
    }
    cx.count["queries"]++;
}
SIM_OP(iCheck, "i.check") {
    IniSlot * s = slot<IniSlot>(w, "ini", op.s(0));
    if (s) iniUnchanged(cx, *s, "reader");
}

// ---------------------------------------------------------------- photon data
struct PhotonSlot {
    EPDL97 * sut = nullptr;
    std::shared_ptr<EPDL97> twin;
    PhotonSlot() {}
    PhotonSlot(const PhotonSlot &) = delete;
    ~PhotonSlot() { delete sut; }
};
struct PhotonQuery { std::string kind; int z = 26; VD xs; double x = 5; };
static Ans askPhoton(EPDL97 & e, const PhotonQuery & q) {
    const EPDL97 & c = e;
    if (q.kind == "mu1") return Q([&]() { return c.getMassAttenuationCoefficients(q.z, q.x); });
    if (q.kind == "muv") return Q([&]() { return c.getMassAttenuationCoefficients(q.z, q.xs); });
    if (q.kind == "table") return Q([&]() { return c.getMassAttenuationCoefficients(q.z); });
    if (q.kind == "w1") return Q([&]() { return e.getPhotoelectricWeights(q.z, q.x); });
    if (q.kind == "wv") return Q([&]() { return e.getPhotoelectricWeights(q.z, q.xs); });
    if (q.kind == "be") return Q([&]() { return e.getBindingEnergies(q.z); });
    if (q.kind == "idx") return Q([&]() { return c.getInterpolationIndices(q.xs, q.x); });
    throw HarnessError{"unknown photon data query " + q.kind};
}
static void photonUnchanged(Ctx & cx, PhotonSlot & s, const std::string & why, const std::vector<int> & zs = std::vector<int>()) {
    std::set<int> z(zs.begin(), zs.end());
    z.insert(1); z.insert(26); z.insert(82); z.insert(99);
    for (int k : z) for (const char * n : {"be", "mu1", "w1", "table"}) {
        PhotonQuery q;
        q.kind = n;
        q.z = k;
        q.x = k > 40 ? 30.0 : 7.5;
        Outcome o;
        Ans a = cx.ask([&]() { return askPhoton(*s.sut, q); }, nullptr, &o);
        Ans b = Ctx::model([&]() { return askPhoton(*s.twin, q); });
        cx.judge(why + ": " + n + " of Z=" + std::to_string(k), a, o, b);
    }
    cx.count["check.unchanged"]++;
}
static std::shared_ptr<EPDL97> undisturbed(const std::string & dir) {
    static std::map<std::string, std::shared_ptr<EPDL97> > seen;
    auto it = seen.find(dir);
    if (it != seen.end()) return it->second;
    std::shared_ptr<EPDL97> p;
    try { p.reset(new EPDL97(dir)); } catch (const std::exception &) {}
    return seen[dir] = p;
}
void loadPhotonBase() { undisturbed("/sim/data"); }
static int photonDirExpectation(const std::string & dir) {
    int e = directoryExpectation(dir, 9);
    if (e == 0 && dir.compare(0, 7, "/sim/d/") == 0) {
        // only two files matter here
        VS p = splitStr(dir.substr(7), '.');
        if (p.size() == 2 && atol(p[1].c_str()) > 1) return -1;
    }
    return e;
}
// p.new P [dir]
SIM_OP(pNew, "p.new") {
    Path as = givenPath(op.has(1) ? op.s(1) : "");
    std::string dir = as.target;
    std::shared_ptr<EPDL97> ref;
    if (dir.size()) ref = undisturbed(dir);
    else ref.reset(new EPDL97());
    int e = dir.size() ? photonDirExpectation(dir) : 1;
    cx.require(!(ref && e == 0), "accepted-invalid", "an unusable directory was accepted");
    cx.require(ref || e != 1, "unexpected-failure", "a usable directory was refused");
    EPDL97 * p = nullptr;
    Outcome o = cx.mutate([&]() { p = dir.size() ? new EPDL97(as.name) : new EPDL97(); }, op.f, []() {});
    if (o.ok && !ref) { delete p; cx.fail("accepted-invalid", "an unusable directory was accepted"); }
    if (o.threw) { cx.require(o.fired || !ref, "unexpected-failure", "the photon data could not be opened: " + o.what); cx.count[o.fired ? "open.failed" : "open.rejected"]++; return; }
    cx.require(!o.fired, "swallowed-failure", "a failure while reading the data was not reported");
    PhotonSlot * s = fresh<PhotonSlot>(w, "photon", op.s(0));
    s->sut = p;
    s->twin.reset(new EPDL97(*ref));
    cx.mutations++;
    photonUnchanged(cx, *s, "photon data just opened");
}
SIM_OP(pCopy, "p.copy") {
    PhotonSlot * b = slot<PhotonSlot>(w, "photon", op.s(1));
    if (!b || op.s(0) == op.s(1)) return;
    EPDL97 * p = nullptr;
    Outcome o = cx.mutate([&]() { p = new EPDL97(*b->sut); }, op.f, []() {});
    if (o.threw) { cx.require(o.fired, "unexpected-failure", "photon data not copied"); return; }
    std::shared_ptr<EPDL97> t(new EPDL97(*b->twin));
    PhotonSlot * s = fresh<PhotonSlot>(w, "photon", op.s(0));
    s->sut = p;
    s->twin = t;
    photonUnchanged(cx, *s, "copied photon data");
}
template<class F> static void photonChange(Ctx & cx, const Op & op, PhotonSlot & s, int expect, F f, std::shared_ptr<EPDL97> result, const std::vector<int> & zs = std::vector<int>()) {
    if (!result && expect != 0) {
        result.reset(new EPDL97(*s.twin));
        try { f(*result); } catch (const std::exception &) { result.reset(); }
    }
    if (expect == 0) result.reset();
    Outcome o = cx.mutate([&]() { f(*s.sut); }, op.f, [&]() { photonUnchanged(cx, s, "after a failed change of the photon data", zs); });
    if (o.ok && !result) cx.fail("accepted-invalid", "invalid photon data were accepted");
    if (o.threw) {
        cx.require(o.fired || !result, "unexpected-failure", "valid photon data were refused: " + o.what);
        cx.count[o.fired ? "change.failed" : "change.rejected"]++;
        photonUnchanged(cx, s, "after a refused change of the photon data", zs);
        return;
    }
    cx.require(!o.fired, "swallowed-failure", "a failure while reading the data was not reported");
    s.twin = result;
    cx.mutations++;
    photonUnchanged(cx, s, "after a change of the photon data", zs);
}
SIM_OP(pDir, "p.dir") {
    PhotonSlot * s = slot<PhotonSlot>(w, "photon", op.s(0));
    if (!s) return;
    Path as = givenPath(op.s(1));
    std::string dir = as.target;
    std::shared_ptr<EPDL97> ref = undisturbed(dir);
    int e = ref ? photonDirExpectation(dir) : 0;
    cx.require(!(ref && e == 0), "accepted-invalid", "an unusable directory was accepted");
    if (ref) ref.reset(new EPDL97(*ref));
    photonChange(cx, op, *s, e, [&](EPDL97 & p) { p.setDataDirectory(&p == s->sut ? as.name : dir); }, ref);
    cx.state("photon " + dir);
}
SIM_OP(pBe, "p.be") {
    PhotonSlot * s = slot<PhotonSlot>(w, "photon", op.s(0));
    if (!s) return;
    Path as = givenPath(op.s(1));
    std::string path = as.target;
    photonChange(cx, op, *s, dataFileExpectation(path) == 0 ? 0 : -1, [&](EPDL97 & p) { p.loadBindingEnergies(&p == s->sut ? as.name : path); }, nullptr);
    cx.state("photon be " + path);
}
SIM_OP(pSetBe, "p.setbe") {
    PhotonSlot * s = slot<PhotonSlot>(w, "photon", op.s(0));
    if (!s) return;
    int z = (int) op.i(1);
    VS l = op.ss(2);
    VD v = op.ds(3);
    MSD m;
    for (size_t i = 0; i < l.size() && i < v.size(); i++) m[l[i]] = v[i];
    photonChange(cx, op, *s, z < 1 ? 0 : -1, [&](EPDL97 & p) { p.setBindingEnergies(z, m); }, nullptr, std::vector<int>(1, z));
    if (z > 0) {
        PhotonQuery q;
        q.kind = "be";
        q.z = z;
        // what has just been accepted
        Ans t = Ctx::model([&]() { return askPhoton(*s->twin, q); });
        (void) t;
    }
}
SIM_OP(pQ, "p.q") {
    PhotonSlot * s = slot<PhotonSlot>(w, "photon", op.s(0));
    if (!s) return;
    PhotonQuery q;
    q.kind = op.s(1);
    q.z = (int) op.i(2);
    q.xs = op.ds(3);
    q.x = op.has(4) ? op.d(4) : (q.xs.size() ? q.xs[0] : 5.0);
    Ans e = Ctx::model([&]() { return askPhoton(*s->twin, q); });
    cx.query("photon data " + q.kind, [&]() { return askPhoton(*s->sut, q); }, e, op.f);
    cx.count["queries"]++;
}
SIM_OP(pCheck, "p.check") {
    PhotonSlot * s = slot<PhotonSlot>(w, "photon", op.s(0));
    if (s) photonUnchanged(cx, *s, "photon data");
}
}
