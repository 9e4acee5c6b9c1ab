#include "core.h"
#include <cstdlib>
namespace sim {

uint64_t hashBytes(const void * p, size_t n, uint64_t h) {
    const unsigned char * c = (const unsigned char *) p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
uint64_t hashStr(const std::string & s, uint64_t h) { h = hashBytes(s.data(), s.size(), h); return hashBytes("|", 1, h); }

std::string fmt(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
std::string num(double x) {
    char b[40];
    for (int p = 1; p < 18; p++) { snprintf(b, sizeof b, "%.*g", p, x); if (strtod(b, nullptr) == x) break; }
    return b;
}
std::string nums(const VD & v) {
    std::string s;
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += num(v[i]); }
    return s.empty() ? "-" : s;
}

uint64_t Ans::hash() const {
    uint64_t h = hashStr(shape);
    for (size_t i = 0; i < num.size(); i++) {
        double d = num[i];
        if (d != d) h = hashStr("nan", h); else h = hashBytes(&d, sizeof d, h);
    }
    return h;
}
std::string Ans::text(size_t limit) const {
    std::string s;
    size_t k = 0;
    for (size_t i = 0; i < shape.size() && s.size() < limit; i++) {
        if (shape[i] == '#' && k < num.size()) s += sim::fmt(num[k++]);
        else s += shape[i];
    }
    if (s.size() >= limit) s += "...";
    return s;
}
static std::string around(const Ans & a, size_t shapePos, size_t numIdx) {
    // text around a position of the shape
    size_t from = shapePos > 60 ? shapePos - 60 : 0;
    std::string s;
    size_t k = 0;
    for (size_t i = 0; i < a.shape.size() && i < shapePos + 40; i++) {
        bool isNum = (a.shape[i] == '#');
        if (i >= from) { if (isNum && k < a.num.size()) s += sim::fmt(a.num[k]); else s += a.shape[i]; }
        if (isNum) k++;
    }
    (void) numIdx;
    return s;
}
std::string differ(const Ans & g, const Ans & e, double rtol, double atol) {
    if (g.threw != e.threw) return g.threw ? "it reports a failure, expected " + e.text(300) : "it answers " + g.text(300) + " but a failure is expected";
    if (g.threw) return "";
    if (g.shape != e.shape) {
        size_t i = 0;
        while (i < g.shape.size() && i < e.shape.size() && g.shape[i] == e.shape[i]) i++;
        return "different contents: got ..." + around(g, i, 0) + " expected ..." + around(e, i, 0);
    }
    size_t k = 0;
    for (size_t i = 0; i < g.shape.size(); i++) {
        if (g.shape[i] != '#') continue;
        if (k >= g.num.size() || k >= e.num.size()) break;
        double a = g.num[k], b = e.num[k];
        k++;
        if (a == b) continue;
        if ((a != a) && (b != b)) continue;
        double m = std::max(std::fabs(a), std::fabs(b));
        if (std::fabs(a - b) <= rtol * m + (rtol > 0 ? 1e-300 : 0) + atol) continue;
        return "different value: got " + sim::fmt(a) + " expected " + sim::fmt(b) + " in ..." + around(g, i, k);
    }
    return "";
}

const std::string & Op::s(size_t k) const {
    if (k >= a.size()) throw HarnessError{"missing argument in <" + text + ">"};
    return a[k];
}
long Op::i(size_t k) const { return strtol(s(k).c_str(), nullptr, 10); }
double Op::d(size_t k) const { return strtod(s(k).c_str(), nullptr); }
VS splitStr(const std::string & s, char sep) {
    VS r;
    std::string cur;
    for (size_t i = 0; i < s.size(); i++) { if (s[i] == sep) { r.push_back(cur); cur.clear(); } else cur += s[i]; }
    r.push_back(cur);
    return r;
}
VS Op::ss(size_t k, char sep) const { if (s(k) == "-") return VS(); return splitStr(s(k), sep); }
VD Op::ds(size_t k) const {
    VD r;
    const std::string & t = s(k);
    if (t == "-") return r;
    if (t.compare(0, 6, "range:") == 0) {
        VS p = splitStr(t, ':');
        double lo = strtod(p[1].c_str(), nullptr), hi = strtod(p[2].c_str(), nullptr);
        long n = strtol(p[3].c_str(), nullptr, 10);
        for (long i = 0; i < n; i++) r.push_back(lo + (hi - lo) * i / (n > 1 ? n - 1 : 1));
        return r;
    }
    VS p = splitStr(t, ',');
    for (auto & x : p) r.push_back(strtod(x.c_str(), nullptr));
    return r;
}
Op parseOp(const std::string & line) {
    Op o;
    o.text = line;
    std::istringstream is(line);
    std::string w;
    is >> o.name;
    while (is >> w) {
        if (w[0] != '@') { o.a.push_back(w); continue; }
        size_t eq = w.find('=');
        std::string k = w.substr(1, eq == std::string::npos ? std::string::npos : eq - 1);
        std::string v = eq == std::string::npos ? "" : w.substr(eq + 1);
        if (k == "alloc") o.f.alloc = atol(v.c_str());
        else if (k == "allocp") { o.f.alloc = atol(v.c_str()); o.f.persist = true; }
        else if (k == "sweep") { VS p = splitStr(v, ':'); o.f.sweep = atol(p[0].c_str()); o.f.stride = atol(p[1].c_str()); if (o.f.stride < 1) o.f.stride = 1; }
        else if (k == "retry") o.f.retry = true;
        else if (k == "fs") {
            VS p = splitStr(v, ':');
            FsFault f;
            f.kind = p[0];
            if (p.size() > 1) f.n = atol(p[1].c_str());
            if (p.size() > 2) f.err = atoi(p[2].c_str());
            if (p.size() > 3) f.arg = atol(p[3].c_str());
            o.f.fs.push_back(f);
        } else throw HarnessError{"unknown fault <" + w + ">"};
    }
    return o;
}

void Ctx::log(const Ans & a) {
    uint64_t h = a.hash();
    hash = hashBytes(&h, sizeof h, hash);
    if (keepTranscript) transcript.push_back(a);
}
void Ctx::fail(const std::string & cls, const std::string & msg) { throw Violation{cls, (op ? "at <" + op->text + ">: " : std::string()) + msg}; }
void Ctx::same(const std::string & what, const Ans & got, const Ans & expected) { sameTol(what, got, expected, exact ? 0.0 : rtol); }
void Ctx::sameTol(const std::string & what, const Ans & got, const Ans & expected, double tol, double atol) {
    compares++;
    log(got);
    std::string d = differ(got, expected, tol, atol);
    if (!d.empty()) fail("wrong-answer", what + ": " + d);
}
void Ctx::judge(const std::string & what, const Ans & a, const Outcome & o, const Ans & expected) {
    if (o.threw && o.fired && !expected.threw) { compares++; count["reported.failure"]++; log(a); return; }
    if (o.threw && !o.fired && !expected.threw) {
        fail("unexpected-failure", what + ": reports a failure <" + o.what + "> " + (o.benign ? "because of a transparent event" : "without any fault") + ", expected " + expected.text(300));
    }
    if (o.threw && o.fired && expected.threw) { compares++; log(a); return; }
    same(what + (o.fired ? " (with an injected fault)" : ""), a, expected);
}
void Ctx::begin(const Faults * f, long allocAt) {
    steps++;
    seam::allocCount = 0;
    seam::allocFired = 0;
    seam::allocFailAt = allocAt;
    seam::allocPersist = false;
    if (f) {
        if (f->alloc) { seam::allocFailAt = f->alloc; seam::allocPersist = f->persist; }
        seam::fsArm(f->fs);
    } else seam::fsArm(std::vector<FsFault>());
    seam::smearStack();
    seam::inSut = true;
}
void Ctx::end(Outcome & o, const Faults * f) {
    (void) f;
    seam::inSut = false;
    o.allocs = seam::allocCount;
    seam::FsCounts c = seam::fsCounts();
    o.reads = c.reads;
    o.opens = c.opens;
    o.fired = seam::allocFired > 0 || c.fired > 0;
    o.benign = c.benign > 0;
    if (seam::allocFired) count[seam::allocPersist ? "fault.alloc.persistent" : "fault.alloc.once"]++;
    for (auto & k : seam::fsFiredKinds) count["fault.fs." + k.first] += k.second;
    seam::allocFailAt = 0;
    seam::fsDisarm();
    count["sut.calls"]++;
    count["sut.allocs"] += o.allocs;
    if (o.threw) count["sut.threw"]++;
    if (o.type == "unknown") fail("unknown-exception", "an exception not derived from std::exception was thrown");
    if (checkFds && c.openFds != 0) {
        fail("fd-leak", "the operation returned leaving " + std::to_string(c.openFds) + " file(s) open" + (o.threw ? " after reporting <" + o.what + ">" : ""));
    }
    // note the outcome, not the text of the message
    note(o.ok ? "ok" : (o.badalloc ? "bad_alloc" : "threw"));
}
}
