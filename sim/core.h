// Deterministic simulation of fisx: core of the harness.
// One plan (text, generated from one seed) is one exactly repeatable execution.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {

typedef std::map<std::string, double> MSD;
typedef std::vector<double> VD;
typedef std::vector<std::string> VS;
typedef std::map<std::string, std::vector<double> > MSV;
typedef std::map<std::string, std::map<std::string, double> > MSMSD;

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long) below((uint64_t) (b - a + 1)); }
    double unit() { return (double) (next() >> 11) / 9007199254740992.0; }
    double real(double a, double b) { return a + (b - a) * unit(); }
    double logreal(double a, double b) { return std::exp(real(std::log(a), std::log(b))); }
    bool chance(double p) { return unit() < p; }
    template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
    const char * pick(std::initializer_list<const char *> l) { return *(l.begin() + below(l.size())); }
    long logint(long a, long b) { long v = (long) std::floor(logreal((double) a, (double) b + 1.0)); return v < a ? a : (v > b ? b : v); }
};
uint64_t hashBytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull);
uint64_t hashStr(const std::string & s, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- violations
struct Violation {
    std::string cls, msg;
};
struct HarnessError {
    std::string msg;
};

// ---------------------------------------------------------------- answers
// an answer is a shape (all the keys, texts and sizes) and the numbers found in it
struct Ans {
    std::string shape;
    std::vector<double> num;
    bool threw = false;
    uint64_t hash() const;
    std::string text(size_t limit = 600) const;
};
std::string fmt(double x);
inline void flat(Ans & a, double v) { a.shape += '#'; a.num.push_back(v); }
inline void flat(Ans & a, int v) { a.shape += '#'; a.num.push_back((double) v); }
inline void flat(Ans & a, long v) { a.shape += '#'; a.num.push_back((double) v); }
inline void flat(Ans & a, unsigned long v) { a.shape += '#'; a.num.push_back((double) v); }
inline void flat(Ans & a, bool v) { a.shape += v ? "T" : "F"; }
inline void flat(Ans & a, const std::string & s) { a.shape += '"'; a.shape += s; a.shape += '"'; }
inline void flat(Ans & a, const char * s) { flat(a, std::string(s)); }
inline void flat(Ans & a, const Ans & b) {
    if (b.threw) a.shape += "!threw";
    else { a.shape += b.shape; a.num.insert(a.num.end(), b.num.begin(), b.num.end()); }
}
template<class A, class B> void flat(Ans & a, const std::pair<A, B> & p);
template<class T> void flat(Ans & a, const std::vector<T> & v);
template<class K, class T> void flat(Ans & a, const std::map<K, T> & m);
template<class A, class B> void flat(Ans & a, const std::pair<A, B> & p) {
    a.shape += '('; flat(a, p.first); a.shape += ','; flat(a, p.second); a.shape += ')';
}
template<class T> void flat(Ans & a, const std::vector<T> & v) {
    a.shape += '[';
    for (size_t i = 0; i < v.size(); i++) { flat(a, v[i]); a.shape += ';'; }
    a.shape += ']';
}
template<class K, class T> void flat(Ans & a, const std::map<K, T> & m) {
    a.shape += '{';
    for (typename std::map<K, T>::const_iterator it = m.begin(); it != m.end(); ++it) {
        flat(a, it->first); a.shape += ':'; flat(a, it->second); a.shape += ' ';
    }
    a.shape += '}';
}
template<class T> Ans answer(const T & v) { Ans a; flat(a, v); return a; }
// empty when equal, otherwise what differs
std::string differ(const Ans & got, const Ans & expected, double rtol, double atol = 0.0);

// ---------------------------------------------------------------- faults
struct FsFault {
    std::string kind;      // open read short eintr trunc vanish
    long n = 0;            // which one
    int err = 0;           // errno
    long arg = 0;
};
struct Faults {
    long alloc = 0;        // fail the n-th allocation of the call
    bool persist = false;  // and all the following ones
    long sweep = 0, stride = 0;
    bool retry = false;
    std::vector<FsFault> fs;
    bool any() const { return alloc || sweep || !fs.empty(); }
};
struct Op {
    std::string text, name;
    VS a;
    Faults f;
    const std::string & s(size_t i) const;
    long i(size_t k) const;
    double d(size_t k) const;
    VD ds(size_t k) const;   // comma separated list of numbers
    VS ss(size_t k, char sep = ',') const;
    bool has(size_t k) const { return k < a.size(); }
};
Op parseOp(const std::string & line);
VS splitStr(const std::string & s, char sep);

// ---------------------------------------------------------------- seams (simalloc.cpp, simfs.cpp)
namespace seam {
extern thread_local bool inSut;
extern long allocCount, allocFailAt, allocFired;
extern bool allocPersist;
extern void (*onAllocFault)();
extern long taggedBlocks, taggedBytes;
extern uint64_t garbageSeed;  // contents of new memory
extern int garbageMode;       // 0 zeros 1 seeded words 2 0xFF 3 plausible doubles
void smearStack();

void fsReset();
void fsAdd(const std::string & path, const std::string & content);
bool fsHas(const std::string & path);
void fsLink(const std::string & name, const std::string & target);  // name (a file or a directory) shows what target does, until the next call
const std::string & fsContent(const std::string & path);
void fsArm(const std::vector<FsFault> & faults);
void fsDisarm();
struct FsCounts { long opens, reads, fired, benign, openFds, totalReads, totalOpens; };
FsCounts fsCounts();
extern std::map<std::string, long> fsFiredKinds;
extern void (*fsGenerator)(const std::string & path);  // creates a file on demand
}

struct Outcome {
    bool ok = false, threw = false;
    bool fired = false;        // a fault that may legitimately make the call fail was injected
    bool benign = false;       // a fault that must be transparent was injected
    bool badalloc = false;
    std::string type, what;
    long allocs = 0, reads = 0, opens = 0;
};

// ---------------------------------------------------------------- one run
struct Ctx {
    std::string profile;
    bool checkFds = false;
    bool exact = false;
    double rtol = 1e-9;
    uint64_t hash = 1469598103934665603ull;
    std::map<std::string, long> count;
    std::set<uint64_t> states;
    std::vector<Ans> transcript;
    bool keepTranscript = false;
    long compares = 0, steps = 0, mutations = 0;
    const Op * op = nullptr;
    bool stop = false;     // nothing after this operation can be simulated

    void note(const std::string & s) { hash = hashStr(s, hash); }
    void state(const std::string & s) { states.insert(hashStr(s)); }
    void log(const Ans & a);
    [[noreturn]] void fail(const std::string & cls, const std::string & msg);
    void same(const std::string & what, const Ans & got, const Ans & expected);
    void sameTol(const std::string & what, const Ans & got, const Ans & expected, double tol, double atol = 0.0);
    void require(bool c, const std::string & cls, const std::string & msg) { if (!c) fail(cls, msg); }

    void begin(const Faults * f, long allocAt);
    void end(Outcome & o, const Faults * f);

    // call of the system under test, possibly with faults
    template<class F> Outcome sut(F f, const Faults * faults = nullptr, long allocAt = 0) {
        Outcome o;
        begin(faults, allocAt);
        try { f(); seam::inSut = false; o.ok = true; }
        catch (const std::bad_alloc & e) { seam::inSut = false; o.threw = true; o.badalloc = true; o.type = "bad_alloc"; o.what = e.what(); }
        catch (const std::exception & e) { seam::inSut = false; o.threw = true; o.type = "exception"; o.what = e.what(); }
        catch (...) { seam::inSut = false; o.threw = true; o.type = "unknown"; }
        end(o, faults);
        return o;
    }
    // a query of the system under test
    template<class F> Ans ask(F f, const Faults * faults = nullptr, Outcome * out = nullptr, long allocAt = 0) {
        typedef decltype(f()) R;
        std::optional<typename std::decay<R>::type> r;
        Outcome o = sut([&]() { r.emplace(f()); }, faults, allocAt);
        Ans a;
        if (o.ok) flat(a, *r);
        else { a.threw = true; a.shape = "!threw"; }
        if (out) *out = o;
        return a;
    }
    // the same question for the model, outside of the simulated system
    template<class F> static Ans model(F f) {
        Ans a;
        try { a = answer(f()); }
        catch (const std::exception &) { a = Ans(); a.threw = true; a.shape = "!threw"; }
        return a;
    }
    // question with the faults of the operation and known answer
    template<class F> void query(const std::string & what, F f, const Ans & expected, const Faults & faults) {
        Outcome o;
        if (faults.sweep) {
            long n = faults.sweep;
            for (int k = 0; k < 24; k++, n += faults.stride) {
                Ans a = ask(f, nullptr, &o, n);
                if (!o.fired) { judge(what, a, o, expected); return; }
                judge(what, a, o, expected);
            }
        } else if (faults.any()) {
            Ans a = ask(f, &faults, &o, 0);
            judge(what, a, o, expected);
            if (!o.fired && !o.benign) return;
        }
        Ans a = ask(f, nullptr, &o);
        judge(what + (faults.any() ? " (repeated without fault)" : ""), a, o, expected);
    }
    void judge(const std::string & what, const Ans & a, const Outcome & o, const Ans & expected);
    // change of state: returns the outcome of the last attempt
    template<class F, class V> Outcome mutate(F f, const Faults & faults, V unchanged) {
        Outcome o;
        if (faults.sweep) {
            long n = faults.sweep;
            for (int k = 0; k < 24; k++, n += faults.stride) {
                o = sut(f, nullptr, n);
                if (!(o.threw && o.fired)) return o;
                unchanged();
            }
            return sut(f, nullptr);
        }
        if (!faults.any()) return sut(f, nullptr);
        o = sut(f, &faults);
        if (o.threw && o.fired) {
            unchanged();
            if (faults.retry) return sut(f, nullptr);
        }
        return o;
    }
};

// ---------------------------------------------------------------- profiles
struct Profile {
    std::string prop;
    void (*gen)(Rng &, std::vector<std::string> &);
    bool twoPassLeak, fds, base, history;
};
extern std::vector<Profile> profiles;
std::vector<Profile> & moreProfiles();
extern void (*pythonHook)();   // starts the embedded interpreter, where there is one
struct World;
World * newWorld();
void delWorld(World *);
void execOp(World &, Ctx &, const Op &);
void finishWorld(World &, Ctx &);
void loadBase();
std::string num(double x);
std::string nums(const VD & v);
}
#endif
