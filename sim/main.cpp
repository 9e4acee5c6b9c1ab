// Worker of the simulation: makes plans from seeds, executes each one in a
// forked process, repeats and minimises the failing ones.
#include "world.h"
#include "simsched.h"
#include <malloc.h>
#include <sys/mman.h>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
namespace sim {
void installGenerator();
void loadPhotonBase();
void (*pythonHook)();
std::vector<Profile> & moreProfiles() { static std::vector<Profile> v; return v; }
std::map<std::string, OpFn> & opTable() { static std::map<std::string, OpFn> t; return t; }
World * newWorld() { return new World(); }
void delWorld(World * w) {
    for (auto & e : w->el) { delete e.second->sut; delete e.second; }
    for (auto & l : w->lib) { delete l.second->sut; delete l.second; }
    for (auto it = w->cleanup.rbegin(); it != w->cleanup.rend(); ++it) (*it)();
    delete w;
}
void execOp(World & w, Ctx & cx, const Op & op) {
    auto it = opTable().find(op.name);
    if (it == opTable().end()) throw HarnessError{"unknown operation " + op.name};
    cx.op = &op;
    cx.note(op.name);
    it->second(w, cx, op);
}
struct Anon {};
void finishWorld(World & w, Ctx & cx) {
    VS ops;
    for (auto & e : w.el) ops.push_back("e.check " + e.first);
    for (auto & l : w.lib) ops.push_back("l.check " + l.first);
    static const char * const KINDS[][2] = {{"layer", "y.check"}, {"xrf", "x.check"}, {"spec", "s.check"}, {"ini", "i.check"}, {"photon", "p.check"}, {"py", "py.check"}};
    for (auto & k : KINDS) {
        auto it = w.more.find(k[0]);
        if (it == w.more.end()) continue;
        for (auto & s : *(std::map<std::string, Anon *> *) it->second) ops.push_back(std::string(k[1]) + " " + s.first);
    }
    for (auto & o : ops) { Op op = parseOp(o); execOp(w, cx, op); }
}
}

struct Result {
    std::string cls, msg;
    uint64_t hash = 0;
    long steps = 0, compares = 0, mutations = 0;
    std::map<std::string, long> count;
    std::vector<uint64_t> states;
    std::vector<uint64_t> answers;   // of the tagged operations
    std::string schedule;            // the schedules the threads were run with
};
static std::string clean(std::string s) { for (auto & c : s) if (c == '\n' || c == '\r' || c == '\t') c = ' '; return s.substr(0, 1500); }

// executes a plan in this process
static void once(const Profile & p, const VS & plan, Result & r, bool first) {
    Ctx cx;
    cx.profile = p.prop;
    cx.checkFds = p.fds;
    World * w = newWorld();
    Op current;
    bool failed = false;
    try {
        for (auto & l : plan) {
            if (l.empty() || l[0] == '#') continue;
            current = parseOp(l);
            uint64_t h0 = cx.hash;
            cx.hash = 1469598103934665603ull;
            execOp(*w, cx, current);
            uint64_t mine = cx.hash;
            cx.hash = hashBytes(&mine, sizeof mine, h0);
            if (first) r.answers.push_back(mine);
            if (cx.stop) break;
        }
        cx.op = nullptr;
        if (!cx.stop) finishWorld(*w, cx);
    } catch (const Violation & v) { r.cls = v.cls; r.msg = v.msg; failed = true; }
    catch (const HarnessError & e) { r.cls = "HARNESS"; r.msg = e.msg; failed = true; }
    catch (const std::exception & e) { r.cls = "HARNESS"; r.msg = std::string("exception in the harness: ") + e.what() + " at " + current.text; failed = true; }
    if (!failed && !cx.stop) delWorld(w);
    if (first) {
        r.hash = cx.hash;
        r.steps = cx.steps; r.compares = cx.compares; r.mutations = cx.mutations;
        r.count = cx.count;
        r.states.assign(cx.states.begin(), cx.states.end());
    }
}

static int reportFd = -1;
static void fatal(const std::string & cls, const std::string & msg) {
    seam::inSut = false;
    std::string s = "H 0 0 0 0\nV " + clean(cls) + "\t" + clean(msg) + "\nE\n";
    if (write(reportFd, s.data(), s.size()) < 0) _exit(97);
    _exit(0);
}
static void child(const Profile & p, const VS & plan, int fd) {
    reportFd = fd;
    fatalHook = fatal;
    struct rlimit rl;
    rl.rlim_cur = 60; rl.rlim_max = 62;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 1);
    Result r;
    once(p, plan, r, true);
    if (p.twoPassLeak && r.cls.empty()) {
        long blocks = seam::taggedBlocks, bytes = seam::taggedBytes;
        Result q;
        once(p, plan, q, false);
        if (q.cls.size()) { r.cls = q.cls; r.msg = "on the second pass: " + q.msg; }
        else if (seam::taggedBlocks > blocks) {
            r.cls = "memory-leak";
            r.msg = std::to_string(seam::taggedBlocks - blocks) + " block(s), " + std::to_string(seam::taggedBytes - bytes) + " byte(s) not released after all the objects of the run were destroyed";
        }
    }
    std::ostringstream o;
    o << "H " << r.hash << " " << r.steps << " " << r.compares << " " << r.mutations << "\n";
    for (auto & c : r.count) o << "C " << c.second << " " << c.first << "\n";
    for (auto s : r.states) o << "S " << s << "\n";
    for (auto s : r.answers) o << "A " << s << "\n";
    if (r.cls.size()) o << "V " << clean(r.cls) << "\t" << clean(r.msg) << "\n";
    o << "E\n";
    std::string s = o.str();
    size_t done = 0;
    while (done < s.size()) { ssize_t k = write(fd, s.data() + done, s.size() - done); if (k <= 0) break; done += (size_t) k; }
    _exit(0);
}
static Result runPlan(const Profile & p, const VS & plan) {
    int fd[2], er[2];
    if (pipe(fd) || pipe(er)) { perror("pipe"); exit(3); }
    fflush(stdout);
    if (schedLog) schedLog[0] = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        close(fd[0]); close(er[0]);
        dup2(er[1], 2);
        child(p, plan, fd[1]);
    }
    close(fd[1]); close(er[1]);
    std::string out, err;
    char b[65536];
    struct pollfd pf[2] = {{fd[0], POLLIN, 0}, {er[0], POLLIN, 0}};
    int open = 2;
    while (open) {
        if (poll(pf, 2, -1) < 0) continue;
        for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && (pf[i].revents & (POLLIN | POLLHUP | POLLERR))) {
            ssize_t k = read(pf[i].fd, b, sizeof b);
            if (k > 0) { std::string & d = i ? err : out; if (d.size() < (32u << 20)) d.append(b, (size_t) k); }
            else { close(pf[i].fd); pf[i].fd = -1; open--; }
        }
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    std::istringstream is(out);
    std::string l;
    bool complete = false;
    while (std::getline(is, l)) {
        if (l[0] == 'H') { std::istringstream k(l.substr(2)); k >> r.hash >> r.steps >> r.compares >> r.mutations; }
        else if (l[0] == 'C') { size_t sp = l.find(' ', 2); r.count[l.substr(sp + 1)] = atol(l.c_str() + 2); }
        else if (l[0] == 'S') r.states.push_back(strtoull(l.c_str() + 2, nullptr, 10));
        else if (l[0] == 'A') r.answers.push_back(strtoull(l.c_str() + 2, nullptr, 10));
        else if (l[0] == 'V') { size_t t = l.find('\t'); r.cls = l.substr(2, t - 2); r.msg = l.substr(t + 1); }
        else if (l[0] == 'E') complete = true;
    }
    if (schedLog) r.schedule = schedLog;
    if (!complete) {
        std::string sig = WIFSIGNALED(st) ? std::string("signal ") + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        // the kind of report, without addresses
        std::string kind;
        size_t e = err.find("ERROR: ");
        if (e != std::string::npos) {
            size_t c = err.find(": ", e + 7);
            kind = c == std::string::npos ? "" : err.substr(c + 2, err.find_first_of(" \n", c + 2) - c - 2);
        } else if ((e = err.find("runtime error: ")) != std::string::npos) kind = "undefined-behaviour";
        else if (err.find("Assertion") != std::string::npos) kind = "assertion";
        else if (err.find("terminate called") != std::string::npos) kind = "terminate";
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL && kind.empty()))) r.cls = "hang";
        else r.cls = "crash" + (kind.empty() ? "" : ":" + kind);
        size_t from = e == std::string::npos ? 0 : e;
        r.msg = sig + " " + clean(err.substr(from, 1200));
    }
    return r;
}

static const Profile * find(const std::string & n) { for (auto & p : profiles) if (p.prop == n) return &p; for (auto & p : moreProfiles()) if (p.prop == n) return &p; fprintf(stderr, "unknown profile %s\n", n.c_str()); exit(3); }
static VS planOf(const Profile & p, uint64_t seed) { Rng r(hashStr(p.prop) ^ (seed * 0x9E3779B97F4A7C15ull)); VS v; p.gen(r, v); return v; }

// two processes, the second without some of the questions: the others have to be answered the same
static bool question(const std::string & l) {
    static const char * const Q[] = {"e.q", "l.q", "y.q", "x.q", "t.q", "p.q", "f.all", "f.split", "f.subset", "f.one", "s.labels", "s.data", "i.sec", "i.sub", "i.val"};
    std::string n = l.substr(0, l.find(' '));
    for (auto q : Q) if (n == q) return l.find('@') == std::string::npos;
    return false;
}
static Result runHistory(const Profile & p, const VS & plan, uint64_t seed) {
    Result a = runPlan(p, plan);
    if (a.cls.size()) return a;
    Rng r(seed * 77 + 5);
    VS less;
    std::vector<size_t> kept;
    size_t k = 0;
    double keep = r.chance(0.5) ? 0.5 : 0.15;
    for (auto & l : plan) {
        if (l.empty() || l[0] == '#') continue;
        if (question(l) && !r.chance(keep)) { k++; continue; }
        less.push_back(l);
        kept.push_back(k++);
    }
    Result b = runPlan(p, less);
    if (b.cls.size()) { b.msg = "without some of the earlier questions: " + b.msg; return b; }
    for (size_t i = 0; i < kept.size(); i++) if (question(less[i]) && i < b.answers.size() && a.answers[kept[i]] != b.answers[i]) {
        a.cls = "history-dependent";
        a.msg = "the answer to <" + less[i] + "> depends on the questions asked before";
        return a;
    }
    return a;
}
static Result execute(const Profile & p, const VS & plan, uint64_t seed) {
    if (p.history) return runHistory(p, plan, seed);
    return runPlan(p, plan);
}
static std::string kindOf(const std::string & cls) { return cls; }
static VS minimise(const Profile & p, VS plan, const std::string & cls, uint64_t seed, double seconds, Result & last) {
    auto t0 = std::chrono::steady_clock::now();
    auto over = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds; };
    auto fails = [&](const VS & v) { Result r = execute(p, v, seed); bool f = kindOf(r.cls) == kindOf(cls); if (f) last = r; return f; };
    size_t n = 2;
    while (plan.size() > 1 && !over()) {
        bool reduced = false;
        size_t chunk = (plan.size() + n - 1) / n;
        // from the end: later steps matter less often
        for (size_t e = plan.size(); e > 0 && !over(); e = e > chunk ? e - chunk : 0) {
            size_t b = e > chunk ? e - chunk : 0;
            VS v(plan.begin(), plan.begin() + (long) b);
            v.insert(v.end(), plan.begin() + (long) e, plan.end());
            if (v.size() && fails(v)) { plan = v; reduced = true; n = std::max<size_t>(n - 1, 2); break; }
            if (e <= chunk) break;
        }
        if (!reduced) { if (chunk == 1) break; n = std::min(plan.size(), n * 2); }
    }
    for (size_t i = 0; i < plan.size() && !over(); i++) {
        for (;;) {
            size_t at = plan[i].rfind(" @");
            if (at == std::string::npos) break;
            VS v = plan;
            v[i] = plan[i].substr(0, at);
            if (!fails(v)) break;
            plan = v;
        }
    }
    // the schedule itself: first what was recorded, then as few switches as possible
    VS seg = splitStr(last.schedule, ';');
    size_t k = 0;
    VS v = plan;
    for (auto & l : v) if (l.compare(0, 4, "par ") == 0 && l.compare(0, 6, "par x ") != 0 && k < seg.size()) l = "par x " + seg[k++];
    if (k && fails(v)) {
        plan = v;
        for (size_t i = 0; i < plan.size() && !over(); i++) {
            if (plan[i].compare(0, 6, "par x ") != 0) continue;
            VS sw = splitStr(plan[i].substr(6), ',');
            while (sw.size() && sw.back().empty()) sw.pop_back();
            auto joined = [](const VS & s) { std::string t = "par x "; for (auto & e : s) t += e + ","; if (s.empty()) t += "-"; return t; };
            size_t n = 1;
            while (sw.size() && !over()) {
                bool reduced = false;
                size_t chunk = (sw.size() + n - 1) / n;
                for (size_t b = 0; b < sw.size() && !over(); b += chunk) {
                    VS less(sw.begin(), sw.begin() + (long) b);
                    less.insert(less.end(), sw.begin() + (long) std::min(sw.size(), b + chunk), sw.end());
                    v = plan;
                    v[i] = joined(less);
                    if (fails(v)) { sw = less; plan = v; reduced = true; n = std::max<size_t>(n - 1, 1); break; }
                }
                if (!reduced) { if (chunk == 1) break; n = std::min(sw.size(), n * 2); }
            }
        }
        for (size_t i = plan.size(); i > 0 && plan.size() > 1 && !over(); i--) {
            v = plan;
            v.erase(v.begin() + (long) i - 1);
            if (fails(v)) plan = v;
        }
    }
    return plan;
}
static std::string jstr(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o + "\"";
}

int main(int argc, char ** argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
        setenv("SIM_NOREEXEC", "1", 1);
        if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    VS a(argv + 1, argv + argc);
    if (a.size() < 2) { fprintf(stderr, "usage: sim plan P seed | run P file seed | batch P first stride seconds data [maxruns] | hashes P ... | minimise P file seed out\n"); return 3; }
    const char * dir = getenv("SIM_DATA");
    std::string data = dir ? dir : "/verif/sim/data";
    const Profile & p = *find(a[1]);
    if (a[0] == "plan") { for (auto & l : planOf(p, strtoull(a[2].c_str(), nullptr, 10))) printf("%s\n", l.c_str()); return 0; }
    if (runThreads) {
        mallopt(M_ARENA_MAX, 1);
        schedLog = (char *) mmap(nullptr, SCHED_LOG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (schedLog == MAP_FAILED) { perror("mmap"); return 3; }
    }
    if (getenv("SIM_GARBAGE")) { seam::garbageMode = atoi(getenv("SIM_GARBAGE")); seam::garbageSeed = (uint64_t) seam::garbageMode * 1315423911u + 7; }
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    {
        long files = 0;
        VS names;
        if (DIR * d = opendir(data.c_str())) {
            while (struct dirent * e = readdir(d)) { std::string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".dat") names.push_back(n); }
            closedir(d);
        }
        std::sort(names.begin(), names.end());
        for (auto & n : names) {
            std::ifstream f((data + "/" + n).c_str(), std::ios::binary);
            std::stringstream ss;
            ss << f.rdbuf();
            seam::fsAdd("/sim/data/" + n, ss.str());
            files++;
        }
        if (files < 19) { fprintf(stderr, "simulated disk: only %ld files in %s\n", files, data.c_str()); return 3; }
    }
    installGenerator();
    try { if (p.base) { loadBase(); loadPhotonBase(); Ctx cx; cx.profile = p.prop; if (refWants(cx, "")) { refBase(0); refBase(1); } } if (pythonHook) pythonHook(); }
    catch (const std::exception & e) {
        // the undisturbed library cannot even be opened
        printf("{\"violations\":[{\"seed\":0,\"cls\":\"base\",\"msg\":%s,\"plan\":[]}],\"runs\":0}\n", jstr(std::string("the undisturbed library could not be constructed: ") + e.what()).c_str());
        return 0;
    }
    if (a[0] == "cat") { printf("%s", seam::fsContent(a[2]).c_str()); return 0; }
    double loaded = elapsed();
    auto readPlan = [&](const std::string & f) { VS v; std::ifstream is(f.c_str()); std::string l; while (std::getline(is, l)) if (l.size() && l[0] != '#') v.push_back(l); return v; };
    if (a[0] == "run") {
        uint64_t seed = a.size() > 3 ? strtoull(a[3].c_str(), nullptr, 10) : 0;
        Result r = execute(p, readPlan(a[2]), seed);
        printf("{\"hash\":%llu,\"steps\":%ld,\"cls\":%s,\"msg\":%s}\n", (unsigned long long) r.hash, r.steps, jstr(r.cls).c_str(), jstr(r.msg).c_str());
        if (getenv("SIM_VERBOSE")) for (auto & c : r.count) printf("%s %ld\n", c.first.c_str(), c.second);
        return 0;
    }
    if (a[0] == "minimise") {
        uint64_t seed = strtoull(a[3].c_str(), nullptr, 10);
        VS plan = readPlan(a[2]);
        Result r = execute(p, plan, seed), last = r;
        if (r.cls.empty()) { printf("{\"cls\":\"\",\"msg\":\"\"}\n"); return 0; }
        VS m = minimise(p, plan, r.cls, seed, a.size() > 5 ? atof(a[5].c_str()) : 60, last);
        std::ofstream o(a[4].c_str());
        for (auto & l : m) o << l << "\n";
        printf("{\"cls\":%s,\"msg\":%s,\"from\":%zu,\"to\":%zu}\n", jstr(last.cls).c_str(), jstr(last.msg).c_str(), plan.size(), m.size());
        return 0;
    }
    if (a[0] == "batch" || a[0] == "hashes") {
        uint64_t first = strtoull(a[2].c_str(), nullptr, 10), stride = strtoull(a[3].c_str(), nullptr, 10);
        double seconds = atof(a[4].c_str());
        long maxRuns = a.size() > 5 ? atol(a[5].c_str()) : 1000000000L;
        bool hashes = a[0] == "hashes";
        std::map<std::string, long> count, ops;
        std::set<uint64_t> states, distinct;
        long runs = 0, steps = 0, compares = 0, mutations = 0, again = 0, identical = 0, planned = 0;
        std::ostringstream viol, hs;
        int nv = 0;
        double worst = 0;
        for (uint64_t seed = first; elapsed() < seconds && runs < maxRuns && nv < 3; seed += stride) {
            VS plan = planOf(p, seed);
            double before = elapsed();
            Result r = execute(p, plan, seed);
            worst = std::max(worst, elapsed() - before);
            runs++;
            planned += (long) plan.size();
            for (auto & l : plan) ops[l.substr(0, l.find(' '))]++;
            steps += r.steps; compares += r.compares; mutations += r.mutations;
            for (auto & c : r.count) count[c.first] += c.second;
            if (r.mutations || r.steps > 3) distinct.insert(r.hash);
            states.insert(r.states.begin(), r.states.end());
            if (hashes) { hs << (runs > 1 ? "," : "") << "[" << seed << "," << jstr(std::to_string(r.hash)) << "," << jstr(r.cls) << "]"; }
            if (runs % 40 == 1 && r.cls.empty()) {
                again++;
                Result q = execute(p, plan, seed);
                if (q.hash == r.hash && q.cls == r.cls) identical++;
            }
            if (r.cls.size() && !hashes) {
                viol << (nv++ ? "," : "") << "{\"seed\":" << seed << ",\"cls\":" << jstr(r.cls) << ",\"msg\":" << jstr(r.msg) << ",\"plan\":[";
                for (size_t i = 0; i < plan.size(); i++) viol << (i ? "," : "") << jstr(plan[i]);
                viol << "]}";
            }
        }
        std::ostringstream o;
        auto table = [&](const std::map<std::string, long> & m) { std::string s = "{"; for (auto & c : m) s += (s.size() > 1 ? "," : "") + jstr(c.first) + ":" + std::to_string(c.second); return s + "}"; };
        o << "{\"runs\":" << runs << ",\"steps\":" << steps << ",\"compares\":" << compares << ",\"mutations\":" << mutations << ",\"planned\":" << planned
          << ",\"again\":" << again << ",\"identical\":" << identical << ",\"load_s\":" << loaded << ",\"wall_s\":" << elapsed() << ",\"worst_s\":" << worst
          << ",\"counts\":" << table(count) << ",\"ops\":" << table(ops) << ",\"distinct\":[";
        size_t i = 0;
        for (auto h : distinct) o << (i++ ? "," : "") << h;
        o << "],\"states\":[";
        i = 0;
        for (auto h : states) o << (i++ ? "," : "") << h;
        o << "],\"hashes\":[" << hs.str() << "],\"violations\":[" << viol.str() << "]}\n";
        std::cout << o.str();
        return 0;
    }
    fprintf(stderr, "unknown mode\n");
    return 3;
}
