// Plans with threads: every simulated thread executes ordinary questions.
#include "world.h"
#include "simsched.h"
namespace sim {
bool (*runThreads)(int, const std::function<void(int)> &, const VS &, SchedReport &) = nullptr;
char * schedLog = nullptr;
void (*fatalHook)(const std::string &, const std::string &) = nullptr;

struct Threads { std::map<long, VS> program; };
static Threads & threads(World & w) {
    void *& p = w.more["threads"];
    if (!p) { Threads * t = new Threads(); p = t; w.cleanup.push_back([t]() { delete t; }); }
    return *(Threads *) p;
}
// a question of a thread: th <thread> <operation>
SIM_OP(tTh, "th") {
    (void) cx;
    std::string l;
    for (size_t i = 1; i < op.a.size(); i++) l += (i > 1 ? " " : "") + op.a[i];
    if (l.size()) threads(w).program[op.i(0)].push_back(l);
}
// runs them: par <seed> <strategy>, or par x <recorded schedule>
SIM_OP(tPar, "par") {
    Threads & t = threads(w);
    std::vector<VS> prog;
    for (auto & k : t.program) prog.push_back(k.second);
    t.program.clear();
    if (prog.size() > 4) prog.resize(4);
    int n = (int) prog.size();
    if (!n) return;
    struct One { Ctx cx; Op op; std::string cls, msg; };
    std::vector<One> one((size_t) n);
    for (auto & o : one) { o.cx.profile = cx.profile; o.cx.exact = cx.exact; o.cx.rtol = cx.rtol; }
    std::function<void(int)> body = [&](int k) {
        One & o = one[(size_t) k];
        try {
            for (auto & l : prog[(size_t) k]) { o.op = parseOp(l); execOp(w, o.cx, o.op); }
        }
        catch (const Violation & v) { seam::inSut = false; o.cls = v.cls; o.msg = v.msg; }
        catch (const HarnessError & e) { seam::inSut = false; o.cls = "HARNESS"; o.msg = e.msg; }
        catch (const std::exception & e) { seam::inSut = false; o.cls = "HARNESS"; o.msg = std::string("exception in the harness: ") + e.what() + " at " + o.op.text; }
    };
    SchedReport rep;
    bool ran = runThreads && n > 1 && runThreads(n, body, VS(op.a.begin(), op.a.end()), rep);
    if (!ran) for (int k = 0; k < n; k++) body(k);
    cx.op = &op;
    for (int k = 0; k < n; k++) {
        Ctx & c = one[(size_t) k].cx;
        cx.hash = hashBytes(&c.hash, sizeof c.hash, cx.hash);
        cx.steps += c.steps; cx.compares += c.compares; cx.mutations += c.mutations;
        for (auto & m : c.count) cx.count[m.first] += m.second;
        cx.states.insert(c.states.begin(), c.states.end());
    }
    cx.count["sched.programs"]++;
    cx.count["sched.threads"] += n;
    cx.count["sched.yield_points"] += rep.candidates;
    cx.count["fault.preemption"] += rep.switches;
    cx.count["sched.forced_switches"] += rep.forced;
    cx.count["sched.blocked_on_lock"] += rep.blocked;
    cx.count["sched.accesses_checked"] += rep.accesses;
    cx.count["sched.writes_to_shared_memory"] += rep.sharedWrites;
    if (op.has(1) && op.s(0) != "x") cx.count["sched.strategy." + op.s(1).substr(0, op.s(1).find(':'))]++;
    if (rep.switches) { cx.mutations++; cx.states.insert(rep.trace); }
    cx.hash = hashBytes(&rep.trace, sizeof rep.trace, cx.hash);
    std::string wrong;
    for (int k = 0; k < n; k++) {
        One & o = one[(size_t) k];
        if (o.cls == "HARNESS") throw HarnessError{o.msg};
        if (o.cls.size() && wrong.empty()) wrong = "thread " + std::to_string(k) + " of " + std::to_string(n) + ": " + o.cls + " " + o.msg;
    }
    if (rep.race.size()) cx.fail("race", "two threads use the same memory without synchronisation, at least one changing it: " + rep.race + (wrong.size() ? "; and " + wrong : ""));
    if (wrong.size()) cx.fail("thread-answer", wrong);
}
}
