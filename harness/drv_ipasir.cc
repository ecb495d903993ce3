// Monitor of the IPASIR C interface: random legal call histories on several instances, every answer checked
// against the clauses and assumptions the history has passed in so far.
#include "candyapi.h"
#include <atomic>
#include <thread>
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace vf;

struct Inst;
struct Tag { Inst* owner; int id; };
struct Inst {
    void* s = nullptr; CNF F; Clause cur, as, lastAs; int state = 0 /*0 INPUT 10 SAT 20 UNSAT*/; int nv = 0;
    bool termSet = false; uint64_t polls = 0, fireAt = ~0ull; bool fired = false; bool foreign = false, inSolve = false, outside = false;
    bool learnSet = false; int maxLen = 0; std::vector<Clause> learnt; std::string bad; Tag tag;
};
static int term(void* p) { Tag* t = (Tag*)p; Inst* i = t->owner; if (t->id != 77) { i->foreign = true; } if (!i->inSolve) i->outside = true; if (i->polls++ >= i->fireAt) { i->fired = true; return 1; } return 0; }
static void learn(void* p, int* cl) {
    Tag* t = (Tag*)p; Inst* i = t->owner; if (t->id != 77) i->foreign = true; if (!i->inSolve) i->outside = true;
    Clause c; for (int n = 0; cl[n] != 0 && n < 100000; n++) c.push_back(cl[n]);
    if ((int)c.size() > i->maxLen) i->bad = "exported clause with " + std::to_string(c.size()) + " literals, limit " + std::to_string(i->maxLen);
    for (int l : c) if (std::abs(l) > i->nv) i->bad = "exported clause mentions unknown variable: " + str(c);
    i->learnt.push_back(c);
    for (int n = 0; cl[n] != 0; n++) cl[n] = 0x7ead;  // the receiver owns the buffer only for the call: scribble on it
}

static void history(Case& c, bool big) {
    Rng& R = c.R; Gen g(R);
    Cfg cfg; if (R.chance(60)) cfg = anyCfg(R, false);
    int N = R.chance(70) ? 1 : R.range(2, 3);
    struct Op { int k, who, a; Clause cl; };      // 0 add clause 1 assume 2 solve 3 set_terminate 4 set_learn 5 release+init 6 split clause with assume inside
    std::vector<Op> plan; std::vector<CNF> pool(N); std::vector<size_t> pos(N, 0);
    for (int i = 0; i < N; i++) { int sz = big ? 2 : R.chance(60) ? 0 : 1; pool[i] = g.any(sz, true); }
    int nops = R.range(6, 30);
    for (int o = 0; o < nops; o++) {
        int w = (int)R.below(N), n = std::max(2, maxVar(pool[w]));
        int d = R.range(0, 99);
        if (o < N || d < 30) { size_t take = o < N ? pool[w].size() * (size_t)R.range(30, 100) / 100 + 1 : 1 + R.below(pool[w].size() / 3 + 1);
            int ww = o < N ? o : w; for (; take-- && pos[ww] < pool[ww].size(); pos[ww]++) plan.push_back({0, ww, 0, pool[ww][pos[ww]]});
            if (R.chance(20)) plan.push_back({0, ww, 0, g.rclause(R.chance(20) ? n + R.range(1, 30) : n, R.range(1, 3))}); }
        else if (d < 55) { int k = R.range(1, R.chance(80) ? 5 : 20); for (int j = 0; j < k; j++) { int v = R.chance(90) ? R.range(1, n) : R.range(1, n + 10); plan.push_back({1, w, R.coin() ? v : -v, {}}); } if (R.chance(75)) plan.push_back({2, w, 0, {}}); }
        else if (d < 75) plan.push_back({2, w, 0, {}});
        else if (d < 83) plan.push_back({3, w, R.chance(30) ? -1 : R.chance(30) ? 0 : (int)R.below(R.coin() ? 5 : 50), {}});
        else if (d < 93) plan.push_back({4, w, R.chance(20) ? 0 : R.pick(std::vector<int>{1, 2, 3, 8, 1000}), {}});
        else if (d < 95) plan.push_back({5, w, 0, {}});
        else { Clause k = g.rclause(n, 3); plan.push_back({6, w, R.range(1, n), k}); }
        if (R.chance(1)) plan.push_back({0, w, 0, {}});
        if (big && R.chance(2)) plan.push_back({0, w, 0, g.rclause(20000 + R.range(0, 50000), 3)});
    }
    for (int w = 0; w < N; w++) plan.push_back({2, w, 0, {}});
    std::string d = "config: " + str(cfg) + "\n";
    for (auto& o : plan) { const char* nm[] = {"add", "assume", "solve", "set_terminate", "set_learn", "release+init", "add-split"}; d += std::to_string(o.who) + " " + nm[o.k] + " " + std::to_string(o.a) + " " + str(o.cl) + "\n"; }
    c.describe(d); apply(cfg);
    std::vector<Inst> in(N); Tag poison{nullptr, 0};
    for (auto& i : in) { i.tag = {&i, 77}; i.s = ipasir_init(); }
    std::string trace; uint64_t answers = 0;
    auto add = [&](Inst& i, const Clause& k, int split) {
        size_t n = 0;
        for (int l : k) { ipasir_add(i.s, l); i.nv = std::max(i.nv, std::abs(l)); if (split && n++ == 0) { ipasir_assume(i.s, split); i.as.push_back(split); i.nv = std::max(i.nv, std::abs(split)); } }
        ipasir_add(i.s, 0); i.F.push_back(k); i.state = 0; };
    for (auto& o : plan) {
        Inst& i = in[o.who];
        switch (o.k) {
        case 0: add(i, o.cl, 0); break;
        case 6: add(i, o.cl, o.a); break;
        case 1: ipasir_assume(i.s, o.a); i.as.push_back(o.a); i.nv = std::max(i.nv, std::abs(o.a)); i.state = 0; break;
        case 3: i.polls = 0; i.fired = false; if (o.a < 0) { ipasir_set_terminate(i.s, nullptr, nullptr); i.termSet = false; i.fireAt = ~0ull; c.count("terminate callbacks removed"); } else { i.termSet = true; i.fireAt = (uint64_t)o.a; ipasir_set_terminate(i.s, &i.tag, term); } break;
        case 4: if (o.a == 0) { ipasir_set_learn(i.s, nullptr, 0, nullptr); i.learnSet = false; i.maxLen = 0; } else { i.learnSet = true; i.maxLen = o.a; ipasir_set_learn(i.s, &i.tag, o.a, learn); } break;
        case 5: ipasir_release(i.s); { Inst n; i = n; i.tag = {&i, 77}; i.s = ipasir_init(); } c.count("releases"); break;
        case 2: {
            std::string where = "solve #" + std::to_string(answers) + " of instance " + std::to_string(o.who);
            i.polls = 0; i.fired = false; i.inSolve = true; i.lastAs = i.as;
            int r = ipasir_solve(i.s); i.inSolve = false; answers++;
            c.count("solve answered " + std::to_string(r)); trace += r == 10 ? 'S' : r == 20 ? 'U' : '0';
            if (r != 0 && r != 10 && r != 20) c.violation("ipasir-code", where + ": ipasir_solve returned " + std::to_string(r));
            if (i.foreign || i.outside) c.violation("ipasir-callback", where + ": callback with a wrong state pointer or outside of solve");
            if (!i.bad.empty()) c.violation("ipasir-learn", where + ": " + i.bad);
            if (!i.termSet && i.polls) c.violation("ipasir-callback", where + ": terminate callback used after it was removed");
            if (!i.learnSet && !i.learnt.empty()) c.violation("ipasir-callback", where + ": learn callback used after it was removed");
            if (r == 0 && !i.fired) c.violation("ipasir-undef", where + ": returned 0 although no termination was requested");
            c.count("terminate polls", i.polls); c.count("clauses exported", i.learnt.size());
            size_t lim = 40; for (auto& k : i.learnt) { if (!lim--) break; Clause neg; for (int l : k) neg.push_back(-l); if (refSolve(i.F, neg, 100000) == 1) c.violation("ipasir-learn", where + ": exported clause not implied by the added clauses: " + str(k)); c.count("exported clauses proved implied"); }
            i.learnt.clear();
            i.state = r; Clause A = i.as; i.as.clear();
            if (r == 10) {
                for (int rep = 0; rep < 2; rep++) {
                    std::vector<int> val(i.nv + 5, 0);
                    for (int v = 1; v <= i.nv + 4; v++) {
                        int p = ipasir_val(i.s, v), q = ipasir_val(i.s, -v);
                        if ((p != v && p != -v && p != 0) || (q != v && q != -v && q != 0)) c.violation("ipasir-val", where + ": val(" + std::to_string(v) + ")=" + std::to_string(p) + " val(-v)=" + std::to_string(q));
                        if (p != q) c.violation("ipasir-val", where + ": val(" + std::to_string(v) + ")=" + std::to_string(p) + " contradicts val(" + std::to_string(-v) + ")=" + std::to_string(q));
                        val[v] = p;
                    }
                    auto lt = [&](int l) { return val[std::abs(l)] == l; };
                    if (const Clause* k = falsified(i.F, lt)) c.violation("ipasir-model", where + ": values do not satisfy " + str(*k));
                    for (int a : A) if (!lt(a)) c.violation("ipasir-model", where + ": values do not satisfy assumption " + std::to_string(a));
                }
                c.count("models checked");
            } else if (r == 20) {
                Clause core; std::set<int> seen;
                for (int rep = 0; rep < 2; rep++) { Clause k2; seen.clear(); for (int a : A) { int f = ipasir_failed(i.s, a); if (f != 0 && f != 1) c.violation("ipasir-failed", where + ": failed() returned " + std::to_string(f)); if (f && seen.insert(a).second) k2.push_back(a); } if (rep && k2 != core) c.violation("ipasir-failed", where + ": failed() changes between calls"); core = k2; }
                if (refSolve(i.F, A, 400000) == 1) c.violation("ipasir-wrong-unsat", where + ": 20 under " + str(A) + ", but a model exists");
                if (refSolve(i.F, core, 400000) == 1) c.violation("ipasir-core", where + ": clauses plus failed assumptions {" + str(core) + "} of {" + str(A) + "} are satisfiable");
                c.count("unsat answers checked"); if (!core.empty()) c.count("failed-assumption cores checked"); c.maxi("assumptions in one core", core.size());
            } else c.count("interrupted");
            break; }
        }
    }
    for (auto& i : in) ipasir_release(i.s);
    c.distinct("answer-sequences", trace);
    if (answers > 1) c.nontrivial(d);
}

// ---- independent instances used by concurrent threads: answers judged afterwards, accesses watched by the race detector
static void threads(Case& c) {
    Rng& R = c.R; Gen g(R); Cfg cfg; if (R.chance(60)) cfg = anyCfg(R, false, true);
    int T = R.range(2, 8); struct Round { CNF add; Clause as; uint64_t fireAt; int maxLen; int answer = -1; std::vector<int> val; Clause core; std::string bad; uint64_t polls = 0; std::vector<Clause> learnt; };
    struct Job { std::vector<Round> rounds; int nv = 0; bool again = false; }; std::vector<Job> jobs(T);
    bool same = R.chance(40); CNF shared = g.any(R.range(0, 1), true);
    std::string d = "config: " + str(cfg) + "\n";
    for (int t = 0; t < T; t++) {
        CNF f = same ? shared : g.any(R.range(0, 1), true); int k = R.range(1, 3), n = std::max(2, maxVar(f)); size_t at = 0; jobs[t].again = R.chance(20);
        for (int j = 0; j < k; j++) {
            Round r; size_t end = j + 1 == k ? f.size() : at + (f.size() - at) * (size_t)R.range(30, 90) / 100; for (; at < end; at++) r.add.push_back(f[at]);
            int a = R.range(0, 3); while (a--) { int v = R.range(1, n); r.as.push_back(R.coin() ? v : -v); }
            r.fireAt = R.chance(15) ? R.below(20) : ~0ull; r.maxLen = R.chance(40) ? R.range(1, 10) : 0; jobs[t].rounds.push_back(r);
            d += "thread " + std::to_string(t) + ": add " + str(r.add) + " assume " + str(r.as) + " solve\n";
        }
        jobs[t].nv = n;
    }
    c.describe(d); apply(cfg); std::atomic<int> ready(0);
    auto work = [&](Job& j) {
        ready++; while (ready < T) std::this_thread::yield();
        void* s = ipasir_init(); if (j.again) { ipasir_add(s, 1); ipasir_add(s, 0); ipasir_solve(s); ipasir_release(s); s = ipasir_init(); }
        for (Round& r : j.rounds) {
            for (auto& k : r.add) { for (int l : k) ipasir_add(s, l); ipasir_add(s, 0); }
            for (int a : r.as) ipasir_assume(s, a);
            ipasir_set_terminate(s, &r, [](void* p) { Round* r = (Round*)p; return r->polls++ >= r->fireAt ? 1 : 0; });
            if (r.maxLen) ipasir_set_learn(s, &r, r.maxLen, [](void* p, int* cl) { Clause k; for (; *cl; cl++) k.push_back(*cl); ((Round*)p)->learnt.push_back(k); }); else ipasir_set_learn(s, nullptr, 0, nullptr);
            r.answer = ipasir_solve(s);
            if (r.answer == 10) { r.val.assign(j.nv + 1, 0); for (int v = 1; v <= j.nv; v++) r.val[v] = ipasir_val(s, v); }
            if (r.answer == 20) for (int a : r.as) if (ipasir_failed(s, a)) r.core.push_back(a);
        }
        ipasir_release(s);
    };
    { std::vector<std::thread> th; for (auto& j : jobs) th.emplace_back(work, std::ref(j)); for (auto& t : th) t.join(); }
    uint64_t answers = 0; std::string trace;
    for (int t = 0; t < T; t++) {
        CNF F; int no = 0;
        for (Round& r : jobs[t].rounds) {
            std::string where = "thread " + std::to_string(t) + ", solve #" + std::to_string(no++); for (auto& k : r.add) F.push_back(k); answers++; trace += std::to_string(r.answer / 10);
            if (r.answer == 0 && r.polls <= r.fireAt) c.violation("threads-undef", where + ": 0 without a request to stop");
            if (r.answer == 10) { auto lt = [&](int l) { return r.val[std::abs(l)] == l; }; if (const Clause* k = falsified(F, lt)) c.violation("threads-model", where + ": values do not satisfy " + str(*k)); for (int a : r.as) if (!lt(a)) c.violation("threads-model", where + ": values do not satisfy assumption " + std::to_string(a)); c.count("models checked"); }
            if (r.answer == 20) { if (refSolve(F, r.core, 200000) == 1) c.violation("threads-core", where + ": clauses and failed assumptions {" + str(r.core) + "} are satisfiable"); c.count("unsat answers checked"); }
            if (r.answer != 0 && r.answer != 10 && r.answer != 20) c.violation("threads-code", where + ": returned " + std::to_string(r.answer));
            size_t lim = 10; for (auto& k : r.learnt) { if (!lim--) break; Clause neg; for (int l : k) neg.push_back(-l); if ((int)k.size() > r.maxLen || refSolve(F, neg, 50000) == 1) c.violation("threads-learn", where + ": exported clause too long or not implied: " + str(k)); c.count("exported clauses checked"); }
        }
    }
    c.count("concurrent instances watched", T); c.distinct("answers of concurrent instances", trace); c.nontrivial(d);
}

// ---- released instances give all memory back, repeated calls do not pile it up (heap in use as counted by the sanitizer's allocator)
#if defined(__SANITIZE_ADDRESS__)
static void release(Case& c) {
    Rng& R = c.R; Gen g(R); Cfg cfg; bool viaC = R.coin(); if (R.chance(75)) cfg = anyCfg(R, !viaC); bool cert = R.chance(15); std::string proof = c.scratch + "/rel." + std::to_string(getpid());
    struct Step { CNF add; Clause as; int stop; bool read; }; std::vector<Step> plan; CNF f = g.any(R.range(0, 1), true); size_t at = 0; int k = R.range(1, 4), n = std::max(2, maxVar(f));
    for (int j = 0; j < k; j++) { Step s; size_t end = j + 1 == k ? f.size() : at + (f.size() - at) * (size_t)R.range(30, 90) / 100; for (; at < end; at++) s.add.push_back(f[at]); int a = R.range(0, 3); while (a--) { int v = R.range(1, n); s.as.push_back(R.coin() ? v : -v); } s.stop = R.chance(15) ? R.range(1, 20) : 0; s.read = R.chance(80); plan.push_back(s); }
    std::string d = std::string(viaC ? "ipasir" : "solver object") + " config: " + str(cfg) + "\n"; for (auto& s : plan) d += "add " + str(s.add) + " assume " + str(s.as) + " solve stop " + std::to_string(s.stop) + "\n";
    c.describe(d); apply(cfg); if (cert) setOption("-certified-output=" + proof); int sink = 0; std::string trace;
    auto stopper = [](void* p) { int* left = (int*)p; return *left > 0 && --*left == 0 ? ++*left : 0; };
    auto once = [&]() {
        trace.clear(); trace.reserve(64);
        if (viaC) {
            void* s = ipasir_init();
            for (auto& p : plan) { for (auto& q : p.add) { for (int l : q) ipasir_add(s, l); ipasir_add(s, 0); } for (int a : p.as) ipasir_assume(s, a); int left = p.stop; ipasir_set_terminate(s, &left, stopper); int r = ipasir_solve(s); trace += (char)('0' + r / 10); ipasir_set_terminate(s, nullptr, nullptr);
                if (p.read && r == 10) sink += ipasir_val(s, 1); if (p.read && r == 20) for (int a : p.as) sink += ipasir_failed(s, a); }
            ipasir_release(s);
        } else {
            Candy::CandySolverInterface* s = make();
            for (auto& p : plan) { Candy::CNFProblem pr; feed(pr, p.add); while ((int)pr.nVars() < n) pr.newVar(); s->init(pr); std::vector<Candy::Lit> as; for (int a : p.as) as.push_back(L(a)); s->getAssignment().setAssumptions(as); int left = p.stop; s->setTermCallback(&left, stopper); auto r = s->solve(); trace += r == l_True ? '1' : r == l_False ? '2' : '0'; s->setTermCallback(nullptr, [](void*) { return 0; });
                if (p.read && r == l_True) sink += (int)s->getCandySolverResult().getModelLiterals().size(); }
            delete s;
        } };
    keepsNothing(c, viaC ? "instances released through the C interface" : "solver objects deleted", once); if (cert) unlink(proof.c_str());
    c.distinct("answers of released instances", trace); if (sink == 12345678) c.count("-");
    if (plan.size() > 1) c.nontrivial(d);
}
#endif

// ---- the same history again on a fresh instance, with another instance at work in between and other memory in use
static void repeated(Case& c, bool exports) {   // exports: the repetition exports every clause, to tell which ones the first run had to export
    Rng& R = c.R; Gen g(R); Cfg cfg; bool viaC = R.coin(); if (R.chance(80)) cfg = anyCfg(R, !viaC);
    cfg.erase(std::remove_if(cfg.begin(), cfg.end(), [](const std::string& o) { return o.find("vsidsc-sample-size") != std::string::npos; }), cfg.end());   // sampled centrality draws from the process-wide rand()
    struct Step { CNF add; Clause as; int stop, maxLen; }; struct Plan { std::vector<Step> steps; int n; };
    auto draw = [&](int sz) { Plan p; CNF f = g.any(sz, true); size_t at = 0; int k = R.range(1, 4); p.n = std::max(2, maxVar(f));
        for (int j = 0; j < k; j++) { Step s; size_t end = j + 1 == k ? f.size() : at + (f.size() - at) * (size_t)R.range(30, 90) / 100; for (; at < end; at++) s.add.push_back(f[at]); int a = R.range(0, 3); while (a--) { int v = R.range(1, p.n); s.as.push_back(R.coin() ? v : -v); } s.stop = R.chance(15) ? R.range(1, 20) : 0; s.maxLen = exports ? R.range(0, R.coin() ? 8 : 40) : R.chance(70) ? R.range(1, 60) : 0; p.steps.push_back(s); }
        return p; };
    Plan mine = draw(R.chance(20) ? 2 : R.range(0, 1)), other = draw(R.range(0, 1));
    auto text = [](const Plan& p) { std::string d; for (auto& s : p.steps) d += "add " + str(s.add) + " assume " + str(s.as) + " solve stop " + std::to_string(s.stop) + " export " + std::to_string(s.maxLen) + "\n"; return d; };
    std::string d = std::string(viaC ? "ipasir" : "solver object") + " config: " + str(cfg) + "\n" + text(mine) + "other instance:\n" + text(other);
    c.describe(d); apply(cfg);
    struct Ev { int answer = -1; uint64_t polls = 0, conflicts = 0; std::vector<int> val; Clause core; std::vector<Clause> learnt; int left = 0; };
    auto poll = [](void* p) { Ev* e = (Ev*)p; e->polls++; return e->left > 0 && --e->left == 0 ? ++e->left : 0; };
    auto hear = [](void* p, int* cl) { Clause k; for (; *cl; cl++) k.push_back(*cl); ((Ev*)p)->learnt.push_back(k); };
    struct One { void* s = nullptr; Candy::CandySolverInterface* o = nullptr; };
    auto step = [&](One& x, const Plan& p, size_t j, Ev& e, bool every = false) {
        const Step& st = p.steps[j]; e.left = st.stop; int len = every ? 1 << 30 : st.maxLen;
        if (viaC) {
            if (!x.s) x.s = ipasir_init();
            for (auto& q : st.add) { for (int l : q) ipasir_add(x.s, l); ipasir_add(x.s, 0); } for (int a : st.as) ipasir_assume(x.s, a);
            ipasir_set_terminate(x.s, &e, poll); ipasir_set_learn(x.s, &e, len, hear);
            e.answer = ipasir_solve(x.s) / 10; ipasir_set_terminate(x.s, nullptr, nullptr); ipasir_set_learn(x.s, nullptr, 0, nullptr);
            if (e.answer == 1) for (int v = 1; v <= p.n; v++) e.val.push_back(ipasir_val(x.s, v)); if (e.answer == 2) for (int a : st.as) if (ipasir_failed(x.s, a)) e.core.push_back(a);
        } else {
            if (!x.o) x.o = make();
            Candy::CNFProblem pr; feed(pr, st.add); while ((int)pr.nVars() < p.n) pr.newVar(); x.o->init(pr);
            std::vector<Candy::Lit> as; for (int a : st.as) as.push_back(L(a)); x.o->getAssignment().setAssumptions(as);
            x.o->setTermCallback(&e, poll); x.o->setLearntCallback(&e, len, hear); auto r = x.o->solve(); e.answer = r == l_True ? 1 : r == l_False ? 2 : 0;
            x.o->setTermCallback(nullptr, [](void*) { return 0; }); x.o->setLearntCallback(nullptr, 0, nullptr);
            e.conflicts = x.o->nConflicts();
            if (e.answer == 1) for (Candy::Lit l : x.o->getCandySolverResult().getModelLiterals()) e.val.push_back(I(l)); if (e.answer == 2) for (Candy::Lit l : x.o->getCandySolverResult().getConflict()) e.core.push_back(I(l));
        } };
    auto drop = [&](One& x) { if (x.s) ipasir_release(x.s); delete x.o; x = One(); };
    { One w; Ev e[8]; for (size_t j = 0; j < mine.steps.size(); j++) step(w, mine, j, e[j]); drop(w); }      // gate analysis resets global options once
    std::vector<Ev> a(mine.steps.size()), b(mine.steps.size()), o(other.steps.size() * 3);
    One x; for (size_t j = 0; j < mine.steps.size(); j++) step(x, mine, j, a[j]); if (R.coin()) drop(x);
    std::vector<std::unique_ptr<char[]>> junk; for (int k = R.range(0, 60); k--;) { size_t n = 1 + R.below(R.coin() ? 200 : 300000); junk.emplace_back(new char[n]); memset(junk.back().get(), (int)R.below(256), n); if (R.coin() && !junk.empty()) junk.erase(junk.begin() + (long)R.below(junk.size())); }
    One y, z; size_t oj = 0, ot = 0;
    for (size_t j = 0; j < mine.steps.size(); j++) {
        for (int k = R.range(0, 2); k-- && ot < o.size(); ) { if (oj == other.steps.size()) { drop(z); oj = 0; } step(z, other, oj++, o[ot++]); }
        step(y, mine, j, b[j], exports);
    }
    std::string trace;
    for (size_t j = 0; j < a.size(); j++) {
        std::string where = "solve #" + std::to_string(j) + " repeated on a fresh instance: "; trace += (char)('0' + a[j].answer);
        if (a[j].answer != b[j].answer) c.violation("repeat-answer", where + "answers " + std::to_string(a[j].answer) + " and then " + std::to_string(b[j].answer) + " (1 sat, 2 unsat, 0 unknown)");
        if (a[j].val != b[j].val) c.violation("repeat-model", where + "another model");
        if (a[j].core != b[j].core) c.violation("repeat-core", where + "failed assumptions {" + str(a[j].core) + "} and then {" + str(b[j].core) + "}");
        if (exports) {
            if (!viaC && b[j].learnt.size() != b[j].conflicts - (j ? b[j - 1].conflicts : 0)) c.violation("export-incomplete", where + std::to_string(b[j].learnt.size()) + " clauses exported without limit in " + std::to_string(b[j].conflicts - (j ? b[j - 1].conflicts : 0)) + " conflicts");
            size_t n = b[j].learnt.size(); std::vector<Clause> due; for (auto& k : b[j].learnt) if ((int)k.size() <= mine.steps[j].maxLen) due.push_back(k); c.count("learnt clauses classified by length", n); c.count("clauses beyond the limit", n - due.size()); b[j].learnt = due;
        }
        if (a[j].learnt != b[j].learnt) { size_t k = 0; while (k < a[j].learnt.size() && k < b[j].learnt.size() && a[j].learnt[k] == b[j].learnt[k]) k++; c.violation("repeat-learnt", where + "exported clause no. " + std::to_string(k) + " differs (" + std::to_string(a[j].learnt.size()) + " and " + std::to_string(b[j].learnt.size()) + " clauses)"); }
        if (a[j].polls != b[j].polls || a[j].conflicts != b[j].conflicts) c.violation("repeat-search", where + "another search: " + std::to_string(a[j].conflicts) + " and then " + std::to_string(b[j].conflicts) + " conflicts, " + std::to_string(a[j].polls) + " and then " + std::to_string(b[j].polls) + " polls");
        c.count("solve calls repeated"); c.count("exported clauses compared", a[j].learnt.size()); c.count("model literals compared", a[j].val.size()); c.count("conflicts compared", a[j].conflicts); c.count("answer " + std::to_string(a[j].answer));
    }
    c.count("interleaved solves of the other instance", ot); drop(x); drop(y); drop(z);
    c.distinct("answers repeated", trace); c.nontrivial(d);
}

int main(int argc, char** argv) {
    Runner r;
    r.modes["calls"] = [](Case& c) { history(c, false); };
#if defined(__SANITIZE_ADDRESS__)
    r.modes["release"] = release;
#endif
    r.modes["threads"] = threads; r.modes["repeat"] = [](Case& c) { repeated(c, false); }; r.modes["exports"] = [](Case& c) { repeated(c, true); };
    r.modes["big"] = [](Case& c) { history(c, true); };
    return r.main(argc, argv);
}
