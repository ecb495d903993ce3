// Monitors around the solver core: verdicts, models, certificates, histories, interruption, learnt clauses.
#include "candyapi.h"
#include "candy/core/clauses/ClauseDatabase.h"
using namespace vf;

static const char* name(Candy::lbool b) { return b == Candy::lbool((uint8_t)0) ? "SAT" : b == Candy::lbool((uint8_t)1) ? "UNSAT" : "UNDEF"; }

static int pickSize(Rng& R, int medPercent) { int d = R.range(0, 99); return d < medPercent ? 2 : d < 70 ? 1 : 0; }

// The model of a SAT answer: total over the variables of the formula, satisfies every clause.
static void checkModel(Case& c, const CNF& f, Candy::CandySolverResult& res, const std::vector<int>& as, const char* where) {
    std::vector<Candy::Lit> ml = res.getModelLiterals();
    std::set<int> m; for (auto l : ml) m.insert(I(l));
    for (int l : m) if (m.count(-l)) c.violation("model-inconsistent", std::string(where) + ": model contains " + std::to_string(l) + " in both polarities");
    auto lt = [&](int l) { return m.count(l) > 0; };
    if (const Clause* k = falsified(f, lt)) c.violation("model-falsifies", std::string(where) + ": model does not satisfy clause " + str(*k));
    for (int a : as) if (!lt(a)) c.violation("model-vs-assumption", std::string(where) + ": model does not satisfy assumption " + std::to_string(a));
    std::set<int> vars; for (auto& k : f) for (int l : k) vars.insert(std::abs(l));
    for (int v : vars) {
        if (!m.count(v) && !m.count(-v)) c.violation("model-partial", std::string(where) + ": variable " + std::to_string(v) + " has no value in the model");
        if (I(res.value(Candy::Var(v - 1))) != (m.count(v) ? v : -v)) c.violation("model-accessors-disagree", "value() and getModelLiterals() disagree on " + std::to_string(v));
        if (res.satisfies(L(v)) != (m.count(v) > 0) || res.satisfies(L(-v)) != (m.count(-v) > 0)) c.violation("model-accessors-disagree", "satisfies() and getModelLiterals() disagree on " + std::to_string(v));
    }
    c.count("models checked"); c.count("model clauses evaluated", f.size());
}

// ---- single-shot solving; what: 0 verdict, 1 model (biased to SAT and elimination), 2 proof
static void oneshot(Case& c, int what) {
    Rng& R = c.R; Gen g(R);
    int size = pickSize(R, what == 2 ? 18 : 25);
    CNF f = g.any(size);
    if (what == 1 && R.chance(60)) { // satisfiable by construction, elimination-friendly
        int n = size == 2 ? R.range(80, 250) : R.range(4, 40);
        switch (R.range(0, 2)) {
        case 0: f = g.planted(n, (int)(n * R.range(10, 42) / 10.0), 3); g.kind = "planted"; break;
        case 1: { auto k = g.circuit(std::max(2, n / 6), n, true); f = k.cnf; g.kind = "circuit-free"; break; }
        default: f = g.mixedSat(n, n + (int)R.below(n)); g.kind = "mixed-loose";
        }
        g.disguise(f, true);
    }
    Cfg cfg = anyCfg(R, true);
    std::string proof;
    if (what == 2) {
        // RSIL and VSIDSC only differ in branching; keep them but rarer. asymm is not reachable from the command line in the sequential solver.
        Cfg k; for (auto& o : cfg) if (o != "-asymm") k.push_back(o);
        cfg = k; proof = c.scratch + "/proof." + std::to_string(getpid());
    }
    c.describe("config: " + str(cfg) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    apply(cfg);
    if (what == 2) setOption("-certified-output=" + proof);
    Candy::CNFProblem p; feed(p, f);
    Candy::lbool r = l_Undef;
    {
        std::unique_ptr<Candy::CandySolverInterface> s(make());
        s->init(p);
        r = s->solve();
        c.count(std::string("verdict ") + name(r)); c.count("kind " + g.kind);
        c.count("conflicts seen", s->nConflicts()); c.maxi("conflicts in one solve", s->nConflicts());
        for (auto& o : cfg) if (o.find('=') == std::string::npos || o.find("mode") != std::string::npos) c.count("config " + o);
        if (r == l_Undef) c.violation("undef", "solve() gave no verdict although nothing interrupted it");
        if (r == l_True) checkModel(c, f, s->getCandySolverResult(), {}, "solve");
        if (r == l_False && !s->getCandySolverResult().getConflict().empty()) c.violation("conflict-without-assumptions", "UNSAT without assumptions reports a non-empty assumption conflict");
    }
    if (r == l_False) {
        int t = refSolve(f, {}, size == 2 ? 200000 : 2000000);
        if (t == 1) c.violation("wrong-unsat", "solver says UNSAT, but the reference model satisfies the formula");
        c.count(t == 0 ? "unsat verdicts confirmed by reference" : "unsat verdicts not decided by reference");
    }
    if (what == 2 && r == l_False) {
        std::ifstream is(proof);
        if (!is) c.violation("no-proof", "no certificate was written");
        Drat d(f); DratResult dr = d.check(is);
        is.close(); unlink(proof.c_str());
        if (!dr.valid) c.violation("bad-proof", dr.why);
        c.count("proofs accepted"); c.count("lemmas checked", dr.lemmas); c.count("deletions processed", dr.deletions); c.count("RAT lemmas", dr.rat); c.count("deletions of unknown clauses", dr.unmatched); c.maxi("lemmas in one proof", dr.lemmas);
        if (!dr.empty) c.count("proofs without explicit empty clause");
        if (!dr.empty && dr.lemmas) c.count("nontrivial proofs without explicit empty clause");
    }
    if (!proof.empty()) unlink(proof.c_str());
    bool nt = what == 0 ? f.size() > 2 : what == 1 ? (r == l_True && f.size() > 2) : (r == l_False && f.size() > 2);
    if (nt) c.nontrivial(str(cfg) + str(f));
}


// ---- histories: clauses added between solves, changing assumptions, interruptions, learnt-clause export
// The clause database, watched from the termination callback and after every solve: nothing that is not implied by the input comes in, and no constraint of the input gets lost.
struct Db {
    Case& c; Candy::CandySolverInterface& s; const CNF& F; unsigned percent; uint64_t seen = 0; std::string where;
    static bool subsumed(const std::set<int>& k, const std::vector<Clause>& db) { for (auto& d : db) if (std::all_of(d.begin(), d.end(), [&](int l) { return k.count(l) > 0; })) return true; return false; }
#ifdef VF_FALLBACK  // the interface of the database changed
    void look(const char*) { c.count("databases that could not be inspected"); }
#else
    void look(const char* when) {
        seen++;
        auto& trail = s.getAssignment(); CNF all, irr; std::set<int> gone; size_t learnt = 0;
        for (Candy::Clause* k : s.getClauseDatabase()) if (!k->isDeleted()) { Clause x; for (auto l : *k) x.push_back(I(l)); all.push_back(x); if (k->isPersistent()) irr.push_back(x); else learnt++; }
        for (unsigned v = 0; v < s.nVars(); v++) if (!trail.isDecisionVar((int)v)) gone.insert((int)v + 1);
        size_t facts = trail.trail_lim.empty() ? trail.size() : trail.trail_lim[0];
        for (size_t i = 0; i < facts; i++) { int u = I(*(trail.begin() + (long)i)); if (!gone.count(std::abs(u))) { all.push_back({u}); irr.push_back({u}); } }
        c.count("databases inspected"); c.count("learnt clauses in inspected databases", learnt); if (!gone.empty()) c.count("inspected databases with eliminated variables");
        std::vector<const Clause*> todo;
        for (auto& k : F) if (!tautology(k) && !std::any_of(k.begin(), k.end(), [&](int l) { return gone.count(std::abs(l)) > 0; })) todo.push_back(&k);
        c.R.shuffle(todo); size_t hard = 0;
        for (auto k : todo) {
            std::set<int> ks(k->begin(), k->end()); if (subsumed(ks, irr)) { c.count("input clauses subsumed by the irredundant clauses"); continue; }
            if (++hard > 25) break;
            Clause neg; for (int l : *k) neg.push_back(-l);
            int r = refSolve(irr, neg, 20000); c.count(r < 0 ? "input clauses not decided by reference" : "input clauses implied by the irredundant clauses");
            if (r == 1) c.violation("constraint-lost", where + ", " + when + " " + std::to_string(seen) + ": the input clause " + str(*k) + " has no eliminated variable, but is not implied by the irredundant clauses of the database anymore");
        }
        std::set<std::set<int>> in; for (auto& k : F) in.insert(std::set<int>(k.begin(), k.end()));
        c.R.shuffle(all); hard = 0;
        for (auto& k : all) {
            if (in.count(std::set<int>(k.begin(), k.end()))) continue;
            if (++hard > 25) break;
            Clause neg; for (int l : k) neg.push_back(-l);
            int r = refSolve(F, neg, 20000); c.count(r < 0 ? "database clauses not decided by reference" : "database clauses implied by the input");
            if (r == 1) c.violation("database-not-implied", where + ", " + when + " " + std::to_string(seen) + ": the database contains " + str(k) + ", which the input does not imply");
        }
    }
#endif
};
struct Term { uint64_t polls = 0, fireAt = ~0ull; bool fired = false; Db* db = nullptr; };
static int termCb(void* p) { Term* t = (Term*)p; if (t->db && t->db->c.R.chance(t->db->percent)) t->db->look("poll"); if (t->polls++ >= t->fireAt) { t->fired = true; return 1; } return 0; }
struct Learn { std::vector<Clause> got; int maxLen = 0; std::string bad; uint64_t seen = 0; };
static void learnCb(void* p, int* cl) {
    Learn* l = (Learn*)p; Clause c; int n = 0; while (cl[n] != 0 && n < 100000) c.push_back(cl[n++]);
    if ((int)c.size() > l->maxLen) l->bad = "exported clause with " + std::to_string(c.size()) + " literals, limit " + std::to_string(l->maxLen);
    if (c.empty()) l->bad = "exported an empty clause";
    l->seen++; l->got.push_back(c);
}
static Clause randomAssumptions(Rng& R, int n, int most) {
    Clause as; int k = R.range(0, std::min(n, most)); std::set<int> used;
    for (int i = 0; i < k; i++) { int v = R.range(1, n); if (!used.insert(v).second && !R.chance(15)) continue; as.push_back(R.coin() ? v : -v); if (R.chance(4)) as.push_back(-as.back()); }
    return as;
}
// what: 0 incremental with assumptions, 1 interruption and resumption, 2 learnt-clause export, 3 reuse after clear()
static void history(Case& c, int what) {
    Rng& R = c.R; Gen g(R);
    Cfg cfg = anyCfg(R, true);
    bool rsil = std::count(cfg.begin(), cfg.end(), "-rsil-enable") > 0;
    int size = what == 1 ? (R.chance(55) ? 2 : 1) : pickSize(R, what == 2 ? 15 : 10);
    CNF all = g.any(size);
    if (what == 2 && R.chance(20)) { all = g.wide(R.range(60, 250), R.range(10, 60), R.range(1, 6)); g.kind = "wide"; g.disguise(all, true); }
    if (rsil && R.chance(60)) { all = simFormula(R, g); if (R.coin()) g.disguise(all, true); }
    bool shrink = (what == 4 || what == 0) && R.chance(what == 4 ? 30 : 10); // constraints get shorter and equal from step to step
    if (shrink) {
        int k = R.range(3, 6), most[] = {0, 0, 0, 110, 62, 36, 25}, n = R.range(12, R.coin() ? most[k] : most[k] * 2 / 3 + 1); double r[] = {0, 0, 0, 4.0, 8.5, 18, 36};
        all = g.planted(n, (int)(n * r[k] * R.range(50, 100) / 100.0), k); g.kind = "shrinking";
        Cfg x; for (auto& o : cfg) if (o.find("educeDB") == std::string::npos && o != "-no-pre") x.push_back(o); cfg = x;
        if (R.chance(70)) cfg.push_back("-no-elim"); cfg.push_back("-firstReduceDB=" + std::to_string(R.range(1, 15))); cfg.push_back("-incReduceDB=" + std::to_string(R.range(0, 4))); cfg.push_back("-persistentLBD=" + std::to_string(R.range(0, 1)));
    }
    int steps = what == 1 ? R.range(2, 5) : R.range(2, 7), n0 = std::max(3, maxVar(all));
    // plan the history first so that it can be described
    struct S { CNF add; Clause as; uint64_t fire; bool keep; int maxLen; };
    std::vector<S> plan; size_t pos = 0; int nv = 1;
    for (int i = 0; i < steps; i++) {
        S s; s.fire = ~0ull; s.keep = R.chance(15) && i > 0; s.maxLen = g.kind == "wide" && R.chance(70) ? 1000 : R.pick(std::vector<int>{1, 2, 3, 5, 10, 1000});
        size_t take = i == 0 ? (R.chance(60) ? all.size() * (size_t)R.range(40, 100) / 100 : all.size()) : R.chance(60) ? all.size() * (size_t)R.range(0, 40) / 100 : 0;
        for (; take-- > 0 && pos < all.size(); pos++) s.add.push_back(all[pos]);
        if (what == 3 && i == 0 && rsil) { s.add = all; pos = all.size(); } // gates are recognized in complete formulas only
        if (what == 3 && i > 0 && R.chance(40)) { Gen g2(R); s.add = g2.any(R.chance(80) ? 0 : 1); }
        for (auto& k : s.add) for (int l : k) nv = std::max(nv, std::abs(l));
        if (R.chance(25)) { int x = R.chance(30) ? R.range(n0 + 1, n0 + 6) : n0; int m = R.range(1, 3); for (int j = 0; j < m; j++) { Clause k = g.rclause(x, R.range(1, 3)); if (R.chance(70) && k.size() == 1) k.push_back(R.range(1, x)); s.add.push_back(k); for (int l : k) nv = std::max(nv, std::abs(l)); } }
        if (shrink && i > 0) { int m = R.range(1, 1 + n0 / 8); for (int j = 0; j < m; j++) { int v = R.range(1, n0); s.add.push_back({g.hidden[(size_t)v] ? v : -v}); } }
        if (what != 3 && R.chance(what == 1 ? 40 : 80)) s.as = randomAssumptions(R, nv, R.chance(80) ? 6 : 30);
        if (what == 1 ? R.chance(80) : what == 2 && R.chance(15)) s.fire = R.chance(30) ? 0 : R.below(R.chance(50) ? 6 : 60);
        plan.push_back(s);
    }
    std::string d = "config: " + str(cfg) + "\nkind: " + g.kind + "\n";
    for (auto& s : plan) d += (s.keep ? "step (keeps assumptions)\n" : "step assume " + str(s.as) + "\n") + (s.fire != ~0ull ? "interrupt at poll " + std::to_string(s.fire) + "\n" : "") + str(s.add);
    c.describe(d);
    apply(cfg);
    std::unique_ptr<Candy::CandySolverInterface> s(make());
    CNF F; Clause as; std::string trace; Learn learn; uint64_t undef = 0; bool dead = false;
    for (size_t i = 0; i < plan.size(); i++) {
        S& st = plan[i];
        if (what == 3 && i > 0) { s->clear(); F.clear(); c.count("clears"); }
        if (!st.keep) as = st.as;
        for (auto& k : st.add) F.push_back(k);
        { Candy::CNFProblem p; feed(p, st.add); for (int a : as) while ((int)p.nVars() < std::abs(a)) p.newVar(); s->init(p); }
        std::vector<Candy::Lit> la; for (int a : as) la.push_back(L(a));
        s->getAssignment().setAssumptions(la);
        for (int round = 0; round < 4; round++) {
            Term t; t.fireAt = round < 3 && st.fire != ~0ull ? st.fire + (uint64_t)round * 7 : ~0ull;
            s->setTermCallback(&t, termCb);
            std::unique_ptr<Db> db; if (what == 4) { db.reset(new Db{c, *s, F, (unsigned)R.pick(std::vector<int>{100, 30, 5})}); db->where = "step " + std::to_string(i); t.db = db.get(); }
            if (what == 2) { learn.maxLen = st.maxLen; s->setLearntCallback(&learn, st.maxLen, learnCb); }
            uint64_t before = s->nConflicts();
            Candy::lbool r = s->solve();
            std::string where = "step " + std::to_string(i) + " round " + std::to_string(round);
            if (db) db->look("end");
            c.count(std::string("verdict ") + name(r)); c.count("termination polls", t.polls); c.count("conflicts seen", s->nConflicts() - before);
            if (t.polls == 0 && r == l_Undef) c.violation("undef", where + ": no verdict although nothing was polled");
            trace += name(r)[0]; if (t.fired) trace += '!';
            if (!learn.bad.empty()) c.violation("learnt-malformed", where + ": " + learn.bad);
            size_t lim = 60; // the longest ones and a sample of the others
            if (learn.got.size() > lim) { R.shuffle(learn.got); std::nth_element(learn.got.begin(), learn.got.begin() + 15, learn.got.end(), [](const Clause& x, const Clause& y) { return x.size() > y.size(); }); }
            for (auto& k : learn.got) {
                if (lim-- == 0) break;
                Clause neg; for (int l : k) neg.push_back(-l);
                c.maxi("literals in one exported clause", k.size()); if (k.size() > 60) c.count("exported clauses with more than 60 literals");
                if (refSolve(F, neg, 200000) == 1) c.violation("learnt-not-implied", where + ": exported clause " + str(k) + " is not implied by the clauses added so far");
                c.count("exported clauses proved implied");
            }
            learn.got.clear();
            if (r == l_Undef) {
                undef++;
                if (!t.fired) c.violation("undef", where + ": no verdict although the termination callback never asked to stop");
                if (!s->getCandySolverResult().getModelLiterals().empty()) c.violation("stale-model", where + ": interrupted solve leaves a model behind");
                if (!s->getCandySolverResult().getConflict().empty()) c.violation("stale-conflict", where + ": interrupted solve leaves a conflict behind");
                c.count("interrupted solves");
                continue;
            }
            if (t.fired) c.count("verdicts in spite of interruption");
            auto& res = s->getCandySolverResult();
            if (r == l_True) {
                checkModel(c, F, res, as, where.c_str());
                if (!res.getConflict().empty()) c.violation("sat-with-conflict", where + ": SAT with a non-empty conflict");
                // reference solver not needed: the model is the witness
            } else {
                if (!res.getModelLiterals().empty()) c.violation("stale-model", where + ": UNSAT leaves a model behind");
                Clause core; std::set<int> A(as.begin(), as.end());
                for (auto l : res.getConflict()) { core.push_back(-I(l)); if (!A.count(-I(l))) c.violation("core-not-assumed", where + ": the conflict mentions " + std::to_string(I(l)) + ", whose negation was not assumed"); }
                int t1 = refSolve(F, as, 400000);
                if (t1 == 1) c.violation("wrong-unsat", where + ": UNSAT under assumptions " + str(as) + ", but a model exists");
                int t2 = refSolve(F, core, 400000);
                if (t2 == 1) c.violation("core-not-conflicting", where + ": the reported conflict {" + str(core) + "} is satisfiable together with the clauses");
                c.count("unsat answers checked"); if (!core.empty()) { c.count("assumption cores checked"); c.maxi("assumptions in one core", core.size()); if (core.size() < A.size()) c.count("cores smaller than the assumptions"); }
                else if (!as.empty()) c.count("unsat without assumptions needed");
            }
            break;
        }
        if (dead) break;
    }
    c.distinct("answer-sequences", trace); c.count("exported clauses", learn.seen); c.maxi("interruptions in one history", undef);
    bool nt = what == 1 ? undef > 0 : what == 2 ? learn.seen > 0 : trace.size() > 1;
    if (nt) c.nontrivial(d);
}

// ---- clauses with millions of literals
static void giant(Case& c) {
    Rng& R = c.R; int n = R.range(8300000, 10000000); bool sat = R.coin();
    Cfg cfg; if (R.chance(60)) cfg.push_back("-no-pre"); if (R.chance(30)) cfg.push_back("-no-elim"); if (R.chance(30)) cfg.push_back("-use-lrb"); if (R.chance(30)) cfg.push_back("-static-propagate");
    int keep = R.range(1, n - 1), more = R.range(0, 200);
    c.describe("config: " + str(cfg) + "\none clause with " + std::to_string(n) + " positive literals, " + std::to_string(more) + " small clauses, " + (sat ? "satisfiable" : "a unit clause against each of two equivalent literals"));
    CNF f; f.push_back({}); for (int i = 1; i <= n; i++) f[0].push_back(i);
    for (int i = 0; i < more; i++) f.push_back({-R.range(1, n), -R.range(1, n), R.range(1, n)});
    if (sat) f.push_back({-keep}); else { f.push_back({-keep, keep + 1}); f.push_back({keep}); f.push_back({-keep - 1, -keep}); }
    if (R.coin()) std::swap(f[0], f.back());
    apply(cfg);
    Candy::lbool r = l_Undef;
    { Candy::CNFProblem p; feed(p, f); std::unique_ptr<Candy::CandySolverInterface> s(make()); s->init(p); r = s->solve();
      if (r != (sat ? l_True : l_False)) c.violation("giant-wrong", std::string("wrong verdict ") + name(r));
      if (sat) for (auto& k : f) { bool t = false; for (int l : k) if (s->getCandySolverResult().satisfies(L(l))) { t = true; break; } if (!t) c.violation("model-falsifies", "the model falsifies a clause with " + std::to_string(k.size()) + " literals"); } }
    c.count("giant clauses"); c.nontrivial(std::to_string(n) + str(cfg));
}

// ---- long runs: tens of thousands of conflicts, judged by two hidden models that are complements of each other, or by construction
static void deep(Case& c) {
    Rng& R = c.R; Gen g(R); Cfg cfg = anyCfg(R, false); { Cfg k; for (auto& o : cfg) if (o.compare(0, 7, "-vsidsc") && o != "-use-vsidsc" && o.compare(0, 4, "-inc") && o != "-K=0.95") k.push_back(o); cfg = k; }
    int kind = R.range(0, 99); CNF f; std::vector<bool> A; bool hidden = kind < 70; int n = 0;
    if (hidden) {
        n = R.range(200, 300); A.resize((size_t)n + 1); for (int i = 1; i <= n; i++) A[(size_t)i] = R.coin();
        int m = (int)(n * R.range(405, 425) / 100.0); g.kind = "two-hidden";
        while ((int)f.size() < m) { Clause k = g.rclause(n, 3); int t = 0; for (int l : k) t += A[(size_t)std::abs(l)] == (l > 0); if (k.size() == 3 && t > 0 && t < 3 && !tautology(k)) f.push_back(k); }
    } else if (kind < 80) { int h = R.range(7, 8); f = g.php(h, h + 1); g.kind = "php"; }
    else { // sum of all equations of a graph is odd
        n = R.range(14, 20) * 2; std::vector<std::vector<int>> at((size_t)n); std::vector<int> stubs; for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) stubs.push_back(i);
        R.shuffle(stubs); int v = 0; for (size_t i = 0; i + 1 < stubs.size(); i += 2) if (stubs[i] != stubs[i + 1]) { v++; at[(size_t)stubs[i]].push_back(v); at[(size_t)stubs[i + 1]].push_back(v); }
        int odd = R.range(0, n - 1); g.kind = "odd-graph";
        for (int i = 0; i < n; i++) { auto& e = at[(size_t)i]; for (unsigned b = 0; b < (1u << e.size()); b++) if ((__builtin_popcount(b) & 1) != (i == odd)) { Clause k; for (size_t j = 0; j < e.size(); j++) k.push_back(b >> j & 1 ? -e[j] : e[j]); f.push_back(k); } }
    }
    R.shuffle(f); c.describe("config: " + str(cfg) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    apply(cfg);
    std::unique_ptr<Candy::CandySolverInterface> s(make()); { Candy::CNFProblem p; feed(p, f); s->init(p); }
    struct Watch { Case& c; Candy::CandySolverInterface& s; const std::vector<bool>& A; bool hidden; uint64_t polls = 0, limit = ~0ull; } w{c, *s, A, hidden};
    auto holds = [](const std::vector<bool>& A, const Clause& k, bool flip) { for (int l : k) if ((A[(size_t)std::abs(l)] != flip) == (l > 0)) return true; return false; };
    static Watch* W; static decltype(holds)* H; W = &w; H = &holds;
    s->setTermCallback(&w, [](void*) -> int {
        W->polls++;
#ifndef VF_FALLBACK
        if (W->hidden) {
            size_t k = 0; for (Candy::Clause* cl : W->s.getClauseDatabase()) if (!cl->isDeleted()) { k++; Clause x; for (auto l : *cl) x.push_back(I(l)); for (int flip = 0; flip < 2; flip++) if (!(*H)(W->A, x, flip)) W->c.violation("database-not-implied", "after " + std::to_string(W->s.nConflicts()) + " conflicts the database contains " + str(x) + ", which a model of the input falsifies"); }
            W->c.count("databases inspected"); W->c.count("database clauses evaluated in the hidden models", k);
        }
#endif
        return W->s.nConflicts() > W->limit; });
    if (hidden) s->setLearntCallback(&w, 1 << 20, [](void*, int* cl) { Clause x; for (; *cl; cl++) x.push_back(*cl); for (int flip = 0; flip < 2; flip++) if (!(*H)(W->A, x, flip)) W->c.violation("learnt-not-implied", "after " + std::to_string(W->s.nConflicts()) + " conflicts the solver exported " + str(x) + ", which a model of the input falsifies"); W->c.count("exported clauses evaluated in the hidden models"); });
    int rounds = hidden ? 3 : 1;
    for (int i = 0; i < rounds; i++) {
        Clause as; bool mine = R.coin(), flip = R.coin(); int k = i == 0 ? 0 : R.range(1, 6);
        for (int j = 0; j < k; j++) { int v = R.range(1, n); as.push_back((mine ? A[(size_t)v] != flip : R.coin()) ? v : -v); }
        std::vector<Candy::Lit> la; for (int a : as) la.push_back(L(a)); s->getAssignment().setAssumptions(la);
        w.limit = s->nConflicts() + 60000;
        Candy::lbool r = s->solve();
        if (r == l_Undef) { c.count("runs stopped at the conflict limit"); continue; }
        c.count(std::string("verdict ") + name(r)); c.count("kind " + g.kind);
        if (!hidden) { if (r != l_False) c.violation("wrong-sat", "SAT for an unsatisfiable construction"); continue; }
        if (r == l_True) checkModel(c, f, s->getCandySolverResult(), as, "deep");
        else { Clause core; for (auto l : s->getCandySolverResult().getConflict()) core.push_back(I(l)); for (int fl = 0; fl < 2; fl++) if (!holds(A, core, fl)) c.violation(as.empty() ? "wrong-unsat" : "core-not-conflicting", "UNSAT because of the assumptions against " + str(core) + ", but a hidden model agrees with them"); c.count("cores evaluated in the hidden models"); }
    }
    c.count("conflicts seen", s->nConflicts()); c.maxi("conflicts in one history", s->nConflicts()); if (s->nConflicts() > 10000) c.count("histories with more than 10000 conflicts");
    c.count("restarts polled", w.polls);
    if (s->nConflicts() > 1000) c.nontrivial(str(cfg) + str(f));
}

int main(int argc, char** argv) {
    Runner r;
    r.modes["giant"] = giant;
    r.modes["deep"] = deep;
    r.modes["incremental"] = [](Case& c) { history(c, 0); };
    r.modes["interrupt"] = [](Case& c) { history(c, 1); };
    r.modes["learnt"] = [](Case& c) { history(c, 2); };
    r.modes["database"] = [](Case& c) { history(c, 4); };
    r.modes["reuse"] = [](Case& c) { history(c, 3); };
    r.modes["verdict"] = [](Case& c) { oneshot(c, 0); };
    r.modes["model"] = [](Case& c) { oneshot(c, 1); };
    r.modes["proof"] = [](Case& c) { oneshot(c, 2); };
    return r.main(argc, argv);
}
