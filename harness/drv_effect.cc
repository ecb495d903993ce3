// Monitors that compare what the solver does with what its options ask for: the selected methods, restarts, reductions, eliminations.
#include "candyapi.h"
#ifndef VF_FALLBACK
#include "candy/core/Solver.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/VSIDSC.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/systems/propagate/StaticPropagate.h"
#endif
#include <deque>
namespace vf {
#ifdef VF_FALLBACK  // the interface of the solver's parts changed
static void nothing(Case& c) { c.count("solvers that could not be inspected"); }
#else
template <class P, class B> static bool is(Candy::CandySolverInterface* s) { return dynamic_cast<Candy::Solver<P, Candy::ConflictAnalysis, B>*>(s) != nullptr; }
template <class P> static bool isBranch(Candy::CandySolverInterface* s, int k) {
    switch (k) {
    case 0: return is<P, Candy::VSIDS>(s); case 1: return is<P, Candy::LRB>(s); case 2: return is<P, Candy::VSIDSC>(s);
    case 3: return is<P, Candy::RSILBranchingHeuristic3>(s); case 4: return is<P, Candy::RSILVanishingBranchingHeuristic3>(s); case 5: return is<P, Candy::RSILBudgetBranchingHeuristic3>(s);
    case 6: return is<P, Candy::RSILBranchingHeuristic2>(s); case 7: return is<P, Candy::RSILVanishingBranchingHeuristic2>(s); default: return is<P, Candy::RSILBudgetBranchingHeuristic2>(s);
    }
}
static void select(Case& c) {
    Rng& R = c.R; int k = R.range(0, 8); bool stat = R.coin(); static const char* modes[] = {"unrestricted", "vanishing", "implicationbudgeted"};
    Cfg cfg; if (stat) cfg.push_back("-static-propagate"); if (k == 1) cfg.push_back("-use-lrb"); if (k == 2) cfg.push_back("-use-vsidsc"); if (k > 2) { cfg.push_back("-rsil-enable"); if (k != 3 || R.coin()) cfg.push_back(std::string("-rsil-mode=") + modes[(k - 3) % 3]); if (k > 5 || R.coin()) cfg.push_back("-advice-size=" + std::to_string(k > 5 ? 2 : 3)); }
    double decay = R.range(50, 99) / 100.0, top = R.range(80, 99) / 100.0; bool bump = R.coin();
    cfg.push_back("-var-decay=" + std::to_string(decay)); cfg.push_back("-max-var-decay=" + std::to_string(top)); if (bump) cfg.push_back("-extra-bump");
    R.shuffle(cfg); c.describe("config: " + str(cfg)); apply(cfg);
    std::cout.setstate(std::ios::failbit); std::unique_ptr<Candy::CandySolverInterface> s(make()); std::cout.clear();
    if (!(stat ? isBranch<Candy::StaticPropagate>(s.get(), k) : isBranch<Candy::Propagate>(s.get(), k))) c.violation("effect-method", "the solver that was built is not of the type that the options ask for");
    auto near = [](double a, double b) { return std::abs(a - b) < 1e-9; };
    if (auto* v = dynamic_cast<Candy::VSIDS*>(s->getBranchingUnit())) if (!near(v->var_decay, decay) || !near(v->max_var_decay, top) || v->glucose_style_extra_bump != bump) c.violation("effect-decay", "the heuristic works with decay " + std::to_string(v->var_decay) + " up to " + std::to_string(v->max_var_decay) + ", extra bump " + std::to_string(v->glucose_style_extra_bump));
    c.count("methods selected"); c.count("method " + std::to_string(k) + (stat ? " static" : "")); c.nontrivial(str(cfg));
}

// The search as its callbacks show it: polls happen before each restart, the learnt-clause callback after each conflict.
struct Obs {
    Case& c; Candy::CandySolverInterface* s = nullptr; double K = 0; size_t n = 0; unsigned persistent = 0; bool median = false, judge = true;
    std::deque<unsigned> q; double sum = 0; uint64_t conflicts = 0; bool must = false, may = false; int polls = 0; size_t decisions = 0; uint64_t restarts = 0, due = 0, reductions = 0, deleted = 0, kept = 0;
    std::map<Clause, unsigned> before; bool pending = false, twins = false; std::set<Clause> inputs;
    explicit Obs(Case& k) : c(k) {}
    static Clause key(const Candy::Clause* k) { Clause x; for (auto l : *k) x.push_back(I(l)); std::sort(x.begin(), x.end()); return x; }
    size_t nd() { return s->getAssignment().nDecisions; }
    void begin() { polls = -1; decisions = nd(); pending = false; }
    void poll() {
        polls++; before.clear(); twins = false; pending = true;
        for (const Candy::Clause* k : s->getClauseDatabase()) if (!k->isDeleted()) if (!before.emplace(key(k), k->getLBD()).second) twins = true;
    }
    void reduced() {    // which clauses disappeared since the poll
        if (!pending) return; pending = false; if (twins) { c.count("reductions not judged"); return; }
        std::set<Clause> now; for (const Candy::Clause* k : s->getClauseDatabase()) if (!k->isDeleted()) now.insert(key(k));
        Clause fresh; for (auto l : s->getClauseDatabase().result.learnt_clause) fresh.push_back(I(l)); std::sort(fresh.begin(), fresh.end());
        unsigned least = ~0u, most = 0; size_t gone = 0, stay = 0;
        for (auto& b : before) {
            if (b.first == fresh) continue;     // possibly deleted and learnt again
            if (!now.count(b.first)) { gone++; least = std::min(least, b.second); if (b.second <= persistent) c.violation("effect-persistent", "clause " + str(b.first) + " with LBD " + std::to_string(b.second) + " was deleted, but clauses up to " + std::to_string(persistent) + " are persistent"); }
            else if (b.second > persistent) { stay++; most = std::max(most, b.second); }
        }
        if (gone && stay && (median ? least <= most : least < most)) c.violation("effect-reduction", "a clause with LBD " + std::to_string(least) + " was deleted while one with LBD " + std::to_string(most) + " was kept" + (median ? " (only clauses above the median are to be deleted)" : ""));
        if (gone) { reductions++; deleted += gone; kept += stay; }
    }
    void interval() {
        if (s->nConflicts() > 9990) judge = false;    // restarts may be blocked from here on
        if (judge) {
            if (polls > 1 || (polls == 1 && !may)) c.violation("effect-restart", "restart after " + std::to_string(conflicts) + " conflicts (" + std::to_string(q.size()) + " of " + std::to_string(n) + " values in the window), which the values of K and szLBDQueue do not permit");
            if (polls <= 0 && must && nd() > decisions) c.violation("effect-no-restart", "no restart after " + std::to_string(conflicts) + " conflicts, although the values of K and szLBDQueue force one");
            if (must) due++;
        }
        if (polls > 0) { restarts++; q.clear(); must = may = false; }
    }
    void learnt() {
        interval(); polls = 0; reduced();
        unsigned lbd = s->getClauseDatabase().result.lbd; conflicts = s->nConflicts(); q.push_back(lbd); if (q.size() > n) q.pop_front(); sum += lbd;
        uint64_t t = 0; for (unsigned x : q) t += x; double ratio = sum / (double)conflicts;
        must = q.size() == n && (double)(t / n) * K > ratio * (1 + 1e-4); may = q.size() == n && (double)t / (double)n * K > ratio * (1 - 1e-4);
        decisions = nd();
    }
    static int term(void* p) { ((Obs*)p)->poll(); return 0; }
    static void learn(void* p, int*) { ((Obs*)p)->learnt(); }
};
static void search(Case& c) {
    Rng& R = c.R; Gen g(R); Cfg all = anyCfg(R, false), cfg; for (auto& o : all) if (o.find("-pre") == std::string::npos && o.compare(0, 3, "-K=") && o.find("szLBD") == std::string::npos && o.find("-inproc") && o.find("persistentLBD") == std::string::npos && o.find("median") == std::string::npos && o.find("ReduceDB") == std::string::npos && o.find("vsidsc") == std::string::npos && o.find("certified") == std::string::npos) cfg.push_back(o);
    Obs o(c); o.K = R.range(300, 990) / 1000.0; o.n = (size_t)R.pick(std::vector<int>{10, 11, 16, 33, 50, R.range(10, 60)}); o.persistent = (unsigned)R.range(0, 7); o.median = R.coin();
    cfg.push_back("-no-pre"); cfg.push_back("-inprocessing=0"); cfg.push_back("-K=" + std::to_string(o.K)); cfg.push_back("-szLBDQueue=" + std::to_string(o.n)); cfg.push_back("-persistentLBD=" + std::to_string(o.persistent)); if (o.median) cfg.push_back("-keep-median-lbd");
    cfg.push_back("-firstReduceDB=" + std::to_string(R.pick(std::vector<int>{0, 10, 50, 200}))); cfg.push_back("-incReduceDB=" + std::to_string(R.pick(std::vector<int>{0, 1, 7, 30})));
    CNF f; int n = R.range(25, R.chance(85) ? 110 : 160); if (R.chance(85)) { int m = (int)(n * R.range(390, 450) / 100.0); while ((int)f.size() < m) { Clause k = g.rclause(n, 3); if (k.size() == 3 && !tautology(k)) f.push_back(k); } g.kind = "ksat"; } else { int h = R.range(5, 6); f = g.php(h, h + 1); n = maxVar(f); g.kind = "php"; }
    c.describe("config: " + str(cfg) + "\nkind: " + g.kind + "\ncnf:\n" + str(f)); apply(cfg);
    std::cout.setstate(std::ios::failbit); std::unique_ptr<Candy::CandySolverInterface> s(make()); o.s = s.get();
    s->setTermCallback(&o, Obs::term); s->setLearntCallback(&o, 0, Obs::learn); s->setLearntCallback(&o, 1 << 20, Obs::learn);
    Candy::CNFProblem p; feed(p, f); s->init(p);
    int rounds = R.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        std::vector<Candy::Lit> as; if (rounds > 1) for (int k = R.range(0, 4); k > 0; k--) { int v = R.range(1, n); as.push_back(L(R.coin() ? v : -v)); }
        s->getAssignment().setAssumptions(as); o.begin(); Candy::lbool v = s->solve(); o.interval();
        c.count(v == l_True ? "verdict SAT" : "verdict UNSAT"); if (v == l_False && as.empty()) break;
    }
    std::cout.clear();
    c.count("restarts observed", o.restarts); c.count("restarts that were due", o.due); c.count("reductions observed", o.reductions); c.count("clauses deleted by reductions", o.deleted); c.count("clauses kept by reductions", o.kept); c.count("conflicts observed", s->nConflicts()); c.maxi("conflicts in one search", s->nConflicts());
    if (o.restarts) c.nontrivial(str(cfg) + str(f));
}
// switched-off methods leave everything as it was, the resolvent limit is kept
static void limits(Case& c) {
    Rng& R = c.R; Gen g(R); Cfg cfg; CNF f = g.any(R.chance(20) ? 2 : 1, true); if (f.empty()) return;
    bool pre = R.chance(70), elim = !pre || R.chance(75); int lim = R.pick(std::vector<int>{0, 2, 3, 4, 5, 6, 20, 100});
    if (!pre) cfg.push_back("-no-pre"); if (!elim) cfg.push_back("-no-elim"); cfg.push_back("-cl-lim=" + std::to_string(lim)); cfg.push_back("-inprocessing=0"); if (R.coin()) cfg.push_back("-use-lrb"); if (R.coin()) cfg.push_back("-static-propagate");
    c.describe("config: " + str(cfg) + "\nkind: " + g.kind + "\ncnf:\n" + str(f)); apply(cfg);
    std::cout.setstate(std::ios::failbit); std::unique_ptr<Candy::CandySolverInterface> s(make());
    Candy::CNFProblem p; feed(p, f); s->init(p); s->solve(); std::cout.clear();
    Candy::Trail& t = s->getAssignment(); int off = 0; for (int v = 0; v < (int)p.nVars(); v++) off += !t.isDecisionVar(Candy::Var(v));
    if (off && (!pre || !elim)) c.violation("effect-elimination", std::to_string(off) + " variables were eliminated although " + (pre ? "elimination" : "preprocessing") + " is switched off");
    std::vector<std::set<int>> in; for (auto& k : f) in.emplace_back(k.begin(), k.end());
    if (!s->getClauseDatabase().hasEmptyClause()) {
        std::set<Clause> db; size_t longer = 0;
        for (const Candy::Clause* k : s->getClauseDatabase()) if (!k->isDeleted()) {
            Clause x = Obs::key(k); db.insert(x); if (!k->isPersistent() || lim == 0 || (int)x.size() <= lim || x.size() < 3) continue;   // 0: no limit
            bool sub = false; for (auto& i : in) sub |= std::all_of(x.begin(), x.end(), [&](int l) { return i.count(l); });
            if (!sub) c.violation("effect-cl-lim", "clause " + str(x) + " is a resolvent above the limit of " + std::to_string(lim)); longer++;
        }
        if (!pre) for (auto& i : in) { Clause x(i.begin(), i.end()); if (!tautology(x) && !db.count(x)) c.violation("effect-no-pre", "clause " + str(x) + " is not in the database although preprocessing is switched off"); }
        c.count("databases compared"); c.count("clauses longer than the limit", longer);
    }
    c.count("variables eliminated", off); c.count(pre ? elim ? "with elimination" : "without elimination" : "without preprocessing"); if (f.size() > 2) c.nontrivial(str(cfg) + str(f));
}
static void effects(Case& c) { int k = c.R.range(0, 99); if (k < 15) select(c); else if (k < 60) search(c); else limits(c); }
#endif
} // namespace vf
int main(int argc, char** argv) {
    vf::Runner r;
#ifdef VF_FALLBACK
    r.modes["effects"] = vf::nothing;
#else
    r.modes["effects"] = vf::effects;
#endif
    return r.main(argc, argv);
}
