// Monitors around the branching heuristics: every decision is open and eligible, implicit learning follows its conjectures and limits.
#include "candyapi.h"
#ifndef VF_FALLBACK
#include "candy/core/Solver.h"
#include "candy/systems/branching/LRB.h"
#include "candy/systems/branching/rsil/BranchingHeuristics.h"
#include "candy/frontend/RandomSimulationFrontend.h"
#include "candy/gates/GateAnalyzer.h"
#endif
namespace vf {
#ifdef VF_FALLBACK  // the interface of the branching heuristics changed
static void nothing(Case& c) { c.count("heuristics that could not be inspected"); }
#else
enum Mode { PLAIN, RSIL, BUDGET, VANISH };

// The conjectures and limits a heuristic works with and what it may decide next.
struct Watch {
    Case& c; Candy::Trail* trail = nullptr; Mode mode = PLAIN; size_t maxSize = 2; int64_t budget = 0, halfLife = 0; bool active = false, bbEnabled = true, strict = true;
    std::vector<Clause> classes; std::map<int, size_t> cls; std::map<int, int> bb; std::map<int, int64_t> bbLeft;
    std::vector<std::set<std::vector<int64_t>>> left;   // per class: the budgets that explain all decisions so far (one entry per implication)
    uint64_t picks = 0, advised = 0, late = 0, lateAdvised = 0, first = 0, firstAdvised = 0, plain = 0;
    struct Imp { size_t k, i; int lit; };
    std::vector<Imp> cand;
    explicit Watch(Case& k) : c(k) {}
    void none() { active = false; classes.clear(); cls.clear(); bb.clear(); bbLeft.clear(); left.clear(); }
    void learn(const Candy::Conjectures& cj) {
        none(); active = true;
        for (auto& e : cj.getEquivalences()) { Clause k; for (auto l : e) k.push_back(I(l)); if (k.size() < 2 || k.size() > maxSize) continue; for (int l : k) cls[std::abs(l)] = classes.size(); classes.push_back(k); }
        for (auto& b : cj.getBackbones()) bb[(int)b.getLit().var() + 1] = I(b.getLit());
        full();
    }
    void full() { left.assign(classes.size(), {}); for (size_t k = 0; k < classes.size(); k++) left[k].insert(std::vector<int64_t>(classes[k].size() * classes[k].size(), budget)); for (auto& b : bb) bbLeft[b.first] = budget; }
    bool open(int v) const { return trail->value(Candy::Var(v - 1)) == l_Undef && trail->isDecisionVar(Candy::Var(v - 1)); }
    // the implications of the literals on the last decision level, each contradicted
    void before() {
        cand.clear(); if (!active || trail->decisionLevel() == 0) return;
        for (auto it = trail->begin(trail->decisionLevel() - 1); it != trail->end(); it++) {
            int x = I(*it); auto f = cls.find(std::abs(x)); if (f == cls.end()) continue; const Clause& e = classes[f->second]; size_t n = e.size(), a = 0; while (std::abs(e[a]) != std::abs(x)) a++;
            for (size_t b = 0; b < n; b++) if (b != a && open(std::abs(e[b]))) cand.push_back({f->second, a * n + b, e[a] == x ? -e[b] : e[b]});
        }
    }
    std::string show(const char* what) { std::string s = std::string(what) + "; level " + std::to_string(trail->decisionLevel()) + ", decision " + std::to_string(picks) + ", possible advice:"; for (auto& i : cand) s += " " + std::to_string(i.lit); return s; }
    void after(Candy::Lit p) {
        picks++;
        if (p == Candy::lit_Undef) {
            for (unsigned v = 0; v < trail->nVars(); v++) if (open((int)v + 1)) c.violation("no-decision", "variable " + std::to_string(v + 1) + " is open, but the heuristic makes no decision");
            c.count("heuristic found nothing left to decide"); return;
        }
        int l = I(p);
        if (std::abs(l) > (int)trail->nVars()) c.violation("foreign-decision", "decides variable " + std::to_string(std::abs(l)) + " of " + std::to_string(trail->nVars()));
        if (trail->value(p.var()) != l_Undef) c.violation("assigned-decision", "decides the assigned variable " + std::to_string(std::abs(l)));
        if (!trail->isDecisionVar(p.var())) c.violation("ineligible-decision", "decides the excluded variable " + std::to_string(std::abs(l)));
        c.count("decisions checked");
        if (!active) return;
        bool in = false; for (auto& i : cand) in |= i.lit == l;
        if (!cand.empty()) { c.count("decisions with applicable implications"); if (in) { advised++; c.count("decisions that contradict a conjectured equivalence"); } }
        if (mode == VANISH) {   // every decision consumes one or two steps of the half-life
            size_t others = 0; for (unsigned v = 0; v < trail->nVars(); v++) others += open((int)v + 1);   // where the default heuristic rarely agrees with the advice by accident
            if (!cand.empty() && others >= 5 * cand.size()) { if (2 * (int64_t)picks <= halfLife) {} else if ((int64_t)picks > 40 * halfLife) { late++; lateAdvised += in; } else if ((int64_t)picks > halfLife && 2 * (int64_t)picks <= 2 * halfLife + halfLife) { first++; firstAdvised += in; } }
            if (!strict || 2 * (int64_t)picks > halfLife) return;
        }
        bool ambiguous = false;
        if (mode == BUDGET && !cand.empty()) {
            std::map<size_t, std::set<std::vector<int64_t>>> used, idle; std::set<size_t> ks; for (auto& i : cand) ks.insert(i.k);
            bool canIdle = true, canUse = false;
            for (size_t k : ks) {
                for (auto& s : left[k]) {
                    bool dry = true; for (auto& i : cand) if (i.k == k && s[i.i] > 0) dry = false;
                    if (dry) idle[k].insert(s);
                    for (auto& i : cand) if (i.k == k && i.lit == l && s[i.i] > 0) { auto t = s; t[i.i]--; used[k].insert(t); }
                }
                canIdle &= !idle[k].empty(); canUse |= !used[k].empty();
            }
            if (!canIdle && !canUse) c.violation(in ? "budget-exceeded" : "advice-missed", show(("decides " + std::to_string(l) + (in ? " although no budget is left for it" : " although an implication with remaining budget applies")).c_str()));
            if (!canUse) c.count("decisions with exhausted budgets");
            for (size_t k : ks) { auto keep = canUse && used[k].empty() ? left[k] : used[k]; if (canIdle) keep.insert(idle[k].begin(), idle[k].end()); left[k] = keep; c.maxi("explanations of one class", keep.size()); }
            if (canUse) return;
            ambiguous = false;
        } else if (!cand.empty()) {
            if (!in) c.violation("advice-missed", show(("decides " + std::to_string(l)).c_str()));
            return;
        }
        // a decision of the default heuristic, directed against the conjectured value
        auto f = bb.find(std::abs(l)); if (f == bb.end() || !bbEnabled) return;
        if (mode == BUDGET && bbLeft[std::abs(l)] <= 0) { c.count("decisions with exhausted budgets"); return; }
        bbLeft[std::abs(l)]--;
        if (l == f->second) c.violation("backbone-followed", show(("decides " + std::to_string(l) + " in the polarity that is conjectured to be constant").c_str()));
        c.count("decisions that contradict a conjectured constant"); advised++; (void)ambiguous;
    }
    void vanishing() {
        if (mode != VANISH || !strict) return;
        if (late >= 60) { c.count("vanishing heuristics observed beyond 40 half-lives"); if (lateAdvised * 10 > late * 9) c.violation("not-vanishing", std::to_string(lateAdvised) + " of " + std::to_string(late) + " decisions beyond 40 half-lives still follow the advice"); }
        if (first >= 40) { c.count("vanishing heuristics observed in the second half-life"); if (firstAdvised * 20 > first * 19 || firstAdvised * 8 < first) c.violation("wrong-half-life", std::to_string(firstAdvised) + " of " + std::to_string(first) + " decisions in the second half-life follow the advice"); }
    }
};
static Watch* W = nullptr;
template <class B> struct Mon : public B {
    using B::B;
    Candy::Lit pickBranchLit() { W->before(); Candy::Lit l = B::pickBranchLit(); W->after(l); return l; }
};
typedef Candy::RSILBranchingHeuristic3 R3; typedef Candy::RSILBranchingHeuristic2 R2; typedef Candy::RSILBudgetBranchingHeuristic3 B3; typedef Candy::RSILBudgetBranchingHeuristic2 B2; typedef Candy::RSILVanishingBranchingHeuristic3 V3; typedef Candy::RSILVanishingBranchingHeuristic2 V2;
template <class B> struct Kind { static Mode mode() { return PLAIN; } static size_t size() { return 2; } };
template <> struct Kind<R3> { static Mode mode() { return RSIL; } static size_t size() { return 3; } }; template <> struct Kind<R2> { static Mode mode() { return RSIL; } static size_t size() { return 2; } };
template <> struct Kind<B3> { static Mode mode() { return BUDGET; } static size_t size() { return 3; } }; template <> struct Kind<B2> { static Mode mode() { return BUDGET; } static size_t size() { return 2; } };
template <> struct Kind<V3> { static Mode mode() { return VANISH; } static size_t size() { return 3; } }; template <> struct Kind<V2> { static Mode mode() { return VANISH; } static size_t size() { return 2; } };
static void give(R3& h, std::unique_ptr<Candy::Conjectures> q, bool bb, unsigned, unsigned) { h.init(std::move(q), bb); }
static void give(R2& h, std::unique_ptr<Candy::Conjectures> q, bool bb, unsigned, unsigned) { h.init(std::move(q), bb); }
static void give(B3& h, std::unique_ptr<Candy::Conjectures> q, bool bb, unsigned b, unsigned) { h.init(std::move(q), bb, b); }
static void give(B2& h, std::unique_ptr<Candy::Conjectures> q, bool bb, unsigned b, unsigned) { h.init(std::move(q), bb, b); }
static void give(V3& h, std::unique_ptr<Candy::Conjectures> q, bool bb, unsigned, unsigned l) { h.init(std::move(q), bb, l); }
static void give(V2& h, std::unique_ptr<Candy::Conjectures> q, bool bb, unsigned, unsigned l) { h.init(std::move(q), bb, l); }

// ---- the heuristics alone, with arbitrary conjectures on arbitrary trails
template <class B> static void advice1(Case& c) {
    Rng& R = c.R; Watch w(c); W = &w; w.mode = Kind<B>::mode(); w.maxSize = Kind<B>::size();
    bool van = w.mode == VANISH; w.budget = R.pick(std::vector<int>{1, 1, 2, 3, 5, 1 << 20}); w.halfLife = R.pick(std::vector<int>{1, 3, 8, 60, 150, 1 << 24}); Candy::RSILOptions::opt_rsil_vanHalfLife = (int)w.halfLife;
    int lives = R.chance(70) ? 1 : R.range(2, 3), steps = van && w.halfLife < 200 ? (int)w.halfLife * 2 + R.range(100, 500) : R.range(5, 250);
    c.describe("mode " + std::to_string(w.mode) + " advice size " + std::to_string(w.maxSize) + " budget " + std::to_string(w.budget) + " half-life " + std::to_string(w.halfLife) + " lives " + std::to_string(lives) + " steps " + std::to_string(steps));
    std::cout.setstate(std::ios::failbit);
    Candy::ClauseDatabase db; Candy::Trail trail; w.trail = &trail; Mon<B> h(db, trail); std::string trace;
    for (int life = 0; life < lives; life++) {
        if (life > 0) { db.clear(); trail.clear(); h.clear(); w.none(); w.strict = w.mode != VANISH; c.count("clears"); }
        int n = R.range(3, R.chance(van ? 40 : 70) ? 14 : van ? 150 : 60); Candy::CNFProblem p; { Candy::Cl k; for (int v = 1; v <= n; v++) k.push_back(L(v)); p.readClause(k); }
        db.init(p); trail.init((unsigned)n); h.init(p); c.desc += "\nlife with " + std::to_string(n) + " variables";
        if (life == 0 || R.chance(60)) {
            std::unique_ptr<Candy::Conjectures> cj(new Candy::Conjectures()); std::vector<int> vs; for (int v = 1; v <= n; v++) vs.push_back(v); R.shuffle(vs); if (R.chance(40)) vs.resize((size_t)R.range(1, n)); std::string d;
            for (size_t at = 0; at < vs.size();) { if (R.chance(20)) { int l = R.coin() ? vs[at] : -vs[at]; at++; cj->addBackbone(Candy::BackboneConjecture(L(l))); d += " [" + std::to_string(l) + "]"; continue; } Candy::EquivalenceConjecture e; int k = R.pick(std::vector<int>{1, 2, 2, 2, 3, 3, 3, 4, 6}); d += " {"; while (k-- > 0 && at < vs.size()) { int l = R.coin() ? vs[at] : -vs[at]; at++; e.addLit(L(l)); d += " " + std::to_string(l); } d += " }"; cj->addEquivalence(e); }
            c.desc += " conjectures" + d; bool bbOn = R.chance(80); if (!bbOn) c.desc += " without constants";
            w.learn(*cj); w.bbEnabled = bbOn; give(h, std::move(cj), bbOn, (unsigned)w.budget, (unsigned)w.halfLife);
        }
        for (int s = 0; s < steps; s++) {
            int o = R.range(0, 99); unsigned lv = trail.decisionLevel();
            if (o < 62) {
                Candy::Lit l = h.pickBranchLit(); trace += std::to_string(I(l == Candy::lit_Undef ? L(1) : l)) + " ";
                if (l == Candy::lit_Undef) { trail.reset(); h.reset(); continue; }
                trail.newDecisionLevel(); trail.decide(l);
                for (int k = R.chance(60) ? R.range(0, 2) : R.range(0, n / 2); k > 0; k--) { int v = R.range(1, n); if (w.open(v)) trail.propagate(L(R.coin() ? v : -v), nullptr); }
            } else if (o < 66) { if (lv < (unsigned)n + 3) trail.newDecisionLevel(); }
            else if (o < 80) { int v = R.range(1, n); if (w.open(v)) trail.propagate(L(R.coin() ? v : -v), nullptr); }
            else if (o < 92) { if (lv > 0 && trail.size() > 0) { unsigned to = R.chance(70) ? lv - 1 : (unsigned)R.below(lv); db.result.backtrack_level = to; db.result.nConflicts++; h.process_conflict(); trail.backtrack(to); } }
            else { trail.backtrack(0); if (R.coin()) trail.reset(); if (R.chance(40)) for (int k = R.range(1, 3); k > 0; k--) trail.setDecisionVar(Candy::Var(R.range(0, n - 1)), R.chance(60)); h.reset(); }
        }
    }
    std::cout.clear(); w.vanishing();
    c.count(std::string("mode ") + (w.mode == RSIL ? "unrestricted" : w.mode == BUDGET ? "budgeted" : "vanishing")); if (w.advised) c.nontrivial(c.desc + trace);
}
static void advice(Case& c) { switch (c.R.range(0, 5)) { case 0: advice1<R3>(c); break; case 1: advice1<R2>(c); break; case 2: advice1<B3>(c); break; case 3: advice1<B2>(c); break; case 4: advice1<V3>(c); break; default: advice1<V2>(c); } }

// ---- the heuristics in real searches
struct Term0 { uint64_t at, polls; static int cb(void* p) { Term0* t = (Term0*)p; return t->polls++ >= t->at; } };
template <class B> struct Slv : public Candy::Solver<Candy::Propagate, Candy::ConflictAnalysis, Mon<B>> { Mon<B>& heuristic() { return this->branch; } };
template <class B> static typename std::enable_if<!std::is_same<B, Candy::VSIDS>::value && !std::is_same<B, Candy::LRB>::value && !std::is_same<B, Candy::VSIDSC>::value>::type sync(Watch& w, Slv<B>& s, bool again) {
    auto& h = s.heuristic(); if (!h.initializationCompleted || !h.conjectures) { w.none(); return; }
    if (again && w.active) { auto old = w.left; auto bo = w.bbLeft; w.full(); for (size_t k = 0; k < old.size(); k++) w.left[k].insert(old[k].begin(), old[k].end()); for (auto& b : bo) if (b.second < w.bbLeft[b.first]) w.bb.erase(b.first); return; }
    w.learn(*h.conjectures); w.bbEnabled = !h.conjectures->getBackbones().empty();
}
template <class B> static typename std::enable_if<std::is_same<B, Candy::VSIDS>::value || std::is_same<B, Candy::LRB>::value || std::is_same<B, Candy::VSIDSC>::value>::type sync(Watch& w, Slv<B>&, bool) { w.none(); }
template <class B> static void search1(Case& c, bool gates) {
    Rng& R = c.R; Gen g(R); Watch w(c); W = &w; w.mode = Kind<B>::mode(); w.maxSize = Kind<B>::size();
    Cfg all = anyCfg(R, false), cfg; for (auto& o : all) if (o.find("-use-") == std::string::npos) cfg.push_back(o);
    double frac = R.pick(std::vector<int>{0, 0, 0, 20, 60, 100}) / 100.0; int method = R.pick(std::vector<int>{0, 0, 1, 10}); bool keepBB = R.chance(80);
    w.budget = R.pick(std::vector<int>{1, 1, 2, 5, 1 << 20}); w.halfLife = R.pick(std::vector<int>{1, 5, 40, 1 << 24});
    if (gates) { cfg.push_back("-rsil-min-gate-frac=" + std::to_string(frac)); cfg.push_back("-gate-recognition-method=" + std::to_string(method)); cfg.push_back("-rs-rounds=" + std::to_string(R.pick(std::vector<int>{2048, 4096}))); if (!keepBB) cfg.push_back("-rs-remove-backbone-conj"); cfg.push_back("-rsil-imp-budgets=" + std::to_string(w.budget)); cfg.push_back("-rsil-van-halflife=" + std::to_string(w.halfLife)); if (R.chance(15)) cfg.push_back("-rs-max-conj-size=" + std::to_string(R.range(2, 4))); }
    int lives = R.chance(75) ? 1 : 2; std::vector<CNF> fs; std::string d = "mode " + std::to_string(w.mode) + " advice size " + std::to_string(w.maxSize) + " config: " + str(cfg);
    for (int i = 0; i < lives; i++) { CNF f = gates && R.chance(80) ? simFormula(R, g) : g.any(R.chance(15) ? 2 : 1); if (!gates && R.chance(10)) f = g.any(0); fs.push_back(f); d += "\nkind: " + g.kind + "\ncnf:\n" + str(f); }
    c.describe(d); apply(cfg); std::cout.setstate(std::ios::failbit);
    Slv<B> s; w.trail = &s.getAssignment();
    for (int i = 0; i < lives; i++) {
        if (i > 0) { s.clear(); w.none(); w.strict = false; c.count("clears"); }
        CNF f = fs[(size_t)i]; Candy::CNFProblem p; feed(p, f); s.init(p); sync<B>(w, s, false);
        if (gates && i == 0) {
            Candy::GateAnalyzer an{p}; an.analyze(); size_t ng = an.getResult().nGates(); bool want = ng > frac * (double)p.nVars() && ng > 0;
            if (want) { auto cj = Candy::performRandomSimulation(an, -1.0); want = !cj->getEquivalences().empty() || !cj->getBackbones().empty(); }
            if (want != w.active) c.violation(want ? "rsil-inactive" : "rsil-active", std::to_string(ng) + " gates in " + std::to_string(p.nVars()) + " variables, fraction " + std::to_string(frac) + ": implicit learning is " + (w.active ? "active" : "inactive"));
            c.count(want ? "searches with implicit learning" : "searches without sufficient gates or conjectures");
        }
        int rounds = R.range(1, 3);
        for (int r = 0; r < rounds; r++) {
            if (r > 0 && R.coin()) { CNF add; int m = R.range(1, 3), top = std::max(2, maxVar(f)) + R.range(0, 2); while (m--) add.push_back(g.rclause(top, R.range(2, 4))); for (auto& k : add) f.push_back(k); Candy::CNFProblem q; feed(q, add); s.init(q); sync<B>(w, s, true); }
            Clause as; int nv = (int)s.nVars(); if (nv > 0 && R.coin()) for (int k = R.range(1, 4); k > 0; k--) { int v = R.range(1, nv); as.push_back(R.coin() ? v : -v); }
            std::vector<Candy::Lit> la; for (int a : as) la.push_back(L(a)); s.getAssignment().setAssumptions(la);
            Term0 t{R.chance(20) ? R.below(20) : ~0ull, 0}; s.setTermCallback(&t, Term0::cb);
            Candy::lbool v = s.solve();
            if (v == l_True) { auto& m = s.getCandySolverResult(); for (auto& k : f) if (!tautology(k) && std::none_of(k.begin(), k.end(), [&](int l) { return m.satisfies(L(l)); })) { std::cout.clear(); c.violation("wrong-model", "the model does not satisfy " + str(k)); } }
            if (v == l_False && refSolve(f, as, 200000) == 1) { std::cout.clear(); c.violation("wrong-unsat", "the reference solver has a model"); }
            c.count(v == l_True ? "verdict SAT" : v == l_False ? "verdict UNSAT" : "interrupted"); 
        }
    }
    std::cout.clear(); c.count("decisions observed in one search", w.picks ? 1 : 0); c.maxi("decisions in one search", w.picks);
    if (gates ? w.advised > 0 : w.picks > 1) c.nontrivial(d);
}
static void search(Case& c) {
    switch (c.R.range(0, 13)) {
    case 0: case 1: search1<Candy::VSIDS>(c, false); break; case 2: case 3: search1<Candy::LRB>(c, false); break;
    case 4: case 5: search1<R3>(c, true); break; case 6: search1<R2>(c, true); break; case 7: case 8: case 9: search1<B3>(c, true); break; case 10: search1<B2>(c, true); break;
    case 11: search1<V3>(c, true); break; case 12: search1<V2>(c, true); break; default: search1<Candy::VSIDSC>(c, false);
    }
}
#endif
} // namespace vf
int main(int argc, char** argv) {
    vf::Runner r;
#ifdef VF_FALLBACK
    r.modes["advice"] = r.modes["search"] = vf::nothing;
#else
    r.modes["advice"] = vf::advice; r.modes["search"] = vf::search;
#endif
    return r.main(argc, argv);
}
