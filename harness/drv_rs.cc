// Monitors around random simulation (conjectures about gate outputs) and abstraction refinement.
#include "candyapi.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/SimulationVector.h"
#include "candy/randomsimulation/Randomization.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/frontend/RandomSimulationFrontend.h"
#include "candy/frontend/SolverFactory.h"
#include "candy/rsar/ARSolver.h"
#include "candy/rsar/ApproximationState.h"
#include "candy/rsar/Heuristics.h"
#include "candy/rsar/Refinement.h"
namespace vf {
static const int METHODS[] = {0, 1, 2, 10, 11};
typedef std::vector<uint64_t> Bits;

struct MG { int out = 0; bool nonmono = false; std::vector<Clause> fwd; std::set<int> in; };      // stripped clauses, input variables
struct Circ {
    std::map<int, MG> g;                // by variable
    std::vector<int> order, inputs;     // reachable gate variables in topological order, reachable inputs
    int cone = 0;
};
static Clause lits(const Candy::Cl& c) { Clause k; for (auto l : c) k.push_back(I(l)); return k; }
static Circ model(Candy::GateAnalyzer& an, int nv) {
    Circ c; Candy::GateProblem& gp = an.getResult();
    for (int v = 0; v < nv; v++) {
        const Candy::Gate& gt = gp[Candy::Var(v)];
        if (!gt.isDefined()) continue;
        MG m; m.out = I(gt.out); m.nonmono = gt.notMono;
        for (auto* k : gt.fwd) { Clause st; for (int l : lits(*k)) if (l != -m.out) { st.push_back(l); m.in.insert(std::abs(l)); } m.fwd.push_back(st); }
        c.g[v + 1] = m;
    }
    std::map<int, int> st; std::set<int> ins;
    std::function<void(int)> dfs = [&](int v) { st[v] = 1; for (int w : c.g[v].in) { if (!c.g.count(w)) ins.insert(w); else if (!st[w]) dfs(w); } c.order.push_back(v); };
    for (auto* k : gp.getRoots()) for (int l : lits(*k)) if (c.g.count(std::abs(l)) && !st[std::abs(l)]) dfs(std::abs(l));
    c.inputs.assign(ins.begin(), ins.end());
    return c;
}
// values of all reachable gates under all (up to 2^maxIn) input assignments, or under 4096 random ones
static bool evaluate(const Circ& c, Rng& R, int maxIn, std::map<int, Bits>& val, size_t& rows) {
    bool all = (int)c.inputs.size() <= maxIn; rows = all ? (size_t)1 << c.inputs.size() : 4096; size_t w = (rows + 63) / 64;
    uint64_t tail = rows % 64 ? ((uint64_t)1 << (rows % 64)) - 1 : ~(uint64_t)0;
    for (size_t i = 0; i < c.inputs.size(); i++) { Bits b(w); for (size_t r = 0; r < rows; r++) if (all ? (r >> i & 1) : R.coin()) b[r / 64] |= (uint64_t)1 << (r % 64); val[c.inputs[i]] = b; }
    for (int v : c.order) {
        const MG& m = c.g.at(v); Bits a(w, ~(uint64_t)0);
        for (auto& k : m.fwd) { Bits s(w); for (int l : k) for (size_t i = 0; i < w; i++) s[i] |= l > 0 ? val[l][i] : ~val[-l][i]; for (size_t i = 0; i < w; i++) a[i] &= s[i]; }
        if (m.out < 0) for (auto& x : a) x = ~x;
        a[w - 1] &= tail; val[v] = a;
    }
    return all;
}
static size_t diff(const Bits& a, const Bits& b, bool neg, uint64_t tail) { size_t n = 0; for (size_t i = 0; i < a.size(); i++) { uint64_t x = a[i] ^ b[i]; if (neg) x = ~x; if (i + 1 == a.size()) x &= tail; n += (size_t)__builtin_popcountll(x); } return n; }

// ---- the conjectures of the simulation are exactly the constants and equivalence classes of the simulated gates
struct SomeGates : Candy::GateFilter { std::unordered_set<Candy::Var> s; std::unordered_set<Candy::Var> getEnabledOutputVars() override { return s; } };
static void conjectures(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f = simFormula(R, g); int method = R.pick(std::vector<int>{0, 0, 1, 10}), tries = R.pick(std::vector<int>{1, 1, 3});
    int order = R.range(0, 1), filter = R.chance(60) ? 0 : R.range(1, 3), rounds = R.pick(std::vector<int>{1, 2048, 4096, 20480, 65536}), rnd = R.range(0, 3); bool front = R.chance(30), rrat = R.chance(15), twice = R.chance(20);
    int sizeFilter = R.chance(30) ? R.range(1, 5) : 0; bool bbFilter = R.chance(20); int keep = R.range(10, 90);
    if (front) { order = 0; rnd = 0; if (filter > 1) filter = 1; twice = false; }
    c.describe("method " + std::to_string(method) + " tries " + std::to_string(tries) + " order " + std::to_string(order) + " filter " + std::to_string(filter) + " rounds " + std::to_string(rounds) + " randomization " + std::to_string(rnd) + " frontend " + std::to_string(front) + " rrat " + std::to_string(rrat) + " twice " + std::to_string(twice) + " size " + std::to_string(sizeFilter) + " nobb " + std::to_string(bbFilter) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    Candy::CNFProblem p; feed(p, f); int nv = (int)p.nVars();
    setOption("-gate-recognition-method=" + std::to_string(method)); setOption("-gate-tries=" + std::to_string(tries));
    Candy::GateAnalyzer an(p, (Candy::GateRecognitionMethod)method, tries, -1); an.analyze();
    Circ k = model(an, nv);
    // which outputs have to be simulated
    std::set<int> enabled, omitted; std::unordered_set<Candy::Var> some;
    for (auto& x : k.g) { if (filter <= 1 ? (filter == 0 || x.second.nonmono) : R.chance(keep)) { enabled.insert(x.first); some.insert(Candy::Var(x.first - 1)); } }
    std::set<int> simulated; for (int v : k.order) { bool ok = enabled.count(v); for (int w : k.g[v].in) if (k.g.count(w) && !simulated.count(w)) ok = false; if (ok) simulated.insert(v); else omitted.insert(v); }
    auto mkOrder = [&](int o) { auto co = o ? Candy::createRecursiveClauseOrder() : Candy::createNonrecursiveClauseOrder(); if (filter == 1) co->setGateFilter(Candy::createNonmonotonousGateFilter(an)); if (filter > 1) { auto* s = new SomeGates; s->s = some; co->setGateFilter(std::unique_ptr<Candy::GateFilter>(s)); } return co; };
    for (int o = 0; o < 2; o++) {   // the order itself
        auto co = mkOrder(o); co->readGates(an); std::set<int> ins, outs;
        for (auto v : co->getInputVariables()) if (!ins.insert(v + 1).second) c.violation("order-input-twice", "input " + std::to_string(v + 1) + " listed twice");
        if (ins != std::set<int>(k.inputs.begin(), k.inputs.end())) c.violation("order-inputs", "the inputs of the clause order are not the inputs of the reachable gates");
        for (auto l : co->getGateOutputsOrdered()) { int v = l.var() + 1; if (!outs.insert(v).second) c.violation("order-output-twice", "output " + std::to_string(v) + " listed twice"); if (!k.g.count(v)) c.violation("order-no-gate", "output " + std::to_string(v) + " is no gate"); for (int w : k.g[v].in) if (k.g.count(w) && !outs.count(w)) c.violation("order-not-topological", "output " + std::to_string(v) + " is evaluated before its input " + std::to_string(w)); }
        if (outs != simulated) c.violation("order-outputs", "order " + std::to_string(o) + " lists " + std::to_string(outs.size()) + " of " + std::to_string(simulated.size()) + " expected outputs");
        int mx = 0; for (int v : outs) mx = std::max(mx, v); for (int v : ins) mx = std::max(mx, v);
        if ((int)co->getAmountOfVars() < mx) c.violation("order-vars", "number of variables too small");
        c.count("clause orders checked");
    }
    std::map<int, Bits> val; size_t rows; bool all = evaluate(k, R, 6, val, rows); uint64_t tail = rows % 64 ? ((uint64_t)1 << (rows % 64)) - 1 : ~(uint64_t)0;
    Candy::Conjectures cj;
    if (front) {
        setOption("-rs-rounds=" + std::to_string(rounds)); setOption("-rs-max-conj-size=" + std::to_string(sizeFilter)); if (bbFilter) setOption("-rs-remove-backbone-conj"); if (rrat) setOption("-rs-abort-by-rrat"); if (filter == 1) setOption("-rs-only-nonmono-gates");
        cj = std::move(*Candy::performRandomSimulation(an, -1.0));
    } else {
        Candy::BitparallelRandomSimulatorBuilder b(an); b.withClauseOrderStrategy(mkOrder(order));
        if (rnd == 1) b.withRandomizationStrategy(Candy::createSimpleRandomization());
        if (rnd == 2) b.withRandomizationStrategy(Candy::alternateRandomizations(Candy::createSimpleRandomization(), Candy::createRandomizationBiasedToTrue((unsigned)R.range(1, 4)), 1));
        if (rnd == 3) b.withRandomizationStrategy(Candy::alternateRandomizations(Candy::createSimpleRandomization(), Candy::createRandomizationBiasedToFalse((unsigned)R.range(1, 4)), (unsigned)R.range(1, 3)));
        if (rrat) b.withReductionRateAbortThreshold(R.coin() ? 0.01f : 0.5f);
        auto s = b.build(); cj = s->run((unsigned)rounds); if (twice) cj = s->run(2048);
        if (sizeFilter) cj = Candy::createSizeConjectureFilter((size_t)sizeFilter)->apply(cj);
        if (bbFilter) cj = Candy::createBackboneRemovalConjectureFilter()->apply(cj);
    }
    std::map<int, int> cls, sgn; int nc = 0; std::set<int> bb; std::set<int> gone;
    for (auto& e : cj.getEquivalences()) { nc++; if (e.size() < 2) c.violation("conjecture-small", "equivalence conjecture with less than two literals"); if (sizeFilter && (int)e.size() > sizeFilter) c.violation("conjecture-size", "equivalence conjecture larger than the limit"); for (auto l : e) { int v = I(l); if (!simulated.count(std::abs(v))) c.violation("conjecture-foreign", "conjecture about " + std::to_string(v) + ", which is not simulated"); if (cls.count(std::abs(v))) c.violation("conjecture-twice", "variable " + std::to_string(std::abs(v)) + " in two conjectures"); cls[std::abs(v)] = nc; sgn[std::abs(v)] = v > 0; } }
    for (auto& b : cj.getBackbones()) { int l = I(b.getLit()); if (bbFilter) c.violation("conjecture-backbone", "backbone conjecture in spite of the filter"); if (!simulated.count(std::abs(l))) c.violation("conjecture-foreign", "conjecture about " + std::to_string(l) + ", which is not simulated"); if (cls.count(std::abs(l)) || bb.count(l) || bb.count(-l)) c.violation("conjecture-twice", "variable " + std::to_string(std::abs(l)) + " in two conjectures"); bb.insert(l); }
    // pairs and constants that one uniform step of 2048 assignments separates with overwhelming probability
    size_t sig = all ? 1 : rows / 20; bool exact = !rrat; Bits zero(val.empty() ? 1 : val.begin()->second.size());
    std::vector<int> vs(simulated.begin(), simulated.end()); size_t consts = 0, pairs = 0;
    std::map<int, int> cst; for (int v : vs) { size_t ones = diff(val[v], zero, false, tail); if (all && ones == 0) cst[v] = -v; if (all && ones == rows) cst[v] = v;
        if (cst.count(v)) { consts++; if (!bbFilter && !bb.count(cst[v])) c.violation("constant-missed", "gate " + std::to_string(v) + " is constant, but there is no conjecture for literal " + std::to_string(cst[v])); if (cls.count(v)) c.violation("constant-in-class", "constant gate " + std::to_string(v) + " in an equivalence conjecture"); }
        if (exact && bb.count(v) && rows - ones >= sig) c.violation("constant-wrong", "conjecture that gate literal " + std::to_string(v) + " is true, but it is false for " + std::to_string(rows - ones) + " of " + std::to_string(rows) + " inputs");
        if (exact && bb.count(-v) && ones >= sig) c.violation("constant-wrong", "conjecture that gate literal " + std::to_string(-v) + " is true, but it is false for " + std::to_string(ones) + " of " + std::to_string(rows) + " inputs"); }
    // sizes of the true classes (for the size filter)
    std::map<int, int> rep; std::map<int, int> size; if (all) for (int v : vs) if (!cst.count(v)) { rep[v] = v; for (int w : vs) if (w < v && !cst.count(w) && (diff(val[v], val[w], false, tail) == 0 || diff(val[v], val[w], true, tail) == 0)) { rep[v] = rep[w]; break; } size[rep[v]]++; }
    for (size_t i = 0; i < vs.size(); i++) for (size_t j = i + 1; j < vs.size(); j++) {
        int v = vs[i], w = vs[j]; if (cst.count(v) || cst.count(w)) continue; pairs++;
        bool same = cls.count(v) && cls.count(w) && cls[v] == cls[w]; bool neg = same && sgn[v] != sgn[w];
        size_t dp = diff(val[v], val[w], false, tail), dn = diff(val[v], val[w], true, tail);
        if (all && (dp == 0 || dn == 0)) {
            bool dropped = sizeFilter && (size[rep[v]] > sizeFilter || rrat);   // removed by the size filter
            if (!same && !dropped && !rrat) c.violation("equivalence-missed", "gates " + std::to_string(v) + " and " + std::to_string(w) + " are equivalent, but not conjectured to be");
            if (!same && rrat && !sizeFilter && !(bb.count(v) || bb.count(-v))) c.violation("equivalence-missed", "gates " + std::to_string(v) + " and " + std::to_string(w) + " are equivalent, but not conjectured to be");
            if (same && neg != (dn == 0)) c.violation("equivalence-polarity", "gates " + std::to_string(v) + " and " + std::to_string(w) + " are conjectured to be equivalent with wrong polarity");
        } else if (same && exact && (neg ? dn : dp) >= sig)
            c.violation("equivalence-wrong", "gates " + std::to_string(v) + " and " + std::to_string(w) + " are conjectured to be " + (neg ? "opposite" : "equal") + ", but differ for " + std::to_string(neg ? dn : dp) + " of " + std::to_string(rows) + " inputs");
    }
    c.count("simulations checked"); c.count(all ? "simulations with exhaustive oracle" : "simulations with sampled oracle"); c.count("constant gates", consts); c.count("equivalence conjectures", cj.getEquivalences().size()); c.count("backbone conjectures", cj.getBackbones().size()); c.count("pairs of gates compared", pairs); c.count("kind " + g.kind); c.count("gates omitted by filters", omitted.size()); c.maxi("gates simulated", simulated.size());
    if (simulated.size() > 1) c.nontrivial(std::to_string(method * 1000 + order * 100 + filter * 10 + rnd) + str(f));
}

// ---- the partition keeps literals together if and only if all values seen so far agree
static void partition(Case& c) {
    Rng& R = c.R; const int W = (int)Candy::SimulationVector::VARSIMVECSIZE;
    int nb = R.range(1, 5), nv = R.range(1, R.chance(80) ? 12 : 60), space = nv + R.range(0, R.chance(70) ? 3 : 80), rounds = R.chance(85) ? R.range(1, 9) : R.range(10, 70), sched = R.range(0, 4), freq = R.range(1, 5); bool often = R.chance(40);
    struct Base { int kind, round, word, bit; }; std::vector<Base> base; for (int i = 0; i < nb; i++) base.push_back({R.range(0, 7), R.range(0, rounds - 1), R.range(0, W - 1), R.range(0, 63)});
    struct Vr { int id, base; bool neg; int flipRound, flipWord, flipBit; }; std::vector<int> ids; for (int i = 0; i < space; i++) ids.push_back(i); R.shuffle(ids); ids.resize((size_t)nv);
    std::vector<Vr> vs; for (int id : ids) { Vr v{id, R.range(0, nb - 1), R.coin(), -1, 0, 0}; if (R.chance(15)) { v.flipRound = R.range(0, rounds - 1); v.flipWord = R.pick(std::vector<int>{0, W - 1, R.range(0, W - 1)}); v.flipBit = R.pick(std::vector<int>{0, 63, R.range(0, 63)}); } vs.push_back(v); }
    std::ostringstream d; d << "rounds " << rounds << " schedule " << sched << " freq " << freq << " often " << often << "\ncolumns:"; for (auto& b : base) d << " (" << b.kind << " " << b.round << " " << b.word << " " << b.bit << ")"; d << "\nvariables:"; for (auto& v : vs) d << " " << v.id << "=" << (v.neg ? "~" : "") << v.base << (v.flipRound < 0 ? std::string() : "^(" + std::to_string(v.flipRound) + " " + std::to_string(v.flipWord) + " " + std::to_string(v.flipBit) + ")"); c.describe(d.str());
    auto part = sched == 0 ? Candy::createDefaultPartition() : Candy::createDefaultPartition(sched == 1 ? Candy::createNullCompressionScheduleStrategy() : sched == 2 ? Candy::createLogCompressionScheduleStrategy() : Candy::createLinearCompressionScheduleStrategy((unsigned)freq));
    std::vector<Candy::Var> pv; for (auto& v : vs) pv.push_back(Candy::Var(v.id)); part->setVariables(pv);
    Candy::SimulationVectors sv; sv.initialize((unsigned)space);
    // the history, one bit string per variable
    std::vector<Bits> h(vs.size());
    for (int r = 0; r < rounds; r++) {
        for (int w = 0; w < W; w++) {
            std::vector<uint64_t> b; for (auto& k : base) { uint64_t x = R.next(); switch (k.kind) { case 0: x = 0; break; case 1: x = ~(uint64_t)0; break; case 2: if (r < k.round) x = 0; break; case 3: if (r < k.round) x = ~(uint64_t)0; break; case 4: x = r == k.round && w == k.word ? (uint64_t)1 << k.bit : 0; break; case 5: if (r > k.round) x = 0; break; case 6: for (int q = 0; q < 9; q++) x &= R.next(); break; default: break; } b.push_back(x); }
            for (size_t i = 0; i < vs.size(); i++) { uint64_t x = b[(size_t)vs[i].base]; if (vs[i].neg) x = ~x; if (vs[i].flipRound == r && vs[i].flipWord == w) x ^= (uint64_t)1 << vs[i].flipBit; sv.get((unsigned)vs[i].id).vars[w] = x; h[i].push_back(x); }
        }
        part->update(sv);
        if (!often && r + 1 < rounds) continue;
        Candy::Conjectures cj = part->getConjectures(); std::map<int, int> cls, sg; std::map<int, int> bb; int nc = 0;
        for (auto& e : cj.getEquivalences()) { nc++; if (e.size() < 2) c.violation("partition-small", "equivalence conjecture with less than two literals"); for (auto l : e) { if (cls.count(l.var())) c.violation("partition-twice", "variable " + std::to_string(l.var()) + " in two conjectures"); cls[l.var()] = nc; sg[l.var()] = l.sign(); } }
        for (auto& b : cj.getBackbones()) { if (cls.count(b.getLit().var()) || bb.count(b.getLit().var())) c.violation("partition-twice", "variable " + std::to_string(b.getLit().var()) + " in two conjectures"); bb[b.getLit().var()] = b.getLit().sign(); }
        size_t known = 0; std::vector<int> konst(vs.size(), -1); int sign0 = -1;
        for (size_t i = 0; i < vs.size(); i++) { bool z = true, o = true; for (uint64_t x : h[i]) { z &= x == 0; o &= ~x == 0; } konst[i] = z ? 0 : o ? 1 : -1; int id = vs[i].id; known += cls.count(id) + bb.count(id);
            if ((konst[i] >= 0) != (bb.count(id) > 0)) c.violation(konst[i] >= 0 ? "partition-constant-missed" : "partition-constant-wrong", "round " + std::to_string(r) + ": variable " + std::to_string(id) + (konst[i] >= 0 ? " is constant" : " is not constant"));
            if (konst[i] >= 0) { int s = bb[id] ^ konst[i]; if (sign0 < 0) sign0 = s; if (s != sign0) c.violation("partition-constant-value", "round " + std::to_string(r) + ": wrong value of constant variable " + std::to_string(id)); } }
        if (known != cls.size() + bb.size()) c.violation("partition-foreign", "a conjecture about a variable that does not belong to the partition");
        for (size_t i = 0; i < vs.size(); i++) for (size_t j = i + 1; j < vs.size(); j++) { if (konst[i] >= 0 || konst[j] >= 0) continue; int x = vs[i].id, y = vs[j].id; bool eq = h[i] == h[j], ne = true; for (size_t k = 0; ne && k < h[i].size(); k++) ne = h[i][k] == ~h[j][k];
            bool same = cls.count(x) && cls.count(y) && cls[x] == cls[y]; c.count("pairs of variables compared");
            if (same != (eq || ne)) c.violation(same ? "partition-wrong" : "partition-missed", "round " + std::to_string(r) + ": variables " + std::to_string(x) + " and " + std::to_string(y) + (eq ? " are equal" : ne ? " are opposite" : " are unrelated"));
            if (same && (sg[x] == sg[y]) != eq) c.violation("partition-polarity", "round " + std::to_string(r) + ": variables " + std::to_string(x) + " and " + std::to_string(y) + " with wrong polarity"); }
        c.count("partitions checked"); c.count("equivalence conjectures", cj.getEquivalences().size()); c.count("backbone conjectures", cj.getBackbones().size());
    }
    c.count("rounds of simulated values", (uint64_t)rounds); if (nv > 1) c.nontrivial(d.str());
}

// ---- refinement steps describe exactly the conjectures that have not been removed
struct Script : Candy::RefinementHeuristic {
    std::vector<std::set<int>> steps; int step = -1; std::vector<std::pair<bool, std::set<int>>> seen; bool bbAndEq;
    void beginRefinementStep() override { step++; }
    void markRemovals(Candy::EquivalenceImplications& e) override { if (step < (int)steps.size()) for (auto im : e) if (steps[(size_t)step].count((int)im.first.var() + 1)) e.addVariableRemovalToWorkQueue(im.first.var()); }
    void markRemovals(Candy::Backbones& b) override { if (step < (int)steps.size()) for (auto l : b) if (steps[(size_t)step].count((int)l.var() + 1)) b.addVariableRemovalToWorkQueue(l.var()); }
};
static void refine(Case& c) {
    Rng& R = c.R;
    int n = R.range(1, 9); std::vector<int> vars; for (int i = 1; i <= n; i++) vars.push_back(i); R.shuffle(vars);
    std::vector<Clause> classes; Clause bbs; size_t at = 0;
    while (at < vars.size()) { if (R.chance(25)) { bbs.push_back(R.coin() ? vars[at] : -vars[at]); at++; continue; } size_t k = (size_t)R.range(1, R.chance(60) ? 4 : 9); Clause e; while (k-- && at < vars.size()) { e.push_back(R.coin() ? vars[at] : -vars[at]); at++; } classes.push_back(e); }
    int nsteps = R.range(1, 6), nh = R.range(1, 2); std::vector<std::vector<std::set<int>>> plan((size_t)nh);
    for (auto& h : plan) for (int s = 0; s < nsteps; s++) { std::set<int> m; if (s > 0 || R.chance(40)) for (int v = 1; v <= n; v++) if (R.chance(R.pick(std::vector<int>{10, 25, 50, 90}))) m.insert(v); h.push_back(m); }
    std::ostringstream d; d << "classes:"; for (auto& e : classes) d << " {" << str(e) << "}"; d << "\nbackbones: " << str(bbs) << "\nremovals:"; for (auto& h : plan) { d << " ["; for (auto& s : h) { d << "("; for (int v : s) d << v << " "; d << ")"; } d << "]"; } c.describe(d.str());
    Candy::Conjectures cj; for (auto& e : classes) { Candy::EquivalenceConjecture q; for (int l : e) q.addLit(L(l)); cj.addEquivalence(q); } for (int l : bbs) cj.addBackbone(Candy::BackboneConjecture(L(l)));
    std::vector<std::unique_ptr<Candy::RefinementHeuristic>> hs; for (auto& h : plan) { auto* s = new Script; s->steps = h; hs.emplace_back(s); }
    int next = n; std::set<int> fresh;
    auto strat = Candy::createDefaultRefinementStrategy(cj, std::move(hs), [&]() { fresh.insert(++next); return Candy::Var(next - 1); });
    CNF acc; std::set<int> removed;
    for (int s = 0; s < nsteps; s++) {
        auto delta = s == 0 ? strat->init() : strat->refine();
        for (auto& h : plan) for (int v : h[(size_t)s]) removed.insert(v);
        for (auto& k : delta->getNewClauses()) {
            Clause q = lits(k); int marks = 0; for (int l : q) marks += fresh.count(std::abs(l)); if (marks != 1) c.violation("refine-unguarded", "clause " + str(q) + " has " + std::to_string(marks) + " assumption literals");
            int a = I(Candy::getAssumptionLit(k)); if (!fresh.count(std::abs(a)) || !std::count(q.begin(), q.end(), a)) c.violation("refine-guard", "getAssumptionLit of " + str(q) + " returns " + std::to_string(a));
            auto o = Candy::getNonAssumptionLits(k); std::set<int> x{I(o.first), I(o.second)}, y; for (int l : q) if (l != a) y.insert(l); if (x != y) c.violation("refine-guard", "getNonAssumptionLits of " + str(q) + " is wrong");
            acc.push_back(q);
        }
        std::set<int> as, av; size_t active = 0;
        for (auto l : delta->getAssumptionLiterals()) { int x = I(l); if (!fresh.count(std::abs(x))) c.violation("refine-assumption", "assumption " + std::to_string(x) + " is no assumption variable"); if (!av.insert(std::abs(x)).second) c.violation("refine-assumption", "assumption variable " + std::to_string(std::abs(x)) + " listed twice"); as.insert(x); if (Candy::isActive(l)) active++; }
        for (auto& q : acc) { bool ok = false; for (int l : q) ok |= av.count(std::abs(l)) > 0; if (!ok) c.violation("refine-assumption", "the assumptions do not mention the guard of clause " + str(q)); }
        if (delta->countEnabledClauses() != active) c.violation("refine-count", "countEnabledClauses is " + std::to_string(delta->countEnabledClauses()) + ", but " + std::to_string(active) + " assumptions are active");
        size_t enabled = 0; for (auto& q : acc) { bool off = false; for (int l : q) if (fresh.count(std::abs(l)) && as.count(l)) off = true; if (!off) enabled++; }
        if (enabled != active) c.violation("refine-count", std::to_string(enabled) + " clauses are enabled, but " + std::to_string(active) + " assumptions are active");
        for (int m = 0; m < (1 << n); m++) {
            auto tv = [&](int l) { bool v = m >> (std::abs(l) - 1) & 1; return l > 0 ? v : !v; };
            bool want = true; for (int l : bbs) if (!removed.count(std::abs(l)) && !tv(l)) want = false;
            for (auto& e : classes) { int t = 0, u = 0; for (int l : e) if (!removed.count(std::abs(l))) (tv(l) ? t : u)++; if (t && u) want = false; }
            bool got = true, off = true; for (auto& q : acc) { bool sat = false, sat0 = false; for (int l : q) { if (fresh.count(std::abs(l))) { if (as.count(l)) sat = true; if (l == I(Candy::deactivatedAssumptionLit(Candy::Var(std::abs(l) - 1)))) sat0 = true; } else if (tv(l)) sat = sat0 = true; } got &= sat; off &= sat0; }
            if (got != want) c.violation(want ? "refine-too-strong" : "refine-too-weak", "step " + std::to_string(s) + ": assignment " + std::to_string(m) + " is " + (want ? "consistent" : "inconsistent") + " with the remaining conjectures, but " + (got ? "allowed" : "excluded") + " by the encoding");
            if (!off) c.violation("refine-not-removable", "a clause of the approximation is active although all of them are deactivated");
        }
        c.count("refinement steps checked"); c.count("assignments compared", (uint64_t)1 << n); c.count("approximation clauses", delta->getNewClauses().size());
    }
    if (!acc.empty() && !removed.empty()) c.nontrivial(d.str());
}

// ---- removal by number of inputs
static void idc(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f = simFormula(R, g); int method = R.pick(std::vector<int>{0, 0, 1, 10}), tries = 1;
    std::vector<size_t> conf; int len = R.range(0, 3); size_t top = (size_t)R.range(0, 6); for (int i = 0; i < len; i++) { conf.push_back(top); if (top) top -= (size_t)R.range(0, (int)top); }
    std::string cs; for (auto x : conf) cs += std::to_string(x) + " ";
    c.describe("method " + std::to_string(method) + " limits " + cs + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    Candy::CNFProblem p; feed(p, f); Candy::GateAnalyzer an(p, (Candy::GateRecognitionMethod)method, tries, -1); an.analyze();
    Circ k = model(an, (int)p.nVars()); if (k.order.empty()) return;
    std::map<int, std::set<int>> dep; for (int v : k.order) for (int w : k.g[v].in) { if (k.g.count(w)) dep[v].insert(dep[w].begin(), dep[w].end()); else dep[v].insert(w); }
    Candy::Conjectures cj; Candy::EquivalenceConjecture e; std::set<int> eq, bb;
    for (int v : k.order) { if (R.chance(70)) { e.addLit(L(v)); eq.insert(v); } else { cj.addBackbone(Candy::BackboneConjecture(L(v))); bb.insert(v); } }
    if (eq.size() < 2) return;
    cj.addEquivalence(e);
    auto h = Candy::createInputDepCountRefinementHeuristic(an, conf);
    auto st = Candy::createApproximationState(cj); st->createInitializationDelta();
    for (size_t s = 0; s <= conf.size() + 1; s++) {
        h->beginRefinementStep(); h->markRemovals(st->getBackbones()); for (auto it = st->beginEquivalenceImplications(); it != st->endEquivalenceImplications(); ++it) h->markRemovals(**it);
        st->createDelta();
        auto keep = [&](int v) { if (s >= conf.size()) return false; for (size_t i = 0; i <= s; i++) if (dep[v].size() > conf[i]) return false; return true; };
        std::set<int> we, wb, ge, gb; for (int v : eq) if (keep(v)) we.insert(v); for (int v : bb) if (keep(v)) wb.insert(v);
        if (we.size() == 1) we.clear();
        for (auto it = st->beginEquivalenceImplications(); it != st->endEquivalenceImplications(); ++it) for (auto im : **it) { ge.insert((int)im.first.var() + 1); ge.insert((int)im.second.var() + 1); }
        for (auto l : st->getBackbones()) gb.insert((int)l.var() + 1);
        if (ge != we || gb != wb) c.violation("idc-removals", "step " + std::to_string(s) + " keeps " + std::to_string(ge.size() + gb.size()) + " variables instead of " + std::to_string(we.size() + wb.size()));
        c.count("removal steps checked");
    }
    c.nontrivial(cs + str(f));
}

// ---- abstraction refinement answers like a plain solver, whatever it conjectures
static void rsar(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f = R.chance(75) ? simFormula(R, g) : g.any(0, true); Cfg cfg = anyCfg(R, false);
    int src = R.range(0, 2), maxRef = R.pick(std::vector<int>{-1, -1, 0, 1, 2, 3, 5}); std::string heur = R.chance(40) ? R.pick(std::vector<std::string>{"3", "5 2", "10 4 1", "0"}) : "";
    std::vector<Clause> eqs; Clause bb;
    if (src) { int n = maxVar(f); std::vector<int> vs; for (int i = 1; i <= n; i++) vs.push_back(i); R.shuffle(vs); if (src == 2) R.shuffle(vs); size_t at = 0; int m = R.range(0, 4); while (m-- && at < vs.size()) { if (R.chance(30)) { bb.push_back(R.coin() ? vs[at] : -vs[at]); at++; } else { Clause e; for (int k = R.range(2, 5); k && at < vs.size(); k--) { e.push_back(R.coin() ? vs[at] : -vs[at]); at++; } if (e.size() > 1) eqs.push_back(e); } } }
    std::ostringstream d; d << "config: " << str(cfg) << " source " << src << " refinements " << maxRef << " heuristic '" << heur << "' conjectures:"; for (auto& e : eqs) d << " {" << str(e) << "}"; d << " backbones " << str(bb) << "\nkind: " << g.kind << "\ncnf:\n" << str(f); c.describe(d.str());
    setOption("-rsar-max-refinements=" + std::to_string(maxRef)); setOption("-rsar-min-gatecount=1"); setOption("-rs-rounds=2048"); if (!heur.empty()) setOption("-rsar-heur-idc=" + heur); apply(cfg);
    Candy::CNFProblem p; feed(p, f); std::unique_ptr<Candy::CandySolverInterface> s;
    if (src == 0) { std::cout.setstate(std::ios::failbit); s.reset(Candy::createRSARSolver(p)); std::cout.clear(); if (!s) { c.count("formulas without conjectures"); return; } }
    else {
        std::unique_ptr<Candy::Conjectures> cj(new Candy::Conjectures); for (auto& e : eqs) { Candy::EquivalenceConjecture q; for (int l : e) q.addLit(L(l)); cj->addEquivalence(q); } for (int l : bb) cj->addBackbone(Candy::BackboneConjecture(L(l)));
        Candy::CandySolverInterface* inner = R.coin() ? nullptr : make();
        if (!heur.empty()) { Candy::GateAnalyzer an(p); an.analyze(); std::vector<size_t> lim; std::istringstream is(heur); size_t x; while (is >> x) lim.push_back(x); s.reset(new Candy::ARSolver(std::move(cj), Candy::createInputDepCountRefinementHeuristic(an, lim), inner)); }
        else s.reset(new Candy::ARSolver(std::move(cj), inner));
    }
    s->init(p);
    lbool r = s->solve(); int want = refSolve(f);
    if (r == l_Undef) c.violation("rsar-undef", "no verdict without interruption");
    if (r == l_True) {
        if (want == 0) c.violation("rsar-wrong-sat", "satisfiable, but the formula is unsatisfiable");
        std::set<int> m; for (auto l : s->getCandySolverResult().getModelLiterals()) m.insert(I(l));
        for (auto& k : f) { bool ok = tautology(k); for (int l : k) ok |= m.count(l) > 0; if (!ok) c.violation("rsar-wrong-model", "the model does not satisfy clause " + str(k)); }
        for (int v = 1; v <= maxVar(f); v++) if (v <= (int)p.nVars() && m.count(v) + m.count(-v) != 1) c.violation("rsar-model-incomplete", "the model does not assign variable " + std::to_string(v));
        c.count("models checked");
    } else { if (want == 1) c.violation("rsar-wrong-unsat", "unsatisfiable, but the formula has a model"); c.count(want < 0 ? "undecided" : "unsatisfiable answers confirmed"); }
    c.count(src ? "solves with arbitrary conjectures" : "solves with simulated conjectures"); c.count("kind " + g.kind);
    if (f.size() > 2) c.nontrivial(d.str());
}
// ---- simulators and abstraction-refinement solvers give everything back
#if defined(__SANITIZE_ADDRESS__)
static void release(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f = simFormula(R, g); Cfg cfg = anyCfg(R, false); int what = R.range(0, 2), maxRef = R.pick(std::vector<int>{-1, 0, 1, 2, 5}), rounds = R.pick(std::vector<int>{2048, 4096, 20480}), method = R.pick(std::vector<int>{0, 0, 1, 10}); std::string heur = R.chance(40) ? R.pick(std::vector<std::string>{"3", "5 2", "10 4 1", "0"}) : ""; bool one = R.coin();
    std::string d = "what " + std::to_string(what) + " config: " + str(cfg) + " refinements " + std::to_string(maxRef) + " heuristic '" + heur + "' rounds " + std::to_string(rounds) + " method " + std::to_string(method) + "\nkind: " + g.kind + "\ncnf:\n" + str(f); c.describe(d);
    setOption("-gate-recognition-method=" + std::to_string(method)); setOption("-rsar-max-refinements=" + std::to_string(maxRef)); setOption("-rsar-min-gatecount=1"); setOption("-rs-rounds=" + std::to_string(rounds)); if (!heur.empty()) setOption("-rsar-heur-idc=" + heur); apply(cfg); bool pre = Candy::SolverOptions::opt_preprocessing, srt = Candy::SolverOptions::opt_sort_variables;
    std::cout.setstate(std::ios::failbit);
    keepsNothing(c, what == 0 ? "simulators dropped" : "abstraction-refinement solvers dropped", [&]() {
        Candy::SolverOptions::opt_preprocessing = pre; Candy::SolverOptions::opt_sort_variables = srt;
        Candy::CNFProblem p; feed(p, f);
        if (what == 0) { Candy::GateAnalyzer an(p); an.analyze(); if (one) { Candy::performRandomSimulation(an, -1.0); return; } Candy::BitparallelRandomSimulatorBuilder b(an); auto s = b.build(); s->run((unsigned)rounds); s->run(2048); return; }
        std::unique_ptr<Candy::CandySolverInterface> inner, s;
        if (what == 1) s.reset(Candy::createRSARSolver(p));
        else { Candy::GateAnalyzer an(p); an.analyze(); std::unique_ptr<Candy::Conjectures> cj = Candy::performRandomSimulation(an, -1.0); if (one) inner.reset(make()); s.reset(new Candy::ARSolver(std::move(cj), inner.get())); }
        if (!s) return; s->init(p); s->solve(); });
    std::cout.clear(); c.nontrivial(d);
}
#endif
} // namespace vf
int main(int argc, char** argv) {
    vf::Runner r;
    r.modes["conjectures"] = vf::conjectures; r.modes["partition"] = vf::partition; r.modes["refine"] = vf::refine; r.modes["idc"] = vf::idc; r.modes["rsar"] = vf::rsar;
#if defined(__SANITIZE_ADDRESS__)
    r.modes["release"] = vf::release;
#endif
    return r.main(argc, argv);
}
