// Monitors around gate recognition: the recognized structure, the CNF-to-AIG converter and the model minimizer.
#include "candyapi.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
#include "candy/gates/AIGProblem.h"
namespace vf {

static CNF structured(Rng& R, Gen& g, bool dirty) {
    CNF f; int d = R.range(0, 99);
    if (d < 45) { f = g.circuitCNF(R.range(2, 6), R.range(1, R.chance(70) ? 14 : 50), R.coin()); g.kind = "circuit"; }
    else if (d < 55) { // circuit without roots, or with many roots
        auto k = g.circuit(R.range(2, 6), R.range(1, 20), R.coin()); f = k.cnf; g.kind = "circuit-roots";
        int m = R.range(0, 4); for (int i = 0; i < m; i++) { Clause c; for (int j = R.range(1, 3); j > 0; j--) c.push_back(R.coin() ? R.range(1, k.vars) : -R.range(1, k.vars)); f.push_back(c); } }
    else if (d < 63) { f = g.parity(R.range(3, 10), R.range(1, 6), R.range(2, 4)); g.kind = "parity"; }
    else if (d < 68) { f = g.miter(R.range(1, 3), R.coin()); g.kind = "miter"; }
    else if (d < 76) { f = g.php(R.range(1, 4), R.range(1, 4)); g.kind = "php"; }
    else if (d < 84) { // truth tables in full encoding, used in both polarities, possibly with a clause replaced by a copy of another one
        g.kind = "truth-table"; int n = R.range(2, 4), m = R.range(1, 3), v = n;
        std::vector<int> outs;
        for (int i = 0; i < m; i++) {
            std::vector<int> x; std::set<int> s; while ((int)s.size() < n) s.insert(R.range(1, v)); for (int q : s) x.push_back(q);
            int o = ++v; outs.push_back(o); size_t from = f.size(); bool par = R.chance(60); uint32_t tt = (uint32_t)R.next();
            for (int b = 0; b < (1 << n); b++) { bool val = par ? __builtin_popcount(b) & 1 : tt >> b & 1; Clause k; for (int j = 0; j < n; j++) k.push_back(b >> j & 1 ? -x[j] : x[j]); k.push_back(val ? o : -o); f.push_back(k); }
            if (R.chance(50)) { size_t k = from + R.below(f.size() - from), q = from + R.below(f.size() - from); if (f[k].back() == f[q].back()) { if (R.coin()) f[k] = f[q]; else if (f[k].size() > 2) f[k].erase(f[k].begin()); } }
        }
        if (R.chance(70)) { f.push_back({outs.back(), R.range(1, n)}); f.push_back({-outs.back(), -R.range(1, n)}); }
        Clause k; for (int o : outs) k.push_back(R.coin() ? o : -o); f.push_back(k); if (R.coin()) { for (int& l : k) l = -l; f.push_back(k); }
        if (R.chance(40)) { int z = ++v; g.gateClauses(f, 2, z, {outs[R.below(outs.size())], R.range(1, n)}); f.push_back({R.coin() ? z : -z}); }
        if (R.coin()) R.shuffle(f);
        return f;
    }
    else { f = g.any(R.chance(70) ? 0 : 1, true); }
    if (d < 76 && !f.empty()) {
        int n = maxVar(f);
        // damage the encodings: drop, duplicate, flip or shrink single clauses
        int m = R.chance(50) ? R.range(0, 4) : 0;
        for (int i = 0; i < m && !f.empty(); i++) {
            size_t k = R.below(f.size());
            switch (R.range(0, 5)) {
            case 0: f.erase(f.begin() + (long)k); break;
            case 1: f.push_back(f[k]); break;
            case 2: if (!f[k].empty()) f[k][R.below(f[k].size())] *= -1; break;
            case 3: if (f[k].size() > 1) f[k].erase(f[k].begin() + (long)R.below(f[k].size())); break;
            case 4: { int x = R.range(1, n); f[k].push_back(R.coin() ? x : -x); break; }
            default: f[k] = f[R.below(f.size())];
            }
        }
        if (dirty) g.disguise(f, true); else if (R.coin()) R.shuffle(f);
    }
    return f;
}
static Clause lits(const Candy::Cl& c) { Clause k; for (auto l : c) k.push_back(I(l)); std::sort(k.begin(), k.end()); return k; }
static const int METHODS[] = {0, 1, 2, 10, 11};

// ---- the recognized structure is a partition of the formula into acyclic, blocked, functional definitions
static void gates(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f = structured(R, g, true); int method = METHODS[R.below(5)], tries = R.pick(std::vector<int>{1, 1, 2, 5, 0});
    c.describe("method " + std::to_string(method) + " tries " + std::to_string(tries) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    Candy::CNFProblem p; feed(p, f);
    std::multiset<Clause> before; std::map<const Candy::Cl*, Clause> orig;
    for (auto* k : p) { before.insert(lits(*k)); orig[k] = lits(*k); }
    Candy::GateAnalyzer an(p, (Candy::GateRecognitionMethod)method, tries, -1);
    an.analyze();
    Candy::GateProblem& gp = an.getResult();
    std::map<const Candy::Cl*, int> where; size_t ngates = 0, nmono = 0;
    auto place = [&](const Candy::Cl* k, const char* what) {
        if (!orig.count(k)) c.violation("foreign-clause", std::string(what) + " contains a clause that is not part of the formula: " + str(lits(*k)));
        if (lits(*k) != orig[k]) c.violation("clause-modified", "gate analysis modified clause " + str(orig[k]));
        if (where[k]++) c.violation("clause-twice", "clause " + str(orig[k]) + " occurs twice in the recognized structure (" + what + ")"); };
    for (auto* k : gp.roots) place(k, "roots");
    for (auto* k : gp.remainder) place(k, "remainder");
    std::vector<std::set<int>> in(p.nVars() + 1);
    CNF F; for (auto& k : before) F.push_back(k);
    // how often is each literal used by roots, by inputs of gates
    std::set<int> used; for (auto* k : gp.roots) for (int l : orig[k]) used.insert(l);
    for (auto& gt : gp) if (gt.isDefined()) for (auto* k : gt.fwd) for (int l : lits(*k)) if (std::abs(l) != std::abs(I(gt.out))) { used.insert(l); if (gt.notMono) used.insert(-l); }
    for (size_t v = 0; v < p.nVars(); v++) {
        const Candy::Gate& gt = gp[Candy::Var(v)];
        if (!gt.isDefined()) continue;
        ngates++; if (!gt.notMono) nmono++;
        int o = I(gt.out); std::string nm = "gate " + std::to_string(o) + ": ";
        if (std::abs(o) != (int)v + 1) c.violation("gate-output", nm + "stored for variable " + std::to_string(v + 1));
        if (gt.fwd.empty()) c.violation("gate-empty", nm + "no defining clause");
        std::set<int> inputs; CNF cone;
        for (auto* k : gt.fwd) { place(k, "gate"); auto& q = orig[k]; if (!std::count(q.begin(), q.end(), -o)) c.violation("gate-fwd", nm + "forward clause without negated output: " + str(q)); Clause st; for (int l : q) if (l != -o) { inputs.insert(l); st.push_back(l); } cone.push_back(st); }
        for (auto* k : gt.bwd) { place(k, "gate"); auto& q = orig[k]; if (!std::count(q.begin(), q.end(), o)) c.violation("gate-bwd", nm + "backward clause without output: " + str(q)); Clause st; for (int l : q) if (l != o) st.push_back(l); cone.push_back(st); }
        for (auto* k : gt.fwd) for (auto* q : gt.bwd) { bool clash = false; for (int l : orig[k]) if (l != -o && std::count(orig[q].begin(), orig[q].end(), -l)) clash = true; if (!clash) c.violation("gate-not-blocked", nm + "clauses " + str(orig[k]) + " and " + str(orig[q]) + " have a non-tautological resolvent"); }
        std::set<int> got; for (auto l : gt.inp) got.insert(I(l));
        if (got != inputs) c.violation("gate-inputs", nm + "inputs do not match the forward clauses");
        for (int l : inputs) in[v + 1].insert(std::abs(l));
        c.count(gt.notMono ? "functional gates checked" : "monotonic gates checked"); c.count("gate clause pairs resolved", gt.fwd.size() * gt.bwd.size());
        if (gt.notMono) {
            CNF q = cone; if (method == 2 || method == 11) q.insert(q.end(), F.begin(), F.end());
            if (refSolve(q) == 1) c.violation("gate-not-functional", nm + "output is not determined by its inputs");
        } else {
            // a gate treated as monotonic must not be used in both polarities
            if (used.count(o) && used.count(-o)) c.violation("gate-monotonic", nm + "is treated as monotonic, but used in both polarities");
        }
    }
    for (auto& k : orig) if (!where.count(k.first) && !k.second.empty()) c.violation("clause-lost", "clause " + str(k.second) + " is neither root, gate nor remainder");
    if (gp.nGates() != ngates || gp.nMonotonGates() != nmono) c.violation("gate-count", "reported gate counts differ from the structure");
    // acyclic
    std::vector<int> st(p.nVars() + 1, 0);
    std::function<void(int)> dfs = [&](int v) { st[v] = 1; for (int w : in[v]) { if (st[w] == 1) c.violation("gate-cycle", "cyclic definition through variable " + std::to_string(w)); if (!st[w]) dfs(w); } st[v] = 2; };
    for (int v = 1; v <= (int)p.nVars(); v++) if (!st[v]) dfs(v);
    // merging the roots keeps the formula and adds one gate over a fresh variable
    if (R.chance(50) && !before.count({})) {
        size_t rem = gp.remainder.size(), rts = gp.roots.size();
        gp.normalizeRoots();
        std::multiset<Clause> after; for (auto* k : p) after.insert(lits(*k));
        if (after != before) c.violation("clause-modified", "merging the roots modified the formula");
        if (gp.roots.size() != 1 || gp.roots[0]->size() != 1) c.violation("roots-not-merged", "more than one root after merging the roots");
        auto& gt = gp.getGate(gp.getRoot());
        if (!gt.isDefined() || gt.fwd.size() != rem + rts) c.violation("roots-not-merged", "the merged root does not carry all root and remaining clauses");
        c.count("root merges checked");
    }
    c.count("formulas analyzed"); c.count("gates found", ngates); c.count("kind " + g.kind); c.maxi("gates in one formula", ngates); c.count("method " + std::to_string(method));
    if (ngates > 0) c.nontrivial(std::to_string(method) + " " + std::to_string(tries) + str(f));
}

// ---- CNF to AIG
static void aig(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f = structured(R, g, true); int method = METHODS[R.below(5)], tries = R.pick(std::vector<int>{1, 1, 2, 5});
    bool badInput = R.chance(2);
    c.describe("method " + std::to_string(method) + " tries " + std::to_string(tries) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    setOption("-gate-recognition-method=" + std::to_string(method)); setOption("-gate-tries=" + std::to_string(tries));
    std::string base = c.scratch + "/aig." + std::to_string(getpid()), fi = base + ".cnf", fo = base + ".aag";
    { std::ofstream os(fi); os << "p cnf " << maxVar(f) << " " << f.size() << "\n" << str(f); if (badInput) os << "1 2 x 0\n"; }
    // the command-line tool (VF_CNF2AIG; default settings only) or its library calls
    const char* tool = getenv("VF_CNF2AIG"); bool viaTool = tool && (f.empty() || std::count(f.begin(), f.end(), Clause()) || badInput || R.chance(40));
    if (!tool && (f.empty() || std::count(f.begin(), f.end(), Clause()) || badInput)) return;
    { Candy::CNFProblem q; feed(q, f); if (q.nClauses() == 0 && !viaTool) return; }
    c.count(viaTool ? "conversions by the command-line tool" : "conversions by the library");
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        if (!freopen(fo.c_str(), "w", stdout)) _exit(98);
        if (viaTool) { setenv("ASAN_OPTIONS", "detect_leaks=0", 1); execl(tool, tool, fi.c_str(), (char*)nullptr); _exit(97); }
        std::cout.rdbuf(std::cerr.rdbuf());
        Candy::CNFProblem q; q.readDimacsFromFile(fi.c_str());
        Candy::GateAnalyzer an { q }; an.analyze(); an.getGateProblem().normalizeRoots();
        Candy::AIGProblem ag(an.getGateProblem()); ag.createAIG(); ag.printAIG(stdout);
        fflush(stdout); _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    std::string text = slurp(fo, 1 << 24); unlink(fi.c_str()); unlink(fo.c_str());
    if (!WIFEXITED(st)) c.violation("aig-crash", "the converter ended with signal " + std::to_string(WTERMSIG(st)) + " " + slurp("/proc/self/fd/2", 3000));
    if (badInput) { if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) c.violation("aig-bad-input", "the converter reports success for a malformed file"); c.count("malformed inputs refused"); return; }
    if (WEXITSTATUS(st) != 0) c.violation("aig-crash", "the converter ended with status " + std::to_string(WEXITSTATUS(st)) + " " + slurp("/proc/self/fd/2", 3000));
    std::istringstream is(text); std::string tag; long M, In, La, Ou, An;
    if (!(is >> tag >> M >> In >> La >> Ou >> An) || tag != "aag" || La != 0 || Ou != 1 || M < In + An) c.violation("aig-syntax", "bad header: " + text.substr(0, 80));
    std::map<long, int> def; std::vector<long> ins; long out; struct A { long l, r; }; std::map<long, A> ands; std::vector<long> uses;
    for (long i = 0; i < In; i++) { long x; if (!(is >> x) || x < 2 || (x & 1) || x > 2 * M) c.violation("aig-syntax", "bad input literal " + std::to_string(x)); if (def[x / 2]++) c.violation("aig-redefined", "variable " + std::to_string(x / 2) + " is defined twice"); ins.push_back(x / 2); }
    if (!(is >> out) || out < 0 || out > 2 * M + 1) c.violation("aig-syntax", "bad output literal");
    uses.push_back(out / 2);
    for (long i = 0; i < An; i++) { long o, l, r; if (!(is >> o >> l >> r) || o < 2 || (o & 1) || o > 2 * M || l < 0 || r < 0 || l > 2 * M + 1 || r > 2 * M + 1) c.violation("aig-syntax", "bad and gate " + std::to_string(i)); if (def[o / 2]++) c.violation("aig-redefined", "variable " + std::to_string(o / 2) + " is defined twice"); ands[o / 2] = {l, r}; uses.push_back(l / 2); uses.push_back(r / 2); }
    std::string junk; if (is >> junk) c.violation("aig-syntax", "unexpected trailing text: " + junk);
    for (long u : uses) if (u && !def.count(u)) c.violation("aig-undefined", "variable " + std::to_string(u) + " is used, but never defined");
    // topological order
    std::vector<long> order; std::map<long, int> state;
    std::function<void(long)> visit = [&](long v) { if (!ands.count(v) || state[v] == 2) return; if (state[v] == 1) c.violation("aig-cycle", "cyclic definition of " + std::to_string(v)); state[v] = 1; visit(ands[v].l / 2); visit(ands[v].r / 2); state[v] = 2; order.push_back(v); };
    for (auto& a : ands) visit(a.first);
    int nv = maxVar(f); for (long v : ins) if (v > nv) c.violation("aig-input", "input " + std::to_string(v) + " is no variable of the formula");
    auto eval = [&](const std::map<long, int>& a) { std::map<long, int> val = a; val[0] = 0; auto lv = [&](long l) { return val[l / 2] ^ (int)(l & 1); }; for (long v : order) val[v] = lv(ands[v].l) & lv(ands[v].r); return lv(out); };
    auto check = [&](const std::map<long, int>& a) {
        Clause as; for (auto& x : a) as.push_back(x.second ? (int)x.first : -(int)x.first);
        int want = refSolve(f, as, 200000); if (want < 0) return;
        int got = eval(a);
        if (got != want) c.violation(want ? "aig-lost-model" : "aig-wrong-model", "input " + str(as) + ": the circuit evaluates to " + std::to_string(got) + ", but the formula is " + (want ? "satisfiable" : "unsatisfiable") + " under it");
        c.count(want ? "satisfying inputs evaluated" : "falsifying inputs evaluated"); };
    if (ins.size() <= 6) { for (int m = 0; m < (1 << ins.size()); m++) { std::map<long, int> a; for (size_t i = 0; i < ins.size(); i++) a[ins[i]] = m >> i & 1; check(a); } c.count("circuits evaluated exhaustively"); }
    else {
        for (int t = 0; t < 24; t++) { std::map<long, int> a; for (long v : ins) a[v] = R.coin(); check(a); }
        for (int t = 0; t < 4; t++) { Clause as; for (long v : ins) if (R.chance(30)) as.push_back(R.coin() ? (int)v : -(int)v); Ref r; r.addAll(f); int s = r.solve(as, 100000); if (s != 1) continue; std::map<long, int> a; for (long v : ins) a[v] = v < (long)r.model.size() && r.model[v]; check(a); }
    }
    c.count("circuits checked"); c.count("and gates", (uint64_t)An); c.maxi("and gates in one circuit", (uint64_t)An); c.count("kind " + g.kind);
    if (An > 1) c.nontrivial(std::to_string(method) + str(f));
}

// ---- model minimization
static void minimize(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f; bool pruned = R.chance(40), minimal = R.chance(40), project = R.chance(30);
    if (R.chance(50)) f = structured(R, g, true);
    else { int n = R.range(2, R.chance(60) ? 10 : 40); f = R.coin() ? g.planted(n, R.range(1, 3 * n), 3) : g.mixedSat(n, R.range(1, 2 * n)); g.kind = "random"; g.disguise(f, true); }
    if (R.chance(12)) { // many small independent parts: a large model with a known size of its parts
        f.clear(); int parts = R.range(4, 24), base = 0; for (int i = 0; i < parts; i++) { int n = R.range(2, 6); CNF h = R.coin() ? g.planted(n, R.range(1, 2 * n), 3) : g.mixedSat(n, R.range(1, 2 * n)); for (auto k : h) { for (int& l : k) l += l > 0 ? base : -base; f.push_back(k); } base += n; } R.shuffle(f); g.kind = "parts"; minimal = R.chance(85); }
    int method = METHODS[R.below(5)], tries = R.pick(std::vector<int>{1, 1, 2, 5}); Cfg cfg = anyCfg(R, false);
    c.describe("config: " + str(cfg) + " pruned " + std::to_string(pruned) + " minimal " + std::to_string(minimal) + " project " + std::to_string(project) + " method " + std::to_string(method) + " tries " + std::to_string(tries) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    setOption("-gate-recognition-method=" + std::to_string(method)); setOption("-gate-tries=" + std::to_string(tries)); apply(cfg);
    Candy::CNFProblem p; feed(p, f);
    std::unique_ptr<Candy::CandySolverInterface> s(make()); s->init(p);
    if (s->solve() != l_True) { c.count("unsatisfiable formulas skipped"); return; }
    std::unique_ptr<Candy::Minimizer> mzp; bool shrunk = false;
    for (int turn = 0, turns = R.chance(35) ? R.range(2, 3) : 1; turn < turns; turn++) {
    int how = turn == 0 ? 0 : R.range(1, 3);
    if (turn > 0) { pruned = R.chance(40), minimal = R.chance(40), project = R.chance(30); c.count("repeated minimizations"); }
    if (how == 3) { // more clauses, another solve of the same instance
        Candy::CNFProblem more; CNF add = g.mixedSat(std::max(2, maxVar(f)), R.range(1, 3)); for (auto& k : add) f.push_back(k); feed(more, add); feed(p, add); s->init(more);
        c.describe("config: " + str(cfg) + " turn " + std::to_string(turn) + " pruned " + std::to_string(pruned) + " minimal " + std::to_string(minimal) + " project " + std::to_string(project) + " method " + std::to_string(method) + " tries " + std::to_string(tries) + "\nkind: " + g.kind + " (last " + std::to_string(add.size()) + " clauses added)\ncnf:\n" + str(f));
        if (s->solve() != l_True) break; }
    auto& res = s->getCandySolverResult();
    std::set<int> model; for (auto l : res.getModelLiterals()) model.insert(I(l));
    if (how != 1) mzp.reset(new Candy::Minimizer(p, res));
    mzp->mimimizeModel(pruned, minimal, project);
    std::set<int> S; for (auto l : res.getMinimizedModelLiterals()) S.insert(I(l));
    for (int l : S) if (!model.count(l)) c.violation("min-not-subset", "literal " + std::to_string(l) + " of the minimized model is not in the model");
    std::set<int> now; for (auto l : res.getModelLiterals()) now.insert(I(l));
    if (now != model) c.violation("min-changes-model", "minimization changed the model itself");
    std::set<int> outputs;
    if (pruned || project) { Candy::GateAnalyzer an(p); an.analyze(); for (auto& gt : an.getResult()) if (gt.isDefined()) outputs.insert(std::abs(I(gt.out))); }
    if (!pruned && !project) {
        for (auto& k : f) { if (tautology(k)) continue; bool hit = false; for (int l : k) hit |= S.count(l) > 0; if (!hit) c.violation("min-not-satisfying", "the minimized model does not satisfy clause " + str(k)); }
        for (int x : S) { bool need = false; for (auto& k : f) { if (tautology(k)) continue; int hits = 0; bool me = false; std::set<int> kk(k.begin(), k.end()); for (int l : kk) if (S.count(l)) { hits++; me |= l == x; } if (me && hits == 1) need = true; } if (!need) c.violation("min-not-minimal", "literal " + std::to_string(x) + " of the minimized model is redundant"); }
        c.count("subset-minimal models checked");
        if (minimal && model.size() <= 14) { // the smallest subset of the model that satisfies everything
            std::vector<int> m(model.begin(), model.end()); size_t best = m.size();
            std::map<int, int> id; for (size_t i = 0; i < m.size(); i++) id[m[i]] = (int)i;
            std::vector<int> need; for (auto& k : f) { if (tautology(k)) continue; int b = 0; for (int l : k) if (id.count(l)) b |= 1 << id[l]; need.push_back(b); }
            for (int b = 0; b < (1 << m.size()); b++) { if ((size_t)__builtin_popcount(b) >= best) continue; bool ok = true; for (int q : need) if (!(q & b)) { ok = false; break; } if (ok) best = (size_t)__builtin_popcount(b); }
            if (S.size() != best) c.violation("min-not-minimum", "the minimal model has " + std::to_string(S.size()) + " literals, but " + std::to_string(best) + " suffice");
            c.count("minimum models checked");
        }
        else if (minimal) { // is there a smaller one? counting constraint (sequential counter) over the literals of the model, for the reference solver
            std::map<int, int> id; int nv = 0; CNF q; for (int l : model) id[l] = ++nv; int m = nv, k = (int)S.size() - 1;
            for (auto& cl : f) { if (tautology(cl)) continue; Clause h; for (int l : cl) if (id.count(l)) h.push_back(id[l]); q.push_back(h); }
            std::vector<std::vector<int>> r(m + 1, std::vector<int>(k + 2, 0)); for (int i = 1; i <= m; i++) for (int j = 1; j <= k; j++) r[i][j] = ++nv;
            for (int i = 1; i <= m; i++) { if (k == 0) { q.push_back({-i}); continue; } q.push_back({-i, r[i][1]}); if (i > 1) { for (int j = 1; j <= k; j++) q.push_back({-r[i - 1][j], r[i][j]}); for (int j = 2; j <= k; j++) q.push_back({-i, -r[i - 1][j - 1], r[i][j]}); q.push_back({-i, -r[i - 1][k]}); } }
            int t = (size_t)m * (size_t)(k + 1) > 20000 ? -1 : refSolve(q, {}, 20000);
            if (t == 1) c.violation("min-not-minimum", "the minimal model has " + std::to_string(S.size()) + " literals, but " + std::to_string(k) + " suffice");
            if (t == 0) { c.count("minimum models proved by counting"); c.maxi("literals of a proved minimum model", S.size()); } else c.count("minimum models not decided");
        }
    }
    if (project) for (int l : S) if (outputs.count(std::abs(l))) c.violation("min-projection", "the projected model contains gate output " + std::to_string(l));
    // every assignment of the inputs that agrees with the minimized model extends to a model
    int n = maxVar(f);
    for (int t = 0; t < 6; t++) {
        Clause as(S.begin(), S.end());
        for (int v = 1; v <= n; v++) if (!S.count(v) && !S.count(-v) && !outputs.count(v)) as.push_back(t == 0 ? -v : t == 1 ? v : R.coin() ? v : -v);
        int r = refSolve(f, as, 200000);
        if (r == 0) c.violation("min-dont-care", "the assignment " + str(as) + " agrees with the minimized model, but does not extend to a model");
        c.count("extensions of minimized models checked");
    }
    c.count("models minimized"); c.count("literals dropped", model.size() - S.size());
    c.count(std::string("flags") + (pruned ? " pruned" : "") + (minimal ? " minimal" : "") + (project ? " project" : ""));
    shrunk |= S.size() < model.size();
    }
    if (shrunk) c.nontrivial(str(cfg) + std::to_string(pruned * 4 + minimal * 2 + project) + str(f));
}

// ---- analyses, circuits and minimizers give everything back
#if defined(__SANITIZE_ADDRESS__)
static void release(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f = structured(R, g, true); int method = METHODS[R.below(5)], tries = R.pick(std::vector<int>{1, 1, 2, 5}), what = R.range(0, 2); bool norm = R.coin(), a = R.coin(), b = R.coin(), d = R.coin(); Cfg cfg = anyCfg(R, false);
    c.describe("what " + std::to_string(what) + " config: " + str(cfg) + " method " + std::to_string(method) + " tries " + std::to_string(tries) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    setOption("-gate-recognition-method=" + std::to_string(method)); setOption("-gate-tries=" + std::to_string(tries)); apply(cfg); bool pre = Candy::SolverOptions::opt_preprocessing, srt = Candy::SolverOptions::opt_sort_variables;
    FILE* sink = fopen("/dev/null", "w"); size_t gates = 0;
    if (what == 2) { Candy::CNFProblem p; feed(p, f); std::unique_ptr<Candy::CandySolverInterface> s(make()); s->init(p); if (s->solve() != l_True) what = 0; }
    { Candy::CNFProblem p; feed(p, f); if (p.nClauses() == 0) return; for (auto* k : p) if (k->size() == 0) what = 0; }
    keepsNothing(c, what == 0 ? "gate analyses dropped" : what == 1 ? "circuits dropped" : "minimizers dropped", [&]() {
        Candy::SolverOptions::opt_preprocessing = pre; Candy::SolverOptions::opt_sort_variables = srt;
        Candy::CNFProblem p; feed(p, f);
        if (what == 2) { std::unique_ptr<Candy::CandySolverInterface> s(make()); s->init(p); if (s->solve() != l_True) return; auto& r = s->getCandySolverResult(); Candy::Minimizer m(p, r); m.mimimizeModel(a, b, d); if (norm) m.mimimizeModel(d, a, b); return; }
        Candy::GateAnalyzer an(p, (Candy::GateRecognitionMethod)method, tries, -1); an.analyze(); gates = an.getResult().nGates(); if (what == 1 || norm) an.getGateProblem().normalizeRoots();
        if (what == 1) { Candy::AIGProblem ag(an.getGateProblem()); ag.createAIG(); ag.printAIG(sink); fflush(sink); }
    });
    fclose(sink); c.distinct("kinds of released analyses", std::to_string(what) + g.kind + std::to_string(method)); c.nontrivial(std::to_string(what * 100 + method) + str(cfg) + str(f));
}
#endif

} // namespace vf
using namespace vf;
int main(int argc, char** argv) {
    vf::Runner r;
    r.modes["gates"] = vf::gates;
    r.modes["aig"] = vf::aig;
    r.modes["minimize"] = vf::minimize;
#if defined(__SANITIZE_ADDRESS__)
    r.modes["release"] = vf::release;
#endif
    return r.main(argc, argv);
}
