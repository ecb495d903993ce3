// Monitors of the built-in proof checker: every verdict is compared with a naive DRAT checker written here.
#include "candyapi.h"
#include "candy/core/DRATChecker.h"
#include "candy/utils/Exceptions.h"
#include <zlib.h>
using namespace vf;

// Naive checker: no watches, no incremental state; unit propagation from scratch for every test.
struct Naive {
    std::vector<std::vector<int>> db; // sorted, unique; tautologies stay out of the propagation but in the list
    bool empty = false;               // empty clause or two contradicting units are in the database
    static std::vector<int> norm(Clause c) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); return c; }
    void add(const Clause& c0) {
        auto c = norm(c0); db.push_back(c);
        if (c.empty()) empty = true;
        if (c.size() == 1) for (auto& d : db) if (d.size() == 1 && d[0] == -c[0]) empty = true;
    }
    // unit propagation refutes db and the negated literals
    bool refutes(const std::vector<int>& neg) const {
        std::map<int, bool> v; auto val = [&](int l) { auto it = v.find(std::abs(l)); return it == v.end() ? 0 : (it->second == (l > 0) ? 1 : -1); };
        for (int l : neg) { if (val(l) == 1) return true; v[std::abs(l)] = l < 0; }
        for (bool ch = true; ch;) {
            ch = false;
            for (auto& c : db) {
                int un = 0, free = 0; bool sat = false;
                for (int l : c) { int x = val(l); if (x == 1) { sat = true; break; } if (x == 0) { un++; free = l; } }
                if (sat) continue;
                if (un == 0) return true;
                if (un == 1) { v[std::abs(free)] = free > 0; ch = true; }
            }
        }
        return false;
    }
    bool rat(const Clause& c, int p) const {
        for (auto& d : db) {
            if (std::find(d.begin(), d.end(), -p) == d.end()) continue;
            std::vector<int> n(c.begin(), c.end()); for (int l : d) if (l != -p) n.push_back(l);
            if (!refutes(n)) return false;
        }
        return true;
    }
    bool del(const Clause& c0) {
        auto c = norm(c0); if (c.size() < 2) return false;      // deletions of units are ignored
        for (size_t i = 0; i < db.size(); i++) if (db[i] == c) { db.erase(db.begin() + i); return true; }
        return false;
    }
};

struct Step { bool del; Clause c; };
static std::string text(const std::vector<Step>& p) { std::string s; for (auto& x : p) s += (x.del ? "d " : "") + str(x.c) + "\n"; return s; }

enum Verdict { ACCEPT, REJECT, OPEN };
struct Tally { int rup = 0, rat = 0, del = 0, ext = 0; };
static Verdict judge(const CNF& f, const std::vector<Step>& proof, Tally& t, std::string& why) {
    Naive n; for (auto& c : f) if (!tautology(c)) n.add(c);
    bool open = false, refuted = false;   // refuted: the database was refuted by propagation at some point; deletions after that may be ignored
    if (n.empty) return ACCEPT;
    int maxv = maxVar(f);
    for (size_t i = 0; i < proof.size(); i++) {
        const Clause& c = proof[i].c;
        if (!refuted && n.refutes({})) refuted = true;
        if (proof[i].del) { if (n.del(c)) t.del++; continue; }
        if (!n.empty) {
            for (int l : c) if (std::abs(l) > maxv) { maxv = std::abs(l); t.ext++; }
            if (tautology(c) || n.refutes(c)) t.rup++;
            else if (!c.empty() && n.rat(c, c[0])) t.rat++;
            else {
                bool any = false; for (int l : c) if (n.rat(c, l)) any = true;
                if (!any) { why = "step " + std::to_string(i) + " (" + str(c) + ") is neither RUP nor RAT on any literal"; return open || refuted ? OPEN : REJECT; }
                open = true;     // only valid on a literal that is not the first one: formats differ
            }
        }
        n.add(c);
    }
    if (open) return OPEN;
    if (!n.empty && refuted) return OPEN;
    if (n.empty) return ACCEPT;
    why = "no contradiction is derived";
    return n.refutes({}) ? OPEN : REJECT;
}

static bool release = false;     // watch what the checker keeps allocated
// 1 accepted, 0 rejected, -1 parser exception
static int candyCheck(Case& c, const CNF& f, const std::string& proofText, bool gz) {
    std::string file = c.scratch + "/p." + std::to_string(getpid());
    if (gz) { gzFile g = gzopen(file.c_str(), "wb"); gzwrite(g, proofText.data(), (unsigned)proofText.size()); gzclose(g); }
    else { std::ofstream o(file, std::ios::binary); o << proofText; }
    Candy::CNFProblem p; feed(p, f);
    int r;
#if defined(__SANITIZE_ADDRESS__)
    if (release) keepsNothing(c, "proof checkers used and dropped", [&]() { Candy::CNFProblem q; feed(q, f); try { Candy::DRATChecker ch(q); ch.check_proof(file.c_str()); } catch (Candy::ParserException&) { } });
#endif
    try { Candy::DRATChecker ch(p); r = ch.check_proof(file.c_str()) ? 1 : 0; }
    catch (Candy::ParserException&) { r = -1; }
    unlink(file.c_str());
    return r;
}

static void compare(Case& c, const CNF& f, const std::vector<Step>& proof, const std::string& txt, bool gz) {
    Tally t; std::string why;
    Verdict v = judge(f, proof, t, why);
    int r = candyCheck(c, f, txt, gz);
    c.count(std::string("oracle ") + (v == ACCEPT ? "accepts" : v == REJECT ? "rejects" : "leaves open")); c.count(std::string("checker ") + (r == 1 ? "accepts" : r == 0 ? "rejects" : "throws"));
    c.count("RUP steps", t.rup); c.count("RAT steps", t.rat); c.count("deletions", t.del); c.count("extension variables", t.ext);
    if (r == 1 && refSolve(f) == 1) c.violation("accepts-sat", "the checker accepts a proof of unsatisfiability for a satisfiable formula");
    if (r == -1) c.violation("throws", "the checker throws on a well-formed proof");
    if (v == REJECT && r == 1) c.violation("accepts-invalid", "the checker accepts an invalid proof: " + why);
    if (v == ACCEPT && r == 0) c.violation("rejects-valid", "the checker rejects a valid proof");
    if (v != OPEN && (t.rup + t.rat + t.del) > 0) c.nontrivial(str(f) + txt);
}

// random formulas with random steps: lemmas that often hold, deletions, extension variables, wrong steps
static void mSteps(Case& c) {
    Rng& R = c.R; Gen g(R);
    int n = R.range(2, 7); CNF f;
    int d = R.range(0, 9);
    if (d < 4) f = g.mixedSat(n, R.range(n, 4 * n)); else if (d < 6) f = g.ksat(n, R.range(3 * n, 7 * n), std::min(n, 3)); else if (d < 8) f = g.parity(n, n + R.range(0, 2), 3); else f = g.circuitCNF(R.range(2, 4), R.range(2, 6));
    if (R.chance(60)) g.disguise(f, true);
    n = std::max(1, maxVar(f));
    Naive nv; for (auto& k : f) if (!tautology(k)) nv.add(k);
    std::vector<Step> proof; int steps = R.range(1, 25), mv = n; bool allowBad = R.chance(35);
    for (int i = 0; i < steps; i++) {
        if (R.chance(30) && !nv.db.empty()) { // deletion of some clause, sometimes of an absent one
            Clause k = R.pick(nv.db); if (R.chance(10) && !k.empty()) k[R.below(k.size())] *= -1;
            R.shuffle(k); if (k.empty()) continue;
            if (R.chance(6)) k.push_back(R.pick(k));
            nv.del(k); proof.push_back({true, k}); continue;
        }
        if (R.chance(8)) { // definition of a new variable
            int x = ++mv, a = R.range(1, n) * (R.coin() ? 1 : -1), b = R.range(1, n) * (R.coin() ? 1 : -1); if (std::abs(a) == std::abs(b)) continue;
            for (Clause k : std::vector<Clause>{{x, -a, -b}, {-x, a}, {-x, b}}) { proof.push_back({false, k}); nv.add(k); }
            continue;
        }
        Clause best; bool have = false;
        for (int tries = 0; tries < 12 && !have; tries++) {
            Clause k = g.rclause(mv, R.range(R.chance(10) ? 0 : 1, 3));
            if (R.chance(25) && !nv.db.empty()) { k = R.pick(nv.db); if (!k.empty() && R.coin()) k.erase(k.begin() + (long)R.below(k.size())); if (R.chance(40)) { int l = R.range(1, mv); k.push_back(R.coin() ? l : -l); k = Naive::norm(k); } R.shuffle(k); }
            if (nv.refutes(k) || (!k.empty() && nv.rat(k, k[0]))) { best = k; have = true; }
            else if (allowBad && R.chance(4)) { best = k; have = true; }
        }
        if (!have) continue;
        if (!best.empty() && R.chance(5)) best.push_back(R.pick(best));
        proof.push_back({false, best}); nv.add(best);
        if (nv.empty && R.coin()) break;
    }
    if (R.chance(70)) proof.push_back({false, {}});
    c.describe("cnf:\n" + str(f) + "proof:\n" + text(proof));
    std::string txt;
    for (auto& s : proof) {
        if (R.chance(5)) txt += "c a comment line\n";
        if (R.chance(10)) txt += "  ";
        txt += (s.del ? (R.coin() ? "d " : "d  ") : "") + str(s.c) + (R.chance(5) ? " \n\n" : "\n");
    }
    if (R.chance(5) && !txt.empty() && txt.back() == '\n') txt.pop_back();
    compare(c, f, proof, txt, R.chance(20));
}

// certificates of the solver itself, untouched and mutated
static void mOwn(Case& c) {
    Rng& R = c.R; Gen g(R);
    CNF f; int d = R.range(0, 9);
    if (d < 4) { int n = R.range(4, 16); f = g.ksat(n, (int)(n * 5.5), 3); } else if (d < 6) { int h = R.range(2, 4); f = g.php(h, h + 1); } else if (d < 8) { int n = R.range(4, 12); f = g.parity(n, n + 2, 3); } else f = g.any(R.range(0, 1));
    if (R.coin()) g.disguise(f, true);
    Cfg cfg = anyCfg(R, false); Cfg k; for (auto& o : cfg) if (o != "-asymm") k.push_back(o); cfg = k;
    int mut = R.range(0, 6);
    c.describe("config: " + str(cfg) + "\nmutation: " + std::to_string(mut) + "\ncnf:\n" + str(f));
    std::string file = c.scratch + "/own." + std::to_string(getpid());
    apply(cfg); setOption("-certified-output=" + file);
    Candy::lbool r = l_Undef;
    { Candy::CNFProblem p; feed(p, f); std::unique_ptr<Candy::CandySolverInterface> s(make()); s->init(p); r = s->solve(); }
    setOption("-certified-output=");
    std::string txt = slurp(file, 1 << 22); unlink(file.c_str());
    if (r != l_False) { c.count("satisfiable: skipped"); return; }
    std::vector<Step> proof; std::istringstream is(txt); std::string line;
    while (std::getline(is, line)) {
        std::istringstream ls(line); std::string tok; Step s; s.del = false;
        while (ls >> tok) { if (tok == "d") s.del = true; else { int v = atoi(tok.c_str()); if (v == 0) break; s.c.push_back(v); } }
        proof.push_back(s);
    }
    if (proof.size() > 1500) { c.count("proof too long for the naive oracle"); return; }
    // untouched: must be accepted whatever the oracle thinks (the user relies on -test-proof)
    int own = candyCheck(c, f, txt, false);
    if (own != 1) c.violation("own-proof-rejected", "the checker does not accept the certificate the solver wrote\n" + txt.substr(0, 2000));
    c.count("own certificates accepted"); c.count("own certificate lines", proof.size());
    if (mut == 0 || proof.empty()) { c.nontrivial(str(cfg) + str(f)); return; }
    for (int i = 0; i < (mut == 6 ? 3 : 1); i++) {
        size_t j = R.below(proof.size());
        switch (mut) {
        case 1: case 6: proof.erase(proof.begin() + (long)j); break;
        case 2: if (!proof[j].c.empty()) { size_t q = R.below(proof[j].c.size()); proof[j].c[q] *= -1; } break;
        case 3: if (!proof[j].c.empty()) proof[j].c.erase(proof[j].c.begin() + (long)R.below(proof[j].c.size())); break;
        case 4: proof[j].del = !proof[j].del; break;
        case 5: std::swap(proof[j], proof[R.below(proof.size())]); break;
        }
        if (proof.empty()) break;
    }
    c.desc += "proof:\n" + text(proof);
    compare(c, f, proof, text(proof), R.chance(10));
}

// arbitrary bytes: never a crash, never an accepted proof for a satisfiable formula
static void mGarbage(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f = g.any(0);
    std::string t; int n = R.range(0, 60);
    for (int i = 0; i < n; i++) {
        int d = R.range(0, 12);
        if (d < 6) { int v = R.range(-12, 12); t += std::to_string(v) + " "; } else if (d < 8) t += "0\n"; else if (d < 9) t += "d "; else if (d < 10) t += "\n"; else if (d < 11) t += R.pick(std::vector<std::string>{"x", "--", "c ", "9999999999999999999 ", "-", "e1", "%", "d-1 "}); else t += (char)R.range(1, 126);
    }
    c.describe("cnf:\n" + str(f) + "proof bytes:\n" + t);
    int r = candyCheck(c, f, t, R.chance(20));
    c.count(std::string("garbage: checker ") + (r == 1 ? "accepts" : r == 0 ? "rejects" : "throws"));
    if (r == 1 && refSolve(f) == 1) c.violation("accepts-sat", "the checker accepts garbage for a satisfiable formula");
}

int main(int argc, char** argv) {
    Runner r; r.modes["steps"] = mSteps; r.modes["own"] = mOwn; r.modes["garbage"] = mGarbage;
#if defined(__SANITIZE_ADDRESS__)
    r.modes["release"] = [](Case& c) { release = true; if (c.R.chance(80)) mSteps(c); else mGarbage(c); };
#endif
    return r.main(argc, argv);
}
