// Shared machinery of the monitors: RNG, CNF generators, reference solver,
// independent DRAT checker and the fork-per-case runner.
// Nothing in this file uses code from the repository under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <csignal>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:handle_abort=1:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
extern "C" __attribute__((used)) const char* __tsan_default_options() { return "halt_on_error=1:exitcode=77:report_signal_unsafe=0:history_size=4"; }
extern "C" __attribute__((used)) const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
#endif
namespace vf {

typedef std::vector<int> Clause;          // DIMACS literals
typedef std::vector<Clause> CNF;

// ---------------------------------------------------------------- RNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool coin() { return next() & 1; }
    bool chance(int percent) { return (int)below(100) < percent; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
    return r.next();
}
inline uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// ---------------------------------------------------------------- CNF utilities
inline int maxVar(const CNF& f) {
    int m = 0;
    for (auto& c : f) for (int l : c) m = std::max(m, std::abs(l));
    return m;
}
inline std::string str(const Clause& c) {
    std::string s;
    for (int l : c) s += std::to_string(l) + " ";
    return s + "0";
}
inline std::string str(const CNF& f) {
    std::string s;
    for (auto& c : f) s += str(c) + "\n";
    return s;
}
inline bool tautology(const Clause& c) {
    std::set<int> s(c.begin(), c.end());
    for (int l : c) if (s.count(-l)) return true;
    return false;
}
// value: callback lit -> true if literal is true
template <class F> inline const Clause* falsified(const CNF& f, F litTrue) {
    for (auto& c : f) {
        bool ok = false;
        for (int l : c) if (litTrue(l)) { ok = true; break; }
        if (!ok) {
            if (tautology(c)) continue;
            return &c;
        }
    }
    return nullptr;
}

// ---------------------------------------------------------------- reference solver (plain CDCL)
// Its SAT answers carry a model that the caller verifies, so a "candy said UNSAT but a model
// exists" alarm never depends on the correctness of this solver.
class Ref {
    struct W { int c; };
    int n = 0;
    std::vector<std::vector<int>> cl;           // clauses as internal lits 2v / 2v+1
    std::vector<std::vector<int>> watch;
    std::vector<signed char> val;               // per var: 0 undef, 1 true, -1 false
    std::vector<int> level, reason, trail, lim;
    std::vector<double> act;
    std::vector<char> phase;
    double inc = 1;
    size_t qhead = 0;
    bool ok = true;
    int nv(int v) { while (n <= v) { n++; watch.emplace_back(); watch.emplace_back(); val.push_back(0); level.push_back(0); reason.push_back(-1); act.push_back(0); phase.push_back(0); } return v; }
    static int in(int l) { return l > 0 ? 2 * (l - 1) : 2 * (-l - 1) + 1; }
    int lv(int l) const { int x = val[l >> 1]; return (l & 1) ? -x : x; }
    void enq(int l, int r) { val[l >> 1] = (l & 1) ? -1 : 1; level[l >> 1] = (int)lim.size(); reason[l >> 1] = r; trail.push_back(l); }
    int propagate() {
        while (qhead < trail.size()) {
            int p = trail[qhead++], np = p ^ 1;
            auto& ws = watch[np];
            size_t i = 0, j = 0;
            for (; i < ws.size(); i++) {
                int ci = ws[i];
                auto& c = cl[ci];
                if (c[0] == np) std::swap(c[0], c[1]);
                if (lv(c[0]) == 1) { ws[j++] = ci; continue; }
                bool found = false;
                for (size_t k = 2; k < c.size(); k++) if (lv(c[k]) != -1) {
                    std::swap(c[1], c[k]); watch[c[1]].push_back(ci); found = true; break;
                }
                if (found) continue;
                ws[j++] = ci;
                if (lv(c[0]) == -1) { for (i++; i < ws.size(); i++) ws[j++] = ws[i]; ws.resize(j); return ci; }
                enq(c[0], ci);
            }
            ws.resize(j);
        }
        return -1;
    }
    void cancel(int lvl) {
        while ((int)lim.size() > lvl) {
            int b = lim.back(); lim.pop_back();
            while ((int)trail.size() > b) { int l = trail.back(); trail.pop_back(); phase[l >> 1] = !(l & 1); val[l >> 1] = 0; }
        }
        qhead = trail.size();
    }
public:
    uint64_t conflicts = 0;
    void add(const Clause& c0) {
        if (!ok) return;
        cancel(0);
        std::vector<int> c;
        for (int l : c0) { nv(std::abs(l) - 1); c.push_back(in(l)); }
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        std::vector<int> d;
        for (size_t i = 0; i < c.size(); i++) {
            if (i + 1 < c.size() && c[i + 1] == (c[i] ^ 1)) return;
            if (lv(c[i]) == 1) return;
            if (lv(c[i]) == 0) d.push_back(c[i]);
        }
        if (d.empty()) { ok = false; return; }
        if (d.size() == 1) { enq(d[0], -1); if (propagate() >= 0) ok = false; return; }
        cl.push_back(d);
        watch[d[0]].push_back((int)cl.size() - 1);
        watch[d[1]].push_back((int)cl.size() - 1);
    }
    void addAll(const CNF& f) { for (auto& c : f) add(c); }
    // 1 sat, 0 unsat, -1 gave up
    int solve(const std::vector<int>& assumptions = {}, uint64_t maxConfl = 2000000) {
        if (!ok) return 0;
        for (int a : assumptions) nv(std::abs(a) - 1);
        cancel(0);
        uint64_t start = conflicts, restartAt = conflicts + 64, rl = 64;
        for (;;) {
            int confl = propagate();
            if (confl >= 0) {
                conflicts++;
                if (lim.empty()) { ok = false; return 0; }
                std::vector<char> seen(n, 0);
                std::vector<int> learnt(1, 0);
                int cnt = 0, p = -1; size_t idx = trail.size();
                int r = confl;
                do {
                    for (int q : cl[r]) if (q != p && !seen[q >> 1] && level[q >> 1] > 0) {
                        seen[q >> 1] = 1; act[q >> 1] += inc;
                        if (level[q >> 1] == (int)lim.size()) cnt++; else learnt.push_back(q);
                    }
                    while (!seen[trail[--idx] >> 1]) ;
                    p = trail[idx]; r = reason[p >> 1]; cnt--;
                } while (cnt > 0);
                learnt[0] = p ^ 1;
                inc *= 1.05;
                if (inc > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; }
                int bt = 0; size_t mi = 1;
                for (size_t i = 1; i < learnt.size(); i++) if (level[learnt[i] >> 1] > bt) { bt = level[learnt[i] >> 1]; mi = i; }
                cancel(bt);
                if (learnt.size() == 1) { enq(learnt[0], -1); }
                else {
                    std::swap(learnt[1], learnt[mi]);
                    cl.push_back(learnt);
                    watch[learnt[0]].push_back((int)cl.size() - 1);
                    watch[learnt[1]].push_back((int)cl.size() - 1);
                    enq(learnt[0], (int)cl.size() - 1);
                }
                if (conflicts - start > maxConfl) { cancel(0); return -1; }
                continue;
            }
            if (conflicts >= restartAt) { rl = rl * 11 / 10 + 8; restartAt = conflicts + rl; cancel(0); continue; }
            int next = -1;
            while (lim.size() < assumptions.size()) {
                int a = in(assumptions[lim.size()]);
                if (lv(a) == 1) lim.push_back((int)trail.size());
                else if (lv(a) == -1) { cancel(0); return 0; }
                else { next = a; break; }
            }
            if (next < 0) {
                double best = -1;
                for (int v = 0; v < n; v++) if (!val[v] && act[v] > best) { best = act[v]; next = 2 * v + (phase[v] ? 0 : 1); }
                if (next < 0) { model.assign(n + 1, false); for (int v = 0; v < n; v++) model[v + 1] = val[v] == 1; cancel(0); return 1; }
            }
            lim.push_back((int)trail.size());
            enq(next, -1);
        }
    }
    std::vector<char> model;
};

// truth of F under assumptions; 1 sat (verified), 0 unsat, -1 unknown
inline int refSolve(const CNF& f, const std::vector<int>& as = {}, uint64_t maxConfl = 2000000) {
    Ref r; r.addAll(f);
    int v = r.solve(as, maxConfl);
    if (v == 1) {
        auto lt = [&](int l) { int x = std::abs(l); bool b = x < (int)r.model.size() && r.model[x]; return (l > 0) == b; };
        if (falsified(f, lt)) { fprintf(stderr, "HARNESS: reference model wrong\n"); _exit(99); }
        for (int a : as) if (!lt(a)) { fprintf(stderr, "HARNESS: reference ignores assumption\n"); _exit(99); }
    }
    return v;
}

// ---------------------------------------------------------------- independent DRAT checker
// Forward checking; every lemma must be RUP or RAT on its first literal. Deletions of clauses that
// are unit under the top-level assignment are ignored (drat-trim's operational semantics).
struct DratResult { bool valid = false; std::string why; size_t lemmas = 0, deletions = 0, rat = 0, unmatched = 0, ignoredUnit = 0; bool empty = false; };
class Drat {
    int n = 0;
    struct C { std::vector<int> l; bool dead = false; };
    std::vector<C> cl;
    std::vector<std::vector<int>> watch;     // by internal lit
    std::vector<signed char> val;
    std::vector<int> reason;
    std::vector<int> trail;
    size_t qhead = 0;
    bool contradiction = false;
    std::unordered_map<uint64_t, std::vector<int>> index;
    static int in(int l) { return l > 0 ? 2 * l : 2 * -l + 1; }
    void grow(int v) { while (n <= v) { n++; watch.emplace_back(); watch.emplace_back(); val.push_back(0); reason.push_back(-1); } }
    int lv(int l) const { int x = val[l >> 1]; return (l & 1) ? -x : x; }
    void enq(int l, int r) { val[l >> 1] = (l & 1) ? -1 : 1; reason[l >> 1] = r; trail.push_back(l); }
    static uint64_t key(std::vector<int> c) { std::sort(c.begin(), c.end()); uint64_t h = 88172645463325252ull; for (int l : c) h = mix(h, (uint64_t)l); return h; }
    bool propagate() { // true if conflict
        while (qhead < trail.size()) {
            int np = trail[qhead++] ^ 1;
            auto& ws = watch[np]; size_t i = 0, j = 0;
            for (; i < ws.size(); i++) {
                int ci = ws[i]; if (cl[ci].dead) continue;
                auto& c = cl[ci].l;
                if (c[0] == np) std::swap(c[0], c[1]);
                if (lv(c[0]) == 1) { ws[j++] = ci; continue; }
                bool found = false;
                for (size_t k = 2; k < c.size(); k++) if (lv(c[k]) != -1) { std::swap(c[1], c[k]); watch[c[1]].push_back(ci); found = true; break; }
                if (found) continue;
                ws[j++] = ci;
                if (lv(c[0]) == -1) { for (i++; i < ws.size(); i++) ws[j++] = ws[i]; ws.resize(j); return true; }
                enq(c[0], ci);
            }
            ws.resize(j);
        }
        return false;
    }
    void undo(size_t to) { while (trail.size() > to) { val[trail.back() >> 1] = 0; trail.pop_back(); } qhead = to; }
    void insert(const std::vector<int>& c0) {
        std::vector<int> c = c0;
        std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
        for (int l : c) grow(l >> 1);
        for (size_t i = 0; i + 1 < c.size(); i++) if (c[i + 1] == (c[i] ^ 1)) { return; }
        int id = (int)cl.size();
        cl.emplace_back(); 
        // put two non-false literals first
        std::stable_partition(c.begin(), c.end(), [&](int l) { return lv(l) != -1; });
        cl[id].l = c;
        index[key(c)].push_back(id);
        if (contradiction) return;
        if (c.empty()) { contradiction = true; return; }
        if (c.size() >= 2) { watch[c[0]].push_back(id); watch[c[1]].push_back(id); }
        if (lv(c[0]) == -1) { contradiction = true; return; }
        if (lv(c[0]) == 0 && (c.size() == 1 || lv(c[1]) == -1)) { enq(c[0], id); if (propagate()) contradiction = true; }
    }
    bool rup(const std::vector<int>& c, const std::vector<int>* extra, int pivot) {
        size_t start = trail.size();
        bool conf = false;
        auto assume = [&](int l) { grow(l >> 1); if (lv(l) == 1) conf = true; else if (lv(l) == 0) enq(l ^ 1, -1); };
        for (int l : c) { assume(l); if (conf) break; }
        if (!conf && extra) for (int l : *extra) { if (l == (pivot ^ 1)) continue; assume(l); if (conf) break; }
        if (!conf) conf = propagate();
        undo(start);
        return conf;
    }
public:
    explicit Drat(const CNF& f) { for (auto& c : f) { std::vector<int> d; for (int l : c) d.push_back(in(l)); insert(d); } }
    DratResult check(std::istream& is) {
        DratResult r; std::string line;
        if (contradiction) { r.valid = true; r.why = "trivially unsat"; }
        size_t ln = 0;
        while (std::getline(is, line)) {
            ln++;
            std::istringstream ls(line); std::string tok; bool del = false; std::vector<int> c; bool term = false;
            while (ls >> tok) {
                if (tok == "d") { del = true; continue; }
                char* e; long v = strtol(tok.c_str(), &e, 10);
                if (*e) { r.valid = false; r.why = "syntax error in line " + std::to_string(ln) + ": " + line; return r; }
                if (v == 0) { term = true; break; }
                c.push_back(in((int)v));
            }
            if (!term) { if (line.empty()) continue; r.valid = false; r.why = "unterminated line " + std::to_string(ln) + ": " + line; return r; }
            for (int l : c) grow(l >> 1);
            if (del) {
                r.deletions++;
                std::vector<int> s = c; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
                auto it = index.find(key(s)); bool done = false;
                if (it != index.end()) for (size_t i = 0; i < it->second.size() && !done; i++) {
                    int id = it->second[i]; std::vector<int> t = cl[id].l; std::sort(t.begin(), t.end());
                    if (t != s || cl[id].dead) continue;
                    done = true;
                    bool isReason = !t.empty() && std::any_of(t.begin(), t.end(), [&](int l) { return lv(l) == 1 && reason[l >> 1] == id; });
                    if (isReason) { r.ignoredUnit++; break; }
                    cl[id].dead = true; it->second.erase(it->second.begin() + i);
                }
                if (!done) r.unmatched++;
                continue;
            }
            r.lemmas++;
            if (contradiction) { r.valid = true; if (c.empty()) { r.empty = true; return r; } continue; }
            bool okc = rup(c, nullptr, 0);
            if (!okc && !c.empty()) {
                int p = c[0]; bool all = true;
                for (size_t id = 0; id < cl.size() && all; id++) {
                    if (cl[id].dead) continue;
                    bool has = false; for (int l : cl[id].l) if (l == (p ^ 1)) has = true;
                    if (!has) continue;
                    std::vector<int> copy = cl[id].l;
                    if (!rup(c, &copy, p)) all = false;
                }
                if (all) { okc = true; r.rat++; }
            }
            if (!okc) { r.valid = false; r.why = "lemma in line " + std::to_string(ln) + " is neither RUP nor RAT: " + line; return r; }
            insert(c);
            if (c.empty()) { r.empty = true; r.valid = true; return r; }
            if (contradiction) r.valid = true;
        }
        if (!r.valid && r.why.empty()) r.why = "proof ends without deriving the empty clause";
        return r;
    }
};

// ---------------------------------------------------------------- generators
struct Gen {
    Rng& R;
    explicit Gen(Rng& r) : R(r) {}
    std::string kind;

    Clause rclause(int n, int k) {
        Clause c; std::set<int> vs;
        k = std::min(k, n);
        while ((int)vs.size() < k) vs.insert(R.range(1, n));
        for (int v : vs) c.push_back(R.coin() ? v : -v);
        R.shuffle(c);
        return c;
    }
    CNF ksat(int n, int m, int k) { CNF f; for (int i = 0; i < m; i++) f.push_back(rclause(n, k)); return f; }
    CNF mixedSat(int n, int m) {
        CNF f;
        for (int i = 0; i < m; i++) { int d = R.range(0, 99); f.push_back(rclause(n, d < 4 ? 1 : d < 35 ? 2 : d < 80 ? 3 : R.range(3, 7))); }
        return f;
    }
    std::vector<char> hidden;   // of the last planted formula
    CNF planted(int n, int m, int k) {
        hidden.clear(); std::vector<char> a(n + 1); for (int i = 1; i <= n; i++) a[i] = R.coin();
        CNF f;
        while ((int)f.size() < m) {
            Clause c = rclause(n, k); bool sat = false;
            for (int l : c) if ((l > 0) == (bool)a[std::abs(l)]) sat = true;
            if (!sat) { int j = (int)R.below(c.size()); c[j] = -c[j]; }
            f.push_back(c);
        }
        hidden = a; return f;
    }
    CNF php(int holes, int pigeons) {
        CNF f; auto v = [&](int p, int h) { return p * holes + h + 1; };
        for (int p = 0; p < pigeons; p++) { Clause c; for (int h = 0; h < holes; h++) c.push_back(v(p, h)); f.push_back(c); }
        for (int h = 0; h < holes; h++) for (int p = 0; p < pigeons; p++) for (int q = 0; q < p; q++) f.push_back({-v(p, h), -v(q, h)});
        return f;
    }
    void xorClause(CNF& f, const std::vector<int>& x, bool rhs) {
        int k = (int)x.size();
        for (int m = 0; m < (1 << k); m++) {
            if ((__builtin_popcount(m) & 1) == (rhs ? 1 : 0)) continue;  // m = falsified assignment bits
            Clause c; for (int i = 0; i < k; i++) c.push_back((m >> i & 1) ? -x[i] : x[i]);
            f.push_back(c);
        }
    }
    CNF parity(int n, int eqs, int k) {
        CNF f;
        for (int i = 0; i < eqs; i++) {
            std::set<int> s; while ((int)s.size() < std::min(k, n)) s.insert(R.range(1, n));
            xorClause(f, std::vector<int>(s.begin(), s.end()), R.coin());
        }
        return f;
    }
    // random circuit in Tseitin encoding; gate outputs asserted by roots
    struct Circuit { int inputs = 0; std::vector<int> outs; CNF cnf; int vars = 0; std::vector<std::vector<int>> gates; std::vector<int> types; };
    // types: 0 and, 1 or, 2 xor, 3 ite, 4 eq(buffer), 5 wide and, 6 maj
    void gateClauses(CNF& f, int type, int o, const std::vector<int>& in) {
        switch (type) {
        case 0: case 5: { Clause c{o}; for (int l : in) { f.push_back({-o, l}); c.push_back(-l); } f.push_back(c); break; }
        case 1: { Clause c{-o}; for (int l : in) { f.push_back({o, -l}); c.push_back(l); } f.push_back(c); break; }
        case 2: { std::vector<int> x = in; x.push_back(o); xorLits(f, x, false); break; }
        case 3: f.push_back({-o, -in[0], in[1]}); f.push_back({-o, in[0], in[2]}); f.push_back({o, -in[0], -in[1]}); f.push_back({o, in[0], -in[2]}); break;
        case 4: f.push_back({-o, in[0]}); f.push_back({o, -in[0]}); break;
        case 6: for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { f.push_back({-o, in[i], in[j]}); f.push_back({o, -in[i], -in[j]}); } break;
        }
    }
    void xorLits(CNF& f, const std::vector<int>& x, bool rhs) {
        int k = (int)x.size();
        for (int m = 0; m < (1 << k); m++) {
            if ((__builtin_popcount(m) & 1) == (rhs ? 1 : 0)) continue;
            Clause c; for (int i = 0; i < k; i++) c.push_back((m >> i & 1) ? -x[i] : x[i]);
            f.push_back(c);
        }
    }
    Circuit circuit(int inputs, int gates, bool wide = false) {
        Circuit c; c.inputs = inputs; int v = inputs;
        for (int g = 0; g < gates; g++) {
            int o = ++v; int t = R.range(0, wide ? 6 : 4);
            int ar = t == 3 || t == 6 ? 3 : t == 4 ? 1 : t == 5 ? R.range(3, 6) : t == 2 ? 2 : R.range(2, 3);
            std::vector<int> in; std::set<int> used;
            for (int i = 0; i < ar; i++) {
                int x, tries = 0;
                do { x = R.chance(60) ? R.range(std::max(1, o - 6), o - 1) : R.range(1, o - 1); } while (used.count(x) && ++tries < 20);
                if (used.count(x)) continue;
                used.insert(x); in.push_back(R.coin() ? x : -x);
            }
            if ((t == 3 || t == 6) && in.size() < 3) t = 0;
            if (in.size() == 1) t = 4;
            gateClauses(c.cnf, t, o, in);
            c.gates.push_back(in); c.types.push_back(t); c.outs.push_back(o);
        }
        c.vars = v;
        return c;
    }
    CNF circuitCNF(int inputs, int gates, bool wide = false) {
        Circuit c = circuit(inputs, gates, wide);
        int roots = R.range(1, 3);
        for (int i = 0; i < roots; i++) {
            if (R.chance(60)) c.cnf.push_back({R.coin() ? c.vars - (int)R.below(std::min(4, gates)) : -(c.vars - (int)R.below(std::min(4, gates)))});
            else { Clause k; for (int j = 0; j < R.range(2, 4); j++) { int o = R.pick(c.outs); k.push_back(R.coin() ? o : -o); } c.cnf.push_back(k); }
        }
        return c.cnf;
    }
    // miter of two structurally different implementations of the same function
    CNF miter(int bits, bool buggy) {
        CNF f; int v = 2 * bits; auto a = [&](int i) { return i + 1; }; auto b = [&](int i) { return bits + i + 1; };
        auto AND = [&](int x, int y) { int o = ++v; gateClauses(f, 0, o, {x, y}); return o; };
        auto OR = [&](int x, int y) { int o = ++v; gateClauses(f, 1, o, {x, y}); return o; };
        auto XOR = [&](int x, int y) { int o = ++v; gateClauses(f, 2, o, {x, y}); return o; };
        std::vector<int> s1, s2; int c1 = 0, c2 = 0;
        for (int i = 0; i < bits; i++) {
            int x = XOR(a(i), b(i));
            if (!c1) { s1.push_back(x); c1 = AND(a(i), b(i)); } else { s1.push_back(XOR(x, c1)); c1 = OR(AND(a(i), b(i)), AND(x, c1)); }
        }
        for (int i = 0; i < bits; i++) {
            int x = OR(AND(a(i), -b(i)), AND(-a(i), b(i)));
            if (!c2) { s2.push_back(x); c2 = AND(b(i), a(i)); }
            else {
                s2.push_back(OR(AND(x, -c2), AND(-x, c2)));
                int maj = OR(AND(a(i), b(i)), OR(AND(a(i), c2), AND(b(i), c2)));
                if (buggy && i == bits - 1) maj = OR(AND(a(i), b(i)), AND(a(i), c2));
                c2 = maj;
            }
        }
        s1.push_back(c1); s2.push_back(c2);
        Clause out; for (size_t i = 0; i < s1.size(); i++) out.push_back(XOR(s1[i], s2[i]));
        f.push_back(out);
        return f;
    }
    CNF chains(int n) { // equivalence / implication chains with units
        CNF f; for (int i = 1; i < n; i++) { int s = R.coin() ? 1 : -1; f.push_back({-i, s * (i + 1)}); if (R.chance(70)) f.push_back({i, -s * (i + 1)}); }
        int k = R.range(0, 4); for (int i = 0; i < k; i++) f.push_back(rclause(n, R.range(1, 3)));
        return f;
    }
    CNF amo(int groups, int size) {
        CNF f; int v = 0; std::vector<std::vector<int>> g;
        for (int i = 0; i < groups; i++) { std::vector<int> x; for (int j = 0; j < size; j++) x.push_back(++v); g.push_back(x); f.push_back(x); for (int j = 0; j < size; j++) for (int k = 0; k < j; k++) f.push_back({-x[j], -x[k]}); }
        int m = R.range(groups, groups * size);
        for (int i = 0; i < m; i++) { int p = (int)R.below(groups), q = (int)R.below(groups); if (p == q) continue; f.push_back({-R.pick(g[p]), -R.pick(g[q])}); }
        return f;
    }
    // wide clauses that share few pivots: conflicts between them are learnt as clauses with dozens to hundreds of literals
    CNF wide(int n, int m, int pivots) {
        CNF f; int lo = R.range(n / 3, n);
        for (int i = 0; i < m; i++) {
            std::set<int> vs; Clause c; int k = R.range(lo, n), np = R.chance(60) ? 1 : R.range(1, std::min(pivots, 3)), bad = R.chance(20) ? R.range(1, 5) : 0;
            while ((int)c.size() < np) { int v = R.range(1, pivots); if (vs.insert(v).second) c.push_back(R.coin() ? v : -v); }
            std::vector<int> x; for (int v = 1; v <= n; v++) x.push_back(pivots + v);
            R.shuffle(x); for (int j = 0; j < k; j++) c.push_back(R.chance(bad) ? -x[j] : x[j]);
            f.push_back(c);
        }
        // exclusions: without them the wide literals are pure
        int u = R.chance(15) ? R.range(0, n / 10) : R.range(n, 10 * n);
        for (int i = 0; i < u; i++) { int a = R.range(pivots + 1, pivots + n), b = R.range(pivots + 1, pivots + n); if (R.chance(5)) f.push_back({-a, R.range(1, pivots)}); else if (a != b) f.push_back({-a, -b}); }
        return f;
    }
    // disguise: duplicates, subsumed/strengthenable clauses, tautologies, repeated literals, gaps, renaming
    void disguise(CNF& f, bool dirty) {
        int n = maxVar(f); if (!n) return;
        size_t m = f.size();
        for (size_t i = 0; i < m; i++) {
            if (R.chance(3)) f.push_back(f[i]);
            if (R.chance(3)) { Clause c = f[i]; c.push_back(R.coin() ? R.range(1, n) : -R.range(1, n)); if (dirty || !tautology(c)) f.push_back(c); }
            if (R.chance(2) && f[i].size() > 1) { Clause c = f[i]; size_t j = R.below(c.size()); c[j] = -c[j]; f.push_back(c); }
            if (dirty && R.chance(3) && !f[i].empty()) { Clause c = f[i]; c.push_back(c[R.below(c.size())]); f[i] = c; }
            if (dirty && R.chance(1)) { int x = R.range(1, n); f.push_back({x, -x}); }
        }
        if (dirty && R.chance(8)) { int x = n + R.range(1, 4); Clause c{x, -x}; if (R.coin()) c.push_back(R.range(1, n)); R.shuffle(c); f.push_back(c); } // a variable that occurs in tautologies only
        if (dirty && R.chance(12)) { // clauses only implied by three others, from which search learns them anew: learnt clauses that subsume input clauses
            int x = n + 1, w = n + 2, pc = R.pick(std::vector<int>{5, 30, 80}); size_t m = f.size();
            for (size_t i = 0; i < m; i++) if (f[i].size() > 1 && R.chance(pc)) {
                if (R.coin()) { x = R.range(1, n + 6); w = R.range(1, n + 6); }
                Clause k = f[i], a{-x, w}, b{-x, -w};
                for (size_t j = 0; j < k.size(); j++) { int to = j == 0 ? 1 : j == 1 ? 2 : R.range(1, 3); if (to & 1) a.push_back(k[j]); if (to & 2) b.push_back(k[j]); }
                f[i].push_back(x); f.push_back(a); f.push_back(b);
            }
        }
        n = maxVar(f);
        if (R.chance(40)) { // permute names (possibly with gaps)
            int gap = R.chance(30) ? R.range(1, 12) : 0; std::vector<int> p; for (int i = 1; i <= n + gap; i++) p.push_back(i); R.shuffle(p);
            std::vector<int> sg(n + 1); for (auto& s : sg) s = R.coin() ? 1 : -1;
            for (auto& c : f) for (int& l : c) { int v = std::abs(l); int x = p[v - 1] * sg[v]; l = l > 0 ? x : -x; }
        }
        if (R.chance(50)) { R.shuffle(f); for (auto& c : f) R.shuffle(c); }
    }
    // size 0: tiny (exhaustive-ish), 1: small, 2: medium (conflicts in the thousands)
    CNF any(int size, bool dirty = true) {
        CNF f; int d = R.range(0, 99);
        if (size == 0) {
            int n = R.range(1, 9);
            if (d < 45) { kind = "mixed"; f = mixedSat(n, R.range(1, 5 * n)); }
            else if (d < 60) { kind = "ksat"; f = ksat(n, R.range(n, 6 * n), R.range(2, 3)); }
            else if (d < 75) { kind = "circuit"; f = circuitCNF(R.range(2, 4), R.range(1, 8)); }
            else if (d < 82) { kind = "chain"; f = chains(R.range(2, 10)); }
            else if (d < 90) { kind = "parity"; f = parity(n, R.range(1, n + 2), R.range(1, 3)); }
            else if (d < 96) { kind = "php"; int h = R.range(1, 3); f = php(h, h + R.range(0, 1)); }
            else if (d < 98) { kind = "empty-formula"; }
            else { kind = "empty-clause"; f = mixedSat(n, n); f.push_back({}); }
        } else if (size == 1) {
            int n = R.range(10, 45);
            if (d < 25) { kind = "mixed"; f = mixedSat(n, R.range(n, 3 * n)); }
            else if (d < 45) { kind = "3sat"; f = ksat(n, (int)(n * (3.6 + 0.1 * R.range(0, 14))), 3); }
            else if (d < 55) { kind = "planted"; f = planted(n, 4 * n, 3); }
            else if (d < 75) { kind = "circuit"; f = circuitCNF(R.range(3, 10), R.range(5, 60), true); }
            else if (d < 80) { kind = "chain"; f = chains(n); }
            else if (d < 86) { kind = "parity"; f = parity(n, R.range(n / 2, n + 2), 3); }
            else if (d < 90) { kind = "php"; int h = R.range(3, 5); f = php(h, h + R.range(0, 1)); }
            else if (d < 95) { kind = "amo"; f = amo(R.range(2, 6), R.range(2, 5)); }
            else { kind = "miter"; f = miter(R.range(2, 4), R.coin()); }
        } else {
            if (d < 35) { kind = "3sat-hard"; int n = R.range(80, 150); f = ksat(n, (int)(n * 4.26), 3); }
            else if (d < 48) { kind = "planted-hard"; int n = R.range(100, 200); f = planted(n, (int)(n * 4.3), 3); }
            else if (d < 60) { kind = "php-hard"; int h = R.range(6, 7); f = php(h, h + 1); }
            else if (d < 75) { kind = "miter-hard"; f = miter(R.range(5, 7), R.chance(30)); }
            else if (d < 85) { kind = "circuit-big"; f = circuitCNF(R.range(8, 20), R.range(100, 400), true); }
            else if (d < 89) { kind = "wide"; f = wide(R.range(40, 300), R.range(10, 60), R.range(2, 8)); }
            else if (d < 93) { kind = "parity-hard"; int n = R.range(24, 36); f = parity(n, n + R.range(-2, 2), 3); }
            else { kind = "amo-big"; f = amo(R.range(8, 14), R.range(4, 7)); }
        }
        disguise(f, dirty);
        return f;
    }
};
// formulas with gate structure, some with equivalent gates
inline CNF simFormula(Rng& R, Gen& g) {
    CNF f; int d = R.range(0, 99);
    if (d < 55) { f = g.circuitCNF(R.range(2, 6), R.range(1, R.chance(75) ? 14 : 50), R.coin()); g.kind = "circuit"; }
    else if (d < 70) { // several root clauses
        auto k = g.circuit(R.range(2, 6), R.range(1, 20), R.coin()); f = k.cnf; g.kind = "circuit-roots";
        for (int i = R.range(1, 4); i > 0; i--) { Clause c; for (int j = R.range(1, 3); j > 0; j--) c.push_back(R.coin() ? R.range(1, k.vars) : -R.range(1, k.vars)); f.push_back(c); } }
    else if (d < 80) { f = g.miter(R.range(1, 3), R.coin()); g.kind = "miter"; }
    else if (d < 88) { f = g.parity(R.range(3, 8), R.range(1, 5), R.range(2, 4)); g.kind = "parity"; }
    else { // duplicated and constant gates: copies of one circuit joined at the inputs
        int n = R.range(2, 4), v = n; std::vector<int> outs; g.kind = "copies";
        std::vector<std::vector<int>> shape; int m = R.range(1, 4), copies = R.range(2, 3);
        for (int i = 0; i < m; i++) shape.push_back({R.range(0, 2), R.range(1, n + i) * (R.coin() ? 1 : -1), R.range(1, n + i) * (R.coin() ? 1 : -1)});
        for (int k = 0; k < copies; k++) { std::map<int, int> mp; for (int i = 1; i <= n; i++) mp[i] = i; int last = 0;
            for (int i = 0; i < m; i++) { int o = ++v; mp[n + 1 + i] = o; auto t = [&](int l) { return l > 0 ? mp[l] : -mp[-l]; }; int a = t(shape[i][1]), b = t(shape[i][2]); if (std::abs(a) == std::abs(b)) b = std::abs(a) == 1 ? 2 : 1; g.gateClauses(f, shape[i][0], o, {a, b}); last = o; }
            outs.push_back(last); }
        int top = ++v; std::vector<int> in; for (int o : outs) in.push_back(R.coin() ? o : -o); g.gateClauses(f, R.range(0, 1), top, in); f.push_back({R.coin() ? top : -top});
    }
    if (R.coin()) R.shuffle(f);
    return f;
}

// ---------------------------------------------------------------- case runner
struct Case {                 // the child's view of one case
    uint64_t seed; std::string mode; uint64_t index; bool dump;
    int fd; std::string scratch;
    Rng R;
    std::string desc;
    Case(uint64_t s, std::string m, uint64_t i, bool d, int f, std::string sc) : seed(s), mode(m), index(i), dump(d), fd(f), scratch(sc), R(s) {}
    void send(char tag, const std::string& s) {
        std::string t(1, tag); t += ' ';
        for (char c : s) { if (c == '\n') t += "\\n"; else t += c; }
        t += '\n';
        size_t o = 0; while (o < t.size()) { ssize_t w = ::write(fd, t.data() + o, t.size() - o); if (w <= 0) break; o += (size_t)w; }
    }
    void count(const std::string& k, uint64_t n = 1) { if (n) send('E', std::to_string(n) + " " + k); }
    void maxi(const std::string& k, uint64_t n) { send('M', std::to_string(n) + " " + k); }
    // this case is distinct (identified by h) and non-trivial
    void nontrivial(const std::string& what) { send('N', std::to_string(fnv(what))); }
    // an additional distinct observation (state, trace, history) of class k
    void distinct(const std::string& k, const std::string& what) { send('D', k + " " + std::to_string(fnv(what))); }
    void describe(const std::string& s) { desc = s; if (dump) { send('X', s); _exit(0); } }
    // cls: short class of the violation, used for known-finding matching
    void violation(const std::string& cls, const std::string& s) { send('X', desc); send('V', cls + " " + s); throw cls; }
    void inconclusive(const std::string& why) { send('U', why); }
};
typedef std::function<void(Case&)> Body;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline std::string slurp(const std::string& p, size_t cap = 1 << 16) {
    std::ifstream f(p, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (s.size() > cap) s = s.substr(0, cap);
    return s;
}

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
inline std::set<int> openDescriptors() { std::set<int> s; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) s.insert(i); return s; }
// What a piece of work keeps after its objects are gone: it runs twice (the first time fills caches and static tables), the second time must leave heap and descriptors as they were.
template <class F> void keepsNothing(Case& c, const char* what, F work) {
    work(); auto fds = openDescriptors(); size_t base = __sanitizer_get_current_allocated_bytes(); work(); size_t end = __sanitizer_get_current_allocated_bytes();
    if (end != base) c.violation("memory-kept", std::string(what) + ": " + std::to_string((long)(end - base)) + " bytes stay allocated");
    if (openDescriptors() != fds) c.violation("descriptors-kept", std::string(what) + ": the open file descriptors differ");
    c.count(what); }
#endif

struct Runner {
    std::map<std::string, Body> modes;
    // usage: drv --mode M --seed S --from A --to B --step K --scratch DIR --timeout T [--dump] ; writes a line protocol to stdout
    int main(int argc, char** argv) {
        std::map<std::string, std::string> a; bool dump = false;
        for (int i = 1; i < argc; i++) { std::string k = argv[i]; if (k == "--dump") { dump = true; continue; } if (i + 1 < argc) { a[k] = argv[++i]; } }
        std::string mode = a["--mode"];
        if (!modes.count(mode)) { fprintf(stderr, "unknown mode %s\n", mode.c_str()); return 2; }
        uint64_t seed = strtoull(a["--seed"].c_str(), 0, 10), from = strtoull(a["--from"].c_str(), 0, 10), to = strtoull(a["--to"].c_str(), 0, 10);
        uint64_t step = a.count("--step") ? strtoull(a["--step"].c_str(), 0, 10) : 1;
        double timeout = a.count("--timeout") ? atof(a["--timeout"].c_str()) : 60;
        int maxViol = a.count("--max-viol") ? atoi(a["--max-viol"].c_str()) : 5;
        std::string scratch = a.count("--scratch") ? a["--scratch"] : "/tmp";
        std::string errf = scratch + "/stderr." + std::to_string(getpid());
        std::map<std::string, uint64_t> E, M; std::set<std::string> N; std::map<std::string, std::set<std::string>> D; uint64_t cases = 0; int viol = 0;
        FILE* out = stdout;
        for (uint64_t i = from; i < to && viol < maxViol; i += step) {
            uint64_t cs = mix(mix(seed, fnv(mode)), i);
            int timeouts = 0;
          again:
            int p[2]; if (pipe(p)) return 3;
            fflush(out);
            pid_t pid = fork();
            if (pid < 0) return 3;
            if (pid == 0) {
                close(p[0]);
                setpgid(0, 0);
                rlimit fl{1ul << 30, 1ul << 30}; setrlimit(RLIMIT_FSIZE, &fl);   // a runaway writer must not fill the disk
                int of = open((errf + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(of, 1); setvbuf(stdout, nullptr, _IOLBF, 4096);
                int ef = open(errf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(ef, 2);
                Case c(cs, mode, i, dump, p[1], scratch);
                int rc = 0;
                try { modes[mode](c); c.send('K', "done"); }
                catch (std::string&) { c.send('K', "viol"); }
                catch (std::exception& e) { c.send('X', c.desc); c.send('V', std::string("exception uncaught exception: ") + e.what()); c.send('K', "viol"); }
                _exit(rc);
            }
            close(p[1]);
            std::string buf; double t0 = now(); bool hung = false;
            for (;;) {
                pollfd pf{p[0], POLLIN, 0};
                double left = timeout * (timeouts ? 3 : 1) - (now() - t0);
                if (left <= 0) { hung = true; break; }
                int r = poll(&pf, 1, (int)(left * 1000) + 1);
                if (r < 0 && errno == EINTR) continue;
                if (r > 0) { char b[65536]; ssize_t k = read(p[0], b, sizeof b); if (k <= 0) break; buf.append(b, (size_t)k); }
            }
            if (hung) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }
            close(p[0]);
            int st = 0; waitpid(pid, &st, 0);
            kill(-pid, SIGKILL);
            if (hung && timeouts++ < 1) goto again;
            cases++;
            bool done = false; std::string desc, vio;
            std::istringstream is(buf); std::string line;
            while (std::getline(is, line)) {
                if (line.size() < 2) continue;
                std::string s = line.substr(2);
                switch (line[0]) {
                case 'E': case 'M': { size_t sp = s.find(' '); if (sp == std::string::npos) break; uint64_t n = strtoull(s.c_str(), 0, 10); auto k = s.substr(sp + 1); if (line[0] == 'E') E[k] += n; else M[k] = std::max(M[k], n); break; }
                case 'N': N.insert(s); break;
                case 'D': { size_t sp = s.find(' '); if (sp != std::string::npos) D[s.substr(0, sp)].insert(s.substr(sp + 1)); break; }
                case 'X': desc = s; break;
                case 'V': vio = s; break;
                case 'U': E["inconclusive: " + s]++; break;
                case 'K': done = true; break;
                }
            }
            if (dump) { fprintf(out, "X %s\n", desc.c_str()); continue; }
            if (vio.empty()) {
                if (hung) vio = "hang no result within the (repeated, tripled) time limit";
                else if (!done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
                    std::string e = slurp(errf, 6000);
                    if (e.empty()) { e = slurp(errf + ".out", 1 << 22); if (e.size() > 800) e = e.substr(e.size() - 800); }
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(out, "HARNESS-ERROR case %llu: %s\n", (unsigned long long)i, e.c_str()); return 4; }
                    std::string cls = "crash";
                    if (e.find("AddressSanitizer") != std::string::npos) cls = "asan"; else if (e.find("runtime error") != std::string::npos) cls = "ubsan"; else if (e.find("ThreadSanitizer") != std::string::npos) cls = "tsan";
                    else if (e.find("Assertion") != std::string::npos) cls = "assert";
                    std::string e2; for (char ch : e) e2 += ch == '\n' ? std::string("\\n") : std::string(1, ch);
                    vio = cls + " status=" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + " stderr: " + e2;
                }
            }
            if (!vio.empty()) { viol += hung ? maxViol : 1; fprintf(out, "V %llu\t%s\t%s\n", (unsigned long long)i, vio.c_str(), desc.c_str()); fflush(out); }
            else if (E["samples"]++ < 2) {
                // keep a short description of a passing case
                fprintf(out, "S %llu\n", (unsigned long long)i);
            }
        }
        unlink(errf.c_str()); unlink((errf + ".out").c_str());
        fprintf(out, "C %llu\n", (unsigned long long)cases);
        for (auto& e : E) if (e.first != "samples") fprintf(out, "E %llu %s\n", (unsigned long long)e.second, e.first.c_str());
        for (auto& e : M) fprintf(out, "M %llu %s\n", (unsigned long long)e.second, e.first.c_str());
        for (auto& h : N) fprintf(out, "N %s\n", h.c_str());
        for (auto& d : D) for (auto& h : d.second) fprintf(out, "D %s %s\n", d.first.c_str(), h.c_str());
        fprintf(out, "END\n");
        return 0;
    }
};

} // namespace vf
