// Monitors of the containers everything else is built on, run against plain models of their content.
#include "candyapi.h"
#ifndef VF_FALLBACK
#include "candy/mtl/Heap.h"
#include "candy/mtl/BoundedQueue.h"
#include "candy/mtl/Stamp.h"
#include "candy/mtl/Memory.h"
#endif
using namespace vf;
#ifdef VF_FALLBACK  // the interface of the containers changed
static void nothing(Case& c) { c.count("containers that could not be inspected"); }
#else
// ---- the priority queue of the branching heuristics: the comparator reads priorities that change between the operations
struct ByKey { const std::vector<double>* key; bool operator()(int a, int b) const { return (*key)[(size_t)a] > (*key)[(size_t)b]; } };
static void heap(Case& c) {
    Rng& R = c.R; std::vector<double> key; int n = R.range(1, R.chance(80) ? 20 : 400), levels = R.pick(std::vector<int>{1, 2, 5, 1000000}); std::string trace;
    auto fresh = [&] { return (double)R.range(0, levels); }; for (int i = 0; i < n; i++) key.push_back(fresh());
    Glucose::Heap<ByKey> h(ByKey{&key}); h.grow((unsigned)n); std::set<int> in; int ops = R.range(10, 400);
    for (int s = 0; s < ops; s++) {
        int o = R.range(0, 99), v = R.range(0, n - 1); trace += std::to_string(o / 10) + ":" + std::to_string(v) + " "; c.desc = "variables " + std::to_string(n) + " operations " + trace;
        if (o < 35) { if (!in.count(v)) { key[(size_t)v] = fresh(); h.insert(v); in.insert(v); } }
        else if (o < 60) { if (!in.empty()) { double best = -1e300; for (int x : in) best = std::max(best, key[(size_t)x]); int m = h.removeMin(); if (!in.count(m)) c.violation("heap-foreign", "removes " + std::to_string(m) + ", which is not stored"); if (key[(size_t)m] != best) c.violation("heap-order", "removes priority " + std::to_string(key[(size_t)m]) + " although " + std::to_string(best) + " is stored"); in.erase(m); c.count("smallest elements removed"); } }
        else if (o < 75) { if (in.count(v)) { key[(size_t)v] += R.range(0, levels); h.decrease(v); c.count("priorities raised"); } }
        else if (o < 82) { if (in.count(v)) { key[(size_t)v] -= R.range(0, levels); h.increase(v); c.count("priorities lowered"); } }
        else if (o < 88) { key[(size_t)v] = fresh(); h.update(v); in.insert(v); c.count("elements updated"); }
        else if (o < 91) { std::vector<int> vs; for (int x = 0; x < n; x++) if (R.coin()) vs.push_back(x); R.shuffle(vs); for (int x = 0; x < n; x++) key[(size_t)x] = fresh(); h.build(vs); in = std::set<int>(vs.begin(), vs.end()); c.count("queues built"); }
        else if (o < 93) { h.clear(); in.clear(); c.count("queues cleared"); }
        else if (o < 96) { double f = R.pick(std::vector<double>{0.5, 1e-3}); for (auto& k : key) k *= f; }   // rescaling keeps the order
        else { int m = R.range(0, 5); n += m; while (m--) key.push_back(fresh()); h.grow((unsigned)n); }
        if ((size_t)h.size() != in.size() || h.empty() != in.empty()) c.violation("heap-size", "holds " + std::to_string(h.size()) + " of " + std::to_string(in.size()) + " elements");
        for (int x = 0; x < n; x++) if (h.inHeap(x) != (in.count(x) > 0)) c.violation("heap-membership", std::string("element ") + std::to_string(x) + (in.count(x) ? " is lost" : " was never added"));
        if (h.inHeap(n + 3)) c.violation("heap-membership", "an element beyond the range is reported");
        std::set<int> at; for (int i = 0; i < h.size(); i++) at.insert(h[i]); if (at != in) c.violation("heap-content", "the stored elements differ");
        c.count("queue states compared");
    }
    c.nontrivial(c.desc);
}
// ---- the moving average of the restart policy
static void average(Case& c) {
    Rng& R = c.R; unsigned size = (unsigned)R.range(1, R.chance(80) ? 12 : 300); uint32_t top = R.pick(std::vector<uint32_t>{1, 9, 1000, 10000000}); Candy::bqueue<uint32_t> q(size); std::deque<uint64_t> m; int ops = R.range(1, (int)size * 6 + 20); std::string trace;
    for (int s = 0; s < ops; s++) {
        if (R.chance(4)) { q.fastclear(); m.clear(); trace += "clear "; c.count("averages cleared"); } else { uint32_t x = (uint32_t)R.below(top + 1); q.push(x); m.push_back(x); if (m.size() > size) m.pop_front(); trace += std::to_string(x) + " "; c.count("values averaged"); }
        c.desc = "window " + std::to_string(size) + " values " + trace; uint64_t sum = 0; for (auto x : m) sum += x;
        if (q.size() != m.size()) c.violation("average-size", "counts " + std::to_string(q.size()) + " of " + std::to_string(m.size()) + " values");
        if (q.maxSize() != size) c.violation("average-size", "the window is " + std::to_string(q.maxSize()));
        if (q.isvalid() != (m.size() == size)) c.violation("average-valid", q.isvalid() ? "valid before the window is full" : "not valid although the window is full");
        if (q.getsum() != sum) c.violation("average-sum", "sum " + std::to_string(q.getsum()) + ", expected " + std::to_string(sum));
        if (!m.empty() && q.getavg() != sum / m.size()) c.violation("average", "average " + std::to_string(q.getavg()) + ", expected " + std::to_string(sum / m.size()));
    }
    c.nontrivial(c.desc);
}
// ---- marks that are cleared by counting; small counters wrap around within a case
template <class T> static void stampOf(Case& c, const char* what) {
    Rng& R = c.R; size_t n = (size_t)R.range(1, 30); bool sized = R.coin(); Stamp<T> s0, s1(n); Stamp<T>& s = sized ? s1 : s0; if (!sized) s.grow(n); std::set<unsigned> in; uint64_t clears = 0; int ops = R.range(50, sizeof(T) == 1 ? 2000 : sizeof(T) == 2 ? 100000 : 400); c.describe(std::string(what) + " marks for " + std::to_string(n) + " elements, " + std::to_string(ops) + " operations" + (sized ? " sized" : ""));
    for (int k = 0; k < ops; k++) {
        int o = R.range(0, 99); unsigned v = (unsigned)R.below(n);
        if (o < 30) { s.set(v); in.insert(v); } else if (o < 35) { s.unset(v); in.erase(v); } else if (o < 97) { if (sizeof(T) > 2 || R.chance(95)) { s.clear(); in.clear(); clears++; } } else if (o < 98) { s.grow(); n++; } else if (o < 99) { size_t m = (size_t)R.range(1, 40); s.grow(m); n = std::max(n, m); }
        if (s.size() != n) c.violation("stamp-size", "size " + std::to_string(s.size()) + ", expected " + std::to_string(n));
        for (unsigned x = 0; x < n; x++) if (s[x] != (in.count(x) > 0)) c.violation("stamp", "after " + std::to_string(clears) + " clears element " + std::to_string(x) + (in.count(x) ? " has lost its mark" : " is marked"));
    }
    if (sizeof(T) < 4 && clears > (1ull << (8 * sizeof(T)))) c.count("counters that wrapped around"); c.count("marks compared", (uint64_t)ops * n); c.count("clears of marks", clears); c.nontrivial(c.desc + std::to_string(clears) + "/" + std::to_string(in.size()));
}
static void stamps(Case& c) { switch (c.R.range(0, 9)) { case 0: stampOf<uint32_t>(c, "32-bit"); break; case 1: stampOf<uint16_t>(c, "16-bit"); break; case 2: stampOf<bool>(c, "boolean"); break; default: stampOf<uint8_t>(c, "8-bit"); } }
// ---- paged memory of fixed-size objects
template <unsigned N> struct Obj { uint64_t id, key; unsigned char pad[N]; };
template <unsigned N> static void memoryOf(Case& c) {
    Rng& R = c.R; typedef Obj<N> O; Candy::Memory<O> m(1); size_t page = 1024 * 1024 / sizeof(O); std::vector<std::pair<O*, uint64_t>> all; uint64_t next = 1; std::string trace; int rounds = R.range(1, 4);
    for (int r = 0; r < rounds; r++) {
        int o = R.range(0, 9);
        if (o < 7 || r == 0) {
            size_t k = R.chance(30) ? (size_t)R.range(0, 5) : R.chance(50) ? page * (size_t)R.range(0, 3) + (size_t)R.range(0, 3) : (size_t)R.range(0, (int)page * 3); trace += "allocate " + std::to_string(k) + " "; c.desc = "objects of " + std::to_string(sizeof(O)) + " bytes: " + trace;
            while (k--) { O* p = (O*)m.allocate(); if (((uintptr_t)p & 7) != 0) c.violation("memory-alignment", "an object is not aligned"); memset((void*)p, (int)(next & 255), sizeof(O)); p->id = next; p->key = R.below(1000); all.push_back({p, next++}); c.count("objects allocated"); }
        } else if (o < 9) {
            trace += "sort "; c.desc = "objects of " + std::to_string(sizeof(O)) + " bytes: " + trace; m.sort([](const O& a, const O& b) { return a.key < b.key; });   // moves the objects
            std::map<uint64_t, O*> at; uint64_t last = 0; for (auto it = m.begin(); it != m.end(); ++it) { O* p = (O*)*it; if (p->key < last) c.violation("memory-order", "not sorted"); last = p->key; if (!at.insert({p->id, p}).second) c.violation("memory-duplicate", "object " + std::to_string(p->id) + " occurs twice"); }
            if (at.size() != all.size()) c.violation("memory-lost", std::to_string(at.size()) + " of " + std::to_string(all.size()) + " objects after sorting");
            all.clear(); for (auto it = m.begin(); it != m.end(); ++it) all.push_back({(O*)*it, ((O*)*it)->id}); c.count("memories sorted");
        } else { trace += "free "; m.free_all(); all.clear(); c.count("memories freed"); }
        c.desc = "objects of " + std::to_string(sizeof(O)) + " bytes: " + trace;
        for (auto& x : all) { O* p = x.first; if (p->id != x.second) c.violation("memory-overwritten", "object " + std::to_string(x.second) + " is overwritten"); for (unsigned i = 0; i < N; i++) if (p->pad[i] != (unsigned char)(x.second & 255)) c.violation("memory-overwritten", "object " + std::to_string(x.second) + " is overwritten at byte " + std::to_string(i)); }
        size_t i = 0; for (auto it = m.begin(); it != m.end(); ++it, i++) { if (i >= all.size()) c.violation("memory-iteration", "more than the " + std::to_string(all.size()) + " objects are visited"); if (*it != all[i].first) c.violation("memory-iteration", "object " + std::to_string(i) + " of " + std::to_string(all.size()) + " is not visited in order"); }
        if (i != all.size()) c.violation("memory-iteration", std::to_string(i) + " of " + std::to_string(all.size()) + " objects are visited");
        if (m.used() != all.size() * sizeof(O)) c.violation("memory-used", std::to_string(m.used()) + " bytes in use for " + std::to_string(all.size()) + " objects of " + std::to_string(sizeof(O)) + " bytes");
        if (all.size() > page) c.count("memories over several pages");
    }
    c.nontrivial(c.desc);
}
static void paged(Case& c) { switch (c.R.range(0, 3)) { case 0: memoryOf<8>(c); break; case 1: memoryOf<48>(c); break; case 2: memoryOf<240>(c); break; default: memoryOf<1008>(c); } }
static void containers(Case& c) { int k = c.R.range(0, 99); if (k < 45) heap(c); else if (k < 70) average(c); else if (k < 92) stamps(c); else paged(c); }
#endif
int main(int argc, char** argv) {
    Runner r;
#ifdef VF_FALLBACK
    r.modes["containers"] = nothing;
#else
    r.modes["containers"] = containers;
#endif
    return r.main(argc, argv);
}
