// Monitor of the command-line solver as a process: stdout protocol, exit codes, limits, signals, options, portfolio.
// The executable under test is passed in VF_CANDY; this driver itself links nothing it judges with.
#include "candyapi.h"
#include "candy/gates/GateAnalyzer.h"
#include <zlib.h>
#include <sched.h>
using namespace vf;

struct Run { int status = -1; bool exited = false; int rc = -1, sig = 0; bool hung = false; double secs = 0; std::string out, err; };
struct Sig { int signo = 0; double after = 0; int repeat = 1; };
// runs the solver in a scratch directory of its own
static int noise = 0;      // varies environment, allocator settings and stack position of the runs of mode repeat
static Run run(Case& c, const std::vector<std::string>& args, const std::string& stdinFile, double limit, Sig sg = Sig(), bool pipeIn = false, int cores = 0) {
    const char* exe = getenv("VF_CANDY"); if (!exe) { fprintf(stderr, "HARNESS: VF_CANDY not set\n"); _exit(99); }
    std::string of = c.scratch + "/so." + std::to_string(getpid()), ef = c.scratch + "/se." + std::to_string(getpid());
    std::string dir = c.scratch + "/wd." + std::to_string(getpid()); mkdir(dir.c_str(), 0700);
    int pp[2] = {-1, -1}; if (pipeIn && pipe(pp)) _exit(99);
    double t0 = now();
    pid_t pid = fork();
    if (!pid) {
        int fd = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
        if (pipeIn) { dup2(pp[0], 0); close(pp[0]); close(pp[1]); }
        else { fd = open(stdinFile.empty() ? "/dev/null" : stdinFile.c_str(), O_RDONLY); dup2(fd, 0); }
        if (chdir(dir.c_str())) _exit(96);
        if (cores) { cpu_set_t m, have; CPU_ZERO(&m); sched_getaffinity(0, sizeof have, &have); int k = 0, at = (int)(c.index % 8); for (int i = 0; i < 64 && k < cores; i++) { int q = (i + at) % 64; if (CPU_ISSET(q, &have)) { CPU_SET(q, &m); k++; } } if (k) sched_setaffinity(0, sizeof m, &m); }
        setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77", 1); setenv("UBSAN_OPTIONS", "halt_on_error=1:exitcode=77", 1); setenv("TSAN_OPTIONS", "exitcode=77:report_signal_unsafe=0:history_size=4", 1);
        if (noise) { setenv("VF_PADDING", std::string((size_t)noise * 977, 'x').c_str(), 1); if (noise & 1) { setenv("MALLOC_TOP_PAD_", "5000000", 1); setenv("MALLOC_MMAP_THRESHOLD_", "300000", 1); } if (noise == 2 && c.index % 6 == 0) setenv("MALLOC_PERTURB_", "75", 1); }
        std::vector<char*> av; av.push_back((char*)exe); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
        execv(exe, av.data()); _exit(97);
    }
    if (pipeIn) { // feed the file through a pipe in small pieces
        close(pp[0]); signal(SIGPIPE, SIG_IGN); std::string t = slurp(stdinFile, 1 << 26); size_t o = 0;
        while (o < t.size()) { size_t k = std::min<size_t>(t.size() - o, 1 + c.R.below(4000)); ssize_t w = write(pp[1], t.data() + o, k); if (w <= 0) break; o += (size_t)w; }
        close(pp[1]);
    }
    Run r; int sent = 0;
    for (;;) {
        pid_t k = waitpid(pid, &r.status, WNOHANG);
        if (k == pid) break;
        double t = now() - t0;
        if (sg.signo && sent < sg.repeat && t > sg.after * (sent + 1)) { kill(pid, sg.signo); sent++; }
        if (t > limit) { r.hung = true; kill(pid, SIGKILL); waitpid(pid, &r.status, 0); break; }
        usleep(t < 0.05 ? 500 : 3000);
    }
    r.secs = now() - t0; r.exited = WIFEXITED(r.status); r.rc = r.exited ? WEXITSTATUS(r.status) : -1; r.sig = WIFSIGNALED(r.status) ? WTERMSIG(r.status) : 0;
    r.out = slurp(of, 1 << 26); r.err = slurp(ef, 1 << 16); unlink(of.c_str()); unlink(ef.c_str());
    unlink((dir + "/proof.drat").c_str()); rmdir(dir.c_str());
    return r;
}
static std::string tail(const std::string& s, size_t n = 500) { return s.size() > n ? s.substr(s.size() - n) : s; }
struct Out { int verdict = -2; /*1 sat 0 unsat -1 indeterminate*/ int slines = 0, vlines = 0; std::vector<long> v; bool vTerminated = false; std::string strange; std::vector<long> minimized; bool hasMin = false, okModel = false, okProof = false, badModel = false, badProof = false; };
static Out parse(const std::string& text) {
    Out o; std::istringstream is(text); std::string l;
    while (std::getline(is, l)) {
        if (l.empty()) continue;
        if (l[0] == 's') { o.slines++; if (l == "s SATISFIABLE") o.verdict = 1; else if (l == "s UNSATISFIABLE") o.verdict = 0; else if (l == "s INDETERMINATE") o.verdict = -1; else o.strange = l; }
        else if (l[0] == 'v' && (l.size() == 1 || l[1] == ' ')) { o.vlines++; std::istringstream ls(l.substr(1)); std::string t; while (ls >> t) { char* e; long x = strtol(t.c_str(), &e, 10); if (*e) { o.strange = l; break; } if (o.vTerminated) o.strange = l; if (x == 0) o.vTerminated = true; else o.v.push_back(x); } }
        else if (l[0] == 'c' && (l.size() == 1 || l[1] == ' ')) {
            if (l.compare(0, 18, "c Minimized-Model:") == 0) { o.hasMin = true; std::istringstream ls(l.substr(18)); std::string t; while (ls >> t) o.minimized.push_back(strtol(t.c_str(), nullptr, 10)); }
            if (l == "c Result verified by model checker") o.okModel = true;
            if (l == "c Result verified by proof checker") o.okProof = true;
            if (l == "c Result could not be verified by model checker") o.badModel = true;
            if (l == "c Result could not be verified by proof checker") o.badProof = true;
        }
        else o.strange = l;
    }
    return o;
}
static void alive(Case& c, const Run& r, const std::string& what) {
    if (r.hung) c.violation("cli-hang", what + ": no exit within the time limit; output ends with: " + tail(r.out));
    if (r.sig) c.violation("cli-crash", what + ": killed by signal " + std::to_string(r.sig) + " " + tail(r.out, 200) + tail(r.err));
    if (r.rc == 77) c.violation("cli-sanitizer", what + ": " + tail(r.err, 2500));
    if (r.rc >= 96) c.violation("cli-crash", what + ": exit " + std::to_string(r.rc) + " " + tail(r.err));
}
static void judge(Case& c, const CNF& f, const Run& r, const Out& o, bool wantModel, const std::string& what, uint64_t refBudget, bool indetAllowed) {
    if (o.slines != 1) c.violation("cli-sline", what + ": " + std::to_string(o.slines) + " answer lines; exit " + std::to_string(r.rc) + "; output: " + tail(r.out) + tail(r.err));
    if (!o.strange.empty()) c.violation("cli-protocol", what + ": line outside of the output protocol: " + o.strange);
    if (o.verdict == -1 && !indetAllowed) c.violation("cli-indeterminate", what + ": no verdict without a reason");
    int n = maxVar(f);
    if (o.verdict == 1 && wantModel) {
        if (o.vlines != 1 || !o.vTerminated) c.violation("cli-model", what + ": SAT with " + std::to_string(o.vlines) + " value lines" + (o.vTerminated ? "" : ", not terminated"));
        std::set<long> m; for (long l : o.v) { if (std::abs(l) > n) c.violation("cli-model", what + ": value line mentions unknown variable " + std::to_string(l)); if (m.count(-l) || m.count(l)) c.violation("cli-model", what + ": variable " + std::to_string(l) + " twice in the value line"); m.insert(l); }
        std::set<int> occ; for (auto& k : f) for (int l : k) occ.insert(std::abs(l));
        for (int v : occ) if (!m.count(v) && !m.count(-v)) c.violation("cli-model", what + ": variable " + std::to_string(v) + " has no value");
        if (const Clause* k = falsified(f, [&](int l) { return m.count(l) > 0; })) c.violation("cli-model", what + ": the printed values falsify " + str(*k));
        c.count("printed models checked");
    }
    if (!wantModel && o.vlines) c.violation("cli-model", what + ": value line although none was requested");
    if (o.verdict != 1 && o.vlines) c.violation("cli-model", what + ": value line without SAT");
    if (o.verdict == 0 || (o.verdict == 1 && !wantModel)) {
        int t = refSolve(f, {}, refBudget);
        if (t >= 0 && t != o.verdict) { if (t == 1) c.violation("cli-wrong", what + ": UNSAT, but the formula has a model"); else c.violation("cli-wrong", what + ": SAT, but the formula has no model"); }
        c.count(t < 0 ? "verdicts not decided by reference" : "verdicts confirmed by reference");
    }
    c.count(o.verdict == 1 ? "answers SAT" : o.verdict == 0 ? "answers UNSAT" : "answers INDETERMINATE");
}
static std::string write(Case& c, const CNF& f, bool gz, const char* extra = "") {
    std::string path = c.scratch + "/f." + std::to_string(getpid()) + (gz ? ".cnf.gz" : ".cnf"), t = "p cnf " + std::to_string(maxVar(f)) + " " + std::to_string(f.size()) + "\n" + str(f) + extra;
    if (gz) { gzFile g = gzopen(path.c_str(), "wb"); gzwrite(g, t.data(), (unsigned)t.size()); gzclose(g); }
    else { std::ofstream os(path, std::ios::binary); os << t; }
    return path;
}

// ---- the numbers printed about a formula, its gates and the search
static bool number(const std::string& text, const std::string& label, std::vector<double>& out) {   // all lines that start with the label
    std::istringstream is(text); std::string l; out.clear();
    while (std::getline(is, l)) if (l.compare(0, label.size(), label) == 0) { char* e; const char* b = l.c_str() + label.size(); double x = strtod(b, &e); while (*e == ' ') e++; if (e == b || *e) return false; out.push_back(x); }
    return true;
}
static bool histogram(const std::string& text, const std::string& label, std::vector<unsigned>& out) {
    std::istringstream is(text); std::string l; out.clear();
    while (std::getline(is, l)) if (l.compare(0, label.size(), label) == 0) { std::istringstream ls(l.substr(label.size())); std::string t; while (ls >> t) { unsigned i, n; char x; if (sscanf(t.c_str(), "%u:%u%c", &i, &n, &x) != 2 || i != out.size()) return false; out.push_back(n); } return true; }
    return false;
}
static void stats(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f; int d = R.range(0, 9);
    if (d < 5) { f = g.circuitCNF(R.range(2, 6), R.range(1, R.chance(70) ? 14 : 50), R.coin()); g.kind = "circuit"; if (R.chance(40)) f.push_back({R.coin() ? 1 : -1, R.range(1, maxVar(f))}); if (R.chance(40)) R.shuffle(f); if (R.chance(30)) f.pop_back(); }
    else if (d < 6) { f = g.miter(R.range(1, 3), R.coin()); g.kind = "miter"; } else f = g.any(R.chance(20) ? 1 : 0, true);
    bool gate = R.chance(70); int method = R.pick(std::vector<int>{-1, 0, 1, 2, 10, 11}), tries = R.pick(std::vector<int>{-1, 0, 1, 2, 5}), verb = R.pick(std::vector<int>{-1, 0, 1, 2}), limit = R.chance(25) ? std::max(1, std::min(1000, maxVar(f) + R.range(-2, 2))) : 0, ch = R.range(0, 2);
    std::vector<std::string> args; if (gate) args.push_back("-gate-stats"); if (method >= 0) args.push_back("-gate-recognition-method=" + std::to_string(method)); if (tries >= 0) args.push_back("-gate-tries=" + std::to_string(tries)); if (verb >= 0) args.push_back("-verb=" + std::to_string(verb)); if (limit) args.push_back("-test-limit=" + std::to_string(limit));
    R.shuffle(args); std::string d0; for (auto& a : args) d0 += a + " ";
    c.describe("options: " + d0 + "channel " + std::to_string(ch) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    std::string path = write(c, f, ch == 1); std::vector<std::string> av = args; if (ch < 2) av.insert(av.begin() + (long)R.below(av.size() + 1), path);
    Run r = run(c, av, ch < 2 ? "" : path, 60); unlink(path.c_str()); alive(c, r, "run"); Out o = parse(r.out);
    if (limit && maxVar(f) > limit) { if (o.slines || o.vlines || r.rc != 0) c.violation("stats-test-limit", "an answer although the formula has more variables than the limit; exit " + std::to_string(r.rc)); c.count("runs beyond the variable limit"); c.nontrivial(d0 + str(f)); return; }
    double nc = 0; for (auto& k : f) if (!tautology(k)) nc++;
    auto one = [&](const std::string& label, double want) { std::vector<double> x; if (!number(r.out, label, x) || x.size() != 1) c.violation("stats-line", "no single number on a line '" + label + "': " + tail(r.out)); if (x[0] != want) c.violation("stats-number", label + " " + std::to_string((long)x[0]) + ", expected " + std::to_string((long)want)); c.count("numbers checked"); };
    if (!gate) {
        if (o.slines != 1) c.violation("stats-sline", std::to_string(o.slines) + " answer lines");
        std::vector<double> x; if (verb < 0 || verb == 1) { one("c Variables:", maxVar(f)); one("c Clauses:", nc); } else { number(r.out, "c Variables:", x); if (!x.empty()) c.violation("stats-verbosity", "statistics although the verbosity is " + std::to_string(verb)); }
        static const char* L[] = {"c restarts:", "c conflicts:", "c decisions:", "c propagations:", "c peak memory (mb):", "c cpu time (s):"}; std::vector<double> v[6];
        for (int i = 0; i < 6; i++) { if (!number(r.out, L[i], v[i]) || v[i].size() != (verb == 0 ? 0u : 1u)) c.violation("stats-line", std::string(L[i]) + " printed " + std::to_string(v[i].size()) + " times with verbosity " + std::to_string(verb)); if (verb) { c.count("numbers checked"); if (!(v[i][0] >= 0 && v[i][0] < 1e12)) c.violation("stats-number", std::string(L[i]) + " out of range"); } }
        if (verb) { if (v[5][0] > r.secs * 2 + 1) c.violation("stats-search", "more cpu time than the process ran"); if (v[4][0] > 4000) c.violation("stats-search", "peak memory out of range");
            bool horn = true; for (auto& k : f) horn &= k.size() == 1; if (horn && (v[1][0] > 1 || v[2][0] > maxVar(f))) c.violation("stats-search", "search for a formula of unit clauses"); }
        c.count("solves with statistics");
    } else {
        if (o.slines || o.vlines || r.rc != 0) c.violation("stats-answer", "an answer although only statistics were requested; exit " + std::to_string(r.rc));
        if (method >= 0) setOption("-gate-recognition-method=" + std::to_string(method)); if (tries >= 0) setOption("-gate-tries=" + std::to_string(tries));
        Candy::CNFProblem p; feed(p, f); Candy::GateAnalyzer an(p); an.analyze(); auto& gp = an.getResult();
        size_t ng = 0, nm = 0, in = 0; for (size_t v = 0; v < p.nVars(); v++) { auto& gt = gp[Candy::Var(v)]; if (gt.isDefined()) { ng++; nm += !gt.notMono; in += gt.fwd.size() + gt.bwd.size(); } }
        one("c Variables:", maxVar(f)); one("c Clauses:", nc); one("c RemainingClauses:", (double)gp.remainder.size()); one("c Gates:", (double)ng); one("c Monoton:", (double)nm); one("c Roots:", (double)gp.roots.size());
        std::vector<double> pa, se, ho; if (!number(r.out, "c StatsPatterns:", pa) || !number(r.out, "c StatsSemantic:", se) || !number(r.out, "c StatsHolistic:", ho) || pa.size() != 1 || se.size() != 1 || ho.size() != 1) c.violation("stats-line", "recognition counts missing: " + tail(r.out));
        if (pa[0] + se[0] + ho[0] != (double)(ng - nm)) c.violation("stats-number", "the gates recognized by patterns, semantically and holistically do not add up to the non-monotonic gates");
        int m = method < 0 ? 10 : method; if ((pa[0] && m != 0 && m < 10) || (se[0] && m != 1 && m < 10) || (ho[0] && m != 2 && m != 11)) c.violation("stats-number", "gates counted for a method that is not in use");
        std::vector<unsigned> h, u; if (!histogram(r.out, "c HistoConflicts:", h) || !histogram(r.out, "c HistoConflictsUnsuccessful:", u)) c.violation("stats-line", "histograms missing: " + tail(r.out));
        double sum = 0; for (unsigned x : h) sum += x; if (sum != se[0] + ho[0]) c.violation("stats-number", "the histogram counts " + std::to_string((long)sum) + " gates, but " + std::to_string((long)(se[0] + ho[0])) + " were recognized by solving"); if (h.size() && !h.back()) c.violation("stats-number", "histogram ends with zero");
        double rest = 0; for (auto* k : gp.remainder) rest += !k->empty(); double roots = (double)gp.roots.size(); (void)rest; if (in + roots + gp.remainder.size() > nc) c.violation("stats-number", "roots, gates and remaining clauses exceed the formula");
        c.count("structures compared"); c.count("gates", ng); c.count("non-monotonic gates", ng - nm); c.count("gates recognized by solving", (uint64_t)(se[0] + ho[0]));
    }
    c.count("kind " + g.kind); if (f.size() > 1) c.nontrivial(d0 + str(f));
}

// ---- one invocation, any options
static void answers(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f = g.any(R.chance(12) ? 2 : R.coin() ? 1 : 0);
    bool round = R.chance(5);   // value lines that are long or end at a round number
    if (round) { int n = R.pick(std::vector<int>{100, 128, 250, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000}) * R.pick(std::vector<int>{1, 1, 2, 3}) + (R.coin() ? 0 : R.range(-1, 1)); if (n > maxVar(f)) { Clause k{R.coin() ? n : -n}; if (R.coin() && maxVar(f)) k.push_back(R.range(1, maxVar(f))); f.push_back(k); } }
    Cfg cfg = anyCfg(R, true, true); int ch = R.range(0, 3);      // file, gz, stdin, pipe
    bool model = round || R.chance(60), bad = R.chance(5), cert = false; int test = R.range(0, 9), mini = R.chance(15) ? R.range(1, 8) : 0;
    if (maxVar(f) > 60) mini &= ~2;         // minimum models are a hard optimization problem: asked for only where they cannot take long
    if (R.chance(6)) { cfg.push_back("-rsar-enable"); cfg.push_back("-rsar-min-gatecount=1"); cfg.push_back("-rs-rounds=2048"); }
    if (model) cfg.push_back("-model"); if (R.chance(30)) cfg.push_back("-verb=" + std::to_string(R.range(0, 2)));
    if (mini) { cfg.push_back("-minimize"); if (mini & 1) cfg.push_back("-minimize-pruned"); if (mini & 2) cfg.push_back("-minimize-minimal"); if (mini & 4) cfg.push_back("-minimize-project"); }
    bool tm = test == 0 || test == 1, tp = test == 1 || test == 2; if (tm) cfg.push_back("-test-model"); if (tp) cfg.push_back("-test-proof");
    std::string proof = c.scratch + "/prf." + std::to_string(getpid());
    if (R.chance(20)) { cert = true; cfg.push_back("-certified-output=" + proof); }
    if (R.chance(5)) cfg.push_back(R.coin() ? "-time-limit=100" : "-memory-limit=4000");
    const char* junk[] = {"1 x 0\n", "1 2\n", "5 -99999999999 0\n", "p cnf -1 -2\n", "1 2 $", "--3 0\n", "\x01\n"};
    const char* extra = bad ? junk[R.below(7)] : "";
    R.shuffle(cfg);
    c.describe("options: " + str(cfg) + " channel " + std::to_string(ch) + "\nkind: " + g.kind + "\ncnf:\n" + str(f) + extra);
    std::string path = write(c, f, ch == 1, extra);
    std::vector<std::string> args(cfg.begin(), cfg.end()); if (ch < 2) args.insert(args.begin() + (long)R.below(args.size() + 1), path);
    Run r = run(c, args, ch < 2 ? "" : path, 60, Sig(), ch == 3);
    unlink(path.c_str());
    alive(c, r, "run"); Out o = parse(r.out);
    if (bad) { if (r.rc != 1 || o.slines) c.violation("cli-malformed", "malformed input: exit " + std::to_string(r.rc) + ", " + std::to_string(o.slines) + " answer lines"); c.count("malformed inputs refused"); unlink(proof.c_str()); return; }
    judge(c, f, r, o, model && !mini, "run", 300000, false);
    bool testedModel = tm && o.verdict == 1, testedProof = !testedModel && tp && o.verdict == 0;
    int want = testedModel || testedProof ? 0 : o.verdict == 1 ? 10 : 20;
    if (testedModel && !o.okModel) c.violation("cli-test", "model not verified by the built-in check: " + tail(r.out));
    if (testedProof && !o.okProof) c.violation("cli-test", "proof not verified by the built-in check: " + tail(r.out));
    if (r.rc != want) c.violation("cli-exit", "exit code " + std::to_string(r.rc) + ", expected " + std::to_string(want));
    if (testedModel) c.count("built-in model checks passed"); if (testedProof) c.count("built-in proof checks passed");
    if (mini && model && o.verdict == 1) {
        if (!o.hasMin) c.violation("cli-minimize", "no minimized model although requested");
        std::vector<int> as; for (long l : o.minimized) as.push_back((int)l);
        if (refSolve(f, as, 200000) == 0) c.violation("cli-minimize", "the minimized model " + str(as) + " does not extend to a model");
        if (mini == 8 || mini == 2) for (auto& k : f) { if (tautology(k)) continue; bool hit = false; for (int l : k) for (int a : as) hit |= a == l; if (!hit) c.violation("cli-minimize", "the minimized model does not satisfy " + str(k)); }
        c.count("minimized models checked");
    }
    if (cert && o.verdict == 0) {
        std::ifstream is(proof); if (!is) c.violation("cli-proof", "no certificate was written"); Drat d(f); DratResult dr = d.check(is);
        if (!dr.valid) c.violation("cli-proof", dr.why); c.count("certificates checked"); c.count("lemmas checked", dr.lemmas);
    }
    unlink(proof.c_str());
    c.count(std::string("channel ") + (ch == 0 ? "file" : ch == 1 ? "gz" : ch == 2 ? "stdin" : "pipe")); c.count("exit " + std::to_string(r.rc));
    for (auto& k : cfg) c.count("option " + k.substr(0, k.find('=')));
    c.nontrivial(str(cfg) + std::to_string(ch) + str(f));
}

// ---- the same command line again: same answer, same search, same files
static std::vector<std::string> stable(const std::string& text) {   // output lines without those that report times, memory or thread ids
    std::vector<std::string> v; std::istringstream is(text); std::string l;
    while (std::getline(is, l)) {
        std::string low = l; for (char& ch : low) ch = (char)tolower(ch);
        bool skip = false; if (!l.empty() && l[0] == 'c') for (const char* w : {"time", "sec", "cpu", "mem", "centrality", " mb", "thread"}) skip |= low.find(w) != std::string::npos;
        if (skip) continue;
        std::string m; for (size_t i = 0; i < l.size();) { size_t j = i; while (j < l.size() && isdigit((unsigned char)l[j])) j++; if (j - i >= 12) { m += "#"; i = j; } else if (j > i) { m += l.substr(i, j - i); i = j; } else m += l[i++]; }
        v.push_back(m);
    }
    return v;
}
static void repeated(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f;
    if (R.chance(60)) f = g.any(R.chance(10) ? 2 : 1); else { int n = R.range(50, 130); f = g.ksat(n, (int)(n * (3.9 + 0.1 * R.range(0, 5))), 3); }
    Cfg cfg = anyCfg(R, true, true); bool cert = R.chance(40); int mini = R.chance(20) ? R.range(1, 8) : 0;
    if (maxVar(f) > 60) mini &= ~2;
    if (R.chance(10)) { cfg.push_back("-rsar-enable"); cfg.push_back("-rsar-min-gatecount=1"); cfg.push_back("-rs-rounds=2048"); }
    cfg.push_back("-model"); cfg.push_back("-verb=" + std::to_string(R.range(0, 2)));
    if (mini) { cfg.push_back("-minimize"); if (mini & 1) cfg.push_back("-minimize-pruned"); if (mini & 2) cfg.push_back("-minimize-minimal"); if (mini & 4) cfg.push_back("-minimize-project"); }
    std::string proof = c.scratch + "/prf." + std::to_string(getpid()); if (cert) cfg.push_back("-certified-output=" + proof);
    R.shuffle(cfg); bool in = R.chance(20);
    c.describe("options: " + str(cfg) + (in ? " stdin" : " file") + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    std::string path = write(c, f, false); std::vector<std::string> args(cfg.begin(), cfg.end()); if (!in) args.push_back(path);
    Run first; std::vector<std::string> lines; std::string certificate; int reps = 3;
    for (int k = 0; k < reps; k++) {
        noise = k; unlink(proof.c_str()); Run r = run(c, args, in ? path : "", 60, Sig(), false, k == 2 ? 1 : 0); noise = 0;
        alive(c, r, "run " + std::to_string(k)); std::vector<std::string> now = stable(r.out); std::string pf = cert ? slurp(proof, 1 << 26) : "";
        if (!k) { first = r; lines = now; certificate = pf; continue; }
        if (r.rc != first.rc) c.violation("repeat-exit", "the same command line exits with " + std::to_string(first.rc) + " and then " + std::to_string(r.rc));
        for (size_t i = 0; i < std::max(lines.size(), now.size()); i++) { std::string a = i < lines.size() ? lines[i] : "(no line)", b = i < now.size() ? now[i] : "(no line)"; if (a != b) c.violation("repeat-output", "the same command line prints \"" + tail(a, 300) + "\" and then \"" + tail(b, 300) + "\""); }
        if (pf != certificate) c.violation("repeat-proof", "the same command line writes different certificates");
        c.count("output lines compared", now.size()); c.count("certificate bytes compared", pf.size()); c.count("repeated runs compared");
    }
    unlink(proof.c_str()); unlink(path.c_str());
    c.count("exit " + std::to_string(first.rc)); c.nontrivial(str(cfg) + str(f));
}

// ---- limits and signals: a stopped run says so, never lies, and ends
static void limits(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f; int d = R.range(0, 9);
    if (d < 5) { int n = R.range(300, 400); f = g.ksat(n, (int)(n * 4.26), 3); g.kind = "3sat-very-hard"; } else if (d < 8) { int h = R.range(9, 11); f = g.php(h, h + 1); g.kind = "php-very-hard"; } else f = g.any(R.range(0, 2));
    Cfg cfg = anyCfg(R, false, true); bool model = R.coin(); if (model) cfg.push_back("-model");
    int what = R.range(0, 3); Sig sg; int thr = R.chance(25) ? R.range(2, 4) : 1;
    if (thr > 1) { cfg.push_back("-threads=" + std::to_string(thr)); cfg.push_back("-thread-initialization-delay=" + std::to_string(R.range(10, 60))); }
    if (what == 0) { cfg.push_back("-time-limit=1"); if (R.coin()) cfg.push_back("-memory-limit=100000"); }
    else if (what == 1) { cfg.push_back("-memory-limit=" + std::to_string(R.range(1, 6))); if (R.coin()) cfg.push_back("-time-limit=600"); }
    else { sg.signo = R.chance(80) ? SIGINT : SIGXCPU; sg.after = R.chance(50) ? R.range(1, 60) / 1000.0 : R.range(50, 900) / 1000.0; if (thr > 1) sg.after += 0.4; cfg.push_back("-time-limit=20"); }
    c.describe("options: " + str(cfg) + (sg.signo ? " signal " + std::to_string(sg.signo) + " after " + std::to_string(sg.after) : "") + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    std::string path = write(c, f, false); std::vector<std::string> args(cfg.begin(), cfg.end()); args.push_back(path);
    Run r = run(c, args, "", 120, sg); unlink(path.c_str());
    // before the handlers are installed (reading, initialization) and after the answer a signal ends the process
    if (sg.signo && (r.sig == sg.signo || (r.rc == 1 && r.out.find("*** INTERRUPTED ***") != std::string::npos))) { c.count("signal outside of the search"); return; }
    alive(c, r, "run"); Out o = parse(r.out); judge(c, f, r, o, model, "run", 20000, true);
    if (r.rc != (o.verdict == 1 ? 10 : o.verdict == 0 ? 20 : 0)) c.violation("cli-exit", "exit code " + std::to_string(r.rc) + " for verdict " + std::to_string(o.verdict));
    c.count(what == 0 ? "time limits" : what == 1 ? "memory limits" : "signals during the search"); if (o.verdict == -1) { c.count("stopped runs"); c.nontrivial(str(cfg) + std::to_string(sg.after) + str(f)); }
    c.maxi("milliseconds until exit", (uint64_t)(r.secs * 1000));
}

// ---- a simulation that exceeds its time limit is given up and does not change the answer
static void simlimit(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f = R.chance(30) ? g.miter(R.range(2, 5), R.coin()) : simFormula(R, g); bool model = R.coin(), rsar = R.coin(), run0 = R.chance(25);
    Cfg cfg{"-rs-time-limit=1", run0 ? "-rs-rounds=4096" : "-rs-rounds=" + std::to_string(R.range(1 << 30, INT32_MAX)), "-rsil-min-gate-frac=0", "-rsar-min-gatecount=1", rsar ? "-rsar-enable" : "-rsil-enable"}; if (model) cfg.push_back("-model");
    if (!rsar) cfg.push_back(R.pick(std::vector<std::string>{"-rsil-mode=unrestricted", "-rsil-mode=implicationbudgeted", "-rsil-mode=vanishing"}));
    c.describe("options: " + str(cfg) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    std::string path = write(c, f, false); std::vector<std::string> args(cfg.begin(), cfg.end()); args.push_back(path);
    Run r = run(c, args, "", 120); unlink(path.c_str());
    alive(c, r, "run"); Out o = parse(r.out); judge(c, f, r, o, model, "run", 20000, false);
    if (r.rc != (o.verdict == 1 ? 10 : o.verdict == 0 ? 20 : 0)) c.violation("cli-exit", "exit code " + std::to_string(r.rc) + " for verdict " + std::to_string(o.verdict));
    bool gave = r.out.find("random simulation exceeded the preprocessing time limit") != std::string::npos;
    if (gave && run0 && r.secs < 0.9) c.violation("limit-early", "the simulation was given up after " + std::to_string(r.secs) + " seconds, the limit is 1");
    if (r.secs > 60) c.violation("limit-late", "the run took " + std::to_string(r.secs) + " seconds although the simulation is limited to 1");
    c.count(gave ? "simulations given up" : "simulations completed or not started"); if (gave) c.nontrivial(str(cfg) + str(f));
}

// ---- portfolio
static void portfolio(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f; int known = -1, d = R.range(0, 99);
    // hard enough that several threads search at the same time; the answer is known by construction or cheap to check
    if (d < 25) { int n = R.range(150, 300); f = g.planted(n, (int)(n * 4.25), 3); known = 1; g.kind = "planted"; }
    else if (d < 40) { int h = R.range(7, 8); f = g.php(h, h + 1); known = 0; g.kind = "php"; }
    else if (d < 55) { bool bug = R.coin(); f = g.miter(R.range(6, 9), bug); known = bug ? -1 : 0; g.kind = "miter"; }
    else if (d < 75) { int n = R.range(140, 190); f = g.ksat(n, (int)(n * (4.2 + 0.05 * R.range(0, 8))), 3); g.kind = "3sat"; }
    else if (d < 85) { int n = R.range(34, 44); f = g.parity(n, n + R.range(-2, 2), 3); g.kind = "parity"; }
    else { f = g.any(R.range(0, 2)); }
    int cores = R.pick(std::vector<int>{0, 1, 2, 3});
    int thr = R.chance(12) ? R.range(9, 16) : R.pick(std::vector<int>{2, 2, 3, 4, 6, 8}); Cfg cfg; bool model = R.chance(80), tm = R.chance(15);
    if (model) cfg.push_back("-model"); if (tm) cfg.push_back("-test-model");
    cfg.push_back("-threads=" + std::to_string(thr)); cfg.push_back("-thread-initialization-delay=" + std::to_string(R.pick(std::vector<int>{10, 10, 11, 15, 30})));
    cfg.push_back("-rs-rounds=2048"); if (R.chance(30)) cfg.push_back("-static-propagate"); if (R.chance(30)) cfg.push_back("-inprocessing=" + std::to_string(R.range(1, 3)));
    if (R.chance(30)) { cfg.push_back("-firstReduceDB=" + std::to_string(R.range(1, 60))); cfg.push_back("-incReduceDB=" + std::to_string(R.range(0, 40))); } if (R.chance(20)) cfg.push_back("-no-elim"); if (R.chance(20)) cfg.push_back("-rsil-min-gate-frac=0");
    if (R.chance(20)) cfg.push_back("-verb=2");
    c.describe("options: " + str(cfg) + " cores " + std::to_string(cores) + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    std::string path = write(c, f, false); std::vector<std::string> args(cfg.begin(), cfg.end()); args.push_back(path);
    Run r = run(c, args, "", 100, Sig(), false, cores); unlink(path.c_str());
    alive(c, r, "portfolio"); Out o = parse(r.out);
    o.strange = "";      // log lines of concurrent threads may interleave; the answer lines are printed by one thread
    judge(c, f, r, o, model, "portfolio", known >= 0 ? 1 : 20000, false);
    if (known >= 0 && o.verdict != known) c.violation("cli-wrong", std::string("the formula is ") + (known ? "satisfiable" : "unsatisfiable") + " by construction");
    int want = tm && o.verdict == 1 ? 0 : o.verdict == 1 ? 10 : 20;
    if (tm && o.verdict == 1 && !o.okModel) c.violation("cli-test", "model not verified by the built-in check");
    if (r.rc != want) c.violation("cli-exit", "exit code " + std::to_string(r.rc) + ", expected " + std::to_string(want));
    size_t started = 0, pos = 0; while ((pos = r.out.find("Initializing Solver", pos)) != std::string::npos) { started++; pos++; }
    c.count("solver threads started", started); c.maxi("solver threads in one run", started); c.count("runs with " + std::to_string(started) + " threads"); c.count("kind " + g.kind);
    if (started > 1) c.nontrivial(str(cfg) + str(f));
}

// ---- threads of a portfolio under the race detector: every end of a run, many threads, short searches
static void races(Case& c) {
    Rng& R = c.R; Gen g(R); CNF f; int d = R.range(0, 99);
    if (d < 20) { int n = R.range(60, 150); f = g.planted(n, (int)(n * 4.25), 3); g.kind = "planted"; }
    else if (d < 35) { int h = R.range(5, 7); f = g.php(h, h + 1); g.kind = "php"; }
    else if (d < 55) { f = g.miter(R.range(4, 7), R.coin()); g.kind = "miter"; }
    else if (d < 75) { int n = R.range(80, 130); f = g.ksat(n, (int)(n * (4.1 + 0.05 * R.range(0, 8))), 3); g.kind = "3sat"; }
    else if (d < 85) { int n = R.range(24, 34); f = g.parity(n, n + R.range(-2, 2), 3); g.kind = "parity"; }
    else f = g.any(R.range(0, 2));
    int thr = R.pick(std::vector<int>{2, 3, 4, 5, 6, 8, 12, 14, 16}), end = R.range(0, 9); bool model = R.chance(70), tm = R.chance(20), mini = R.chance(10); Cfg cfg = anyCfg(R, false, true); Sig sg;
    { Cfg x; for (auto& o : cfg) if (o.find("vsidsc") == std::string::npos) x.push_back(o); cfg = x; }
    if (model) cfg.push_back("-model"); if (tm) cfg.push_back("-test-model"); if (mini) cfg.push_back("-minimize");
    cfg.push_back("-threads=" + std::to_string(thr)); cfg.push_back("-thread-initialization-delay=" + std::to_string(R.pick(std::vector<int>{10, 10, 11, 20}))); cfg.push_back("-rs-rounds=2048"); if (R.coin()) cfg.push_back("-rsil-min-gate-frac=0");
    if (R.chance(15)) cfg.push_back("-verb=2");
    bool stop = end == 0; if (stop) { int n = R.range(220, 260); f = g.ksat(n, (int)(n * 4.26), 3); g.kind = "hard, stopped"; if (R.coin()) cfg.push_back("-time-limit=1"); else { cfg.push_back("-time-limit=20"); sg.signo = SIGINT; sg.after = 0.05 * thr + R.range(50, 500) / 100.0; } }
    c.describe("options: " + str(cfg) + (sg.signo ? " signal " + std::to_string(sg.signo) + " after " + std::to_string(sg.after) : "") + "\nkind: " + g.kind + "\ncnf:\n" + str(f));
    std::string path = write(c, f, false); std::vector<std::string> args(cfg.begin(), cfg.end()); args.push_back(path);
    Run r = run(c, args, "", 250, sg, false, R.pick(std::vector<int>{0, 0, 1, 2})); unlink(path.c_str());
    if (sg.signo && r.rc != 77 && (r.sig == sg.signo || r.out.find("*** INTERRUPTED ***") != std::string::npos)) { c.count("signal outside of the search"); return; }
    alive(c, r, "portfolio under the race detector"); Out o = parse(r.out); o.strange = "";
    judge(c, f, r, o, model && !mini, "portfolio under the race detector", 20000, stop);
    size_t started = 0, pos = 0; while ((pos = r.out.find("Initializing Solver", pos)) != std::string::npos) { started++; pos++; }
    c.count("solver threads watched", started); c.maxi("solver threads in one run", started); c.count("kind " + g.kind); c.count("verdict " + std::to_string(o.verdict)); c.distinct("threads started and verdict", std::to_string(started) + "/" + std::to_string(o.verdict) + "/" + std::to_string(thr));
    if (started > 1) c.nontrivial(str(cfg) + str(f));
}

// ---- options: accepted values take effect, everything else is refused
struct Opt { std::string name, type, lo, hi, cur; bool loInc = true, hiInc = true; };
static std::vector<Opt> table(const std::string& help) {
    std::vector<Opt> t; std::istringstream is(help); std::string l;
    while (std::getline(is, l)) {
        if (l.compare(0, 3, "  -") || l.compare(0, 4, "  --") == 0) continue;
        Opt o; size_t eq = l.find(" = <");
        if (eq != std::string::npos) {
            o.name = l.substr(3, eq - 3); while (!o.name.empty() && o.name.back() == ' ') o.name.pop_back();
            size_t e = l.find('>', eq); o.type = l.substr(eq + 4, e - eq - 4);
            if (o.type != "string") {
                size_t b = l.find_first_of("[(", e), dots = l.find("..", b), z = l.find_first_of("])", dots); if (b == std::string::npos || dots == std::string::npos || z == std::string::npos) continue;
                auto trim = [](std::string s) { while (!s.empty() && s[0] == ' ') s.erase(0, 1); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
                o.loInc = l[b] == '['; o.hiInc = l[z] == ']'; o.lo = trim(l.substr(b + 1, dots - b - 1)); o.hi = trim(l.substr(dots + 2, z - dots - 2));
                size_t df = l.find("(default: ", z); if (df != std::string::npos) o.cur = l.substr(df + 10, l.find(')', df) - df - 10);
            }
            t.push_back(o);
        } else { size_t k = l.find(", -no-"); if (k == std::string::npos) continue; o.name = l.substr(3, k - 3); o.type = "bool"; size_t df = l.find("(default: "); if (df != std::string::npos) o.cur = l.substr(df + 10, l.find(')', df) - df - 10); t.push_back(o); }
    }
    return t;
}
static const Opt* find(const std::vector<Opt>& t, const std::string& n) { for (auto& o : t) if (o.name == n) return &o; return nullptr; }
static void options(Case& c) {
    Rng& R = c.R;
    Run h = run(c, {"--help"}, "", 30); alive(c, h, "--help");
    std::vector<Opt> t = table(h.err); if (t.size() < 40) c.violation("opt-help", "help lists only " + std::to_string(t.size()) + " options");
    std::vector<std::string> args; std::map<std::string, std::string> want; bool refuse = false; std::string why;
    int k = R.range(1, 6);
    for (int i = 0; i < k && !refuse; i++) {
        const Opt& o = R.pick(t); std::string v;
        if (o.type == "bool") { int d = R.range(0, 9); if (d < 4) { args.push_back("-" + o.name); want[o.name] = "on"; } else if (d < 8) { args.push_back("-no-" + o.name); want[o.name] = "off"; } else { args.push_back(d == 8 ? "-" + o.name + "x" : "-no-no-" + o.name); if (find(t, o.name + "x")) { args.pop_back(); continue; } refuse = true; why = "unknown flag"; } }
        else if (o.type == "string") {
            if (o.name == "rsil-mode") { static const std::vector<std::string> ok = {"unrestricted", "vanishing", "implicationbudgeted"}; v = R.pick(ok); if (R.chance(40)) { refuse = true; why = "unknown mode"; switch (R.range(0, 4)) { case 0: v = ""; break; case 1: v += "x"; break; case 2: v[0] = (char)toupper(v[0]); break; case 3: v.pop_back(); break; default: v = "0"; } } }
            else if (o.name == "rsar-heur-idc") { v = R.pick(std::vector<std::string>{"3", "10 4 1", "0", "", "7 7", "5  2"}); if (R.chance(40)) { refuse = true; why = "no list of limits"; v = R.pick(std::vector<std::string>{"abc", "3 x", "-1", "3,2", " ", "5 2.5", "3 4y", "99999999999999999999999", "4 99999999999999999999999"}); } }
            else continue;
            args.push_back("-" + o.name + "=" + v);
        }
        else if (o.type == "double") {
            double lo = atof(o.lo.c_str()), hi = atof(o.hi.c_str()); int d = R.range(0, 9);
            if (d < 5) { double x = lo + (hi - lo) * R.range(1, 999) / 1000.0; char b[64]; snprintf(b, sizeof b, "%.6g", x); v = b; want[o.name] = v; }
            else if (d == 5) { char b[64]; snprintf(b, sizeof b, "%g", lo); v = b; if (o.loInc) want[o.name] = v; else { refuse = true; why = "excluded lower bound"; } }
            else if (d == 6) { char b[64]; snprintf(b, sizeof b, "%g", hi); v = b; if (o.hiInc) want[o.name] = v; else { refuse = true; why = "excluded upper bound"; } }
            else { refuse = true; why = "bad value"; char b[64]; switch (R.range(0, 4)) { case 0: snprintf(b, sizeof b, "%g", hi + 0.5); break; case 1: snprintf(b, sizeof b, "%g", lo - 0.5); break; case 2: snprintf(b, sizeof b, "%gabc", (lo + hi) / 2); break; case 3: b[0] = 0; break; default: snprintf(b, sizeof b, "nan"); } v = b; }
            args.push_back("-" + o.name + "=" + v);
        } else {
            long long lo = o.lo == "imin" ? INT32_MIN : atoll(o.lo.c_str()), hi = o.hi == "imax" ? INT32_MAX : atoll(o.hi.c_str()); int d = R.range(0, 9);
            if (d < 4) { v = std::to_string(lo + (long long)R.below((uint64_t)(hi - lo + 1))); want[o.name] = v; } else if (d == 4) { v = std::to_string(lo); want[o.name] = v; } else if (d == 5) { v = std::to_string(hi); want[o.name] = v; }
            else { refuse = true; why = "bad value"; switch (R.range(0, 6)) { case 0: v = std::to_string(hi + 1); break; case 1: v = std::to_string(lo - 1); break; case 2: v = std::to_string(lo) + "x"; break; case 3: v = ""; break; case 4: v = "9223372036854775808"; break; case 5: v = std::to_string((long long)lo + 4294967296ll); break; default: v = "--1"; } }
            args.push_back("-" + o.name + "=" + v);
        }
        if (refuse) want.erase(o.name);
    }
    std::string path = write(c, CNF{{1, 2}, {-1}}, false); bool probe = !refuse;   // accepted values are read back from the help text
    std::string d; for (auto& a : args) d += a + " ";
    c.describe("options: " + d + (refuse ? " (" + why + ")" : ""));
    if (args.empty()) { unlink(path.c_str()); return; }
    std::vector<std::string> av = args; if (probe) av.push_back("--help"); else av.insert(av.begin() + (long)R.below(av.size() + 1), path);
    Run r = run(c, av, "", 30); unlink(path.c_str()); alive(c, r, "run"); Out o = parse(r.out);
    if (refuse) {
        if (r.rc == 0 || r.rc == 10 || r.rc == 20 || o.slines) c.violation("opt-accepted", "accepted although it must be refused (" + why + "): exit " + std::to_string(r.rc));
        c.count("values refused"); c.nontrivial(d);
    } else {
        if (r.rc != 0) c.violation("opt-refused", "legal options refused: exit " + std::to_string(r.rc) + " " + tail(r.err, 300));
        std::vector<Opt> now2 = table(r.err);
        for (auto& b : t) { const Opt* n = find(now2, b.name); if (!n) c.violation("opt-help", "option " + b.name + " vanished from the help text"); if (b.type == "string") continue;
            std::string w = want.count(b.name) ? want[b.name] : b.cur;
            bool same = b.type == "double" ? std::abs(atof(w.c_str()) - atof(n->cur.c_str())) <= 1e-4 * std::max(1.0, std::abs(atof(w.c_str()))) : w == n->cur;
            if (!same) c.violation("opt-effect", "option " + b.name + " has value " + n->cur + ", expected " + w); }
        c.count("values that took effect", want.size()); c.count("option tables compared"); if (!want.empty()) c.nontrivial(d);
    }
}

int main(int argc, char** argv) {
    Runner r;
    r.modes["answers"] = answers; r.modes["simlimit"] = simlimit; r.modes["limits"] = limits; r.modes["portfolio"] = portfolio; r.modes["races"] = races; r.modes["options"] = options; r.modes["repeat"] = repeated; r.modes["stats"] = stats;
    return r.main(argc, argv);
}
