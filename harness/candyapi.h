// Adapters between the harness' DIMACS world and the public API of the solver under test.
#pragma once
#include "common.h"
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/core/SolverTypes.h"
#include "candy/core/Trail.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/frontend/CandyBuilder.h"
#include <memory>

using Candy::lbool;
namespace vf {
inline Candy::Lit L(int l) { return Candy::Lit(Candy::Var(std::abs(l) - 1), l < 0); }
inline int I(Candy::Lit l) { return ((int)l.var() + 1) * (l.sign() ? -1 : 1); }
inline void feed(Candy::CNFProblem& p, const CNF& f) {
    for (auto& c : f) { Candy::Cl cl; for (int l : c) cl.push_back(L(l)); p.readClause(cl); }
}

typedef std::vector<std::string> Cfg;       // command-line style options
inline std::string str(const Cfg& c) { std::string s; for (auto& x : c) s += x + " "; return s; }

inline void setOption(const std::string& o) {
    using namespace Candy;
    std::string n = o.substr(1), v; bool on = true;
    size_t e = n.find('=');
    if (e != std::string::npos) { v = n.substr(e + 1); n = n.substr(0, e); }
    else if (n.compare(0, 3, "no-") == 0) { n = n.substr(3); on = false; }
    static std::map<std::string, BoolOption*> B = {
        {"static-propagate", &ParallelOptions::opt_static_propagate}, {"recalculate-lbd", &ClauseDatabaseOptions::opt_recalculate_lbd},
        {"keep-median-lbd", &ClauseDatabaseOptions::opt_keep_median_lbd}, {"extra-bump", &SolverOptions::opt_vsids_extra_bump},
        {"use-vsidsc", &SolverOptions::opt_use_vsidsc}, {"vsidsc-bump", &SolverOptions::opt_vsidsc_bump}, {"vsidsc-lwcc", &SolverOptions::opt_vsidsc_scope},
        {"use-lrb", &SolverOptions::opt_use_lrb}, {"sort-variables", &SolverOptions::opt_sort_variables}, {"pre", &SolverOptions::opt_preprocessing},
        {"elim", &VariableEliminationOptions::opt_use_elim}, {"asymm", &VariableEliminationOptions::opt_use_asymm}, {"rsil-enable", &RSILOptions::opt_rsil_enable},
        {"rsil-filter-only-backbone", &RSILOptions::opt_rsil_filterOnlyBackbone}, {"rsil-only-miters", &RSILOptions::opt_rsil_onlyMiters},
        {"rs-abort-by-rrat", &RandomSimulationOptions::opt_rs_abortbyrrat}, {"rs-remove-backbone-conj", &RandomSimulationOptions::opt_rs_removeBackboneConj},
        {"rs-only-nonmono-gates", &RandomSimulationOptions::opt_rs_filterGatesByNonmono}, {"rsar-enable", &RSAROptions::opt_rsar_enable}};
    static std::map<std::string, IntOption*> N = {
        {"persistentLBD", &ClauseDatabaseOptions::opt_persistent_lbd}, {"firstReduceDB", &ClauseDatabaseOptions::opt_first_reduce_db},
        {"incReduceDB", &ClauseDatabaseOptions::opt_inc_reduce_db}, {"szLBDQueue", &SolverOptions::opt_size_lbd_queue}, {"szTrailQueue", &SolverOptions::opt_size_trail_queue},
        {"vsidsc-mult", &SolverOptions::opt_vsidsc_mult}, {"inprocessing", &SolverOptions::opt_inprocessing}, {"cl-lim", &VariableEliminationOptions::opt_clause_lim},
        {"gate-recognition-method", &GateRecognitionOptions::method}, {"gate-tries", &GateRecognitionOptions::tries}, {"rs-rounds", &RandomSimulationOptions::opt_rs_nrounds},
        {"rs-max-conj-size", &RandomSimulationOptions::opt_rs_filterConjBySize}, {"advice-size", &RSILOptions::opt_rsil_advice_size},
        {"rsil-van-halflife", &RSILOptions::opt_rsil_vanHalfLife}, {"rsil-imp-budgets", &RSILOptions::opt_rsil_impBudgets},
        {"rsil-filter-by-input-dependencies", &RSILOptions::opt_rsil_filterByInputDeps}, {"rsar-max-refinements", &RSAROptions::opt_rsar_maxRefinementSteps},
        {"rsar-min-gatecount", &RSAROptions::opt_rsar_minGateCount}, {"verb", &SolverOptions::verb}};
    static std::map<std::string, DoubleOption*> D = {
        {"K", &SolverOptions::opt_K}, {"R", &SolverOptions::opt_R}, {"var-decay", &SolverOptions::opt_vsids_var_decay}, {"max-var-decay", &SolverOptions::opt_vsids_max_var_decay},
        {"vsidsc-sample-size", &SolverOptions::opt_vsidsc_samplesize}, {"vsidsc-sample-size-decay", &SolverOptions::opt_vsidsc_samplesize_decay},
        {"vsidsc-dbsize-recalc", &SolverOptions::opt_vsidsc_dbsize_recalc}, {"lrb-step-size", &SolverOptions::opt_lrb_step_size},
        {"lrb-min-step-size", &SolverOptions::opt_lrb_min_step_size}, {"rsil-min-gate-frac", &RSILOptions::opt_rsil_minGateFraction}, {"rs-rrat", &RandomSimulationOptions::opt_rs_rrat}};
    static std::map<std::string, StringOption*> S = {
        {"certified-output", &SolverOptions::opt_certified_file}, {"rsil-mode", &RSILOptions::opt_rsil_mode}, {"rsar-heur-idc", &RSAROptions::opt_rsar_inputDepCountHeurConf}};
    if (B.count(n)) { *B[n] = on; return; }
    if (N.count(n)) { *N[n] = (int32_t)atol(v.c_str()); return; }
    if (D.count(n)) { *D[n] = atof(v.c_str()); return; }
    if (S.count(n)) { *S[n] = v.c_str(); return; }
    fprintf(stderr, "HARNESS: unknown option %s\n", o.c_str()); _exit(99);
}
inline void apply(const Cfg& c) { for (auto& o : c) setOption(o); }
inline Candy::CandySolverInterface* make() {
    using namespace Candy;
    return createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable, RSILOptions::opt_rsil_advice_size);
}

// Random configuration drawn from the user-visible option space. rsil: allow RSIL branching.
inline Cfg anyCfg(Rng& R, bool rsil = true, bool cli = false) {
    Cfg c; auto s = [](const char* k, long v) { return std::string("-") + k + "=" + std::to_string(v); };
    if (R.chance(15)) return c;     // the default configuration
    int b = R.range(0, 99);
    if (b < 25) c.push_back("-use-lrb");
    else if (b < 28) { c.push_back("-use-vsidsc"); if (R.chance(30)) c.push_back("-no-vsidsc-bump"); if (R.chance(30)) c.push_back("-vsidsc-lwcc"); if (R.chance(30)) c.push_back("-vsidsc-dbsize-recalc=1.01"); if (R.chance(30)) c.push_back("-vsidsc-sample-size=0.5"); if (R.chance(20)) c.push_back(s("vsidsc-mult", R.range(1, 1000))); }
    else if (b < 48 && rsil) {
        c.push_back("-rsil-enable"); c.push_back(std::string("-rsil-mode=") + R.pick(std::vector<std::string>{"unrestricted", "vanishing", "implicationbudgeted"}));
        c.push_back(s("advice-size", R.range(2, 3))); c.push_back("-rsil-min-gate-frac=0"); c.push_back(s("rs-rounds", R.pick(std::vector<int>{2048, 4096, 16384})));
        if (R.chance(40)) c.push_back(s("rsil-imp-budgets", R.range(1, 20))); if (R.chance(40)) c.push_back(s("rsil-van-halflife", R.range(1, 200)));
        if (R.chance(30)) c.push_back(s("rsil-filter-by-input-dependencies", R.range(1, 5))); if (R.chance(20)) c.push_back("-rsil-filter-only-backbone");
        if (R.chance(20)) c.push_back("-rs-remove-backbone-conj"); if (R.chance(20)) c.push_back(s("rs-max-conj-size", R.range(2, 6)));
        if (R.chance(15)) c.push_back("-rsil-only-miters"); if (R.chance(20)) c.push_back("-rs-only-nonmono-gates"); if (R.chance(15)) c.push_back("-rs-abort-by-rrat");
    }
    if (R.chance(35)) c.push_back("-static-propagate");
    if (R.chance(35)) c.push_back("-no-pre");
    if (R.chance(20)) c.push_back("-no-elim");
    if (R.chance(15) && !cli) c.push_back("-asymm");
    if (R.chance(40)) c.push_back(s("inprocessing", R.range(1, 4)));
    if (R.chance(25)) c.push_back("-sort-variables");
    if (R.chance(20)) c.push_back("-no-recalculate-lbd");
    if (R.chance(20)) c.push_back("-keep-median-lbd");
    if (R.chance(25)) c.push_back(s("persistentLBD", R.range(0, 6)));
    if (R.chance(55)) { c.push_back(s("firstReduceDB", R.range(1, 60))); c.push_back(s("incReduceDB", R.range(0, 40))); }
    if (R.chance(40)) { c.push_back(s("szLBDQueue", R.range(10, 20))); if (R.coin()) c.push_back(s("szTrailQueue", R.range(10, 50))); }
    if (R.chance(20)) c.push_back("-K=0.95");
    if (R.chance(20)) c.push_back("-R=1.05");
    if (R.chance(20)) c.push_back("-extra-bump");
    if (R.chance(20)) c.push_back(R.coin() ? "-var-decay=0.3" : "-var-decay=0.95");
    if (R.chance(30)) c.push_back(s("cl-lim", R.pick(std::vector<int>{0, 2, 3, 5, 50, 1000})));
    return c;
}
} // namespace vf
