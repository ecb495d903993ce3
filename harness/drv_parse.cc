// Monitor of DIMACS input and output: what is read is exactly what the text says, over every channel;
// damaged input is rejected or still means the same, never silently something else.
#include "candyapi.h"
#include "candy/utils/Exceptions.h"
#include <zlib.h>
using namespace vf;

typedef std::set<std::set<int>> Form;
static Form form(const CNF& f) { Form r; for (auto& c : f) { if (tautology(c)) continue; r.insert(std::set<int>(c.begin(), c.end())); } return r; }
static Form form(const Candy::CNFProblem& p) { Form r; for (Candy::Cl* c : p) { std::set<int> s; for (auto l : *c) s.insert(I(l)); r.insert(s); } return r; }
static std::string diff(const Form& want, const Form& got) {
    auto show = [](const std::set<int>& s) { std::string t; size_t n = 0; for (int l : s) { if (n++ > 12) { t += "..."; break; } t += std::to_string(l) + " "; } return t + "0"; };
    for (auto& c : want) if (!got.count(c)) return "clause missing: " + show(c);
    for (auto& c : got) if (!want.count(c)) return "clause made up: " + show(c);
    return "";
}
static void writeAll(int fd, const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += (size_t)k; } }
static std::string gzip(const std::string& s, int level, bool members, Rng& R) {
    std::string out; size_t pos = 0;
    do {
        size_t n = members ? std::min(s.size() - pos, (size_t)R.range(1, (int)std::max<size_t>(2, s.size() / 2))) : s.size();
        z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
        std::string o(deflateBound(&z, n) + 64, 0); z.next_in = (Bytef*)s.data() + pos; z.avail_in = (uInt)n; z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size();
        deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); out += o; pos += n;
    } while (pos < s.size());
    return out;
}
// layout choices of the writer: whitespace, comments, line breaks, header
struct Writer {
    Rng& R; std::string t; size_t pad; bool bol = true;
    void tok(const std::string& x) { t += x; bol = false; }
    void comment(size_t len) { if (!bol) t += '\n'; t += 'c'; if (len) { t += ' '; for (size_t i = 0; i + 1 < len; i++) t += "abc xyz 0 1-2 p cnf %#\t"[R.below(23)]; } t += '\n'; bol = true; }
    void space() { int d = R.range(0, 99); if (d < 70) t += ' '; else if (d < 80) t += "\t"; else if (d < 90) t += "  "; else t += R.coin() ? "\r\n" : "\n"; }
};
static std::string layout(Rng& R, const CNF& f, bool huge) {
    Writer w{R, "", 0};
    bool plain = R.chance(30);
    int n = maxVar(f), pads = R.range(1, 6);
    if (!plain && R.chance(40)) w.comment((size_t)R.range(0, 60));
    if (R.chance(80)) { int hv = R.chance(80) ? n : R.range(0, 1000), hc = R.chance(80) ? (int)f.size() : R.range(0, 1000); w.t += "p cnf " + std::to_string(hv) + " " + std::to_string(hc) + (R.chance(90) ? "\n" : " \r\n"); }
    for (auto& c : f) {
        if (!plain && R.chance(5)) w.comment(huge && pads > 0 && R.below(std::max<size_t>(1, f.size() / 50)) == 0 ? (pads--, (size_t)R.range(1, 1200000)) : (size_t)R.range(0, 80));
        if (huge && pads > 0 && R.below(std::max<size_t>(1, f.size() / 5)) == 0) { pads--; // pad so that the next token straddles a chunk of the reader
            size_t to = (w.t.size() / 1048576 + 1) * 1048576, back = (size_t)R.range(0, 14);
            if (to > back + w.t.size() + 3) { size_t k = to - back - w.t.size(); if (R.coin()) w.t += "\nc" + std::string(k - 3, 'x') + "\n"; else w.t += std::string(k, R.coin() ? ' ' : '\n'); w.bol = false; }
        }
        for (int l : c) { std::string x = std::to_string(l); if (!plain && R.chance(3)) x = std::string(l < 0 ? "-" : "") + "00" + std::to_string(std::abs(l)); w.tok(x); if (plain) w.t += ' '; else w.space(); }
        w.tok("0"); if (plain || R.chance(75)) { w.t += '\n'; w.bol = true; } else { w.space(); w.bol = false; if (w.t.back() == '\n') w.bol = true; }
    }
    if (!plain && R.chance(15)) w.comment((size_t)R.range(0, 30));
    if (R.chance(20)) while (!w.t.empty() && isspace(w.t.back())) w.t.pop_back();
    if (R.chance(10)) w.t += "\n\n  \n";
    return w.t;
}
enum Channel { FILE_, GZ, STDIN_FILE, STDIN_PIPE };
static const char* chName[] = {"file", "gz", "stdin", "pipe"};
static bool release = false;     // watch what reading keeps allocated
// returns: accepted?
static bool readBack(Case& c, Candy::CNFProblem& p, const std::string& bytes, int ch, std::string& why) {
    Rng& R = c.R; std::string path = c.scratch + "/in." + std::to_string(getpid()) + (ch == GZ ? ".cnf.gz" : ".cnf");
    if (ch != STDIN_PIPE) { int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); writeAll(fd, bytes); close(fd); }
    pid_t w = -1; int keep = dup(0);
    if (ch == STDIN_FILE) { int fd = open(path.c_str(), O_RDONLY); dup2(fd, 0); close(fd); }
    if (ch == STDIN_PIPE) {
        int q[2]; if (pipe(q)) _exit(99); size_t piece = R.pick(std::vector<int>{1, 7, 100, 4096, 70000, 1000000}); if (bytes.size() / piece > 20000) piece = 4096;
        w = fork();
        if (w == 0) { close(q[0]); signal(SIGPIPE, SIG_DFL); for (size_t o = 0; o < bytes.size(); o += piece) writeAll(q[1], bytes.substr(o, piece)); close(q[1]); _exit(0); }
        dup2(q[0], 0); close(q[0]); close(q[1]);
    }
    bool ok = true;
#if defined(__SANITIZE_ADDRESS__)
    if (release && ch != STDIN_PIPE) keepsNothing(c, "input texts read and dropped", [&]() {
        if (ch == STDIN_FILE) { int fd = open(path.c_str(), O_RDONLY); dup2(fd, 0); if (fd) close(fd); } Candy::CNFProblem q; try { if (ch == FILE_ || ch == GZ) q.readDimacsFromFile(path.c_str()); else q.readDimacsFromStdin(); } catch (Candy::ParserException& e) { } if (ch == STDIN_FILE) close(0); });
    if (ch == STDIN_FILE) { int fd = open(path.c_str(), O_RDONLY); dup2(fd, 0); if (fd) close(fd); }
#endif
    try { if (ch == FILE_ || ch == GZ) p.readDimacsFromFile(path.c_str()); else p.readDimacsFromStdin(); }
    catch (Candy::ParserException& e) { ok = false; why = e.what(); }
    if (w > 0) { close(0); kill(w, SIGKILL); waitpid(w, nullptr, 0); }
    dup2(keep, 0); close(keep); unlink(path.c_str());
    return ok;
}
static CNF someFormula(Rng& R, Gen& g, bool huge) {
    CNF f;
    if (huge) { int n = R.range(50, 200000), m = R.range(20000, 120000); for (int i = 0; i < m; i++) f.push_back(g.rclause(n, R.range(1, 7)));
        if (R.chance(30)) { Clause k; int s = R.range(60000, 140000); for (int i = 0; i < s; i++) { int v = R.range(1, 400000); k.push_back(v % 2 ? v : -v); } f.insert(f.begin() + (long)R.below(f.size()), k); } }
    else { f = g.any((int)R.below(2), true); if (R.chance(15)) f.clear(); if (R.chance(15)) f.push_back({}); }
    if (R.chance(10)) f.push_back({R.range(1 << 28, (1 << 30) - 1), -R.range(1, 9)});
    if (R.chance(10)) { Clause k = g.rclause(5, 2); k.push_back(k[0]); f.push_back(k); f.push_back({3, -3, 5}); }
    return f;
}
static void fidelity(Case& c, bool huge) {
    Rng& R = c.R; Gen g(R); CNF f = someFormula(R, g, huge);
    std::string text = layout(R, f, huge); int ch = R.range(0, 3);
    bool z = ch == GZ || (ch != FILE_ && R.chance(30)) || (ch == FILE_ && R.chance(10));
    std::string bytes = z ? gzip(text, R.range(0, 9), R.chance(20), R) : text;
    c.describe(std::string("channel: ") + chName[ch] + (z ? " compressed" : "") + "\ntext (" + std::to_string(text.size()) + " bytes):\n" + text.substr(0, 3000));
    Candy::CNFProblem p; std::string why;
    if (!readBack(c, p, bytes, ch, why)) c.violation("rejected-valid", "well-formed input rejected: " + why);
    Form want = form(f), got = form(p);
    std::string d = diff(want, got); if (!d.empty()) c.violation("parse-differs", d);
    if ((int)p.nVars() < maxVar(f)) { bool onlyTaut = true; for (auto& k : f) if (!tautology(k)) for (int l : k) if (std::abs(l) > (int)p.nVars()) onlyTaut = false; if (!onlyTaut) c.violation("parse-nvars", "nVars() = " + std::to_string(p.nVars()) + " below a variable of the formula"); }
    for (Candy::Cl* k : p) { std::set<int> s; for (auto l : *k) { if (!s.insert(I(l)).second) c.violation("parse-duplicate-literal", "clause kept a duplicate literal"); if (s.count(-I(l))) c.violation("parse-tautology", "tautological clause kept"); } }
    c.count(std::string("channel ") + chName[ch] + (z ? " compressed" : " plain")); c.count("clauses compared", want.size()); c.maxi("bytes of one input", text.size()); c.count("chunk crossings", text.size() / 1048576);
    // output and reading it again
    if (R.chance(huge ? 20 : 50)) {
        std::string path = c.scratch + "/out." + std::to_string(getpid()); fflush(stdout); int keep = dup(1); int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1);
        p.printDIMACS(); std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep); close(fd);
        Candy::CNFProblem q; try { q.readDimacsFromFile(path.c_str()); } catch (Candy::ParserException& e) { c.violation("roundtrip", std::string("own output rejected: ") + e.what()); }
        unlink(path.c_str()); d = diff(want, form(q)); if (!d.empty()) c.violation("roundtrip", "printed formula differs: " + d); c.count("round trips");
    }
    if (f.size() > 1) c.nontrivial(text);
}
// damage: the input must be rejected or mean the same (or, for a clause cut at the end, the clause as far as written)
static void damage(Case& c, bool huge) {
    Rng& R = c.R; Gen g(R); CNF f = someFormula(R, g, huge); while (f.size() < 2) f.push_back(g.rclause(6, 3));
    std::string text; for (auto& k : f) { for (int l : k) text += std::to_string(l) + " "; text += "0\n"; }
    if (R.coin()) text = "p cnf " + std::to_string(maxVar(f)) + " " + std::to_string(f.size()) + "\n" + text;
    int kind = R.range(0, 9), ch = R.pick(std::vector<int>{FILE_, STDIN_FILE, STDIN_PIPE}); std::string bytes, what; bool mustReject = false, mustKeep = false, sameOk = true, any = false; Form want = form(f);
    static const std::vector<std::string> junk = {"x", "abc", "%", "1x", "--1", "-", "+", "1.5", "0x10", "\x01", "\xff", "e", "1e5", ",", "2147483648", "-2147483648", "99999999999999999999", "4611686018427387904", "9223372036854775807", "-9223372036854775808", "4294967296", "4294967297", "8589934592", "1073741824", "-1073741824", "2147483647"};
    switch (kind) {
    case 0: case 1: { // junk instead of a literal, inside a clause
        what = R.pick(junk); mustReject = true; std::vector<std::pair<size_t, size_t>> pos; size_t i = text.compare(0, 1, "p") == 0 ? text.find('\n') + 1 : 0;
        std::string t2; size_t at = i; std::vector<size_t> tokens; bool in = false; for (; at < text.size(); at++) { if (!isspace(text[at]) && !in) { tokens.push_back(at); in = true; } else if (isspace(text[at])) in = false; }
        size_t k = tokens[R.below(tokens.size())]; size_t e = k; while (!isspace(text[e])) e++;
        // a comment sign at the start of a clause is a comment and 'p' a header: not junk
        bytes = text.substr(0, k) + what + text.substr(e); break; }
    case 2: { // cut in the last clause
        while (!text.empty() && isspace(text.back())) text.pop_back(); text.pop_back(); bytes = text; what = "last 0 missing"; if (R.coin()) while (!bytes.empty() && isspace(bytes.back())) bytes.pop_back(); mustReject = f.back().empty() ? false : true; sameOk = false; if (f.back().empty()) any = true; break; }
    case 9: { // text cut at any byte: a cut clause is refused, complete clauses are kept
        size_t h = text[0] == 'p' ? text.find('\n') + 1 : 0, n = R.chance(30) ? text.size() - R.below(std::min<size_t>(text.size(), 12)) : R.below(text.size() + 1);
        bytes = text.substr(0, n); if (R.chance(20)) while (!bytes.empty() && isspace(bytes.back())) bytes.pop_back(); if (R.chance(20)) bytes += R.pick(std::vector<std::string>{" ", "\n", "\t \n", "\r\n"});
        what = "text cut at " + std::to_string(n) + " of " + std::to_string(text.size());
        if (n < h) { any = true; break; }
        std::istringstream is(bytes.substr(std::min(h, bytes.size()))); std::string t; CNF kept; Clause cur; bool open = false; while (is >> t) { if (t == "0") { kept.push_back(cur); cur.clear(); open = false; } else { cur.push_back(atoi(t.c_str())); open = true; } }
        want = form(kept); if (open) { mustReject = true; sameOk = false; } else mustKeep = true; break; }
    case 3: { // truncated archive
        std::string z = gzip(text, R.range(0, 9), false, R); size_t n = R.chance(50) ? z.size() - (size_t)R.range(1, (int)std::min<size_t>(z.size() - 1, 12)) : (size_t)R.range(1, (int)z.size() - 1); bytes = z.substr(0, n); what = "archive cut at " + std::to_string(n) + " of " + std::to_string(z.size()); break; }
    case 4: { // one bit of an archive flipped
        std::string z = gzip(text, R.range(0, 9), false, R); size_t b = R.below(z.size() * 8); z[b / 8] ^= (char)(1 << (b % 8)); bytes = z; what = "bit " + std::to_string(b) + " of the archive flipped"; if (b / 8 < 2) any = true; break; }
    case 5: { what = "header"; mustReject = true; sameOk = false; static const std::vector<std::string> h = {"p cnf", "p dnf 3 3", "p cnf a b", "p cnf -1 5", "p cnf 3 -5", "p", "p cnf 3", "p cnf x 3"}; std::string hh = R.pick(h); if (text[0] == 'p') text = text.substr(text.find('\n') + 1); 
        if (hh == "p cnf" || hh == "p cnf 3") { bytes = hh + "\n"; } else bytes = hh + "\n" + text; what += " " + hh; break; }
    case 6: { what = "random bytes"; any = true; int n = R.range(0, huge ? 1500000 : 400); for (int i = 0; i < n; i++) bytes += (char)R.below(256); break; }
    case 7: { what = "token soup"; any = true; int n = R.range(0, huge ? 400000 : 200); static const std::vector<std::string> tk = {"1", "-2", "0", "p", "cnf", "c", "\n", " ", "-", "999999999", "\r", "\t", "3", "%", "p cnf 2 2\n"}; for (int i = 0; i < n; i++) { bytes += R.pick(tk); if (R.chance(70)) bytes += ' '; } break; }
    default: { what = "one byte replaced"; any = true; bytes = text; bytes[R.below(bytes.size())] = (char)R.below(256); }
    }
    c.describe(std::string("channel: ") + chName[ch] + "\ndamage: " + what + "\ninput:\n" + bytes.substr(0, 2000));
    Candy::CNFProblem p; std::string why; bool ok = readBack(c, p, bytes, ch, why);
    c.count(std::string(ok ? "accepted: " : "rejected: ") + (kind <= 1 ? "junk token" : kind == 2 ? "cut clause" : kind == 3 ? "cut archive" : kind == 4 ? "flipped archive" : kind == 5 ? "bad header" : kind == 6 ? "random bytes" : kind == 7 ? "token soup" : kind == 9 ? "cut text" : "replaced byte"));
    if (!ok && mustKeep) c.violation("rejected-valid", "complete clauses rejected (" + what + "): " + why);
    if (ok && !any) {
        Form got = form(p); std::string d = diff(want, got);
        if (mustReject && !(sameOk && d.empty())) c.violation("accepted-malformed", "malformed input (" + what + ") accepted as a formula; " + d);
        if (!d.empty()) c.violation("accepted-damaged", "damaged input (" + what + ") silently read as a different formula: " + d);
    }
    c.nontrivial(bytes);
}
static void missing(Case& c) {
    std::string p = c.scratch + "/does-not-exist-" + std::to_string(c.R.next()); c.describe("missing file"); Candy::CNFProblem q; bool ok = true;
    try { q.readDimacsFromFile(p.c_str()); } catch (Candy::ParserException& e) { ok = false; }
    if (ok) c.violation("accepted-missing", "a missing file is read as a formula"); c.count("missing files rejected"); 
}

int main(int argc, char** argv) {
    Runner r;
    r.modes["fidelity"] = [](Case& c) { fidelity(c, false); };
    r.modes["fidelity-big"] = [](Case& c) { fidelity(c, true); };
    r.modes["damage"] = [](Case& c) { if (c.R.chance(1)) missing(c); else damage(c, false); };
    r.modes["damage-big"] = [](Case& c) { damage(c, true); };
#if defined(__SANITIZE_ADDRESS__)
    r.modes["release"] = [](Case& c) { release = true; if (c.R.chance(2)) missing(c); else if (c.R.coin()) fidelity(c, false); else damage(c, false); };
#endif
    return r.main(argc, argv);
}
