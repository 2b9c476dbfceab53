// Symbolic runtime.  A symbolic double is a NaN-boxed value: a quiet NaN whose payload is the
// index of a node in an expression DAG.  Every double operation of the code under test was
// rewritten by symfp into a call to a __sym_* function below; loads, stores, copies, calls, and all
// integer/pointer code run natively.  A comparison of symbolic values forks the path: the harness is
// re-executed once per feasible combination of outcomes, feasibility and all obligations being
// decided by an SMT solver (z3, text protocol).
#include "sym.h"
#include <gmpxx.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <iomanip>
#include <ostream>
#include <exception>
#include <fstream>
#include <sstream>

using std::string; using std::vector; using std::map; using std::set;
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

// ------------------------------------------------------------------ nodes
enum Op { CONST, VAR, ADD, SUB, MUL, DIV, NEG, ABS, SQRT, POW, FUN, TRUNC, FLOOR, FMOD, FMA, ITE,
          B_TRUE, B_FALSE, LT, LE, EQ, ISNAN, NOT, AND, OR };
struct Node { Op op; vector<int> a; double c; string name; bool boolean() const { return op >= B_TRUE; } };
static vector<Node> N;
static std::unordered_map<string, int> hashcons;
static sym::Mode gmode = sym::REAL;

static int mk(Op op, vector<int> a = {}, double c = 0, const string& name = "") {
    string key; key.push_back((char)op); for (int x : a) key.append((char*)&x, 4);
    if (op == CONST) key.append((char*)&c, 8);
    if (!name.empty()) key += name;
    auto it = hashcons.find(key); if (it != hashcons.end()) return it->second;
    int id = (int)N.size(); N.push_back({op, a, c, name}); hashcons[key] = id; return id;
}
static const uint64_t TAG = 0x7FFDull << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline bool tagged(double d) { return (bits(d) >> 48) == 0x7FFD; }
static inline double box(int id) { uint64_t u = TAG | (uint64_t)(uint32_t)id; double d; memcpy(&d, &u, 8); return d; }
static inline int nodeOf(double d) { return tagged(d) ? (int)(uint32_t)bits(d) : mk(CONST, {}, d); }
static double unbox(int id) { return N[id].op == CONST ? N[id].c : box(id); }

// ------------------------------------------------------------------ globals
struct Stats {
    long paths = 0, pruned = 0, cut = 0, forks = 0, choices = 0, branchQ = 0, assertQ = 0, witnessQ = 0, sat = 0, unsat = 0, unknown = 0;
    double solverTime = 0; long lra = 0, nra = 0, direct = 0; long ops = 0, syntactic = 0, divAssumed = 0, restarts = 0, concretised = 0;
} st;
struct LabelStat { long checked = 0, discharged = 0, folded = 0; };
static map<string, LabelStat> labels;
static map<string, long> reached;
struct Cand { string label, why, file, out; bool confirmed, known; };
static vector<Cand> cands;
static vector<string> samples, notes;
static set<string> cutReasons, stubs, undecided;
static string outDir = ".", hname;
static Clock::time_point t0;
static double budget = 600; static int branchTimeout = 3000, assertTimeout = 20000;
static int branchTimeoutPath = 1000000;
static bool optNoFeas = false, optSumm = true, optDivAssume = true;
static volatile int inRt = 0;
struct RtGuard { RtGuard() { inRt++; } ~RtGuard() { inRt--; } };

enum EndKind { E_DONE = 1, E_PRUNE, E_CUT, E_STOP, E_CRASH };
static sigjmp_buf pathEnd; static string crashWhat; static bool inPath = false;
static void endPath(EndKind k) { inRt = 0; siglongjmp(pathEnd, k); }
static void cut(const string& r) { cutReasons.insert(r); st.cut++; endPath(E_CUT); }

// ------------------------------------------------------------------ conditions
static int cTrue() { return mk(B_TRUE); }
static int cFalse() { return mk(B_FALSE); }
static int cNot(int a) { if (N[a].op == B_TRUE) return cFalse(); if (N[a].op == B_FALSE) return cTrue(); if (N[a].op == NOT) return N[a].a[0]; return mk(NOT, {a}); }
static int cAnd(int a, int b) { if (N[a].op == B_FALSE || N[b].op == B_FALSE) return cFalse(); if (N[a].op == B_TRUE) return b; if (N[b].op == B_TRUE) return a; if (a == b) return a; if (cNot(a) == b) return cFalse(); return mk(AND, {a, b}); }
static int cOr(int a, int b) { return cNot(cAnd(cNot(a), cNot(b))); }
static bool isC(int n) { return N[n].op == CONST; }
static std::unordered_map<int, bool> decided;
static int mkBin(Op op, int a, int b);
static int mkConst(double v);
static bool nonneg(int id, int depth = 0) {   // evidently not negative (REAL mode)
    const Node& n = N[id]; if (depth > 12) return false;
    switch (n.op) {
        case CONST: return n.c >= 0; case ABS: case SQRT: return true; case MUL: return n.a[0] == n.a[1] || (nonneg(n.a[0], depth + 1) && nonneg(n.a[1], depth + 1));
        case ADD: case DIV: return nonneg(n.a[0], depth + 1) && nonneg(n.a[1], depth + 1); case ITE: return nonneg(n.a[1], depth + 1) && nonneg(n.a[2], depth + 1); default: return false; }
}
static int signOf(int b);   // 1 / -1 if the sign of a divisor (not zero) is known on this path
static int cCmp(Op op, int a, int b);
static int cmpQuot(Op op, int a, int b) {   // comparisons of quotients without the division; -1: leave
    auto isQ = [](int x) { return N[x].op == DIV && N[N[x].a[1]].op != CONST; };
    if (isQ(a) && isQ(b) && N[a].a[1] == N[b].a[1]) {
        int d = N[a].a[1], x = N[a].a[0], y = N[b].a[0], s = signOf(d); if (op == EQ) return cCmp(EQ, x, y);
        if (s) return s > 0 ? cCmp(op, x, y) : cCmp(op, y, x);
        return -1; }
    if (isQ(a) == isQ(b)) return -1;
    bool left = isQ(a); int q = left ? a : b, c = left ? b : a, x = N[q].a[0], d = N[q].a[1]; if (N[c].op != CONST) return -1;
    int m = mkBin(MUL, c, d); if (op == EQ) return cCmp(EQ, x, m);
    int s = signOf(d); if (!s) return -1; if (s < 0) left = !left;
    return left ? cCmp(op, x, m) : cCmp(op, m, x);
}
static int cCmp(Op op, int a, int b) {           // ordered LT / LE / EQ
    if (isC(a) && isC(b)) { double x = N[a].c, y = N[b].c; return (op == LT ? x < y : op == LE ? x <= y : x == y) ? cTrue() : cFalse(); }
    if ((isC(a) && N[a].c != N[a].c) || (isC(b) && N[b].c != N[b].c)) return cFalse();
    if (gmode != sym::FP) {
        if (a == b) return op == LT ? cFalse() : cTrue();
        if (isC(a) && std::isinf(N[a].c)) return op != EQ && N[a].c < 0 ? cTrue() : cFalse();
        if (isC(b) && std::isinf(N[b].c)) return op != EQ && N[b].c > 0 ? cTrue() : cFalse();
    }
    if (gmode == sym::REAL) { int r = cmpQuot(op, a, b); if (r >= 0) return r; }
    if (op == EQ && a > b) std::swap(a, b);
    return mk(op, {a, b});
}
static int signOf(int b) {
    if (nonneg(b)) return 1; if (N[b].op == NEG) return -signOf(N[b].a[0]); int z = mk(CONST, {}, 0.0);
    auto is = [](int c, bool v) { auto it = decided.find(c); return it != decided.end() && it->second == v; };
    int lt = mk(LT, {z, b}), gt = mk(LT, {b, z}), le = mk(LE, {z, b}), ge = mk(LE, {b, z});
    if (is(lt, true) || is(le, true) || is(gt, false) || is(ge, false)) return 1; if (is(gt, true) || is(ge, true) || is(lt, false) || is(le, false)) return -1; return 0;
}
static int rootOf(int id) {   // k if the node is a k-th root (REAL mode)
    const Node& n = N[id]; if (n.op == SQRT) return 2; if (n.op != POW || !isC(n.a[1])) return 0; double e = N[n.a[1]].c; if (!(e > 0 && e < 1)) return 0; double k = std::round(1 / e); return k <= 12 && std::fabs(k * e - 1) < 1e-15 ? (int)k : 0; }
static int cNan(int a) { if (isC(a)) return N[a].c != N[a].c ? cTrue() : cFalse(); if (gmode != sym::FP) return cFalse(); return mk(ISNAN, {a}); }
static int mkIte(int c, int a, int b) { if (N[c].op == B_TRUE) return a; if (N[c].op == B_FALSE) return b; if (a == b) return a; return mk(ITE, {c, a, b}); }

// ------------------------------------------------------------------ arithmetic
static int mkNeg(int a) { if (isC(a)) return mk(CONST, {}, -N[a].c); if (N[a].op == NEG) return N[a].a[0]; return mk(NEG, {a}); }
static int mkConst(double v) { return mk(CONST, {}, v); }
static bool isv(int n, double v) { return isC(n) && N[n].c == v; }
static bool forkCond(int c);
static bool badConst(int n) { return isC(n) && !std::isfinite(N[n].c); }
static int mkBin(Op op, int a, int b) {
    if (isC(a) && isC(b)) { double x = N[a].c, y = N[b].c; return mkConst(op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : x / y); }
    if (gmode == sym::FP) { if ((op == ADD || op == MUL) && a > b) std::swap(a, b); return mk(op, {a, b}); }
    if (badConst(a) || badConst(b)) {
        double ca = isC(a) ? N[a].c : 1, cb = isC(b) ? N[b].c : 1;
        if (ca != ca || cb != cb) return mkConst(NAN);
        if (op == ADD) return badConst(a) ? a : b;
        if (op == SUB) return badConst(a) ? a : mkConst(-N[b].c);
        if (op == DIV && badConst(b)) return mkConst(0);
        int other = badConst(a) ? b : a; double inf = badConst(a) ? ca : cb;
        if (forkCond(cCmp(LT, mkConst(0), other))) return mkConst(inf);
        if (forkCond(cCmp(LT, other, mkConst(0)))) return mkConst(-inf);
        return mkConst(op == MUL ? NAN : inf);
    }
    switch (op) {
        case ADD: if (isv(a, 0)) return b; if (isv(b, 0)) return a;
            if (N[b].op == NEG) return mkBin(SUB, a, N[b].a[0]);
            if (N[a].op == NEG) return mkBin(SUB, b, N[a].a[0]);
            if (a > b) std::swap(a, b); break;
        case SUB: if (isv(b, 0)) return a; if (isv(a, 0)) return mkNeg(b); if (a == b) return mkConst(0);
            if (N[b].op == NEG) return mkBin(ADD, a, N[b].a[0]);
            if (N[a].op == NEG) return mkNeg(mkBin(ADD, N[a].a[0], b));
            if (a > b) return mkNeg(mk(SUB, {b, a})); break;
        case MUL: if (isv(a, 0) || isv(b, 0)) return mkConst(0); if (isv(a, 1)) return b; if (isv(b, 1)) return a;
            if (isv(a, -1)) return mkNeg(b); if (isv(b, -1)) return mkNeg(a);
            if (N[a].op == NEG) return mkNeg(mkBin(MUL, N[a].a[0], b));
            if (N[b].op == NEG) return mkNeg(mkBin(MUL, a, N[b].a[0]));
            if (isC(a) && N[a].c < 0) return mkNeg(mkBin(MUL, mkConst(-N[a].c), b));
            if (isC(b) && N[b].c < 0) return mkNeg(mkBin(MUL, a, mkConst(-N[b].c)));
            if (a > b) std::swap(a, b); break;
        case DIV: if (isv(b, 1)) return a; if (isv(b, -1)) return mkNeg(a);
            if (N[a].op == NEG) return mkNeg(mkBin(DIV, N[a].a[0], b));
            if (N[b].op == NEG) return mkNeg(mkBin(DIV, a, N[b].a[0]));
            break;
        default: break;
    }
    return mk(op, {a, b});
}
static int mkAbs(int a) { if (isC(a)) return mkConst(std::fabs(N[a].c)); if (N[a].op == NEG && gmode != sym::FP) return mkAbs(N[a].a[0]); if (N[a].op == ABS) return a; return mk(ABS, {a}); }

// ------------------------------------------------------------------ path state
struct PathLit { int cond; };
static vector<int> pathc;                 // asserted conditions, in order
static vector<std::pair<string, int>> pathChoices;   // choice name -> value
static map<string, int> nameCount;
static vector<int> pathVars;
static map<int, std::pair<double, double>> varBounds;
struct Dec { int kind; int cond; int val; vector<int> pending; };   // kind 0: branch, 1: choice
static vector<Dec> trace; static size_t tpos = 0; static uint64_t phash = 0;
static void mixPath(uint64_t v) { phash = (phash ^ (v + 0x9e3779b97f4a7c15ull)) * 0xff51afd7ed558ccdull; phash ^= phash >> 29; }

static string ratStr(const mpq_class& q) {
    mpq_class a = abs(q); string s = a.get_den() == 1 ? a.get_num().get_str() + ".0" : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
    return q < 0 ? "(- " + s + ")" : s;
}
static string fpStr(double d) {
    if (d != d) return "(_ NaN 11 53)";
    uint64_t u = bits(d); char buf[128]; string e, m;
    for (int i = 62; i >= 52; i--) e += (u >> i & 1) ? '1' : '0';
    snprintf(buf, sizeof buf, "(fp #b%d #b%s #b", (int)(u >> 63), e.c_str());
    for (int i = 51; i >= 0; i--) m += (u >> i & 1) ? '1' : '0';
    return string(buf) + m + ")";
}

static string show(int id, int d) { static const char* nm[] = {"CONST", "VAR", "+", "-", "*", "/", "NEG", "ABS", "SQRT", "POW", "FUN", "TRUNC", "FLOOR", "FMOD", "FMA", "ITE", "T", "F", "<", "<=", "=", "ISNAN", "!", "&", "|"}; const Node& n = N[id]; if (n.op == CONST) { char b[32]; snprintf(b, 32, "%g", n.c); return b; } if (n.op == VAR) return n.name; if (!d) return "#" + std::to_string(id); string o = string("(") + nm[n.op] + (n.op == FUN ? n.name : ""); for (int x : n.a) o += " " + show(x, d - 1); return o + ")"; }
// ------------------------------------------------------------------ solver process
struct Solver {
    sym::Mode mode; pid_t pid = -1; int in = -1, out = -1; string buf;
    vector<int> sent;                                  // asserted conditions (one push each)
    std::unordered_map<int, int> emitted; vector<vector<int>> byLevel; set<string> decl; vector<vector<string>> declByLevel;
    bool lin = false;                                  // over-approximate products by sign lemmas (linear arithmetic)
    explicit Solver(sym::Mode m) : mode(m) {}
    void start() {
        int a[2], b[2]; if (pipe(a) || pipe(b)) _exit(2);
        pid = fork();
        if (pid == 0) { dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2); for (int i = 3; i < 64; i++) close(i);
            struct itimerval z = {}; setitimer(ITIMER_PROF, &z, 0); signal(SIGPROF, SIG_DFL);
            const char* z3 = getenv("SYM_Z3"); if (!z3) z3 = "z3-new"; execlp(z3, z3, "-in", "-smt2", (char*)0); _exit(127); }
        close(a[0]); close(b[1]); in = a[1]; out = b[0]; fcntl(in, F_SETFD, FD_CLOEXEC); fcntl(out, F_SETFD, FD_CLOEXEC);
        sent.clear(); emitted.clear(); byLevel.assign(1, {}); decl.clear(); declByLevel.assign(1, {}); buf.clear();
        put("(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-option :model.completion true)\n");
        if (mode == sym::UF) put("(declare-fun fadd (Real Real) Real)(declare-fun fsub (Real Real) Real)(declare-fun fmul (Real Real) Real)(declare-fun fdiv (Real Real) Real)\n(declare-fun f_sqrt (Real) Real)(declare-fun f_pow (Real Real) Real)(declare-fun f_trunc (Real) Real)(declare-fun f_floor (Real) Real)(declare-fun f_fmod (Real Real) Real)(declare-fun f_fma (Real Real Real) Real)\n");
        if (mode == sym::REAL) put("(declare-fun f_pow (Real Real) Real)(declare-fun f_fmod (Real Real) Real)\n");
    }
    void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, 0, 0); close(in); close(out); pid = -1; } }
    void put(const string& s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(in, s.data() + o, s.size() - o); if (k <= 0) { if (k < 0 && errno == EINTR) continue; break; } o += k; } if (getenv("SYM_LOG")) { static FILE* f = fopen(getenv("SYM_LOG"), "w"); fwrite(s.data(), 1, s.size(), f); fflush(f); } }
    bool getc_(char& c, double deadline, Clock::time_point s) {
        while (buf.empty()) {
            double left = deadline - since(s); if (left <= 0) return false;
            struct pollfd p = {out, POLLIN, 0}; int r = poll(&p, 1, (int)(left * 1000) + 1);
            if (r < 0 && errno == EINTR) continue; if (r <= 0) return false;
            char t[65536]; ssize_t k = read(out, t, sizeof t); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; buf.assign(t, k);
        }
        c = buf[0]; buf.erase(0, 1); return true;
    }
    // one s-expression or atom
    bool readSexp(string& r, double timeout) {
        auto s = Clock::now(); r.clear(); int depth = 0; char c; bool q = false;
        size_t pos = 0;
        for (;;) {
            while (pos >= buf.size()) {
                if (pos) { r.append(buf, 0, pos); buf.clear(); pos = 0; }
                char t; if (!getc_(t, timeout, s)) return false; buf.insert(buf.begin(), t);
            }
            c = buf[pos++];
            if (q) { if (c == '"') q = false; continue; }
            if (c == '"') { q = true; continue; }
            if (c == '(') depth++;
            else if (c == ')') { depth--; if (depth == 0) break; }
            else if (isspace((unsigned char)c) && depth == 0) {
                string cur = r + buf.substr(0, pos); size_t f = cur.find_first_not_of(" \t\r\n");
                if (f != string::npos) break;
            }
        }
        r.append(buf, 0, pos); buf.erase(0, pos);
        size_t f = r.find_first_not_of(" \t\r\n"), l = r.find_last_not_of(" \t\r\n"); r = r.substr(f, l - f + 1); return true;
    }
    string nm(int id) const {
        const Node& n = N[id];
        switch (n.op) {
            case CONST: if (mode == sym::FP) return fpStr(n.c);
                if (!std::isfinite(n.c)) return "bad_const"; return ratStr(mpq_class(n.c));
            case B_TRUE: return "true"; case B_FALSE: return "false";
            default: return (n.boolean() ? "b" : "n") + std::to_string(id);
        }
    }
    string sort() const { return mode == sym::FP ? "(_ FloatingPoint 11 53)" : "Real"; }
    static string funName(const string& s) { return "|uf_" + s + "|"; }
    void declare(string& o, const string& name, const string& d) { if (decl.insert(name).second) { declByLevel.back().push_back(name); o += d; } }
    void def(string& o, int root) {
        vector<std::pair<int, size_t>> stk; if (need(root)) stk.push_back({root, 0});
        while (!stk.empty()) {
            int id = stk.back().first; size_t k = stk.back().second;
            if (k < N[id].a.size()) { stk.back().second++; int c = N[id].a[k]; if (need(c)) stk.push_back({c, 0}); continue; }
            stk.pop_back(); if (!need(id)) continue;
            emit(o, id); emitted[id] = (int)byLevel.size() - 1; byLevel.back().push_back(id);
        }
    }
    bool need(int id) const { Op op = N[id].op; return op != CONST && op != B_TRUE && op != B_FALSE && !emitted.count(id); }
    void emit(string& o, int id) {
        const Node n = N[id]; vector<string> a; for (int x : n.a) a.push_back(nm(x));
        string me = nm(id), S = sort(), e; bool fp = mode == sym::FP, uf = mode == sym::UF;
        if (lin && mode == sym::REAL && ((n.op == MUL && !isC(n.a[0]) && !isC(n.a[1])) || (n.op == DIV && !isC(n.a[1])))) {
            const string &x = a[0], &y = a[1]; o += "(declare-const " + me + " Real)\n";
            if (n.op == DIV) o += "(assert (not (= " + y + " 0.0)))\n(assert (= (= " + me + " 0.0) (= " + x + " 0.0)))\n(assert (= (> " + me + " 0.0) (or (and (> " + x + " 0.0) (> " + y + " 0.0)) (and (< " + x + " 0.0) (< " + y + " 0.0)))))\n";
            else if (n.a[0] == n.a[1]) o += "(assert (and (>= " + me + " 0.0) (= (= " + me + " 0.0) (= " + x + " 0.0))))\n";
            else o += "(assert (= (= " + me + " 0.0) (or (= " + x + " 0.0) (= " + y + " 0.0))))\n(assert (= (> " + me + " 0.0) (or (and (> " + x + " 0.0) (> " + y + " 0.0)) (and (< " + x + " 0.0) (< " + y + " 0.0)))))\n";
            return; }
        auto rm = [&](const char* op) { return string("(") + op + " RNE " + a[0] + (a.size() > 1 ? " " + a[1] : "") + ")"; };
        switch (n.op) {
            case VAR: o += "(declare-const " + me + " " + S + ")\n";
                return;
            case ADD: e = fp ? rm("fp.add") : uf ? "(fadd " + a[0] + " " + a[1] + ")" : "(+ " + a[0] + " " + a[1] + ")"; break;
            case SUB: e = fp ? rm("fp.sub") : uf ? "(fsub " + a[0] + " " + a[1] + ")" : "(- " + a[0] + " " + a[1] + ")"; break;
            case MUL: e = fp ? rm("fp.mul") : uf ? "(fmul " + a[0] + " " + a[1] + ")" : "(* " + a[0] + " " + a[1] + ")"; break;
            case DIV:
                if (fp) e = rm("fp.div"); else if (uf) e = "(fdiv " + a[0] + " " + a[1] + ")";
                else if (isC(n.a[1])) e = "(/ " + a[0] + " " + a[1] + ")";
                else { o += "(declare-const " + me + " Real)\n(assert (= (* " + me + " " + a[1] + ") " + a[0] + "))\n(assert (not (= " + a[1] + " 0.0)))\n"; return; }
                break;
            case NEG: e = fp ? "(fp.neg " + a[0] + ")" : "(- " + a[0] + ")"; break;
            case ABS: e = fp ? "(fp.abs " + a[0] + ")" : "(ite (< " + a[0] + " 0.0) (- " + a[0] + ") " + a[0] + ")"; break;
            case SQRT: if (fp) e = "(fp.sqrt RNE " + a[0] + ")"; else if (uf) e = "(f_sqrt " + a[0] + ")";
                else { o += "(declare-const " + me + " Real)\n(assert (and (>= " + me + " 0.0) (= (* " + me + " " + me + ") " + a[0] + ")))\n"; return; } break;
            case POW: {
                if (fp) { declare(o, "pow", "(declare-fun f_pow (" + S + " " + S + ") " + S + ")\n"); }
                o += "(define-fun " + me + " () " + S + " (f_pow " + a[0] + " " + a[1] + "))\n";
                if (mode == sym::REAL) { int k = rootOf(id); if (k == 3) o += "(assert (= (* " + me + " " + me + " " + me + ") " + a[0] + "))\n"; }
                if (fp) { string z = "((_ to_fp 11 53) RNE 0.0)", w = "((_ to_fp 11 53) RNE 1.0)";
                    o += "(assert (=> (or (fp.isNaN " + a[0] + ") (fp.isNaN " + a[1] + ")) (or (fp.isNaN " + me + ") (fp.eq " + a[0] + " " + w + ") (fp.isZero " + a[1] + "))))\n";
                    o += "(assert (=> (and (fp.geq " + a[0] + " " + z + ") (not (fp.isNaN " + a[1] + "))) (fp.geq " + me + " " + z + ")))\n";
                    o += "(assert (=> (and (fp.gt " + a[1] + " " + z + ") (fp.geq " + a[0] + " " + w + ")) (fp.geq " + me + " " + w + ")))\n";
                    o += "(assert (=> (and (fp.gt " + a[1] + " " + z + ") (fp.geq " + a[0] + " " + z + ") (fp.leq " + a[0] + " " + w + ")) (fp.leq " + me + " " + w + ")))\n"; }
                if (!fp) {
                    o += "(assert (=> (> " + a[0] + " 0.0) (> " + me + " 0.0)))\n";
                    o += "(assert (=> (= " + a[0] + " 1.0) (= " + me + " 1.0)))\n";
                    o += "(assert (=> (and (> " + a[1] + " 0.0) (> " + a[0] + " 0.0)) (and (= (< " + a[0] + " 1.0) (< " + me + " 1.0)) (= (> " + a[0] + " 1.0) (> " + me + " 1.0)))))\n";
                    o += "(assert (=> (and (< " + a[1] + " 0.0) (> " + a[0] + " 0.0)) (and (= (< " + a[0] + " 1.0) (> " + me + " 1.0)) (= (> " + a[0] + " 1.0) (< " + me + " 1.0)))))\n";
                }
                return; }
            case FUN: {
                string ar; for (size_t i = 0; i < a.size(); i++) ar += S + " "; string f = funName(n.name);
                declare(o, f, "(declare-fun " + f + " (" + ar + ") " + S + ")\n");
                if (a.empty()) e = f; else { e = "(" + f; for (auto& x : a) e += " " + x; e += ")"; }
                o += "(define-fun " + me + " () " + S + " " + e + ")\n";
                if (!fp) {
                    if (n.name == "exp" || n.name == "exp2" || n.name == "cosh") o += "(assert (> " + me + " 0.0))\n";
                    if (n.name == "sin" || n.name == "cos") o += "(assert (and (<= " + me + " 1.0) (>= " + me + " (- 1.0))))\n";
                }
                return; }
            case TRUNC: e = fp ? "(fp.roundToIntegral RTZ " + a[0] + ")" : uf ? "(f_trunc " + a[0] + ")" : "(ite (>= " + a[0] + " 0.0) (to_real (to_int " + a[0] + ")) (- (to_real (to_int (- " + a[0] + ")))))"; break;
            case FLOOR: e = fp ? "(fp.roundToIntegral RTN " + a[0] + ")" : uf ? "(f_floor " + a[0] + ")" : "(to_real (to_int " + a[0] + "))"; break;
            case FMOD: if (mode == sym::REAL && isC(n.a[1]) && N[n.a[1]].c != 0) { e = "(let ((q (/ " + a[0] + " " + a[1] + "))) (- " + a[0] + " (* " + a[1] + " (ite (>= q 0.0) (to_real (to_int q)) (- (to_real (to_int (- q))))))))"; }
                else { if (fp) declare(o, "fmod", "(declare-fun f_fmod (" + S + " " + S + ") " + S + ")\n"); e = "(f_fmod " + a[0] + " " + a[1] + ")"; } break;
            case FMA: e = fp ? "(fp.fma RNE " + a[0] + " " + a[1] + " " + a[2] + ")" : uf ? "(f_fma " + a[0] + " " + a[1] + " " + a[2] + ")" : "(+ (* " + a[0] + " " + a[1] + ") " + a[2] + ")"; break;
            case ITE: e = "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"; break;
            case LT: e = fp ? "(fp.lt " + a[0] + " " + a[1] + ")" : "(< " + a[0] + " " + a[1] + ")"; break;
            case LE: e = fp ? "(fp.leq " + a[0] + " " + a[1] + ")" : "(<= " + a[0] + " " + a[1] + ")"; break;
            case EQ: e = fp ? "(fp.eq " + a[0] + " " + a[1] + ")" : "(= " + a[0] + " " + a[1] + ")"; break;
            case ISNAN: e = "(fp.isNaN " + a[0] + ")"; break;
            case NOT: e = "(not " + a[0] + ")"; break;
            case AND: e = "(and " + a[0] + " " + a[1] + ")"; break;
            case OR: e = "(or " + a[0] + " " + a[1] + ")"; break;
            default: e = "ERR";
        }
        o += "(define-fun " + me + " () " + (n.boolean() ? "Bool" : S) + " " + e + ")\n";
    }
    void push(string& o) { o += "(push)\n"; byLevel.push_back({}); declByLevel.push_back({}); }
    void pop(string& o) { o += "(pop)\n"; for (int i : byLevel.back()) emitted.erase(i); byLevel.pop_back(); for (auto& d : declByLevel.back()) decl.erase(d); declByLevel.pop_back(); }
    void sync(string& o, const vector<int>& p) {
        size_t k = 0; while (k < p.size() && k < sent.size() && p[k] == sent[k]) k++;
        while (sent.size() > k) { pop(o); sent.pop_back(); }
        for (; k < p.size(); k++) { push(o); def(o, p[k]); o += "(assert " + nm(p[k]) + ")\n"; sent.push_back(p[k]); }
    }
    // checks path && extra; returns 1 sat, 0 unsat, -1 unknown. keepModel leaves the pushed frame for modelOf.
    int check(const vector<int>& p, const vector<int>& extra, int timeoutMs, bool keep = false, const string& tactic = "") {
        auto s = Clock::now(); if (pid < 0) start();
        string o; sync(o, p); push(o);
        for (int e : extra) { def(o, e); o += "(assert " + nm(e) + ")\n"; }
        o += "(set-option :timeout " + std::to_string(timeoutMs) + ")\n";
        o += tactic.empty() ? "(check-sat)\n" : "(check-sat-using " + tactic + ")\n"; put(o);
        string r; int res = -1;
        for (;;) {
            if (!readSexp(r, timeoutMs / 1000. * 1.5 + 10)) { stop(); st.restarts++; st.unknown++; st.solverTime += since(s); return -1; }
            if (r.rfind("(error", 0) == 0) { fprintf(stderr, "solver: %s\n", r.c_str()); cutReasons.insert("solver error: " + r.substr(0, 7) + (cutReasons.size() < 5 ? r.substr(7) : string("..."))); continue_err = true; continue; }
            break;
        }
        res = r == "sat" ? 1 : r == "unsat" ? 0 : -1; if (continue_err) { res = -1; continue_err = false; }
        (res == 1 ? st.sat : res == 0 ? st.unsat : st.unknown)++;
        st.solverTime += since(s);
        if (since(s) > 0.4 && getenv("SYM_VERBOSE")) fprintf(stderr, "slow query %.1fs res %d path %zu extra %s lin %d\n", since(s), res, p.size(), extra.empty() ? "-" : show(extra[0], 4).c_str(), (int)lin);
        if (!keep || res != 1) { string q; pop(q); put(q); }
        return res;
    }
    bool continue_err = false;
    void release() { string q; pop(q); put(q); }
    bool value(const string& e, string& r) { put("(get-value (" + e + "))\n"); if (!readSexp(r, 20)) return false; return r.rfind("(error", 0) != 0; }
};
static Solver *sv = nullptr, *svReal = nullptr, *svAbs = nullptr, *svLin = nullptr;
// REAL: short full query, then the linear over-approximation (only its "unsat" counts), then the full query
static int query(const vector<int>& p, const vector<int>& extra, int timeoutMs) {
    if (sv->mode != sym::REAL || timeoutMs <= 600) return sv->check(p, extra, timeoutMs);
    int r = sv->check(p, extra, 500); if (r >= 0) return r; st.unknown--;
    if (!svLin) { svLin = new Solver(sym::REAL); svLin->lin = true; }
    r = svLin->check(p, extra, 2000); st.lra++; if (r == 0) return 0; if (r == 1) st.sat--; else st.unknown--;
    return sv->check(p, extra, timeoutMs);
}

// parse the value part of "((expr value))"
static bool parseVal(const string& s, size_t& i, double& v) {
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
    if (i >= s.size()) return false;
    if (s[i] == '(') {
        i++; size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j]) && s[j] != ')') j++; string op = s.substr(i, j - i); i = j;
        if (op == "-") { double a; if (!parseVal(s, i, a)) return false; v = -a; }
        else if (op == "/") { double a, b; if (!parseVal(s, i, a) || !parseVal(s, i, b)) return false; v = a / b; }
        else if (op == "_") { size_t e = s.find(')', i); string t = s.substr(i, e - i); v = t.find("NaN") != string::npos ? NAN : t.find("+oo") != string::npos ? INFINITY : t.find("-oo") != string::npos ? -INFINITY : t.find("-zero") != string::npos ? -0.0 : 0.0; i = e; }
        else if (op == "fp") {
            size_t e = s.find(')', i); std::istringstream is(s.substr(i, e - i)); string a, b, c; is >> a >> b >> c; i = e;
            auto ul = [](const string& x) { uint64_t r = 0; if (x[1] == 'b') for (size_t k = 2; k < x.size(); k++) r = r * 2 + (x[k] - '0'); else r = strtoull(x.c_str() + 2, 0, 16); return r; };
            uint64_t u = ul(a) << 63 | ul(b) << 52 | ul(c); memcpy(&v, &u, 8);
        } else return false;
        while (i < s.size() && s[i] != ')') i++; i++; return true;
    }
    size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j]) && s[j] != ')') j++;
    string t = s.substr(i, j - i); i = j; if (t.empty()) return false; if (t.back() == '?') t.pop_back();
    v = strtod(t.c_str(), 0); return true;
}
static bool modelVal(Solver& s, int id, double& v) {
    if (isC(id)) { v = N[id].c; return true; }
    if (!s.emitted.count(id)) return false;
    string r; if (!s.value(s.nm(id), r)) return false;
    size_t i = r.find(s.nm(id)); if (i == string::npos) return false; i += s.nm(id).size(); return parseVal(r, i, v);
}
struct Model { map<string, double> v; struct F { string n; vector<double> a; double v; }; vector<F> f; };
static Model getModel(Solver& s) {
    Model m; for (int id : pathVars) { double v; if (modelVal(s, id, v)) m.v[N[id].name] = v; }
    vector<int> em; for (auto& e : s.emitted) if (N[e.first].op == FUN && N[e.first].name.rfind("lib:", 0) != 0) em.push_back(e.first);
    for (int id : em) { Model::F f; f.n = N[id].name; bool ok = true; for (int a : N[id].a) { double v; if (!modelVal(s, a, v)) { ok = false; break; } f.a.push_back(v); } if (ok && modelVal(s, id, f.v)) m.f.push_back(f); }
    return m;
}
static string modelText(const Model& m, int seed) {
    string o; char b[64];
    for (auto& c : pathChoices) o += "V " + c.first + " " + std::to_string(c.second) + "\n";
    for (auto& x : m.v) { snprintf(b, sizeof b, "%.17g", x.second); o += "V " + x.first + " " + b + "\n"; }
    for (auto& f : m.f) { o += "F " + f.n + " " + std::to_string(f.a.size()); for (double a : f.a) { snprintf(b, sizeof b, " %.17g", a); o += b; } snprintf(b, sizeof b, " %.17g", f.v); o += b; o += "\n"; }
    if (seed) o += "S " + std::to_string(seed) + "\n";
    return o;
}

// ------------------------------------------------------------------ polynomial normal form (REAL)
typedef vector<std::pair<int, int>> Mono;      // (atom, exponent) sorted by atom
typedef map<Mono, mpq_class> Poly;
struct TooBig {};
static size_t polyLimit = 60000;
static void padd(Poly& a, const Poly& b, const mpq_class& k) { for (auto& t : b) { auto it = a.find(t.first); if (it == a.end()) a.emplace(t.first, t.second * k); else { it->second += t.second * k; if (it->second == 0) a.erase(it); } } if (a.size() > polyLimit) throw TooBig(); }
static Mono mmul(const Mono& a, const Mono& b) { Mono r; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]); else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]); else { r.push_back({a[i].first, a[i].second + b[j].second}); i++, j++; } } return r; }
static Poly pmul(const Poly& a, const Poly& b) { Poly r; if (a.size() * b.size() > 40 * polyLimit) throw TooBig(); for (auto& x : a) for (auto& y : b) { auto m = mmul(x.first, y.first); auto it = r.find(m); if (it == r.end()) r.emplace(m, x.second * y.second); else { it->second += x.second * y.second; if (it->second == 0) r.erase(it); } if (r.size() > polyLimit) throw TooBig(); } return r; }
static Poly pconst(const mpq_class& q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
static Poly patom(int id) { Poly p; p[Mono{{id, 1}}] = 1; return p; }
static bool pisconst(const Poly& p, mpq_class& v) { if (p.empty()) { v = 0; return true; } if (p.size() == 1 && p.begin()->first.empty()) { v = p.begin()->second; return true; } return false; }
struct PNF {
    std::unordered_map<int, Poly> memo; vector<int> divs; std::unordered_map<int, std::pair<Poly, Poly>> divdef;
    // powers of k-th roots reduce to their radicand
    Poly roots(const Poly& p) {
        bool any = false; for (auto& t : p) for (auto& a : t.first) { int k = rootOf(a.first); if (k && a.second >= k) any = true; }
        if (!any) return p; Poly r;
        for (auto& t : p) { Poly f = pconst(t.second); Mono keep; vector<std::pair<int, int>> rep;
            for (auto& a : t.first) { int k = rootOf(a.first); if (k && a.second >= k) { rep.push_back({a.first, a.second / k}); if (a.second % k) keep.push_back({a.first, a.second % k}); } else keep.push_back(a); }
            if (rep.empty()) { padd(r, Poly{{t.first, t.second}}, 1); continue; }
            f.clear(); f[keep] = t.second; for (auto& a : rep) { Poly g = get(N[a.first].a[0]); for (int k = 0; k < a.second; k++) f = pmul(f, g); } padd(r, f, 1); }
        return roots(r); }
    const Poly& get(int id) {
        vector<std::pair<int, size_t>> stk{{id, 0}};
        while (!stk.empty()) {
            int x = stk.back().first; if (memo.count(x)) { stk.pop_back(); continue; }
            const Node& n = N[x]; bool arith = n.op == ADD || n.op == SUB || n.op == MUL || n.op == NEG || n.op == DIV || n.op == FMA;
            if (arith && stk.back().second < n.a.size()) { int c = n.a[stk.back().second++]; if (!memo.count(c)) stk.push_back({c, 0}); continue; }
            Poly r;
            switch (n.op) {
                case CONST: if (!std::isfinite(n.c)) throw TooBig(); r = pconst(mpq_class(n.c)); break;
                case ADD: r = memo[n.a[0]]; padd(r, memo[n.a[1]], 1); break;
                case SUB: r = memo[n.a[0]]; padd(r, memo[n.a[1]], -1); break;
                case NEG: padd(r, memo[n.a[0]], -1); break;
                case MUL: r = roots(pmul(memo[n.a[0]], memo[n.a[1]])); break;
                case FMA: r = roots(pmul(memo[n.a[0]], memo[n.a[1]])); padd(r, memo[n.a[2]], 1); break;
                case DIV: { mpq_class c; const Poly& d = memo[n.a[1]]; const Poly& nu = memo[n.a[0]]; if (pisconst(d, c) && c != 0) { padd(r, nu, 1 / c); break; } if (nu.empty()) break;
                    { auto k = nu.begin()->second / d.begin()->second; Poly t = nu; padd(t, d, -k); if (t.empty()) { r = pconst(k); break; } }
                    r = patom(x); divs.push_back(x); divdef[x] = {nu, d}; break; }
                default: r = patom(x);
            }
            memo[x] = r; stk.pop_back();
        }
        return memo[id];
    }
    // eliminate division atoms through inputs that occur linearly in the numerator
    map<int, Poly> subs;
    Poly subst(const Poly& p) {
        Poly r;
        for (auto& t : p) { Poly f = pconst(t.second); Mono keep; vector<std::pair<int, int>> rep; for (auto& a : t.first) if (subs.count(a.first)) rep.push_back(a); else keep.push_back(a);
            if (rep.empty()) { padd(r, Poly{{t.first, t.second}}, 1); continue; }
            f.clear(); f[keep] = t.second; for (auto& a : rep) for (int k = 0; k < a.second; k++) f = pmul(f, subs[a.first]); padd(r, f, 1); }
        return r;
    }
    void eliminate() {
        std::sort(divs.begin(), divs.end());
        for (int d : divs) {
            Poly E = pmul(patom(d), divdef[d].second); padd(E, divdef[d].first, -1); E = subst(E);
            map<int, int> occ; for (auto& t : E) for (auto& a : t.first) occ[a.first]++;
            int best = -1; for (auto& t : E) if (t.first.size() == 1 && t.first[0].second == 1 && N[t.first[0].first].op == VAR && occ[t.first[0].first] == 1) best = std::max(best, t.first[0].first);
            if (best < 0) continue;
            mpq_class c = E[Mono{{best, 1}}]; E.erase(Mono{{best, 1}}); Poly def; padd(def, E, -1 / c);
            map<int, Poly> one; one[best] = def; std::swap(subs, one); map<int, Poly> upd; for (auto& s : one) upd[s.first] = subst(s.second); std::swap(subs, one); subs = upd; subs[best] = def;
        }
    }
    // rational-function numerator: replace each division atom q by num/den, clearing denominators
    bool rationalZero(Poly p) { return numerator(p).empty(); }
    Poly numerator(Poly p) {
        vector<int> ds = divs; std::sort(ds.rbegin(), ds.rend());
        for (int d : ds) { int deg = 0; for (auto& t : p) for (auto& a : t.first) if (a.first == d) deg = std::max(deg, a.second); if (!deg) continue;
            vector<Poly> pn{pconst(1)}, pd{pconst(1)}; for (int k = 0; k < deg; k++) { pn.push_back(pmul(pn.back(), divdef[d].first)); pd.push_back(pmul(pd.back(), divdef[d].second)); }
            Poly r; for (auto& t : p) { int e = 0; Mono m; for (auto& a : t.first) if (a.first == d) e = a.second; else m.push_back(a); Poly f; f[m] = t.second; padd(r, pmul(f, pmul(pn[e], pd[deg - e])), 1); } p = r; }
        return p;
    }
};
static string abstractLin(const Poly& p, std::map<Mono, int>& ids) {
    string o = "(+ 0.0 0.0"; for (auto& t : p) { if (t.first.empty()) { o += " " + ratStr(t.second); continue; } auto it = ids.find(t.first); int k; if (it == ids.end()) { k = (int)ids.size(); ids[t.first] = k; } else k = it->second; o += " (* " + ratStr(t.second) + " m" + std::to_string(k) + ")"; } return o + ")";
}
// decide a linear query over monomial variables
static int absCheck(const Poly& pa, const Poly& pb, const mpq_class* tol) {
    auto s = Clock::now(); if (!svAbs) svAbs = new Solver(sym::REAL); if (svAbs->pid < 0) svAbs->start();
    std::map<Mono, int> ids; string la = abstractLin(pa, ids), lb = abstractLin(pb, ids), o = "(push)\n";
    for (auto& m : ids) {
        string v = "m" + std::to_string(m.second); o += "(declare-const " + v + " Real)\n";
        if (tol) { // interval of the monomial from the declared input bounds
            mpq_class lo = 1, hi = 1; bool ok = true;
            for (auto& a : m.first) { auto b = varBounds.find(a.first); if (b == varBounds.end()) { ok = false; break; } for (int k = 0; k < a.second; k++) { mpq_class l(b->second.first), h(b->second.second); mpq_class c[4] = {lo * l, lo * h, hi * l, hi * h}; lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4); } }
            if (ok) o += "(assert (and (<= " + ratStr(lo) + " " + v + ") (<= " + v + " " + ratStr(hi) + ")))\n";
        }
    }
    if (tol) o += "(assert (or (> (- " + la + " " + lb + ") " + ratStr(*tol) + ") (< (- " + la + " " + lb + ") (- " + ratStr(*tol) + "))))\n";
    else o += "(assert (not (= " + la + " " + lb + ")))\n";
    o += "(set-option :timeout 20000)\n(check-sat)\n"; svAbs->put(o); string r; int res = -1;
    if (!svAbs->readSexp(r, 60)) svAbs->stop(); else { svAbs->put("(pop)\n"); res = r == "unsat" ? 0 : r == "sat" ? 1 : -1; if (r.rfind("(error", 0) == 0) { cutReasons.insert("solver error: " + r.substr(0, 7) + (cutReasons.size() < 5 ? r.substr(7) : string("..."))); svAbs->stop(); } }
    st.lra++; (res == 1 ? st.sat : res == 0 ? st.unsat : st.unknown)++; st.solverTime += since(s); return res;
}

// ------------------------------------------------------------------ counterexample confirmation
static string replayBin; static bool replayBuilt = false; static bool replayOk = false; static vector<std::pair<string, string>> knownLabels;
static bool buildReplay() {
    if (replayBuilt) return replayOk; replayBuilt = true; const char* c = getenv("SYM_REPLAY_CMD"); const char* b = getenv("SYM_REPLAY_BIN");
    if (!b) return false; replayBin = b; if (c && access(b, X_OK)) { int r = system(c); (void)r; } return replayOk = access(b, X_OK) == 0;
}
static int runReplay(const string& file, string& out) {    // 42: reproduced
    string cmd = "ASAN_OPTIONS=exitcode=44:detect_leaks=0:abort_on_error=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=44 timeout 20 '" + replayBin + "' " + hname + " '" + file + "' 2>&1";
    FILE* p = popen(cmd.c_str(), "r"); out.clear(); if (!p) return -1; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) if (out.size() < 20000) out.append(b, k);
    int rc = pclose(p); return WIFEXITED(rc) ? WEXITSTATUS(rc) : 128 + WTERMSIG(rc);
}
static long candNo = 0, validated = 0, validationMiss = 0; static double confirmTime = 0;
static string firstLine(const string& s, const char* key) { size_t i = s.find(key); if (i == string::npos) return ""; size_t e = s.find('\n', i); return s.substr(i, e - i); }
static bool tryModel(const Model& m, int seed, Cand& c) {
    auto s = Clock::now(); string f = outDir + "/" + hname + "-" + std::to_string(candNo) + ".values"; { std::ofstream o(f); o << modelText(m, seed); }
    string out; int rc = runReplay(f, out); confirmTime += since(s);
    bool hit = rc == 42 || rc == 44 || rc == 124 || rc == 134 || rc == 139 || rc == 136 || (rc > 128 && rc != 255);
    if (hit) { c.file = f; string l = firstLine(out, "FAILED "); if (!l.empty()) c.label = l.substr(7); else { l = firstLine(out, "Assertion"); if (l.empty()) l = firstLine(out, "ERROR: AddressSanitizer"); if (l.empty()) l = firstLine(out, "runtime error"); c.label += rc == 124 ? " [does not terminate]" : " [" + (l.empty() ? "exit " + std::to_string(rc) : l) + "]"; }
        c.out = out.substr(0, 2000); c.confirmed = true; }
    return hit;
}
static void saveKept(Cand& c) { string g = outDir + "/" + hname + "-cex" + std::to_string(cands.size()) + ".values"; if (!c.file.empty()) { rename(c.file.c_str(), g.c_str()); c.file = g; } }
static void candidate(const string& label, int cond /*negated obligation or -1*/, const string& why) {
    RtGuard g; for (auto& c : cands) if (c.known && c.confirmed && label == c.label) return;   // already known, do not repeat
    if (cond < 0 && !pathc.empty()) { st.branchQ++; if (query(pathc, {}, assertTimeout / 2) == 0) endPath(E_PRUNE); }   // the path itself is infeasible
    long same = 0; for (auto& c : cands) if (c.label == label && !c.confirmed) same++; if (same >= 3) return;
    Cand c; c.label = label; c.why = why; c.confirmed = c.known = false; candNo++;
    if (getenv("SYM_VERBOSE")) fprintf(stderr, "candidate: %s (%s)\n", label.c_str(), why.c_str());
    if (!buildReplay()) { cands.push_back(c); return; }
    vector<int> neg; if (cond >= 0) neg.push_back(cond);
    bool done = false; vector<Model> models;
    sym::Mode ms[2] = {gmode, sym::REAL};
    auto bounded = [&](vector<int> x, double B) { for (int v : pathVars) { x.push_back(cCmp(LE, v, mkConst(B))); x.push_back(cCmp(LE, mkConst(-B), v)); } return x; };
    for (int k = 0; k < (gmode == sym::UF ? 2 : 1) && !done; k++) {
        Solver& s = k == 0 ? *sv : *(svReal ? svReal : (svReal = new Solver(ms[1])));
        vector<vector<int>> tries;
        if (gmode != sym::FP && cond >= 0) {   // ask for a clear violation first
            int n = N[cond].op == NOT ? N[cond].a[0] : -1;
            if (n >= 0 && N[n].op == EQ) { int a = N[n].a[0], b = N[n].a[1], d = mkAbs(mkBin(SUB, a, b)); tries.push_back(bounded({cCmp(LT, mkConst(0.01), d)}, 4)); }
        }
        if (gmode != sym::FP) tries.push_back(bounded(neg, 4));
        tries.push_back(neg);
        for (auto& t : tries) { if (done) break; int r = s.check(pathc, t, 5000, true); if (r == 1) { Model m = getModel(s); s.release(); models.push_back(m); for (int seed = 0; seed < 2 && !done; seed++) done = tryModel(m, seed, c); } }
    }
    // sat/undecided but not yet reproduced: concretise part of the model
    // an undecided obligation is only believed violated when several guesses agree (a single one may be ill-conditioned)
    { int hits = 0, need = why[0] == 'u' ? 3 : 1; for (int seed = 1; seed <= 40 && !done; seed++) { Cand t = c; if (tryModel(Model(), seed, t) && ++hits >= need) { c = t; done = true; } } }
    for (int seed = 1; seed <= 20 && !done && !models.empty(); seed++) { Model m = models.back(); int k = 0; for (auto it = m.v.begin(); it != m.v.end();) { if ((k++ * 7 + seed) % 3 == 0) it = m.v.erase(it); else ++it; } done = tryModel(m, seed, c); }
    if (c.confirmed) for (auto& kn : knownLabels) if (kn.first == hname && c.label.find(kn.second) != string::npos) c.known = true;
    if (!c.confirmed && why[0] == 'u') undecided.insert(label);
    if (c.confirmed) saveKept(c);
    if (getenv("SYM_VERBOSE")) fprintf(stderr, "  -> %s %s\n", c.confirmed ? "confirmed" : "NOT reproduced", c.label.c_str());
    bool dup = false; for (auto& d : cands) if (d.confirmed == c.confirmed && d.label == c.label) dup = true;
    if (!dup || !c.known) cands.push_back(c);
    if (c.confirmed && !c.known) endPath(E_STOP);
}

// ------------------------------------------------------------------ forking
static void assertPath(int c) { if (N[c].op == B_TRUE) return; pathc.push_back(c); decided[c] = true; decided[cNot(c)] = false; }
static int feasible(int c) { if (optNoFeas) return -1; st.branchQ++; return query(pathc, {c}, std::min(branchTimeout, branchTimeoutPath)); }
static bool nonlinearCond(int c) { int x = N[c].op == NOT ? N[c].a[0] : c; if (N[x].op != LT && N[x].op != LE) return false; vector<int> stk{x}; set<int> seen; while (!stk.empty()) { int y = stk.back(); stk.pop_back(); if (!seen.insert(y).second) continue; if (seen.size() > 400) return true; const Node& n = N[y]; if ((n.op == MUL && !isC(n.a[0]) && !isC(n.a[1])) || (n.op == DIV && !isC(n.a[1]))) return true; for (int z : n.a) stk.push_back(z); } return false; }
static bool forkCond(int c) {
    if (N[c].op == B_TRUE) return true; if (N[c].op == B_FALSE) return false;
    auto it = decided.find(c); if (it != decided.end()) return it->second;
    RtGuard g;
    bool v;
    if (tpos < trace.size()) {
        Dec& d = trace[tpos++];
        if (d.kind != 0 || (d.cond != c)) { fprintf(stderr, "nondeterministic re-execution\n"); cutReasons.insert("nondeterministic re-execution"); st.cut++; trace.resize(tpos - 1); endPath(E_CUT); }
        v = d.val;
    } else {
        if (trace.size() > 3000) { candidate("does not terminate", -1, "more than 3000 forks on one path"); cut("fork limit on one path"); }
        if (since(t0) > budget) cut("time budget");
        int ft = -1, ff = -1; Dec d{0, c, 1, {}}; int implied = -1;
        if (gmode == sym::REAL && !optNoFeas && nonlinearCond(c)) {   // cheap linear over-approximation first
            if (!svLin) { svLin = new Solver(sym::REAL); svLin->lin = true; }
            st.branchQ++; st.lra++; if (svLin->check(pathc, {cNot(c)}, 2000) == 0) implied = 1; else { st.branchQ++; st.lra++; if (svLin->check(pathc, {c}, 2000) == 0) implied = 0; } }
        if (implied >= 0) { d.val = implied; v = implied; }
        else if ((ft = feasible(c)) == 0) { d.val = 0; v = false; }
        else { ff = feasible(cNot(c)); v = true; if (ff != 0) { d.pending.push_back(0); st.forks++; } }
        trace.push_back(d); tpos++;
    }
    assertPath(v ? c : cNot(c)); mixPath((uint64_t)c * 2 + v);
    return v;
}

// ------------------------------------------------------------------ obligations
static string lab(const string& s) { return s; }
static bool evalKnown(int c, bool& v) { if (N[c].op == B_TRUE) { v = true; return true; } if (N[c].op == B_FALSE) { v = false; return true; } auto it = decided.find(c); if (it != decided.end()) { v = it->second; return true; } return false; }
static int runTool(const string& cmd, double) { FILE* p = popen(cmd.c_str(), "r"); if (!p) return -1; char b[4096]; string o; size_t k; while ((k = fread(b, 1, sizeof b, p)) > 0) o.append(b, k); pclose(p); if (o.find("(error") != string::npos) return -1; return o.rfind("unsat", 0) == 0 ? 0 : o.rfind("sat", 0) == 0 ? 1 : -1; }
static int portfolio(const vector<int>& extra) {   // second opinion for undecided obligations, in separate processes
    auto s = Clock::now(); Solver tmp(gmode); string o; tmp.byLevel.assign(1, {}); tmp.declByLevel.assign(1, {});
    if (gmode == sym::UF) o += "(declare-fun fadd (Real Real) Real)(declare-fun fsub (Real Real) Real)(declare-fun fmul (Real Real) Real)(declare-fun fdiv (Real Real) Real)(declare-fun f_sqrt (Real) Real)(declare-fun f_pow (Real Real) Real)(declare-fun f_trunc (Real) Real)(declare-fun f_floor (Real) Real)(declare-fun f_fmod (Real Real) Real)(declare-fun f_fma (Real Real Real) Real)\n";
    bool usesFun = false; string body;
    for (int c : pathc) { tmp.def(body, c); body += "(assert " + tmp.nm(c) + ")\n"; } for (int c : extra) { tmp.def(body, c); body += "(assert " + tmp.nm(c) + ")\n"; }
    for (auto& e : tmp.emitted) if (N[e.first].op == FUN || N[e.first].op == POW || N[e.first].op == FMOD || N[e.first].op == TRUNC || N[e.first].op == FLOOR) usesFun = true;
    if (gmode == sym::REAL && usesFun) o += "(declare-fun f_pow (Real Real) Real)(declare-fun f_fmod (Real Real) Real)\n";
    string f = outDir + "/" + hname + "-q.smt2", f1 = f + ".nls", f2 = f + ".smt";
    if (gmode == sym::FP) { std::ofstream x(f1); x << "(set-logic QF_FP)\n" << o << body << "(check-sat)\n"; } else { std::ofstream x(f1); x << o << body << (usesFun ? "(check-sat)\n" : "(check-sat-using (then simplify propagate-values solve-eqs purify-arith elim-term-ite qfnra-nlsat))\n"); }
    { std::ofstream x(f2); x << (gmode == sym::FP ? "(set-logic QF_FP)\n" : usesFun ? "(set-logic ALL)\n" : "(set-logic QF_NRA)\n") << o << body << "(check-sat)\n"; }
    char t[16]; snprintf(t, sizeof t, "%d", assertTimeout / 1000);
    string c1 = string("timeout ") + t + " z3-new " + f1 + " 2>&1", c2 = string("timeout ") + t + " cvc5 " + f2 + " 2>&1";
    int r = runTool(c1, 0); if (r < 0) r = runTool(c2, 0);
    (r == 1 ? st.sat : r == 0 ? st.unsat : st.unknown)++; st.solverTime += since(s);
    if (!getenv("SYM_KEEP")) { unlink(f1.c_str()); unlink(f2.c_str()); } return r;
}
static set<std::pair<uint64_t, int>> assumedFacts;   // (path prefix, obligation) that failed and was assumed afterwards
static void failed(const string& label, int c, const string& why) { assumedFacts.insert({phash, c}); candidate(label, cNot(c), why); assertPath(c); }
static bool replayed(int c) { if (tpos >= trace.size()) return false; if (assumedFacts.count({phash, c})) assertPath(c); return true; }
static void obligation(int c, const string& label) {
    RtGuard g; bool v; if (evalKnown(c, v)) { LabelStat& L = labels[label]; if (tpos >= trace.size()) { L.checked++; if (v) L.folded++; } if (v) return; candidate(label, -1, "false on a feasible path"); endPath(E_DONE); }
    if (replayed(c)) return;     // already decided on an earlier execution of this prefix
    LabelStat& L = labels[label]; L.checked++;
    st.assertQ++; st.direct++; int r = query(pathc, {cNot(c)}, assertTimeout / 2);
    if (r < 0) r = portfolio({cNot(c)});
    if (r == 0) { L.discharged++; return; }
    failed(label, c, r == 1 ? "solver model" : "undecided by the solver");
}
static int eqNode(int a, int b) {   // same value; in FP mode both-NaN counts as same
    if (a == b) return cTrue(); int e = cCmp(EQ, a, b); if (gmode == sym::FP) e = cOr(e, cAnd(cNan(a), cNan(b)));
    else if (isC(a) && isC(b) && N[a].c != N[a].c && N[b].c != N[b].c) return cTrue(); return e; }
extern "C" { static int normEq(int c); }
static void obligationEq(int a, int b, const string& label) {
    RtGuard g; int c = eqNode(a, b); bool v;
    if (gmode != sym::REAL || evalKnown(c, v) || tpos < trace.size()) { obligation(c, label); return; }
    LabelStat& L = labels[label]; L.checked++; st.assertQ++;
    bool nonzero = false;
    try {
        PNF p; Poly pa = p.get(a), pb = p.get(b); Poly d = pa; padd(d, pb, -1);
        if (!d.empty() && !p.divs.empty()) { try { p.eliminate(); Poly e = p.subst(d); if (e.empty()) { pa = p.subst(pa); pb = p.subst(pb); } d = e; } catch (TooBig&) {} }
        if (!d.empty() && !p.divs.empty()) { try { PNF q; Poly dd = q.get(a); padd(dd, q.get(b), -1); if (q.rationalZero(dd)) { pa = pb; d.clear(); } } catch (TooBig&) {} }
        if (d.empty()) { if (absCheck(pa, pb, nullptr) == 0) { L.discharged++; return; } }
        nonzero = p.divs.empty() && !d.empty(); bool ops = true; for (auto& t : d) for (auto& x : t.first) if (N[x.first].op != VAR) ops = false; nonzero = nonzero && ops;
    } catch (TooBig&) {}
    { int c2 = normEq(c); if (c2 != c && evalKnown(c2, v) && v) { if (sv->check(pathc, {cNot(c2)}, 2000) == 0) { L.discharged++; return; } } }
    int r = -1; st.nra++; r = query(pathc, {cNot(c)}, nonzero ? 3000 : assertTimeout / 2);
    if (r < 0 && !nonzero) r = portfolio({cNot(c)});
    if (r == 0) { L.discharged++; return; }
    failed(label, c, r == 1 ? "solver model" : "undecided by the solver");
}
static void obligationNear(int a, int b, double tol, const string& label) {
    RtGuard g; int d = mkAbs(mkBin(SUB, a, b)), c = cCmp(LE, d, mkConst(tol)); bool v;
    if (gmode != sym::REAL || evalKnown(c, v)) { obligation(c, label); return; }
    if (replayed(c)) return;
    LabelStat& L = labels[label]; L.checked++; st.assertQ++;
    try { PNF p; Poly pa = p.get(a), pb = p.get(b); mpq_class t(tol); int r = absCheck(pa, pb, &t); if (r == 0) { L.discharged++; return; } } catch (TooBig&) {}
    st.nra++; int r = query(pathc, {cNot(c)}, assertTimeout / 2);
    if (r < 0) r = portfolio({cNot(c)});
    if (r == 0) { L.discharged++; return; }
    failed(label, c, r == 1 ? "solver model" : "undecided by the solver");
}

// ------------------------------------------------------------------ instrumented operations
extern "C" {
#define FASTBIN(OPN, NATIVE) { if (!tagged(a) && !tagged(b)) return NATIVE; RtGuard g; st.ops++; return unbox(mkBin(OPN, nodeOf(a), nodeOf(b))); }
double __sym_fadd(double a, double b) FASTBIN(ADD, a + b)
double __sym_fsub(double a, double b) FASTBIN(SUB, a - b)
double __sym_fmul(double a, double b) FASTBIN(MUL, a * b)
double __sym_fdiv(double a, double b) {
    if (!tagged(a) && !tagged(b)) return a / b; RtGuard g; st.ops++;
    int nb = nodeOf(b), na = nodeOf(a);
    if (gmode == sym::REAL && !isC(nb)) {
        int nz = cNot(cCmp(EQ, nb, mkConst(0))); bool v;
        if (!evalKnown(nz, v)) { if (optDivAssume) { if (tpos >= trace.size()) st.divAssumed++; assertPath(nz); if (isv(na, 0)) return 0; } else { obligation(nz, "division by zero"); } }
        else if (!v) { if (optDivAssume) endPath(E_PRUNE); candidate("division by zero", -1, "divisor is zero on this path"); endPath(E_DONE); }
    } else if (gmode == sym::REAL && isC(nb) && N[nb].c == 0) { if (optDivAssume) endPath(E_PRUNE); if (forkCond(cCmp(LT, na, mkConst(0)))) return -INFINITY; if (forkCond(cCmp(LT, mkConst(0), na))) return INFINITY; return NAN; }
    return unbox(mkBin(DIV, na, nb)); }
double __sym_fneg(double a) { if (!tagged(a)) return -a; return unbox(mkNeg(nodeOf(a))); }
double __sym_fabs(double a) { if (!tagged(a)) return std::fabs(a); return unbox(mkAbs(nodeOf(a))); }
static int predCond(int p, int a, int b) {
    bool fp = gmode == sym::FP; int un = fp ? cOr(cNan(a), cNan(b)) : ((isC(a) && N[a].c != N[a].c) || (isC(b) && N[b].c != N[b].c)) ? cTrue() : cFalse(); int r;
    switch (p) {
        case 0: return cFalse(); case 15: return cTrue(); case 7: return cNot(un); case 8: return un;
        case 1: return cCmp(EQ, a, b); case 2: return cCmp(LT, b, a); case 3: return cCmp(LE, b, a); case 4: return cCmp(LT, a, b); case 5: return cCmp(LE, a, b);
        case 6: r = fp ? cOr(cCmp(LT, a, b), cCmp(LT, b, a)) : cAnd(cNot(un), cNot(cCmp(EQ, a, b))); return r;
        case 9: return cNot(predCond(6, a, b)); case 10: return cNot(predCond(5, a, b)); case 11: return cNot(predCond(4, a, b));
        case 12: return cNot(predCond(3, a, b)); case 13: return cNot(predCond(2, a, b)); case 14: return cNot(predCond(1, a, b));
    }
    return cFalse();
}
static int polyNode(const Poly& p) {
    int r = -1; for (auto& t : p) { if (!t.first.empty() && mpq_class(t.second.get_d()) != t.second) throw TooBig(); int m = mkConst(t.second.get_d()); for (auto& a : t.first) for (int k = 0; k < a.second; k++) m = mkBin(MUL, m, a.first); r = r < 0 ? m : mkBin(ADD, r, m); } return r < 0 ? mkConst(0) : r; }
static std::unordered_map<int, int> normMemo;
static int normEq(int c) {   // REAL: an equation between rational functions is an equation of their numerators (divisors are non-zero on the path)
    if (gmode != sym::REAL) return c; bool neg = N[c].op == NOT; int x = neg ? N[c].a[0] : c; if (N[x].op != EQ) return c;
    auto it = normMemo.find(x); int r = x;
    if (it != normMemo.end()) r = it->second; else {
        size_t lim = polyLimit; polyLimit = 4000;
        try { PNF p; Poly d = p.get(N[x].a[0]); padd(d, p.get(N[x].a[1]), -1); if (!p.divs.empty()) { d = p.numerator(d); mpq_class k;
                if (pisconst(d, k)) r = k == 0 ? cTrue() : cFalse(); else { k = 1 / d.begin()->second; for (auto& t : d) t.second *= k; if (d.size() < 300) r = cCmp(EQ, polyNode(d), mkConst(0)); } } }
        catch (TooBig&) {} polyLimit = lim; normMemo[x] = r; }
    return neg ? cNot(r) : r; }
static int canon(int c) {   // in REAL/UF mode a<=b is !(b<a): one canonical form so that decisions are shared
    if (gmode == sym::FP) return c; bool neg = N[c].op == NOT; int x = neg ? N[c].a[0] : c;
    if (N[x].op == LE) { int r = cNot(cCmp(LT, N[x].a[1], N[x].a[0])); return neg ? cNot(r) : r; } return c; }
int __sym_fcmp(int p, double a, double b) {
    if (!tagged(a) && !tagged(b)) {
        bool lt = a < b, gt = a > b, eq = a == b, un = !(lt || gt || eq);
        switch (p) { case 0: return 0; case 1: return eq; case 2: return gt; case 3: return gt || eq; case 4: return lt; case 5: return lt || eq; case 6: return lt || gt; case 7: return !un; case 8: return un; case 9: return eq || un; case 10: return gt || un; case 11: return gt || eq || un; case 12: return lt || un; case 13: return lt || eq || un; case 14: return lt || gt || un; default: return 1; }
    }
    RtGuard g; return forkCond(normEq(canon(predCond(p, nodeOf(a), nodeOf(b)))));
}
static double fun1(const char* n, double a) { RtGuard g; stubs.insert(string("libm ") + n + ": uninterpreted function"); return box(mk(FUN, {nodeOf(a)}, 0, string("lib:") + n)); }
#define LIB1(n) double __sym_##n(double a) { if (!tagged(a)) return ::n(a); return fun1(#n, a); }
LIB1(sin) LIB1(cos) LIB1(tan) LIB1(exp) LIB1(log) LIB1(log10) LIB1(log2) LIB1(asin) LIB1(acos) LIB1(atan) LIB1(sinh) LIB1(cosh) LIB1(tanh) LIB1(cbrt) LIB1(exp2) LIB1(expm1) LIB1(log1p)
double __sym_sqrt(double a) { if (!tagged(a)) return std::sqrt(a); RtGuard g; return box(mk(SQRT, {nodeOf(a)})); }
double __sym_trunc(double a) { if (!tagged(a)) return std::trunc(a); RtGuard g; return box(mk(TRUNC, {nodeOf(a)})); }
double __sym_floor(double a) { if (!tagged(a)) return std::floor(a); RtGuard g; return box(mk(FLOOR, {nodeOf(a)})); }
double __sym_ceil(double a) { if (!tagged(a)) return std::ceil(a); RtGuard g; return unbox(mkNeg(mk(FLOOR, {mkNeg(nodeOf(a))}))); }
double __sym_round(double a) { if (!tagged(a)) return std::round(a); RtGuard g; int n = nodeOf(a); int neg = cCmp(LT, n, mkConst(0)); int f = mk(FLOOR, {mkBin(ADD, mkAbs(n), mkConst(0.5))}); return unbox(mkIte(neg, mkNeg(f), f)); }
double __sym_rint(double a) { if (!tagged(a)) return std::rint(a); return fun1("rint", a); }
double __sym_nearbyint(double a) { return __sym_rint(a); }
double __sym_pow(double a, double b) {
    if (!tagged(a) && !tagged(b)) return ::pow(a, b); RtGuard g; int na = nodeOf(a), nb = nodeOf(b);
    if (gmode == sym::REAL && isC(nb)) { double e = N[nb].c; if (e == 0) return 1; if (e == 0.5) return box(mk(SQRT, {na}));
        if (e == std::floor(e) && std::fabs(e) <= 16) { int k = (int)std::fabs(e), r = na; while (--k) r = mkBin(MUL, r, na); return e > 0 ? unbox(r) : __sym_fdiv(1.0, unbox(r)); } }
    if (gmode == sym::REAL && isC(nb) && N[nb].c < 0) { if (N[na].op == DIV) return __sym_pow(unbox(mkBin(DIV, N[na].a[1], N[na].a[0])), -N[nb].c); return __sym_fdiv(1.0, __sym_pow(unbox(na), -N[nb].c)); }
    stubs.insert("libm pow: uninterpreted function with sign/monotonicity axioms around 1"); return box(mk(POW, {na, nb})); }
double __sym_fmod(double a, double b) { if (!tagged(a) && !tagged(b)) return ::fmod(a, b); RtGuard g; return box(mk(FMOD, {nodeOf(a), nodeOf(b)})); }
double __sym_atan2(double a, double b) { if (!tagged(a) && !tagged(b)) return ::atan2(a, b); RtGuard g; return box(mk(FUN, {nodeOf(a), nodeOf(b)}, 0, "lib:atan2")); }
double __sym_fmin(double a, double b) { if (!tagged(a) && !tagged(b)) return ::fmin(a, b); RtGuard g; int x = nodeOf(a), y = nodeOf(b); int r = mkIte(cCmp(LT, y, x), y, x); r = mkIte(cNan(x), y, r); return unbox(r); }
double __sym_fmax(double a, double b) { if (!tagged(a) && !tagged(b)) return ::fmax(a, b); RtGuard g; int x = nodeOf(a), y = nodeOf(b); int r = mkIte(cCmp(LT, x, y), y, x); r = mkIte(cNan(x), y, r); return unbox(r); }
double __sym_hypot(double a, double b) { if (!tagged(a) && !tagged(b)) return ::hypot(a, b); RtGuard g; int x = nodeOf(a), y = nodeOf(b); return box(mk(SQRT, {mkBin(ADD, mkBin(MUL, x, x), mkBin(MUL, y, y))})); }
double __sym_copysign(double a, double b) { if (!tagged(a) && !tagged(b)) return ::copysign(a, b); RtGuard g; int m = mkAbs(nodeOf(a)); if (!tagged(b)) return unbox(std::signbit(b) ? mkNeg(m) : m); return unbox(mkIte(cCmp(LT, nodeOf(b), mkConst(0)), mkNeg(m), m)); }
double __sym_fdim(double a, double b) { if (!tagged(a) && !tagged(b)) return ::fdim(a, b); RtGuard g; int x = nodeOf(a), y = nodeOf(b); return unbox(mkIte(cCmp(LT, y, x), mkBin(SUB, x, y), mkConst(0))); }
double __sym_fma(double a, double b, double c) { if (!tagged(a) && !tagged(b) && !tagged(c)) return ::fma(a, b, c); RtGuard g; if (gmode == sym::REAL) return __sym_fadd(__sym_fmul(a, b), c); return box(mk(FMA, {nodeOf(a), nodeOf(b), nodeOf(c)})); }
double __sym_fmuladd(double a, double b, double c) { return __sym_fadd(__sym_fmul(a, b), c); }
static long concretise(double a) {   // integer conversion: explore every feasible integer value
    RtGuard g; int n = nodeOf(a), t = isC(n) ? n : mk(TRUNC, {n}); st.concretised++;
    for (int k = 0; k < 64; k++) {
        double v;
        if (tpos < trace.size() && trace[tpos].kind == 0 && N[trace[tpos].cond].op == EQ) { int c = trace[tpos].cond; v = isC(N[c].a[0]) ? N[N[c].a[0]].c : N[N[c].a[1]].c; }
        else { if (sv->check(pathc, {cNot(cCmp(LT, t, mkConst(-1e18)))}, branchTimeout, true) != 1) cut("integer conversion of an undecided value"); bool ok = modelVal(*sv, t, v); sv->release(); if (!ok) cut("integer conversion without a model"); v = std::trunc(v); }
        if (forkCond(cCmp(EQ, t, mkConst(v)))) return (long)v;
    }
    cut("integer conversion with more than 64 values"); return 0;
}
long __sym_fptosi(double a, int w) { if (!tagged(a)) return w <= 32 ? (long)(int)a : (long)a; return concretise(a); }
long __sym_fptoui(double a, int w) { if (!tagged(a)) return w <= 32 ? (long)(unsigned)(long)a : (long)(unsigned long)a; return concretise(a); }
long __sym_lround(double a) { if (!tagged(a)) return ::lround(a); return concretise(__sym_round(a)); }
float __sym_fptrunc(double a) { if (tagged(a)) cut("symbolic double converted to float"); return (float)a; }
double __sym_concrete(double a) { if (tagged(a)) cut("symbolic double converted to long double"); return a; }
int __sym_isnan(double a) { if (!tagged(a)) return a != a; RtGuard g; return forkCond(cNan(nodeOf(a))); }
int __sym_fpclass(double a, int m) {
    if (!tagged(a)) { int c = a != a ? 3 : std::isinf(a) ? (a < 0 ? 4 : 0x200) : a == 0 ? (std::signbit(a) ? 0x20 : 0x40) : std::fabs(a) < 2.2250738585072014e-308 ? (a < 0 ? 0x10 : 0x80) : (a < 0 ? 8 : 0x100); return (c & m) != 0; }
    RtGuard g; int n = nodeOf(a);
    if (gmode != sym::FP) { // finite, never NaN
        bool neg = m & 8, pos = m & 0x100, z = m & 0x60; if (neg && pos && z) return 1; if (!neg && !pos && !z) return 0;
        if (forkCond(cCmp(LT, n, mkConst(0)))) return neg; if (forkCond(cCmp(LT, mkConst(0), n))) return pos; return z; }
    int nan = cNan(n); if (forkCond(nan)) return (m & 3) != 0;
    if (forkCond(cCmp(EQ, mkAbs(n), mkConst(INFINITY)))) { if ((m & 4) && (m & 0x200)) return 1; if (!(m & 4) && !(m & 0x200)) return 0; return forkCond(cCmp(LT, n, mkConst(0))) ? (m & 4) != 0 : (m & 0x200) != 0; }
    int rest = m & 0x1f8; if (rest == 0x1f8) return 1; if (!rest) return 0;
    cut("unsupported fpclass test on a symbolic value"); return 0;
}
// a symbolic number in text is the decimal literal 7777<node>e290; printing with fewer digits than a double has is an unknown function
std::ostream& __sym_ostream_double(std::ostream& os, double x) {
    if (!tagged(x)) return os << x; RtGuard g; stubs.insert("text form of a symbolic number: read back exactly when printed with at least 17 digits, otherwise an unknown function of it");
    int n = nodeOf(x); if (os.precision() < 17) n = mk(FUN, {n}, 0, "lib:fmt" + std::to_string((int)os.precision()));
    return os << "7777" << std::setw(11) << std::setfill('0') << n << std::setfill(' ') << "e290"; }
double __sym_strtod(const char* s, char** e) {
    if (!strncmp(s, "7777", 4)) { char* q; long n = strtol(s + 4, &q, 10); if (q - s == 15 && !strncmp(q, "e290", 4)) { if (e) *e = q + 4; return unbox((int)n); } }
    return ::strtod(s, e); }
const double* __sym_std_max(const double* a, const double* b) { if (!optSumm || (!tagged(*a) && !tagged(*b))) return __sym_fcmp(4, *a, *b) ? b : a; RtGuard g; int x = nodeOf(*a), y = nodeOf(*b); int c = cCmp(LT, x, y); bool v; if (evalKnown(c, v)) return v ? b : a; return new double(unbox(mkIte(c, y, x))); }
const double* __sym_std_min(const double* a, const double* b) { if (!optSumm || (!tagged(*a) && !tagged(*b))) return __sym_fcmp(4, *b, *a) ? b : a; RtGuard g; int x = nodeOf(*a), y = nodeOf(*b); int c = cCmp(LT, y, x); bool v; if (evalKnown(c, v)) return v ? b : a; return new double(unbox(mkIte(c, y, x))); }
void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
    string ff = f; size_t s = ff.rfind('/'); if (s != string::npos) ff = ff.substr(s + 1); (void)l;
    if (!inPath) { fprintf(stderr, "assert outside a path: %s\n", e); _exit(2); }
    labels["ASSERT"].checked++;
    if (tpos >= trace.size()) candidate("ASSERT(" + string(e) + ") in " + ff, -1, "assertion of the code under test fails");
    endPath(E_DONE); abort();
}
}

// ------------------------------------------------------------------ API
namespace sym {
struct Ent { string name; Mode mode; void (*f)(); };
static vector<Ent>& ents() { static vector<Ent> e; return e; }
Reg::Reg(const char* n, Mode m, void (*f)()) { ents().push_back({n, m, f}); }
static string uniq(const string& n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
double real(const char* name) { RtGuard g; int id = mk(VAR, {}, 0, uniq(name)); pathVars.push_back(id); return box(id); }
double real(const string& b, int i) { return real((b + std::to_string(i)).c_str()); }
double real_in(const char* name, double lo, double hi) { RtGuard g; int id = mk(VAR, {}, 0, uniq(name)); pathVars.push_back(id); varBounds[id] = {lo, hi}; assertPath(cCmp(LE, mkConst(lo), id)); assertPath(cCmp(LE, id, mkConst(hi))); return box(id); }
int choice(const char* name, int n) {
    RtGuard g; string u = uniq(name); int v = 0;
    if (tpos < trace.size()) { Dec& d = trace[tpos++]; if (d.kind != 1) { fprintf(stderr, "nondeterministic re-execution\n"); cutReasons.insert("nondeterministic re-execution"); st.cut++; trace.resize(tpos - 1); endPath(E_CUT); } v = d.val; }
    else { if (since(t0) > budget) cut("time budget"); Dec d{1, 0, 0, {}}; for (int i = n - 1; i > 0; i--) d.pending.push_back(i); st.choices += n - 1; trace.push_back(d); tpos++; }
    pathChoices.push_back({u, v}); mixPath(v + 1000003); return v;
}
double fun(const char* name, const vector<double>& a) { RtGuard g; vector<int> x; for (double d : a) x.push_back(nodeOf(d)); if (gmode != FP) for (int n : x) if (isC(n) && N[n].c != N[n].c) return NAN;
    string nm = name; if (gmode != FP) { vector<int> y; for (size_t i = 0; i < x.size(); i++) if (badConst(x[i])) nm += (N[x[i]].c > 0 ? "@inf" : "@-inf") + std::to_string(i); else y.push_back(x[i]); x = y; }   // an infinite argument selects another function
    return box(mk(FUN, x, 0, nm)); }
double fun(const char* name, std::initializer_list<double> a) { return fun(name, vector<double>(a)); }
Cond lt(double a, double b) { RtGuard g; return {canon(cCmp(LT, nodeOf(a), nodeOf(b)))}; }
Cond le(double a, double b) { RtGuard g; return {canon(cCmp(LE, nodeOf(a), nodeOf(b)))}; }
Cond eq(double a, double b) { RtGuard g; return {cCmp(EQ, nodeOf(a), nodeOf(b))}; }
Cond same(double a, double b) { RtGuard g; return {eqNode(nodeOf(a), nodeOf(b))}; }
Cond isnan(double a) { RtGuard g; return {cNan(nodeOf(a))}; }
Cond truth(bool b) { return {b ? cTrue() : cFalse()}; }
Cond operator!(Cond a) { return {cNot(a.id)}; }
Cond operator&&(Cond a, Cond b) { return {cAnd(a.id, b.id)}; }
Cond operator||(Cond a, Cond b) { return {cOr(a.id, b.id)}; }
double ite(Cond c, double a, double b) { RtGuard g; return unbox(mkIte(c.id, nodeOf(a), nodeOf(b))); }
double abs(double a) { return __sym_fabs(a); }
void assume(Cond c) {
    RtGuard g; bool v; if (evalKnown(c.id, v)) { if (!v) endPath(E_PRUNE); return; }
    assertPath(c.id); if (tpos >= trace.size()) { st.branchQ++; if (sv->check(pathc, {}, branchTimeout) == 0) endPath(E_PRUNE); } }
void assume(bool b) { if (!b) endPath(E_PRUNE); }
void check(Cond c, const string& l) { obligation(c.id, lab(l)); }
void check(bool b, const string& l) { obligation(b ? cTrue() : cFalse(), lab(l)); }
void check_eq(double a, double b, const string& l) { obligationEq(nodeOf(a), nodeOf(b), lab(l)); }
void check_near(double a, double b, double t, const string& l) { obligationNear(nodeOf(a), nodeOf(b), t, lab(l)); }
void reach(const char* l) { reached[l]++; }
bool decide(Cond c) { return forkCond(c.id); }
bool possible(Cond c) { RtGuard g; bool v; if (evalKnown(c.id, v)) return v; st.branchQ++; return sv->check(pathc, {c.id}, assertTimeout) == 1; }
void tolerance(double) {}
bool concrete(double a) { return !tagged(a); }
bool symbolic() { return true; }
void note(const string& s) { if (notes.size() < 40) notes.push_back(s); }
void nonzero_div(bool v) { optDivAssume = v; }
void nofeas(bool v) { optNoFeas = v; }
void summarise(bool v) { optSumm = v; }
void branch_timeout(int ms) { branchTimeoutPath = ms; }
}

// ------------------------------------------------------------------ explorer
static double pathCpu = 20;
static void onSig(int s) {
    if (s == SIGPROF) { if (!inPath) return; if (inRt) return; struct itimerval z = {}; setitimer(ITIMER_PROF, &z, 0); crashWhat = "does not terminate (CPU limit on one path)"; siglongjmp(pathEnd, E_CRASH); }
    if (!inPath || inRt) { fprintf(stderr, "engine crash, signal %d\n", s); _exit(2); }
    crashWhat = string("crash: ") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : "signal");
    siglongjmp(pathEnd, E_CRASH);
}
static string js(const string& s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void writeReport(const string& f, const string& status) {
    std::ofstream o(f); o.precision(6);
    o << "{\n \"harness\": " << js(hname) << ", \"status\": " << js(status) << ", \"mode\": " << js(gmode == sym::REAL ? "REAL" : gmode == sym::FP ? "FP" : "UF") << ",\n";
    o << " \"paths\": " << st.paths << ", \"pruned\": " << st.pruned << ", \"cut\": " << st.cut << ", \"forks\": " << st.forks << ", \"choices\": " << st.choices << ", \"symbolic_ops\": " << st.ops << ", \"nodes\": " << N.size() << ",\n";
    o << " \"branch_queries\": " << st.branchQ << ", \"assert_queries\": " << st.assertQ << ", \"witness_queries\": " << st.witnessQ << ", \"sat\": " << st.sat << ", \"unsat\": " << st.unsat << ", \"unknown\": " << st.unknown << ", \"lra_queries\": " << st.lra << ", \"nra_queries\": " << st.nra << ", \"solver_s\": " << st.solverTime << ", \"solver_restarts\": " << st.restarts << ", \"replay_s\": " << confirmTime << ",\n";
    o << " \"div_assumed_nonzero\": " << st.divAssumed << ", \"validated\": " << validated << ", \"validation_miss\": " << validationMiss << ", \"wall_s\": " << since(t0) << ",\n \"labels\": {";
    bool f1 = true; for (auto& l : labels) { o << (f1 ? "\n" : ",\n") << "  " << js(l.first) << ": [" << l.second.checked << ", " << l.second.discharged << ", " << l.second.folded << "]"; f1 = false; }
    o << "},\n \"reached\": {"; f1 = true; for (auto& l : reached) { o << (f1 ? "" : ", ") << js(l.first) << ": " << l.second; f1 = false; }
    auto arr = [&](const char* k, const vector<string>& v) { o << ",\n \"" << k << "\": ["; bool z = true; for (auto& s : v) { o << (z ? "" : ", ") << js(s); z = false; } o << "]"; };
    o << "}"; arr("samples", samples); arr("notes", notes); arr("cut_reasons", vector<string>(cutReasons.begin(), cutReasons.end())); arr("stubs", vector<string>(stubs.begin(), stubs.end())); arr("undecided", vector<string>(undecided.begin(), undecided.end()));
    o << ",\n \"candidates\": ["; f1 = true; for (auto& c : cands) { o << (f1 ? "\n" : ",\n") << "  {\"label\": " << js(c.label) << ", \"why\": " << js(c.why) << ", \"confirmed\": " << (c.confirmed ? "true" : "false") << ", \"known\": " << (c.known ? "true" : "false") << ", \"file\": " << js(c.file) << ", \"out\": " << js(c.out) << "}"; f1 = false; }
    o << "]\n}\n";
}
static vector<string> witnesses;
static void witness(bool validate) {
    RtGuard g; st.witnessQ++; int r = sv->check(pathc, {}, branchTimeout, true);
    if (r == 0) { st.pruned++; st.paths--; return; }
    Model m; if (r == 1) { m = getModel(*sv); sv->release(); }
    if (samples.size() < 6) { string t = modelText(m, 0); string o; for (char c : t) o += c == '\n' ? ';' : c; if (o.size() > 600) o = o.substr(0, 600) + "..."; samples.push_back("path " + std::to_string(st.paths) + (r == 1 ? "" : " (no model)") + ": " + std::to_string(pathc.size()) + " conditions; " + o); }
    if (validate && r == 1 && witnesses.size() < 24) witnesses.push_back(modelText(m, 0));
}
int main(int argc, char** argv) {
    signal(SIGPIPE, SIG_IGN);
    if (argc < 2 || string(argv[1]) == "--list") { for (auto& e : sym::ents()) printf("%s\n", e.name.c_str()); return 0; }
    hname = argv[1]; if (argc > 2) outDir = argv[2];
    if (getenv("SYM_BUDGET")) budget = atof(getenv("SYM_BUDGET"));
    if (getenv("SYM_BRANCH_TIMEOUT")) branchTimeout = atoi(getenv("SYM_BRANCH_TIMEOUT"));
    if (getenv("SYM_ASSERT_TIMEOUT")) assertTimeout = atoi(getenv("SYM_ASSERT_TIMEOUT"));
    if (getenv("SYM_KNOWN")) { std::ifstream k(getenv("SYM_KNOWN")); string l; while (std::getline(k, l)) { size_t t = l.find('\t'); if (t != string::npos) knownLabels.push_back({l.substr(0, t), l.substr(t + 1)}); } }
    sym::Ent* e = nullptr; for (auto& x : sym::ents()) if (x.name == hname) e = &x;
    if (!e) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
    gmode = e->mode; t0 = Clock::now(); sv = new Solver(gmode); sv->start();
    static char altstack[1 << 16]; stack_t ss = {}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
    struct sigaction sa = {}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGPROF, &sa, 0);
    volatile bool stop = false; volatile long maxPaths = getenv("SYM_MAX_PATHS") ? atol(getenv("SYM_MAX_PATHS")) : 200000;
    while (!stop) {
        pathc.clear(); decided.clear(); pathChoices.clear(); nameCount.clear(); pathVars.clear(); varBounds.clear(); tpos = 0; phash = 0; optNoFeas = false; optSumm = true; optDivAssume = true; branchTimeoutPath = 1000000;
        int k = sigsetjmp(pathEnd, 1);
        if (k == 0) {
            struct itimerval tv = {}; tv.it_value.tv_sec = (long)pathCpu; tv.it_interval.tv_sec = 2; setitimer(ITIMER_PROF, &tv, 0); inPath = true;
            try { e->f(); k = E_DONE; }
            catch (std::exception& x) { labels["no unexpected exception"].checked++; string w = x.what(); k = sigsetjmp(pathEnd, 1); if (k == 0) { candidate("unexpected exception: " + w, -1, "exception leaves the harness"); k = E_DONE; } }
            catch (...) { k = sigsetjmp(pathEnd, 1); if (k == 0) { candidate("unexpected exception", -1, "exception leaves the harness"); k = E_DONE; } }
        }
        inPath = false; struct itimerval z = {}; setitimer(ITIMER_PROF, &z, 0); inRt = 0;
        if (k == E_CRASH) { string w = crashWhat; int q = sigsetjmp(pathEnd, 1); if (q == 0) { candidate(w, -1, "the harness process faulted on this path"); writeReport(outDir + "/" + hname + ".json", cands.back().confirmed && cands.back().known ? "cut" : "crash"); cut("crash"); } k = q; stop = true; if (k != E_STOP) { writeReport(outDir + "/" + hname + ".json", "inconclusive"); sv->stop(); _exit(3); } }
        if (k == E_STOP) { stop = true; st.paths++; }
        else if (k == E_PRUNE) st.pruned++;
        else if (k == E_DONE) { st.paths++; if (st.paths <= 8 || st.paths % 64 == 0) witness(true); }
        if (stop) break;
        if (tpos < trace.size()) trace.resize(tpos);
        while (!trace.empty() && trace.back().pending.empty()) trace.pop_back();
        if (trace.empty()) break;
        trace.back().val = trace.back().pending.back(); trace.back().pending.pop_back();
        if (st.paths + st.pruned + st.cut > maxPaths) { cutReasons.insert("path limit"); st.cut++; break; }
        if (since(t0) > budget) { cutReasons.insert("time budget"); st.cut++; break; }
    }
    bool viol = false, unconf = false, known = false; for (auto& c : cands) { if (c.confirmed && !c.known) viol = true; else if (!c.confirmed) unconf = true; else known = true; }
    if (getenv("SYM_VALIDATE") && buildReplay()) for (size_t i = 0; i < witnesses.size(); i++) {   // the models of completed paths, run natively
        string f = outDir + "/" + hname + "-w.values", out; { std::ofstream o(f); o << witnesses[i]; } int rc = runReplay(f, out); unlink(f.c_str());
        if (rc == 0) validated++; else if (rc != 43) { validationMiss++; if (notes.size() < 60) notes.push_back("native run of a path witness disagrees (rc " + std::to_string(rc) + "): " + out.substr(0, 200)); } }
    string status = viol ? "violation" : (unconf || st.cut || !undecided.empty()) ? "inconclusive" : st.paths == 0 ? "vacuous" : known ? "known" : "ok";
    writeReport(outDir + "/" + hname + ".json", status); sv->stop(); if (svReal) svReal->stop(); if (svAbs) svAbs->stop(); if (svLin) svLin->stop(); unlink((outDir + "/" + hname + "-" + std::to_string(candNo) + ".values").c_str());
    fflush(0); _exit(status == "ok" || status == "known" ? 0 : status == "violation" ? 1 : 3);
}
