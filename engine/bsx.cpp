// bsx: a symbolic executor for LLVM 18 IR.
//   bsx file.bc -fn NAME -out DIR [-fp] [-time S] [-qt ms] [-at ms] [-paths N]
#include <cxxabi.h>
#include <dlfcn.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <sys/resource.h>
#include <algorithm>
#include <random>
#include "mem.h"
#include "solver.h"

using namespace llvm;

bool g_fpMode = false;
Exprs E;
Canon C;
Solver Z;
Stats *S;
Arena M;
double g_deadline, g_start;
int g_qTimeout = 2000, g_aTimeout = 20000;
u64 g_maxPaths = 200000;
u64 g_maxInstr = 40000000000ull;
int g_maxProcs = 8;
int g_maxViol = 6;
int g_maxPathModels = 4;
std::string g_out, g_fnName;
std::vector<std::string> g_concrete;  // engine self-validation: name=value
bool g_useConcrete = false;
int g_fdLog = -1;
std::mt19937_64 g_rng(1);
bool g_expectAbort = false;

// operator new/delete used by native libraries
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (!p) return; if (M.in((u64)p)) { M.release((u64)p); return; } free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static std::string jesc(const std::string &s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void logLine(const std::string &s) {
  std::string t = s + "\n";
  if (write(g_fdLog, t.data(), t.size()) < 0) {}
}
static std::string demangle(const std::string &n) {
  int st = 0;
  char *d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
  std::string r = d ? d : n;
  free(d);
  return r;
}

// ------------------------------------------------------------ path state
std::vector<u32> PC;  // path condition (Bool nodes)
std::unordered_set<u32> pcSet;
std::vector<pid_t> kids;
std::set<std::string> g_covers, g_msgs;
std::unordered_set<std::string> g_fnSym;  // functions in which symbolic data flowed

struct PathEnd { std::string why; };

static void finishProcess();

// variables of a node
static std::unordered_map<u32, std::shared_ptr<std::vector<u32>>> varMemo;
static const std::vector<u32> &varsOf(u32 id) {
  auto it = varMemo.find(id);
  if (it != varMemo.end()) return *it->second;
  auto r = std::make_shared<std::vector<u32>>();
  std::vector<u32> st{id};
  std::unordered_set<u32> seen;
  while (!st.empty()) {
    u32 k = st.back();
    st.pop_back();
    if (!k || !seen.insert(k).second) continue;
    const Node &x = E.n[k];
    if (x.op == O_FVAR || x.op == O_BVAR) { r->push_back(k); continue; }
    if (x.op == O_FCONST || x.op == O_BCONST) continue;
    st.push_back(x.a); st.push_back(x.b); st.push_back(x.c);
  }
  std::sort(r->begin(), r->end());
  varMemo[id] = r;
  return *r;
}
static std::vector<u32> slicePC(const std::vector<u32> &conds) {
  std::unordered_set<u32> vs;
  for (u32 c : conds) for (u32 v : varsOf(c)) vs.insert(v);
  std::vector<u32> res;
  std::vector<char> used(PC.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); ++i) {
      if (used[i]) continue;
      const auto &v = varsOf(PC[i]);
      bool hit = false;
      for (u32 k : v) if (vs.count(k)) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; for (u32 k : v) vs.insert(k); }
    }
  }
  for (size_t i = 0; i < PC.size(); ++i) if (used[i]) res.push_back(PC[i]);
  return res;
}
static void addPC(u32 c) {
  if (c == ID_TRUE) return;
  if (E.n[c].op == O_AND) { u32 a = E.n[c].a, b = E.n[c].b; addPC(a); addPC(b); return; }
  if (!pcSet.insert(c).second) return;
  PC.push_back(c);
  if (PC.size() > S->maxPc) S->maxPc = PC.size();
}

// outward rounded range of a real node from the ranges of the inputs
static std::unordered_map<u32, std::pair<double, double>> rangeMemo;
static std::pair<double, double> rangeOf(u32 id, int depth = 0) {
  const double inf = INFINITY;
  const Node x = E.n[id];
  if (x.op == O_FCONST) { double v = Exprs::d(x.imm); if (v == v) return {v, v}; return {-inf, inf}; }
  if (x.op == O_FVAR) return {E.inputs[x.imm].lo, E.inputs[x.imm].hi};
  auto it = rangeMemo.find(id);
  if (it != rangeMemo.end()) return it->second;
  if (depth > 400) return {-inf, inf};
  double lo = -inf, hi = inf;
  std::pair<double, double> a, b;
  auto sub = [&](u32 k) { return rangeOf(k, depth + 1); };
  switch (x.op) {
    case O_FADD: a = sub(x.a); b = sub(x.b); lo = a.first + b.first; hi = a.second + b.second; break;
    case O_FSUB: a = sub(x.a); b = sub(x.b); lo = a.first - b.second; hi = a.second - b.first; break;
    case O_FNEG: a = sub(x.a); lo = -a.second; hi = -a.first; break;
    case O_FABS: a = sub(x.a); lo = a.first > 0 ? a.first : a.second < 0 ? -a.second : 0; hi = std::max(std::fabs(a.first), std::fabs(a.second)); break;
    case O_FMUL: {
      a = sub(x.a); b = sub(x.b);
      if (!std::isfinite(a.first) || !std::isfinite(a.second) || !std::isfinite(b.first) || !std::isfinite(b.second)) break;
      double c[4] = {a.first * b.first, a.first * b.second, a.second * b.first, a.second * b.second};
      lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
      if (x.a == x.b && lo < 0) lo = 0;
      break;
    }
    case O_FDIV: {
      a = sub(x.a); b = sub(x.b);
      if (!(b.first > 0 || b.second < 0) || !std::isfinite(a.first) || !std::isfinite(a.second) || !std::isfinite(b.first) || !std::isfinite(b.second)) break;
      double c[4] = {a.first / b.first, a.first / b.second, a.second / b.first, a.second / b.second};
      lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
      break;
    }
    case O_FSQRT: a = sub(x.a); if (a.first >= 0) lo = std::sqrt(a.first); else lo = 0; hi = a.second >= 0 ? std::sqrt(a.second) : inf; break;
    case O_FUF: if (E.ufNames[x.imm] == "sin" || E.ufNames[x.imm] == "cos") { lo = -1; hi = 1; } break;
    default: break;
  }
  if (lo != lo) lo = -inf;
  if (hi != hi) hi = inf;
  if (std::isfinite(lo)) lo -= 1e-14 * std::fabs(lo) + 1e-300;
  if (std::isfinite(hi)) hi += 1e-14 * std::fabs(hi) + 1e-300;
  if (x.op == O_FABS || x.op == O_FSQRT || (x.op == O_FMUL && x.a == x.b)) lo = std::max(lo, 0.0);
  return rangeMemo[id] = {lo, hi};
}

// evaluate a Bool using ranges and the normal form: 1 true, 0 false, -1 unknown
static int normBool(u32 id) {
  const Node x = E.n[id];
  switch (x.op) {
    case O_TRUE: return 1;
    case O_FALSE: return 0;
    case O_NOT: { int r = normBool(x.a); return r < 0 ? -1 : !r; }
    case O_AND: { int a = normBool(x.a); if (a == 0) return 0; int b = normBool(x.b); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
    case O_OR: { int a = normBool(x.a); if (a == 1) return 1; int b = normBool(x.b); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
    case O_FEQ: case O_FLT: case O_FLE: {
      if (g_fpMode) return -1;
      {
        auto a = rangeOf(x.a), b = rangeOf(x.b);
        if (a.second < b.first) return x.op != O_FEQ;
        if (a.first > b.second) return 0;
        if (x.op == O_FLE && a.second <= b.first) return 1;
        if (x.op == O_FLT && a.first >= b.second) return 0;
      }
      FracP d = C.add(C.canon(x.a), C.canon(x.b), -1);
      if (d->num.empty()) return x.op != O_FLT;
      if (d->den.empty() && d->num.size() == 1 && d->num[0].first == 0) {
        int s = sgn(d->num[0].second);
        return x.op == O_FEQ ? s == 0 : x.op == O_FLT ? s < 0 : s <= 0;
      }
      return -1;
    }
    default: return -1;
  }
}

// numeric interval of monomials from boxes
static bool atomBox(u32 a, double &lo, double &hi) {
  const Atom &t = C.atoms[a];
  if (t.hasBox) { lo = t.lo; hi = t.hi; return std::isfinite(lo) && std::isfinite(hi); }
  return false;
}
static bool monoBox(u32 m, double &lo, double &hi) {
  lo = hi = 1;
  for (auto &p : C.monos[m].f) {
    double l, h;
    if (!atomBox(p.first, l, h)) return false;
    double pl, ph;
    if (p.second % 2 == 0) {
      double x = std::pow(l, p.second), y = std::pow(h, p.second);
      ph = std::max(x, y);
      pl = (l <= 0 && h >= 0) ? 0 : std::min(x, y);
    } else { pl = std::pow(l, p.second); ph = std::pow(h, p.second); }
    double c[4] = {lo * pl, lo * ph, hi * pl, hi * ph};
    lo = *std::min_element(c, c + 4);
    hi = *std::max_element(c, c + 4);
  }
  // outward slack for the double arithmetic above
  lo -= 1e-12 * (1 + std::fabs(lo));
  hi += 1e-12 * (1 + std::fabs(hi));
  return true;
}

// A concrete witness of nonlinear constraints over reals, by evaluation at
// random points with a margin; saves the solver the search for easy models.
struct Witness {
  std::unordered_map<u32, double> fv;
  std::unordered_map<u32, int> bv;
  std::unordered_map<u32, double> in;
  std::unordered_map<u32, u64> ib;
  size_t budget = 40000;
  bool bad = false;
  double val(u32 id) {
    auto it = fv.find(id);
    if (it != fv.end()) return it->second;
    const Node x = E.n[id];
    double r = 0;
    if (!budget) { bad = true; return 0; }
    --budget;
    switch (x.op) {
      case O_FCONST: r = Exprs::d(x.imm); break;
      case O_FVAR: {
        auto j = in.find(x.imm);
        if (j == in.end()) { bad = true; return 0; }
        r = j->second;
        break;
      }
      case O_FADD: r = val(x.a) + val(x.b); break;
      case O_FSUB: r = val(x.a) - val(x.b); break;
      case O_FMUL: r = val(x.a) * val(x.b); break;
      case O_FDIV: r = val(x.a) / val(x.b); break;
      case O_FNEG: r = -val(x.a); break;
      case O_FABS: r = std::fabs(val(x.a)); break;
      case O_FSQRT: r = std::sqrt(val(x.a)); break;
      default: bad = true;
    }
    if (!std::isfinite(r)) bad = true;
    return fv[id] = r;
  }
  // 1 true, 0 false, -1 undecided
  int b(u32 id) {
    auto it = bv.find(id);
    if (it != bv.end()) return it->second;
    const Node x = E.n[id];
    int r = -1;
    if (!budget) { bad = true; return -1; }
    --budget;
    switch (x.op) {
      case O_TRUE: r = 1; break;
      case O_FALSE: r = 0; break;
      case O_NOT: r = b(x.a); r = r < 0 ? -1 : !r; break;
      case O_AND: { int p = b(x.a), q = b(x.b); r = (p == 0 || q == 0) ? 0 : (p == 1 && q == 1) ? 1 : -1; break; }
      case O_OR: { int p = b(x.a), q = b(x.b); r = (p == 1 || q == 1) ? 1 : (p == 0 && q == 0) ? 0 : -1; break; }
      case O_FEQ: case O_FLT: case O_FLE: {
        double p = val(x.a), q = val(x.b), m = 1e-9 * (1 + std::fabs(p) + std::fabs(q));
        if (bad) return -1;
        if (x.op == O_FEQ) r = std::fabs(p - q) > m ? 0 : -1;
        else r = q - p > m ? 1 : p - q > m ? 0 : -1;
        break;
      }
      case O_BEQ: {
        u32 v = x.a, c = x.b;
        if (E.n[v].op != O_BVAR) std::swap(v, c);
        if (E.n[v].op != O_BVAR || E.n[c].op != O_BCONST) { bad = true; return -1; }
        auto j = ib.find(E.n[v].imm);
        if (j == ib.end()) { ib[E.n[v].imm] = E.n[c].imm; r = 1; }
        else r = j->second == E.n[c].imm;
        break;
      }
      default: bad = true;
    }
    return bv[id] = r;
  }
};
static bool nonlinear(const std::vector<u32> &cs) {
  std::vector<u32> st(cs.begin(), cs.end());
  std::unordered_set<u32> seen;
  while (!st.empty()) {
    u32 k = st.back(); st.pop_back();
    if (!k || !seen.insert(k).second) continue;
    if (seen.size() > 40000) return false;
    const Node &x = E.n[k];
    if (x.op == O_FSQRT) return true;
    if ((x.op == O_FMUL && E.n[x.a].op != O_FCONST && E.n[x.b].op != O_FCONST) || (x.op == O_FDIV && E.n[x.b].op != O_FCONST)) return true;
    if (x.op == O_FCONST || x.op == O_FVAR || x.op == O_BCONST || x.op == O_BVAR || x.op == O_FUF) continue;
    st.push_back(x.a); st.push_back(x.b); st.push_back(x.c);
  }
  return false;
}
static bool witness(const std::vector<u32> &cs, Model *model) {
  if (g_fpMode || cs.empty() || !nonlinear(cs)) return false;
  std::set<u32> vars;
  for (u32 c : cs) for (u32 v : varsOf(c)) if (E.n[v].op == O_FVAR) vars.insert(E.n[v].imm);
  for (int t = 0; t < 12; ++t) {
    Witness w;
    for (u32 k : vars) {
      const Input &in = E.inputs[k];
      double lo = std::isfinite(in.lo) ? in.lo : -4, hi = std::isfinite(in.hi) ? in.hi : 4;
      double sc = t % 3 == 0 ? 1 : t % 3 == 1 ? .25 : .0625, mid = .5 * (lo + hi);
      double v = mid + sc * (hi - lo) * ((double)(g_rng() % 4093 + 1) / 4096.0 - .5);
      double q = std::ldexp(std::round(std::ldexp(v, 16)), -16);
      if (q > in.lo && q < in.hi) v = q;
      if (v < in.lo || v > in.hi) return false;
      w.in[k] = v;
    }
    bool ok = true;
    for (u32 c : cs) {
      if (w.b(c) != 1 || w.bad) { ok = false; break; }
    }
    if (w.bad) return false;
    if (!ok) continue;
    if (model) {
      char buf[64];
      for (auto &p : w.in) { snprintf(buf, sizeof buf, "%.17g", p.second); (*model)[p.first] = buf; }
      for (auto &p : w.ib) { snprintf(buf, sizeof buf, "#x%016llx", (unsigned long long)p.second); (*model)[p.first] = buf; }
    }
    return true;
  }
  return false;
}

static Res query(const std::vector<u32> &conds, int timeout, Model *model = nullptr, bool useOther = false) {
  // try normal forms first
  std::vector<u32> cs;
  for (u32 c : conds) {
    int r = (g_fpMode) ? (c == ID_TRUE ? 1 : c == ID_FALSE ? 0 : -1) : normBool(c);
    if (r == 0) return R_UNSAT;
    if (r < 0) cs.push_back(c);
  }
  std::string key;
  if (!model) {
    std::vector<u32> k = cs;
    std::sort(k.begin(), k.end());
    key.assign((char *)k.data(), k.size() * 4);
    auto it = Z.cache.find(key);
    if (it != Z.cache.end()) { S->cacheHits++; return it->second; }
    if (cs.empty()) return R_SAT;
  }
  if (witness(cs, model)) {
    S->queries++;
    S->qSat++;
    if (!model) Z.cache[key] = R_SAT;
    return R_SAT;
  }
  Emit em;
  std::string text = Z.compose(cs, em);
  std::string out, ex;
  if (model && !em.vars.empty()) {
    ex = "(get-value (";
    for (u32 v : em.vars) ex += " v" + std::to_string(E.n[v].imm);
    ex += "))";
  }
  Res r;
  if (em.vars.empty() && em.atoms.empty() && cs.empty()) r = R_SAT;
  else r = Z.ask(text, timeout, model ? &out : nullptr, ex);
  if (r == R_UNKNOWN && useOther) {
    std::string t = std::string("(set-logic ") + (g_fpMode ? "QF_BVFP" : em.hasBV ? "ALL" : "QF_NRA") + ")\n" + text;
    r = Z.askOther({"cvc5", "--lang=smt2", "--incremental"}, t, timeout);
    if (r == R_SAT && model) r = R_UNKNOWN;
  }
  if (r == R_SAT && model && !ex.empty()) Solver::parseModel(out, em.vars, *model);
  if (!model) Z.cache[key] = r;
  return r;
}

static std::vector<u32> withPC(u32 c) {
  std::vector<u32> q = slicePC({c});
  q.push_back(c);
  return q;
}

// ------------------------------------------------------------ processes
static int waitKid(pid_t k) {
  int st = 0;
  while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    S->errors++;
    logLine("{\"kind\":\"error\",\"what\":\"worker died, status " + std::to_string(st) + "\"}");
  }
  return st;
}
// returns true in the child
static bool forkPath() {
  S->forks++;
  if (S->paths + S->forks > g_maxPaths * 2) { S->inconclusive++; throw PathEnd{"path limit"}; }
  bool par = false;
  u64 r = S->running.load();
  while (r < (u64)g_maxProcs) {
    if (S->running.compare_exchange_weak(r, r + 1)) { par = true; break; }
  }
  pid_t p = fork();
  if (p < 0) unsupported("fork failed");
  if (p == 0) {
    kids.clear();
    S->procs++;
    g_rng.seed(g_rng() ^ S->forks.load());
    if (!par) {}
    extern bool g_ownsToken;
    g_ownsToken = par;
    return true;
  }
  if (par) kids.push_back(p);
  else waitKid(p);
  return false;
}
bool g_ownsToken = true;

static std::string where();

static void emitInputs(std::string &s, Model &m, bool rnd = false) {
  s += "\"inputs\":[";
  for (u32 k = 0; k < E.inputs.size(); ++k) {
    const Input &in = E.inputs[k];
    if (k) s += ",";
    s += "{\"name\":\"" + jesc(in.name) + "\",\"kind\":" + std::to_string(in.kind) + ",\"value\":";
    auto it = m.find(k);
    char buf[64];
    if (in.kind == 0) {
      double v = std::max(in.lo, std::min(in.hi, 0.0));
      if (in.lo == 0 && in.hi == 1) v = 0.5;
      if (rnd && it == m.end() && std::isfinite(in.lo) && std::isfinite(in.hi)) v = in.lo + (in.hi - in.lo) * (double)(g_rng() % 63 + 1) / 64.0;
      if (it != m.end()) {
        std::string t = it->second;
        if (t.find("(fp ") != std::string::npos || t.find("(_ ") != std::string::npos) {
          // (fp #b0 #b... #x...)
          u64 b = 0;
          if (t.find("(_ +zero") != std::string::npos) b = 0;
          else if (t.find("(_ -zero") != std::string::npos) b = 1ull << 63;
          else {
            size_t i = 0;
            while ((i = t.find('#', i)) != std::string::npos) {
              ++i;
              if (t[i] == 'b') for (++i; i < t.size() && (t[i] == '0' || t[i] == '1'); ++i) b = b << 1 | (t[i] - '0');
              else for (++i; i < t.size() && isxdigit(t[i]); ++i) b = b << 4 | (isdigit(t[i]) ? t[i] - '0' : tolower(t[i]) - 'a' + 10);
            }
          }
          v = Exprs::d(b);
        } else {
          size_t i = 0;
          v = Solver::num(t, i);
        }
      }
      snprintf(buf, sizeof buf, "\"%.17g\"", v);
    } else {
      i64 v = std::max(in.ilo, std::min(in.ihi, (i64)0));
      if (it != m.end()) {
        const std::string &t = it->second;
        u64 b = 0;
        unsigned w = E.n[in.node].w;
        if (t.size() > 2 && t[1] == 'x') for (size_t i = 2; i < t.size(); ++i) b = b << 4 | (isdigit(t[i]) ? t[i] - '0' : tolower(t[i]) - 'a' + 10);
        else if (t.size() > 2 && t[1] == 'b') for (size_t i = 2; i < t.size(); ++i) b = b << 1 | (t[i] - '0');
        v = Exprs::sx(b, w);
      }
      snprintf(buf, sizeof buf, "\"%ld\"", (long)v);
    }
    s += buf;
    s += "}";
  }
  s += "]";
}

// a model of a finished path, to be run against the real code
static void logPathModel() {
  if (S->pathModels++ >= (u64)g_maxPathModels) { S->pathModels--; return; }
  try {
    Model m;
    if (!PC.empty() && query(PC, g_qTimeout * 2, &m) != R_SAT) { S->pathModels--; return; }
    std::string s = "{\"kind\":\"path\",";
    emitInputs(s, m, true);
    logLine(s + "}");
  } catch (Unsupported &) { S->pathModels--; }
}

static void reportViolation(const std::string &kind, const std::string &msg, u32 neg) {
  // try to find a clear-cut model
  std::vector<u32> q = PC;
  if (neg != ID_TRUE) q.push_back(neg);
  Model m;
  Res r = R_UNKNOWN;
  try { r = query(q, g_aTimeout, &m); } catch (Unsupported &) {}
  if (r == R_UNSAT) return;  // not reachable after all
  if (r == R_UNKNOWN) {
    // partial concretisation: fix all but a few variables
    std::set<u32> vs;
    for (u32 c : q) for (u32 v : varsOf(c)) if (E.n[v].op == O_FVAR) vs.insert(v);
    std::vector<u32> v(vs.begin(), vs.end());
    for (int t = 0; t < 12 && r != R_SAT && !v.empty(); ++t) {
      std::shuffle(v.begin(), v.end(), g_rng);
      std::vector<u32> q2 = q;
      size_t keep = t < 4 ? 2 : t < 8 ? 1 : 0;
      for (size_t i = keep; i < v.size(); ++i) {
        const Input &in = E.inputs[E.n[v[i]].imm];
        double lo = std::isfinite(in.lo) ? in.lo : -4, hi = std::isfinite(in.hi) ? in.hi : 4;
        double x = lo + (hi - lo) * (double)(g_rng() % 65) / 64.0;
        q2.push_back(E.fcmp(O_FEQ, v[i], E.fconst(x)));
      }
      m.clear();
      try { r = query(q2, 3000, &m); } catch (Unsupported &) {}
    }
    if (r != R_SAT) {
      S->inconclusive++;
      logLine("{\"kind\":\"inconclusive\",\"msg\":\"" + jesc(msg) + "\",\"what\":\"no model for a possible violation\",\"where\":\"" + jesc(where()) + "\"}");
      return;
    }
  }
  u64 nv = ++S->violations;
  std::string s = "{\"kind\":\"violation\",\"type\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(where()) + "\",";
  emitInputs(s, m);
  s += "}";
  logLine(s);
  if (nv >= (u64)g_maxViol) throw PathEnd{"violation limit"};
}

// decide a branch; forks when both sides are feasible
static bool decide(u32 c) {
  if (c == ID_TRUE) return true;
  if (c == ID_FALSE) return false;
  if (E.un(c)) {
    reportViolation("uninitialised", "branch depends on uninitialised memory", ID_TRUE);
    throw PathEnd{"uninit"};
  }
  if (nowS() > g_deadline) { S->inconclusive++; logLine("{\"kind\":\"inconclusive\",\"what\":\"deadline\"}"); throw PathEnd{"deadline"}; }
  if (S->violations >= (u64)g_maxViol) throw PathEnd{"violation limit"};
  u32 nc = E.not_(c);
  if (pcSet.count(c)) return true;
  if (pcSet.count(nc)) return false;
  int nb = g_fpMode ? -1 : normBool(c);
  if (nb >= 0) return nb;
  Res rt = query(withPC(c), g_qTimeout);
  if (rt == R_UNSAT) { addPC(nc); return false; }
  Res rf = query(withPC(nc), g_qTimeout);
  if (rf == R_UNSAT) { addPC(c); return true; }
  if (forkPath()) { addPC(c); return true; }
  addPC(nc);
  return false;
}

static void assume(u32 c) {
  if (c == ID_TRUE) return;
  if (E.un(c)) { reportViolation("uninitialised", "assumption on uninitialised memory", ID_TRUE); throw PathEnd{"uninit"}; }
  if (c == ID_FALSE) throw PathEnd{"assume"};
  int nb = g_fpMode ? -1 : normBool(c);
  if (nb == 0) throw PathEnd{"assume"};
  if (nb == 1) return;
  if (query(withPC(c), g_qTimeout) == R_UNSAT) throw PathEnd{"assume"};
  addPC(c);
}

// value of an integer node, forking over all feasible values
static u64 concretize(u32 id, const char *what) {
  const Node x = E.n[id];
  if (x.op == O_BCONST) return x.imm;
  if (id == ID_TRUE) return 1;
  if (id == ID_FALSE) return 0;
  if (x.op == O_UNINIT) {
    reportViolation("uninitialised", std::string("uninitialised value used as ") + what, ID_TRUE);
    throw PathEnd{"uninit"};
  }
  if (x.w == 0) unsupported(std::string("symbolic double used as ") + what);
  if (x.w == 1) return decide(id);
  S->concretized++;
  for (int it = 0; it < 4096; ++it) {
    // find a value
    Model m;
    // introduce a helper: read the value of id in a model
    std::vector<u32> q = slicePC({id});
    Emit em;
    std::vector<std::string> as;
    for (u32 c : q) as.push_back(em.boolean(c));
    std::string nm = em.bv(id);
    std::string t = em.decl + em.body;
    for (auto &a : as) t += "(assert " + a + ")\n";
    std::string out;
    Res r = Z.ask(t, g_qTimeout * 3, &out, "(get-value (" + nm + "))");
    if (r == R_UNSAT) throw PathEnd{"infeasible"};
    if (r == R_UNKNOWN) { S->inconclusive++; logLine("{\"kind\":\"inconclusive\",\"what\":\"cannot concretise\"}"); throw PathEnd{"unknown"}; }
    size_t p = out.rfind('#');
    u64 v = 0;
    if (p == std::string::npos) unsupported("model parse: " + out);
    if (out[p + 1] == 'x') for (size_t i = p + 2; i < out.size() && isxdigit(out[i]); ++i) v = v << 4 | (isdigit(out[i]) ? out[i] - '0' : tolower(out[i]) - 'a' + 10);
    else for (size_t i = p + 2; i < out.size() && (out[i] == '0' || out[i] == '1'); ++i) v = v << 1 | (out[i] - '0');
    u32 eq = E.bcmp(O_BEQ, id, E.bconst(x.w, v));
    if (decide(eq)) return v;
  }
  S->inconclusive++;
  logLine("{\"kind\":\"inconclusive\",\"what\":\"too many values to concretise\"}");
  throw PathEnd{"too many values"};
}

// integer part of a symbolic double: forks over feasible integers.
// kind 0 floor, 1 ceil, 2 trunc
static double roundFork(u32 id, int kind) {
  // value k: floor: k <= x < k+1 ; ceil: k-1 < x <= k ; trunc: by sign
  S->concretized++;
  std::vector<double> tried;
  for (int it = 0; it < 4096; ++it) {
    // get a model value for x (real mode: linear search guided by the solver)
    std::vector<u32> q = slicePC({id});
    Emit em;
    std::vector<std::string> as;
    for (u32 c : q) as.push_back(em.boolean(c));
    std::string nm, t;
    std::string out;
    Res r;
    double v;
    if (g_fpMode) {
      nm = em.fp(id);
      t = em.decl + em.body;
      for (auto &a : as) t += "(assert " + a + ")\n";
      t += "(declare-const rr Real)\n";
      // avoid Real: read the fp value
      r = Z.ask(em.decl + em.body + [&] { std::string s; for (auto &a : as) s += "(assert " + a + ")\n"; return s; }(), g_qTimeout * 5, &out, "(get-value (" + nm + "))");
      if (r == R_UNSAT) throw PathEnd{"infeasible"};
      if (r == R_UNKNOWN) { S->inconclusive++; logLine("{\"kind\":\"inconclusive\",\"what\":\"cannot concretise rounding\"}"); throw PathEnd{"unknown"}; }
      size_t p = out.rfind("(fp");
      u64 b = 0;
      if (p == std::string::npos) b = out.find("-zero") != std::string::npos ? 1ull << 63 : 0;
      else {
        size_t i = p;
        while ((i = out.find('#', i)) != std::string::npos) {
          ++i;
          if (out[i] == 'b') for (++i; i < out.size() && (out[i] == '0' || out[i] == '1'); ++i) b = b << 1 | (out[i] - '0');
          else for (++i; i < out.size() && isxdigit(out[i]); ++i) b = b << 4 | (isdigit(out[i]) ? out[i] - '0' : tolower(out[i]) - 'a' + 10);
        }
      }
      v = Exprs::d(b);
    } else {
      FracP f = C.canon(id);
      std::string s = em.poly(f->num);
      std::string den = "";
      for (auto &d : f->den) for (u32 e = 0; e < d.second; ++e) den += " " + em.needFactor(d.first);
      if (!den.empty()) s = "(/ " + s + " (*" + den + " 1.0))";
      t = em.decl + em.body;
      for (auto &a : as) t += "(assert " + a + ")\n";
      t += "(declare-const rr Real)\n(assert (= rr " + s + "))\n";
      r = Z.ask(t, g_qTimeout * 5, &out, "(get-value (rr))");
      if (r == R_UNSAT) throw PathEnd{"infeasible"};
      if (r == R_UNKNOWN) { S->inconclusive++; logLine("{\"kind\":\"inconclusive\",\"what\":\"cannot concretise rounding\"}"); throw PathEnd{"unknown"}; }
      size_t p = out.find("rr");
      p += 2;
      v = Solver::num(out, p);
    }
    double k = kind == 0 ? std::floor(v) : kind == 1 ? std::ceil(v) : std::trunc(v);
    // the model may be closer to an integer than doubles resolve
    if (std::find(tried.begin(), tried.end(), k) != tried.end()) k = std::find(tried.begin(), tried.end(), k - 1) == tried.end() ? k - 1 : k + 1;
    tried.push_back(k);
    u32 kc = E.fconst(k), c;
    if (kind == 2) kind = 2;
    int kk = kind == 2 ? (k > 0 ? 0 : 1) : kind;
    if (kind == 2 && k == 0) c = E.and_(E.fcmp(O_FLT, E.fconst(-1), id), E.fcmp(O_FLT, id, E.fconst(1)));
    else if (kk == 0) c = E.and_(E.fcmp(O_FLE, kc, id), E.fcmp(O_FLT, id, E.fconst(k + 1)));
    else c = E.and_(E.fcmp(O_FLT, E.fconst(k - 1), id), E.fcmp(O_FLE, id, kc));
    if (decide(c)) return k;
  }
  S->inconclusive++;
  throw PathEnd{"too many values"};
}

static int signOfFactor(u32 f) {
  // is the factor positive / negative under the pc?
  Emit em;
  std::string nm = em.poly(C.factors[f]);
  std::set<u32> vs = em.vars;
  std::vector<u32> cs;
  for (u32 c : PC) cs.push_back(c);
  std::string pre;
  std::vector<std::string> as;
  for (u32 c : cs) as.push_back(em.boolean(c));
  std::string t = em.decl + em.body;
  for (auto &a : as) t += "(assert " + a + ")\n";
  int r = 2;
  if (Z.ask(t + "(assert (<= " + nm + " 0.0))\n", g_aTimeout) == R_UNSAT) r = 1;
  else if (Z.ask(t + "(assert (>= " + nm + " 0.0))\n", g_aTimeout) == R_UNSAT) r = -1;
  C.factorSign[f] = r;
  return r;
}

// Obligations discharged by the normal form are handed to the SMT solver once
// more, as written (no normal form, no path condition), in batches.
static std::vector<u32> crossQ;
static double crossSpent = 0;
static std::string composeRaw(u32 any, Emit &em) {
  std::string c = em.boolean(any);
  std::string t = em.decl + em.body + "(assert (or false " + c;
  for (auto &g : em.goals) t += " (not " + g + ")";
  return t + "))\n";
}
static void crossFlush() {
  if (crossQ.empty()) return;
  std::vector<u32> q;
  q.swap(crossQ);
  double t0 = nowS();
  try {
    u32 any = ID_FALSE;
    for (u32 n : q) any = E.or_(any, n);
    Emit em;
    em.raw = true;
    std::vector<u32> v{any};
    std::string t = composeRaw(any, em);
    Res r = Z.ask(t, 3000);
    if (r == R_UNSAT) S->rawCross += q.size();
    else if (r == R_UNKNOWN) S->rawCrossUnknown += q.size();
    else {
      S->errors++;
      logLine("{\"kind\":\"error\",\"what\":\"normaliser and solver disagree\"}");
    }
  } catch (Unsupported &) { S->rawCrossUnknown += q.size(); }
  crossSpent += nowS() - t0;
  S->crossUs += (u64)((nowS() - t0) * 1e6);
}
static void rawCross(u32 neg) {
  if (g_fpMode || crossSpent > 6 || S->crossUs > 120000000ull) { S->rawCrossUnknown++; return; }
  size_t cnt = 0;
  std::vector<u32> st{neg};
  std::unordered_set<u32> seen;
  while (!st.empty() && cnt < 3000) {
    u32 k = st.back(); st.pop_back();
    if (!k || !seen.insert(k).second) continue;
    ++cnt;
    const Node &x = E.n[k];
    if (x.op == O_FUF) return;
    if (x.op == O_FCONST || x.op == O_FVAR || x.op == O_BCONST || x.op == O_BVAR) continue;
    st.push_back(x.a); st.push_back(x.b); st.push_back(x.c);
  }
  if (cnt >= 3000) { S->rawCrossUnknown++; return; }
  crossQ.push_back(neg);
  if (crossQ.size() >= 24) crossFlush();
}

// number of monomials an expanded expression may have
static double sizeEst(u32 id, std::unordered_map<u32, double> &memo) {
  auto it = memo.find(id);
  if (it != memo.end()) return it->second;
  const Node x = E.n[id];
  double r = 1;
  if (x.op == O_FADD || x.op == O_FSUB) r = sizeEst(x.a, memo) + sizeEst(x.b, memo);
  else if (x.op == O_FMUL || x.op == O_FDIV) r = sizeEst(x.a, memo) * sizeEst(x.b, memo);
  else if (x.op == O_FNEG) r = sizeEst(x.a, memo);
  return memo[id] = std::min(r, 1e12);
}
static bool evalD(u32 id, std::unordered_map<u32, double> &memo, double &out) {
  auto it = memo.find(id);
  if (it != memo.end()) { out = it->second; return true; }
  const Node x = E.n[id];
  double a = 0, b = 0;
  switch (x.op) {
    case O_FCONST: out = Exprs::d(x.imm); break;
    case O_FVAR: {
      const Input &in = E.inputs[x.imm];
      if (!std::isfinite(in.lo) || !std::isfinite(in.hi)) return false;
      out = in.lo + (in.hi - in.lo) * (rand() / (RAND_MAX + 1.0));
      break;
    }
    case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV:
      if (!evalD(x.a, memo, a) || !evalD(x.b, memo, b)) return false;
      out = x.op == O_FADD ? a + b : x.op == O_FSUB ? a - b : x.op == O_FMUL ? a * b : a / b;
      break;
    case O_FNEG: if (!evalD(x.a, memo, a)) return false; out = -a; break;
    default: return false;
  }
  memo[id] = out;
  return true;
}
// large identities of rational functions: the solver first, as written
static bool rawFirst(u32 x, u32 y, const std::string &msg) {
  if (g_fpMode) return false;
  std::unordered_map<u32, double> memo;
  if (sizeEst(x, memo) + sizeEst(y, memo) < 600) return false;
  for (int k = 0; k < 2; ++k) {
    std::unordered_map<u32, double> m;
    double a, b;
    if (!evalD(x, m, a) || !evalD(y, m, b)) return false;
    if (!(std::fabs(a - b) <= 1e-7 * (std::fabs(a) + std::fabs(b)) + 1e-9)) return false;
  }
  try {
    Emit em;
    em.raw = true;
    std::string t = composeRaw(E.not_(E.fcmp(O_FEQ, x, y)), em);
    if (Z.ask(t, 10000) != R_UNSAT) return false;
  } catch (Unsupported &) { return false; }
  S->asserts++;
  S->assertSolver++;
  if (g_msgs.insert(msg).second) logLine("{\"kind\":\"obl\",\"msg\":\"" + jesc(msg) + "\"}");
  return true;
}

// equality up to the rounding of constants: in the normalised difference of
// the two rational functions every coefficient is below 1e-11 of the largest
// one of their sum (same denominator). Confirmed by the solver for small sizes
// with the monomials as free reals.
static bool coefClose(u32 x, u32 y, const std::string &msg) {
  if (g_fpMode) return false;
  FracP d, s;
  try {
    FracP a = C.canon(x), b = C.canon(y);
    d = C.add(a, b, -1);
    s = C.add(a, b, 1);
  } catch (Unsupported &) { return false; }
  if (d->den != s->den || s->num.empty()) return false;
  mpq_class M = 0;
  for (auto &t : s->num)
    if (abs(t.second) > M) M = abs(t.second);
  const mpq_class tol = M * mpq_class(1e-11);
  for (auto &t : d->num)
    if (abs(t.second) > tol) return false;
  if (d->num.size() <= 24) {
    // sum of |c_i m_i| <= tol * sum of |m_i|
    std::string q, l, r;
    int k = 0;
    for (auto &t : d->num) {
      std::string m = "m" + std::to_string(k), n = "n" + std::to_string(k);
      ++k;
      q += "(declare-const " + m + " Real)\n(declare-const " + n + " Real)\n(assert (and (>= " + n + " " + m + ") (>= " + n + " (- " + m + "))))\n";
      l += " (* " + Emit::q(t.second) + " " + m + ")";
      r += " (* " + Emit::q(tol) + " " + n + ")";
    }
    if (Z.ask(q + "(assert (> (+ 0.0" + l + ") (+ 0.0" + r + ")))\n", g_qTimeout) == R_SAT) return false;
  }
  S->asserts++;
  S->assertBox++;
  if (g_msgs.insert(msg).second) logLine("{\"kind\":\"obl\",\"msg\":\"" + jesc(msg) + "\"}");
  return true;
}

// prove cond under PC. tolerant = obligation of the form |diff| <= tol
static void prove(u32 cond, const std::string &msg, u32 strong) {
  S->asserts++;
  if (nowS() > g_deadline) { S->inconclusive++; logLine("{\"kind\":\"inconclusive\",\"what\":\"deadline\"}"); throw PathEnd{"deadline"}; }
  if (S->violations >= (u64)g_maxViol) throw PathEnd{"violation limit"};
  if (g_msgs.insert(msg).second) logLine("{\"kind\":\"obl\",\"msg\":\"" + jesc(msg) + "\"}");
  if (cond == ID_TRUE) { S->assertConst++; return; }
  if (E.un(cond)) {
    S->assertFail++;
    reportViolation("uninitialised", msg + " (value depends on uninitialised memory)", ID_TRUE);
    return;
  }
  u32 neg = E.not_(cond);
  int nb = g_fpMode ? (cond == ID_FALSE ? 0 : -1) : normBool(cond);
  if (nb == 1) {
    S->assertNorm++;
    rawCross(neg);
    return;
  }
  if (nb < 0 && !g_fpMode) {
    // bounded-box relaxation: monomials become independent variables (LRA)
    const Node &x = E.n[neg];
    std::vector<u32> lits;
    if (E.n[neg].op == O_OR) lits = {x.a, x.b};
    else lits = {neg};
    bool all = true;
    for (u32 l : lits) {
      Node y = E.n[l];
      bool ng = false;
      if (y.op == O_NOT) { ng = true; y = E.n[y.a]; }
      if (y.op != O_FLT && y.op != O_FLE) { all = false; break; }
      FracP d = C.add(C.canon(y.a), C.canon(y.b), -1);
      if (!d->den.empty()) { all = false; break; }
      if (d->num.size() > 20000) { all = false; break; }
      Emit em;
      em.abstractMonos = true;
      // terms of rounding size are collected into one bounded variable
      Poly big;
      mpq_class slack = 0;
      for (auto &q : d->num) {
        double lo, hi;
        if (q.first == 0 || !monoBox(q.first, lo, hi)) { big.push_back(q); continue; }
        mpq_class b = mpq_class(std::max(std::fabs(lo), std::fabs(hi))) * abs(q.second);
        if (b < 1e-13) slack += b;
        else big.push_back(q);
      }
      std::string p = em.poly(big);
      std::string t;
      if (slack > 0) {
        // rounded up
        mpq_class up(slack.get_d() * (1 + 1e-12));
        t += "(declare-const slk Real)\n(assert (and (<= " + Emit::q(-up) + " slk) (<= slk " + Emit::q(up) + ")))\n";
        p = "(+ slk " + p + ")";
      }
      bool boxed = true;
      for (u32 m : em.absMonos) {
        double lo, hi;
        if (!monoBox(m, lo, hi)) { boxed = false; break; }
        t += "(declare-const m" + std::to_string(m) + " Real)\n(assert (and (<= " + Emit::q(mpq_class(lo)) + " m" + std::to_string(m) + ") (<= m" + std::to_string(m) + " " + Emit::q(mpq_class(hi)) + ")))\n";
      }
      if (!boxed) { all = false; break; }
      std::string cmp = y.op == O_FLT ? "<" : "<=";
      std::string f = "(" + cmp + " " + p + " 0.0)";
      if (ng) f = "(not " + f + ")";
      if (Z.ask(t + "(assert " + f + ")\n", g_qTimeout) != R_UNSAT) { all = false; break; }
    }
    if (all) { S->assertBox++; return; }
  }
  // full query
  Res r;
  Model m;
  if (strong != 0 && strong != ID_FALSE && !E.un(strong)) {
    // look for a clear violation first
    r = query(withPC(strong), std::min(g_aTimeout, 4000));
    if (r == R_SAT) {
      S->assertFail++;
      reportViolation("assert", msg, strong);
      addPC(cond);
      return;
    }
  }
  r = query(withPC(neg), g_aTimeout, nullptr, true);
  if (r == R_UNSAT) { S->assertSolver++; addPC(cond); return; }
  if (r == R_UNKNOWN) {
    // look for a counterexample by partial concretisation
    u64 v0 = S->violations, i0 = S->inconclusive;
    reportViolation("assert", msg, neg);
    if (S->violations == v0 && S->inconclusive == i0) S->inconclusive++;
    S->assertFail++;
    return;
  }
  S->assertFail++;
  reportViolation("assert", msg, neg);
  // continue under the assumption that it holds
  if (query(withPC(cond), g_qTimeout) == R_UNSAT) throw PathEnd{"violated"};
  addPC(cond);
}

#include "interp.h"

static void finishProcess() {
  for (pid_t k : kids) waitKid(k);
  kids.clear();
}

int main(int argc, char **argv) {
  // large native stack for recursive normalisation
  rlimit rl;
  getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("BSX_REEXEC")) {
    rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (2ull << 30) : std::min<rlim_t>(rl.rlim_max, 2ull << 30);
    if (setrlimit(RLIMIT_STACK, &rl) == 0) {
      setenv("BSX_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string file;
  double timeLimit = 300;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-fn") g_fnName = argv[++i];
    else if (a == "-out") g_out = argv[++i];
    else if (a == "-fp") g_fpMode = true;
    else if (a == "-time") timeLimit = atof(argv[++i]);
    else if (a == "-qt") g_qTimeout = atoi(argv[++i]);
    else if (a == "-at") g_aTimeout = atoi(argv[++i]);
    else if (a == "-procs") g_maxProcs = atoi(argv[++i]);
    else if (a == "-paths") g_maxPaths = atoll(argv[++i]);
    else if (a == "-pm") g_maxPathModels = atoi(argv[++i]);
    else if (a == "-seed") g_rng.seed(atoll(argv[++i]));
    else if (a == "-set") { g_useConcrete = true; g_concrete.push_back(argv[++i]); }
    else file = a;
  }
  g_start = nowS();
  g_deadline = g_start + timeLimit;
  signal(SIGPIPE, SIG_IGN);
  S = (Stats *)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)S, 0, sizeof(Stats));
  S->running = 1;
  g_fdLog = open((g_out + ".jsonl").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
  if (g_fdLog < 0) { perror("log"); return 3; }
  C.signOracle = signOfFactor;
  M.init();
  installSegv();
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) { err.print("bsx", errs()); return 3; }
  if (!getenv("BSX_STDOUT")) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
  }
  pid_t root = getpid();
  runAll(*mod);
  finishProcess();
  if (g_ownsToken) S->running--;
  if (getpid() != root) _exit(0);
  std::string s = "{\"kind\":\"summary\"";
#define F(x) s += ",\"" #x "\":" + std::to_string(S->x.load());
  F(queries) F(qSat) F(qUnsat) F(qUnknown) F(qTimeUs) F(paths) F(pathsSat) F(asserts) F(assertConst) F(assertNorm) F(assertBox) F(assertSolver) F(assertFail) F(forks) F(instrs) F(inconclusive) F(procs) F(violations) F(divAssumed) F(rawCross) F(rawCrossUnknown) F(concretized) F(covers) F(cacheHits) F(maxPc) F(errors) F(pathModels)
  char b[64];
  snprintf(b, sizeof b, ",\"wall\":%.3f}", nowS() - g_start);
  logLine(s + b);
  if (Z.z3.pid > 0) Z.z3.stop();
  return 0;
}
