// SMT-LIB back end of bsx: z3 / cvc5 processes over pipes.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <sstream>
#include "expr.h"

inline double nowS() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Stats {
  std::atomic<u64> queries, qSat, qUnsat, qUnknown, qTimeUs, paths, pathsSat,
      asserts, assertConst, assertNorm, assertBox, assertSolver, assertFail,
      forks, instrs, inconclusive, procs, running, violations, divAssumed,
      rawCross, rawCrossUnknown, crossUs, concretized, covers, cacheHits, maxPc, errors, pathModels;
};
extern Stats *S;
extern double g_deadline;
extern int g_qTimeout;      // ms, feasibility
extern int g_aTimeout;      // ms, assertions

enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct SolverProc {
  pid_t pid = -1, owner = -1;
  int in = -1, out = -1;
  std::vector<std::string> argv;
  std::string buf;
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) unsupported("pipe");
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      dup2(a[0], 0);
      dup2(b[1], 1);
      dup2(b[1], 2);
      std::vector<char *> v;
      for (auto &s : argv) v.push_back((char *)s.c_str());
      v.push_back(nullptr);
      execvp(v[0], v.data());
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    in = a[1];
    out = b[0];
    owner = getpid();
    buf.clear();
  }
  void stop() {
    if (pid > 0 && owner == getpid()) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
    }
    if (in >= 0) close(in);
    if (out >= 0) close(out);
    pid = -1;
    in = out = -1;
  }
  // send text, read until the marker line
  bool talk(const std::string &text, std::string &ans, double timeout) {
    if (pid < 0 || owner != getpid()) {
      if (in >= 0) close(in);
      if (out >= 0) close(out);
      in = out = -1;
      pid = -1;
      start();
    }
    std::string t = text + "\n(echo \"@@END@@\")\n";
    size_t off = 0;
    double end = nowS() + timeout;
    fcntl(in, F_SETFL, O_NONBLOCK);
    ans.clear();
    for (;;) {
      size_t p = buf.find("@@END@@");
      if (p != std::string::npos) {
        ans = buf.substr(0, p);
        size_t e = buf.find('\n', p);
        buf = e == std::string::npos ? "" : buf.substr(e + 1);
        return true;
      }
      double left = end - nowS();
      if (left <= 0) {
        stop();
        return false;
      }
      pollfd pf[2] = {{out, POLLIN, 0}, {in, POLLOUT, 0}};
      int r = poll(pf, off < t.size() ? 2 : 1, (int)(left * 1000) + 1);
      if (r < 0) continue;
      if (off < t.size() && (pf[1].revents & (POLLOUT | POLLERR))) {
        ssize_t w = write(in, t.data() + off, t.size() - off);
        if (w > 0) off += w;
        else if (w < 0 && errno != EAGAIN) {
          stop();
          return false;
        }
      }
      if (pf[0].revents & (POLLIN | POLLHUP)) {
        char tmp[65536];
        ssize_t k = read(out, tmp, sizeof tmp);
        if (k <= 0) {
          stop();
          return false;
        }
        buf.append(tmp, k);
      }
    }
  }
};

// ------------------------------------------------------------ SMT emission
struct Emit {
  std::string decl, body;
  std::set<u32> vars;       // input nodes (FVAR/BVAR)
  std::set<u32> atoms;      // real mode atoms
  std::set<u32> facs;       // denominators asserted non-zero
  std::unordered_map<u32, std::string> done;
  bool linear = true;
  bool hasBV = false, hasReal = false;
  bool raw = false;  // real mode without normalisation
  // LRA abstraction
  bool abstractMonos = false;
  std::set<u32> absMonos;

  static std::string q(const mpq_class &c) {
    mpq_class a = abs(c);
    std::string s = a.get_num().get_str() + ".0";
    if (a.get_den() != 1) s = "(/ " + s + " " + a.get_den().get_str() + ".0)";
    if (c < 0) s = "(- " + s + ")";
    return s;
  }
  static std::string vname(const Input &in, u32 k) { return "v" + std::to_string(k); }
  void needInput(u32 id) {
    if (!vars.insert(id).second) return;
    const Node &x = E.n[id];
    const Input &in = E.inputs[x.imm];
    std::string nm = vname(in, x.imm);
    if (x.op == O_FVAR) {
      if (g_fpMode) {
        decl += "(declare-const " + nm + " (_ FloatingPoint 11 53))\n";
        body += "(assert (and (fp.leq " + fpc(in.lo) + " " + nm + ") (fp.leq " + nm + " " + fpc(in.hi) + ")))\n";
      } else {
        hasReal = true;
        decl += "(declare-const " + nm + " Real)\n";
        if (std::isfinite(in.lo)) body += "(assert (>= " + nm + " " + q(mpq_class(in.lo)) + "))\n";
        if (std::isfinite(in.hi)) body += "(assert (<= " + nm + " " + q(mpq_class(in.hi)) + "))\n";
      }
    } else {
      hasBV = true;
      decl += "(declare-const " + nm + " (_ BitVec " + std::to_string(x.w) + "))\n";
      body += "(assert (and (bvsle " + bvc(x.w, (u64)in.ilo) + " " + nm + ") (bvsle " + nm + " " + bvc(x.w, (u64)in.ihi) + ")))\n";
    }
  }
  static std::string bvc(unsigned w, u64 v) {
    if (w < 64) v &= (1ull << w) - 1;
    return "(_ bv" + std::to_string(v) + " " + std::to_string(w) + ")";
  }
  static std::string fpc(double v) {
    u64 b = Exprs::bits(v);
    std::string s = "(fp #b" + std::to_string(b >> 63) + " #b";
    for (int i = 62; i >= 52; --i) s += ((b >> i) & 1) ? '1' : '0';
    s += " #b";
    for (int i = 51; i >= 0; --i) s += ((b >> i) & 1) ? '1' : '0';
    return s + ")";
  }
  std::string atomName(u32 a) { return "a" + std::to_string(a); }
  void needAtom(u32 a) {
    if (!atoms.insert(a).second) return;
    const Atom at = C.atoms[a];
    if (at.kind == A_VAR) {
      needInput(at.node);
      return;
    }
    hasReal = true;
    std::string nm = atomName(a);
    decl += "(declare-const " + nm + " Real)\n";
    switch (at.kind) {
      case A_SQRT: {
        std::string p = poly(at.def);
        linear = false;
        body += "(assert (>= " + nm + " 0.0))\n(assert (= (* " + nm + " " + nm + ") " + p + "))\n";
        break;
      }
      case A_ABS: {
        std::string p = poly(at.arg->num);
        body += "(assert (= " + nm + " (ite (>= " + p + " 0.0) " + p + " (- " + p + "))))\n";
        break;
      }
      case A_SIN: case A_COS:
        body += "(assert (and (<= (- 1.0) " + nm + ") (<= " + nm + " 1.0)))\n";
        if (at.kind == A_SIN) {
          needAtom(at.partner);
          std::string c = atomName(at.partner);
          body += "(assert (= (+ (* " + nm + " " + nm + ") (* " + c + " " + c + ")) 1.0))\n";
          linear = false;
        }
        break;
      case A_EXP: {
        // e^x >= 1 + x, e^x > 0 ; monotone pairwise axioms are added by need
        body += "(assert (> " + nm + " 0.0))\n";
        if (at.arg->den.empty()) body += "(assert (>= " + nm + " (+ 1.0 " + poly(at.arg->num) + ")))\n";
        break;
      }
      case A_LOG:
        if (at.arg->den.empty())
          body += "(assert (<= " + nm + " (- " + poly(at.arg->num) + " 1.0)))\n";
        break;
      default: break;
    }
  }
  std::string monoStr(u32 m) {
    if (abstractMonos && m) {
      absMonos.insert(m);
      return "m" + std::to_string(m);
    }
    const auto &f = C.monos[m].f;
    std::string s;
    int cnt = 0;
    for (auto &p : f) {
      needAtom(p.first);
      std::string nm = C.atoms[p.first].kind == A_VAR ? "v" + std::to_string(E.n[C.atoms[p.first].node].imm) : atomName(p.first);
      for (u32 e = 0; e < p.second; ++e) {
        s += " " + nm;
        ++cnt;
      }
    }
    if (cnt > 1) {
      linear = false;
      return "(*" + s + ")";
    }
    return s.substr(1);
  }
  std::string poly(const Poly &p) {
    if (p.empty()) return "0.0";
    std::string s;
    int n = 0;
    for (auto &t : p) {
      if (t.first == 0)
        s += " " + q(t.second);
      else if (t.second == 1)
        s += " " + monoStr(t.first);
      else
        s += " (* " + q(t.second) + " " + monoStr(t.first) + ")";
      ++n;
    }
    if (n == 1) return s.substr(1);
    return "(+" + s + ")";
  }
  std::string needFactor(u32 f) {
    std::string nm = "f" + std::to_string(f);
    if (!facs.insert(f).second) return nm;
    std::string p = poly(C.factors[f]);
    decl += "";
    body += "(declare-const " + nm + " Real)\n(assert (= " + nm + " " + p + "))\n(assert (not (= " + nm + " 0.0)))\n";
    hasReal = true;
    if (C.factorSign[f] == 1) body += "(assert (> " + nm + " 0.0))\n";
    if (C.factorSign[f] == -1) body += "(assert (< " + nm + " 0.0))\n";
    return nm;
  }
  // sign-equivalent string of a frac
  std::string fracSign(const FracP &f, bool eq) {
    std::string p = poly(f->num);
    std::vector<std::string> odd;
    for (auto &d : f->den) {
      std::string nm = needFactor(d.first);
      if (d.second % 2) odd.push_back(nm);
    }
    if (eq || odd.empty()) return p;
    linear = false;
    std::string s = "(* " + p;
    for (auto &o : odd) s += " " + o;
    return s + ")";
  }
  // raw fractions: polynomial terms as written over a multiset of denominators.
  // Denominators with the same value share a symbol; goals holds the equalities
  // that justify it and is part of the query.
  struct RF {
    std::string n;
    std::map<int, int> den;
  };
  std::map<std::string, int> denKey;
  std::vector<std::string> denName, goals;
  std::map<int, std::set<std::string>> denSeen;
  std::unordered_map<u32, RF> doneRF;
  int rfCount = 0;
  std::string nameRF(const std::string &r) {
    std::string nm = "r" + std::to_string(rfCount++);
    body += "(define-fun " + nm + " () Real " + r + ")\n";
    return nm;
  }
  std::string lift(const RF &a, const std::map<int, int> &L) {
    std::string s;
    for (auto &d : L) {
      auto it = a.den.find(d.first);
      for (int k = it == a.den.end() ? 0 : it->second; k < d.second; ++k) s += " " + denName[d.first];
    }
    return s.empty() ? a.n : "(* " + a.n + s + ")";
  }
  static std::map<int, int> lcm(const RF &a, const RF &b) {
    std::map<int, int> L = a.den;
    for (auto &d : b.den) L[d.first] = std::max(L[d.first], d.second);
    return L;
  }
  RF divide(RF a, u32 b) {
    const Node x = E.n[b];
    if (x.op == O_FCONST) { a.n = "(* " + q(1 / mpq_class(Exprs::d(x.imm))) + " " + a.n + ")"; return a; }
    if (x.op == O_FMUL) return divide(divide(a, x.a), x.b);
    if (x.op == O_FNEG) { a.n = "(- " + a.n + ")"; return divide(a, x.a); }
    RF pb = rf(b);
    if (x.op == O_FDIV) {
      RF t = rf(x.b);
      a.n = "(* " + a.n + " " + t.n + ")";
      for (auto &d : t.den) a.den[d.first] += d.second;
      return divide(a, x.a);
    }
    FracP f = C.canon(b);
    std::ostringstream key;
    for (auto &t : f->num) key << t.second.get_str() << '*' << t.first << '+';
    key << '/';
    for (auto &d : f->den) key << d.first << '^' << d.second << '*';
    key << '|';
    for (auto &d : pb.den) key << d.first << '^' << d.second << '*';
    auto it = denKey.emplace(key.str(), (int)denName.size());
    int k = it.first->second;
    if (it.second) denName.push_back(pb.n);
    else if (pb.n != denName[k] && denSeen[k].insert(pb.n).second) goals.push_back("(= " + denName[k] + " " + pb.n + ")");
    for (auto &d : pb.den)
      for (int e = 0; e < d.second; ++e) a.n = "(* " + a.n + " " + denName[d.first] + ")";
    a.den[k]++;
    return a;
  }
  RF rf(u32 id) {
    auto it = doneRF.find(id);
    if (it != doneRF.end()) return it->second;
    const Node x = E.n[id];
    RF r;
    switch (x.op) {
      case O_FADD: case O_FSUB: {
        RF a = rf(x.a), b = rf(x.b);
        r.den = lcm(a, b);
        std::string l = lift(a, r.den), m = lift(b, r.den);
        r.n = std::string(x.op == O_FADD ? "(+ " : "(- ") + l + " " + m + ")";
        break;
      }
      case O_FMUL: {
        RF a = rf(x.a), b = rf(x.b);
        r = a;
        for (auto &d : b.den) r.den[d.first] += d.second;
        r.n = "(* " + a.n + " " + b.n + ")";
        break;
      }
      case O_FDIV: r = divide(rf(x.a), x.b); break;
      case O_FNEG: r = rf(x.a); r.n = "(- " + r.n + ")"; break;
      default: r.n = rawReal(id); return doneRF[id] = r;
    }
    r.n = nameRF(r.n);
    return doneRF[id] = r;
  }
  // raw real terms (no normalisation)
  std::string rawReal(u32 id) {
    auto it = done.find(id);
    if (it != done.end()) return it->second;
    const Node x = E.n[id];
    std::string r;
    switch (x.op) {
      case O_FCONST: return q(mpq_class(Exprs::d(x.imm)));
      case O_FVAR: needInput(id); return "v" + std::to_string(x.imm);
      case O_FADD: r = "(+ " + rawReal(x.a) + " " + rawReal(x.b) + ")"; break;
      case O_FSUB: r = "(- " + rawReal(x.a) + " " + rawReal(x.b) + ")"; break;
      case O_FMUL: r = "(* " + rawReal(x.a) + " " + rawReal(x.b) + ")"; break;
      case O_FDIV: {
        std::string d = rawReal(x.b);
        body += "(assert (not (= " + d + " 0.0)))\n";
        r = "(/ " + rawReal(x.a) + " " + d + ")";
        break;
      }
      case O_FNEG: r = "(- " + rawReal(x.a) + ")"; break;
      case O_FABS: {
        std::string d = rawReal(x.a);
        r = "(ite (>= " + d + " 0.0) " + d + " (- " + d + "))";
        break;
      }
      case O_FSQRT: {
        std::string nm = "s" + std::to_string(id), d = rawReal(x.a);
        body += "(declare-const " + nm + " Real)\n(assert (>= " + nm + " 0.0))\n(assert (= (* " + nm + " " + nm + ") " + d + "))\n";
        done[id] = nm;
        return nm;
      }
      default: unsupported("raw");
    }
    std::string nm = "n" + std::to_string(id);
    body += "(define-fun " + nm + " () Real " + r + ")\n";
    done[id] = nm;
    return nm;
  }
  std::string fp(u32 id) {
    auto it = done.find(id);
    if (it != done.end()) return it->second;
    const Node x = E.n[id];
    std::string r;
    switch (x.op) {
      case O_FCONST: return fpc(Exprs::d(x.imm));
      case O_FVAR: needInput(id); return "v" + std::to_string(x.imm);
      case O_FADD: r = "(fp.add RNE " + fp(x.a) + " " + fp(x.b) + ")"; break;
      case O_FSUB: r = "(fp.sub RNE " + fp(x.a) + " " + fp(x.b) + ")"; break;
      case O_FMUL: r = "(fp.mul RNE " + fp(x.a) + " " + fp(x.b) + ")"; break;
      case O_FDIV: r = "(fp.div RNE " + fp(x.a) + " " + fp(x.b) + ")"; break;
      case O_FNEG: r = "(fp.neg " + fp(x.a) + ")"; break;
      case O_FABS: r = "(fp.abs " + fp(x.a) + ")"; break;
      case O_FSQRT: r = "(fp.sqrt RNE " + fp(x.a) + ")"; break;
      case O_FROUND:
        r = std::string("(fp.roundToIntegral ") + (x.imm == 0 ? "RTN " : x.imm == 1 ? "RTP " : "RTZ ") + fp(x.a) + ")";
        break;
      default: unsupported("fp op " + std::to_string(x.op));
    }
    std::string nm = "n" + std::to_string(id);
    body += "(define-fun " + nm + " () (_ FloatingPoint 11 53) " + r + ")\n";
    done[id] = nm;
    return nm;
  }
  std::string bv(u32 id) {
    auto it = done.find(id);
    if (it != done.end()) return it->second;
    const Node x = E.n[id];
    std::string r;
    auto bin = [&](const char *o) { return std::string("(") + o + " " + bv(x.a) + " " + bv(x.b) + ")"; };
    switch (x.op) {
      case O_BCONST: return bvc(x.w, x.imm);
      case O_BVAR: needInput(id); return "v" + std::to_string(x.imm);
      case O_BADD: r = bin("bvadd"); break;
      case O_BSUB: r = bin("bvsub"); break;
      case O_BMUL: r = bin("bvmul"); break;
      case O_BUDIV: r = bin("bvudiv"); break;
      case O_BSDIV: r = bin("bvsdiv"); break;
      case O_BUREM: r = bin("bvurem"); break;
      case O_BSREM: r = bin("bvsrem"); break;
      case O_BAND: r = bin("bvand"); break;
      case O_BOR: r = bin("bvor"); break;
      case O_BXOR: r = bin("bvxor"); break;
      case O_BSHL: r = bin("bvshl"); break;
      case O_BLSHR: r = bin("bvlshr"); break;
      case O_BASHR: r = bin("bvashr"); break;
      case O_BZEXT: r = "((_ zero_extend " + std::to_string(x.w - E.n[x.a].w) + ") " + bv(x.a) + ")"; break;
      case O_BSEXT: r = "((_ sign_extend " + std::to_string(x.w - E.n[x.a].w) + ") " + bv(x.a) + ")"; break;
      case O_BTRUNC: r = "((_ extract " + std::to_string(x.w - 1) + " 0) " + bv(x.a) + ")"; break;
      case O_BITE: r = "(ite " + boolean(x.a) + " " + bv(x.b) + " " + bv(x.c) + ")"; break;
      default: unsupported("bv op " + std::to_string(x.op));
    }
    hasBV = true;
    std::string nm = "n" + std::to_string(id);
    body += "(define-fun " + nm + " () (_ BitVec " + std::to_string(x.w) + ") " + r + ")\n";
    done[id] = nm;
    return nm;
  }
  std::string boolean(u32 id) {
    auto it = done.find(id);
    if (it != done.end()) return it->second;
    const Node x = E.n[id];
    std::string r;
    switch (x.op) {
      case O_TRUE: return "true";
      case O_FALSE: return "false";
      case O_NOT: r = "(not " + boolean(x.a) + ")"; break;
      case O_AND: r = "(and " + boolean(x.a) + " " + boolean(x.b) + ")"; break;
      case O_OR: r = "(or " + boolean(x.a) + " " + boolean(x.b) + ")"; break;
      case O_FEQ: case O_FLT: case O_FLE:
        if (g_fpMode)
          r = std::string("(") + (x.op == O_FEQ ? "fp.eq " : x.op == O_FLT ? "fp.lt " : "fp.leq ") + fp(x.a) + " " + fp(x.b) + ")";
        else if (raw && x.op == O_FEQ) {
          RF a = rf(x.a), b = rf(x.b);
          std::map<int, int> L = lcm(a, b);
          std::string l = lift(a, L), m = lift(b, L);
          r = "(= " + l + " " + m + ")";
        } else if (raw)
          r = std::string("(") + (x.op == O_FEQ ? "= " : x.op == O_FLT ? "< " : "<= ") + rawReal(x.a) + " " + rawReal(x.b) + ")";
        else {
          FracP d = C.add(C.canon(x.a), C.canon(x.b), -1);
          r = std::string("(") + (x.op == O_FEQ ? "= " : x.op == O_FLT ? "< " : "<= ") + fracSign(d, x.op == O_FEQ) + " 0.0)";
        }
        break;
      case O_BEQ: r = "(= " + bv(x.a) + " " + bv(x.b) + ")"; break;
      case O_BULT: r = "(bvult " + bv(x.a) + " " + bv(x.b) + ")"; break;
      case O_BULE: r = "(bvule " + bv(x.a) + " " + bv(x.b) + ")"; break;
      case O_BSLT: r = "(bvslt " + bv(x.a) + " " + bv(x.b) + ")"; break;
      case O_BSLE: r = "(bvsle " + bv(x.a) + " " + bv(x.b) + ")"; break;
      default: unsupported("bool op " + std::to_string(x.op));
    }
    std::string nm = "b" + std::to_string(id);
    body += "(define-fun " + nm + " () Bool " + r + ")\n";
    done[id] = nm;
    return nm;
  }
};

typedef std::map<u32, std::string> Model;  // input index -> printed value

struct Solver {
  SolverProc z3;
  std::unordered_map<std::string, Res> cache;
  Solver() { z3.argv = {"z3-new", "-in"}; }
  // parse s-expression numeric value to double
  static double num(const std::string &s, size_t &i) {
    while (i < s.size() && isspace(s[i])) ++i;
    if (s[i] == '(') {
      ++i;
      while (isspace(s[i])) ++i;
      if (s[i] == '-') {
        ++i;
        double v = num(s, i);
        while (i < s.size() && s[i] != ')') ++i;
        ++i;
        return -v;
      }
      if (s[i] == '/') {
        ++i;
        double a = num(s, i), b = num(s, i);
        while (i < s.size() && s[i] != ')') ++i;
        ++i;
        return a / b;
      }
      return NAN;
    }
    size_t j = i;
    while (j < s.size() && !isspace(s[j]) && s[j] != ')') ++j;
    std::string t = s.substr(i, j - i);
    i = j;
    if (!t.empty() && t.back() == '?') t.pop_back();
    return atof(t.c_str());
  }
  Res ask(const std::string &text, double timeoutMs, std::string *out = nullptr, const std::string &extra = "") {
    double t0 = nowS();
    if (t0 > g_deadline) return R_UNKNOWN;
    timeoutMs = std::min(timeoutMs, (g_deadline - t0) * 1000 + 50);
    std::string full = "(reset)\n(set-option :timeout " + std::to_string((int)timeoutMs) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n" + text + "(check-sat)\n";
    std::string ans;
    bool ok = z3.talk(full, ans, timeoutMs / 1000 + 1.5);
    Res r = R_UNKNOWN;
    if (ok) {
      if (ans.find("(error") != std::string::npos) {
        if (getenv("BSX_DEBUG")) fprintf(stderr, "SOLVER ERROR %s\n", ans.c_str());
        r = R_UNKNOWN;
      } else if (ans.find("unsat") != std::string::npos)
        r = R_UNSAT;
      else if (ans.find("sat") != std::string::npos)
        r = R_SAT;
    }
    if (r == R_SAT && out) {
      std::string a2;
      if (z3.talk(extra, a2, 5)) *out = a2;
    }
    S->queries++;
    S->qTimeUs += (u64)((nowS() - t0) * 1e6);
    (r == R_SAT ? S->qSat : r == R_UNSAT ? S->qUnsat : S->qUnknown)++;
    if (const char *d = getenv("BSX_SMTDIR")) {
      static int k = 0;
      if (nowS() - t0 > 0.5 || getenv("BSX_SMTALL")) {
        char nm[400];
        snprintf(nm, sizeof nm, "%s/q%d_%d_%s_%.1f.smt2", d, getpid(), k++, r == R_SAT ? "sat" : r == R_UNSAT ? "unsat" : "unk", nowS() - t0);
        if (FILE *f = fopen(nm, "w")) {
          fputs(text.c_str(), f);
          fputs("(check-sat)\n", f);
          fclose(f);
        }
      }
    }
    return r;
  }
  // a one-shot run of another solver on the same text
  Res askOther(std::vector<std::string> cmd, const std::string &text, double timeoutMs) {
    double t0 = nowS();
    if (t0 > g_deadline) return R_UNKNOWN;
    timeoutMs = std::min(timeoutMs, (g_deadline - t0) * 1000 + 50);
    SolverProc p;
    p.argv = cmd;
    std::string ans;
    bool ok = p.talk(text + "(check-sat)\n", ans, timeoutMs / 1000);
    p.stop();
    Res r = R_UNKNOWN;
    if (ok && ans.find("(error") == std::string::npos) {
      if (ans.find("unsat") != std::string::npos) r = R_UNSAT;
      else if (ans.find("sat") != std::string::npos) r = R_SAT;
    }
    S->queries++;
    S->qTimeUs += (u64)((nowS() - t0) * 1e6);
    (r == R_SAT ? S->qSat : r == R_UNSAT ? S->qUnsat : S->qUnknown)++;
    return r;
  }
  static void parseModel(const std::string &a, const std::set<u32> &vars, Model &m) {
    for (u32 id : vars) {
      u32 k = E.n[id].imm;
      std::string key = "(v" + std::to_string(k) + " ";
      size_t p = a.find(key);
      if (p == std::string::npos) continue;
      p += key.size();
      size_t e = p;
      int depth = 0;
      while (e < a.size()) {
        if (a[e] == '(') ++depth;
        if (a[e] == ')') {
          if (!depth) break;
          --depth;
        }
        ++e;
      }
      m[k] = a.substr(p, e - p);
    }
  }
  std::string compose(const std::vector<u32> &conds, Emit &em, const std::string &tail = "") {
    std::vector<std::string> as;
    for (u32 c : conds) as.push_back(em.boolean(c));
    std::string t = em.decl;
    t += em.body;
    for (auto &a : as) t += "(assert " + a + ")\n";
    return t + tail;
  }
};
extern Solver Z;
