// Expression DAG of the bsx symbolic executor and exact real canonical forms.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef uint8_t u8;
typedef uint16_t u16;

struct Unsupported {
  std::string what;
};
[[noreturn]] inline void unsupported(const std::string &s) {
  throw Unsupported{s};
}

enum Op : u8 {
  O_UNINIT,
  O_TRUE,
  O_FALSE,
  O_NOT,
  O_AND,
  O_OR,
  // double
  O_FCONST,
  O_FVAR,
  O_FADD,
  O_FSUB,
  O_FMUL,
  O_FDIV,
  O_FNEG,
  O_FABS,
  O_FSQRT,
  O_FUF,
  O_FROUND,  // fp mode only: round to integral, imm = 0 floor 1 ceil 2 trunc
  // double comparisons (ordered)
  O_FEQ,
  O_FLT,
  O_FLE,
  // bit vectors
  O_BCONST,
  O_BVAR,
  O_BADD,
  O_BSUB,
  O_BMUL,
  O_BUDIV,
  O_BSDIV,
  O_BUREM,
  O_BSREM,
  O_BAND,
  O_BOR,
  O_BXOR,
  O_BSHL,
  O_BLSHR,
  O_BASHR,
  O_BZEXT,
  O_BSEXT,
  O_BTRUNC,
  O_BITE,  // a ? b : c, bit-vectors
  O_BEQ,
  O_BULT,
  O_BULE,
  O_BSLT,
  O_BSLE,
};

// sort: 0 = double, 1 = Bool, otherwise bit-vector width
struct Node {
  u8 op;
  u8 w;
  u32 a, b, c;
  u64 imm;
};

enum { ID_UNINIT = 1, ID_TRUE = 2, ID_FALSE = 3 };

struct Input {
  std::string name;
  u32 node;
  int kind;  // 0 real/double, 1 int
  double lo, hi;
  i64 ilo, ihi;
};

extern bool g_fpMode;

struct Exprs {
  std::vector<Node> n;
  std::unordered_multimap<u64, u32> tab;
  std::vector<Input> inputs;
  std::vector<std::string> ufNames;
  Exprs() {
    n.push_back(Node{O_UNINIT, 0, 0, 0, 0, 0});
    n.push_back(Node{O_UNINIT, 0, 0, 0, 0, 0});
    n.push_back(Node{O_TRUE, 1, 0, 0, 0, 0});
    n.push_back(Node{O_FALSE, 1, 0, 0, 0, 0});
  }
  static u64 h(const Node &x) {
    u64 r = x.op * 1000003ull + x.w;
    r = r * 0x9E3779B97F4A7C15ull + x.a;
    r = (r ^ (r >> 29)) * 0x9E3779B97F4A7C15ull + x.b;
    r = (r ^ (r >> 29)) * 0x9E3779B97F4A7C15ull + x.c;
    r = (r ^ (r >> 29)) * 0x9E3779B97F4A7C15ull + x.imm;
    return r ^ (r >> 31);
  }
  u32 intern(Node x) {
    u64 k = h(x);
    auto r = tab.equal_range(k);
    for (auto it = r.first; it != r.second; ++it) {
      const Node &y = n[it->second];
      if (y.op == x.op && y.w == x.w && y.a == x.a && y.b == x.b &&
          y.c == x.c && y.imm == x.imm)
        return it->second;
    }
    u32 id = n.size();
    if (id == 0xffffffffu) unsupported("too many nodes");
    n.push_back(x);
    tab.emplace(k, id);
    return id;
  }
  static double d(u64 b) {
    double r;
    memcpy(&r, &b, 8);
    return r;
  }
  static u64 bits(double v) {
    u64 r;
    memcpy(&r, &v, 8);
    return r;
  }
  u32 fconst(double v) {
    return intern(Node{O_FCONST, 0, 0, 0, 0, bits(v)});
  }
  u32 bconst(unsigned w, u64 v) {
    if (w == 1) return (v & 1) ? ID_TRUE : ID_FALSE;
    if (w < 64) v &= (1ull << w) - 1;
    return intern(Node{O_BCONST, (u8)w, 0, 0, 0, v});
  }
  bool isC(u32 x) const {
    u8 o = n[x].op;
    return o == O_FCONST || o == O_BCONST || o == O_TRUE || o == O_FALSE;
  }
  bool un(u32 x) const { return n[x].op == O_UNINIT; }
  static i64 sx(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= (m << 1) - 1;
    return (i64)((v ^ m) - m);
  }
  bool isF(u32 x, double v) const {
    return n[x].op == O_FCONST && d(n[x].imm) == v;
  }

  // ---- doubles
  u32 fbin(Op op, u32 a, u32 b) {
    if (un(a) || un(b)) return ID_UNINIT;
    if (n[a].op == O_FCONST && n[b].op == O_FCONST) {
      double x = d(n[a].imm), y = d(n[b].imm);
      switch (op) {
        case O_FADD: return fconst(x + y);
        case O_FSUB: return fconst(x - y);
        case O_FMUL: return fconst(x * y);
        default: return fconst(x / y);
      }
    }
    if (!g_fpMode) {
      switch (op) {
        case O_FADD:
          if (isF(a, 0)) return b;
          if (isF(b, 0)) return a;
          if (a > b) std::swap(a, b);
          break;
        case O_FSUB:
          if (isF(b, 0)) return a;
          if (isF(a, 0)) return fneg(b);
          if (a == b) return fconst(0);
          break;
        case O_FMUL:
          if (isF(a, 0) || isF(b, 0)) return fconst(0);
          if (isF(a, 1)) return b;
          if (isF(b, 1)) return a;
          if (isF(a, -1)) return fneg(b);
          if (isF(b, -1)) return fneg(a);
          if (a > b) std::swap(a, b);
          break;
        case O_FDIV:
          if (isF(b, 1)) return a;
          if (isF(a, 0)) return fconst(0);
          break;
        default: break;
      }
    }
    if (g_fpMode && op == O_FDIV && n[b].op == O_FCONST) {
      // dividing by a power of two is multiplying by its reciprocal
      int e;
      double m = std::frexp(d(n[b].imm), &e);
      if (std::fabs(m) == .5 && e > -1000 && e < 1000) return fbin(O_FMUL, a, fconst(1 / d(n[b].imm)));
    }
    return intern(Node{(u8)op, 0, a, b, 0, 0});
  }
  u32 fneg(u32 a) {
    if (un(a)) return a;
    if (n[a].op == O_FCONST) return fconst(-d(n[a].imm));
    if (n[a].op == O_FNEG) return n[a].a;
    return intern(Node{O_FNEG, 0, a, 0, 0, 0});
  }
  u32 fabs_(u32 a) {
    if (un(a)) return a;
    if (n[a].op == O_FCONST) return fconst(std::fabs(d(n[a].imm)));
    return intern(Node{O_FABS, 0, a, 0, 0, 0});
  }
  u32 fsqrt(u32 a) {
    if (un(a)) return a;
    if (n[a].op == O_FCONST) return fconst(std::sqrt(d(n[a].imm)));
    if (!g_fpMode && n[a].op == O_FMUL && n[a].a == n[a].b) return fabs_(n[a].a);
    return intern(Node{O_FSQRT, 0, a, 0, 0, 0});
  }
  u32 uf(const std::string &name, u32 a, u32 b = 0, u32 c = 0) {
    if (un(a) || (b && un(b)) || (c && un(c))) return ID_UNINIT;
    u32 k = 0;
    for (; k < ufNames.size(); ++k)
      if (ufNames[k] == name) break;
    if (k == ufNames.size()) ufNames.push_back(name);
    return intern(Node{O_FUF, 0, a, b, c, k});
  }
  u32 fcmp(Op op, u32 a, u32 b) {
    if (un(a) || un(b)) return ID_UNINIT;
    if (n[a].op == O_FCONST && n[b].op == O_FCONST) {
      double x = d(n[a].imm), y = d(n[b].imm);
      bool r = op == O_FEQ ? x == y : op == O_FLT ? x < y : x <= y;
      return r ? ID_TRUE : ID_FALSE;
    }
    if (!g_fpMode) {
      if (a == b) return op == O_FLT ? ID_FALSE : ID_TRUE;
      // infinities
      for (int s = 0; s < 2; ++s) {
        u32 k = s ? b : a;
        if (n[k].op == O_FCONST && !std::isfinite(d(n[k].imm))) {
          double v = d(n[k].imm);
          if (std::isnan(v)) return ID_FALSE;
          if (op == O_FEQ) return ID_FALSE;
          bool r = s ? (v > 0) : (v < 0);
          return r ? ID_TRUE : ID_FALSE;
        }
      }
    }
    if (op == O_FEQ && a > b) std::swap(a, b);
    return intern(Node{(u8)op, 1, a, b, 0, 0});
  }
  // ---- bool
  u32 not_(u32 a) {
    if (un(a)) return a;
    if (a == ID_TRUE) return ID_FALSE;
    if (a == ID_FALSE) return ID_TRUE;
    if (n[a].op == O_NOT) return n[a].a;
    return intern(Node{O_NOT, 1, a, 0, 0, 0});
  }
  u32 and_(u32 a, u32 b) {
    if (a == ID_FALSE || b == ID_FALSE) return ID_FALSE;
    if (un(a) || un(b)) return ID_UNINIT;
    if (a == ID_TRUE || a == b) return b;
    if (b == ID_TRUE) return a;
    if (a > b) std::swap(a, b);
    return intern(Node{O_AND, 1, a, b, 0, 0});
  }
  u32 or_(u32 a, u32 b) {
    if (a == ID_TRUE || b == ID_TRUE) return ID_TRUE;
    if (un(a) || un(b)) return ID_UNINIT;
    if (a == ID_FALSE || a == b) return b;
    if (b == ID_FALSE) return a;
    if (a > b) std::swap(a, b);
    return intern(Node{O_OR, 1, a, b, 0, 0});
  }
  // ---- bit vectors
  static bool fold(u8 op, unsigned w, u64 x, u64 y, u64 &r) {
    i64 sxx = sx(x, w), sy = sx(y, w);
    switch (op) {
      case O_BADD: r = x + y; break;
      case O_BSUB: r = x - y; break;
      case O_BMUL: r = x * y; break;
      case O_BUDIV: if (!y) return false; r = x / y; break;
      case O_BUREM: if (!y) return false; r = x % y; break;
      case O_BSDIV: if (!sy || (sy == -1)) { if (!sy) return false; r = -x; break; } r = sxx / sy; break;
      case O_BSREM: if (!sy) return false; r = sy == -1 ? 0 : sxx % sy; break;
      case O_BAND: r = x & y; break;
      case O_BOR: r = x | y; break;
      case O_BXOR: r = x ^ y; break;
      case O_BSHL: r = y >= w ? 0 : x << y; break;
      case O_BLSHR: r = y >= w ? 0 : x >> y; break;
      case O_BASHR: r = y >= w ? (sxx < 0 ? ~0ull : 0) : (u64)(sxx >> y); break;
      default: return false;
    }
    if (w < 64) r &= (1ull << w) - 1;
    return true;
  }
  u32 bbin(Op op, unsigned w, u32 a, u32 b) {
    if (un(a) || un(b)) {
      // masking away uninitialised bits is fine
      if (op == O_BAND && (isBC(a, 0) || isBC(b, 0))) return bconst(w, 0);
      return ID_UNINIT;
    }
    if (n[a].w == 0 || n[b].w == 0)
      unsupported("integer operation on a symbolic double");
    if (w == 1) {
      switch (op) {
        case O_BAND: case O_BMUL: return and_(a, b);
        case O_BOR: return or_(a, b);
        case O_BXOR: case O_BADD: case O_BSUB:
          if (a == ID_TRUE) return not_(b);
          if (b == ID_TRUE) return not_(a);
          if (a == ID_FALSE) return b;
          if (b == ID_FALSE) return a;
          return or_(and_(a, not_(b)), and_(not_(a), b));
        default: unsupported("i1 op");
      }
    }
    if (n[a].op == O_BCONST && n[b].op == O_BCONST) {
      u64 r;
      if (fold(op, w, n[a].imm, n[b].imm, r)) return bconst(w, r);
    }
    switch (op) {
      case O_BADD: case O_BOR: case O_BXOR:
        if (isBC(a, 0)) return b;
        if (isBC(b, 0)) return a;
        if (op == O_BOR && a == b) return a;
        break;
      case O_BSUB:
        if (isBC(b, 0)) return a;
        if (a == b) return bconst(w, 0);
        break;
      case O_BMUL:
        if (isBC(a, 0) || isBC(b, 0)) return bconst(w, 0);
        if (isBC(a, 1)) return b;
        if (isBC(b, 1)) return a;
        break;
      case O_BUDIV: case O_BSDIV:
        if (isBC(b, 1)) return a;
        break;
      case O_BAND:
        if (isBC(a, 0) || isBC(b, 0)) return bconst(w, 0);
        if (n[b].op == O_BCONST && n[b].imm == (w == 64 ? ~0ull : (1ull << w) - 1)) return a;
        if (n[a].op == O_BCONST && n[a].imm == (w == 64 ? ~0ull : (1ull << w) - 1)) return b;
        // and(zext x, 0xffffffff)
        if (n[b].op == O_BCONST && n[a].op == O_BZEXT) {
          u64 m = (1ull << n[n[a].a].w) - 1;
          if ((n[b].imm & m) == m) return a;
        }
        break;
      case O_BSHL: case O_BLSHR: case O_BASHR:
        if (isBC(b, 0)) return a;
        if (op == O_BLSHR && n[b].op == O_BCONST) {
          u64 s = n[b].imm;
          if (n[a].op == O_BOR)
            return bbin(O_BOR, w, bbin(O_BLSHR, w, n[a].a, b), bbin(O_BLSHR, w, n[a].b, b));
          if (n[a].op == O_BZEXT && s >= n[n[a].a].w) return bconst(w, 0);
          if (n[a].op == O_BSHL && n[n[a].b].op == O_BCONST && n[n[a].b].imm == s &&
              n[n[a].a].op == O_BZEXT && n[n[n[a].a].a].w + s <= w)
            return n[a].a;
        }
        break;
      default: break;
    }
    if ((op == O_BADD || op == O_BMUL || op == O_BAND || op == O_BOR || op == O_BXOR) && a > b)
      std::swap(a, b);
    return intern(Node{(u8)op, (u8)w, a, b, 0, 0});
  }
  bool isBC(u32 a, u64 v) const {
    return n[a].op == O_BCONST && n[a].imm == v;
  }
  u32 bite(unsigned w, u32 c, u32 a, u32 b) {
    if (c == ID_TRUE) return a;
    if (c == ID_FALSE) return b;
    if (a == b) return a;
    if (un(c) || un(a) || un(b)) return ID_UNINIT;
    if (w == 1) return or_(and_(c, a), and_(not_(c), b));
    return intern(Node{O_BITE, (u8)w, c, a, b, 0});
  }
  u32 bzext(u32 a, unsigned w) {
    if (un(a)) return a;
    if (n[a].w == w) return a;
    if (n[a].op == O_BCONST) return bconst(w, n[a].imm);
    if (n[a].w == 1) return bite(w, a, bconst(w, 1), bconst(w, 0));
    if (n[a].op == O_BZEXT) a = n[a].a;
    return intern(Node{O_BZEXT, (u8)w, a, 0, 0, 0});
  }
  u32 bsext(u32 a, unsigned w) {
    if (un(a)) return a;
    if (n[a].w == w) return a;
    if (n[a].op == O_BCONST) return bconst(w, (u64)sx(n[a].imm, n[a].w));
    if (n[a].w == 1) return bite(w, a, bconst(w, ~0ull), bconst(w, 0));
    if (n[a].op == O_BSEXT) a = n[a].a;
    return intern(Node{O_BSEXT, (u8)w, a, 0, 0, 0});
  }
  u32 btrunc(u32 a, unsigned w) {
    if (un(a)) return a;
    if (n[a].w == 0) unsupported("truncation of a symbolic double");
    if (n[a].w == w) return a;
    if (n[a].op == O_BCONST) return bconst(w, n[a].imm);
    const Node x = n[a];
    switch (x.op) {
      case O_BZEXT: case O_BSEXT:
        if (n[x.a].w == w) return x.a;
        if (n[x.a].w > w) return btrunc(x.a, w);
        return x.op == O_BZEXT ? bzext(x.a, w) : bsext(x.a, w);
      case O_BTRUNC: return btrunc(x.a, w);
      case O_BITE: if (w > 1) return bite(w, x.a, btrunc(x.b, w), btrunc(x.c, w)); break;
      case O_BOR: case O_BAND: case O_BXOR: case O_BADD: case O_BSUB: case O_BMUL:
        if (w > 1 || x.op == O_BOR || x.op == O_BAND)
          return bbin((Op)x.op, w, btrunc(x.a, w), btrunc(x.b, w));
        break;
      case O_BSHL:
        if (n[x.b].op == O_BCONST && n[x.b].imm >= w) return bconst(w, 0);
        break;
      default: break;
    }
    if (w == 1)
      return bcmp(O_BEQ, bbin(O_BAND, x.w, a, bconst(x.w, 1)), bconst(x.w, 1));
    return intern(Node{O_BTRUNC, (u8)w, a, 0, 0, 0});
  }
  u32 bcmp(Op op, u32 a, u32 b) {
    if (un(a) || un(b)) return ID_UNINIT;
    if (n[a].w == 0 || n[b].w == 0)
      unsupported("integer comparison of a symbolic double");
    if (n[a].w == 1) {
      u32 x = or_(and_(a, not_(b)), and_(not_(a), b));
      if (op == O_BEQ) return not_(x);
      if (op == O_BULT) return and_(not_(a), b);
      if (op == O_BULE) return or_(not_(a), b);
      if (op == O_BSLT) return and_(a, not_(b));
      return or_(a, not_(b));
    }
    unsigned w = n[a].w;
    if (n[a].op == O_BCONST && n[b].op == O_BCONST) {
      u64 x = n[a].imm, y = n[b].imm;
      i64 p = sx(x, w), q = sx(y, w);
      bool r = op == O_BEQ ? x == y : op == O_BULT ? x < y : op == O_BULE ? x <= y : op == O_BSLT ? p < q : p <= q;
      return r ? ID_TRUE : ID_FALSE;
    }
    if (a == b) return (op == O_BEQ || op == O_BULE || op == O_BSLE) ? ID_TRUE : ID_FALSE;
    if (op == O_BEQ) {
      if (a > b) std::swap(a, b);
      // ite(c,k1,k2) == k
      for (int s = 0; s < 2; ++s) {
        u32 k = s ? a : b, e = s ? b : a;
        if (n[k].op == O_BCONST && n[e].op == O_BITE && n[n[e].b].op == O_BCONST && n[n[e].c].op == O_BCONST) {
          bool t = n[n[e].b].imm == n[k].imm, f = n[n[e].c].imm == n[k].imm;
          if (t && f) return ID_TRUE;
          if (!t && !f) return ID_FALSE;
          return t ? n[e].a : not_(n[e].a);
        }
        if (n[k].op == O_BCONST && n[e].op == O_BZEXT) {
          unsigned iw = n[n[e].a].w;
          if (n[k].imm >> iw) return ID_FALSE;
          return bcmp(O_BEQ, n[e].a, bconst(iw, n[k].imm));
        }
        if (n[k].op == O_BCONST && n[e].op == O_BSEXT) {
          unsigned iw = n[n[e].a].w;
          if ((u64)sx(n[k].imm & ((1ull << iw) - 1), iw) != (u64)sx(n[k].imm, w)) return ID_FALSE;
          return bcmp(O_BEQ, n[e].a, bconst(iw, n[k].imm));
        }
      }
    }
    return intern(Node{(u8)op, 1, a, b, 0, 0});
  }
  u32 var(const std::string &name, int kind, double lo, double hi, i64 ilo, i64 ihi, unsigned w = 0) {
    u32 k = inputs.size();
    inputs.push_back(Input{name, 0, kind, lo, hi, ilo, ihi});
    u32 id = intern(Node{(u8)(kind == 0 ? O_FVAR : O_BVAR), (u8)w, 0, 0, 0, k});
    inputs[k].node = id;
    return id;
  }
};
extern Exprs E;

// ---------------------------------------------------------------- canonical
typedef std::vector<std::pair<u32, mpq_class>> Poly;  // (monomial id, coeff)

struct Frac {
  Poly num;
  std::vector<std::pair<u32, u32>> den;  // (factor id, exponent)
};
typedef std::shared_ptr<const Frac> FracP;

enum AtomKind { A_VAR, A_SQRT, A_UF, A_ABS, A_SIN, A_COS, A_EXP, A_LOG };
struct Atom {
  AtomKind kind;
  u32 node;        // variable node
  Poly def;        // sqrt: r^2 = def
  std::string name;  // uf
  std::vector<std::string> key;
  FracP arg;       // abs/sin/cos/exp: argument
  std::vector<FracP> args;
  double lo, hi;   // known bounds
  bool hasBox;
  u32 partner;     // sin<->cos
};

struct Canon {
  std::vector<Atom> atoms;
  std::unordered_map<std::string, u32> atomByKey;
  struct Mono {
    std::vector<std::pair<u32, u32>> f;
    bool red;
  };
  std::vector<Mono> monos;
  std::map<std::vector<std::pair<u32, u32>>, u32> monoTab;
  std::unordered_map<u64, u32> monoMul;
  std::vector<Poly> factors;
  std::unordered_map<std::string, u32> factorByKey;
  std::vector<int> factorSign;  // 0 unknown, 1 pos, -1 neg, 2 tried
  std::unordered_map<u32, FracP> memo;
  std::function<int(u32)> signOracle;  // sign of a factor under the current pc
  size_t maxTerms = 400000;
  Canon() {
    monos.push_back(Mono{{}, false});
    monoTab[{}] = 0;
  }
  u32 mono(std::vector<std::pair<u32, u32>> f) {
    auto it = monoTab.find(f);
    if (it != monoTab.end()) return it->second;
    bool red = false;
    for (auto &p : f)
      if (p.second >= 2) {
        AtomKind k = atoms[p.first].kind;
        if (k == A_SQRT || k == A_SIN || (k == A_ABS)) red = true;
      }
    u32 id = monos.size();
    monos.push_back(Mono{f, red});
    monoTab[f] = id;
    return id;
  }
  u32 mmul(u32 a, u32 b) {
    if (!a) return b;
    if (!b) return a;
    if (a > b) std::swap(a, b);
    u64 k = ((u64)a << 32) | b;
    auto it = monoMul.find(k);
    if (it != monoMul.end()) return it->second;
    const auto &x = monos[a].f;
    const auto &y = monos[b].f;
    std::vector<std::pair<u32, u32>> r;
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
        r.push_back(x[i++]);
      else if (i == x.size() || y[j].first < x[i].first)
        r.push_back(y[j++]);
      else {
        r.push_back({x[i].first, x[i].second + y[j].second});
        ++i;
        ++j;
      }
    }
    u32 id = mono(r);
    monoMul[k] = id;
    return id;
  }
  static Poly pconst(const mpq_class &c) {
    Poly p;
    if (c != 0) p.push_back({0, c});
    return p;
  }
  static Poly padd(const Poly &a, const Poly &b, int sgn) {
    Poly r;
    r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
        r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) {
        r.push_back(b[j++]);
        if (sgn < 0) r.back().second = -r.back().second;
      } else {
        mpq_class s = a[i].second;
        if (sgn < 0)
          s -= b[j].second;
        else
          s += b[j].second;
        if (s != 0) r.push_back({a[i].first, s});
        ++i;
        ++j;
      }
    }
    return r;
  }
  static Poly pscale(const Poly &a, const mpq_class &c) {
    if (c == 0) return Poly();
    Poly r = a;
    for (auto &t : r) t.second *= c;
    return r;
  }
  Poly fromMap(std::unordered_map<u32, mpq_class> &m) {
    Poly r;
    r.reserve(m.size());
    for (auto &t : m)
      if (t.second != 0) r.push_back({t.first, t.second});
    std::sort(r.begin(), r.end(), [](const std::pair<u32, mpq_class> &x, const std::pair<u32, mpq_class> &y) { return x.first < y.first; });
    return r;
  }
  Poly reduce(Poly p) {
    for (;;) {
      bool any = false;
      for (auto &t : p)
        if (monos[t.first].red) {
          any = true;
          break;
        }
      if (!any) return p;
      Poly keep, acc;
      for (auto &t : p) {
        if (!monos[t.first].red) {
          keep.push_back(t);
          continue;
        }
        std::vector<std::pair<u32, u32>> f;
        u32 at = 0, q = 0;
        bool done = false;
        for (auto &x : monos[t.first].f) {
          AtomKind k = atoms[x.first].kind;
          if (!done && x.second >= 2 && (k == A_SQRT || k == A_SIN || k == A_ABS)) {
            at = x.first;
            q = x.second / 2;
            done = true;
            if (x.second % 2) f.push_back({x.first, 1});
          } else
            f.push_back(x);
        }
        Poly base;
        base.push_back({mono(f), t.second});
        Poly sq;
        if (atoms[at].kind == A_SQRT)
          sq = atoms[at].def;
        else if (atoms[at].kind == A_ABS)
          sq = pmul(atoms[at].arg->num, atoms[at].arg->num);  // den empty
        else {  // sin^2 = 1 - cos^2
          sq = pconst(1);
          Poly c2;
          c2.push_back({mono({{atoms[at].partner, 2}}), mpq_class(1)});
          sq = padd(sq, c2, -1);
        }
        for (u32 i = 0; i < q; ++i) base = pmulRaw(base, sq);
        acc = padd(acc, base, 1);
      }
      p = padd(keep, acc, 1);
    }
  }
  Poly pmulRaw(const Poly &a, const Poly &b) {
    if (a.empty() || b.empty()) return Poly();
    if (a.size() == 1 && a[0].first == 0) return pscale(b, a[0].second);
    if (b.size() == 1 && b[0].first == 0) return pscale(a, b[0].second);
    std::unordered_map<u32, mpq_class> m;
    m.reserve(a.size() * b.size());
    mpq_class t;
    for (auto &x : a)
      for (auto &y : b) {
        t = x.second * y.second;
        auto r = m.emplace(mmul(x.first, y.first), t);
        if (!r.second) r.first->second += t;
      }
    if (m.size() > maxTerms) unsupported("polynomial too large");
    return fromMap(m);
  }
  Poly pmul(const Poly &a, const Poly &b) { return reduce(pmulRaw(a, b)); }
  std::string pkey(const Poly &p) {
    std::string s;
    for (auto &t : p) {
      s += std::to_string(t.first);
      s += ':';
      s += t.second.get_str(62);
      s += ';';
    }
    return s;
  }
  std::string fkey(const Frac &f) {
    std::string s = pkey(f.num) + "/";
    for (auto &d : f.den)
      s += std::to_string(d.first) + "^" + std::to_string(d.second) + ",";
    return s;
  }
  u32 atom(const std::string &key, const Atom &a) {
    auto it = atomByKey.find(key);
    if (it != atomByKey.end()) return it->second;
    u32 id = atoms.size();
    atoms.push_back(a);
    atomByKey[key] = id;
    return id;
  }
  // factor from a non-constant poly; returns scale so that p = scale * factor
  u32 factor(const Poly &p, mpq_class &scale) {
    scale = p.back().second;
    Poly q = pscale(p, 1 / scale);
    std::string k = pkey(q);
    auto it = factorByKey.find(k);
    if (it != factorByKey.end()) return it->second;
    u32 id = factors.size();
    factors.push_back(q);
    factorSign.push_back(0);
    factorByKey[k] = id;
    return id;
  }
  static void denMul(std::vector<std::pair<u32, u32>> &d, u32 f, u32 e) {
    for (auto it = d.begin(); it != d.end(); ++it) {
      if (it->first == f) {
        it->second += e;
        return;
      }
      if (it->first > f) {
        d.insert(it, {f, e});
        return;
      }
    }
    d.push_back({f, e});
  }
  Poly fpow(u32 f, u32 e) {
    Poly r = pconst(1);
    for (u32 i = 0; i < e; ++i) r = pmul(r, factors[f]);
    return r;
  }
  FracP mk(Poly n) {
    auto f = std::make_shared<Frac>();
    f->num = std::move(n);
    return f;
  }
  FracP add(const FracP &a, const FracP &b, int sgn) {
    auto r = std::make_shared<Frac>();
    if (a->den == b->den) {
      r->num = padd(a->num, b->num, sgn);
      if (!r->num.empty()) r->den = a->den;
      return r;
    }
    // lcm
    std::vector<std::pair<u32, u32>> l;
    Poly x = a->num, y = b->num;
    size_t i = 0, j = 0;
    while (i < a->den.size() || j < b->den.size()) {
      if (j == b->den.size() || (i < a->den.size() && a->den[i].first < b->den[j].first)) {
        l.push_back(a->den[i]);
        y = pmul(y, fpow(a->den[i].first, a->den[i].second));
        ++i;
      } else if (i == a->den.size() || b->den[j].first < a->den[i].first) {
        l.push_back(b->den[j]);
        x = pmul(x, fpow(b->den[j].first, b->den[j].second));
        ++j;
      } else {
        u32 e1 = a->den[i].second, e2 = b->den[j].second;
        l.push_back({a->den[i].first, std::max(e1, e2)});
        if (e1 < e2) x = pmul(x, fpow(a->den[i].first, e2 - e1));
        if (e2 < e1) y = pmul(y, fpow(b->den[j].first, e1 - e2));
        ++i;
        ++j;
      }
    }
    r->num = padd(x, y, sgn);
    if (!r->num.empty()) r->den = l;
    return r;
  }
  // cancel factors that divide the numerator because they are equal to it
  void cancel(Frac &r) {
    if (r.num.empty()) {
      r.den.clear();
      return;
    }
    if (r.den.empty() || r.num.size() < 1) return;
    bool again = true;
    while (again) {
      again = false;
      for (size_t i = 0; i < r.den.size(); ++i) {
        const Poly &f = factors[r.den[i].first];
        if (f.size() == r.num.size() && r.num.size() >= 1) {
          mpq_class c = r.num.back().second / f.back().second;
          bool same = true;
          for (size_t k = 0; k < f.size() && same; ++k)
            same = f[k].first == r.num[k].first && f[k].second * c == r.num[k].second;
          if (same) {
            r.num = pconst(c);
            if (--r.den[i].second == 0) r.den.erase(r.den.begin() + i);
            again = true;
            break;
          }
        }
        // monomial factor: divide if every term contains it
        if (f.size() == 1) {
          u32 at = monos[f[0].first].f[0].first;
          bool all = true;
          for (auto &t : r.num) {
            bool has = false;
            for (auto &q : monos[t.first].f)
              if (q.first == at) has = true;
            if (!has) {
              all = false;
              break;
            }
          }
          if (all) {
            Poly nn;
            for (auto &t : r.num) {
              auto g = monos[t.first].f;
              for (size_t q = 0; q < g.size(); ++q)
                if (g[q].first == at) {
                  if (--g[q].second == 0) g.erase(g.begin() + q);
                  break;
                }
              nn.push_back({mono(g), t.second});
            }
            std::sort(nn.begin(), nn.end(), [](const std::pair<u32, mpq_class> &x, const std::pair<u32, mpq_class> &y) { return x.first < y.first; });
            r.num = nn;
            if (--r.den[i].second == 0) r.den.erase(r.den.begin() + i);
            again = true;
            break;
          }
        }
      }
    }
  }
  FracP mul(const FracP &a, const FracP &b) {
    auto r = std::make_shared<Frac>();
    r->num = pmul(a->num, b->num);
    if (r->num.empty()) return r;
    r->den = a->den;
    for (auto &d : b->den) denMul(r->den, d.first, d.second);
    if (!r->den.empty()) cancel(*r);
    return r;
  }
  // 1/b
  FracP inv(const FracP &b) {
    if (b->num.empty()) unsupported("division by the zero polynomial");
    auto r = std::make_shared<Frac>();
    Poly top = pconst(1);
    for (auto &d : b->den) top = pmul(top, fpow(d.first, d.second));
    if (b->num.size() == 1) {
      // monomial: split into atoms
      mpq_class c = b->num[0].second;
      top = pscale(top, 1 / c);
      for (auto &x : monos[b->num[0].first].f) {
        if (atoms[x.first].kind == A_SQRT) {
          // 1/r = r/def
          for (u32 e = 0; e < x.second; ++e) {
            Poly ra;
            ra.push_back({mono({{x.first, 1}}), mpq_class(1)});
            top = pmul(top, ra);
            const Poly &df = atoms[x.first].def;
            if (df.size() == 1) {
              auto q = inv(mk(df));
              top = pmul(top, q->num);
              for (auto &d : q->den) denMul(r->den, d.first, d.second);
            } else {
              mpq_class s;
              u32 f = factor(df, s);
              top = pscale(top, 1 / s);
              denMul(r->den, f, 1);
            }
          }
        } else {
          Poly m;
          m.push_back({mono({{x.first, 1}}), mpq_class(1)});
          mpq_class s;
          u32 f = factor(m, s);
          denMul(r->den, f, x.second);
        }
      }
    } else {
      // pull out common atoms? (kept simple)
      mpq_class s;
      u32 f = factor(b->num, s);
      top = pscale(top, 1 / s);
      denMul(r->den, f, 1);
    }
    r->num = top;
    cancel(*r);
    return r;
  }
  static bool ratSqrt(const mpq_class &c, mpq_class &s) {
    if (c < 0) return false;
    mpz_class a = c.get_num(), b = c.get_den();
    mpz_class sa = sqrt(a), sb = sqrt(b);
    if (sa * sa != a || sb * sb != b) return false;
    s = mpq_class(sa, sb);
    s.canonicalize();
    return true;
  }
  FracP fromAtom(u32 id) {
    Poly p;
    p.push_back({mono({{id, 1}}), mpq_class(1)});
    return mk(p);
  }
  FracP sqrtF(const FracP &e) {
    if (e->num.empty()) return mk(Poly());
    Poly n = e->num;
    // sqrt(n / (prod odd * prod even)) = sqrt(n*prod odd) / |...|
    std::vector<std::pair<u32, u32>> outDen;
    int sgn = 1;
    for (auto &d : e->den) {
      if (d.second % 2) n = pmul(n, factors[d.first]);
      u32 half = (d.second + 1) / 2;
      outDen.push_back({d.first, half});
      if (half % 2) {
        int s = factorSign[d.first];
        if (s == 0 && signOracle) s = signOracle(d.first);
        if (s == 1 || s == -1)
          sgn *= s;
        else
          unsupported("sqrt of a quotient with denominator of unknown sign");
      }
    }
    mpq_class content = n.back().second, root;
    if (content < 0) content = -content;
    mpq_class lead(1);
    if (ratSqrt(content, root)) {
      n = pscale(n, 1 / content);
      lead = root;
    }
    FracP base;
    if (n.size() == 1 && n[0].first == 0) {
      mpq_class s;
      if (ratSqrt(n[0].second, s)) {
        base = mk(pconst(s));
      } else {
        // keep irrational constants as (tightly approximated) rationals is
        // not exact: make it an atom
        Atom a{};
        a.kind = A_SQRT;
        a.def = n;
        base = fromAtom(atom("sqrt:" + pkey(n), a));
      }
    } else {
      // whole monomial squares: x^2 y^4 -> |x| y^2 handled by the solver
      Atom a{};
      a.kind = A_SQRT;
      a.def = n;
      base = fromAtom(atom("sqrt:" + pkey(n), a));
    }
    auto r = std::make_shared<Frac>();
    r->num = pscale(base->num, lead * sgn);
    r->den = outDen;
    cancel(*r);
    return r;
  }
  bool leadNeg(const FracP &f) {
    return !f->num.empty() && f->num.back().second < 0;
  }
  FracP neg(const FracP &f) {
    auto r = std::make_shared<Frac>(*f);
    r->num = pscale(r->num, -1);
    return r;
  }
  FracP ufF(const std::string &name, std::vector<FracP> args) {
    if (name == "sin" || name == "cos") {
      bool ng = leadNeg(args[0]);
      FracP x = ng ? neg(args[0]) : args[0];
      if (x->num.empty()) return mk(pconst(name == "sin" ? 0 : 1));
      std::string k = fkey(*x);
      Atom a{};
      a.arg = x;
      a.hasBox = true;
      a.lo = -1;
      a.hi = 1;
      a.kind = A_COS;
      u32 c = atom("cos:" + k, a);
      a.kind = A_SIN;
      u32 s = atom("sin:" + k, a);
      atoms[s].partner = c;
      atoms[c].partner = s;
      if (name == "cos") return fromAtom(c);
      FracP r = fromAtom(s);
      return ng ? neg(r) : r;
    }
    if (name == "exp") {
      if (args[0]->num.empty()) return mk(pconst(1));
      // exp(log x) = x
      if (args[0]->den.empty() && args[0]->num.size() == 1 && args[0]->num[0].second == 1) {
        auto &f = monos[args[0]->num[0].first].f;
        if (f.size() == 1 && f[0].second == 1 && atoms[f[0].first].kind == A_LOG) return atoms[f[0].first].arg;
      }
      bool ng = leadNeg(args[0]);
      FracP x = ng ? neg(args[0]) : args[0];
      Atom a{};
      a.arg = x;
      a.kind = A_EXP;
      FracP r = fromAtom(atom("exp:" + fkey(*x), a));
      return ng ? inv(r) : r;
    }
    if (name == "log") {
      if (args[0]->den.empty() && args[0]->num.size() == 1) {
        auto &f = monos[args[0]->num[0].first].f;
        if (args[0]->num[0].second == 1 && f.size() == 1 && atoms[f[0].first].kind == A_EXP) {
          FracP r = atoms[f[0].first].arg;
          if (f[0].second == 1) return r;
          return mul(r, mk(pconst(f[0].second)));
        }
      }
      Atom a{};
      a.arg = args[0];
      a.kind = A_LOG;
      return fromAtom(atom("log:" + fkey(*args[0]), a));
    }
    std::string k = "uf:" + name;
    for (auto &x : args) k += "|" + fkey(*x);
    Atom a{};
    a.kind = A_UF;
    a.name = name;
    a.args = args;
    return fromAtom(atom(k, a));
  }
  FracP canon(u32 id) {
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    const Node x = E.n[id];
    FracP r;
    switch (x.op) {
      case O_FCONST: {
        double v = Exprs::d(x.imm);
        if (!std::isfinite(v)) unsupported("infinite or nan constant in real arithmetic");
        r = mk(pconst(mpq_class(v)));
        break;
      }
      case O_FVAR: {
        const Input &in = E.inputs[x.imm];
        Atom a{};
        a.kind = A_VAR;
        a.node = id;
        a.hasBox = true;
        a.lo = in.lo;
        a.hi = in.hi;
        r = fromAtom(atom("var:" + std::to_string(id), a));
        break;
      }
      case O_FADD: {
        FracP p = canon(x.a), q = canon(x.b);
        r = add(p, q, 1);
        break;
      }
      case O_FSUB: {
        FracP p = canon(x.a), q = canon(x.b);
        r = add(p, q, -1);
        break;
      }
      case O_FMUL: {
        FracP p = canon(x.a), q = canon(x.b);
        r = mul(p, q);
        break;
      }
      case O_FDIV: {
        FracP p = canon(x.a), q = inv(canon(x.b));
        r = mul(p, q);
        break;
      }
      case O_FNEG: r = neg(canon(x.a)); break;
      case O_FABS: {
        FracP p = canon(x.a);
        if (p->num.empty()) {
          r = p;
          break;
        }
        if (p->den.empty() && p->num.size() == 1 && p->num[0].first == 0) {
          r = mk(pconst(abs(p->num[0].second)));
          break;
        }
        if (!p->den.empty()) unsupported("abs of a quotient");
        if (leadNeg(p)) p = neg(p);
        Atom a{};
        a.kind = A_ABS;
        a.arg = p;
        r = fromAtom(atom("abs:" + fkey(*p), a));
        break;
      }
      case O_FSQRT: r = sqrtF(canon(x.a)); break;
      case O_FUF: {
        std::vector<FracP> args;
        args.push_back(canon(x.a));
        if (x.b) args.push_back(canon(x.b));
        if (x.c) args.push_back(canon(x.c));
        r = ufF(E.ufNames[x.imm], args);
        break;
      }
      default:
        unsupported("cannot canonicalise node op " + std::to_string(x.op));
    }
    memo[id] = r;
    return r;
  }
};
extern Canon C;
