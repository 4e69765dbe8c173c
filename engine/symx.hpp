// symx: a symbolic scalar for executing the CoolDiff sources symbolically.
//
// A symx::Sym is an index into a global, hash-consed term DAG over the reals.
// Index 0 is the constant 0, so zero-initialised and memset storage is the
// number zero, as it is for the floating point types it stands in for.
//
// Comparisons on symbolic values fork the process: both outcomes are explored,
// each with the outcome recorded in that process' path condition.
//
// The same header is used, without replacing the library's scalar type, by the
// concrete replay build: there every term carries a long double value.
#pragma once
#include <cstdint>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <limits>
#include <map>
#include <ostream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace symx {

using id_t = uint32_t;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, DIV, POW, ATAN2, FN };
enum Fn : uint8_t { F_NONE, SIN, COS, TAN, SINH, COSH, TANH, ASIN, ACOS, ATAN, ASINH, ACOSH, ATANH,
                    SQRT, EXP, LOG, ABS };
inline const char* fn_name(Fn f) {
  static const char* n[] = {"none","sin","cos","tan","sinh","cosh","tanh","asin","acos","atan","asinh",
                            "acosh","atanh","sqrt","exp","log","abs"};
  return n[f];
}

struct Node { Op op; Fn fn; id_t a, b; double c; };

// sign masks
enum : unsigned { S_NEG = 1, S_ZERO = 2, S_POS = 4, S_ANY = 7 };

enum Kind : uint8_t { K_IMPL = 0, K_REF = 1 };
struct Def { id_t n; unsigned mask; const char* why; };      // sign(n) must be in mask for definedness
struct Ob  { std::string label; id_t l, r; };
struct Tr  { std::string label; bool ok; std::string detail; };

struct Shared { volatile long paths, forks, truncated; long maxpaths; };

struct Engine {
  std::vector<Node> nodes;
  std::vector<long double> val;                 // only meaningful in a concrete run
  std::vector<std::string> names;               // VAR names
  std::unordered_map<std::string, id_t> byname;
  std::unordered_map<uint64_t, std::vector<id_t>> cons;
  std::map<id_t, unsigned> known;               // path condition: sign sets
  std::vector<id_t> known_order;
  std::vector<Def> def_ref, def_impl, assumed;
  std::map<std::pair<id_t, unsigned>, int> seen_ref, seen_impl;
  std::vector<Ob> obs;
  std::vector<Tr> trs;
  std::map<std::string, double> env;            // concrete inputs
  bool concrete = false;
  bool truncated = false;
  bool track = true;
  Shared* sh = nullptr;
  std::string casename;
  unsigned long ops = 0, branches = 0;
  std::map<std::pair<id_t, id_t>, id_t> dmemo;

  Engine() { nodes.reserve(4096); konst(0.0); konst(1.0); }

  static uint64_t h(const Node& n) {
    uint64_t x; std::memcpy(&x, &n.c, 8);
    x ^= (uint64_t)n.a * 0x9E3779B97F4A7C15ull; x = (x << 13) | (x >> 51);
    x ^= (uint64_t)n.b * 0xC2B2AE3D27D4EB4Full; x = (x << 17) | (x >> 47);
    x += n.op * 1315423911u + n.fn * 2654435761u;
    return x * 0xff51afd7ed558ccdull;
  }
  id_t intern(const Node& n, long double v) {
    auto& bucket = cons[h(n)];
    for (id_t i : bucket) {
      const Node& m = nodes[i];
      if (m.op == n.op && m.fn == n.fn && m.a == n.a && m.b == n.b && std::memcmp(&m.c, &n.c, 8) == 0) return i;
    }
    nodes.push_back(n); val.push_back(v);
    id_t id = (id_t)nodes.size() - 1; bucket.push_back(id); return id;
  }
  id_t konst(double c) { if (c == 0) c = 0.0; return intern({CONST, F_NONE, 0, 0, c}, (long double)c); }
  id_t var(const std::string& nm) {
    auto it = byname.find(nm); if (it != byname.end()) return it->second;
    names.push_back(nm);
    long double v = 0;
    if (concrete) {
      auto e = env.find(nm);
      if (e != env.end()) v = e->second;
      else { // deterministic default in (0.3, 0.9)
        unsigned hsh = 2166136261u; for (char ch : nm) hsh = (hsh ^ (unsigned char)ch) * 16777619u;
        v = 0.3L + 0.6L * (hsh % 1009) / 1009.0L; v = (double)v;
      }
    }
    id_t id = intern({VAR, F_NONE, (id_t)names.size() - 1, 0, 0}, v); byname[nm] = id; return id;
  }
  bool isc(id_t i) const { return nodes[i].op == CONST; }
  double c(id_t i) const { return nodes[i].c; }
  // exact folding only
  static bool exact(long double v, double& out) {
    out = (double)v; return std::isfinite(out) && (long double)out == v && std::fabs(out) < 1e15;
  }
  static bool small(double x) { double y = x * 1048576.0; return std::fabs(x) < 1073741824.0 && y == std::floor(y); }
  id_t bin(Op op, id_t a, id_t b, Kind k) {
    ++ops;
    if (isc(a) && isc(b) && op != POW && op != ATAN2) {
      double x = c(a), y = c(b), o;
      if (small(x) && small(y)) {
        if (op == ADD && exact((long double)x + y, o)) return konst(o);
        if (op == SUB && exact((long double)x - y, o)) return konst(o);
        if (op == MUL && exact((long double)x * y, o)) return konst(o);
        if (op == DIV && y != 0) { o = x / y; if (small(o) && o * y == x) return konst(o); }
      }
    }
    switch (op) {
      case ADD: if (a == 0) return b; if (b == 0) return a; if (a > b) std::swap(a, b); break;
      case SUB: if (b == 0) return a; if (a == b) return 0; break;
      case MUL: if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; if (a > b) std::swap(a, b); break;
      case DIV: define(b, S_NEG | S_POS, "divisor", k); if (b == 1) return a; if (a == 0 && b != 0) return 0; break;
      case POW:
        if (b == 0) return 1; if (b == 1) return a;
        if (isc(b) && c(b) == std::floor(c(b))) { if (c(b) < 0) define(a, S_NEG | S_POS, "base of negative power", k); }
        else if (isc(b) && c(b) > 0) define(a, S_ZERO | S_POS, "base of fractional power", k);
        else define(a, S_POS, "base of power", k);
        break;
      default: break;
    }
    long double v = 0;
    if (concrete) {
      long double x = val[a], y = val[b];
      v = op == ADD ? x + y : op == SUB ? x - y : op == MUL ? x * y : op == DIV ? x / y : op == ATAN2 ? std::atan2(x, y) : std::pow(x, y);
    }
    return intern({op, F_NONE, a, b, 0}, v);
  }
  id_t fun(Fn f, id_t a, Kind k) {
    ++ops;
    if (a == 0) { if (f == SIN || f == TAN || f == SINH || f == TANH || f == ASIN || f == ATAN || f == ASINH || f == ATANH || f == ABS || f == SQRT) return 0;
                  if (f == COS || f == COSH || f == EXP) return 1; }
    if (a == 1) { if (f == LOG || f == ACOSH) return 0; if (f == SQRT || f == ABS) return 1; }
    switch (f) {
      case LOG: define(a, S_POS, "log argument", k); break;
      case SQRT: define(a, S_ZERO | S_POS, "sqrt argument", k); break;
      case TAN: define(fun(COS, a, K_REF), S_NEG | S_POS, "tan argument (cos)", k); break;
      case ASIN: case ACOS: define(bin(SUB, 1, bin(MUL, a, a, K_REF), K_REF), S_ZERO | S_POS, "asin/acos argument", k); break;
      case ACOSH: define(bin(SUB, a, 1, K_REF), S_ZERO | S_POS, "acosh argument", k); break;
      case ATANH: define(bin(SUB, 1, bin(MUL, a, a, K_REF), K_REF), S_POS, "atanh argument", k); break;
      case ABS: if (isc(a)) return konst(std::fabs(c(a))); break;
      default: break;
    }
    long double v = 0;
    if (concrete) {
      long double x = val[a];
      switch (f) {
        case SIN: v = std::sin(x); break; case COS: v = std::cos(x); break; case TAN: v = std::tan(x); break;
        case SINH: v = std::sinh(x); break; case COSH: v = std::cosh(x); break; case TANH: v = std::tanh(x); break;
        case ASIN: v = std::asin(x); break; case ACOS: v = std::acos(x); break; case ATAN: v = std::atan(x); break;
        case ASINH: v = std::asinh(x); break; case ACOSH: v = std::acosh(x); break; case ATANH: v = std::atanh(x); break;
        case SQRT: v = std::sqrt(x); break; case EXP: v = std::exp(x); break; case LOG: v = std::log(x); break;
        case ABS: v = std::fabs(x); break; default: break;
      }
    }
    return intern({FN, f, a, 0, 0}, v);
  }
  void define(id_t n, unsigned mask, const char* why, Kind k) {
    if (!track) return;
    if (isc(n)) { unsigned s = c(n) < 0 ? S_NEG : c(n) > 0 ? S_POS : S_ZERO; if (s & mask) return; }
    auto& seen = (k == K_REF) ? seen_ref : seen_impl;
    if (seen.emplace(std::make_pair(n, mask), 1).second) ((k == K_REF) ? def_ref : def_impl).push_back({n, mask, why});
  }
  // ---- branching
  unsigned flip(unsigned m) { return (m & S_ZERO) | ((m & S_NEG) ? S_POS : 0) | ((m & S_POS) ? S_NEG : 0); }
  // is sign(n) in mask?
  bool decide(id_t n, unsigned mask) {
    if (concrete) { long double v = val[n]; unsigned s = v < 0 ? S_NEG : v > 0 ? S_POS : v == 0 ? S_ZERO : 0; return (s & mask) != 0; }
    for (;;) {
      const Node nd = nodes[n];
      if (nd.op == CONST) { unsigned s = nd.c < 0 ? S_NEG : nd.c > 0 ? S_POS : S_ZERO; return (s & mask) != 0; }
      if (nd.op == MUL && isc(nd.a) && c(nd.a) != 0) { if (c(nd.a) < 0) mask = flip(mask); n = nd.b; continue; }
      if (nd.op == MUL && isc(nd.b) && c(nd.b) != 0) { if (c(nd.b) < 0) mask = flip(mask); n = nd.a; continue; }
      if (nd.op == DIV && isc(nd.b) && c(nd.b) != 0) { if (c(nd.b) < 0) mask = flip(mask); n = nd.a; continue; }
      if (nd.op == SUB && nd.a > nd.b) { mask = flip(mask); n = bin(SUB, nd.b, nd.a, K_REF); continue; }
      if (nd.op == SUB && nodes[nd.a].op == FN && nodes[nd.a].fn == ABS && nodes[nd.b].op == FN && nodes[nd.b].fn == ABS) {
        id_t p = nodes[nd.a].a, q = nodes[nd.b].a;
        n = bin(SUB, bin(MUL, p, p, K_REF), bin(MUL, q, q, K_REF), K_REF); continue; }
      if (nd.op == FN && (nd.fn == EXP || nd.fn == COSH)) return (S_POS & mask) != 0;
      if (nd.op == FN && (nd.fn == ABS || nd.fn == SQRT)) {
        bool z = (mask & S_ZERO) != 0, p = (mask & S_POS) != 0;
        if (z == p) return z;
        return z ? decide(nd.a, S_ZERO) : decide(nd.a, S_NEG | S_POS);
      }
      break;
    }
    const Node nd = nodes[n];
    bool zq = (mask == S_ZERO), nzq = (mask == (S_NEG | S_POS));
    if (zq || nzq) {
      if (nd.op == MUL) { bool z = decide(nd.a, S_ZERO) || decide(nd.b, S_ZERO); return zq ? z : !z; }
      if (nd.op == DIV) { bool z = decide(nd.a, S_ZERO); return zq ? z : !z; }
      if (nd.op == POW && isc(nd.b) && c(nd.b) > 0) { bool z = decide(nd.a, S_ZERO); return zq ? z : !z; }
    }
    unsigned m = S_ANY; auto it = known.find(n); if (it != known.end()) m = it->second;
    if ((m & mask) == m) return true;
    if ((m & mask) == 0) return false;
    ++branches;
    bool generic = (mask & S_ZERO) ? ((mask & ~S_ZERO) != 0) : true;
    if (mask == (S_ZERO | S_POS) || mask == (S_ZERO | S_NEG)) generic = true;
    bool take;
    // the outcome that pins a term to zero is the special one; at most maxspecial of them per path
    bool special_other = (mask == S_ZERO) || (mask == (S_NEG | S_POS));
    if (special_other && nspecial >= maxspecial) { take = generic; truncated = true; }
    else if (sh == nullptr || sh->paths >= sh->maxpaths) { take = generic; truncated = true; if (sh) sh->truncated++; }
    else {
      sh->paths++; sh->forks++;
      fflush(nullptr);
      pid_t p = fork();
      if (p < 0) { take = generic; truncated = true; }
      else if (p == 0) { is_child = true; take = !generic; if (special_other) ++nspecial; }
      else { int st = 0; while (waitpid(p, &st, 0) < 0) {} if (st != 0) child_bad = 1; take = generic; }
    }
    if (it == known.end()) known_order.push_back(n);
    known[n] = take ? (m & mask) : (m & ~mask);
    return take;
  }
  bool is_child = false; int child_bad = 0; int nspecial = 0, maxspecial = getenv("VH_MAXSPECIAL") ? atoi(getenv("VH_MAXSPECIAL")) : 2;

  // ---- reference differentiation on the DAG
  id_t D(id_t f, id_t x) {
    if (f == x) return 1;
    const Node n = nodes[f];
    if (n.op == CONST || n.op == VAR) return 0;
    auto key = std::make_pair(f, x); auto it = dmemo.find(key); if (it != dmemo.end()) return it->second;
    id_t r = 0; const Kind K = K_REF;
    auto add = [&](id_t p, id_t q) { return bin(ADD, p, q, K); }; auto sub = [&](id_t p, id_t q) { return bin(SUB, p, q, K); };
    auto mul = [&](id_t p, id_t q) { return bin(MUL, p, q, K); }; auto div = [&](id_t p, id_t q) { return p == 0 ? 0 : bin(DIV, p, q, K); };
    id_t da = D(n.a, x);
    switch (n.op) {
      case ADD: r = add(da, D(n.b, x)); break;
      case SUB: r = sub(da, D(n.b, x)); break;
      case MUL: r = add(mul(da, n.b), mul(n.a, D(n.b, x))); break;
      case DIV: r = sub(div(da, n.b), mul(div(n.a, mul(n.b, n.b)), D(n.b, x))); break;
      case POW: {
        id_t db = D(n.b, x);
        if (!isc(n.b)) define(n.a, S_POS, "power differentiable", K);
        else if (c(n.b) != std::floor(c(n.b))) define(n.a, S_POS, "power differentiable", K);
        if (da != 0) r = mul(mul(n.b, bin(POW, n.a, sub(n.b, 1), K)), da);
        if (db != 0) r = add(r, mul(mul(f, fun(LOG, n.a, K)), db));
        break; }
      case ATAN2: r = div(sub(mul(n.b, da), mul(n.a, D(n.b, x))), add(mul(n.a, n.a), mul(n.b, n.b))); break;
      case FN:
        // differentiability of the function at its argument is part of the domain, also when da is 0
        switch (n.fn) {
          case SQRT: define(n.a, S_POS, "sqrt differentiable", K); break;
          case ASIN: case ACOS: define(sub(1, mul(n.a, n.a)), S_POS, "asin/acos differentiable", K); break;
          case ACOSH: define(sub(n.a, 1), S_POS, "acosh differentiable", K); break;
          case ABS: define(n.a, S_NEG | S_POS, "abs kink", K); break;
          default: break;
        }
        if (da == 0) break;
        switch (n.fn) {
        case SIN: r = mul(fun(COS, n.a, K), da); break;
        case COS: r = sub(0, mul(fun(SIN, n.a, K), da)); break;
        case TAN: { id_t cs = fun(COS, n.a, K); r = div(da, mul(cs, cs)); break; }
        case SINH: r = mul(fun(COSH, n.a, K), da); break;
        case COSH: r = mul(fun(SINH, n.a, K), da); break;
        case TANH: { id_t cs = fun(COSH, n.a, K); r = div(da, mul(cs, cs)); break; }
        case ASIN: r = div(da, fun(SQRT, sub(1, mul(n.a, n.a)), K)); break;
        case ACOS: r = sub(0, div(da, fun(SQRT, sub(1, mul(n.a, n.a)), K))); break;
        case ATAN: r = div(da, add(1, mul(n.a, n.a))); break;
        case ASINH: r = div(da, fun(SQRT, add(mul(n.a, n.a), 1), K)); break;
        case ACOSH: r = div(da, fun(SQRT, sub(mul(n.a, n.a), 1), K)); break;
        case ATANH: r = div(da, sub(1, mul(n.a, n.a))); break;
        case SQRT: r = div(da, mul(konst(2), f)); break;
        case EXP: r = mul(f, da); break;
        case LOG: r = div(da, n.a); break;
        case ABS: r = decide(n.a, S_ZERO | S_POS) ? da : sub(0, da); break;
        default: break; }
        break;
      default: break;
    }
    dmemo[key] = r; return r;
  }
  void dump(FILE* o, const char* status);
};

inline Engine& E() { static Engine* e = new Engine(); return *e; }

// ---------------------------------------------------------------- number classes
#if defined(SYMX_PAR_HOOKS)
} 
#include "symx_par.hpp"
namespace symx {
#define SYMX_ACC(KIND, A) if constexpr (K == K_IMPL) par::hook(A, KIND)
#else
#define SYMX_ACC(KIND, A) (void)0
#endif
template <Kind K> struct Num {
  id_t id;
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
  Num(T v) : id(v == T(0) ? 0 : E().konst((double)v)) { SYMX_ACC(4, this); }
#if defined(SYMX_PAR_HOOKS)
  Num() : id(0) { SYMX_ACC(4, this); }
  Num(const Num& o) { SYMX_ACC(1, &o); id = o.id; SYMX_ACC(4, this); }
  Num& operator=(const Num& o) { SYMX_ACC(1, &o); const id_t v = o.id; SYMX_ACC(2, this); id = v; return *this; }
#else
  Num() : id(0) {}
#endif
  struct raw {}; Num(raw, id_t i) : id(i) { SYMX_ACC(4, this); }
  static Num of(id_t i) { return Num(raw{}, i); }
  Num& operator+=(const Num& o) { SYMX_ACC(1, this); SYMX_ACC(1, &o); const id_t v = E().bin(ADD, id, o.id, K); SYMX_ACC(2, this); id = v; return *this; }
  Num& operator-=(const Num& o) { SYMX_ACC(1, this); SYMX_ACC(1, &o); const id_t v = E().bin(SUB, id, o.id, K); SYMX_ACC(2, this); id = v; return *this; }
  Num& operator*=(const Num& o) { SYMX_ACC(1, this); SYMX_ACC(1, &o); const id_t v = E().bin(MUL, id, o.id, K); SYMX_ACC(2, this); id = v; return *this; }
  Num& operator/=(const Num& o) { SYMX_ACC(1, this); SYMX_ACC(1, &o); const id_t v = E().bin(DIV, id, o.id, K); SYMX_ACC(2, this); id = v; return *this; }
  Num operator-() const { SYMX_ACC(1, this); return of(E().bin(SUB, 0, id, K)); }
  Num operator+() const { return *this; }
  Num& operator++() { return *this += Num(1); }
  Num& operator--() { return *this -= Num(1); }
  friend Num operator+(const Num& a, const Num& b) { SYMX_ACC(1, &a); SYMX_ACC(1, &b); return of(E().bin(ADD, a.id, b.id, K)); }
  friend Num operator-(const Num& a, const Num& b) { SYMX_ACC(1, &a); SYMX_ACC(1, &b); return of(E().bin(SUB, a.id, b.id, K)); }
  friend Num operator*(const Num& a, const Num& b) { SYMX_ACC(1, &a); SYMX_ACC(1, &b); return of(E().bin(MUL, a.id, b.id, K)); }
  friend Num operator/(const Num& a, const Num& b) { SYMX_ACC(1, &a); SYMX_ACC(1, &b); return of(E().bin(DIV, a.id, b.id, K)); }
#define SYMX_A template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> friend
  SYMX_A Num operator+(T a, const Num& b) { return Num(a) + b; }  SYMX_A Num operator+(const Num& a, T b) { return a + Num(b); }
  SYMX_A Num operator-(T a, const Num& b) { return Num(a) - b; }  SYMX_A Num operator-(const Num& a, T b) { return a - Num(b); }
  SYMX_A Num operator*(T a, const Num& b) { return Num(a) * b; }  SYMX_A Num operator*(const Num& a, T b) { return a * Num(b); }
  SYMX_A Num operator/(T a, const Num& b) { return Num(a) / b; }  SYMX_A Num operator/(const Num& a, T b) { return a / Num(b); }
  SYMX_A bool operator==(T a, const Num& b) { return Num(a) == b; }  SYMX_A bool operator==(const Num& a, T b) { return a == Num(b); }
  SYMX_A bool operator!=(T a, const Num& b) { return Num(a) != b; }  SYMX_A bool operator!=(const Num& a, T b) { return a != Num(b); }
  SYMX_A bool operator<(T a, const Num& b) { return Num(a) < b; }  SYMX_A bool operator<(const Num& a, T b) { return a < Num(b); }
  SYMX_A bool operator>(T a, const Num& b) { return Num(a) > b; }  SYMX_A bool operator>(const Num& a, T b) { return a > Num(b); }
  SYMX_A bool operator<=(T a, const Num& b) { return Num(a) <= b; }  SYMX_A bool operator<=(const Num& a, T b) { return a <= Num(b); }
  SYMX_A bool operator>=(T a, const Num& b) { return Num(a) >= b; }  SYMX_A bool operator>=(const Num& a, T b) { return a >= Num(b); }
#undef SYMX_A
  static id_t d(const Num& a, const Num& b) { SYMX_ACC(1, &a); SYMX_ACC(1, &b); return E().bin(SUB, a.id, b.id, K_REF); }
  friend bool operator==(const Num& a, const Num& b) { return E().decide(d(a, b), S_ZERO); }
  friend bool operator!=(const Num& a, const Num& b) { return E().decide(d(a, b), S_NEG | S_POS); }
  friend bool operator<(const Num& a, const Num& b) { return E().decide(d(a, b), S_NEG); }
  friend bool operator>(const Num& a, const Num& b) { return E().decide(d(a, b), S_POS); }
  friend bool operator<=(const Num& a, const Num& b) { return E().decide(d(a, b), S_NEG | S_ZERO); }
  friend bool operator>=(const Num& a, const Num& b) { return E().decide(d(a, b), S_ZERO | S_POS); }
  explicit operator bool() const { SYMX_ACC(1, this); return E().decide(id, S_NEG | S_POS); }
  friend Num conj(const Num& a) { return a; }
  friend Num real(const Num& a) { return a; }
  friend Num imag(const Num&) { return Num(0); }
  friend Num abs2(const Num& a) { return a * a; }
  friend std::ostream& operator<<(std::ostream& o, const Num& a) { return o << "<sym#" << a.id << ">"; }
};
using Sym = Num<K_IMPL>;
using Ref = Num<K_REF>;
} // namespace symx

namespace __gnu_cxx { template <> struct __promote<symx::Sym, false> { typedef symx::Sym __type; }; }
namespace symx {   // ordinary functions, so that qualified, unqualified and using-declared calls name the same entity
#define SYMX_F(name, F) inline Sym name(const Sym& a) { constexpr Kind K = K_IMPL; (void)K; SYMX_ACC(1, &a); return Sym::of(E().fun(F, a.id, K_IMPL)); } inline Ref name(const Ref& a) { return Ref::of(E().fun(F, a.id, K_REF)); }
SYMX_F(sin, SIN)
SYMX_F(cos, COS)
SYMX_F(tan, TAN)
SYMX_F(sinh, SINH)
SYMX_F(cosh, COSH)
SYMX_F(tanh, TANH)
SYMX_F(asin, ASIN)
SYMX_F(acos, ACOS)
SYMX_F(atan, ATAN)
SYMX_F(asinh, ASINH)
SYMX_F(acosh, ACOSH)
SYMX_F(atanh, ATANH)
SYMX_F(sqrt, SQRT)
SYMX_F(exp, EXP)
SYMX_F(log, LOG)
SYMX_F(abs, ABS)
SYMX_F(fabs, ABS)
#undef SYMX_F
inline Sym pow(const Sym& a, const Sym& b) { constexpr Kind K = K_IMPL; (void)K; SYMX_ACC(1, &a); SYMX_ACC(1, &b); return Sym::of(E().bin(POW, a.id, b.id, K_IMPL)); }
inline Ref pow(const Ref& a, const Ref& b) { return Ref::of(E().bin(POW, a.id, b.id, K_REF)); }
inline Sym atan2(const Sym& y, const Sym& x) { return Sym::of(E().bin(ATAN2, y.id, x.id, K_IMPL)); }
inline Ref atan2(const Ref& y, const Ref& x) { return Ref::of(E().bin(ATAN2, y.id, x.id, K_REF)); }
inline Sym exp2(const Sym& a) { return pow(Sym(2), a); }
inline Sym cbrt(const Sym& a) { return pow(a, Sym(1) / Sym(3)); }
inline Sym log1p(const Sym& a) { return log(Sym(1) + a); }
inline Sym expm1(const Sym& a) { return exp(a) - Sym(1); }
inline Sym log10(const Sym& a) { return log(a) / log(Sym(10)); }
inline Sym log2(const Sym& a) { return log(a) / log(Sym(2)); }
inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }
inline Sym hypot(const Sym& a, const Sym& b) { return sqrt(a * a + b * b); }
inline Sym fmax(const Sym& a, const Sym& b) { return a < b ? b : a; }
inline Sym fmin(const Sym& a, const Sym& b) { return b < a ? b : a; }
inline Sym copysign(const Sym& a, const Sym& b) { Sym m = abs(a); return b < Sym(0) ? -m : m; }
inline bool signbit(const Sym& a) { return a < Sym(0); }
inline bool isnan(const Sym&) { return false; }
inline bool isinf(const Sym&) { return false; }
inline bool isfinite(const Sym&) { return true; }
}
namespace std {
using symx::sin; using symx::cos; using symx::tan; using symx::sinh; using symx::cosh; using symx::tanh; using symx::asin; using symx::acos; using symx::atan; using symx::asinh; using symx::acosh; using symx::atanh; using symx::sqrt; using symx::exp; using symx::log; using symx::abs; using symx::fabs; using symx::pow; using symx::atan2; using symx::exp2; using symx::cbrt; using symx::log1p; using symx::expm1; using symx::log10; using symx::log2; using symx::fma; using symx::hypot; using symx::fmax; using symx::fmin; using symx::copysign; using symx::signbit; using symx::isnan; using symx::isinf; using symx::isfinite;
inline std::string to_string(const symx::Sym& a) { return "<sym#" + std::to_string(a.id) + ">"; }
template <> struct numeric_limits<symx::Sym> {
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = false,
                        has_quiet_NaN = false, has_signaling_NaN = false, is_iec559 = false, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
  static symx::Sym min() { return std::numeric_limits<double>::min(); }
  static symx::Sym max() { return std::numeric_limits<double>::max(); }
  static symx::Sym lowest() { return std::numeric_limits<double>::lowest(); }
  static symx::Sym epsilon() { return std::numeric_limits<double>::epsilon(); }
  static symx::Sym infinity() { return std::numeric_limits<double>::max(); }
  static symx::Sym quiet_NaN() { return symx::Sym(0); }
};
template <> struct hash<symx::Sym> { size_t operator()(const symx::Sym& s) const { return s.id; } };
} // namespace std

// std::complex<Sym>: accepts arithmetic scalars directly, as std::complex<double> does.
namespace std {
template <> class complex<symx::Sym> {
  symx::Sym re_, im_;
 public:
  typedef symx::Sym value_type;
  complex() {}
  complex(const symx::Sym& r) : re_(r) {}
  complex(const symx::Sym& r, const symx::Sym& i) : re_(r), im_(i) {}
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> complex(T r) : re_(r) {}
  symx::Sym real() const { return re_; }
  symx::Sym imag() const { return im_; }
  void real(const symx::Sym& v) { re_ = v; }
  void imag(const symx::Sym& v) { im_ = v; }
  complex& operator=(const symx::Sym& r) { re_ = r; im_ = symx::Sym(); return *this; }
  complex& operator+=(const symx::Sym& r) { re_ += r; return *this; }
  complex& operator-=(const symx::Sym& r) { re_ -= r; return *this; }
  complex& operator*=(const symx::Sym& r) { re_ *= r; im_ *= r; return *this; }
  complex& operator/=(const symx::Sym& r) { re_ /= r; im_ /= r; return *this; }
  complex& operator+=(const complex& z) { re_ += z.re_; im_ += z.im_; return *this; }
  complex& operator-=(const complex& z) { re_ -= z.re_; im_ -= z.im_; return *this; }
  complex& operator*=(const complex& z) {
    const symx::Sym r = re_ * z.re_ - im_ * z.im_; im_ = re_ * z.im_ + im_ * z.re_; re_ = r; return *this; }
  complex& operator/=(const complex& z) {
    const symx::Sym r = re_ * z.re_ + im_ * z.im_, n = z.re_ * z.re_ + z.im_ * z.im_;
    im_ = (im_ * z.re_ - re_ * z.im_) / n; re_ = r / n; return *this; }
  complex __rep() const { return *this; }
};
}
namespace std {
// z^n for a constant integer n is repeated multiplication (what libm computes, without the branch cut)
inline complex<symx::Sym> pow(const complex<symx::Sym>& z, const complex<symx::Sym>& w) {
  auto& e = symx::E(); symx::id_t a = w.real().id, b = w.imag().id;
  if (e.isc(a) && e.isc(b) && e.nodes[b].c == 0 && e.nodes[a].c == (int)e.nodes[a].c && std::fabs(e.nodes[a].c) <= 8) {
    int n = (int)e.nodes[a].c; complex<symx::Sym> r(1.0);
    for (int k = 0; k < std::abs(n); ++k) r *= z;
    return n < 0 ? complex<symx::Sym>(1.0) / r : r;
  }
  return z == complex<symx::Sym>() ? complex<symx::Sym>() : std::exp(w * std::log(z));
}
}
