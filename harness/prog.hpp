#pragma once
// Generated scalar programs: DAGs of Expressions over variables, parameters and numbers whose
// values are all symbolic, exercised by sequences of library calls. Program shapes and call
// sequences come from a fixed linear congruential generator; everything numeric is symbolic.
#include "vh.hpp"
#include <deque>
using namespace vh;
namespace T1 = CoolDiff::TensorR1;

struct Lcg { uint64_t s; unsigned operator()(unsigned n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((s >> 33) % n); } };

enum PrgOp { SUM, SUB, MUL, DIV, MULP, PMUL, SUBP, PSUB, CMUL, ADDC, CSUB, DIVC, POW2, POW3, NEG, SINE, EXPO, INL1, INL2, SQSUM, ALIAS, NOP };
struct Def { int op, a, b; };

struct Prog {
  Lcg g; In ix[3], ip, ic; std::deque<Variable> vs; Parameter P; Type tc; int fresh{0};
  std::deque<Expression> ex; std::vector<std::vector<Def>> defs; std::vector<int> deg; int trans{0}, divs{0};
  bool inrec{false};
  explicit Prog(uint64_t seed) : g{seed * 7919 + 12345}, ip(in("p")), ic(in("c")), P(ip.t()), tc(ic.t()) {
    for (int i = 0; i < 5; ++i) g(7);
    const char* n[3] = {"x", "y", "z"};
    for (int k = 0; k < 3; ++k) { ix[k] = in(n[k]); vs.emplace_back(ix[k].t()); }
  }
  // operands: 0..2 variables, 3.. nodes
  Variable& opd(int i) { return i < 3 ? vs[i] : (Variable&)ex[i - 3]; }
  int degree(int i) { return i < 3 ? 1 : deg[i - 3]; }
  Def pick(int top, int maxdeg) {
    for (;;) {
      Def d{(int)g(NOP), (int)g(top + 3), (int)g(top + 3)};
      if (top > 0 && g(3)) d.a = 3 + top - 1 - (int)g(top > 2 ? 2 : 1);
      int da = degree(d.a), db = degree(d.b), dd = da;
      switch (d.op) {
        case SUM: case SUB: case SQSUM: dd = std::max(da, db) * (d.op == SQSUM ? 2 : 1); break;
        case MUL: case INL1: case INL2: dd = da + db; break;
        case DIV: if (divs || db > 2) continue; dd = da + db + 1; break;
        case DIVC: if (divs > 1) continue; break;
        case POW2: dd = 2 * da; break; case POW3: dd = 3 * da; break;
        case SINE: case EXPO: if (trans || da > 2) continue; dd = da + 1; break;
        case ALIAS: if (d.a < 3) continue; break;
      }
      if (dd > maxdeg) continue;
      if (d.op == DIV) ++divs;
      if (d.op == SINE || d.op == EXPO) ++trans;
      return d;
    }
  }
  int degof(Def d) {
    int da = degree(d.a), db = degree(d.b);
    switch (d.op) { case SUM: case SUB: return std::max(da, db); case SQSUM: return 2 * std::max(da, db); case MUL: case INL1: case INL2: return da + db;
      case DIV: return da + db + 1; case POW2: return 2 * da; case POW3: return 3 * da; case SINE: case EXPO: return da + 1; }
    return da;
  }
  std::string nm(int i) { return i < 3 ? std::string(1, "xyz"[i]) : "n" + std::to_string(i - 3); }
  void assign(Expression& e, Def d) {
    if (getenv("VH_SHOW")) { int k = 0; for (auto& q : ex) { if (&q == &e) break; ++k; } static const char* on[] = {"SUM", "SUB", "MUL", "DIV", "MULP", "PMUL", "SUBP", "PSUB", "CMUL", "ADDC", "CSUB", "DIVC", "POW2", "POW3", "NEG", "SIN", "EXP", "INL1", "INL2", "SQSUM", "ALIAS"};
      fprintf(stderr, "n%d = %s %s %s\n", k, on[d.op], nm(d.a).c_str(), nm(d.b).c_str()); }
    Variable &A = opd(d.a), &B = opd(d.b);
    switch (d.op) {
      case SUM: e = A + B; break; case SUB: e = A - B; break; case MUL: e = A * B; break; case DIV: e = A / B; break;
      case MULP: e = A * P; break; case PMUL: e = P * A; break; case SUBP: e = A - P; break; case PSUB: e = P - A; break;
      case CMUL: e = tc * A; break; case ADDC: e = A + tc; break; case CSUB: e = tc - A; break; case DIVC: e = A / tc; break;
      case POW2: e = pow(A, (Type)2); break; case POW3: e = pow(A, (Type)3); break; case NEG: e = -A; break; case SINE: e = sin(A); break; case EXPO: e = exp(A); break;
      case INL1: e = A * B - (P * A) + tc; break; case INL2: e = (A + P) * (B - tc) + A; break; case SQSUM: e = (A + B) * (A + B); break;
      case ALIAS: e = (Expression&)A; break;
    }
  }
  void build(int n, int maxdeg) {
    for (int k = 0; k < n; ++k) {
      Def d = pick(k, maxdeg); ex.emplace_back(); deg.push_back(degof(d)); defs.push_back({d}); assign(ex.back(), d);
    }
  }
  // reference value of an operand; self is the current value of a node that refers to itself
  R val(int i, int me = -1, const R* self = nullptr) const {
    if (i < 3) return ix[i].r();
    if (i - 3 == me) return *self;
    R cur(0);
    for (auto& d : defs[i - 3]) { R nw = apply(d, i - 3, cur); cur = nw; }
    return cur;
  }
  R apply(const Def& d, int me, const R& self) const {
    R a = val(d.a, me, &self), b = (d.op == SUM || d.op == SUB || d.op == MUL || d.op == DIV || d.op == INL1 || d.op == INL2 || d.op == SQSUM) ? val(d.b, me, &self) : R(0), p = ip.r(), c = ic.r();
    switch (d.op) {
      case SUM: return a + b; case SUB: return a - b; case MUL: return a * b; case DIV: return a / b; case MULP: case PMUL: return a * p; case SUBP: return a - p; case PSUB: return p - a;
      case CMUL: return c * a; case ADDC: return a + c; case CSUB: return c - a; case DIVC: return a / c; case POW2: return a * a; case POW3: return a * a * a; case NEG: return -a;
      case SINE: return sin(a); case EXPO: return exp(a); case INL1: return a * b - p * a + c; case INL2: return (a + p) * (b - c) + a; case SQSUM: return (a + b) * (a + b);
    }
    return a;
  }
  int node() { int n = (int)ex.size(); return g(3) ? n - 1 - (int)g(n > 1 ? 2 : 1) : (int)g(n); }
  void setvar(int k) { if (getenv("VH_SHOW")) fprintf(stderr, "set %c\n", "xyz"[k]); In nw = in(ix[k].name.substr(0, 1) + std::to_string(++fresh)); ix[k] = nw; vs[k] = nw.t(); }
  void setpar() { if (getenv("VH_SHOW")) fprintf(stderr, "set p\n"); In nw = in("p" + std::to_string(++fresh)); ip = nw; P = nw.t(); }
  // what is asked
  void q_eval(int k, const std::string& l) { if (getenv("VH_SHOW")) fprintf(stderr, "eval n%d\n", k); eq(l + "value(n" + std::to_string(k) + ")", T1::Eval(ex[k]), val(k + 3)); }
  std::string dl(int k, int v) { return "d(n" + std::to_string(k) + ")/d" + "xyz"[v]; }
  void q_fwd(int k, int v, const std::string& l) { if (getenv("VH_SHOW")) fprintf(stderr, "fwd n%d\n", k); eq(l + "fwd " + dl(k, v), T1::DevalF(ex[k], vs[v]), D(val(k + 3), ix[v])); }
  void q_rev(int k, const std::string& l) { if (getenv("VH_SHOW")) fprintf(stderr, "rev n%d\n", k); R f = val(k + 3); T1::PreComp(ex[k]); for (int v = 0; v < 3; ++v) eq(l + "rev " + dl(k, v), T1::DevalR(ex[k], vs[v]), D(f, ix[v])); }
  void q_cache(int k, const std::string& l) { if (getenv("VH_SHOW")) fprintf(stderr, "cache n%d\n", k);
    R f = val(k + 3); auto& c = T1::PreCompCache(ex[k]);
    for (int v = 0; v < 3; ++v) { auto it = c.find(vs[v].m_nidx); eq(l + "cache " + dl(k, v), it == c.end() ? (Type)(0) : it->second, D(f, ix[v])); }
  }
  struct Sy { Expression* e; int k, v; };
  std::vector<Sy> syms;
  void q_sym(int k, int v, const std::string& l) { if (getenv("VH_SHOW")) fprintf(stderr, "sym n%d\n", k); Expression& d = T1::SymDiff(ex[k], vs[v]); syms.push_back({&d, k, v}); eq(l + "sym " + dl(k, v), T1::Eval(d), D(val(k + 3), ix[v])); }
  void q_old(const std::string& l) {
    if (syms.empty()) return;
    auto s = syms[g((unsigned)syms.size())]; R f = D(val(s.k + 3), ix[s.v]); int w = (int)g(3);
    std::string n = l + "later use of sym " + dl(s.k, s.v);
    switch (g(3)) {
      case 0: eq(n + " value", T1::Eval(*s.e), f); break;
      case 1: eq(n + " fwd d" + "xyz"[w], T1::DevalF(*s.e, vs[w]), D(f, ix[w])); break;
      default: T1::PreComp(*s.e); eq(n + " rev d" + "xyz"[w], T1::DevalR(*s.e, vs[w]), D(f, ix[w])); break;
    }
  }
  void step(const std::string& l) {
    if (getenv("VH_SHOW")) fprintf(stderr, "%s\n", l.c_str());
    switch (g(9)) {
      case 0: case 1: setvar((int)g(3)); break;
      case 2: setpar(); break;
      case 3: q_eval(node(), l); break;
      case 4: q_fwd(node(), (int)g(3), l); break;
      case 5: q_rev(node(), l); break;
      case 6: q_cache(node(), l); break;
      case 7: q_sym(node(), (int)g(3), l); break;
      default: q_old(l); break;
    }
  }
  void all(const std::string& l) { int k = (int)ex.size() - 1; q_eval(k, l); q_fwd(k, (int)g(3), l); q_rev(k, l); q_sym(k, (int)g(3), l); q_eval(k, l); }
};
static std::string st(int i) { return "step" + std::to_string(i) + " "; }

