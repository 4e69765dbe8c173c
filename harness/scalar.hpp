// Common parts of the scalar harnesses: an operation is applied to children whose
// value and partial derivatives are arbitrary ("jets": expressions with symbolic
// coefficients), in several contexts, and compared with the reference.
#pragma once
#include "vh.hpp"
using namespace vh;
namespace T1 = CoolDiff::TensorR1;

struct S {
  In ix = in("x"), iy = in("y"), iz = in("z"), ip = in("p"), ic = in("c"), iq = in("q");
  Type ia() const { return ix.t(); }
  R z_() const { return iz.r(); }
  R x = ix.r(), y = iy.r(), p = ip.r(), c = ic.r(), q = iq.r();
  Variable vx{ix.t()}, vy{iy.t()}, vz{iz.t()};
  Type tp = ip.t(), tc = ic.t();
  Parameter P{iq.t()};
  // jets
  In a0, a1, a2, b0, b1, b2;
  Expression U, V;
  R u, v;
  explicit S(bool quadratic = false) {
    a0 = in("a0"); a1 = in("a1"); b0 = in("b0"); b2 = in("b2");
    if (quadratic) {
      In a3 = in("a3"), a4 = in("a4");
      U = a0.t() + a1.t() * vx + a3.t() * vx * vx + a4.t() * vx * vy;
      u = a0.r() + a1.r() * x + a3.r() * x * x + a4.r() * x * y;
      V = b0.t() + b2.t() * vy + vx * vy;
      v = b0.r() + b2.r() * y + x * y;
    } else if (is_complex) {   // fewer inputs: real and imaginary parts double them already
      U = a1.t() * vx + vy; u = a1.r() * x + y;
      V = vy - vx; v = y - x;
    } else {
      a2 = in("a2");
      U = a0.t() + a1.t() * vx + a2.t() * vy;
      u = a0.r() + a1.r() * x + a2.r() * y;
      V = b0.t() + b2.t() * vy - vx;
      v = b0.r() + b2.r() * y - x;
    }
  }
};

enum Mode { EVAL, FWD, REV, SYM, SYM2 };
inline const char* mode_name(Mode m) { static const char* n[] = {"eval", "fwd", "rev", "sym", "sym2"}; return n[m]; }

inline void check(Mode m, Expression& e, R f, S& s) {
  Variable* vs[3] = {&s.vx, &s.vy, &s.vz};
  In* is[3] = {&s.ix, &s.iy, &s.iz};
  const char* nm[3] = {"x", "y", "z"};
  switch (m) {
    case EVAL: eq("value", T1::Eval(e), f); break;
    case FWD: for (int k = 0; k < 3; ++k) eq(std::string("d/d") + nm[k], T1::DevalF(e, *vs[k]), D(f, *is[k])); break;
    case REV: T1::PreComp(e); for (int k = 0; k < 3; ++k) eq(std::string("d/d") + nm[k], T1::DevalR(e, *vs[k]), D(f, *is[k])); break;
    case SYM: for (int k = 0; k < 3; ++k) { Expression& d = T1::SymDiff(e, *vs[k]); eq(std::string("d/d") + nm[k], T1::Eval(d), D(f, *is[k])); } break;
    case SYM2:
      for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) {
        Expression& d = T1::SymDiff(e, *vs[k]); Expression& dd = T1::SymDiff(d, *vs[l]);
        std::string lab = std::string("d2/d") + nm[k] + "d" + nm[l]; R ref = D(D(f, *is[k]), *is[l]);
        eq(lab, T1::Eval(dd), ref);
        eq(lab + " fwd over sym", T1::DevalF(d, *vs[l]), ref);
        T1::PreComp(d); eq(lab + " rev over sym", T1::DevalR(d, *vs[l]), ref);
      }
      break;
  }
}

// B: S& -> op template (reference), F: S& -> R. VMODE selects (at compile time) what is checked.
#ifndef VMODE
#define VMODE 31
#endif
template <Mode m, typename B, typename F>
void op_mode(const std::string& name, B build, F ref) {
  if constexpr ((VMODE >> (int)m) & 1) {
    std::string pre = std::string(mode_name(m)) + ":" + name;
    constexpr bool quad = m == SYM2;
    add_case(pre + ":root", [=] { S s(quad); Expression e = build(s); check(m, e, ref(s), s); no_errors("no error reported"); });
    if constexpr (quad) return;
    // the operation under a product with an arbitrary factor, and twice in one expression
    add_case(pre + ":nested", [=] { S s; R f = ref(s); Expression e;
      if (is_complex) { e = s.tp * build(s); check(m, e, s.p * f, s); } else { e = s.tp * build(s) + build(s) * s.vy; check(m, e, s.p * f + f * s.y, s); } no_errors("no error reported"); });
    // one shared sub-expression used twice
    add_case(pre + ":shared", [=] { S s; R f = ref(s); Expression W = build(s); Expression e = W * s.vy - s.tp * W; check(m, e, f * s.y - s.p * f, s); no_errors("no error reported"); });
    // the operation handed to the entry point directly, without an Expression around it
    if constexpr (m == EVAL) add_case(pre + ":direct", [=] { S s; const auto& t = build(s); eq("value", T1::Eval(const_cast<std::decay_t<decltype(t)>&>(t)), ref(s)); no_errors("no error reported"); });
    if constexpr (m == FWD) add_case(pre + ":direct", [=] { S s; const auto& t = build(s); R f = ref(s); auto& tt = const_cast<std::decay_t<decltype(t)>&>(t);
      eq("d/dx", T1::DevalF(tt, s.vx), D(f, s.ix)); eq("d/dy", T1::DevalF(tt, s.vy), D(f, s.iy)); eq("d/dz", T1::DevalF(tt, s.vz), D(f, s.iz)); });
    if constexpr (m == SYM) add_case(pre + ":direct", [=] { S s; const auto& t = build(s); R f = ref(s); auto& tt = const_cast<std::decay_t<decltype(t)>&>(t);
      eq("d/dx", T1::Eval(T1::SymDiff(tt, s.vx)), D(f, s.ix)); eq("d/dz", T1::Eval(T1::SymDiff(tt, s.vz)), D(f, s.iz)); });
  }
}
template <typename B, typename F>
void op_case(const std::string& name, B build, F ref, bool sym = true) {
  op_mode<EVAL>(name, build, ref); op_mode<FWD>(name, build, ref); op_mode<REV>(name, build, ref);
  if (sym) { op_mode<SYM>(name, build, ref); op_mode<SYM2>(name, build, ref); }
}
#define B_(EXPR) [](S& s) -> const auto& { return EXPR; }
#define F_(EXPR) [](S& s) -> R { return EXPR; }
