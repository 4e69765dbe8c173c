// Matrix operations with operands of every kind, in several contexts.
// OPN selects the operation, BACK the CPU backend (1 Eigen, 0 naive), MMODE the modes (bit mask).
#pragma once
#include "mat.hpp"
#ifndef MMODE
#define MMODE 7
#endif
#ifndef BACK
#define BACK 1
#endif
#ifndef OPN
#define OPN 1
#endif
#ifndef LIGHT   // fewer contexts, for operations whose formulas are large
#define LIGHT 0
#endif

// Operands: X, Y are matrices of variables; C of numbers; named and inline sub-expressions of them.
struct MS {
  XM x, y, c, d, z; In is = in("s"), ip = in("p");
  Matrix<Variable> X, Y, Z; Matrix<Type> C, Dm; Matrix<Expression> U, V; Variable vs; Parameter P; Type ts;
  RM u, v;
  MS(size_t r, size_t cc, size_t r2, size_t c2)
      : x("x", r, cc), y("y", r2, c2), c("c", r, cc), d("d", r2, c2), z("z", 1, 2), X(r, cc), Y(r2, c2), Z(1, 2), C(r, cc), Dm(r2, c2), vs(is.t()), P(ip.t()), ts(ip.t()) {
    backend(BACK); x.setV(X); y.setV(Y); z.setV(Z); c.setT(C); d.setT(Dm);
    U = (C ^ X) + X; u = had(c.ref(), x.ref()) + x.ref();   // Jacobian diag(1 + c)
    V = (Dm ^ Y) - Y; v = had(d.ref(), y.ref()) - y.ref();
  }
};

template <typename T> auto& mut(const T& t) { return const_cast<T&>(t); }
// one expression, every mode
template <int m, typename E_>
void checkm(E_& e, const RM& f, MS& s) {
  if constexpr (m == EVAL) eqm("value", T2::Eval(e), f);
  else if constexpr (m == FWD) { eqF("D", T2::DevalF(e, s.X), f, s.x); eqF("D", T2::DevalF(e, s.Y), f, s.y); eqF("D", T2::DevalF(e, s.Z), f, s.z); }
}
inline void checkrev(Matrix<Expression>& e, R f, MS& s) {
  T2::PreComp(e); eqR("G", T2::DevalR(e, s.X), f, s.x); eqR("G", T2::DevalR(e, s.Y), f, s.y); eqR("G", T2::DevalR(e, s.Z), f, s.z);
  eqR("G", T2::DevalR(e, s.C), f, s.c); eqR("G", T2::DevalR(e, s.Dm), f, s.d);   // matrices of numbers, too
}

// the shared constant matrices keep their shape and entries, whatever was computed before
inline void done() {
  Type z(0), o(0), e(0); auto acc = [](Type& t, const Matrix<Type>& m, size_t n, size_t c, auto want, int& w) { truth("constants keep their shape", m.getNumRows() == n && m.getNumColumns() == c); for (size_t i = 0; i < n * c; ++i) t = t + (Type)(w++) * (m.getMatrixPtr()[i] - (Type)(want(i))); };
  int w = 1;
  for (size_t n = 1; n < 5; ++n) for (size_t m = 1; m < 5; ++m) { auto a = "CPUMemoryStrategy"; acc(z, T2::MatrixBasics::ZerosRef(a, n, m), n, m, [](size_t) { return 0; }, w); acc(o, T2::MatrixBasics::OnesRef(a, n, m), n, m, [](size_t) { return 1; }, w); if (n == m) acc(e, T2::MatrixBasics::EyeRef(a, n), n, n, [n](size_t i) { return i / n == i % n ? 1 : 0; }, w); }
  eq("zero matrices intact", z, R(0)); eq("one matrices intact", o, R(0)); eq("identity matrices intact", e, R(0));
  no_errors("no error reported");
}

// OP: (MS&, auto& a, auto& b) -> const auto& template; REF: (MS&, RM, RM) -> RM
struct Shape { size_t r, c, r2, c2; };
template <int m, typename MK, typename REF>
void kind(const std::string& name, Shape sh, MK make, REF ref) {
  std::string pre = std::string(mode_name(m)) + ":" + name;
  auto S = [sh] { return MS(sh.r, sh.c, sh.r2, sh.c2); };
  if constexpr (m == EVAL || m == FWD) {
    add_case(pre + ":root", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); Matrix<Expression> e = make(s); RM f = ref(s); checkm<m>(e, f, s);
      if constexpr (m == FWD) if (!LIGHT) { for (size_t k = 0; k < 2; ++k) { size_t n = s.x.r * s.x.c; XM w("x", k ? n : 1, k ? 1 : n); w.in_ = s.x.in_; Matrix<Variable> W(w.r, w.c, s.X.getMatrixPtr()); eqF(k ? "D by column" : "D by row", T2::DevalF(e, W), f, w); } eqF("D again", T2::DevalF(e, s.X), f, s.x); }   // the same variables in other shapes
      no_errors("no error reported"); });
    add_case(pre + ":direct", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); auto& t = mut(make(s)); checkm<m>(t, ref(s), s); auto u = make(s); checkm<m>(u, ref(s), s); no_errors("no error reported"); });
    // nested under a product, a sum and a Hadamard product with arbitrary matrices
    add_case(pre + ":nested", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); XM l("l", 2, f.r), w("w", f.r, f.c); Matrix<Type> L(2, f.r), W(f.r, f.c); l.setT(L); w.setT(W);
#if LIGHT
      Matrix<Expression> e = L * make(s); RM g = l.ref() * f; checkm<m>(e, g, s); no_errors("no error reported"); });
#else
      Matrix<Expression> e = L * ((W ^ make(s)) - make(s)); RM g = l.ref() * (had(w.ref(), f) - f); checkm<m>(e, g, s); no_errors("no error reported"); });
    add_case(pre + ":shared", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); Matrix<Expression> N = make(s); Matrix<Expression> e = (N ^ N) + N; RM g = had(f, f) + f; checkm<m>(e, g, s); no_errors("no error reported"); });
#endif
  } else {
    add_case(pre + ":weighted", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); XM w("w", f.r, f.c); Matrix<Type> W(f.r, f.c); w.setT(W);
      auto t = make(s); Matrix<Expression> e = Sigma(W ^ t); checkrev(e, sum(had(w.ref(), f)), s); no_errors("no error reported"); });
    if (sh.r == 1 && sh.c2 == 1) add_case(pre + ":root", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); if (f.r * f.c != 1) return; Matrix<Expression> e = make(s); checkrev(e, f(0, 0), s); no_errors("no error reported"); });
    if (LIGHT) return;
    add_case(pre + ":twice", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); XM w("w", f.r, f.c); Matrix<Type> W(f.r, f.c); w.setT(W);
      Matrix<Expression> e = Sigma((make(s) ^ W) ^ make(s)) + Sigma(make(s)); checkrev(e, sum(had(had(f, w.ref()), f)) + sum(f), s); no_errors("no error reported"); });
    add_case(pre + ":bilinear", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); XM l("l", 1, f.r), w("w", f.c, 1); Matrix<Type> L(1, f.r), W(f.c, 1); l.setT(L); w.setT(W);
      Matrix<Expression> N = L * make(s) * W; Matrix<Expression> e = N * N - N; R n = sum(l.ref() * f * w.ref()); checkrev(e, n * n - n, s); no_errors("no error reported"); });
  }
}
template <typename MK, typename REF> void kinds(const std::string& name, Shape sh, MK make, REF ref) {
  if constexpr (MMODE & 1) kind<0>(name, sh, make, ref);
  if constexpr (MMODE & 2) kind<1>(name, sh, make, ref);
  if constexpr (MMODE & 4) kind<2>(name, sh, make, ref);
}
#define M_(EXPR) [](MS& s) -> const auto& { return EXPR; }
#define F_(EXPR) [](MS& s) -> RM { RM x = s.x.ref(), y = s.y.ref(), c = s.c.ref(), d = s.d.ref(); R sv = s.is.r(), p = s.ip.r(); (void)sv; (void)p; return EXPR; }
// named sub-expressions are not differentiated in reverse mode unless they are scalar
#define NAMED (MMODE & 3)
template <typename MK, typename REF> void named(const std::string& name, Shape sh, MK make, REF ref) {
  if constexpr (MMODE & 1) kind<0>(name, sh, make, ref);
  if constexpr (MMODE & 2) kind<1>(name, sh, make, ref);
}
#define BIN_ALL(NAME, SH, OPE, REFE)                                                                 \
  { auto op = [](auto& A, auto& B) -> const auto& { return OPE; };                                    \
    auto rf = [](const RM& a, const RM& b) -> RM { return REFE; };                                    \
    kinds(NAME ":VV", SH, [op](MS& s) -> const auto& { return op(s.X, s.Y); }, [rf](MS& s) { return rf(s.x.ref(), s.y.ref()); });                      \
    kinds(NAME ":VT", SH, [op](MS& s) -> const auto& { return op(s.X, s.Dm); }, [rf](MS& s) { return rf(s.x.ref(), s.d.ref()); });                     \
    kinds(NAME ":TV", SH, [op](MS& s) -> const auto& { return op(s.C, s.Y); }, [rf](MS& s) { return rf(s.c.ref(), s.y.ref()); });                      \
    kinds(NAME ":II", SH, [op](MS& s) -> const auto& { return op(s.C ^ s.X, s.Y + s.Dm); }, [rf](MS& s) { return rf(had(s.c.ref(), s.x.ref()), s.y.ref() + s.d.ref()); }); \
    named(NAME ":EV", SH, [op](MS& s) -> const auto& { return op(s.U, s.Y); }, [rf](MS& s) { return rf(s.u, s.y.ref()); });                           \
    named(NAME ":VE", SH, [op](MS& s) -> const auto& { return op(s.X, s.V); }, [rf](MS& s) { return rf(s.x.ref(), s.v); });                           \
    named(NAME ":EE", SH, [op](MS& s) -> const auto& { return op(s.U, s.V); }, [rf](MS& s) { return rf(s.u, s.v); });                                 \
    named(NAME ":TT", SH, [op](MS& s) -> const auto& { return op(s.C, s.Dm); }, [rf](MS& s) { return rf(s.c.ref(), s.d.ref()); }); }
#define SAME_ALL(NAME, SH, OPE, REFE) /* both operands are the same object */                         \
  { auto op = [](auto& A, auto& B) -> const auto& { return OPE; };                                    \
    auto rf = [](const RM& a, const RM& b) -> RM { return REFE; };                                    \
    kinds(NAME ":XX", SH, [op](MS& s) -> const auto& { return op(s.X, s.X); }, [rf](MS& s) { return rf(s.x.ref(), s.x.ref()); });                      \
    named(NAME ":UU", SH, [op](MS& s) -> const auto& { return op(s.U, s.U); }, [rf](MS& s) { return rf(s.u, s.u); }); }
#define UN_ALL(NAME, SH, OPE, REFE)                                                                   \
  { auto op = [](auto& A) -> const auto& { return OPE; };                                             \
    auto rf = [](const RM& a) -> RM { return REFE; };                                                 \
    kinds(NAME ":V", SH, [op](MS& s) -> const auto& { return op(s.X); }, [rf](MS& s) { return rf(s.x.ref()); });                                       \
    kinds(NAME ":T", SH, [op](MS& s) -> const auto& { return op(s.C); }, [rf](MS& s) { return rf(s.c.ref()); });                                       \
    kinds(NAME ":I", SH, [op](MS& s) -> const auto& { return op(s.C ^ s.X); }, [rf](MS& s) { return rf(had(s.c.ref(), s.x.ref())); });                 \
    kinds(NAME ":VT", SH, [op](MS& s) -> const auto& { return op(s.X + s.C); }, [rf](MS& s) { return rf(s.x.ref() + s.c.ref()); });                    \
    named(NAME ":E", SH, [op](MS& s) -> const auto& { return op(s.U); }, [rf](MS& s) { return rf(s.u); }); }

