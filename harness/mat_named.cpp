// Named scalar-valued (1x1) matrix expressions inside every operation, several levels deep (all modes).
#include "mat_op.hpp"
struct NM {   // two named scalars over X (1x2) and Y (2x1)
  MS s; XM w; Matrix<Type> W; Matrix<Expression> N, M; R n, m, x0;
  NM() : s(1, 2, 2, 1), w("w", 2, 2), W(2, 2) {
    w.setT(W); N = Sigma((s.C ^ s.X) ^ s.X); M = s.X * (W * s.Y);
    n = sum(had(had(s.c.ref(), s.x.ref()), s.x.ref())); m = sum(s.x.ref() * (w.ref() * s.y.ref()));
  }
};
template <int m> void chk(Matrix<Expression>& e, R f, NM& k, const char* l) {
  std::string p = std::string(l) + " ";
  if constexpr (m == 0) eqm(p + "value", T2::Eval(e), one1(f));
  else if constexpr (m == 1) { eqF(p + "D", T2::DevalF(e, k.s.X), one1(f), k.s.x); eqF(p + "D", T2::DevalF(e, k.s.Y), one1(f), k.s.y); }
  else { T2::PreComp(e); eqR(p + "G", T2::DevalR(e, k.s.X), f, k.s.x); eqR(p + "G", T2::DevalR(e, k.s.Y), f, k.s.y); eqR(p + "G", T2::DevalR(e, k.s.Z), f, k.s.z); }
}
template <int m, typename MK, typename RF> void op2(const std::string& name, MK mk_, RF rf) {
  std::string p = std::string(mode_name(m)) + ":named " + name;
  add_case(p + ":N,M", [=] { NM k; Matrix<Expression> e = mk_(k.N, k.M, k); chk<m>(e, rf(k.n, k.m, k), k, "e"); done(); });
  add_case(p + ":N,N", [=] { NM k; Matrix<Expression> e = mk_(k.N, k.N, k); chk<m>(e, rf(k.n, k.n, k), k, "e"); done(); });
  add_case(p + ":N,inline", [=] { NM k; Matrix<Expression> e = mk_(k.N, k.s.X * k.s.Y, k); chk<m>(e, rf(k.n, sum(k.s.x.ref() * k.s.y.ref()), k), k, "e"); done(); });
  add_case(p + ":inline,N", [=] { NM k; Matrix<Expression> e = mk_(k.s.X * k.s.Y, k.N, k); chk<m>(e, rf(sum(k.s.x.ref() * k.s.y.ref()), k.n, k), k, "e"); done(); });
  add_case(p + ":weighted twice", [=] { NM k; Matrix<Expression> e = (Type)(3) * mk_(k.N, k.M, k) - mk_(k.M, k.N, k) * k.N; chk<m>(e, R(3) * rf(k.n, k.m, k) - rf(k.m, k.n, k) * k.n, k, "e"); done(); });
  // chain of named scalars; the inner ones are checked as well, before and after
  add_case(p + ":chain", [=] { NM k; Matrix<Expression> a = mk_(k.N, k.M, k); Matrix<Expression> b = a * k.M + k.s.X * k.s.Y; Matrix<Expression> e = b - a * k.N;
    R fa = rf(k.n, k.m, k), fb = fa * k.m + sum(k.s.x.ref() * k.s.y.ref()), fe = fb - fa * k.n; chk<m>(e, fe, k, "e"); chk<m>(a, fa, k, "a"); chk<m>(b, fb, k, "b"); chk<m>(e, fe, k, "e again"); done(); });
}
template <typename MK, typename RF> void op(const std::string& n, MK k, RF r) { if constexpr (MMODE & 1) op2<0>(n, k, r); if constexpr (MMODE & 2) op2<1>(n, k, r); if constexpr (MMODE & 4) op2<2>(n, k, r); }
#define BN(NAME, E_, F_) op(NAME, [](auto& A, auto& B, NM& k) -> const auto& { return E_; }, [](R a, R b, NM& k) -> R { return F_; });
CASES() {
#if OPN == 1
  BN("A*B", A * B, a * b) BN("A^B", A ^ B, a * b)
#elif OPN == 2
  BN("A+B", A + B, a + b) BN("A-B", A - B, a - b)
#elif OPN == 3
  BN("transpose", A * transpose(B), a * b) BN("vec", vec(A) - transpose(vec(B)), a - b)
#elif OPN == 4
  BN("p*A+p", (Type)(2.5) * A - (B + (Type)(3)), R(2.5) * a - (b + R(3))) BN("q*A", k.s.vs * A + (k.s.vs + B), k.s.is.r() * a + k.s.is.r() + b)
#elif OPN == 5
  BN("SinM", SinM(A) ^ ExpM(B), sin(a) * exp(b)) BN("Sigma", Sigma(A) * trace(B), a * b)
#elif OPN == 6
  BN("conv", conv(A, B, 1, 1, 0, 0), a * b) BN("inv", A % B, a / b)
#elif OPN == 7
  BN("det", det(A) * det(B), (assume_nonzero(a), assume_nonzero(b), a * b)) BN("A/B", A / B, a / b)
#endif
}
