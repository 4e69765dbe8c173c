// Scalars of every kind with matrices, elementwise functions, aggregations, vec, det, inverse.
#if OPN == 26 || OPN == 27
#define LIGHT 1
#endif
#include "mat_op.hpp"
static const Shape S22{2, 2, 2, 2}, S23{2, 3, 2, 3}, S32{2, 3, 3, 2}, S33{3, 3, 3, 3}, S11{1, 1, 1, 1}, S21{2, 1, 2, 1}, S12{1, 2, 1, 2}, S13{1, 3, 1, 3}, S31{3, 1, 3, 1}, S24{2, 3, 1, 3}, S42{2, 3, 2, 1};

// scalar expression q applied to a matrix expression; also differentiated by the scalar's variables
template <int m, typename MK, typename REF>
void scalk(const std::string& name, Shape sh, MK make, REF ref) {
  kind<m>(name, sh, make, ref);
  std::string pre = std::string(mode_name(m)) + ":" + name;
  if constexpr (m == FWD) add_case(pre + ":by scalar", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); Matrix<Expression> e = make(s); XM t("s", 1, 1); t.in_[0] = s.is; Matrix<Variable> S(1, 1); S[0] = s.vs;
    eqF("D", T2::DevalF(e, S), f, t); eqF("D", T2::DevalF(e, s.X), f, s.x); XM t2("sz", 1, 2); t2.in_[0] = s.z(0, 1); t2.in_[1] = s.is; Matrix<Variable> S2(1, 2); S2[0] = s.Z[1]; S2[1] = s.vs; eqF("D", T2::DevalF(e, S2), f, t2);
    Matrix<Variable> S3(2, 1, S2.getMatrixPtr()); XM t3("szt", 2, 1); t3.in_ = t2.in_; eqF("D by column", T2::DevalF(e, S3), f, t3); XM t4("zs", 2, 1); t4.in_ = {t2.in_[1], t2.in_[0]}; Matrix<Variable> S4(2, 1); S4[0] = s.vs; S4[1] = s.Z[1]; eqF("D by column", T2::DevalF(e, S4), f, t4); eqF("D by row again", T2::DevalF(e, S2), f, t2); no_errors("no error reported"); });
  if constexpr (m == REV) add_case(pre + ":by scalar", [=] { MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s); XM w("w", f.r, f.c); Matrix<Type> W(f.r, f.c); w.setT(W);
    Matrix<Expression> e = Sigma(W ^ make(s)); R g = sum(had(w.ref(), f)); T2::PreComp(e); auto& J = T2::DevalR(e, s.vs); eqm("G by s", J, one1(D(g, s.is))); eqR("G", T2::DevalR(e, s.X), g, s.x); no_errors("no error reported"); });
}
template <typename MK, typename REF> void scal(const std::string& name, Shape sh, MK make, REF ref) {
  if constexpr (MMODE & 1) scalk<0>(name, sh, make, ref);
  if constexpr (MMODE & 2) scalk<1>(name, sh, make, ref);
  if constexpr (MMODE & 4) scalk<2>(name, sh, make, ref);
}
#define SC_ALL(NAME, OPE, REFE)                                                                        \
  { auto op = [](auto& q, auto& A) -> const auto& { return OPE; };                                      \
    auto rf = [](R q, const RM& a) -> RM { return REFE; };                                              \
    scal(NAME ":var V", S23, [op](MS& s) -> const auto& { return op(s.vs, s.X); }, [rf](MS& s) { return rf(s.is.r(), s.x.ref()); });                          \
    scal(NAME ":par V", S23, [op](MS& s) -> const auto& { return op(s.P, s.X); }, [rf](MS& s) { return rf(s.ip.r(), s.x.ref()); });                            \
    scal(NAME ":inl I", S23, [op](MS& s) -> const auto& { return op(s.vs * s.vs + s.P, s.C ^ s.X); }, [rf](MS& s) { R q = s.is.r(); return rf(q * q + s.ip.r(), had(s.c.ref(), s.x.ref())); }); \
    scal(NAME ":var T", S23, [op](MS& s) -> const auto& { return op(s.vs, s.C); }, [rf](MS& s) { return rf(s.is.r(), s.c.ref()); }); }
// a named scalar expression (kept alive by the case)
struct NS { Expression q; };
#if OPN == 8
template <int m> void named_scalar() {
  std::string pre = std::string(mode_name(m)) + ":named q*A";
  add_case(pre, [=] { MS s(2, 2, 2, 2); Expression q = s.vs * s.vs * s.P; Expression q2 = q * s.vs; R sv = s.is.r(), qr = sv * sv * s.ip.r(), q2r = qr * sv; RM x = s.x.ref(), c = s.c.ref();
    XM t("s", 1, 1); t.in_[0] = s.is; Matrix<Variable> S(1, 1); S[0] = s.vs;
    if constexpr (m == EVAL) { Matrix<Expression> e = q * s.X + q2 * s.C; eqm("value", T2::Eval(e), qr * x + q2r * c); Matrix<Expression> g = q + (e ^ (q2 * e)); RM f = qr * x + q2r * c; eqm("value", T2::Eval(g), adds(had(f, q2r * f), qr)); }
    if constexpr (m == FWD) { Matrix<Expression> e = q * s.X + q2 * s.C; RM f = qr * x + q2r * c; eqF("D", T2::DevalF(e, S), f, t); eqF("D", T2::DevalF(e, s.X), f, s.x); Matrix<Variable> P4(1, 4), Q4(4, 1), R4(2, 2); XM p4("P", 1, 4), q4("Q", 4, 1), r4("R", 2, 2); p4.in_ = {s.z.in_[0], s.is, s.x.in_[1], s.y.in_[0]}; for (int k = 0; k < 4; ++k) { auto& v = k == 0 ? s.Z[0] : k == 1 ? s.vs : k == 2 ? s.X[1] : s.Y[0]; P4[k] = v; Q4[3 - k] = v; R4[k] = v; r4.in_[k] = p4.in_[k]; q4.in_[3 - k] = p4.in_[k]; }
      eqF("D", T2::DevalF(e, P4), f, p4); eqF("D", T2::DevalF(e, R4), f, r4); eqF("D", T2::DevalF(e, Q4), f, q4); eqF("D", T2::DevalF(e, P4), f, p4);
      Matrix<Expression> g = q + (e ^ (q2 * e)); RM h = adds(had(f, q2r * f), qr); eqF("D", T2::DevalF(g, S), h, t); eqF("D", T2::DevalF(g, s.X), h, s.x); }
    if constexpr (m == REV) { Matrix<Expression> e = Sigma((q * s.X + q2 * s.C) ^ (q2 * s.X)) * q + q2; R h = sum(had(qr * x + q2r * c, q2r * x)) * qr + q2r; T2::PreComp(e); eqR("G", T2::DevalR(e, s.X), h, s.x); eqm("G by s", T2::DevalR(e, s.vs), one1(D(h, s.is)));
      Matrix<Expression> e2 = (q * e) * e + q2; R h2 = qr * h * h + q2r; T2::PreComp(e2); eqR("G2", T2::DevalR(e2, s.X), h2, s.x); eqm("G2 by s", T2::DevalR(e2, s.vs), one1(D(h2, s.is))); }
    no_errors("no error reported"); });
  // the scalar depends on entries of the matrix (forward mode, where the entries are what one differentiates by)
  add_case(pre + " of entries", [=] { MS s(2, 2, 2, 2); Expression q = s.X(0, 1) * s.X(1, 0) + s.vs; RM x = s.x.ref(); R qr = x(0, 1) * x(1, 0) + s.is.r();
    Matrix<Expression> e = q * (s.X * s.C) + q; RM f = adds(qr * (x * s.c.ref()), qr);
    if constexpr (m == EVAL) eqm("value", T2::Eval(e), f);
    if constexpr (m == FWD) eqF("D", T2::DevalF(e, s.X), f, s.x);
    no_errors("no error reported"); });
}
#endif
static R fsin(R a) { return sin(a); } static R fcos(R a) { return cos(a); } static R fexp(R a) { return exp(a); } static R ftanh(R a) { return tanh(a); } static R fsig(R a) { return R(1) / (R(1) + exp(-a)); }
#if !defined(USE_COMPLEX_MATH)
static R flog(R a) { return log(a); } static R fsqrt(R a) { return sqrt(a); }
static R frelu(R a) { assume_nonzero(a); return gt0(a) ? a : R(0); } static R flrelu(R a) { assume_nonzero(a); return gt0(a) ? a : R(0.01) * a; } static R fabsr(R a) { assume_nonzero(a); return gt0(a) ? a : -a; }
#endif
static R detN(const RM& a) { R d = detR(a); if (MMODE != 1) assume_nonzero(d); return d; }
static RM sigrow(const RM& a) { return mk(1, a.c, [&](size_t, size_t j) { R s(0); for (size_t i = 0; i < a.r; ++i) s += a(i, j); return s; }); }
static RM sigcol(const RM& a) { return mk(a.r, 1, [&](size_t i, size_t) { R s(0); for (size_t j = 0; j < a.c; ++j) s += a(i, j); return s; }); }
static RM vecR(const RM& a) { RM m(a.r * a.c, 1); m.v = a.v; return m; }
static R traceR(const RM& a) { R s(0); for (size_t i = 0; i < a.r; ++i) s += a(i, i); return s; }
static RM catv(const RM& a, const RM& b) { return mk(a.r + b.r, a.c, [&](size_t i, size_t j) { return i < a.r ? a(i, j) : b(i - a.r, j); }); }
static RM cath(const RM& a, const RM& b) { return mk(a.r, a.c + b.c, [&](size_t i, size_t j) { return j < a.c ? a(i, j) : b(i, j - a.c); }); }
static RM powR(const RM& a, int n) { RM m = eyeR(a.r); for (int i = 0; i < n; ++i) m = m * a; return m; }
static RM mexpR(const RM& a, int n) { RM m = eyeR(a.r); double f = 1; RM s = m; for (int i = 1; i <= n; ++i) { f *= i; s = s + (R(1) / R(f)) * powR(a, i); } return s; }
static RM mlogR(const RM& a, int n) { RM s(a.r, a.r); RM k = eyeR(a.r) - a; for (int i = 1; i <= n; ++i) s = s + (R(-1) / R(i)) * powR(k, i); return s; }
static RM softall(const RM& a) { RM e = map(a, fexp); R t = sum(e); return mk(a.r, a.c, [&](size_t i, size_t j) { return e(i, j) / t; }); }
static RM softrow(const RM& a) { RM e = map(a, fexp), t = sigrow(e); return mk(a.r, a.c, [&](size_t i, size_t j) { return e(i, j) / t(0, j); }); }
static RM softcol(const RM& a) { RM e = map(a, fexp), t = sigcol(e); return mk(a.r, a.c, [&](size_t i, size_t j) { return e(i, j) / t(i, 0); }); }
#if OPN == 22
// the default truncation of the series (20 terms)
template <int m> void series() {
  std::string pre = std::string(mode_name(m)) + ":";
  auto go = [=](const std::string& name, size_t n, auto make, auto ref) { add_case(pre + name, [=] { MS s(n, n, n, n); RM x = s.x.ref(); Matrix<Expression> e = make(s); RM f = ref(x);
    if constexpr (m == EVAL) { eqm("value", T2::Eval(e), f); }
    if constexpr (m == FWD) { eqF("D", T2::DevalF(e, s.X), f, s.x); }
    if constexpr (m == REV) { T2::PreComp(e); eqR("G", T2::DevalR(e, s.X), f(0, 0), s.x); }
    no_errors("no error reported"); }); };
  go("MatrixExp default", 1, [](MS& s) -> const auto& { return MatrixExp(s.X); }, [](const RM& x) { return mexpR(x, 20); });
  go("MatrixLog default", 1, [](MS& s) -> const auto& { return MatrixLog(s.X); }, [](const RM& x) { return mlogR(x, 20); });
}
#endif

CASES() {
#if OPN == 8
  SC_ALL("q*A", q * A, q * a)
  if (MMODE & 1) named_scalar<0>(); if (MMODE & 2) named_scalar<1>(); if (MMODE & 4) named_scalar<2>();
#elif OPN == 9
  SC_ALL("A*q", A * q, q * a)
#elif OPN == 10
  SC_ALL("q+A", q + A, adds(a, q))
#elif OPN == 11
  SC_ALL("A+q", A + q, adds(a, q)) SC_ALL("A/q", A / q, (R(1) / q) * a)
#elif OPN == 12
  SC_ALL("A-q", A - q, adds(a, -q)) SC_ALL("q-A", q - A, adds(R(-1) * a, q))
#elif OPN == 13
  UN_ALL("SinM", S22, SinM(A), map(a, fsin)) UN_ALL("CosM", S23, CosM(A), map(a, fcos)) UN_ALL("ExpM", S22, ExpM(A), map(a, fexp))
#elif OPN == 14
  UN_ALL("TanhM", S12, TanhM(A), map(a, ftanh)) UN_ALL("SigmoidM", S21, SigmoidM(A), map(a, fsig))
#if !defined(USE_COMPLEX_MATH)
  UN_ALL("LogM", S21, LogM(A), map(a, flog)) UN_ALL("SqrtM", S12, SqrtM(A), map(a, fsqrt))
#endif
#elif OPN == 15
#if !defined(USE_COMPLEX_MATH)
  UN_ALL("ReLUM", S12, ReLUM(A), map(a, frelu)) UN_ALL("LeakyReLUM", S21, LeakyReLUM(A), map(a, flrelu)) UN_ALL("AbsM", S12, AbsM(A), map(a, fabsr))
#endif
#elif OPN == 16
  UN_ALL("Sigma", S23, Sigma(A), one1(sum(a))) UN_ALL("Sigma row", S23, Sigma<Axis::ROW>(A), sigrow(a)) UN_ALL("Sigma column", S23, Sigma<Axis::COLUMN>(A), sigcol(a))
#elif OPN == 17
  UN_ALL("trace", S33, trace(A), one1(traceR(a)))
#if !defined(USE_COMPLEX_MATH)
  UN_ALL("Frobenius", S22, MatrixFrobeniusNorm(A), one1(sqrt(sum(had(a, a)))))
#endif
#elif OPN == 18
  UN_ALL("broadcast column", S31, broadcast<Axis::COLUMN>(A, 2), mk(3, 2, [&](size_t i, size_t) { return a(i, 0); })) UN_ALL("broadcast row", S13, broadcast<Axis::ROW>(A, 2), mk(2, 3, [&](size_t, size_t j) { return a(0, j); })) UN_ALL("broadcast all", S11, broadcast(A, 2), mk(2, 2, [&](size_t, size_t) { return a(0, 0); }))
#elif OPN == 19
  BIN_ALL("concat vertical", S24, concat<ConcatAxis::VERTICAL>(A, B), catv(a, b)) 
#elif OPN == 20
  BIN_ALL("concat horizontal", S42, concat<ConcatAxis::HORIZONTAL>(A, B), cath(a, b))
#elif OPN == 21
  UN_ALL("pow<0>", S22, (pow<0>(A)), eyeR(2)) UN_ALL("pow<1>", S22, (pow<1>(A)), a) UN_ALL("pow<3>", S22, (pow<3>(A)), powR(a, 3))
#elif OPN == 22
  UN_ALL("MatrixExp<3>", S22, (MatrixExp<3>(A)), mexpR(a, 3)) UN_ALL("MatrixLog<3>", S22, (MatrixLog<3>(A)), mlogR(a, 3))
  if (MMODE & 1) series<0>(); if (MMODE & 2) series<1>(); if (MMODE & 4) series<2>();
#elif OPN == 23
  UN_ALL("SoftMax", S12, SoftMax(A), softall(a)) UN_ALL("SoftMax row", S21, SoftMax<Axis::ROW>(A), softrow(a)) UN_ALL("SoftMax column", S12, SoftMax<Axis::COLUMN>(A), softcol(a))
#elif OPN == 24
  UN_ALL("vec", S23, vec(A), vecR(a)) UN_ALL("vec transpose", S23, vec(transpose(A)), vecR(tr(a)))
  // the operand of vec used as it is as well
  UN_ALL("A*[vec(A)' ; vec(A*A)']", S22, (A * concat<ConcatAxis::VERTICAL>(transpose(vec(A)), transpose(vec(A * A)))), a * catv(tr(vecR(a)), tr(vecR(a * a))))
  UN_ALL("vec(A)*vec(A)'*vec(A^A)", S22, (vec(A) * transpose(vec(A)) * vec(A ^ A)), vecR(a) * tr(vecR(a)) * vecR(had(a, a)))
#elif OPN == 25
  UN_ALL("det", S22, det(A), one1(detN(a)))  // derivatives: of invertible matrices
#elif OPN == 26
  UN_ALL("inv", S22, inv(A), invR(a))
#elif OPN == 27
  BIN_ALL("A%B", S22, A % B, a * invR(b))
#elif OPN == 28
#if !defined(USE_COMPLEX_MATH)
  BIN_ALL("A/B", S12, A / B, mk(a.r, a.c, [&](size_t i, size_t j) { return a(i, j) / b(i, j); }))
#endif
#endif
}
