// Every matrix operation on many more shapes: single elements, rows, columns, and larger rectangular matrices.
// One context per mode: the operation itself (value, forward derivative), or weighted and summed up (reverse gradient).
#include "mat_op.hpp"
using Shapes = std::vector<Shape>;
template <int m, typename MK, typename REF>
void shp(const std::string& name, const Shapes& shs, MK make, REF ref, bool named = false) {
  if (m == REV && named) return;
  for (auto sh : shs) add_case(std::string(mode_name(m)) + ":" + name + " " + std::to_string(sh.r) + "x" + std::to_string(sh.c) + "," + std::to_string(sh.r2) + "x" + std::to_string(sh.c2), [=] {
    MS s(sh.r, sh.c, sh.r2, sh.c2); RM f = ref(s);
    if constexpr (m == EVAL) { Matrix<Expression> e = make(s); eqm("value", T2::Eval(e), f); eqm("value again", T2::Eval(e), f); }
    if constexpr (m == FWD) { Matrix<Expression> e = make(s); eqF("D", T2::DevalF(e, s.X), f, s.x); eqF("D", T2::DevalF(e, s.Y), f, s.y); eqF("D", T2::DevalF(e, s.Z), f, s.z); }
    if constexpr (m == REV) { XM w("w", f.r, f.c); Matrix<Type> W(f.r, f.c); w.setT(W); auto t = make(s); Matrix<Expression> e = Sigma(W ^ t); R g = sum(had(w.ref(), f)); T2::PreComp(e); eqR("G", T2::DevalR(e, s.X), g, s.x); eqR("G", T2::DevalR(e, s.Y), g, s.y); eqR("G", T2::DevalR(e, s.Z), g, s.z); }
    no_errors("no error reported"); });
}
template <typename MK, typename REF> void shapes(const std::string& name, const Shapes& shs, MK make, REF ref, bool named = false) {
  if constexpr (MMODE & 1) shp<0>(name, shs, make, ref, named);
  if constexpr (MMODE & 2) shp<1>(name, shs, make, ref, named);
  if constexpr (MMODE & 4) shp<2>(name, shs, make, ref, named);
}
#define SB(NAME, SHS, OPE, REFE)                                                                      \
  { auto op = [](auto& A, auto& B) -> const auto& { return OPE; };                                    \
    auto rf = [](const RM& a, const RM& b) -> RM { return REFE; };                                    \
    shapes(NAME ":VV", SHS, [op](MS& s) -> const auto& { return op(s.X, s.Y); }, [rf](MS& s) { return rf(s.x.ref(), s.y.ref()); });       \
    shapes(NAME ":TV", SHS, [op](MS& s) -> const auto& { return op(s.C, s.Y); }, [rf](MS& s) { return rf(s.c.ref(), s.y.ref()); });       \
    shapes(NAME ":EE", SHS, [op](MS& s) -> const auto& { return op(s.U, s.V); }, [rf](MS& s) { return rf(s.u, s.v); }, true); }
#define SU(NAME, SHS, OPE, REFE)                                                                      \
  { auto op = [](auto& A) -> const auto& { return OPE; };                                             \
    auto rf = [](const RM& a) -> RM { return REFE; };                                                 \
    shapes(NAME ":V", SHS, [op](MS& s) -> const auto& { return op(s.X); }, [rf](MS& s) { return rf(s.x.ref()); });                         \
    shapes(NAME ":I", SHS, [op](MS& s) -> const auto& { return op(s.X + s.C); }, [rf](MS& s) { return rf(s.x.ref() + s.c.ref()); });       \
    shapes(NAME ":E", SHS, [op](MS& s) -> const auto& { return op(s.U); }, [rf](MS& s) { return rf(s.u); }, true); }
#define SQ(NAME, SHS, OPE, REFE)                                                                      \
  { auto op = [](auto& q, auto& A) -> const auto& { return OPE; };                                    \
    auto rf = [](R q, const RM& a) -> RM { return REFE; };                                            \
    shapes(NAME ":var", SHS, [op](MS& s) -> const auto& { return op(s.vs, s.X); }, [rf](MS& s) { return rf(s.is.r(), s.x.ref()); });       \
    shapes(NAME ":inl", SHS, [op](MS& s) -> const auto& { return op(s.vs * s.P, s.X + s.C); }, [rf](MS& s) { return rf(s.is.r() * s.ip.r(), s.x.ref() + s.c.ref()); }); }
static R fsin(R a) { return sin(a); } static R fexp(R a) { return exp(a); } static R fsig(R a) { return R(1) / (R(1) + exp(-a)); }
static RM sigrow(const RM& a) { return mk(1, a.c, [&](size_t, size_t j) { R s(0); for (size_t i = 0; i < a.r; ++i) s += a(i, j); return s; }); }
static RM sigcol(const RM& a) { return mk(a.r, 1, [&](size_t i, size_t) { R s(0); for (size_t j = 0; j < a.c; ++j) s += a(i, j); return s; }); }
static RM vecR(const RM& a) { RM m(a.r * a.c, 1); m.v = a.v; return m; }
static R traceR(const RM& a) { R s(0); for (size_t i = 0; i < a.r; ++i) s += a(i, i); return s; }
static RM catv(const RM& a, const RM& b) { return mk(a.r + b.r, a.c, [&](size_t i, size_t j) { return i < a.r ? a(i, j) : b(i - a.r, j); }); }
static RM cath(const RM& a, const RM& b) { return mk(a.r, a.c + b.c, [&](size_t i, size_t j) { return j < a.c ? a(i, j) : b(i, j - a.c); }); }
static RM powR(const RM& a, int n) { RM m = eyeR(a.r); for (int i = 0; i < n; ++i) m = m * a; return m; }
static RM softall(const RM& a) { RM e = map(a, fexp); R t = sum(e); return mk(a.r, a.c, [&](size_t i, size_t j) { return e(i, j) / t; }); }
static RM softrow(const RM& a) { RM e = map(a, fexp), t = sigrow(e); return mk(a.r, a.c, [&](size_t i, size_t j) { return e(i, j) / t(0, j); }); }
static RM softcol(const RM& a) { RM e = map(a, fexp), t = sigcol(e); return mk(a.r, a.c, [&](size_t i, size_t j) { return e(i, j) / t(i, 0); }); }
static R detN(const RM& a) { R d = detR(a); if (MMODE != 1) assume_nonzero(d); return d; }
static RM convR(const RM& a, const RM& k, size_t sx = 1, size_t sy = 1, size_t px = 0, size_t py = 0) {
  size_t r = (a.r + 2 * px - k.r) / sx + 1, c = (a.c + 2 * py - k.c) / sy + 1;
  return mk(r, c, [&](size_t i, size_t j) { R s(0); for (size_t p = 0; p < k.r; ++p) for (size_t q = 0; q < k.c; ++q) {
    size_t x = i * sx + p, y = j * sy + q; if (x < px || y < py || x - px >= a.r || y - py >= a.c) continue; s += a(x - px, y - py) * k(p, q); } return s; });
}
static const Shapes SAME{{1, 1, 1, 1}, {1, 5, 1, 5}, {4, 1, 4, 1}, {4, 3, 4, 3}, {2, 6, 2, 6}, {4, 4, 4, 4}};
static const Shapes PROD{{1, 1, 1, 1}, {1, 5, 5, 1}, {4, 1, 1, 3}, {1, 4, 4, 3}, {3, 4, 4, 1}, {2, 5, 5, 3}, {4, 4, 4, 4}};
static const Shapes ONE{{1, 1, 1, 1}, {1, 5, 1, 1}, {5, 1, 1, 1}, {4, 3, 1, 1}, {2, 6, 1, 1}, {4, 4, 1, 1}};
static const Shapes FEW{{1, 1, 1, 1}, {1, 4, 1, 1}, {4, 1, 1, 1}, {3, 2, 1, 1}, {2, 4, 1, 1}};
static const Shapes SQR{{1, 1, 1, 1}, {4, 4, 1, 1}};
CASES() {
#if OPN == 1
  SB("A+B", SAME, A + B, a + b) SB("A-B", SAME, A - B, a - b) SB("A^B", SAME, A ^ B, had(a, b)) SB("A*B", PROD, A * B, a * b)
#elif OPN == 2
  SU("transpose", ONE, transpose(A), tr(a)) SU("vec", FEW, vec(A), vecR(a))
  SU("p*A", FEW, (Type)(2.5) * A, R(2.5) * a) SU("p-A", FEW, (Type)(3) - A, adds(R(-1) * a, R(3))) SU("A+p", FEW, A + (Type)(3), adds(a, R(3)))
#elif OPN == 3
  SQ("q*A", ONE, q * A, q * a) SQ("q+A", FEW, q + A, adds(a, q)) SQ("A/q", FEW, A / q, (R(1) / q) * a) SQ("A-q", FEW, A - q, adds(a, -q))
#elif OPN == 4
  SU("SinM", ONE, SinM(A), map(a, fsin)) SU("SigmoidM", FEW, SigmoidM(A), map(a, fsig))
#elif OPN == 5
#if MMODE == 1
  static const Shapes SM{{1, 1, 1, 1}, {2, 3, 1, 1}, {3, 2, 1, 1}, {1, 4, 1, 1}, {4, 1, 1, 1}};
#else
  static const Shapes SM{{1, 1, 1, 1}, {2, 2, 1, 1}, {1, 3, 1, 1}, {3, 1, 1, 1}};
#endif
  SU("SoftMax", SM, SoftMax(A), softall(a)) SU("SoftMax row", SM, SoftMax<Axis::ROW>(A), softrow(a)) SU("SoftMax column", SM, SoftMax<Axis::COLUMN>(A), softcol(a))
#elif OPN == 6
  SU("Sigma", ONE, Sigma(A), one1(sum(a))) SU("Sigma row", ONE, Sigma<Axis::ROW>(A), sigrow(a)) SU("Sigma column", ONE, Sigma<Axis::COLUMN>(A), sigcol(a))
  SU("trace", SQR, trace(A), one1(traceR(a))) SU("pow<2>", SQR, (pow<2>(A)), powR(a, 2)) { const Shapes S22{{1, 1, 1, 1}, {2, 2, 1, 1}}; SU("pow<5>", S22, (pow<5>(A)), powR(a, 5)) }
#if !defined(USE_COMPLEX_MATH)
  SU("Frobenius", FEW, MatrixFrobeniusNorm(A), one1(sqrt(sum(had(a, a)))))
#endif
#elif OPN == 7
  { const Shapes V{{1, 1, 1, 1}, {1, 3, 3, 3}, {3, 1, 1, 1}, {4, 2, 1, 2}}, H{{1, 1, 1, 1}, {3, 1, 3, 4}, {1, 4, 1, 1}, {2, 4, 2, 1}};
    SB("concat vertical", V, concat<ConcatAxis::VERTICAL>(A, B), catv(a, b)) SB("concat horizontal", H, concat<ConcatAxis::HORIZONTAL>(A, B), cath(a, b)) }
  { const Shapes C{{1, 1, 1, 1}, {5, 1, 1, 1}}, Q{{1, 1, 1, 1}, {1, 5, 1, 1}}, A1{{1, 1, 1, 1}};
    SU("broadcast column", C, broadcast<Axis::COLUMN>(A, 4), mk(a.r, 4, [&](size_t i, size_t) { return a(i, 0); })) SU("broadcast column 1", C, broadcast<Axis::COLUMN>(A, 1), a)
    SU("broadcast row", Q, broadcast<Axis::ROW>(A, 4), mk(4, a.c, [&](size_t, size_t j) { return a(0, j); })) SU("broadcast row 1", Q, broadcast<Axis::ROW>(A, 1), a)
    SU("broadcast all", A1, broadcast(A, 4), mk(4, 4, [&](size_t, size_t) { return a(0, 0); })) SU("broadcast all 1", A1, broadcast(A, 1), a) }
#elif OPN == 8
  { const Shapes S33{{3, 3, 1, 1}}, S11{{1, 1, 1, 1}}; SU("det", S11, det(A), one1(detN(a))) shapes("det:V", S33, [](MS& s) -> const auto& { return det(s.X); }, [](MS& s) { return one1(detN(s.x.ref())); }); SU("inv", S11, inv(A), invR(a)) SB("A%B", S11, A % B, a * invR(b)) }
#elif OPN == 9
#define SCONV(NAME, R1, C1, R2, C2, ...) { const Shapes S{{R1, C1, R2, C2}}; SB(NAME, S, conv(A, B, __VA_ARGS__), convR(a, b, __VA_ARGS__)) }
  SCONV("conv stride 2,2", 5, 5, 3, 3, 2, 2, 0, 0) SCONV("conv stride 2,3 pad 1,2", 4, 5, 2, 3, 2, 3, 1, 2) SCONV("conv stride 3,1 pad 2,1", 4, 3, 3, 2, 3, 1, 2, 1)
  SCONV("conv row", 1, 6, 1, 3, 1, 2, 0, 0) SCONV("conv column pad 2,0", 5, 1, 3, 1, 2, 1, 2, 0) SCONV("conv 1x1 kernel", 3, 4, 1, 1, 1, 1, 0, 0) SCONV("conv 1x1 kernel stride 2,2 pad 1,1", 3, 4, 1, 1, 2, 2, 1, 1) SCONV("conv full", 3, 4, 3, 4, 1, 1, 0, 0) SCONV("conv 1x1", 1, 1, 1, 1, 1, 1, 0, 0) SCONV("conv pad 2,2", 2, 2, 3, 3, 1, 1, 2, 2)
#endif
}
