// The matrix arithmetic functions (MatOperators) and the element, row, column and block accessors,
// called directly: result matrices absent, stale, of another shape or size, or one of the operands.
#include "mat.hpp"
#ifndef BACK
#define BACK 1
#endif
#ifndef OPN
#define OPN 1
#endif
namespace MO = T2::MatOperators;
using MT = Matrix<Type>;
enum Res { NONE, STALE, SHAPE, SIZE, LEFT, RIGHT, NRES };
static const char* rn[] = {"new result", "reused result", "result of another shape", "result of another size", "result is the left operand", "result is the right operand"};

// elementwise: the result may be an operand
template <typename F, typename RF>
void prim2(const std::string& name, size_t r, size_t c, size_t r2, size_t c2, bool alias, F f, RF rf) {
  for (int k = 0; k < NRES; ++k) {
    if (k >= LEFT && !alias) continue;
    add_case("prim:" + name + ":" + std::to_string(r) + "x" + std::to_string(c) + ":" + rn[k], [=] {
      backend(BACK); XM a("a", r, c), b("b", r2, c2); MT A(r, c), B(r2, c2); a.setT(A); b.setT(B); RM e = rf(a.ref(), b.ref());
      MT S(e.r, e.c), H(e.r * e.c, 1), O(e.r + 1, e.c + 1); XM st("st", e.r, e.c), sh("sh", e.r * e.c, 1), so("so", e.r + 1, e.c + 1); st.setT(S); sh.setT(H); so.setT(O);
      MT* res = k == STALE ? &S : k == SHAPE ? &H : k == SIZE ? &O : k == LEFT ? &A : k == RIGHT ? &B : nullptr;
      f(&A, &B, res); eqm("result", *res, e);
      if (k != LEFT) eqm("left operand", A, a.ref()); if (k != RIGHT) eqm("right operand", B, b.ref()); if (k == SIZE) eqm("former result", O, so.ref());
      if (k != LEFT && k != RIGHT) { f(&A, &B, res); eqm("again", *res, e); b.in_[0] = in("b00@1"); B[0] = b.in_[0].t(); f(&A, &B, res); eqm("updated", *res, rf(a.ref(), b.ref())); }
      else { res = nullptr; f(&A, &B, res); eqm("afterwards", *res, k == LEFT ? rf(e, b.ref()) : rf(a.ref(), e)); }
      no_errors("no error reported"); });
  }
  if (r == r2 && c == c2) add_case("prim:" + name + ":" + std::to_string(r) + "x" + std::to_string(c) + ":same operand", [=] {
    backend(BACK); XM a("a", r, c); MT A(r, c); a.setT(A); MT* res = nullptr; f(&A, &A, res); eqm("result", *res, rf(a.ref(), a.ref())); no_errors("no error reported"); });
}
template <typename F, typename RF>
void prim1(const std::string& name, size_t r, size_t c, bool alias, F f, RF rf) {
  for (int k = 0; k < RIGHT; ++k) {
    if (k >= LEFT && !alias) continue;
    add_case("prim:" + name + ":" + std::to_string(r) + "x" + std::to_string(c) + ":" + rn[k], [=] {
      backend(BACK); XM a("a", r, c); MT A(r, c); a.setT(A); RM e = rf(a.ref());
      MT S(e.r, e.c), H(e.r * e.c, 1), O(e.r + 1, e.c + 1); XM st("st", e.r, e.c), sh("sh", e.r * e.c, 1), so("so", e.r + 1, e.c + 1); st.setT(S); sh.setT(H); so.setT(O);
      MT* res = k == STALE ? &S : k == SHAPE ? &H : k == SIZE ? &O : k == LEFT ? &A : nullptr;
      f(&A, res); eqm("result", *res, e);
      if (k != LEFT) { eqm("operand", A, a.ref()); a.in_[0] = in("a00@1"); A[0] = a.in_[0].t(); f(&A, res); eqm("updated", *res, rf(a.ref())); }
      if (k == SIZE) eqm("former result", O, so.ref());
      no_errors("no error reported"); });
  }
}
static RM kronR(const RM& a, const RM& b) { return mk(a.r * b.r, a.c * b.c, [&](size_t i, size_t j) { return a(i / b.r, j / b.c) * b(i % b.r, j % b.c); }); }
static RM dtR(const RM& a, size_t fr, size_t fc, size_t xr, size_t xc) { return mk(fc * xr, fr * xc, [&](size_t i, size_t j) { return a((j / xc) * xr + i % xr, (i / xr) * xc + j % xc); }); }
static RM rowR(const RM& a, size_t i) { RM m(a.c, 1); for (size_t k = 0; k < a.c; ++k) m.v[k] = a(i, k); return m; }

// accessors
template <typename T> void fill(Matrix<T>& M, const XM& x) { for (size_t k = 0; k < x.r * x.c; ++k) M[k] = x.in_[k].t(); }
static void eqv(const std::string& l, const MT& m, const std::vector<R>& v) {
  truth(l + " size", m.getNumElem() == v.size(), std::to_string(m.getNumElem())); if (m.getNumElem() != v.size()) return;
  for (size_t k = 0; k < v.size(); ++k) eq(l + "[" + std::to_string(k) + "]", m.getMatrixPtr()[k], v[k]);
}
static const std::pair<size_t, size_t> SHP[] = {{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 2}, {2, 4}, {4, 3}, {1, 4}};
CASES() {
#if OPN == 1
  for (auto s : {std::pair<size_t, size_t>{2, 3}, {3, 1}, {1, 1}, {1, 4}, {3, 3}}) {
    prim2("add", s.first, s.second, s.first, s.second, true, [](MT* a, MT* b, MT*& r) { MO::MatrixAdd(a, b, r); }, [](const RM& a, const RM& b) { return a + b; });
    prim2("sub", s.first, s.second, s.first, s.second, true, [](MT* a, MT* b, MT*& r) { MO::MatrixSub(a, b, r); }, [](const RM& a, const RM& b) { return a - b; });
    prim2("hadamard", s.first, s.second, s.first, s.second, true, [](MT* a, MT* b, MT*& r) { MO::MatrixHadamard(a, b, r); }, [](const RM& a, const RM& b) { return had(a, b); });
    prim2("scalar add", 1, 1, s.first, s.second, false, [](MT* a, MT* b, MT*& r) { MO::MatrixScalarAdd((*a)[0], b, r); }, [](const RM& a, const RM& b) { return adds(b, a(0, 0)); });
    prim2("scalar mul", 1, 1, s.first, s.second, false, [](MT* a, MT* b, MT*& r) { MO::MatrixScalarMul((*a)[0], b, r); }, [](const RM& a, const RM& b) { return a(0, 0) * b; });
    prim1("scalar add in place", s.first, s.second, true, [](MT* b, MT*& r) { Type v = in("k").t(); MO::MatrixScalarAdd(v, b, r); }, [](const RM& b) { return adds(b, in("k").r()); });
    prim1("scalar mul in place", s.first, s.second, true, [](MT* b, MT*& r) { Type v = in("k").t(); MO::MatrixScalarMul(v, b, r); }, [](const RM& b) { return in("k").r() * b; });
    prim1("unary", s.first, s.second, false, [](MT* b, MT*& r) { FunctionType f = [](Type t) { return t * t + t; }; MO::MatrixUnary(b, f, r); }, [](const RM& b) { return had(b, b) + b; });
    prim1("transpose", s.first, s.second, false, [](MT* b, MT*& r) { MO::MatrixTranspose(b, r); }, [](const RM& b) { return tr(b); });
  }
#elif OPN == 2
  for (auto s : {std::array<size_t, 3>{2, 3, 2}, {1, 3, 1}, {3, 1, 3}, {2, 2, 2}, {3, 2, 4}, {1, 1, 1}, {4, 4, 3}})
    prim2("mul", s[0], s[1], s[1], s[2], false, [](MT* a, MT* b, MT*& r) { MO::MatrixMul(a, b, r); }, [](const RM& a, const RM& b) { return a * b; });
  for (auto s : {std::array<size_t, 4>{2, 2, 2, 3}, {1, 2, 2, 1}, {2, 1, 1, 3}, {1, 1, 2, 2}, {2, 3, 1, 1}, {2, 3, 3, 2}, {3, 3, 2, 2}})
    prim2("kron", s[0], s[1], s[2], s[3], false, [](MT* a, MT* b, MT*& r) { MO::MatrixKron(a, b, r); }, [](const RM& a, const RM& b) { return kronR(a, b); });
  for (auto s : {std::array<size_t, 4>{2, 3, 2, 2}, {2, 3, 1, 3}, {3, 1, 2, 3}, {1, 2, 3, 1}, {2, 2, 2, 2}, {2, 2, 3, 1}})
    prim1("derivative transpose of " + std::to_string(s[0]) + "x" + std::to_string(s[1]) + " by " + std::to_string(s[2]) + "x" + std::to_string(s[3]), s[0] * s[2], s[1] * s[3], false, [s](MT* a, MT*& r) { MO::MatrixDervTranspose(s[0], s[1], s[2], s[3], a, r); }, [s](const RM& a) { return dtR(a, s[0], s[1], s[2], s[3]); });
  for (size_t n : {1, 2, 3, 4}) prim1("trace", n, n, false, [](MT* a, MT*& r) { MO::MatrixTrace(a, r); }, [](const RM& a) { R t(0); for (size_t i = 0; i < a.r; ++i) t += a(i, i); return one1(t); });
#if BACK == 1
  for (size_t n : {1, 2, 3}) prim1("det", n, n, false, [](MT* a, MT*& r) { MO::MatrixDet(a, r); }, [](const RM& a) { return one1(detR(a)); });
  for (size_t n : {1, 2}) prim1("inverse", n, n, false, [](MT* a, MT*& r) { MO::MatrixInverse(a, r); }, [](const RM& a) { return invR(a); });
#endif
#elif OPN == 3
  for (auto s : SHP) { size_t r = s.first, c = s.second; std::string t = std::to_string(r) + "x" + std::to_string(c);
    add_case("acc:elements:" + t, [=] { XM a("a", r, c); MT A(r, c); fill(A, a); const MT& K = A; RM f = a.ref();
      for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { eq("(i,j)" + ij(i, j), A(i, j), f(i, j)); eq("const (i,j)" + ij(i, j), K(i, j), f(i, j)); eq("[l]" + ij(i, j), K[i * c + j], f(i, j)); eq("row pointer" + ij(i, j), A.getRowPtr(i)[j], f(i, j)); }
      In w = in("w"); A(r - 1, c - 1) = w.t(); f(r - 1, c - 1) = w.r(); eqm("written", A, f); eqm("evaluated", T2::Eval(A), f);
      truth("elements", A.getNumElem() == r * c && A.getFinalNumElem() == r * c && A.getFinalNumRows() == r && A.getFinalNumColumns() == c); no_errors("no error reported"); });
    add_case("acc:rows and columns:" + t, [=] { XM a("a", r, c); MT A(r, c); fill(A, a); RM f = a.ref();
      for (size_t i = 0; i < r; ++i) { std::vector<R> v; for (size_t j = 0; j < c; ++j) v.push_back(f(i, j)); eqv("row " + std::to_string(i), A.getRow(i), v); MT B(r, c); fill(B, a); eqv("moved row " + std::to_string(i), std::move(B).getRow(i), v); }
      for (size_t j = 0; j < c; ++j) { std::vector<R> v; for (size_t i = 0; i < r; ++i) v.push_back(f(i, j)); eqv("column " + std::to_string(j), A.getColumn(j), v); MT B(r, c); fill(B, a); eqv("moved column " + std::to_string(j), std::move(B).getColumn(j), v); }
      Matrix<Variable> V(r, c); fill(V, a); for (size_t j = 0; j < c; ++j) { auto C = V.getColumn(j); XM x("x", r, c); x.in_ = a.in_; RM g(r, 1); for (size_t i = 0; i < r; ++i) g.v[i] = f(i, j); eqm("variables of column", T2::Eval(C), g); eqF("their derivative", T2::DevalF(C, V), g, x); }
      eqm("matrix unchanged", A, f); no_errors("no error reported"); });
    add_case("acc:blocks:" + t, [=] { XM a("a", r, c); MT A(r, c); fill(A, a); RM f = a.ref(); int n = 0; MT* res = nullptr;
      for (size_t i = 0; i < r; ++i) for (size_t p = i; p < r; ++p) for (size_t j = 0; j < c; ++j) for (size_t q = j; q < c; ++q) { std::string l = "block " + ij(i, j) + ij(p, q);
        RM b = mk(p - i + 1, q - j + 1, [&](size_t x, size_t y) { return f(i + x, j + y); }); MT* own = nullptr; A.getBlockMat({i, p}, {j, q}, own); eqm(l, *own, b); A.getBlockMat({i, p}, {j, q}, res); eqm(l + " reused", *res, b);
        MT T(r, c); fill(T, a); XM w("w" + std::to_string(n++) + "_", b.r, b.c); MT W(b.r, b.c); fill(W, w); T.setBlockMat({i, p}, {j, q}, &W); RM g = f; for (size_t x = 0; x < b.r; ++x) for (size_t y = 0; y < b.c; ++y) g(i + x, j + y) = w.ref()(x, y); eqm("set " + l, T, g); }
      eqm("matrix unchanged", A, f); no_errors("no error reported"); });
    add_case("acc:pad:" + t, [=] { XM a("a", r, c); MT A(r, c); fill(A, a); RM f = a.ref(); MT* res = nullptr; 
      for (size_t p = 0; p < 3; ++p) for (size_t q = 0; q < 3; ++q) { RM g = mk(r + 2 * p, c + 2 * q, [&](size_t i, size_t j) { return i >= p && i < p + r && j >= q && j < q + c ? f(i - p, j - q) : R(0); }); MT* own = nullptr; A.pad(p, q, own); eqm("pad " + ij(p, q), *own, g); A.pad(p, q, res); eqm("pad reused " + ij(p, q), *res, g);
        XM st("st", g.r, g.c); MT S(g.r, g.c); fill(S, st); MT* sp = &S; A.pad(p, q, sp); eqm("pad stale " + ij(p, q), *sp, g); }
      no_errors("no error reported"); });
    add_case("acc:reshape and copy:" + t, [=] { XM a("a", r, c); MT A(r, c); fill(A, a); RM f = a.ref(); RM g(c, r); g.v = f.v; A.reshape(c, r); eqm("reshaped", A, g); g = RM(1, r * c); g.v = f.v; A.reshape(1, r * c); eqm("row", A, g);
      MT B(r, c); B.copyData(A); eqm("copied", B, f); XM b("b", r, c); std::vector<Type> raw; for (auto& i : b.in_) raw.push_back(i.t()); B.copyData(raw.data()); eqm("from pointer", B, b.ref()); eqm("source", A, g);
      In v = in("v"); MT V(r, c, v.t()); eqm("filled", V, mk(r, c, [&](size_t, size_t) { return v.r(); })); MT Z0(r, c); eqm("zero initialised", Z0, RM(r, c));
      MT E(r, c, raw.data()); eqm("external", E, b.ref()); raw[0] = v.t(); RM eb = b.ref(); eb.v[0] = v.r(); eqm("external updated", E, eb); E[r * c - 1] = a.in_[0].t(); eq("written through", raw[r * c - 1], f.v[0]);
      std::vector<Type> raw2; for (auto& i : a.in_) raw2.push_back(i.t()); E.setMatrixPtr(raw2.data()); eqm("other external", E, f); no_errors("no error reported"); });
  }
  add_case("acc:constant matrices", [] { for (size_t n = 1; n < 5; ++n) for (size_t m = 1; m < 5; ++m) { auto a = "CPUMemoryStrategy"; std::string l = ij(n, m);
      eqm("zeros" + l, T2::MatrixBasics::ZerosRef(a, n, m), RM(n, m)); eqm("zeros*" + l, *T2::MatrixBasics::Zeros(a, n, m), RM(n, m)); eqm("ones" + l, T2::MatrixBasics::OnesRef(a, n, m), mk(n, m, [](size_t, size_t) { return R(1); })); eqm("ones*" + l, *T2::MatrixBasics::Ones(a, n, m), mk(n, m, [](size_t, size_t) { return R(1); }));
      if (n == m) { eqm("eye" + l, T2::MatrixBasics::EyeRef(a, n), eyeR(n)); eqm("eye*" + l, *T2::MatrixBasics::Eye(a, n), eyeR(n)); eqm("square zeros", T2::MatrixBasics::ZerosRef(a, n), RM(n, n)); eqm("square ones", *T2::MatrixBasics::Ones(a, n), mk(n, n, [](size_t, size_t) { return R(1); })); } }
    for (size_t n = 0, f = 1; n < 21; f *= ++n) truth("factorial " + std::to_string(n), CoolDiff::Common::Factorial(n) == f); no_errors("no error reported"); });
#endif
}
