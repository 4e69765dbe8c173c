// Common parts of the matrix harnesses: reference matrices, symbolic operands of every kind,
// and the checks of values, forward derivative blocks and reverse gradients.
#pragma once
#include "vh.hpp"
#include <deque>
using namespace vh;
namespace T1 = CoolDiff::TensorR1;
namespace T2 = CoolDiff::TensorR2;
using Handler = CoolDiff::GlobalParameters::CPUHandlerType;
inline void backend(bool eigen) { CoolDiff::GlobalParameters::setCPUHandler(eigen ? Handler::EIGEN : Handler::NAIVE); }

struct RM {   // reference matrix
  size_t r{0}, c{0}; std::vector<R> v;
  RM() {}
  RM(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_, R(0)) {}
  R& operator()(size_t i, size_t j) { return v[i * c + j]; }
  const R& operator()(size_t i, size_t j) const { return v[i * c + j]; }
};
template <typename F> RM mk(size_t r, size_t c, F f) { RM m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(i, j) = f(i, j); return m; }
inline RM operator+(const RM& a, const RM& b) { return mk(a.r, a.c, [&](size_t i, size_t j) { return a(i, j) + b(i, j); }); }
inline RM operator-(const RM& a, const RM& b) { return mk(a.r, a.c, [&](size_t i, size_t j) { return a(i, j) - b(i, j); }); }
inline RM had(const RM& a, const RM& b) { return mk(a.r, a.c, [&](size_t i, size_t j) { return a(i, j) * b(i, j); }); }
inline RM operator*(const RM& a, const RM& b) { return mk(a.r, b.c, [&](size_t i, size_t j) { R s(0); for (size_t k = 0; k < a.c; ++k) s += a(i, k) * b(k, j); return s; }); }
inline RM operator*(R s, const RM& a) { return mk(a.r, a.c, [&](size_t i, size_t j) { return s * a(i, j); }); }
inline RM adds(const RM& a, R s) { return mk(a.r, a.c, [&](size_t i, size_t j) { return a(i, j) + s; }); }
inline RM tr(const RM& a) { return mk(a.c, a.r, [&](size_t i, size_t j) { return a(j, i); }); }
inline RM map(const RM& a, R (*f)(R)) { return mk(a.r, a.c, [&](size_t i, size_t j) { return f(a(i, j)); }); }
inline RM eyeR(size_t n) { return mk(n, n, [](size_t i, size_t j) { return R(i == j ? 1 : 0); }); }
inline R sum(const RM& a) { R s(0); for (auto& x : a.v) s += x; return s; }
inline RM one1(R x) { RM m(1, 1); m(0, 0) = x; return m; }
inline R detR(const RM& a) {
  if (a.r == 1) return a(0, 0);
  R s(0);
  for (size_t k = 0; k < a.r; ++k) {
    RM m(a.r - 1, a.r - 1); for (size_t i = 1; i < a.r; ++i) for (size_t j = 0, q = 0; j < a.r; ++j) if (j != k) m(i - 1, q++) = a(i, j);
    R t = a(0, k) * detR(m); if (k % 2) s -= t; else s += t;
  }
  return s;
}
inline RM minorR(const RM& a, size_t p, size_t q) { RM m(a.r - 1, a.r - 1); for (size_t i = 0, x = 0; i < a.r; ++i) if (i != p) { for (size_t j = 0, y = 0; j < a.r; ++j) if (j != q) m(x, y++) = a(i, j); ++x; } return m; }
inline RM invR(const RM& a) { R d = detR(a); if (a.r == 1) return one1(R(1) / d); return mk(a.r, a.r, [&](size_t i, size_t j) { R t = detR(minorR(a, j, i)); return ((i + j) % 2 ? -t : t) / d; }); }

struct XM {   // a matrix of inputs
  size_t r, c; std::vector<In> in_; std::string name;
  XM(const std::string& n, size_t r_, size_t c_) : r(r_), c(c_), name(n) { for (size_t k = 0; k < r * c; ++k) in_.push_back(in(n + std::to_string(k / c) + std::to_string(k % c))); }
  RM ref() const { RM m(r, c); for (size_t k = 0; k < r * c; ++k) m.v[k] = in_[k].r(); return m; }
  const In& operator()(size_t i, size_t j) const { return in_[i * c + j]; }
  void setT(Matrix<Type>& M) const { for (size_t k = 0; k < r * c; ++k) M[k] = in_[k].t(); }
  void setV(Matrix<Variable>& M) const { for (size_t k = 0; k < r * c; ++k) M[k] = in_[k].t(); }
};
inline std::string ij(size_t i, size_t j) { return "(" + std::to_string(i) + "," + std::to_string(j) + ")"; }

template <typename M> bool dims(const std::string& l, const M& m, size_t r, size_t c) {
  bool ok = m.getNumRows() == r && m.getNumColumns() == c;
  truth(l + " dimensions", ok, std::to_string(m.getNumRows()) + "x" + std::to_string(m.getNumColumns()) + " instead of " + std::to_string(r) + "x" + std::to_string(c));
  return ok;
}
inline void eqm(const std::string& l, const Matrix<Type>& m, const RM& f) {
  if (!dims(l, m, f.r, f.c)) return;
  for (size_t i = 0; i < f.r; ++i) for (size_t j = 0; j < f.c; ++j) eq(l + ij(i, j), m(i, j), f(i, j));
}
// forward derivative: block (l,k) of size of X holds the derivative of f(l,k)
inline void eqF(const std::string& l, const Matrix<Type>& m, const RM& f, const XM& x) {
  if (!dims(l, m, f.r * x.r, f.c * x.c)) return;
  for (size_t i = 0; i < f.r; ++i) for (size_t j = 0; j < f.c; ++j) for (size_t p = 0; p < x.r; ++p) for (size_t q = 0; q < x.c; ++q)
    eq(l + " f" + ij(i, j) + " by " + x.name + ij(p, q), m(i * x.r + p, j * x.c + q), D(f(i, j), x(p, q)));
}
inline void eqR(const std::string& l, const Matrix<Type>& m, R f, const XM& x) {
  if (!dims(l, m, x.r, x.c)) return;
  for (size_t p = 0; p < x.r; ++p) for (size_t q = 0; q < x.c; ++q) eq(l + " by " + x.name + ij(p, q), m(p, q), D(f, x(p, q)));
}
enum Mode { EVAL, FWD, REV };
inline const char* mode_name(int m) { static const char* n[] = {"eval", "fwd", "rev"}; return n[m]; }
