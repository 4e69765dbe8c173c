// Gradients, Jacobians, Hessians and scalar-by-matrix derivatives of scalar expressions.
#include "prog.hpp"
namespace T2 = CoolDiff::TensorR2;

static void entry(const std::string& l, size_t r, size_t c, const Matrix<Type>& M) {
  truth(l + " dimensions", M.getNumRows() == r && M.getNumColumns() == c, std::to_string(M.getNumRows()) + "x" + std::to_string(M.getNumColumns()));
}
static std::string ij(size_t i, size_t j) { return "(" + std::to_string(i) + "," + std::to_string(j) + ")"; }
#define DIMS_OK(M, r, c) ((M).getNumRows() == (r) && (M).getNumColumns() == (c))

// everything about one expression and one list / matrix of variables
static void all_of(const std::string& what, Expression& e, R f, std::vector<Variable*> vs, std::vector<In> is, size_t rows, size_t cols) {
  const size_t n = vs.size();
  Vector<Variable> vec; for (auto* v : vs) vec.push_back(*v);
  Matrix<Variable> X(rows, cols); for (size_t k = 0; k < n; ++k) X[k] = *vs[k];
  if (what == "hessR") {
    auto& H = T2::HessianR(e, vec); entry("H", n, n, H);
    if (DIMS_OK(H, n, n)) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) eq("H" + ij(i, j), H(i, j), D(D(f, is[i]), is[j]));
  } else if (what == "hessRM") {
    auto& H = T2::HessianR(e, X); entry("H", n, n, H);
    if (DIMS_OK(H, n, n)) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) eq("H" + ij(i, j), H(i, j), D(D(f, is[i]), is[j]));
  } else if (what == "symhess" || what == "symhessM") {
    auto& H = what == "symhess" ? T2::SymHessian(e, vec) : T2::SymHessian(e, X);
    truth("dimensions", H.getNumRows() == n && H.getNumColumns() == n);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) eq("H" + ij(i, j), T1::Eval(H(i, j)), D(D(f, is[i]), is[j]));
    // the symbolic Hessian evaluated as a matrix expression
    auto& V = T2::Eval(H); entry("matrix value", n, n, V);
    if (DIMS_OK(V, n, n)) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) eq("V" + ij(i, j), V(i, j), D(D(f, is[i]), is[j]));
  } else if (what == "jac" || what == "jacM") {
    auto& J = what == "jac" ? T2::JacobianR(e, vec) : T2::JacobianR(e, X); entry("J", n, 1, J);
    if (DIMS_OK(J, n, 1)) for (size_t i = 0; i < n; ++i) eq("J" + ij(i, 0), J(i, 0), D(f, is[i]));
  } else if (what == "symgrad" || what == "symgradM") {
    auto& J = what == "symgrad" ? T2::SymGradient(e, vec) : T2::SymGradient(e, X);
    truth("dimensions", J.getNumRows() == n && J.getNumColumns() == 1);
    for (size_t i = 0; i < n; ++i) eq("J" + ij(i, 0), T1::Eval(J(i, 0)), D(f, is[i]));
  } else if (what == "symmat") {
    auto& J = T2::SymMatDiff(e, X);
    truth("dimensions", J.getNumRows() == rows && J.getNumColumns() == cols);
    for (size_t i = 0; i < n; ++i) eq("J[" + std::to_string(i) + "]", T1::Eval(J[i]), D(f, is[i]));
    // derivative of the symbolic derivative
    T1::PreComp(J[0]); for (size_t j = 0; j < n; ++j) eq("rev over sym " + ij(0, j), T1::DevalR(J[0], *vs[j]), D(D(f, is[0]), is[j]));
  } else if (what == "matF" || what == "matFp") {
    auto& J = T2::DevalF(e, X, what == "matF"); entry("J", rows, cols, J);
    if (DIMS_OK(J, rows, cols)) for (size_t i = 0; i < n; ++i) eq("J[" + std::to_string(i) + "]", J[i], D(f, is[i]));
  } else if (what == "matR") {
    auto& J = T2::DevalR(e, X); entry("J", rows, cols, J);
    if (DIMS_OK(J, rows, cols)) for (size_t i = 0; i < n; ++i) eq("J[" + std::to_string(i) + "]", J[i], D(f, is[i]));
  }
}
static const char* whats[] = {"hessR", "hessRM", "symhess", "symhessM", "jac", "jacM", "symgrad", "symgradM", "symmat", "matF", "matFp", "matR"};

CASES() {
  for (const char* wc : whats) {
    std::string w = wc;
    for (int i = 0; i < 30; ++i) {
      add_case((i < 6 ? "" : "T:") + ("tab:" + w + ":prog" + std::to_string(i)), [=] {
        Prog p(500 + i); p.build(3 + i % 4, is_complex ? 3 : 4);
        static const int sh[3][2] = {{1, 3}, {3, 1}, {2, 2}};
        size_t r = sh[i % 3][0], c = sh[i % 3][1];
        std::vector<Variable*> vs = {&p.vs[0], &p.vs[1], &p.vs[2]}; std::vector<In> is = {p.ix[0], p.ix[1], p.ix[2]};
        Variable u{p.tc}; In iu = in("u_unused");   // a variable the expression does not contain
        if (r * c == 4) { vs.insert(vs.begin() + 1, &u); is.insert(is.begin() + 1, iu); }
        all_of(w, p.ex.back(), p.val((int)p.ex.size() + 2), vs, is, r, c); no_errors("no error reported"); });
    }
    add_case("tab:" + w + ":x*y*y+z", [=] { Prog p(1); Expression e = p.vs[0] * p.vs[1] * p.vs[1] + p.vs[2] * p.P; R x = p.ix[0].r(), y = p.ix[1].r(), z = p.ix[2].r();
      all_of(w, e, x * y * y + z * p.ip.r(), {&p.vs[2], &p.vs[0], &p.vs[1]}, {p.ix[2], p.ix[0], p.ix[1]}, 3, 1); no_errors("no error reported"); });
    add_case("tab:" + w + ":single", [=] { Prog p(1); Expression e = p.vs[0] * p.vs[0] * p.vs[0] + p.P; R x = p.ix[0].r();
      all_of(w, e, x * x * x + p.ip.r(), {&p.vs[0]}, {p.ix[0]}, 1, 1); no_errors("no error reported"); });
    add_case("tab:" + w + ":sin(x*y)", [=] { Prog p(1); Expression W = p.vs[0] * p.vs[1]; Expression e = sin(W) * p.vs[2] - W; R x = p.ix[0].r(), y = p.ix[1].r(), z = p.ix[2].r();
      all_of(w, e, sin(x * y) * z - x * y, {&p.vs[1], &p.vs[0], &p.vs[2]}, {p.ix[1], p.ix[0], p.ix[2]}, 1, 3); no_errors("no error reported"); });
    // proper matrices whose entries all count differently
    for (int sh = 0; sh < 2; ++sh) add_case("tab:" + w + (sh ? ":2x3" : ":2x2"), [=] { size_t r = 2, c = sh ? 3 : 2, n = r * c; std::vector<In> is; std::vector<Variable> vb; vb.reserve(n); std::vector<Variable*> vs;
      for (size_t k = 0; k < n; ++k) { is.push_back(in("m" + std::to_string(k))); vb.emplace_back(is[k].t()); } for (auto& v : vb) vs.push_back(&v);
      auto R_ = [&](size_t k) { return is[k].r(); };
      Expression e = vb[0] * vb[1] * vb[2] + vb[1] * vb[3]; R f = R_(0) * R_(1) * R_(2) + R_(1) * R_(3);
      if (sh) { e = vb[0] * vb[1] * vb[2] + vb[1] * vb[3] * vb[3] - (Type)3 * vb[4] * vb[0] + vb[5] * vb[2]; f = f - R_(1) * R_(3) + R_(1) * R_(3) * R_(3) - R(3) * R_(4) * R_(0) + R_(5) * R_(2); }
      all_of(w, e, f, vs, is, r, c); no_errors("no error reported"); });
    // many variables
    add_case("tab:" + w + ":ten variables", [=] { const size_t n = 10; std::vector<In> is; std::deque<Variable> vb; std::vector<Variable*> vs;
      for (size_t k = 0; k < n; ++k) { is.push_back(in("m" + std::to_string(k))); vb.emplace_back(is[k].t()); } for (auto& v : vb) vs.push_back(&v);
      std::deque<Expression> t; Expression e = vb[9] * vb[9]; R f = is[9].r() * is[9].r();   // a sum of terms that are all different
      for (size_t k = 0; k < n; ++k) { size_t j = (k + 3) % n; t.emplace_back(); t.back() = (Type)(double(k) + 2) * vb[k] * vb[j]; f += R(double(k) + 2) * is[k].r() * is[j].r(); }
      Expression a = t[0] + t[1] + t[2] + t[3] + t[4], b = t[5] + t[6] + t[7] + t[8] + t[9]; Expression g = e + a + b;
      all_of(w, g, f, vs, is, 2, 5); no_errors("no error reported"); });
    // recursive definition
    if (w[0] != 's') add_case("tab:" + w + ":recursive", [=] { Prog p(1); Expression e = p.vs[0] * p.vs[1]; e = e * p.vs[0] + p.vs[2]; e = e + e * p.vs[1]; R x = p.ix[0].r(), y = p.ix[1].r(), z = p.ix[2].r();
      R f = x * y; f = f * x + z; f = f + f * y; if (w == "hessR" || w == "hessRM" || w == "matFp") return;
      all_of(w, e, f, {&p.vs[1], &p.vs[0], &p.vs[2]}, {p.ix[1], p.ix[0], p.ix[2]}, 1, 3); no_errors("no error reported"); });
    // history: asked again after the values changed
    add_case("tab:" + w + ":again", [=] { Prog p(1); Expression W = p.vs[0] + p.vs[1] * p.P; Expression e = W * W * p.vs[2] - p.vs[0];
      auto go = [&] { R x = p.ix[0].r(), y = p.ix[1].r(), z = p.ix[2].r(), W = x + y * p.ip.r(); all_of(w, e, W * W * z - x, {&p.vs[0], &p.vs[1], &p.vs[2]}, {p.ix[0], p.ix[1], p.ix[2]}, 3, 1); };
      go(); p.setvar(0); p.setpar(); go(); p.setvar(2); go(); no_errors("no error reported"); });
  }
  // histories over all ordered pairs of these functions: values change, another expression is swept, the expression is re-assigned
  for (const char* wa : whats) for (const char* wb : whats) {
    std::string w1 = wa, w2 = wb;
    add_case("hist:tab:" + w1 + ":" + w2, [=] { Prog p(1); Expression W = p.vs[0] + p.vs[1] * p.P; Expression e = W * W * p.vs[2] - p.vs[0]; Expression o = W * p.vs[1] - W; int def = 0;
      auto go = [&](const std::string& w, Expression& q, bool other) { R x = p.ix[0].r(), y = p.ix[1].r(), z = p.ix[2].r(), W = x + y * p.ip.r(); R f = other ? W * y - W : def ? z * W * y + x * x : W * W * z - x;
        all_of(w, q, f, {&p.vs[0], &p.vs[2], &p.vs[1]}, {p.ix[0], p.ix[2], p.ix[1]}, 3, 1); };
      go(w1, e, false); p.setvar(0); go(w2, e, false); go(w1, o, true); p.setpar(); go(w1, e, false); p.setvar(1);
      e = p.vs[2] * W * p.vs[1] + p.vs[0] * p.vs[0]; def = 1; go(w2, e, false); go(w2, o, true); p.setvar(2); go(w1, e, false); no_errors("no error reported"); });
  }
  // derivative of expression templates by a matrix of variables, serial and not
  for (int serial = 0; serial < 2; ++serial)
    add_case(std::string("tab:template:") + (serial ? "serial" : "parallel"), [=] {
      Prog p(1); Matrix<Variable> X(2, 1); X[0] = p.vs[1]; X[1] = p.vs[0];
      const auto& t = p.vs[0] * p.vs[1] + sin(p.vs[0]); auto& tt = const_cast<std::decay_t<decltype(t)>&>(t);
      auto& J = T2::DevalF(tt, X, serial); entry("J", 2, 1, J); R x = p.ix[0].r(), y = p.ix[1].r(); R f = x * y + sin(x);
      if (DIMS_OK(J, 2, 1)) { eq("J0", J[0], D(f, p.ix[1])); eq("J1", J[1], D(f, p.ix[0])); } });
}
