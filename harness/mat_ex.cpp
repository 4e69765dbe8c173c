// The programs the library ships as examples (Gauss-Newton solver, neural network trainer) and random initialisation,
// compiled from their own sources and run on symbolic data.
#include "mat_op.hpp"
#if OPN == 1
#include "GaussNewton/src/Oracle.cpp"
#include "GaussNewton/src/OracleScalar.cpp"
#include "GaussNewton/src/OracleMatrix.cpp"
#include "GaussNewton/src/GaussNewton.cpp"
#elif OPN == 2
#include <thread>
// the draws of the dropout masks are inputs as well
struct Draw { Type p; static inline int n = 0; Draw(Type q) : p(q) {} template <typename G> Type operator()(G&) { return in("draw" + std::to_string(n++)).t(); } };
#define BernoulliDistribution Draw
#include "NeuralNet/src/Layer.cpp"
#include "NeuralNet/include/NeuralNet.hpp"
#endif
template <typename T> struct Echo { T a, b; int n{0}; Echo(T x, T y) : a(x), b(y) {} template <typename G> T operator()(G&) { return (n++ % 2) ? b : a; } };
struct Echo1 { Type a; Echo1(Type x) : a(x) {} template <typename G> Type operator()(G&) { return a; } };

#if OPN == 1
// at the entry of a step every leading minor of J'J is positive (the precondition of the Cholesky solve); after it J'J (x_old - x_new) = J'f
static RM jac(const RM& f, const XM& x) { return mk(f.v.size(), x.in_.size(), [&](size_t i, size_t j) { return D(f.v[i], x.in_[j]); }); }
static void pre(const RM& f, const XM& x) { RM J = jac(f, x), A = tr(J) * J; for (size_t k = 1; k <= A.r; ++k) assume_pos(detR(mk(k, k, [&](size_t i, size_t j) { return A(i, j); }))); }
template <typename M> void post(const std::string& l, M& V, const RM& f, const XM& x) {
  RM J = jac(f, x), A = tr(J) * J, b = tr(J) * mk(f.v.size(), 1, [&](size_t i, size_t) { return f.v[i]; }), dx(x.in_.size(), 1);
  for (size_t i = 0; i < dx.r; ++i) dx.v[i] = x.in_[i].r() - as_ref(T1::Eval(V[i]));
  RM g = A * dx; for (size_t i = 0; i < g.r; ++i) eq(l + " normal equation " + std::to_string(i), (Type)0, g.v[i] - b.v[i]);
}
static GaussNewton solver(Oracle* o, size_t n) { GaussNewton gn; gn.setOracle(o).setMaxIterations(n); return gn; }
#endif
#if OPN == 2
// nets as a user writes them: one or two dense layers with a squared or a cross-entropy objective
struct Lin : NeuralNet<Lin> {
  BASE_CLASS_DEF(Lin)
  auto networkLayers(const size_t n) { auto l1 = X * transpose(W(0)) + transpose(broadcast<Axis::COLUMN>(b(0), n)); return std::make_tuple(l1); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = Sigma((Yp - Y) ^ (Yp - Y)); return e; }
};
struct Deep : NeuralNet<Deep> {
  BASE_CLASS_DEF(Deep)
  auto networkLayers(const size_t n) { auto l1 = SigmoidM(X * transpose(W(0)) + transpose(broadcast<Axis::COLUMN>(b(0), n))); auto l2 = l1 * transpose(W(1)) + transpose(broadcast<Axis::COLUMN>(b(1), n)); return std::make_tuple(l1, l2); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = Sigma((Yp - Y) ^ (Yp - Y)); return e; }
};
struct Clas : NeuralNet<Clas> {
  BASE_CLASS_DEF(Clas)
  auto networkLayers(const size_t n) { auto l1 = LeakyReLUM(X * transpose(W(0)) + transpose(broadcast<Axis::COLUMN>(b(0), n))); auto l2 = SoftMax<Axis::COLUMN>(l1); return std::make_tuple(l1, l2); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = -1 * Sigma(Y ^ LogM(Yp)); return e; }
};
struct Drop : NeuralNet<Drop> {
  BASE_CLASS_DEF(Drop)
  auto networkLayers(const size_t n) { auto l1 = Dropout(X * transpose(W(0)) + transpose(broadcast<Axis::COLUMN>(b(0), n)), (Type)0.25); auto l2 = Dropout(l1 * transpose(W(1)), (Type)0.5); return std::make_tuple(l1, l2); }
  template <typename Z> auto error(Z& net) { auto Yp = GetFinalLayer(net); Matrix<Expression> e = Sigma((Yp - Y) ^ (Yp - Y)); return e; }
};
template <typename T> void prepare(NeuralNet<T>& n, size_t b) { n.networkLayers(b); }
template <typename N> void weights(N& n, size_t k, const XM& w, const XM& b) { n.addLayer(Layer::LayerFactory::CreateLayer<Echo>(w.r, w.c, (Type)0, (Type)0)); w.setT(n.W(k)); b.setT(n.b(k)); }
static RM rows(const RM& m, size_t a, size_t n) { return mk(n, m.c, [&](size_t i, size_t j) { return m(a + i, j); }); }
static RM lin(const RM& X, const RM& W, const RM& b) { RM p = X * tr(W); return mk(p.r, p.c, [&](size_t i, size_t j) { return p(i, j) + b.v[j]; }); }
static RM step(const RM& w, R e, const XM& x, R al) { return mk(w.r, w.c, [&](size_t i, size_t j) { return w(i, j) + al * D(e, x(i, j)); }); }
static R sq(const RM& d) { return sum(had(d, d)); }
#endif
CASES() {
#if OPN == 1
  typedef Oracle::OracleFactory OF;
  for (int n = 1; n <= 2; ++n) add_case("gn:scalar:" + std::to_string(n), [n] { backend(true); XM x("x", 1, 1); Variable v(x.in_[0].t()); Expression F = v * v - 2 * v + in("k").t(); Matrix<Variable> X(1, 1); X(0, 0) = v; auto gn = solver(OF::CreateOracle(F, X), n);
    R t = x.in_[0].r(), k = in("k").r(); for (int i = 0; i < n; ++i) { assume_nonzero(R(2) * t - R(2)); t = t - (t * t - R(2) * t + k) / (R(2) * t - R(2)); } gn.solve(); eq("variable", T1::Eval(v), t); eq("X", T1::Eval(X[0]), t); eq("F", T1::Eval(F), t * t - R(2) * t + k); no_errors("no errors"); });
  add_case("gn:scalar:transcendental", [] { backend(true); XM x("x", 1, 1); Variable v(x.in_[0].t()); Expression F = exp(v) + sin(v) * v; Matrix<Variable> X(1, 1); X(0, 0) = v; auto gn = solver(OF::CreateOracle(F, X), 1); R t = x.in_[0].r(), f = exp(t) + sin(t) * t, d = D(f, x.in_[0]); assume_nonzero(d); gn.solve(); eq("variable", T1::Eval(v), t - f / d); no_errors("no errors"); });
  // fit a*u = w to two data rows, scalar oracle
  add_case("gn:scalar data", [] { backend(true); XM x("x", 1, 1), u("u", 2, 1), w("w", 2, 1); Matrix<Variable> X(1, 1); x.setV(X); Matrix<Parameter> PU(1, 1), PW(1, 1); Matrix<Type> U(2, 1), W(2, 1); u.setT(U); w.setT(W); Expression F = X[0] * PU[0] - PW[0] * X[0] * X[0]; GaussNewton gn; gn.setData(&U, &W).setOracle(OF::CreateOracle(F, X)).setDataParameters(&PU, &PW).setMaxIterations(1);
    RM f(2, 1), ur = u.ref(), wr = w.ref(); R t = x.in_[0].r(); for (int i = 0; i < 2; ++i) f.v[i] = t * ur.v[i] - wr.v[i] * t * t; pre(f, x); gn.solve(); post("step", X, f, x); eqm("data", U, ur); eqm("data", W, wr); no_errors("no errors"); });
  add_case("gn:system", [] { backend(true); XM x("x", 1, 2); Variable a(x.in_[0].t()), b(x.in_[1].t()); Matrix<Variable> X(1, 2); X(0, 0) = a; X(0, 1) = b; Matrix<Expression> F(2, 1); F(0, 0) = a * a + b * b - 20; F(1, 0) = a - b + 2; auto gn = solver(OF::CreateOracle(F, X), 1);
    RM f(2, 1); R p = x.in_[0].r(), q = x.in_[1].r(); f.v = {p * p + q * q - R(20), p - q + R(2)}; pre(f, x); gn.solve(); post("step", X, f, x); eq("a", T1::Eval(a), as_ref(T1::Eval(X[0]))); eq("b", T1::Eval(b), as_ref(T1::Eval(X[1]))); R p2 = as_ref(T1::Eval(a)), q2 = as_ref(T1::Eval(b)); RM g(2, 1); g.v = {p2 * p2 + q2 * q2 - R(20), p2 - q2 + R(2)}; eqm("F", T2::Eval(F), g); no_errors("no errors"); });
  add_case("gn:linear:repeated", [] { backend(true); XM x("x", 1, 2); Matrix<Variable> X(1, 2); x.setV(X); Matrix<Expression> F(2, 1); F(0, 0) = X[0] + 2 * X[1] - in("k").t(); F(1, 0) = X[0] - X[1] + 2; auto gn = solver(OF::CreateOracle(F, X), 2); gn.solve(); R k = in("k").r(), y = (k + R(2)) / R(3); eq("x", T1::Eval(X[0]), y - R(2)); eq("y", T1::Eval(X[1]), y);
    X[0] = in("x0@1").t(); gn.setMaxIterations(1).solve(); eq("x", T1::Eval(X[0]), y - R(2)); eq("y", T1::Eval(X[1]), y); no_errors("no errors"); });
  add_case("gn:overdetermined", [] { backend(true); XM x("x", 1, 2), d("d", 3, 1); Matrix<Variable> X(1, 2); x.setV(X); Matrix<Type> Dm(3, 1); d.setT(Dm); Matrix<Expression> F(3, 1); F[0] = X[0] * X[1]; F[1] = X[0] - X[1]; F[2] = 3 * X[1]; Matrix<Expression> G = F - Dm; auto gn = solver(OF::CreateOracle(G, X), 1);
    RM f(3, 1); R p = x.in_[0].r(), q = x.in_[1].r(); f.v = {p * q - d.in_[0].r(), p - q - d.in_[1].r(), R(3) * q - d.in_[2].r()}; pre(f, x); gn.solve(); post("step", X, f, x); no_errors("no errors"); });
  // similarity transform and translation between two point sets (the shipped 2d matching problem, with cos and sin of the angle as unknowns; view of the translation)
  for (int n = 2; n <= 3; ++n) add_case("gn:matching:" + std::to_string(n), [n] { backend(true); XM v("v", 1, 4), y("y", n, 2); Matrix<Variable> V(1, 4); v.setV(V); Matrix<Variable> t(2, 1, V.getMatrixPtr() + 2); Matrix<Expression> Rm(2, 2); Rm(0, 0) = V[0] + 0; Rm(0, 1) = V[1] + 0; Rm(1, 0) = -V[1]; Rm(1, 1) = V[0] + 0;
    Matrix<Parameter> PX(2, 1), PY(2, 1); Matrix<Expression> J = (PY - (Rm * PX + t)); Matrix<Type> X(n, 2), Y(n, 2); y.setT(Y); RM xr(n, 2); for (int i = 0; i < 2 * n; ++i) { double c = (i * 5 % 7) - 2; X[i] = c; xr.v[i] = R(c); }
    GaussNewton gn; gn.setData(&X, &Y).setOracle(OF::CreateOracle(J, V)).setDataParameters(&PX, &PY).setMaxIterations(1); RM f(2 * n, 1); R c = v.in_[0].r(), s = v.in_[1].r(); for (int i = 0; i < n; ++i) { f.v[2 * i] = y.ref()(i, 0) - (c * xr(i, 0) + s * xr(i, 1) + v.in_[2].r()); f.v[2 * i + 1] = y.ref()(i, 1) - (-s * xr(i, 0) + c * xr(i, 1) + v.in_[3].r()); }
    gn.solve(); post("step", V, f, v); eq("view", T1::Eval(t[0]), as_ref(T1::Eval(V[2]))); eqm("data", Y, y.ref()); no_errors("no errors"); });
  // the same with an angle: the residuals and the Jacobian the solver is given for every data row
  add_case("oracle:matching", [] { backend(true); XM v("v", 1, 3), px("px", 2, 1), py("py", 2, 1); Matrix<Variable> V(1, 3); v.setV(V); Matrix<Variable> t(2, 1, V.getMatrixPtr() + 1); Matrix<Expression> Rm(2, 2); Rm(0, 0) = cos(V[0]); Rm(0, 1) = sin(V[0]); Rm(1, 0) = -sin(V[0]); Rm(1, 1) = cos(V[0]); Matrix<Parameter> PX(2, 1), PY(2, 1); Matrix<Expression> J = (PY - (Rm * PX + t)); auto o = OF::CreateOracle(J, V);
    for (int k = 0; k < 2; ++k) { if (k) { px.in_[0] = in("px0@1"); v.in_[0] = in("v0@1"); v.in_[2] = in("v2@1"); V[0] = v.in_[0].t(); V[2] = v.in_[2].t(); } for (int i = 0; i < 2; ++i) { PX[i] = px.in_[i].t(); PY[i] = py.in_[i].t(); } R c = cos(v.in_[0].r()), s = sin(v.in_[0].r()); RM f(2, 1), p = px.ref(), q = py.ref(); f.v = {q.v[0] - (c * p.v[0] + s * p.v[1] + v.in_[1].r()), q.v[1] - (-s * p.v[0] + c * p.v[1] + v.in_[2].r())}; eqm("value", *o->evalMat(), f); eqF("jacobian", *o->jacobian(), f, v); } no_errors("no errors"); });
  // n variables; the Hessian of more than one variable is a case of its own
  auto scalar_oracle = [](int n, bool hess) { return [=] { backend(true); XM x("x", 1, n); Matrix<Variable> X(1, n); x.setV(X); Variable w(in("v1").t()), u(in("v2").t()); In iw = in("v1"), iu = in("v2"); Variable &Y = n > 1 ? X[1] : w, &Z = n > 1 ? X[2] : u;
    Expression F = X[0] * Y * Y + sin(X[0]) * Z + exp(Y * Z); OracleScalar* o = static_cast<OracleScalar*>(OF::CreateOracle(F, X)); no_errors("created");
    for (int k = 0; k < 2; ++k) { if (k) { x.in_[n - 1] = in("x@1"); X[n - 1] = x.in_[n - 1].t(); } In ib = n > 1 ? x.in_[1] : iw, ic = n > 1 ? x.in_[2] : iu; R a = x.in_[0].r(), b = ib.r(), c = ic.r(), f = a * b * b + sin(a) * c + exp(b * c); eq("value", o->eval(), f);
      RM g(1, n), h(n, n); for (int i = 0; i < n; ++i) { g.v[i] = D(f, x.in_[i]); for (int j = 0; j < n; ++j) h(i, j) = D(g.v[i], x.in_[j]); } eqm("jacobian", *o->jacobian(), g); if (hess) for (int m = 0; m < 2; ++m) eqm("hessian", *o->hessian(), h); eqm("jacobian again", *o->jacobian(), g); truth("size", o->getVariableSize() == (size_t)n); } }; };
  add_case("oracle:jacobian", scalar_oracle(3, false)); add_case("oracle:hessian of one variable", scalar_oracle(1, true)); add_case("oracle:hessian of three variables", scalar_oracle(3, true));
#endif
#if OPN == 2
  for (int rows_ = 1; rows_ <= 2; ++rows_) for (int bat = 1; bat <= rows_; ++bat) add_case("nn:linear:" + std::to_string(rows_) + "/" + std::to_string(bat), [=] { backend(true); XM w("w", 1, 1), b("b", 1, 1), x("x", rows_, 1), y("y", rows_, 1); Lin n({1, 1}); weights(n, 0, w, b); Matrix<Type> Xd(rows_, 1), Yd(rows_, 1); x.setT(Xd); y.setT(Yd); prepare(n, bat); n.train(Xd, Yd, in("rate").t(), 1, false, false);
    R W = w.in_[0].r(), B = b.in_[0].r(), al = in("rate").r() / R(bat); for (int j = 0; j < rows_; j += bat) { R gw(0), gb(0); for (int i = j; i < j + bat; ++i) { R d = W * x.in_[i].r() + B - y.in_[i].r(); gw += R(2) * d * x.in_[i].r(); gb += R(2) * d; } W = W + al * gw; B = B + al * gb; } eq("W", n.W(0)[0], W); eq("b", n.b(0)[0], B); eqm("data", Xd, x.ref()); eqm("data", Yd, y.ref()); no_errors("no errors"); });
  // 3 rows, batches of 2: the last batch is moved back to fit
  add_case("nn:last batch", [] { backend(true); XM w("w", 1, 1), b("b", 1, 1), y("y", 3, 1); double xv[] = {1, -2, 3}; Lin n({1, 1}); weights(n, 0, w, b); Matrix<Type> Xd(3, 1), Yd(3, 1); for (int i = 0; i < 3; ++i) Xd[i] = xv[i]; y.setT(Yd); prepare(n, 2); n.train(Xd, Yd, -0.5, 1, false, false); R W = w.in_[0].r(), B = b.in_[0].r(), al = R(-0.25); for (int j = 0; j < 2; ++j) { R gw(0), gb(0); for (int i = j; i < j + 2; ++i) { R d = W * R(xv[i]) + B - y.in_[i].r(); gw += R(2) * d * R(xv[i]); gb += R(2) * d; } W = W + al * gw; B = B + al * gb; } eq("W", n.W(0)[0], W); eq("b", n.b(0)[0], B); no_errors("no errors"); });
  add_case("nn:epochs", [] { backend(true); XM w("w", 1, 1), b("b", 1, 1), x("x", 1, 1), y("y", 1, 1); Lin n({1, 1}); weights(n, 0, w, b); Matrix<Type> Xd(1, 1), Yd(1, 1); x.setT(Xd); y.setT(Yd); prepare(n, 1); n.train(Xd, Yd, -0.5, 2, false, false); n.train(Xd, Yd, 0.25, 1, false, false); R W = w.in_[0].r(), B = b.in_[0].r(); for (double r : {-0.5, -0.5, 0.25}) { R d = W * x.in_[0].r() + B - y.in_[0].r(); W = W + R(r) * R(2) * d * x.in_[0].r(); B = B + R(r) * R(2) * d; } eq("W", n.W(0)[0], W); eq("b", n.b(0)[0], B); no_errors("no errors"); });
  add_case("nn:dense", [] { backend(true); XM w("w", 2, 3), b("b", 2, 1), x("x", 2, 3), y("y", 2, 2); Lin n({3, 2}); weights(n, 0, w, b); Matrix<Type> Xd(2, 3), Yd(2, 2); x.setT(Xd); y.setT(Yd); prepare(n, 2); n.train(Xd, Yd, in("rate").t(), 1, false, false); R e = sq(lin(x.ref(), w.ref(), b.ref()) - y.ref()); R al = in("rate").r() / R(2); eqm("W", n.W(0), step(w.ref(), e, w, al)); eqm("b", n.b(0), step(b.ref(), e, b, al)); no_errors("no errors"); });
  for (int be = 0; be < 2; ++be) add_case(std::string("nn:deep:") + (be ? "eigen" : "naive"), [be] { backend(be); XM w("w", 2, 2), b("b", 2, 1), u("u", 1, 2), c("c", 1, 1), x("x", 2, 2), y("y", 2, 1); Deep n({2, 1}); weights(n, 0, w, b); weights(n, 1, u, c); Matrix<Type> Xd(2, 2), Yd(2, 1); x.setT(Xd); y.setT(Yd); prepare(n, 2); n.train(Xd, Yd, in("rate").t(), 1, false, false);
    RM h = map(lin(x.ref(), w.ref(), b.ref()), [](R t) { return R(1) / (R(1) + exp(-t)); }); R e = sq(lin(h, u.ref(), c.ref()) - y.ref()), al = in("rate").r() / R(2); eqm("W0", n.W(0), step(w.ref(), e, w, al)); eqm("b0", n.b(0), step(b.ref(), e, b, al)); eqm("W1", n.W(1), step(u.ref(), e, u, al)); eqm("b1", n.b(1), step(c.ref(), e, c, al)); no_errors("no errors"); });
  // a new gradient step from fresh weights and data in the same network: nothing of the previous step is left
  add_case("nn:again", [] { backend(true); XM w("w", 1, 2), b("b", 1, 1), x("x", 1, 2), y("y", 1, 1); Lin n({2, 1}); weights(n, 0, w, b); Matrix<Type> Xd(1, 2), Yd(1, 1); prepare(n, 1); for (int k = 0; k < 2; ++k) { if (k) { w = XM("w@", 1, 2); b = XM("b@", 1, 1); w.setT(n.W(0)); b.setT(n.b(0)); x.in_[1] = in("x1@1"); } x.setT(Xd); y.setT(Yd); n.train(Xd, Yd, in("rate").t(), 1, false, false); R e = sq(lin(x.ref(), w.ref(), b.ref()) - y.ref()), al = in("rate").r(); eqm("W", n.W(0), step(w.ref(), e, w, al)); eqm("b", n.b(0), step(b.ref(), e, b, al)); } no_errors("no errors"); });
  add_case("nn:dropout", [] { backend(true); Draw::n = 0; XM w("w", 2, 1), b("b", 2, 1), u("u", 1, 2), c("c", 1, 1), x("x", 1, 1), y("y", 1, 1); Drop n({1, 1}); weights(n, 0, w, b); weights(n, 1, u, c); Matrix<Type> Xd(1, 1), Yd(1, 1); x.setT(Xd); y.setT(Yd); prepare(n, 1); n.train(Xd, Yd, in("rate").t(), 1, false, false);
    RM m(1, 2), q(1, 1); for (int i = 0; i < 2; ++i) m.v[i] = in("draw" + std::to_string(i)).r() / R(0.75); q.v[0] = in("draw2").r() / R(0.5); RM h = had(m, lin(x.ref(), w.ref(), b.ref())); R e = sq(had(q, h * tr(u.ref())) - y.ref()), al = in("rate").r(); eqm("W0", n.W(0), step(w.ref(), e, w, al)); eqm("b0", n.b(0), step(b.ref(), e, b, al)); eqm("W1", n.W(1), step(u.ref(), e, u, al)); eqm("b1", n.b(1), c.ref()); truth("draws", Draw::n == 3); no_errors("no errors"); });
  add_case("nn:classifier", [] { backend(true); XM w("w", 2, 1), b("b", 2, 1), x("x", 1, 1); Clas n({1, 2}); weights(n, 0, w, b); Matrix<Type> Xd(1, 1), Yd(1, 2); x.setT(Xd); Yd[0] = 1; Yd[1] = 0; prepare(n, 1); n.train(Xd, Yd, in("rate").t(), 1, false, false); RM l = lin(x.ref(), w.ref(), b.ref()); for (auto& q : l.v) { assume_nonzero(q); q = gt0(q) ? q : R(0.01) * q; } R e = R(-1) * log(exp(l.v[0]) / (exp(l.v[0]) + exp(l.v[1]))); eqm("W", n.W(0), step(w.ref(), e, w, in("rate").r())); eqm("b", n.b(0), step(b.ref(), e, b, in("rate").r())); no_errors("no errors"); });
#endif
#if OPN == 3
  for (int b = 0; b < 1; ++b) {
    add_case("fill:template", [] { Matrix<Type> M(2, 2), N(1, 3); T2::Details::FillRandomValues<Echo>(M, in("a").t(), in("b").t()); for (int i = 0; i < 4; ++i) eq("first" + std::to_string(i), M[i], i % 2 ? in("b").r() : in("a").r());
      T2::Details::FillRandomValues<Echo>(N, in("c").t(), in("d").t()); for (int i = 0; i < 3; ++i) eq("second" + std::to_string(i), N[i], i % 2 ? in("d").r() : in("c").r()); for (int i = 0; i < 4; ++i) eq("kept" + std::to_string(i), M[i], i % 2 ? in("b").r() : in("a").r()); no_errors("no errors"); });
    add_case("fill:class", [] { Matrix<Type> M(2, 2), N(1, 3); T2::Details::FillRandomValues<Echo1>(M, in("a").t()); for (int i = 0; i < 4; ++i) eq("first" + std::to_string(i), M[i], in("a").r()); T2::Details::FillRandomValues<Echo1>(N, in("c").t()); for (int i = 0; i < 3; ++i) eq("second" + std::to_string(i), N[i], in("c").r()); no_errors("no errors"); });
  }
#endif
}
