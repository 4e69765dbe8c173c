// Matrix handles: copies, moves, assignments, re-assignments, matrices of expressions, parameters and views.
#include "mat_op.hpp"
template <typename E_> void chkE(const std::string& l, E_& e, const RM& f, MS& s) {   // every unnamed or named node: value and forward derivatives
  eqm(l + " value", T2::Eval(e), f); eqF(l + " D", T2::DevalF(e, s.X), f, s.x); eqF(l + " D", T2::DevalF(e, s.Y), f, s.y);
}
static void chkR(const std::string& l, Matrix<Expression>& e, R f, MS& s) { T2::PreComp(e); eqR(l + " G", T2::DevalR(e, s.X), f, s.x); eqR(l + " G", T2::DevalR(e, s.Y), f, s.y); eqR(l + " G", T2::DevalR(e, s.C), f, s.c); }
static void chkS(const std::string& l, Matrix<Expression>& e, R f, MS& s) { chkR(l, e, f, s); chkE(l, e, one1(f), s); chkR(l + " again", e, f, s); }
template <typename F> void kase(const std::string& n, F f, size_t r = 2, size_t c = 2, size_t r2 = 2, size_t c2 = 2) { add_case(n, [=] { MS s(r, c, r2, c2); f(s); done(); }); }
template <typename E_> void fin(const std::string& l, const E_& e, size_t r, size_t c) { truth(l + " final shape", e.getFinalNumRows() == r && e.getFinalNumColumns() == c && e.getFinalNumElem() == r * c, std::to_string(e.getFinalNumRows()) + "x" + std::to_string(e.getFinalNumColumns()) + ", " + std::to_string(e.getFinalNumElem()) + " entries"); }
static R q1(const RM& x, const RM& c) { return sum(had(x, had(x, c))); }

CASES() {
#if OPN == 1   // copies, moves, assignments
  kase("obj:copy of variables", [](MS& s) { Matrix<Variable> K = s.X; Matrix<Expression> e = K * s.C + s.X; RM f = s.x.ref() * s.c.ref() + s.x.ref(); chkE("e", e, f, s); eqF("by copy", T2::DevalF(e, K), f, s.x); chkE("copy", K, s.x.ref(), s);
    Matrix<Expression> g = Sigma(K ^ (s.X * s.C)); R h = sum(had(s.x.ref(), s.x.ref() * s.c.ref())); chkS("g", g, h, s); eqR("G by copy", T2::DevalR(g, K), h, s.x); });
  kase("obj:bare variables and their copies", [](MS& s) { RM f = s.x.ref(); Matrix<Variable> K = s.X; Matrix<Variable> L(3, 1); L = s.X; Matrix<Variable> Q = K; Matrix<Variable> M = std::move(Q);
    for (auto* a : {&s.X, &K, &L, &M}) for (auto* b : {&s.X, &K, &L, &M}) { eqm("value", T2::Eval(*a), f); eqF("fwd", T2::DevalF(*a, *b), f, s.x); eqF("fwd other", T2::DevalF(*a, s.Y), f, s.y); Matrix<Expression> e = *a; eqF("fwd handle", T2::DevalF(e, *b), f, s.x); } });
  kase("obj:copy of variables after use", [](MS& s) { Matrix<Expression> d = s.X * s.C; T2::Eval(d); T2::DevalF(d, s.X); T2::Eval(s.X); T2::DevalF(s.X, s.X); Matrix<Variable> K = s.X; chkE("copy", K, s.x.ref(), s); Matrix<Expression> e = s.C * K - K; chkE("e", e, s.c.ref() * s.x.ref() - s.x.ref(), s);
    eqm("value of the copy in use", T2::Eval(K), s.x.ref()); chkE("d", d, s.x.ref() * s.c.ref(), s); });
  kase("obj:assigned variables", [](MS& s) { Matrix<Variable> K(1, 3); K = s.X; chkE("copy", K, s.x.ref(), s); Matrix<Expression> e = K * s.X; chkE("e", e, s.x.ref() * s.x.ref(), s); eqF("by copy", T2::DevalF(e, K), s.x.ref() * s.x.ref(), s.x);
    Matrix<Expression> g = Sigma(s.X ^ (K * s.C)), g2 = Sigma(s.X * s.C), g3 = Sigma(K * s.C); R h = sum(had(s.x.ref(), s.x.ref() * s.c.ref())), h2 = sum(s.x.ref() * s.c.ref()); chkS("g", g, h, s); chkS("g2", g2, h2, s); chkS("g3", g3, h2, s); for (auto* k : {&K, &s.X}) { T2::PreComp(g); eqR("G by copy", T2::DevalR(g, *k), h, s.x); T2::PreComp(g2); eqR("G2 by copy", T2::DevalR(g2, *k), h2, s.x); T2::PreComp(g3); eqR("G3 by copy", T2::DevalR(g3, *k), h2, s.x); }
    Matrix<Variable> L(2, 2); XM l("l", 2, 2); l.setV(L); T2::Eval(L); T2::DevalF(L, s.X); L = s.X; chkE("reassigned", L, s.x.ref(), s); Matrix<Expression> q = Sigma((L * s.Y) ^ s.C); R u = sum(had(s.x.ref() * s.y.ref(), s.c.ref())); chkS("q", q, u, s); eqR("G by reassigned", T2::DevalR(q, L), u, s.x); T2::PreComp(g2); eqR("G2 by reassigned", T2::DevalR(g2, L), h2, s.x);
    K = s.Y; chkE("K = Y", K, s.y.ref(), s); h = sum(had(s.x.ref(), s.y.ref() * s.c.ref())); chkS("g after K = Y", g, h, s); eqR("G by K = Y", T2::DevalR(g, K), h, s.y); L = std::move(K); T2::PreComp(g2); eqR("G2 by moved Y", T2::DevalR(g2, L), h2, s.y); Matrix<Expression> z = Sigma(L * s.X); h = sum(s.y.ref() * s.x.ref()); chkS("z", z, h, s); eqR("z by moved", T2::DevalR(z, L), h, s.y); });
  kase("obj:moved variables", [](MS& s) { Matrix<Variable> M(2, 2); XM m("m", 2, 2); m.setV(M); Matrix<Variable> K = std::move(M); Matrix<Expression> e = K * s.X + K; RM f = m.ref() * s.x.ref() + m.ref(); chkE("e", e, f, s); eqF("by moved", T2::DevalF(e, K), f, m); Matrix<Expression> g = Sigma(K * s.X); chkS("g", g, sum(m.ref() * s.x.ref()), s); eqR("G by moved", T2::DevalR(g, K), sum(m.ref() * s.x.ref()), m);
    Matrix<Variable> L; L = std::move(K); Matrix<Expression> h = L ^ s.X; chkE("h", h, had(m.ref(), s.x.ref()), s); eqF("by moved twice", T2::DevalF(h, L), had(m.ref(), s.x.ref()), m); });
  kase("obj:copy of numbers", [](MS& s) { Matrix<Type> K = s.C; XM c0 = s.c; s.c.in_[0] = in("c00@1"); s.C[0] = s.c.in_[0].t(); eqm("copy keeps", K, c0.ref()); eqm("source changed", s.C, s.c.ref()); Matrix<Expression> e = K * s.X + s.C; chkE("e", e, c0.ref() * s.x.ref() + s.c.ref(), s);
    K[3] = in("k").t(); RM k = c0.ref(); k.v[3] = in("k").r(); chkE("after update of the copy", e, k * s.x.ref() + s.c.ref(), s); eqm("source", s.C, s.c.ref()); });
  kase("obj:copy of evaluated numbers", [](MS& s) { T2::Eval(s.C); T2::DevalF(s.C, s.X); Matrix<Type> K = s.C; chkE("copy", K, s.c.ref(), s); Matrix<Type> L(3, 1); L = s.C; chkE("assigned", L, s.c.ref(), s); Matrix<Type> Q = std::move(L); chkE("moved", Q, s.c.ref(), s); L = s.C; chkE("moved-from reused", L, s.c.ref(), s); Matrix<Expression> e = (K + Q) * s.X; chkE("e", e, (s.c.ref() + s.c.ref()) * s.x.ref(), s); });
  kase("obj:numbers from results", [](MS& s) { Matrix<Expression> e = s.X * s.C; Matrix<Type> v = T2::Eval(e); Matrix<Type> d = T2::DevalF(e, s.X); RM f = s.x.ref() * s.c.ref(); XM x0 = s.x; s.x.in_[0] = in("x00@1"); s.X[0] = s.x.in_[0].t(); chkE("e", e, s.x.ref() * s.c.ref(), s); eqm("kept value", v, f); eqF("kept derivative", d, f, x0);
    Matrix<Expression> g = v * s.X; eqm("g value", T2::Eval(g), f * s.x.ref()); v = T2::Eval(e); eqm("g value", T2::Eval(g), s.x.ref() * s.c.ref() * s.x.ref()); });
  kase("obj:copy of expression", [](MS& s) { Matrix<Expression> e = s.X * s.C; Matrix<Expression> k = e; RM f = s.x.ref() * s.c.ref(); chkE("copy", k, f, s); chkE("source", e, f, s); Matrix<Expression> g = k * e - k; chkE("g", g, f * f - f, s); Matrix<Expression> h; h = e; chkE("assigned", h, f, s); Matrix<Expression> h2; h2 = g; chkE("assigned 2", h2, f * f - f, s);
    s.x.in_[1] = in("x01@1"); s.X[1] = s.x.in_[1].t(); f = s.x.ref() * s.c.ref(); chkE("copy", k, f, s); chkE("assigned", h, f, s); chkE("g", g, f * f - f, s); });
  kase("obj:copy of evaluated expression", [](MS& s) { Matrix<Expression> e = s.X * s.C; RM f = s.x.ref() * s.c.ref(); T2::Eval(e); T2::DevalF(e, s.X); Matrix<Expression> k = e; chkE("copy", k, f, s); Matrix<Expression> g = s.C * k; T2::Eval(k); chkE("g", g, s.c.ref() * f, s); Matrix<Expression> a = Sigma(s.X * s.C); chkS("a", a, sum(f), s); Matrix<Expression> b = a; chkS("b", b, sum(f), s); Matrix<Expression> c = a * b + b; chkS("c", c, sum(f) * sum(f) + sum(f), s); });
  kase("obj:moved expression", [](MS& s) { Matrix<Expression> e = s.X * s.C; RM f = s.x.ref() * s.c.ref(); Matrix<Expression> k = std::move(e); chkE("moved", k, f, s); Matrix<Expression> m; m = std::move(k); chkE("assigned", m, f, s); Matrix<Expression> g = m ^ m; chkE("g", g, had(f, f), s);
    Matrix<Expression> a = Sigma(s.C ^ s.X); T2::Eval(a); T2::PreComp(a); Matrix<Expression> b = std::move(a); R h = sum(had(s.c.ref(), s.x.ref())); chkS("b", b, h, s); a = s.X * s.X; chkE("moved-from reused", a, s.x.ref() * s.x.ref(), s); chkS("b", b, h, s); });
  kase("obj:function results", [](MS& s) { auto mkE = [&] { Matrix<Expression> e = s.X * s.C; return e; }; auto mkS = [&] { Matrix<Expression> e = Sigma(s.X ^ s.C); return e; }; Matrix<Expression> e = mkE(), g = mkS(); chkE("e", e, s.x.ref() * s.c.ref(), s); chkS("g", g, sum(had(s.x.ref(), s.c.ref())), s);
    std::vector<Matrix<Expression>> v; for (int i = 0; i < 5; ++i) v.push_back(mkS()); for (int i = 0; i < 5; ++i) chkS("v" + std::to_string(i), v[i], sum(had(s.x.ref(), s.c.ref())), s); });
  kase("obj:nodes kept by auto", [](MS& s) { auto a = s.X * s.C; auto b = SinM(s.C ^ a); auto t = b; RM f = s.x.ref() * s.c.ref(), g = map(had(s.c.ref(), f), [](R q) { return sin(q); }); chkE("a", a, f, s); chkE("b", b, g, s); chkE("t", t, g, s); Matrix<Expression> e = Sigma(b + a); chkS("e", e, sum(g + f), s); Matrix<Expression> h = t * a; chkE("h", h, g * f, s); chkE("a", a, f, s); });
  kase("obj:tuple of nodes", [](MS& s) { auto net = [&] { auto l1 = s.X * transpose(s.C); auto l2 = l1 ^ l1; auto l3 = Sigma(l2 - l1); return std::make_tuple(l1, l2, l3); }(); RM f = s.x.ref() * tr(s.c.ref()), g = had(f, f); auto& l2 = std::get<1>(net); chkE("l2", l2, g, s); auto last = std::get<2>(net); Matrix<Expression> e = (Type)(-1) * last; chkS("e", e, R(-1) * sum(g - f), s); Matrix<Expression> e2 = e; chkS("e2", e2, R(-1) * sum(g - f), s);
    auto err = [&] { auto y = std::get<2>(net); Matrix<Expression> r = (Type)(2) * y; return r; }(); chkS("err", err, R(2) * sum(g - f), s); });
#elif OPN == 2   // re-assignment and recursion
  kase("reas:expression", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> e; e = s.X * s.C; chkE("1", e, x * c, s); e = s.C * s.X; chkE("2", e, c * x, s); e = SinM(s.X); chkE("3", e, map(x, [](R t) { return sin(t); }), s); e = s.X; chkE("4", e, x, s); e = s.Y; chkE("5", e, s.y.ref(), s); chkE("X", s.X, x, s); Matrix<Expression> g = s.X * s.Y; chkE("g", g, x * s.y.ref(), s); e = s.C; chkE("6", e, c, s); e = s.X; eqm("C", s.C, c); chkE("C", s.C, c, s); });
  kase("reas:other shape", [](MS& s) { RM x = s.x.ref(), y = s.y.ref(); Matrix<Expression> e; e = s.X * s.Y; chkE("1", e, x * y, s); e = transpose(s.X); chkE("2", e, tr(x), s); e = Sigma(s.X); chkE("3", e, one1(sum(x)), s); chkR("3", e, sum(x), s); e = s.X; chkE("4", e, x, s); e = s.Y * s.X; chkE("5", e, y * x, s); truth("rows", e.getFinalNumRows() == 3 && e.getFinalNumColumns() == 3); e = vec(s.X); chkE("6", e, mk(6, 1, [&](size_t i, size_t) { return x.v[i]; }), s); }, 2, 3, 3, 2);
  kase("reas:used elsewhere", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> n; n = s.X * s.C; Matrix<Expression> e = n + s.X; chkE("1", e, x * c + x, s); n = s.C - s.X; chkE("2", e, c, s); n = s.X; chkE("3", e, x + x, s); chkE("n", n, x, s); n = s.C; chkE("4", e, c + x, s); chkE("X", s.X, x, s); });
  kase("reas:shape is known at once", [](MS& s) { RM x = s.x.ref(), y = s.y.ref(); Matrix<Expression> e, g; e = s.X * s.Y; fin("XY", e, 2, 4); e = transpose(s.X); fin("X'", e, 3, 2); g = e; fin("copy", g, 3, 2); g = e * s.X; fin("X'X", g, 3, 3); g = g * s.Y; fin("X'XY", g, 3, 4); e = Sigma<Axis::ROW>(s.X); fin("row", e, 1, 3); e = e * s.Y; fin("row Y", e, 1, 4); chkE("row Y", e, mk(1, 4, [&](size_t, size_t j) { R t(0); for (size_t k = 0; k < 3; ++k) t += (x(0, k) + x(1, k)) * y(k, j); return t; }), s); fin("evaluated", e, 1, 4);
    Matrix<Expression> k; k = s.X; fin("variables", k, 2, 3); k = k * s.Y; fin("layers", k, 2, 4); Matrix<Expression> m; m = k; fin("nested", m, 2, 4); m = transpose(m); fin("nested", m, 4, 2); chkE("nested", m, tr(x * y), s); fin("X", s.X, 2, 3); fin("C", s.C, 2, 3); fin("result", T2::Eval(m), 4, 2); }, 2, 3, 3, 4);
  kase("reas:scalar", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> n; n = Sigma(s.X ^ s.C); Matrix<Expression> e = n * n + n; R f = sum(had(x, c)); chkS("1", e, f * f + f, s); n = Sigma(s.X * s.X); f = sum(x * x); chkS("2", e, f * f + f, s); chkS("n", n, f, s); n = trace(s.C * s.X); f = x(0, 0) * c(0, 0) + x(1, 0) * c(0, 1) + x(0, 1) * c(1, 0) + x(1, 1) * c(1, 1); chkS("3", e, f * f + f, s); });
  kase("recu:left operand", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> e; e = s.X; e = e * s.C; e = e + s.X; chkE("e", e, x * c + x, s); e = e ^ s.C; chkE("e2", e, had(x * c + x, c), s); chkE("again", e, had(x * c + x, c), s); e = e - s.Y; chkE("e3", e, had(x * c + x, c) - s.y.ref(), s); });
  kase("recu:right operand", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> e; e = s.X; e = s.C * e; chkE("e1", e, c * x, s); e = s.X - e; chkE("e", e, x - c * x, s); e = s.C ^ e; chkE("e2", e, had(c, x - c * x), s); e = s.Y + e; chkE("e3", e, had(c, x - c * x) + s.y.ref(), s); });
  kase("recu:both operands", [](MS& s) { RM x = s.x.ref(); Matrix<Expression> e; e = s.X; e = e * e; chkE("e", e, x * x, s); e = e - e * s.C; chkE("e2", e, x * x - x * x * s.c.ref(), s); e = e + e; RM f = x * x - x * x * s.c.ref(); chkE("e3", e, f + f, s); });
  kase("recu:loop", [](MS& s) { RM x = s.x.ref(), f = x; Matrix<Expression> e; e = s.X; for (int i = 0; i < 3; ++i) { e = e * s.C; f = f * s.c.ref(); } chkE("e", e, f, s); s.x.in_[0] = in("x00@1"); s.X[0] = s.x.in_[0].t(); f = s.x.ref(); for (int i = 0; i < 3; ++i) f = f * s.c.ref(); chkE("updated", e, f, s); e = s.X * s.Y; chkE("re-assigned", e, s.x.ref() * s.y.ref(), s); });
  kase("recu:scalars", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> e; e = s.X; e = (Type)(2) * e; chkE("e", e, R(2) * x, s); e = e + (Type)(3); chkE("e2", e, adds(R(2) * x, R(3)), s); e = s.vs * e; RM f = s.is.r() * adds(R(2) * x, R(3)); chkE("e3", e, f, s); e = e * s.P - s.vs; chkE("e4", e, adds(s.ip.r() * f, -s.is.r()), s); e = s.vs + e; chkE("e5", e, s.ip.r() * f, s); e = e / (s.vs * s.vs); chkE("e6", e, (R(1) / (s.is.r() * s.is.r())) * (s.ip.r() * f), s); });
  kase("recu:functions", [](MS& s) { RM x = s.x.ref(); Matrix<Expression> e; e = s.X * s.C; e = transpose(e); chkE("t", e, tr(x * s.c.ref()), s); e = ExpM(e); RM f = map(tr(x * s.c.ref()), [](R t) { return exp(t); }); chkE("exp", e, f, s); e = Sigma(e); chkE("sigma", e, one1(sum(f)), s); e = e * e; chkE("square", e, one1(sum(f) * sum(f)), s); });
  kase("recu:det and inverse", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); RM p = c * x; R d = detR(p); assume_nonzero(d); Matrix<Expression> e; e = s.C * s.X; e = det(e); eqm("det", T2::Eval(e), one1(d)); eqF("D", T2::DevalF(e, s.X), one1(d), s.x); Matrix<Expression> g; g = s.C * s.X; g = inv(g); eqm("inverse", T2::Eval(g), invR(p)); });
  kase("recu:shape changes", [](MS& s) { RM x = s.x.ref(), y = s.y.ref(); Matrix<Expression> e; e = s.X; e = e * s.Y; chkE("1", e, x * y, s); e = e * s.X; chkE("2", e, x * y * x, s); e = transpose(e); chkE("3", e, tr(x * y * x), s); e = vec(e); RM t = tr(x * y * x); chkE("4", e, mk(6, 1, [&](size_t i, size_t) { return t.v[i]; }), s); e = Sigma(e); chkE("5", e, one1(sum(t)), s); chkE("again", e, one1(sum(t)), s); }, 2, 3, 3, 2);
  kase("recu:shape changes, evaluated at the end", [](MS& s) { RM x = s.x.ref(), y = s.y.ref(); RM p = x * y;
    { Matrix<Expression> k; k = s.X; k = k * s.Y; k = k ^ k; fin("square", k, 2, 4); chkE("square", k, had(p, p), s); fin("square", k, 2, 4); }
    { Matrix<Expression> k; k = s.X; k = transpose(k); fin("transposed", k, 3, 2); k = k * s.X; k = k * s.Y; fin("X'XY", k, 3, 4); k = transpose(k); fin("(X'XY)'", k, 4, 3); chkE("(X'XY)'", k, tr(tr(x) * x * y), s); fin("(X'XY)'", k, 4, 3); chkE("again", k, tr(tr(x) * x * y), s); }
    { Matrix<Expression> k; k = s.X; k = transpose(k); chkE("transposed", k, tr(x), s); fin("transposed", k, 3, 2); Matrix<Expression> m; m = k; fin("nested", m, 3, 2); m = transpose(m); m = m + s.X; fin("nested", m, 2, 3); chkE("nested", m, x + x, s); fin("nested", m, 2, 3); }
    { Matrix<Expression> k; k = s.X; k = k * s.Y; k = Sigma<Axis::ROW>(k); fin("row", k, 1, 4); k = k * transpose(s.Y); fin("row Y'", k, 1, 3); k = transpose(k); k = s.X * k; fin("X Y row'", k, 2, 1); RM o(1, 2); o(0, 0) = R(1); o(0, 1) = R(1); chkE("X Y row'", k, x * tr(o * p * tr(y)), s); fin("X Y row'", k, 2, 1); } }, 2, 3, 3, 4);
  kase("recu:scalar from other shapes", [](MS& s) { RM x = s.x.ref(), y = s.y.ref(); RM p = x * y;
    { Matrix<Expression> k; k = s.X; k = k * s.Y; k = Sigma(k); fin("sum", k, 1, 1); chkE("sum", k, one1(sum(p)), s); }
    { Matrix<Expression> k; k = s.X; k = k * s.Y; k = k * k; k = trace(k); fin("trace", k, 1, 1); RM q = p * p; chkE("trace", k, one1(q(0, 0) + q(1, 1)), s); chkE("again", k, one1(q(0, 0) + q(1, 1)), s); }
    { Matrix<Expression> k; k = s.X; k = k * s.Y; k = transpose(k) * k; Matrix<Expression> e; e = Sigma(k ^ k); e = e * e; RM q = tr(p) * p; R f = sum(had(q, q)); fin("k", k, 2, 2); fin("e", e, 1, 1); chkE("e", e, one1(f * f), s); fin("k", k, 2, 2); } }, 2, 3, 3, 2);
  kase("recu:convolution", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> e; e = conv(s.X, s.C, 1, 1, 1, 1); e = conv(e, s.C, 1, 1, 0, 0); auto cv = [](const RM& a, const RM& k, int p) { return mk(a.r + 2 * p - k.r + 1, a.c + 2 * p - k.c + 1, [&](size_t i, size_t j) { R t(0); for (size_t m = 0; m < k.r; ++m) for (size_t n = 0; n < k.c; ++n) { int u = (int)(i + m) - p, v = (int)(j + n) - p; if (u >= 0 && v >= 0 && u < (int)a.r && v < (int)a.c) t += a(u, v) * k(m, n); } return t; }); };
    RM f = cv(cv(x, c, 1), c, 0); chkE("e", e, f, s); e = Sigma(e); chkE("sum", e, one1(sum(f)), s); });
  kase("recu:reverse", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); Matrix<Expression> e; e = Sigma(s.X ^ s.C); R f = sum(had(x, c)); e = e * e; chkS("square", e, f * f, s); e = e + Sigma(s.X * s.X); f = f * f + sum(x * x); chkS("sum", e, f, s); e = (Type)(3) * e; f = R(3) * f; chkS("scaled", e, f, s); e = SinM(e); chkS("sin", e, sin(f), s); });
  kase("recu:reverse sum", [](MS& s) { RM x = s.x.ref(), c = s.c.ref(); R f = q1(x, c); Matrix<Expression> e; e = Sigma(s.X ^ s.X ^ s.C); e = e - (Type)(2); chkS("1", e, f - R(2), s); e = trace(s.X) - e; f = x(0, 0) + x(1, 1) - (f - R(2)); chkS("2", e, f, s); e = s.vs * e; f = s.is.r() * f; chkS("3", e, f, s); s.x.in_[2] = in("x10@1"); s.X[2] = s.x.in_[2].t(); x = s.x.ref(); f = s.is.r() * (x(0, 0) + x(1, 1) - (q1(x, c) - R(2))); chkS("updated", e, f, s); });
#elif OPN == 3   // matrices with expressions, parameters and views
  kase("ent:expressions of entries", [](MS& s) { Matrix<Expression> N(2, 2); N(0, 0) = cos(s.X[0]); N(0, 1) = s.X[1] * s.X[2]; N(1, 0) = -sin(s.X[0]); N(1, 1) = s.X[3]; RM x = s.x.ref(), n(2, 2); n(0, 0) = cos(x.v[0]); n(0, 1) = x.v[1] * x.v[2]; n(1, 0) = -sin(x.v[0]); n(1, 1) = x.v[3];
    chkE("n", N, n, s); Matrix<Expression> e = N * s.C - s.X; chkE("e", e, n * s.c.ref() - s.x.ref(), s); Matrix<Expression> g = transpose(N) * N; chkE("g", g, tr(n) * n, s); Matrix<Expression> h = s.Y * (N ^ s.C); chkE("h", h, s.y.ref() * had(n, s.c.ref()), s);
    s.x.in_[0] = in("x00@1"); s.X[0] = s.x.in_[0].t(); n(0, 0) = cos(s.is.r()); x = s.x.ref(); n(0, 0) = cos(x.v[0]); n(1, 0) = -sin(x.v[0]); chkE("updated", e, n * s.c.ref() - x, s); chkE("n", N, n, s); });
  kase("ent:by row vector", [](MS& s) { Matrix<Variable> V(1, 3); XM v("v", 1, 3); v.setV(V); Variable a(in("a").t()); Matrix<Expression> N(2, 1); N(0, 0) = V[0] * V[0] + V[1] * a - 20; N(1, 0) = V[0] - V[2] * V[0] + 2; RM f(2, 1); RM w = v.ref(); f.v[0] = w.v[0] * w.v[0] + w.v[1] * in("a").r() - R(20); f.v[1] = w.v[0] - w.v[2] * w.v[0] + R(2);
    eqm("value", T2::Eval(N), f); eqF("D", T2::DevalF(N, V), f, v); Matrix<Variable> A(1, 1); A[0] = a; XM xa("a", 1, 1); xa.in_[0] = in("a"); eqF("D", T2::DevalF(N, A), f, xa); Matrix<Expression> e = s.C * N; eqF("D", T2::DevalF(e, V), s.c.ref() * f, v); eqF("D", T2::DevalF(e, A), s.c.ref() * f, xa); eqF("D", T2::DevalF(e, s.X), s.c.ref() * f, s.x); eqF("D again", T2::DevalF(e, V), s.c.ref() * f, v); });
  kase("ent:entry re-assigned", [](MS& s) { Matrix<Expression> N(1, 2); N[0] = s.X[0] * s.X[1]; N[1] = s.X[2]; RM x = s.x.ref(), n(1, 2); n.v[0] = x.v[0] * x.v[1]; n.v[1] = x.v[2]; Matrix<Expression> e = N * s.C; chkE("e", e, n * s.c.ref(), s); N[1] = sin(s.X[3]) * s.vs; n.v[1] = sin(x.v[3]) * s.is.r(); chkE("e", e, n * s.c.ref(), s); chkE("n", N, n, s); N[0] = s.Y[0]; n.v[0] = s.y.ref().v[0]; chkE("n", N, n, s); chkE("e", e, n * s.c.ref(), s); });
  kase("ent:shared sub-expression", [](MS& s) { Expression q = s.X[0] * s.X[3] + s.vs; R qr = s.x.ref().v[0] * s.x.ref().v[3] + s.is.r(); Matrix<Expression> N(2, 2); N[0] = q * q; N[1] = q; N[2] = q + s.X[1]; N[3] = sin(q); RM n(2, 2); n.v = {qr * qr, qr, qr + s.x.ref().v[1], sin(qr)}; chkE("n", N, n, s); Matrix<Expression> e = q * N; chkE("e", e, qr * n, s); XM t("s", 1, 1); t.in_[0] = s.is; Matrix<Variable> S(1, 1); S[0] = s.vs; eqF("by s", T2::DevalF(e, S), qr * n, t); });
  kase("ent:numbers and variables as entries", [](MS& s) { Matrix<Expression> N(2, 2); N[0] = s.X[0]; N[1] = s.vs; N[2] = s.P; N[3] = s.X[0] + s.P; RM n(2, 2), x = s.x.ref(); n.v = {x.v[0], s.is.r(), s.ip.r(), x.v[0] + s.ip.r()}; chkE("n", N, n, s); Matrix<Expression> e = N * N; chkE("e", e, n * n, s); });
  kase("par:parameters", [](MS& s) { Matrix<Parameter> Q(2, 2); XM q("q", 2, 2); for (int i = 0; i < 4; ++i) Q[i] = q.in_[i].t(); chkE("q", Q, q.ref(), s); Matrix<Expression> e = Q * s.X - (s.X ^ Q); chkE("e", e, q.ref() * s.x.ref() - had(s.x.ref(), q.ref()), s); q.in_[1] = in("q01@1"); Q[1] = q.in_[1].t(); chkE("updated", e, q.ref() * s.x.ref() - had(s.x.ref(), q.ref()), s); Matrix<Expression> g = Sigma(Q * s.X * s.X); chkS("g", g, sum(q.ref() * s.x.ref() * s.x.ref()), s); q.in_[3] = in("q11@1"); Q[3] = q.in_[3].t(); chkS("g updated", g, sum(q.ref() * s.x.ref() * s.x.ref()), s); chkE("q", Q, q.ref(), s); });
  kase("view:part of variables", [](MS& s) { Matrix<Variable> V(1, 3); XM v("v", 1, 3); v.setV(V); Matrix<Variable> t(2, 1, V.getMatrixPtr() + 1); RM w = v.ref(), tr_(2, 1); tr_.v = {w.v[1], w.v[2]}; Matrix<Expression> N(2, 2); N(0, 0) = cos(V[0]); N(0, 1) = sin(V[0]); N(1, 0) = -sin(V[0]); N(1, 1) = cos(V[0]); R c0 = cos(w.v[0]), s0 = sin(w.v[0]); RM n(2, 2); n.v = {c0, s0, -s0, c0};
    Matrix<Parameter> PX(2, 1), PY(2, 1); XM px("px", 2, 1), py("py", 2, 1); for (int i = 0; i < 2; ++i) { PX[i] = px.in_[i].t(); PY[i] = py.in_[i].t(); } Matrix<Expression> J = PY - (N * PX + t); RM f = py.ref() - (n * px.ref() + tr_); eqm("value", T2::Eval(J), f); eqF("D", T2::DevalF(J, V), f, v);
    for (int k = 0; k < 2; ++k) { std::string u = "@" + std::to_string(k); for (int i = 0; i < 2; ++i) { px.in_[i] = in("px" + std::to_string(i) + u); PX[i] = px.in_[i].t(); } for (int i = 0; i < 3; ++i) { v.in_[i] = in("v" + std::to_string(i) + u); V[i] = v.in_[i].t(); } w = v.ref(); tr_.v = {w.v[1], w.v[2]}; c0 = cos(w.v[0]); s0 = sin(w.v[0]); n.v = {c0, s0, -s0, c0}; f = py.ref() - (n * px.ref() + tr_); eqm("value" + u, T2::Eval(J), f); eqF("D" + u, T2::DevalF(J, V), f, v); }
    XM tx("t", 2, 1); tx.in_ = {v.in_[1], v.in_[2]}; eqF("by view", T2::DevalF(J, t), f, tx); eqF("D again", T2::DevalF(J, V), f, v); eqF("view", T2::DevalF(t, V), tr_, v); eqF("view by view", T2::DevalF(t, t), tr_, tx); eqF("view again", T2::DevalF(t, V), tr_, v); });
  kase("view:same variables, other shape", [](MS& s) { Matrix<Variable> K(1, 4, s.X.getMatrixPtr()); XM k("k", 1, 4); k.in_ = s.x.in_; Matrix<Expression> e = s.X * s.C + s.X; RM f = s.x.ref() * s.c.ref() + s.x.ref(); eqF("by X", T2::DevalF(e, s.X), f, s.x); eqF("by row", T2::DevalF(e, K), f, k); eqF("by X again", T2::DevalF(e, s.X), f, s.x); eqF("X by row", T2::DevalF(s.X, K), s.x.ref(), k); eqF("X by X", T2::DevalF(s.X, s.X), s.x.ref(), s.x);
    Matrix<Variable> P(2, 2); XM p("p", 2, 2); p.in_ = {s.x.in_[3], s.x.in_[0], s.y.in_[0], s.x.in_[1]}; P[0] = s.X[3]; P[1] = s.X[0]; P[2] = s.Y[0]; P[3] = s.X[1]; eqF("permuted", T2::DevalF(e, P), f, p); eqF("by X again", T2::DevalF(e, s.X), f, s.x); Matrix<Expression> g = P * s.X; RM h = p.ref() * s.x.ref(); eqF("g by P", T2::DevalF(g, P), h, p); eqF("g by X", T2::DevalF(g, s.X), h, s.x); eqF("P by X", T2::DevalF(P, s.X), p.ref(), s.x); eqF("P by P", T2::DevalF(P, P), p.ref(), p); });
  kase("view:external numbers", [](MS& s) { XM d("data", 4, 2); std::vector<Type> raw; for (auto& i : d.in_) raw.push_back(i.t()); Matrix<Type> B(2, 2, raw.data()); auto part = [&](size_t k) { return mk(2, 2, [&](size_t i, size_t j) { return d.in_[(k + i) * 2 + j].r(); }); };
    Matrix<Expression> e = B * s.X, g = Sigma((B * s.X) ^ (B * s.C)); for (size_t k = 0; k < 3; ++k) { B.setMatrixPtr(raw.data() + 2 * k); RM b = part(k); chkE("batch " + std::to_string(k), e, b * s.x.ref(), s); R f = sum(had(b * s.x.ref(), b * s.c.ref())); chkR("batch " + std::to_string(k), g, f, s); chkE("batch " + std::to_string(k), g, one1(f), s); }
    B = Matrix<Type>(2, 2, nullptr, "CPUMemoryStrategy"); B.setMatrixPtr(raw.data()); Matrix<Expression> h = transpose(B) * s.X; chkE("h", h, tr(part(0)) * s.x.ref(), s); });
  // gradient steps as in the neural network example: accumulate, scale and update number matrices in place
  kase("step:gradient descent", [](MS& s) { Matrix<Expression> err = (Type)(-1) * Sigma((s.X * s.C) ^ s.Dm) + Sigma(s.C ^ s.C); auto f = [&] { return R(-1) * sum(had(s.x.ref() * s.c.ref(), s.d.ref())) + sum(had(s.c.ref(), s.c.ref())); };
    Matrix<Type> G(2, 2); Matrix<Type>* g = &G; T2::Details::ResetZero(g); RM acc(2, 2); auto grad = [](R e, const XM& x) { return mk(x.r, x.c, [&](size_t i, size_t j) { return D(e, x(i, j)); }); };
    for (int k = 0; k < 2; ++k) { std::string u = "@" + std::to_string(k); s.x.in_[k] = in("x" + std::to_string(k) + u); s.X[k] = s.x.in_[k].t(); T2::PreComp(err); auto& dW = T2::DevalR(err, s.C); R e = f(); RM ge = grad(e, s.c); eqm("gradient" + u, dW, ge); T2::MatOperators::MatrixAdd(g, &dW, g); acc = acc + ge; eqm("accumulated" + u, G, acc); eqm("loss" + u, T2::Eval(err), one1(e)); }
    Type al = in("alpha").t(); Matrix<Type>* w = &s.C; T2::MatOperators::MatrixScalarMul(al, g, g); T2::MatOperators::MatrixAdd(w, g, w); RM nw = s.c.ref() + in("alpha").r() * acc; eqm("weights", s.C, nw);
    T2::Details::ResetZero(g); eqm("reset", G, RM(2, 2)); RM x = s.x.ref(); eqm("loss after", T2::Eval(err), one1(R(-1) * sum(had(x * nw, s.d.ref())) + sum(had(nw, nw)))); T2::PreComp(err); eqm("gradient after", T2::DevalR(err, s.C), R(-1) * (tr(x) * s.d.ref()) + R(2) * nw); });
#elif OPN == 4   // generated recursive updates with changing shapes, evaluated at the end or in between
  static const char* on[] = {"k*N", "N*k", "k'", "k^k", "k+N", "N-k", "row", "col", "kk'", "vec", "s*k", "sin", "X*k"};
  enum { NR = 13 };
  auto gen = [](std::string n, std::vector<int> ops, int mask) { for (int o : ops) n += std::string(":") + on[o]; n += "#" + std::to_string(mask);
    // shapes and cost, so that only conforming updates of a moderate size are generated
    size_t r = 2, c = 3, deg = 1; int sn = 0;
    for (int o : ops) switch (o) {
      case 0: c = c == 2 ? 3 : 2; break; case 1: r = r == 2 ? 3 : 2; break; case 2: std::swap(r, c); break; case 3: deg *= 2; break; case 6: r = 1; break; case 7: c = 1; break;
      case 8: c = r; deg *= 2; break; case 9: if (c == 1 || r * c > 6) return; r = r * c; c = 1; break; case 11: if (sn++ || deg > 1) return; break; case 12: if (r != 3) return; r = 2; ++deg; break; default: break; }
    if (deg > 4 || r * c > 9 || r > 6 || c > 6) return;
    kase(n, [=](MS& s) {
      RM x = s.x.ref(), f = x; std::deque<Matrix<Type>> N; auto num = [&](size_t a, size_t b) { XM q("n" + std::to_string(N.size()) + "_", a, b); N.emplace_back(a, b); q.setT(N.back()); return q.ref(); };
      Matrix<Expression> k; k = s.X;
      for (size_t i = 0; i < ops.size(); ++i) {
        if (i && (mask >> (i - 1) & 1)) { chkE("step " + std::to_string(i), k, f, s); fin("step " + std::to_string(i), k, f.r, f.c); }
        switch (ops[i]) {
          case 0: { RM q = num(f.c, f.c == 2 ? 3 : 2); k = k * N.back(); f = f * q; break; }
          case 1: { RM q = num(f.r == 2 ? 3 : 2, f.r); k = N.back() * k; f = q * f; break; }
          case 2: k = transpose(k); f = tr(f); break;
          case 3: k = k ^ k; f = had(f, f); break;
          case 4: { RM q = num(f.r, f.c); k = k + N.back(); f = f + q; break; }
          case 5: { RM q = num(f.r, f.c); k = N.back() - k; f = q - f; break; }
          case 6: k = Sigma<Axis::ROW>(k); f = mk(1, f.c, [&](size_t, size_t j) { R t(0); for (size_t a = 0; a < f.r; ++a) t += f(a, j); return t; }); break;
          case 7: k = Sigma<Axis::COLUMN>(k); f = mk(f.r, 1, [&](size_t a, size_t) { R t(0); for (size_t j = 0; j < f.c; ++j) t += f(a, j); return t; }); break;
          case 8: k = k * transpose(k); f = f * tr(f); break;
          case 9: { RM g = f; k = vec(k); f = mk(g.r * g.c, 1, [&](size_t a, size_t) { return g.v[a]; }); break; }
          case 10: k = s.vs * k; f = s.is.r() * f; break;
          case 11: k = SinM(k); f = map(f, [](R t) { return sin(t); }); break;
          case 12: k = s.X * k; f = x * f; break;
        }
        fin("step " + std::to_string(i) + " at once", k, f.r, f.c);
      }
      chkE("end", k, f, s); fin("end", k, f.r, f.c); chkE("again", k, f, s);
    }, 2, 3, 3, 2);
  };
  int cnt = 0;
  for (int a = 0; a < NR; ++a) for (int b = 0; b < NR; ++b) {
    gen("rg", {a, b}, 0); gen("rg", {a, b}, 1);
    for (int c = 0; c < NR; ++c) { int u = cnt++; gen(u % 3 ? "T:rg" : "rg", {a, b, c}, 0); gen(u % 12 ? "T:rg" : "rg", {a, b, c}, 1 + u / 12 % 3); }
  }
#endif
}
