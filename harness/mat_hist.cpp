// Generated programs of matrix expressions (named nodes of different shapes, shared freely) exercised by
// generated histories: evaluation, forward and reverse derivatives of any node interleaved with updates of
// matrix entries, scalars, parameters and constant matrices. Every update brings a fresh symbolic value.
#include "mat_op.hpp"
struct Lcg { uint64_t s; unsigned operator()(unsigned n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((s >> 33) % n); } };
enum HOp { ADD, SUB, MUL, HAD, TRA, SCP, QV, QP, QE, ADDS, SINM, EXPM, VECT, CLASSIC, CONV = CLASSIC, DIVQ, SUBQ, ADDQ, CATH, CATV, BRC, SIGR, SIGC, POW2, NOPS_ };
#if OPN == 2   // more operations, and re-assignments in the histories
enum { NOPS = NOPS_, NSC = 15, REAS = 1 };
#else
enum { NOPS = CLASSIC, NSC = 9, REAS = 0 };
#endif
struct HD { int op, a, b; };
enum { NLEAF = 4 };   // X 2x2 variables, Y 2x1 variables, C 2x2 numbers, D 1x2 numbers

struct Hist {
  Lcg g; XM x, y, c, d; In is = in("s"), ip = in("p"); int fresh{0};
  Matrix<Variable> X, Y, Z; XM z; Matrix<Type> C, D; Variable vs; Parameter P; Expression q;   // q = s*s*P
  std::deque<Matrix<Expression>> ex; std::vector<HD> defs; std::vector<int> deg; std::vector<std::pair<int, int>> shp; int trans{0};
  std::deque<Matrix<Expression>> sc; std::vector<std::function<R()>> scf;   // scalar-valued nodes, differentiable in reverse mode
  explicit Hist(int seed) : g{seed * 7919ull + 4711}, x("x", 2, 2), y("y", 2, 1), c("c", 2, 2), d("d", 1, 2), X(2, 2), Y(2, 1), Z(1, 2), z("z", 1, 2), C(2, 2), D(1, 2), vs(is.t()), P(ip.t()) {
    backend(BACK); for (int i = 0; i < 5; ++i) g(7);
    x.setV(X); y.setV(Y); z.setV(Z); c.setT(C); d.setT(D); q = vs * vs * P;
    shp = {{2, 2}, {2, 1}, {2, 2}, {1, 2}}; deg = {1, 1, 1, 1};
  }
  R qr() const { return is.r() * is.r() * ip.r(); }
  template <typename F> void with(int i, F f) { switch (i) { case 0: f(X); break; case 1: f(Y); break; case 2: f(C); break; case 3: f(D); break; default: f(ex[i - NLEAF]); } }
  // a definition over operands below top: its shape and degree, or false if it does not conform
  bool fits(HD h, std::pair<int, int>& s, int& dd, int& tr_) const {
    auto sa = shp[h.a], sb = shp[h.b]; s = sa; dd = deg[h.a];
    switch (h.op) {
      case ADD: case SUB: if (sa != sb) return false; dd = std::max(dd, deg[h.b]); break;
      case HAD: if (sa != sb) return false; dd += deg[h.b]; break;
      case MUL: if (sa.second != sb.first) return false; s = {sa.first, sb.second}; dd += deg[h.b]; break;
      case TRA: s = {sa.second, sa.first}; break;
      case VECT: if (sa.first * sa.second != 4) return false; s = {4, 1}; break;
      case QV: dd += 1; break; case QP: dd += 1; break; case QE: dd += 2; break;
      case SINM: case EXPM: if (tr_ || dd > 1) return false; ++tr_; dd += 1; break;
      case CONV: if (sa != std::make_pair(2, 2) || sb != sa) return false; dd += deg[h.b]; break;
      case DIVQ: if (tr_) return false; ++tr_; dd += 1; break;
      case SUBQ: case ADDQ: dd = std::max(dd, 3); break;
      case CATH: if (sa.second != 1 || sb.second != 1 || sa.first != 2 || sb.first != 2) return false; s = {2, 2}; dd = std::max(dd, deg[h.b]); break;
      case CATV: if (sa.first != 1 || sb.first != 1 || sa.second != 2 || sb.second != 2) return false; s = {2, 2}; dd = std::max(dd, deg[h.b]); break;
      case BRC: if (sa != std::make_pair(2, 1)) return false; s = {2, 2}; break;
      case SIGR: if (sa.first != 2 || sa.second != 2) return false; s = {1, 2}; break;
      case SIGC: if (sa.first != 2 || sa.second != 2) return false; s = {2, 1}; break;
      case POW2: if (sa.first != sa.second || sa.first > 2) return false; dd *= 2; break;
    }
    return dd <= 4;
  }
  void build(int n) {
    while ((int)ex.size() < n) {
      int top = NLEAF + (int)ex.size(); HD h{(int)g(NOPS), (int)g(top), (int)g(top)};
      if (top > NLEAF && g(2)) h.a = top - 1;
      std::pair<int, int> s; int dd = 0, t = trans; if (!fits(h, s, dd, t)) continue;
      trans = t; ex.emplace_back(); make(ex.back(), h); defs.push_back(h); deg.push_back(dd); shp.push_back(s);
    }
  }
  // give a node that others may be built on another definition of the same shape
  void reassign() {
    int k = (int)g((unsigned)ex.size());
    for (int tries = 0; tries < 40; ++tries) {
      int top = NLEAF + k; HD h{(int)g(NOPS), (int)g(top), (int)g(top)}; std::pair<int, int> s; int dd = 0, t = 1;
      if (!fits(h, s, dd, t) || t > 1 || s != shp[top] || dd > deg[top]) continue;
      make(ex[k], h); defs[k] = h; return;
    }
  }
  void make(Matrix<Expression>& e, HD h) {
    if (getenv("VH_SHOW")) { static const char* on[] = {"ADD", "SUB", "MUL", "HAD", "TRA", "SCP", "QV", "QP", "QE", "ADDS", "SINM", "EXPM", "VECT", "CONV", "DIVQ", "SUBQ", "ADDQ", "CATH", "CATV", "BRC", "SIGR", "SIGC", "POW2"}; auto nm = [](int i) { return i < NLEAF ? std::string(1, "XYCD"[i]) : "n" + std::to_string(i - NLEAF); };
      int self = 0; while (&ex[self] != &e) ++self; fprintf(stderr, "n%d = %s %s %s\n", self, on[h.op], nm(h.a).c_str(), nm(h.b).c_str()); }
    with(h.a, [&](auto& A) { with(h.b, [&](auto& B) {
      switch (h.op) {
        case ADD: e = A + B; break; case SUB: e = A - B; break; case MUL: e = A * B; break; case HAD: e = A ^ B; break;
#if OPN == 2
        case CONV: e = conv(A, B, 2, 2, 1, 1); break; case CATH: e = concat<ConcatAxis::HORIZONTAL>(A, B); break; case CATV: e = concat<ConcatAxis::VERTICAL>(A, B); break;
#endif
        default: break;
      } });
      switch (h.op) {
        case TRA: e = transpose(A); break; case SCP: e = (Type)(1.5) * A; break; case QV: e = vs * A; break; case QP: e = A * P; break; case QE: e = q * A; break;
        case ADDS: e = A + (Type)(2); break; case SINM: e = SinM(A); break; case EXPM: e = ExpM(A); break; case VECT: e = vec(A); break;
#if OPN == 2
        case DIVQ: e = A / vs; break; case SUBQ: e = q - A; break; case ADDQ: e = A + q; break; case BRC: e = broadcast<Axis::COLUMN>(A, 2); break; case SIGR: e = Sigma<Axis::ROW>(A); break; case SIGC: e = Sigma<Axis::COLUMN>(A); break; case POW2: e = pow<2>(A); break;
#endif
        default: break;
      } });
  }
  RM ref(int i) const {
    switch (i) { case 0: return x.ref(); case 1: return y.ref(); case 2: return c.ref(); case 3: return d.ref(); }
    HD h = defs[i - NLEAF]; RM a = ref(h.a);
    switch (h.op) {
      case ADD: return a + ref(h.b); case SUB: return a - ref(h.b); case MUL: return a * ref(h.b); case HAD: return had(a, ref(h.b)); case TRA: return tr(a); case SCP: return R(1.5) * a;
      case QV: return is.r() * a; case QP: return ip.r() * a; case QE: return qr() * a; case ADDS: return adds(a, R(2)); case SINM: return map(a, [](R t) { return sin(t); }); case EXPM: return map(a, [](R t) { return exp(t); });
      case VECT: { RM m(a.r * a.c, 1); m.v = a.v; return m; }
      case CONV: { RM b = ref(h.b); return mk(2, 2, [&](size_t i, size_t j) { R t(0); for (size_t p = 0; p < 2; ++p) for (size_t q = 0; q < 2; ++q) { size_t x = 2 * i + p, y = 2 * j + q; if (x < 1 || y < 1 || x > 2 || y > 2) continue; t += a(x - 1, y - 1) * b(p, q); } return t; }); }
      case DIVQ: return (R(1) / is.r()) * a; case SUBQ: return adds(R(-1) * a, qr()); case ADDQ: return adds(a, qr());
      case CATH: { RM b = ref(h.b); return mk(2, 2, [&](size_t i, size_t j) { return j ? b(i, 0) : a(i, 0); }); } case CATV: { RM b = ref(h.b); return mk(2, 2, [&](size_t i, size_t j) { return i ? b(0, j) : a(0, j); }); }
      case BRC: return mk(2, 2, [&](size_t i, size_t) { return a(i, 0); }); case SIGR: return mk(1, 2, [&](size_t, size_t j) { return a(0, j) + a(1, j); }); case SIGC: return mk(2, 1, [&](size_t i, size_t) { return a(i, 0) + a(i, 1); });
      case POW2: return a * a;
    }
    return a;
  }
  // scalar-valued nodes: inline in the variables, named in the scalars before
  void scalars(int n) { for (int k = 0; k < n; ++k) { sc.emplace_back(); scf.emplace_back(); scalar(k); } }
  void scalar(int k) {
      int t = (int)g(k ? NSC : 5), u = k ? (int)g(k) : 0, v = k ? (int)g(k) : 0; auto& e = sc[k]; auto& F = scf[k];
      auto f = [this](int i) { return scf[i](); };
      if (getenv("VH_SHOW")) fprintf(stderr, "sc%d = kind %d of %d %d\n", k, t, u, v);
      switch (t) {
        case 0: e = Sigma(C ^ (X * X)); F = [this] { return sum(had(c.ref(), x.ref() * x.ref())); }; break;
        case 1: e = D * (transpose(X) * Y); F = [this] { return sum(d.ref() * (tr(x.ref()) * y.ref())); }; break;
        case 2: e = Sigma((q * X) ^ C) + transpose(Y) * Y; F = [this] { return qr() * sum(had(x.ref(), c.ref())) + sum(had(y.ref(), y.ref())); }; break;
        case 3: e = transpose(Y) * (X + C) * (vs * Y); F = [this] { return is.r() * sum(tr(y.ref()) * (x.ref() + c.ref()) * y.ref()); }; break;
        case 4: e = Sigma(SinM(Y) - (X * Y)) * P; F = [this] { return ip.r() * sum(map(y.ref(), [](R t) { return sin(t); }) - x.ref() * y.ref()); }; break;
        case 5: e = sc[u] * sc[v] + sc[u]; F = [=] { return f(u) * f(v) + f(u); }; break;
        case 6: e = q * sc[u] - D * Y; F = [=] { return qr() * f(u) - sum(d.ref() * y.ref()); }; break;
        case 7: e = (sc[u] ^ sc[v]) - (Type)(0.5) * sc[v]; F = [=] { return f(u) * f(v) - R(0.5) * f(v); }; break;
        case 8: e = vs + (Sigma(X) * sc[u]); F = [=] { return is.r() + sum(x.ref()) * f(u); }; break;
#if OPN == 2
        case 9: e = trace(X * C) - sc[u] / vs; F = [=] { RM m = x.ref() * c.ref(); return m(0, 0) + m(1, 1) - f(u) / is.r(); }; break;
        case 10: e = Sigma(conv(X, C, 1, 1, 1, 0)) + sc[u]; F = [=] { RM a = x.ref(), k = c.ref(); R t(0); for (size_t i = 0; i < 3; ++i) for (size_t p = 0; p < 2; ++p) for (size_t w = 0; w < 2; ++w) { size_t r = i + p; if (r < 1 || r > 2) continue; t += a(r - 1, w) * k(p, w); } return t + f(u); }; break;
        case 11: e = Sigma(concat<ConcatAxis::HORIZONTAL>(Y, X * Y) ^ C) * sc[u]; F = [=] { RM a = y.ref(), b = x.ref() * y.ref(), k = c.ref(); return (a(0, 0) * k(0, 0) + a(1, 0) * k(1, 0) + b(0, 0) * k(0, 1) + b(1, 0) * k(1, 1)) * f(u); }; break;
        case 12: e = D * broadcast<Axis::COLUMN>(Y, 1) - transpose(sc[u]); F = [=] { return sum(d.ref() * y.ref()) - f(u); }; break;
        case 13: e = conv(sc[u], sc[v]) + vec(sc[v]); F = [=] { return f(u) * f(v) + f(v); }; break;
        case 14: e = (P - sc[u]) * (sc[v] + P); F = [=] { return (ip.r() - f(u)) * (f(v) + ip.r()); }; break;
#endif
      }
  }
  std::string nx() { return "@" + std::to_string(fresh++); }
  void q_eval(int i, std::string l) { eqm(l + "n" + std::to_string(i), T2::Eval(ex[i]), ref(NLEAF + i)); }
  void q_fwd(int i, int w, std::string l) { l += "n" + std::to_string(i) + " D"; RM f = ref(NLEAF + i);
    if (w == 0) eqF(l, T2::DevalF(ex[i], X), f, x); else if (w == 1) eqF(l, T2::DevalF(ex[i], Y), f, y); else if (w == 2) eqF(l, T2::DevalF(ex[i], Z), f, z);
    else { XM t("s", 1, 1); t.in_[0] = is; Matrix<Variable> S(1, 1); S[0] = vs; eqF(l, T2::DevalF(ex[i], S), f, t); }
    if (w < 2 && g(2)) { auto& a = w ? y : x; XM t("t", w ? 1 : 4, w ? 2 : 1); t.in_ = a.in_; Matrix<Variable> T(t.r, t.c, (w ? Y : X).getMatrixPtr()); eqF(l + " reshaped", T2::DevalF(ex[i], T), f, t); }
    if (w > 1 && g(2)) { XM t("t", 2, 1); t.in_ = {x.in_[2], is}; Matrix<Variable> T(2, 1); T[0] = X[2]; T[1] = vs; eqF(l + " mixed", T2::DevalF(ex[i], T), f, t); } }
  void s_eval(int i, std::string l) { eqm(l + "sc" + std::to_string(i), T2::Eval(sc[i]), one1(scf[i]())); }
  void s_fwd(int i, int w, std::string l) { l += "sc" + std::to_string(i) + " D"; RM f = one1(scf[i]()); if (w == 0) eqF(l, T2::DevalF(sc[i], X), f, x); else eqF(l, T2::DevalF(sc[i], Y), f, y); }
  void s_rev(int i, std::string l) { l += "sc" + std::to_string(i) + " G"; R f = scf[i](); T2::PreComp(sc[i]); eqR(l, T2::DevalR(sc[i], X), f, x); eqR(l, T2::DevalR(sc[i], Y), f, y); eqm(l + " by s", T2::DevalR(sc[i], vs), one1(vh::D(f, is))); eqR(l, T2::DevalR(sc[i], Z), f, z); }
  void set(int w) {
    std::string n = nx();
    switch (w) {
      case 0: { int k = (int)g(4); x.in_[k] = in("x" + std::to_string(k) + n); X[k] = x.in_[k].t(); break; }
      case 1: { int k = (int)g(2); y.in_[k] = in("y" + std::to_string(k) + n); Y[k] = y.in_[k].t(); break; }
      case 2: is = in("s" + n); vs = is.t(); break;
      case 3: ip = in("p" + n); P = ip.t(); break;
      case 4: { int k = (int)g(4); c.in_[k] = in("c" + std::to_string(k) + n); C[k] = c.in_[k].t(); break; }
      case 5: { int k = (int)g(2); d.in_[k] = in("d" + std::to_string(k) + n); D[k] = d.in_[k].t(); break; }
    }
  }
};
#ifndef PROGN
#define PROGN 120
#endif
CASES() {
  for (int i = 0; i < 600; ++i) {
    std::string t = std::to_string(i); auto add = [i](const std::string& nm, std::function<void()> f) { add_case((i < PROGN ? "" : "T:") + nm, f); };
    add(std::string(REAS ? "mhist2" : "mhist") + ":nodes:" + t, [=] { Hist h(i); h.build(3 + i % 3); int n = (int)h.ex.size();
      for (int k = 0; k < 6; ++k) { std::string l = std::to_string(k) + " "; int w = (int)h.g(7), j = (int)h.g(n); if (w < 2) h.q_eval(j, l); else if (w < 5) h.q_fwd(j, (int)h.g(4), l); else { h.set((int)h.g(6)); h.set((int)h.g(6)); if (REAS) h.reassign(); } }
      for (int k = 0; k < 6; ++k) h.set(k); int w0 = (int)h.g(4);
      for (int j = n - 1; j >= 0; --j) { h.q_eval(j, "end "); if (j > n - 3) { h.q_fwd(j, w0, "end "); h.q_fwd(j, (w0 + 1) % 4, "end "); } }
      h.q_eval(n - 1, "last "); done(); });
    add(std::string(REAS ? "mhist2" : "mhist") + ":scalars:" + t, [=] { Hist h(500 + i); h.scalars(2 + i % 2); int n = (int)h.sc.size();
      for (int k = 0; k < 6; ++k) { std::string l = std::to_string(k) + " "; int w = (int)h.g(7), j = (int)h.g(n); if (w < 1) h.s_eval(j, l); else if (w < 2) h.s_fwd(j, (int)h.g(2), l); else if (w < 4) h.s_rev(j, l); else { h.set((int)h.g(6)); h.set((int)h.g(6)); if (REAS) h.scalar((int)h.g(n)); } }
      for (int k = 0; k < 6; ++k) h.set(k);
      for (int j = n - 1; j >= 0; --j) { h.s_rev(j, "end "); h.s_eval(j, "end "); } h.s_fwd(n - 1, i % 2, "end "); h.s_rev(n - 1, "last "); done(); });
  }
}
