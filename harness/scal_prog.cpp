#include "prog.hpp"

#ifndef PROGN
#define PROGN 40
#endif
#ifndef PROGT
#define PROGT 240
#endif
CASES() {
  for (int i = 0; i < PROGT; ++i) {
    std::string t = (i < PROGN ? ":q" : ":t") + std::to_string(i);
    auto add_case = [i](const std::string& nm, std::function<void()> f) { vh::add_case((i < PROGN + (is_complex ? 0 : 40) ? "" : "T:") + nm, f); };
    int n = 3 + i % 5, md = is_complex ? 4 : 5;
    add_case("eval:prog" + t, [=] { Prog p(i); p.build(n, md); for (int k = 0; k < n; ++k) p.q_eval(k, ""); no_errors("no error reported"); });
    add_case("fwd:prog" + t, [=] { Prog p(i); p.build(n, md); for (int v = 0; v < 3; ++v) p.q_fwd(n - 1, v, ""); p.q_fwd(n / 2, 0, ""); no_errors("no error reported"); });
    add_case("rev:prog" + t, [=] { Prog p(i); p.build(n, md); p.q_rev(n - 1, ""); p.q_rev(n / 2, "then "); p.q_cache(n - 1, "then "); no_errors("no error reported"); });
    add_case("sym:prog" + t, [=] { Prog p(i); p.build(n, md); for (int v = 0; v < 3; ++v) p.q_sym(n - 1, v, ""); p.q_sym(n / 2, 1, ""); no_errors("no error reported"); });
    // histories: value and parameter updates between calls of all kinds
    add_case("hist:prog" + t, [=] {
      Prog p(1000 + i); p.build(3 + i % 4, md);
      for (int k = 0; k < 9; ++k) p.step(st(k));
      p.setvar(0); p.setvar(1); p.setpar(); p.all("end "); no_errors("no error reported"); });
    // non-recursive re-assignment of expressions between calls
    add_case("reas:prog" + t, [=] {
      Prog p(2000 + i); p.build(3 + i % 3, 4);
      for (int k = 0; k < 3; ++k) {
        for (int q = 0; q < 2; ++q) p.step(st(3 * k + q));
        if (i % 2) { p.q_sym((int)p.ex.size() - 1, k, "before "); p.q_sym(p.node(), (k + 1) % 3, "before "); }
        int top = 1 + (int)p.g((unsigned)p.ex.size() - 1); p.divs = 2; p.trans = 1;
        Def d = p.pick(top, 3); p.assign(p.ex[top], d); p.defs[top] = {d}; p.deg[top] = p.degof(d); p.syms.clear();
        for (int j = top + 1; j < (int)p.ex.size(); ++j) { p.deg[j] = 0; for (auto& e : p.defs[j]) p.deg[j] = std::max(p.deg[j], p.degof(e)); }
      }
      p.all("end "); no_errors("no error reported"); });
    // recursive updates e = f(e, ...) of one expression, used by others
    add_case("recu:prog" + t, [=] {
      Prog p(3000 + i); p.build(2 + i % 2, 3); p.divs = 2; p.trans = 1;
      int me = (int)p.ex.size() - 1, before = 3;
      for (int k = 0; k < before; ++k) {
        Def d; do { d = p.pick(me + 1, 99); } while (d.op == ALIAS || d.op == POW3 || d.op == SQSUM || d.op == POW2 || (d.a != me + 3 && d.b != me + 3)
          || ((d.op == MUL || d.op == INL1 || d.op == INL2) && d.a == d.b) || !(d.op == SUM || d.op == SUB || d.op == MUL || d.op == INL1 || d.op == INL2 || d.a == me + 3));
        p.assign(p.ex[me], d); p.defs[me].push_back(d); p.deg[me] += 1;
      }
      int rec = me;
      // a dependent
      Def d{(int[]){SUM, MUL, CMUL, INL2}[i % 4], rec + 3, i % 3}; p.ex.emplace_back(); p.deg.push_back(9); p.defs.push_back({d}); p.assign(p.ex.back(), d);
      p.q_eval(rec, "recursive "); p.q_fwd(rec, 0, "recursive "); p.q_rev(rec, "recursive "); p.q_sym(rec, 1, "recursive ");
      p.setvar(i % 3); p.setpar(); p.syms.clear();
      p.all("dependent "); p.q_eval(rec, "again "); p.q_rev(rec, "again "); no_errors("no error reported"); });
  }
  // deep and wide expressions
  auto deep = [](auto& p, std::deque<Variable>& v, std::vector<In>& i, std::deque<Expression>& e, R& f) {
    for (size_t k = 0; k < 12; ++k) { i.push_back(in("w" + std::to_string(k))); v.emplace_back(i[k].t()); }
    e.emplace_back(); e.back() = v[0] * v[1]; f = i[0].r() * i[1].r();
    for (size_t k = 2; k < 12; ++k) { e.emplace_back(); auto& n = e[e.size() - 2]; if (k % 3 == 0) { e.back() = n * p.P + v[k]; f = f * p.ip.r() + i[k].r(); } else if (k % 3 == 1) { e.back() = v[k] * p.tc - n; f = i[k].r() * p.tc_r() - f; } else { e.back() = n + v[k] * v[k - 1]; f = f + i[k].r() * i[k - 1].r(); } } };
  struct PR { In ip = in("p"), ic = in("c"); Parameter P{ip.t()}; Type tc{ic.t()}; R tc_r() const { return ic.r(); } };
  for (int m = 0; m < 5; ++m) {
    static const char* mn[] = {"eval", "fwd", "rev", "sym", "hist"};
    add_case(std::string(mn[m]) + ":deep and wide", [=] { PR p; std::deque<Variable> v; std::vector<In> i; std::deque<Expression> e; R f(0); deep(p, v, i, e, f); auto& n = e.back();
      auto at = [](size_t k) { return "d/dw" + std::to_string(k); };
      if (m == 0) eq("value", T1::Eval(n), f);
      if (m == 1) for (size_t k = 0; k < 12; ++k) eq(at(k), T1::DevalF(n, v[k]), D(f, i[k]));
      if (m == 2) { T1::PreComp(n); for (size_t k = 0; k < 12; ++k) eq(at(k), T1::DevalR(n, v[k]), D(f, i[k])); }
      if (m == 3) for (size_t k = 0; k < 12; ++k) eq(at(k), T1::Eval(T1::SymDiff(n, v[k])), D(f, i[k]));
      if (m == 4) { for (int r = 0; r < 3; ++r) { eq("value", T1::Eval(n), f); T1::PreComp(n); for (size_t k = 0; k < 12; ++k) { eq("rev " + at(k), T1::DevalR(n, v[k]), D(f, i[k])); if (k % 4 == 0) eq("fwd " + at(k), T1::DevalF(n, v[k]), D(f, i[k])); }
          size_t k = 11 - 4 * r; In w = in("v" + std::to_string(r)); i[k] = w; v[k] = w.t(); f = i[0].r() * i[1].r(); for (size_t q = 2; q < 12; ++q) f = q % 3 == 0 ? f * p.ip.r() + i[q].r() : q % 3 == 1 ? i[q].r() * p.tc_r() - f : f + i[q].r() * i[q - 1].r(); } }
      no_errors("no error reported"); });
  }
}
