// Harness support. Two builds use it:
//   symbolic: -DCOOLDIFF_SYMBOLIC='"symx_hook.hpp"'  (the library's Real is symx::Sym)
//   replay:   the library's Real is double; inputs are read from a file
#pragma once
#include "symx.hpp"
#include "CoolDiff.hpp"
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/resource.h>

namespace vh {
using symx::E; using symx::Ref; using symx::Sym; using symx::id_t;

#if defined(COOLDIFF_SYMBOLIC)
constexpr bool symbolic = true;
#else
constexpr bool symbolic = false;
#endif

// ---- reference numbers: real, or complex built from reals
struct RefC {
  Ref re, im;
  RefC() {}
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> RefC(T v) : re(v), im(0) {}
  RefC(Ref r) : re(r), im(0) {}
  RefC(Ref r, Ref i) : re(r), im(i) {}
  friend RefC operator+(RefC a, RefC b) { return {a.re + b.re, a.im + b.im}; }
  friend RefC operator-(RefC a, RefC b) { return {a.re - b.re, a.im - b.im}; }
  friend RefC operator*(RefC a, RefC b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
  friend RefC operator/(RefC a, RefC b) {
    Ref n = b.re * b.re + b.im * b.im;
    return {(a.re * b.re + a.im * b.im) / n, (a.im * b.re - a.re * b.im) / n};
  }
  RefC operator-() const { return {-re, -im}; }
  RefC& operator+=(RefC o) { return *this = *this + o; }
  RefC& operator-=(RefC o) { return *this = *this - o; }
  RefC& operator*=(RefC o) { return *this = *this * o; }
  friend RefC conj(RefC a) { return {a.re, -a.im}; }
  friend RefC sin(RefC a) { return {sin(a.re) * cosh(a.im), cos(a.re) * sinh(a.im)}; }
  friend RefC cos(RefC a) { return {cos(a.re) * cosh(a.im), -(sin(a.re) * sinh(a.im))}; }
  friend RefC exp(RefC a) { return {exp(a.re) * cos(a.im), exp(a.re) * sin(a.im)}; }
  friend RefC log(RefC a) { return {log(a.re * a.re + a.im * a.im) / Ref(2), atan2(a.im, a.re)}; }
  friend RefC sinh(RefC a) { return {sinh(a.re) * cos(a.im), cosh(a.re) * sin(a.im)}; }
  friend RefC cosh(RefC a) { return {cosh(a.re) * cos(a.im), sinh(a.re) * sin(a.im)}; }
  friend RefC tan(RefC a) { return sin(a) / cos(a); }
  friend RefC tanh(RefC a) { return sinh(a) / cosh(a); }
};

#if defined(USE_COMPLEX_MATH)
using R = RefC;
constexpr bool is_complex = true;
inline Ref re(R a) { return a.re; }
#else
using R = Ref;
constexpr bool is_complex = false;
inline Ref re(R a) { return a; }
#endif

// ---- conversion DAG id -> library scalar
inline Real to_real(id_t i) {
  if constexpr (symbolic) { Real r{}; std::memcpy((void*)&r, &i, sizeof(i)); return r; }
  else return (Real)E().val[i];
}

struct In {   // a symbolic input
  std::string name;
#if defined(USE_COMPLEX_MATH)
  id_t a{0}, b{0};
  Type t() const { return Type(to_real(a), to_real(b)); }
  R r() const { return R(Ref::of(a), Ref::of(b)); }
#else
  id_t a{0};
  Type t() const { return to_real(a); }
  R r() const { return Ref::of(a); }
#endif
  operator Type() const { return t(); }
};
inline In in(const std::string& n) {
  In i; i.name = n;
#if defined(USE_COMPLEX_MATH)
  i.a = E().var(n + ".re"); i.b = E().var(n + ".im");
#else
  i.a = E().var(n);
#endif
  return i;
}
inline R D(R f, const In& x) {
#if defined(USE_COMPLEX_MATH)
  return R(Ref::of(E().D(f.re.id, x.a)), Ref::of(E().D(f.im.id, x.a)));   // f holomorphic in x
#else
  return Ref::of(E().D(f.id, x.a));
#endif
}

inline std::map<std::string, long double>& impl_vals() { static std::map<std::string, long double> m; return m; }
inline void emit_eq(const std::string& label, id_t impl, long double implv, id_t exp) {
  E().obs.push_back({label, impl, exp});
  if (!symbolic || E().concrete) impl_vals()[label + "#" + std::to_string(E().obs.size() - 1)] = implv;
}
inline void eq_real(const std::string& label, const Real& impl, Ref exp) {
  if constexpr (symbolic) { id_t i; std::memcpy(&i, (const void*)&impl, sizeof(i)); emit_eq(label, i, E().concrete ? E().val[i] : 0, exp.id); }
  else { long double v; if constexpr (!symbolic) { v = (long double)*(const double*)(const void*)&impl; } emit_eq(label, 0, v, exp.id); }
}
// impl value == reference value
inline void eq(const std::string& label, const Type& impl, R exp) {
#if defined(USE_COMPLEX_MATH)
  eq_real(label + ".re", impl.real(), exp.re); eq_real(label + ".im", impl.imag(), exp.im);
#else
  eq_real(label, impl, exp);
#endif
}
// turn a value the implementation produced into a reference term (to compare two implementation results)
inline R as_ref(const Type& v) {
#if defined(USE_COMPLEX_MATH)
  if constexpr (symbolic) { id_t a, b; Real x = v.real(), y = v.imag(); std::memcpy(&a, (const void*)&x, 4); std::memcpy(&b, (const void*)&y, 4); return R(Ref::of(a), Ref::of(b)); }
  else { Real x = v.real(), y = v.imag(); return R(Ref(*(const double*)(const void*)&x), Ref(*(const double*)(const void*)&y)); }
#else
  if constexpr (symbolic) { id_t a; std::memcpy(&a, (const void*)&v, 4); return Ref::of(a); }
  else return Ref(*(const double*)(const void*)&v);
#endif
}
inline void truth(const std::string& label, bool ok, const std::string& detail = "") { E().trs.push_back({label, ok, detail}); }
// domain assumptions (on reference terms)
inline void assume_sign(Ref a, unsigned mask) { E().assumed.push_back({a.id, mask, "assumed"}); }
inline void assume_nonzero(R a) {
#if defined(USE_COMPLEX_MATH)
  Ref n = a.re * a.re + a.im * a.im; assume_sign(n, symx::S_NEG | symx::S_POS);
#else
  assume_sign(a, symx::S_NEG | symx::S_POS);
#endif
}
inline void assume_pos(Ref a) { assume_sign(a, symx::S_POS); }
inline bool ge0(Ref a) { return E().decide(a.id, symx::S_ZERO | symx::S_POS); }
inline bool gt0(Ref a) { return E().decide(a.id, symx::S_POS); }

// ---- cases
struct Case { std::string name; std::function<void()> fn; };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const std::string& n, std::function<void()> f) { cases().push_back({n, std::move(f)}); } };
inline void add_case(const std::string& n, std::function<void()> f) { cases().push_back({n, std::move(f)}); }
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define CASE(NAME) static void VH_CAT(vh_case_, __LINE__)(); static vh::Reg VH_CAT(vh_reg_, __LINE__)(NAME, VH_CAT(vh_case_, __LINE__)); static void VH_CAT(vh_case_, __LINE__)()
#define CASES() static void VH_CAT(vh_cases_, __LINE__)(); static int VH_CAT(vh_casesr_, __LINE__) = (VH_CAT(vh_cases_, __LINE__)(), 0); static void VH_CAT(vh_cases_, __LINE__)()

// ---- captured library messages
inline std::ostringstream& captured() { static std::ostringstream* o = new std::ostringstream; return *o; }
inline int errors_reported() { // number of "[ERROR MSG]" lines the library printed so far
  const std::string s = captured().str(); int n = 0; size_t p = 0;
  while ((p = s.find("[ERROR MSG]", p)) != std::string::npos) { ++n; ++p; }
  return n;
}
inline void no_errors(const std::string& label) {
  int n = errors_reported(); std::string d;
  if (n) { const std::string s = captured().str(); d = s.substr(0, 160); for (char& ch : d) if (ch == '\n' || ch == '"' || ch == '\\') ch = ' '; }
  truth(label, n == 0, d);
}
} // namespace vh

inline void symx::Engine::dump(FILE* o, const char* status) {
  // collect reachable nodes
  std::vector<id_t> order; std::vector<uint8_t> mark(nodes.size(), 0); std::vector<std::pair<id_t, int>> st;
  auto visit = [&](id_t r) {
    if (mark[r]) return; st.push_back({r, 0});
    while (!st.empty()) {
      auto [n, k] = st.back(); st.pop_back(); if (k == 0 && mark[n]) continue;
      const Node& nd = nodes[n]; bool bin = nd.op >= ADD && nd.op <= ATAN2;
      if (k == 0) { mark[n] = 1; st.push_back({n, 1}); if (bin) { if (!mark[nd.b]) st.push_back({nd.b, 0}); if (!mark[nd.a]) st.push_back({nd.a, 0}); } else if (nd.op == FN) { if (!mark[nd.a]) st.push_back({nd.a, 0}); } }
      else order.push_back(n);
    }
  };
  for (auto& b : obs) { visit(b.l); visit(b.r); }
  for (auto& d : def_ref) visit(d.n);
  for (auto& d : def_impl) visit(d.n);
  for (auto& d : assumed) visit(d.n);
  for (auto& k : known_order) visit(k);
  for (auto& v : byname) visit(v.second);
  fprintf(o, "BEGIN %s\n", casename.c_str());
  for (id_t n : order) {
    const Node& nd = nodes[n];
    if (nd.op == CONST) fprintf(o, "N %u c %a\n", n, nd.c);
    else if (nd.op == VAR) fprintf(o, "N %u v %s\n", n, names[nd.a].c_str());
    else if (nd.op == FN) fprintf(o, "N %u %s %u\n", n, fn_name(nd.fn), nd.a);
    else fprintf(o, "N %u %c %u %u\n", n, "cv+-*/^@f"[nd.op], nd.a, nd.b);
    if (concrete) fprintf(o, "L %u %.17Lg\n", n, val[n]);
  }
  for (id_t k : known_order) fprintf(o, "C %u %u\n", k, known[k]);
  for (auto& d : assumed) fprintf(o, "A %u %u %s\n", d.n, d.mask, d.why);
  for (auto& d : def_ref) fprintf(o, "D %u %u %s\n", d.n, d.mask, d.why);
  for (auto& d : def_impl) fprintf(o, "I %u %u %s\n", d.n, d.mask, d.why);
  size_t k = 0;
  for (auto& b : obs) {
    fprintf(o, "E %u %u %s\n", b.l, b.r, b.label.c_str());
    if (concrete) fprintf(o, "V %.17Lg %.17Lg %s\n", vh::impl_vals()[b.label + "#" + std::to_string(k)], val[b.r], b.label.c_str());
    ++k;
  }
  for (auto& t : trs) fprintf(o, "T %d %s\t%s\n", t.ok ? 1 : 0, t.label.c_str(), t.detail.c_str());
#if defined(SYMX_PAR)
  { auto& pl = symx::par::S().plan; fprintf(o, "P schedule.order %ld\n", pl.order); if (pl.loop >= 0) fprintf(o, "P schedule.loop %ld\nP schedule.iteration %ld\nP schedule.access %ld\nP schedule.other %ld\n", pl.loop, pl.iter, pl.access, pl.other); }
#endif
  fprintf(o, "S %s %lu %lu %d\n", status, ops, branches, truncated ? 1 : 0);
}

#if defined(VH_TRACE_FUNCTIONS)
extern "C" {
inline void* vh_fn_tab[1 << 16]; inline unsigned vh_fn_n = 0;
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* f, void*) {
  size_t h = ((size_t)f >> 4) & 0xffff;
  for (;;) { if (vh_fn_tab[h] == f) return; if (!vh_fn_tab[h]) { if (vh_fn_n < 60000) { vh_fn_tab[h] = f; ++vh_fn_n; } return; } h = (h + 1) & 0xffff; }
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
}
#endif

namespace vh {
inline const char*& outfile() { static const char* p = nullptr; return p; }
inline void write_out(const char* status) {
  char* buf = nullptr; size_t len = 0; FILE* m = open_memstream(&buf, &len);
  E().dump(m, status); 
#if defined(VH_TRACE_FUNCTIONS)
  for (size_t i = 0; i < (1u << 16); ++i) if (vh_fn_tab[i]) fprintf(m, "F %lx\n", (unsigned long)vh_fn_tab[i]);
#endif
  fprintf(m, "END\n");
  fclose(m);
  int fd = open(outfile(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  flock(fd, LOCK_EX); size_t off = 0; while (off < len) { ssize_t w = write(fd, buf + off, len - off); if (w <= 0) break; off += w; }
  flock(fd, LOCK_UN); close(fd); free(buf);
}
inline void on_signal(int sg) {
  signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGBUS, SIG_DFL);
  std::string s = "CRASH:" + std::to_string(sg); write_out(s.c_str()); _exit(0);
}
inline int main_impl(int argc, char** argv) {
  // usage: list | run <case> <outfile> <maxpaths> [envfile]
  std::string mode = argc > 1 ? argv[1] : "list";
  if (mode == "list") { for (auto& c : cases()) printf("%s\n", c.name.c_str()); return 0; }
  std::string want = argv[2]; outfile() = argv[3]; long maxp = atol(argv[4]);
  Case* cs = nullptr; for (auto& c : cases()) if (c.name == want) cs = &c;
  if (!cs) { fprintf(stderr, "no case %s\n", want.c_str()); return 2; }
  auto& e = E(); e.casename = want;
  if (!symbolic || getenv("VH_CONCRETE")) {   // VH_CONCRETE: the symbolic build at one point (replay of a schedule)
    e.concrete = true;
    if (argc > 5) { std::ifstream f(argv[5]); std::string n; double v; while (f >> n >> v) e.env[n] = v; }
#if defined(SYMX_PAR)
    auto& pl = symx::par::S().plan; auto get = [&](const char* n, long& x) { auto it = e.env.find(n); if (it != e.env.end()) x = (long)it->second; };
    get("schedule.order", pl.order); get("schedule.loop", pl.loop); get("schedule.iteration", pl.iter); get("schedule.access", pl.access); get("schedule.other", pl.other);
#endif
  } else {
    e.sh = (symx::Shared*)mmap(nullptr, sizeof(symx::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset((void*)e.sh, 0, sizeof(symx::Shared)); e.sh->maxpaths = maxp;
  }
  static char altstack[1 << 16]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS}) sigaction(s, &sa, nullptr);
  std::cout.rdbuf(captured().rdbuf());
#if defined(SYMX_PAR)
  if (!e.concrete) {   // one process per schedule
    auto& ps = symx::par::S(); ps.sh = (symx::par::Shared*)mmap(nullptr, sizeof(symx::par::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto spawn = [&](const symx::par::Plan& pl) { fflush(nullptr); pid_t p = fork(); if (p == 0) { ps.plan = pl; return true; } int st; while (p > 0 && waitpid(p, &st, 0) < 0) {} return false; };
    bool child = spawn({});
    if (!child && ps.sh->loops) {
      for (long o : {1, 2}) if (!child) { symx::par::Plan q; q.order = o; child = spawn(q); }
      const long n = ps.sh->n; for (long k = 0; k < n && !child; ++k) { auto& c = ps.sh->c[k]; symx::par::Plan q; q.loop = c.loop; q.iter = c.iter; q.access = c.access; q.other = c.other; child = spawn(q); }
    }
    if (!child) _exit(0);
  }
#endif
  std::string status = "OK";
  try { cs->fn(); } catch (const std::exception& ex) { status = "EXC"; } catch (...) { status = "EXC"; }
  write_out(status.c_str());
  fflush(nullptr); _exit(0);
}
} // namespace vh
#if !defined(VH_NO_MAIN)
int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
#endif
