// Parallel algorithms under a chosen schedule. Used when the library is built with its parallel-execution
// option (USE_CXX_PARALLEL_POLICY): engine/shim/execution defines the policy overloads on top of par::loop.
//
// A schedule is: the order in which the iterations of the parallel loops run, and optionally one preemption
// (just before the k-th shared access of iteration i of the n-th parallel loop, iteration j runs as a whole).
// In the symbolic build every access to a number that is not local to the iteration is recorded; iterations of one
// loop that conflict (same address, at least one write) give the preemption schedules that have to be explored.
// Loops without conflict have only one behaviour (their iterations commute).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <unordered_map>
#include <vector>
namespace symx { namespace par {
struct Plan { long order = 0, loop = -1, iter = -1, access = -1, other = -1; };
struct Conflict { long loop, iter, access, other; const void* site; };
struct Shared { volatile long n, loops; Conflict c[64]; };
struct Acc { uint8_t first = 0, any = 0; std::vector<long> at; };       // 1 read, 2 write, 4 constructed
struct Iter { std::unordered_map<const void*, Acc> m; long n = 0; };
struct Loop { long id; long now = -1; Iter* it = nullptr; const char* frame = nullptr; const std::function<void(size_t)>* body = nullptr; };
struct State { Plan plan; long loops = 0; std::vector<Loop*> cur; Shared* sh = nullptr; bool fired = false; };
inline State& S() { static State* s = new State; return *s; }

inline void hook(const void* a, uint8_t kind) {
  State& s = S(); if (s.cur.empty()) return;
  const char here = 0; const char* p = (const char*)a;
  for (size_t l = 0; l < s.cur.size(); ++l) {
    Loop* L = s.cur[l]; if (!L->it) continue;
    if (p >= &here && p < L->frame) continue;            // on the stack, deeper than the loop: local to the iteration
    const long k = L->it->n++;
    if (s.plan.loop == L->id && s.plan.iter == L->now && s.plan.access == k && !s.fired) {
      s.fired = true; std::vector<Loop*> keep = s.cur; s.cur.resize(l); (*L->body)((size_t)s.plan.other); s.cur = keep;
    }
    Acc& e = L->it->m[a]; if (!e.any) e.first = kind; e.any |= kind; if (e.at.size() < 6) e.at.push_back(k);
  }
}
inline void conflicts(Loop& L, std::vector<Iter>& its, const void* site) {
  State& s = S(); if (!s.sh) return;
  std::unordered_map<const void*, std::vector<size_t>> by; std::vector<const void*> order;
  for (size_t i = 0; i < its.size(); ++i) for (auto& e : its[i].m) { auto& v = by[e.first]; if (v.empty()) order.push_back(e.first); v.push_back(i); }
  int found = 0;
  for (const void* a : order) {
    auto& v = by[a]; if (v.size() < 2) continue;
    for (size_t x = 0; x < v.size() && found < 3; ++x) for (size_t y = 0; y < v.size() && found < 3; ++y) {
      if (x == y) continue;
      const Acc& p = its[v[x]].m[a]; const Acc& q = its[v[y]].m[a];
      if (!((p.any & 6) || (q.any & 6)) || (p.first & 4) || (q.first & 4 && !(p.any & 6))) continue;
      if ((p.first & 4) && (q.first & 4)) continue;      // storage constructed by both: reused memory
      ++found;
      for (size_t k = 0; k < p.at.size() && k < 4; ++k) {
        int same = 0; for (long c = 0; c < s.sh->n; ++c) same += s.sh->c[c].site == site;
        if (same >= 12 || s.sh->n >= 48) return;
        s.sh->c[s.sh->n] = {L.id, (long)v[x], p.at[k], (long)v[y], site}; s.sh->n = s.sh->n + 1;
      }
    }
  }
}
// run body(0..n-1) in the order of the schedule
inline void loop(size_t n, const void* site, const std::function<void(size_t)>& body) {
  State& s = S(); const char mark = 0;
  if (n < 2) { for (size_t i = 0; i < n; ++i) body(i); return; }
  Loop L; L.id = s.loops++; L.frame = &mark; L.body = &body; if (s.sh) s.sh->loops = s.sh->loops + 1;
  std::vector<Iter> its(n); s.cur.push_back(&L);
  const bool mine = s.plan.loop == L.id && s.plan.other >= 0 && s.plan.other < (long)n;
  for (size_t k = 0; k < n; ++k) {
    const size_t i = s.plan.order == 1 ? n - 1 - k : s.plan.order == 2 ? (k + n / 2) % n : k;
    if (mine && (long)i == s.plan.other) continue;
    L.now = (long)i; L.it = &its[i]; body(i);
  }
  if (mine && !s.fired) { L.now = s.plan.other; L.it = &its[s.plan.other]; body((size_t)s.plan.other); }
  s.cur.pop_back();
#if defined(SYMX_PAR_HOOKS)
  if (s.plan.loop < 0 && s.plan.order == 0) conflicts(L, its, site);
#endif
}
}}
