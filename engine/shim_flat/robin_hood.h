// Stand-in for robin_hood.h (not installed here), with the guarantees of unordered_flat_map and no more: every
// insertion of a new key moves all elements, so that references and iterators taken before are stale. Stale
// elements stay readable but hold a wrong value. The order of iteration is the reverse of the insertion.
#pragma once
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <utility>
#include <type_traits>
namespace robin_hood {
template <typename A, typename B> using pair = std::pair<A, B>;
template <typename T> struct hash : std::hash<T> {};
template <typename V> void spoil(V& v) { if constexpr (std::is_pointer_v<V>) v = nullptr; else if constexpr (std::is_constructible_v<V, double>) v = V(1234567.0); else v = V{}; }
template <typename K, typename V, typename H = hash<K>>
class unordered_flat_map {
public:
  using key_type = K; using mapped_type = V; using value_type = pair<K, V>; using iterator = value_type*; using const_iterator = const value_type*; using size_type = std::size_t;
private:
  value_type* d{nullptr}; std::size_t n{0};
  static void bury(value_type* p, std::size_t m) { for (std::size_t i = 0; i < m; ++i) { if constexpr (std::is_integral_v<K>) p[i].first = K(-1); else p[i].first = K{}; spoil(p[i].second); } }   // never freed
  void copy(const unordered_flat_map& o) { n = o.n; d = n ? new value_type[n] : nullptr; for (std::size_t i = 0; i < n; ++i) d[i] = o.d[i]; }
public:
  unordered_flat_map() = default;
  unordered_flat_map(std::initializer_list<value_type> l) { for (auto& i : l) insert(i); }
  unordered_flat_map(const unordered_flat_map& o) { copy(o); }
  unordered_flat_map(unordered_flat_map&& o) noexcept : d(o.d), n(o.n) { o.d = nullptr; o.n = 0; }
  unordered_flat_map& operator=(const unordered_flat_map& o) { if (this != &o) { clear(); copy(o); } return *this; }
  unordered_flat_map& operator=(unordered_flat_map&& o) noexcept { if (this != &o) { clear(); std::swap(d, o.d); std::swap(n, o.n); } return *this; }
  ~unordered_flat_map() { bury(d, n); }
  iterator begin() { return d; } iterator end() { return d + n; }
  const_iterator begin() const { return d; } const_iterator end() const { return d + n; }
  const_iterator cbegin() const { return d; } const_iterator cend() const { return d + n; }
  bool empty() const { return n == 0; } std::size_t size() const { return n; }
  void clear() { bury(d, n); d = nullptr; n = 0; }
  void reserve(std::size_t) {} void rehash(std::size_t) {}
  void swap(unordered_flat_map& o) { std::swap(d, o.d); std::swap(n, o.n); }
  iterator find(const K& k) { for (std::size_t i = 0; i < n; ++i) if (d[i].first == k) return d + i; return d + n; }
  const_iterator find(const K& k) const { return const_cast<unordered_flat_map*>(this)->find(k); }
  std::size_t count(const K& k) const { return find(k) != end(); } bool contains(const K& k) const { return find(k) != end(); }
  V& at(const K& k) { auto i = find(k); if (i == end()) throw std::out_of_range("key not found"); return i->second; }
  const V& at(const K& k) const { return const_cast<unordered_flat_map*>(this)->at(k); }
  template <typename K_, typename... A> std::pair<iterator, bool> try_emplace(K_&& k, A&&... a) {
    if (auto i = find(k); i != end()) return {i, false};
    value_type* e = new value_type[n + 1]; e[0].first = K(k); e[0].second = V(std::forward<A>(a)...);
    for (std::size_t i = 0; i < n; ++i) e[i + 1] = d[i];
    bury(d, n); d = e; ++n; return {d, true};
  }
  template <typename K_, typename V_> std::pair<iterator, bool> emplace(K_&& k, V_&& v) { return try_emplace(std::forward<K_>(k), std::forward<V_>(v)); }
  std::pair<iterator, bool> insert(const value_type& v) { return try_emplace(v.first, v.second); }
  template <typename V_> std::pair<iterator, bool> insert_or_assign(const K& k, V_&& v) { V t(v); auto r = try_emplace(k); r.first->second = t; return r; }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  std::size_t erase(const K& k) { auto i = find(k); if (i == end()) return 0; erase(i); return 1; }
  iterator erase(const_iterator p) { std::size_t j = p - d; value_type* e = n > 1 ? new value_type[n - 1] : nullptr; for (std::size_t i = 0, q = 0; i < n; ++i) if (i != j) e[q++] = d[i]; bury(d, n); d = e; --n; return d + j; }
};
template <typename K, typename V, typename H = hash<K>> using unordered_node_map = unordered_flat_map<K, V, H>;
template <typename K, typename V, typename H = hash<K>> using unordered_map = unordered_flat_map<K, V, H>;
}
