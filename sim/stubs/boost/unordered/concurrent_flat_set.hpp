// Boost 1.84's concurrent_flat_set on top of Boost 1.83's concurrent_flat_map (the set is absent here).
#ifndef SIM_STUB_CONCURRENT_FLAT_SET_HPP
#define SIM_STUB_CONCURRENT_FLAT_SET_HPP
#include <boost/unordered/concurrent_flat_map.hpp>
namespace boost
{
template<class K, class H = boost::hash<K>, class Eq = std::equal_to<K>>
class concurrent_flat_set
{
    struct Nothing {};
    boost::concurrent_flat_map<K, Nothing, H, Eq> m_;
public:
    using key_type = K;
    using value_type = K;
    using size_type = std::size_t;
    concurrent_flat_set() = default;
    explicit concurrent_flat_set(std::size_t n) : m_(n) {}
    template<class It>
    concurrent_flat_set(It a, It b) { for (; a != b; ++a) insert(*a); }
    concurrent_flat_set(std::initializer_list<K> l) : concurrent_flat_set(l.begin(), l.end()) {}
    concurrent_flat_set(const concurrent_flat_set&) = default;
    concurrent_flat_set(concurrent_flat_set&&) = default;
    concurrent_flat_set& operator=(const concurrent_flat_set&) = default;
    concurrent_flat_set& operator=(concurrent_flat_set&&) = default;
    bool insert(const K& k) { return m_.try_emplace(k); }
    template<class... A>
    bool emplace(A&&... a) { return m_.try_emplace(K(std::forward<A>(a)...)); }
    std::size_t erase(const K& k) { return m_.erase(k); }
    bool contains(const K& k) const { return m_.contains(k); }
    std::size_t count(const K& k) const { return m_.count(k); }
    std::size_t size() const { return m_.size(); }
    bool empty() const { return m_.empty(); }
    void clear() { m_.clear(); }
    void reserve(std::size_t n) { m_.reserve(n); }
    void swap(concurrent_flat_set& o) { m_.swap(o.m_); }
    template<class F>
    std::size_t visit(const K& k, F f) const { return m_.visit(k, [&](const auto& p) { f(p.first); }); }
    template<class F>
    std::size_t visit_all(F f) const { return m_.visit_all([&](const auto& p) { f(p.first); }); }
    template<class F>
    std::size_t cvisit_all(F f) const { return m_.cvisit_all([&](const auto& p) { f(p.first); }); }
    template<class P, class F, class = std::enable_if_t<std::is_invocable_v<F, const K&>>>
    void visit_all(P&& policy, F f) const { m_.visit_all(std::forward<P>(policy), [&](const auto& p) { f(p.first); }); }
    template<class P, class F, class = std::enable_if_t<std::is_invocable_v<F, const K&>>>
    void cvisit_all(P&& policy, F f) const { m_.cvisit_all(std::forward<P>(policy), [&](const auto& p) { f(p.first); }); }
    template<class F>
    std::size_t erase_if(F f) { return m_.erase_if([&](const auto& p) { return f(p.first); }); }
    template<class P, class F, class = std::enable_if_t<std::is_invocable_v<F, const K&>>>
    void erase_if(P&& policy, F f) { m_.erase_if(std::forward<P>(policy), [&](const auto& p) { return f(p.first); }); }
    template<class S>
    std::size_t merge(S&& s) { std::size_t n = 0; s.visit_all([&](const K& k) { n += insert(k); }); s.clear(); return n; }
};
} // namespace boost
#endif
