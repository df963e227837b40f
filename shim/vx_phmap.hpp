// Stand-in for parallel-hashmap (not installed here): the same container contracts on a linear table.  Lookup compares keys
// with the equality functor, so symbolic keys need no symbolic hashing; iteration follows insertion order, one of the orders
// phmap may produce.
#pragma once
#include <algorithm>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <map>
#include <tuple>
#include <utility>
#include <vector>

namespace phmap
{
struct NullMutex
{};
namespace priv
{
template <class T>
using hash_default_hash = std::hash<T>;
template <class T>
using hash_default_eq = std::equal_to<T>;
}  // namespace priv

template <class K, class V, class Hash = std::hash<K>, class Eq = std::equal_to<K>, class A = void>
class flat_hash_map
{
  public:
    using key_type       = K;
    using mapped_type    = V;
    using value_type     = std::pair<K, V>;
    using size_type      = std::size_t;
    using container      = std::vector<value_type>;
    using iterator       = typename container::iterator;
    using const_iterator = typename container::const_iterator;
    using reference      = value_type&;
    using const_reference = const value_type&;
    using difference_type = std::ptrdiff_t;

    flat_hash_map() = default;
    flat_hash_map(std::initializer_list<value_type> l)
    {
        for (const auto& e : l)
            insert(e);
    }
    template <class It>
    flat_hash_map(It b, It e)
    {
        for (; b != e; ++b)
            insert(*b);
    }
    iterator       begin() { return v.begin(); }
    iterator       end() { return v.end(); }
    const_iterator begin() const { return v.begin(); }
    const_iterator end() const { return v.end(); }
    const_iterator cbegin() const { return v.begin(); }
    const_iterator cend() const { return v.end(); }
    bool           empty() const { return v.empty(); }
    size_type      size() const { return v.size(); }
    void           clear() { v.clear(); }
    void           reserve(size_type) {}
    void           rehash(size_type) {}
    iterator       find(const K& k)
    {
        for (auto it = v.begin(); it != v.end(); ++it)
            if (Eq{}(it->first, k))
                return it;
        return v.end();
    }
    const_iterator find(const K& k) const
    {
        for (auto it = v.begin(); it != v.end(); ++it)
            if (Eq{}(it->first, k))
                return it;
        return v.end();
    }
    bool      contains(const K& k) const { return find(k) != v.end(); }
    size_type count(const K& k) const { return contains(k) ? 1 : 0; }
    V&        at(const K& k)
    {
        auto it = find(k);
        if (it == v.end())
            throw std::out_of_range("phmap at(): lookup non-existent key");
        return it->second;
    }
    const V& at(const K& k) const
    {
        auto it = find(k);
        if (it == v.end())
            throw std::out_of_range("phmap at(): lookup non-existent key");
        return it->second;
    }
    V& operator[](const K& k)
    {
        auto it = find(k);
        if (it == v.end())
        {
            v.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple());
            return v.back().second;
        }
        return it->second;
    }
    std::pair<iterator, bool> insert(value_type e)
    {
        auto it = find(e.first);
        if (it != v.end())
            return {it, false};
        v.push_back(std::move(e));
        return {v.end() - 1, true};
    }
    template <class It>
    void insert(It b, It e)
    {
        for (; b != e; ++b)
            insert(value_type(b->first, b->second));
    }
    template <class... Args>
    std::pair<iterator, bool> emplace(Args&&... a)
    {
        return insert(value_type(std::forward<Args>(a)...));
    }
    template <class... Args>
    std::pair<iterator, bool> try_emplace(const K& k, Args&&... a)
    {
        auto it = find(k);
        if (it != v.end())
            return {it, false};
        v.emplace_back(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<Args>(a)...));
        return {v.end() - 1, true};
    }
    template <class M>
    std::pair<iterator, bool> insert_or_assign(const K& k, M&& m)
    {
        auto it = find(k);
        if (it != v.end())
        {
            it->second = std::forward<M>(m);
            return {it, false};
        }
        v.emplace_back(k, std::forward<M>(m));
        return {v.end() - 1, true};
    }
    template <class F>
    bool if_contains(const K& k, F&& f) const
    {
        auto it = find(k);
        if (it == v.end())
            return false;
        f(*it);
        return true;
    }
    template <class F>
    bool modify_if(const K& k, F&& f)
    {
        auto it = find(k);
        if (it == v.end())
            return false;
        f(*it);
        return true;
    }
    iterator  erase(const_iterator it) { return v.erase(it); }
    iterator  erase(iterator it) { return v.erase(it); }
    size_type erase(const K& k)
    {
        auto it = find(k);
        if (it == v.end())
            return 0;
        v.erase(it);
        return 1;
    }
    void swap(flat_hash_map& o) { v.swap(o.v); }
    friend bool operator==(const flat_hash_map& a, const flat_hash_map& b)
    {
        if (a.size() != b.size())
            return false;
        for (const auto& e : a.v)
        {
            auto it = b.find(e.first);
            if (it == b.end() || !(it->second == e.second))
                return false;
        }
        return true;
    }
    friend bool operator!=(const flat_hash_map& a, const flat_hash_map& b) { return !(a == b); }

  private:
    container v;
};

template <class K, class Hash = std::hash<K>, class Eq = std::equal_to<K>, class A = void>
class flat_hash_set
{
  public:
    using key_type       = K;
    using value_type     = K;
    using size_type      = std::size_t;
    using container      = std::vector<K>;
    using iterator       = typename container::const_iterator;
    using const_iterator = typename container::const_iterator;
    using reference      = const K&;
    using const_reference = const K&;
    using difference_type = std::ptrdiff_t;

    flat_hash_set() = default;
    flat_hash_set(std::initializer_list<K> l)
    {
        for (const auto& e : l)
            insert(e);
    }
    template <class It>
    flat_hash_set(It b, It e)
    {
        for (; b != e; ++b)
            insert(*b);
    }
    iterator  begin() const { return v.begin(); }
    iterator  end() const { return v.end(); }
    iterator  cbegin() const { return v.begin(); }
    iterator  cend() const { return v.end(); }
    bool      empty() const { return v.empty(); }
    size_type size() const { return v.size(); }
    void      clear() { v.clear(); }
    void      reserve(size_type) {}
    template <class Q>
    iterator  find(const Q& k) const
    {
        for (auto it = v.begin(); it != v.end(); ++it)
            if (Eq{}(*it, k))
                return it;
        return v.end();
    }
    iterator  find(const K& k) const
    {
        for (auto it = v.begin(); it != v.end(); ++it)
            if (Eq{}(*it, k))
                return it;
        return v.end();
    }
    bool                      contains(const K& k) const { return find(k) != v.end(); }
    template <class Q>
    bool                      contains(const Q& k) const { return find(k) != v.end(); }
    size_type                 count(const K& k) const { return contains(k) ? 1 : 0; }
    std::pair<iterator, bool> insert(const K& k)
    {
        auto it = find(k);
        if (it != v.end())
            return {it, false};
        v.push_back(k);
        return {v.end() - 1, true};
    }
    std::pair<iterator, bool> insert(K&& k)
    {
        auto it = find(k);
        if (it != v.end())
            return {it, false};
        v.push_back(std::move(k));
        return {v.end() - 1, true};
    }
    iterator insert(iterator, const K& k) { return insert(k).first; }
    template <class It>
    void insert(It b, It e)
    {
        for (; b != e; ++b)
            insert(*b);
    }
    template <class... Args>
    std::pair<iterator, bool> emplace(Args&&... a)
    {
        return insert(K(std::forward<Args>(a)...));
    }
    iterator  erase(iterator it) { return v.erase(it); }
    size_type erase(const K& k)
    {
        auto it = find(k);
        if (it == v.end())
            return 0;
        v.erase(it);
        return 1;
    }
    friend bool operator==(const flat_hash_set& a, const flat_hash_set& b)
    {
        if (a.size() != b.size())
            return false;
        for (const auto& e : a.v)
            if (!b.contains(e))
                return false;
        return true;
    }
    friend bool operator!=(const flat_hash_set& a, const flat_hash_set& b) { return !(a == b); }

  private:
    container v;
};
template <class K, class V, class Hash = std::hash<K>, class Eq = std::equal_to<K>, class A = void, std::size_t N = 4, class Mtx = NullMutex>
class parallel_flat_hash_map : public flat_hash_map<K, V, Hash, Eq>
{
    using flat_hash_map<K, V, Hash, Eq>::flat_hash_map;
};
// with a mutex, every operation on one element is atomic
template <class K, class V, class Hash, class Eq, class A, std::size_t N>
class parallel_flat_hash_map<K, V, Hash, Eq, A, N, std::mutex> : public flat_hash_map<K, V, Hash, Eq>
{
    using base = flat_hash_map<K, V, Hash, Eq>;
    mutable std::mutex m{};
    using guard = std::lock_guard<std::mutex>;

  public:
    parallel_flat_hash_map() = default;
    parallel_flat_hash_map(const parallel_flat_hash_map& o) : base(o) {}
    parallel_flat_hash_map& operator=(const parallel_flat_hash_map& o)
    {
        base::operator=(o);
        return *this;
    }
    template <class... Args>
    auto try_emplace(const K& k, Args&&... a)
    {
        const guard g{m};
        return base::try_emplace(k, std::forward<Args>(a)...);
    }
    template <class... Args>
    auto emplace(Args&&... a)
    {
        const guard g{m};
        return base::emplace(std::forward<Args>(a)...);
    }
    auto insert(typename base::value_type e)
    {
        const guard g{m};
        return base::insert(std::move(e));
    }
    template <class M>
    auto insert_or_assign(const K& k, M&& x)
    {
        const guard g{m};
        return base::insert_or_assign(k, std::forward<M>(x));
    }
    template <class F>
    bool if_contains(const K& k, F&& f) const
    {
        const guard g{m};
        return base::if_contains(k, std::forward<F>(f));
    }
    template <class F>
    bool modify_if(const K& k, F&& f)
    {
        const guard g{m};
        return base::modify_if(k, std::forward<F>(f));
    }
    bool contains(const K& k) const
    {
        const guard g{m};
        return base::contains(k);
    }
    std::size_t count(const K& k) const { return contains(k) ? 1 : 0; }
    std::size_t size() const
    {
        const guard g{m};
        return base::size();
    }
    bool        empty() const { return size() == 0; }
    std::size_t erase(const K& k)
    {
        const guard g{m};
        return base::erase(k);
    }
};
template <class K, class Hash = std::hash<K>, class Eq = std::equal_to<K>, class A = void, std::size_t N = 4, class Mtx = NullMutex>
class parallel_flat_hash_set : public flat_hash_set<K, Hash, Eq>
{
    using flat_hash_set<K, Hash, Eq>::flat_hash_set;
};
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = void>
using node_hash_map = flat_hash_map<K, V, H, E>;
template <class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = void>
using node_hash_set = flat_hash_set<K, H, E>;
template <class K, class C = std::less<K>>
using btree_set = std::set<K, C>;
template <class K, class V, class C = std::less<K>>
using btree_map = std::map<K, V, C>;
}  // namespace phmap
