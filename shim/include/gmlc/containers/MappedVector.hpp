// Stand-in for the GMLC-TDC/containers mapped vectors
#pragma once
#include "MapTraits.hpp"
#include <functional>
#include <cstddef>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
enum class reference_stability : int { unstable = 0, stable = 1 };
struct no_search_type {};
constexpr no_search_type no_search{};
namespace gmlc::containers {
struct shim_string_hash {
    using is_transparent = void;
    std::size_t operator()(std::string_view s) const noexcept { return std::hash<std::string_view>{}(s); }
};
template<class K>
struct shim_map {
    using type = std::conditional_t<is_easily_hashable<K>::value, std::unordered_map<K, std::size_t>, std::map<K, std::size_t>>;
    using arg = const K&;
};
template<>
struct shim_map<std::string> {
    using type = std::unordered_map<std::string, std::size_t, shim_string_hash, std::equal_to<>>;
    using arg = std::string_view;
};
template<class M>
void shim_erase_index(M& m, std::size_t idx)
{
    for (auto it = m.begin(); it != m.end();) {
        if (it->second == idx) { it = m.erase(it); continue; }
        if (it->second > idx) --(it->second);
        ++it;
    }
}
template<class V>
class shim_vec {
  protected:
    std::deque<V> data_;

  public:
    auto begin() { return data_.begin(); }
    auto end() { return data_.end(); }
    auto begin() const { return data_.begin(); }
    auto end() const { return data_.end(); }
    auto cbegin() const { return data_.cbegin(); }
    auto cend() const { return data_.cend(); }
    std::size_t size() const { return data_.size(); }
    bool empty() const { return data_.empty(); }
    V& operator[](std::size_t i) { return data_[i]; }
    const V& operator[](std::size_t i) const { return data_[i]; }
    V& back() { return data_.back(); }
    const V& back() const { return data_.back(); }
    template<class F> void modify(F f) { for (auto& v : data_) f(v); }
    template<class F> void apply(F f) { for (auto& v : data_) f(v); }
    template<class F> void transform(F f) { for (auto& v : data_) v = f(v); }
};

template<class V, class K, reference_stability S = reference_stability::unstable>
class MappedVector: public shim_vec<V> {
    using base = shim_vec<V>;
    using arg = typename shim_map<K>::arg;
    typename shim_map<K>::type lookup_;

  public:
    using base::operator[];
    template<class... A>
    std::optional<std::size_t> insert(arg k, A&&... a)
    {
        if (lookup_.find(k) != lookup_.end()) return std::nullopt;
        const auto i = base::data_.size();
        base::data_.emplace_back(std::forward<A>(a)...);
        lookup_.emplace(K(k), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(no_search_type, A&&... a)
    {
        base::data_.emplace_back(std::forward<A>(a)...);
        return base::data_.size() - 1;
    }
    template<class... A>
    std::size_t insert_or_assign(arg k, A&&... a)
    {
        auto f = lookup_.find(k);
        if (f != lookup_.end()) { base::data_[f->second] = V(std::forward<A>(a)...); return f->second; }
        return *insert(k, std::forward<A>(a)...);
    }
    auto find(arg k) { auto f = lookup_.find(k); return (f == lookup_.end()) ? this->end() : this->begin() + static_cast<std::ptrdiff_t>(f->second); }
    auto find(arg k) const { auto f = lookup_.find(k); return (f == lookup_.end()) ? this->end() : this->begin() + static_cast<std::ptrdiff_t>(f->second); }
    bool addSearchTerm(arg k, std::size_t idx) { return (idx < this->size()) && lookup_.emplace(K(k), idx).second; }
    bool addSearchTermForIndex(arg k, std::size_t idx) { return addSearchTerm(k, idx); }
    void removeIndex(std::size_t idx)
    {
        if (idx >= this->size()) return;
        base::data_.erase(base::data_.begin() + static_cast<std::ptrdiff_t>(idx));
        shim_erase_index(lookup_, idx);
    }
    void remove(arg k) { auto f = lookup_.find(k); if (f != lookup_.end()) removeIndex(f->second); }
    void clear() { base::data_.clear(); lookup_.clear(); }
};
template<class V, reference_stability S = reference_stability::unstable>
using StringMappedVector = MappedVector<V, std::string, S>;

template<class V, class K1, class K2, reference_stability S = reference_stability::unstable>
class DualMappedVector: public shim_vec<V> {
    using base = shim_vec<V>;
    using arg1 = typename shim_map<K1>::arg;
    using arg2 = typename shim_map<K2>::arg;
    typename shim_map<K1>::type l1_;
    typename shim_map<K2>::type l2_;
    template<class... A>
    std::size_t add(A&&... a) { base::data_.emplace_back(std::forward<A>(a)...); return base::data_.size() - 1; }

  public:
    using base::operator[];
    template<class... A>
    std::optional<std::size_t> insert(arg1 k1, arg2 k2, A&&... a)
    {
        const bool f1 = l1_.find(k1) != l1_.end();
        const bool f2 = l2_.find(k2) != l2_.end();
        if (f1 && f2) return std::nullopt;
        const auto i = add(std::forward<A>(a)...);
        if (!f1) l1_.emplace(K1(k1), i);
        if (!f2) l2_.emplace(K2(k2), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(no_search_type, arg2 k2, A&&... a)
    {
        if (l2_.find(k2) != l2_.end()) return std::nullopt;
        const auto i = add(std::forward<A>(a)...);
        l2_.emplace(K2(k2), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(arg1 k1, no_search_type, A&&... a)
    {
        if (l1_.find(k1) != l1_.end()) return std::nullopt;
        const auto i = add(std::forward<A>(a)...);
        l1_.emplace(K1(k1), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(no_search_type, no_search_type, A&&... a) { return add(std::forward<A>(a)...); }
    bool addSearchTermForIndex(arg1 k, std::size_t idx) { return (idx < this->size()) && l1_.emplace(K1(k), idx).second; }
    bool addSearchTermForIndex(arg2 k, std::size_t idx) { return (idx < this->size()) && l2_.emplace(K2(k), idx).second; }
    bool addSearchTerm(arg1 k, arg2 existing) { auto f = l2_.find(existing); return (f != l2_.end()) && l1_.emplace(K1(k), f->second).second; }
    bool addSearchTerm(arg2 k, arg1 existing) { auto f = l1_.find(existing); return (f != l1_.end()) && l2_.emplace(K2(k), f->second).second; }
    bool addSearchTerm(arg1 k, std::size_t idx) requires(!std::is_convertible_v<std::size_t, K2>) { return addSearchTermForIndex(k, idx); }
    auto find(arg1 k) { auto f = l1_.find(k); return (f == l1_.end()) ? this->end() : this->begin() + static_cast<std::ptrdiff_t>(f->second); }
    auto find(arg1 k) const { auto f = l1_.find(k); return (f == l1_.end()) ? this->end() : this->begin() + static_cast<std::ptrdiff_t>(f->second); }
    auto find(arg2 k) { auto f = l2_.find(k); return (f == l2_.end()) ? this->end() : this->begin() + static_cast<std::ptrdiff_t>(f->second); }
    auto find(arg2 k) const { auto f = l2_.find(k); return (f == l2_.end()) ? this->end() : this->begin() + static_cast<std::ptrdiff_t>(f->second); }
    void removeIndex(std::size_t idx)
    {
        if (idx >= this->size()) return;
        base::data_.erase(base::data_.begin() + static_cast<std::ptrdiff_t>(idx));
        shim_erase_index(l1_, idx);
        shim_erase_index(l2_, idx);
    }
    void remove(arg1 k) { auto f = l1_.find(k); if (f != l1_.end()) removeIndex(f->second); }
    void remove(arg2 k) { auto f = l2_.find(k); if (f != l2_.end()) removeIndex(f->second); }
    void clear() { base::data_.clear(); l1_.clear(); l2_.clear(); }
};
template<class V, class K2, reference_stability S = reference_stability::unstable, int BLOCK = 5>
using DualStringMappedVector = DualMappedVector<V, std::string, K2, S>;

template<class V>
class shim_ptrvec {
  protected:
    std::vector<std::unique_ptr<V>> data_;

  public:
    auto begin() { return data_.begin(); }
    auto end() { return data_.end(); }
    auto begin() const { return data_.begin(); }
    auto end() const { return data_.end(); }
    std::size_t size() const { return data_.size(); }
    bool empty() const { return data_.empty(); }
    V* operator[](std::size_t i) const { return (i < data_.size()) ? data_[i].get() : nullptr; }
    V* back() const { return data_.empty() ? nullptr : data_.back().get(); }
    template<class F> void modify(F f) { for (auto& v : data_) f(v); }
    template<class F> void apply(F f) { for (auto& v : data_) f(v.get()); }
    template<class... A>
    std::size_t addp(std::unique_ptr<V>&& p) { data_.push_back(std::move(p)); return data_.size() - 1; }
    template<class... A>
    std::size_t addp(A&&... a) { data_.push_back(std::make_unique<V>(std::forward<A>(a)...)); return data_.size() - 1; }
};
template<class V, class K>
class MappedPointerVector: public shim_ptrvec<V> {
    using base = shim_ptrvec<V>;
    using arg = typename shim_map<K>::arg;
    typename shim_map<K>::type lookup_;

  public:
    using base::operator[];
    template<class... A>
    std::optional<std::size_t> insert(arg k, A&&... a)
    {
        if (lookup_.find(k) != lookup_.end()) return std::nullopt;
        const auto i = base::addp(std::forward<A>(a)...);
        lookup_.emplace(K(k), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(no_search_type, A&&... a) { return base::addp(std::forward<A>(a)...); }
    template<class... A>
    std::optional<std::size_t> insert_or_assign(arg k, A&&... a)
    {
        auto f = lookup_.find(k);
        if (f != lookup_.end()) { base::data_[f->second] = std::make_unique<V>(std::forward<A>(a)...); return f->second; }
        return insert(k, std::forward<A>(a)...);
    }
    V* find(arg k) const { auto f = lookup_.find(k); return (f == lookup_.end()) ? nullptr : base::data_[f->second].get(); }
    bool addSearchTermForIndex(arg k, std::size_t idx) { return (idx < this->size()) && lookup_.emplace(K(k), idx).second; }
    void removeIndex(std::size_t idx)
    {
        if (idx >= this->size()) return;
        base::data_.erase(base::data_.begin() + static_cast<std::ptrdiff_t>(idx));
        shim_erase_index(lookup_, idx);
    }
    void remove(arg k) { auto f = lookup_.find(k); if (f != lookup_.end()) removeIndex(f->second); }
    void clear() { base::data_.clear(); lookup_.clear(); }
};
template<class V, class K1, class K2>
class DualMappedPointerVector: public shim_ptrvec<V> {
    using base = shim_ptrvec<V>;
    using arg1 = typename shim_map<K1>::arg;
    using arg2 = typename shim_map<K2>::arg;
    typename shim_map<K1>::type l1_;
    typename shim_map<K2>::type l2_;

  public:
    using base::operator[];
    template<class... A>
    std::optional<std::size_t> insert(arg1 k1, arg2 k2, A&&... a)
    {
        const bool f1 = l1_.find(k1) != l1_.end();
        const bool f2 = l2_.find(k2) != l2_.end();
        if (f1 && f2) return std::nullopt;
        const auto i = base::addp(std::forward<A>(a)...);
        l1_.emplace(K1(k1), i);
        l2_.emplace(K2(k2), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(no_search_type, arg2 k2, A&&... a)
    {
        if (l2_.find(k2) != l2_.end()) return std::nullopt;
        const auto i = base::addp(std::forward<A>(a)...);
        l2_.emplace(K2(k2), i);
        return i;
    }
    template<class... A>
    std::optional<std::size_t> insert(arg1 k1, no_search_type, A&&... a)
    {
        if (l1_.find(k1) != l1_.end()) return std::nullopt;
        const auto i = base::addp(std::forward<A>(a)...);
        l1_.emplace(K1(k1), i);
        return i;
    }
    V* find(arg1 k) const { auto f = l1_.find(k); return (f == l1_.end()) ? nullptr : base::data_[f->second].get(); }
    V* find(arg2 k) const { auto f = l2_.find(k); return (f == l2_.end()) ? nullptr : base::data_[f->second].get(); }
    bool addSearchTermForIndex(arg1 k, std::size_t idx) { return (idx < this->size()) && l1_.emplace(K1(k), idx).second; }
    bool addSearchTermForIndex(arg2 k, std::size_t idx) { return (idx < this->size()) && l2_.emplace(K2(k), idx).second; }
    void clear() { base::data_.clear(); l1_.clear(); l2_.clear(); }
};
}  // namespace gmlc::containers
