#pragma once
#include "shared_guarded.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::shared_mutex>
class ordered_guarded {
    mutable M m_;
    T obj_;

  public:
    using shared_handle = shim_handle<const T, shim_read_lock<M>>;
    template<class... A>
    explicit ordered_guarded(A&&... a): obj_(std::forward<A>(a)...) {}
    template<class F> decltype(auto) modify(F&& f) { std::unique_lock<M> l(m_); return f(obj_); }
    template<class F> decltype(auto) read(F&& f) const { shim_read_lock<M> l(m_); return f(static_cast<const T&>(obj_)); }
    shared_handle lock_shared() const { shim_read_lock<M> l(m_); return shared_handle(&obj_, std::move(l)); }
    T load() const { shim_read_lock<M> l(m_); return obj_; }
    template<class U> void store(U&& u) { std::unique_lock<M> l(m_); obj_ = std::forward<U>(u); }
};
}  // namespace gmlc::libguarded
