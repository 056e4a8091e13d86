#pragma once
#include "shim_guarded_common.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::mutex>
class guarded {
    mutable M m_;
    T obj_;

  public:
    using handle = shim_handle<T, std::unique_lock<M>>;
    using const_handle = shim_handle<const T, std::unique_lock<M>>;
    template<class... A>
    explicit guarded(A&&... a): obj_(std::forward<A>(a)...) {}
    handle lock() { std::unique_lock<M> l(m_); return handle(&obj_, std::move(l)); }
    const_handle lock() const { std::unique_lock<M> l(m_); return const_handle(&obj_, std::move(l)); }
    handle try_lock() { std::unique_lock<M> l(m_, std::try_to_lock); return l.owns_lock() ? handle(&obj_, std::move(l)) : handle(); }
    T load() const { std::lock_guard<M> l(m_); return obj_; }
    template<class U> void store(U&& u) { std::lock_guard<M> l(m_); obj_ = std::forward<U>(u); }
    template<class U> guarded& operator=(U&& u) { store(std::forward<U>(u)); return *this; }
};
}  // namespace gmlc::libguarded
