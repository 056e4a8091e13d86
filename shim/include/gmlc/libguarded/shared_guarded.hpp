#pragma once
#include "shim_guarded_common.hpp"
namespace gmlc::libguarded {
template<class M>
using shim_read_lock = std::conditional_t<std::is_same_v<M, std::mutex>, std::unique_lock<M>, std::shared_lock<M>>;
template<class T, class M = std::shared_mutex>
class shared_guarded {
    mutable M m_;
    T obj_;

  public:
    using handle = shim_handle<T, std::unique_lock<M>>;
    using shared_handle = shim_handle<const T, shim_read_lock<M>>;
    using const_handle = shared_handle;
    template<class... A>
    explicit shared_guarded(A&&... a): obj_(std::forward<A>(a)...) {}
    handle lock() { std::unique_lock<M> l(m_); return handle(&obj_, std::move(l)); }
    shared_handle lock() const { shim_read_lock<M> l(m_); return shared_handle(&obj_, std::move(l)); }
    shared_handle lock_shared() const { shim_read_lock<M> l(m_); return shared_handle(&obj_, std::move(l)); }
    T load() const { shim_read_lock<M> l(m_); return obj_; }
    template<class U> void store(U&& u) { std::unique_lock<M> l(m_); obj_ = std::forward<U>(u); }
};
}  // namespace gmlc::libguarded
