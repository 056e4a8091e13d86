#pragma once
#include "shared_guarded.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::shared_mutex>
class shared_guarded_opt {
    mutable M m_;
    T obj_;
    bool enabled_;

  public:
    using handle = shim_handle<T, std::unique_lock<M>>;
    using shared_handle = shim_handle<const T, shim_read_lock<M>>;
    template<class... A>
    explicit shared_guarded_opt(bool enable, A&&... a): obj_(std::forward<A>(a)...), enabled_(enable) {}
    handle lock() { return enabled_ ? handle(&obj_, std::unique_lock<M>(m_)) : handle(&obj_, std::unique_lock<M>()); }
    shared_handle lock() const { return lock_shared(); }
    shared_handle lock_shared() const { return enabled_ ? shared_handle(&obj_, shim_read_lock<M>(m_)) : shared_handle(&obj_, shim_read_lock<M>()); }
    T load() const { auto h = lock_shared(); return *h; }
    template<class U> void store(U&& u) { auto h = lock(); *h = std::forward<U>(u); }
};
}  // namespace gmlc::libguarded
