#pragma once
#include "shared_guarded.hpp"
#include <atomic>
namespace gmlc::libguarded {
template<class T, class M = std::shared_mutex>
class staged_guarded {
    mutable M m_;
    T obj_;
    std::atomic<bool> constant_{false};

  public:
    using handle = shim_handle<T, std::unique_lock<M>>;
    using shared_handle = shim_handle<const T, shim_read_lock<M>>;
    template<class... A>
    explicit staged_guarded(A&&... a): obj_(std::forward<A>(a)...) {}
    handle lock() { return constant_ ? handle(&obj_, std::unique_lock<M>()) : handle(&obj_, std::unique_lock<M>(m_)); }
    shared_handle lock_shared() const { return constant_ ? shared_handle(&obj_, shim_read_lock<M>()) : shared_handle(&obj_, shim_read_lock<M>(m_)); }
    void transition() { constant_ = true; }
};
}  // namespace gmlc::libguarded
