#pragma once
#include "shim_guarded_common.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::mutex>
class guarded_opt {
    mutable M m_;
    T obj_;
    bool enabled_;

  public:
    using handle = shim_handle<T, std::unique_lock<M>>;
    using const_handle = shim_handle<const T, std::unique_lock<M>>;
    template<class... A>
    explicit guarded_opt(bool enable, A&&... a): obj_(std::forward<A>(a)...), enabled_(enable) {}
    handle lock() { return enabled_ ? handle(&obj_, std::unique_lock<M>(m_)) : handle(&obj_, std::unique_lock<M>()); }
    const_handle lock() const { return enabled_ ? const_handle(&obj_, std::unique_lock<M>(m_)) : const_handle(&obj_, std::unique_lock<M>()); }
};
}  // namespace gmlc::libguarded
