#pragma once
#include "shim_guarded_common.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::mutex>
class atomic_guarded {
    mutable M m_;
    T obj_;

  public:
    template<class... A>
    explicit atomic_guarded(A&&... a): obj_(std::forward<A>(a)...) {}
    T load() const { std::lock_guard<M> l(m_); return obj_; }
    operator T() const { return load(); }
    template<class U> void store(U&& u) { std::lock_guard<M> l(m_); obj_ = std::forward<U>(u); }
    template<class U> atomic_guarded& operator=(U&& u) { store(std::forward<U>(u)); return *this; }
    template<class U> T exchange(U&& u) { std::lock_guard<M> l(m_); T old = std::move(obj_); obj_ = std::forward<U>(u); return old; }
};
}  // namespace gmlc::libguarded
