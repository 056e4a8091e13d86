// Stand-in for GMLC-TDC/concurrency libguarded
#pragma once
#include <memory>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <utility>
namespace gmlc::libguarded {
template<class T, class L>
class shim_handle {
    T* ptr_{nullptr};
    L lock_;

  public:
    using pointer = T*;
    using element_type = T;
    shim_handle() = default;
    shim_handle(T* p, L&& l): ptr_(p), lock_(std::move(l)) {}
    shim_handle(shim_handle&& o) noexcept: ptr_(std::exchange(o.ptr_, nullptr)), lock_(std::move(o.lock_)) {}
    shim_handle& operator=(shim_handle&& o) noexcept
    {
        if (lock_.owns_lock()) lock_.unlock();
        ptr_ = std::exchange(o.ptr_, nullptr);
        lock_ = std::move(o.lock_);
        return *this;
    }
    T& operator*() const { return *ptr_; }
    T* operator->() const { return ptr_; }
    T* get() const { return ptr_; }
    explicit operator bool() const { return ptr_ != nullptr; }
    void unlock() { ptr_ = nullptr; if (lock_.owns_lock()) lock_.unlock(); }
    auto begin() const { return ptr_->begin(); }
    auto end() const { return ptr_->end(); }
};
}  // namespace gmlc::libguarded
