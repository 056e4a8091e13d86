#pragma once
#include "shim_guarded_common.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::mutex>
class cow_guarded {
    mutable std::mutex ptrLock_;
    std::mutex writeLock_;
    std::shared_ptr<const T> data_;
    struct deleter {
        cow_guarded* g{nullptr};
        std::unique_lock<std::mutex> lock;
        bool cancelled{false};
        void operator()(T* p)
        {
            if (p == nullptr) return;
            std::shared_ptr<const T> np(p);
            if (!cancelled && g != nullptr) { std::lock_guard<std::mutex> l(g->ptrLock_); g->data_ = np; }
            if (lock.owns_lock()) lock.unlock();
        }
    };

  public:
    using handle = std::unique_ptr<T, deleter>;
    using shared_handle = std::shared_ptr<const T>;
    template<class... A>
    explicit cow_guarded(A&&... a): data_(std::make_shared<const T>(std::forward<A>(a)...)) {}
    handle lock()
    {
        std::unique_lock<std::mutex> l(writeLock_);
        deleter d;
        d.g = this;
        d.lock = std::move(l);
        return handle(new T(*lock_shared()), std::move(d));
    }
    shared_handle lock_shared() const { std::lock_guard<std::mutex> l(ptrLock_); return data_; }
};
}  // namespace gmlc::libguarded
