#pragma once
#include <condition_variable>
#include <mutex>
#include <optional>
namespace gmlc::containers {
template<class T>
class AirLock {
    mutable std::mutex m_;
    std::condition_variable cv_;
    std::optional<T> v_;

  public:
    template<class Z>
    bool try_load(Z&& z) { std::lock_guard<std::mutex> l(m_); if (v_) return false; v_.emplace(std::forward<Z>(z)); return true; }
    template<class Z>
    void load(Z&& z)
    {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [this] { return !v_; });
        v_.emplace(std::forward<Z>(z));
    }
    std::optional<T> try_unload()
    {
        std::optional<T> r;
        { std::lock_guard<std::mutex> l(m_); if (!v_) return std::nullopt; r = std::move(v_); v_.reset(); }
        cv_.notify_all();
        return r;
    }
    bool isLoaded() const { std::lock_guard<std::mutex> l(m_); return v_.has_value(); }
};
}  // namespace gmlc::containers
