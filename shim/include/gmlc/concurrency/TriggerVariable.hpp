#pragma once
#include <chrono>
#include <condition_variable>
#include <mutex>
namespace gmlc::concurrency {
class TriggerVariable {
    mutable std::mutex m_;
    mutable std::condition_variable cv_;
    bool active_{false};
    bool triggered_{false};

  public:
    explicit TriggerVariable(bool active = false): active_(active) {}
    bool activate()
    {
        { std::lock_guard<std::mutex> l(m_); if (active_) return false; active_ = true; triggered_ = false; }
        cv_.notify_all();
        return true;
    }
    bool trigger()
    {
        { std::lock_guard<std::mutex> l(m_); if (!active_) return false; triggered_ = true; }
        cv_.notify_all();
        return true;
    }
    bool isTriggered() const { std::lock_guard<std::mutex> l(m_); return triggered_; }
    bool isActive() const { std::lock_guard<std::mutex> l(m_); return active_; }
    bool wait() const
    {
        std::unique_lock<std::mutex> l(m_);
        if (!active_) return true;
        cv_.wait(l, [this] { return triggered_; });
        return true;
    }
    template<class D>
    bool wait_for(const D& d) const
    {
        std::unique_lock<std::mutex> l(m_);
        if (!active_) return true;
        return cv_.wait_for(l, d, [this] { return triggered_; });
    }
    void waitActivation() const { std::unique_lock<std::mutex> l(m_); cv_.wait(l, [this] { return active_; }); }
    template<class D>
    bool wait_forActivation(const D& d) const { std::unique_lock<std::mutex> l(m_); return cv_.wait_for(l, d, [this] { return active_; }); }
    void reset()
    {
        { std::lock_guard<std::mutex> l(m_); active_ = false; triggered_ = false; }
        cv_.notify_all();
    }
};
}  // namespace gmlc::concurrency
