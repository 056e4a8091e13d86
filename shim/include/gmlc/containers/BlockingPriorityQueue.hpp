// Stand-in for GMLC-TDC/containers blocking queues
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<class T>
class BlockingPriorityQueue {
    mutable std::mutex m_;
    std::condition_variable cv_;
    std::deque<T> q_;
    std::deque<T> p_;
    T take()
    {
        auto& src = p_.empty() ? q_ : p_;
        T v = std::move(src.front());
        src.pop_front();
        return v;
    }
    bool none() const { return q_.empty() && p_.empty(); }

  public:
    BlockingPriorityQueue() = default;
    template<class Z> void push(Z&& v) { { std::lock_guard<std::mutex> l(m_); q_.emplace_back(std::forward<Z>(v)); } cv_.notify_all(); }
    template<class... A> void emplace(A&&... a) { { std::lock_guard<std::mutex> l(m_); q_.emplace_back(std::forward<A>(a)...); } cv_.notify_all(); }
    template<class Z> void pushPriority(Z&& v) { { std::lock_guard<std::mutex> l(m_); p_.emplace_back(std::forward<Z>(v)); } cv_.notify_all(); }
    template<class... A> void emplacePriority(A&&... a) { { std::lock_guard<std::mutex> l(m_); p_.emplace_back(std::forward<A>(a)...); } cv_.notify_all(); }
    std::optional<T> try_pop()
    {
        std::lock_guard<std::mutex> l(m_);
        if (none()) return std::nullopt;
        return take();
    }
    T pop()
    {
        std::unique_lock<std::mutex> l(m_);
        cv_.wait(l, [this] { return !none(); });
        return take();
    }
    template<class D>
    std::optional<T> pop(D timeout)
    {
        std::unique_lock<std::mutex> l(m_);
        if (!cv_.wait_for(l, timeout, [this] { return !none(); })) return std::nullopt;
        return take();
    }
    bool empty() const { std::lock_guard<std::mutex> l(m_); return none(); }
    std::size_t size() const { std::lock_guard<std::mutex> l(m_); return q_.size() + p_.size(); }
    void clear() { std::lock_guard<std::mutex> l(m_); q_.clear(); p_.clear(); }
};
}  // namespace gmlc::containers
