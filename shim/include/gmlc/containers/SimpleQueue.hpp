#pragma once
#include <deque>
#include <mutex>
#include <optional>
namespace gmlc::containers {
template<class T>
class SimpleQueue {
    mutable std::mutex m_;
    std::deque<T> q_;

  public:
    template<class Z> void push(Z&& v) { std::lock_guard<std::mutex> l(m_); q_.emplace_back(std::forward<Z>(v)); }
    template<class... A> void emplace(A&&... a) { std::lock_guard<std::mutex> l(m_); q_.emplace_back(std::forward<A>(a)...); }
    std::optional<T> pop()
    {
        std::lock_guard<std::mutex> l(m_);
        if (q_.empty()) return std::nullopt;
        std::optional<T> v(std::move(q_.front()));
        q_.pop_front();
        return v;
    }
    std::optional<T> peek() const { std::lock_guard<std::mutex> l(m_); if (q_.empty()) return std::nullopt; return q_.front(); }
    bool empty() const { std::lock_guard<std::mutex> l(m_); return q_.empty(); }
    std::size_t size() const { std::lock_guard<std::mutex> l(m_); return q_.size(); }
    void clear() { std::lock_guard<std::mutex> l(m_); q_.clear(); }
};
}  // namespace gmlc::containers
