#pragma once
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace gmlc::concurrency {
template<class X>
class DelayedDestructor {
    std::recursive_timed_mutex m_;
    std::vector<std::shared_ptr<X>> objs_;
    std::function<void(std::shared_ptr<X>&)> before_;

  public:
    DelayedDestructor() = default;
    explicit DelayedDestructor(std::function<void(std::shared_ptr<X>&)> f): before_(std::move(f)) {}
    ~DelayedDestructor()
    {
        for (int i = 0; i < 6 && !objs_.empty(); ++i) {
            destroyObjects();
            if (!objs_.empty()) std::this_thread::sleep_for(std::chrono::milliseconds(100));
        }
    }
    std::size_t destroyObjects()
    {
        std::vector<std::shared_ptr<X>> dead;
        {
            std::lock_guard<std::recursive_timed_mutex> l(m_);
            for (auto it = objs_.begin(); it != objs_.end();) {
                if (it->use_count() <= 1) { dead.push_back(std::move(*it)); it = objs_.erase(it); }
                else ++it;
            }
        }
        if (before_) for (auto& d : dead) before_(d);
        dead.clear();
        std::lock_guard<std::recursive_timed_mutex> l(m_);
        return objs_.size();
    }
    std::size_t destroyObjects(std::chrono::milliseconds delay)
    {
        std::size_t left = destroyObjects();
        const auto step = std::chrono::milliseconds(delay.count() > 100 ? 50 : (delay.count() > 2 ? delay.count() / 2 : 1));
        auto waited = std::chrono::milliseconds(0);
        while (left > 0 && waited < delay) {
            std::this_thread::sleep_for(step);
            waited += step;
            left = destroyObjects();
        }
        return left;
    }
    void addObjectsToBeDestroyed(std::shared_ptr<X> o) { std::lock_guard<std::recursive_timed_mutex> l(m_); objs_.push_back(std::move(o)); }
};
}  // namespace gmlc::concurrency
