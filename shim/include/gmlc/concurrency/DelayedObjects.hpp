#pragma once
#include <future>
#include <map>
#include <mutex>
#include <string>
#include <vector>
namespace gmlc::concurrency {
template<class X>
class DelayedObjects {
    std::mutex m_;
    std::map<int, std::promise<X>> pi_, usedI_;
    std::map<std::string, std::promise<X>> ps_, usedS_;
    template<class M, class K>
    static bool mv(M& from, M& to, const K& k, const X& v)
    {
        auto f = from.find(k);
        if (f == from.end()) return false;
        f->second.set_value(v);
        to.insert_or_assign(f->first, std::move(f->second));
        from.erase(f);
        return true;
    }

  public:
    DelayedObjects() = default;
    ~DelayedObjects() { for (auto& p : pi_) p.second.set_value(X{}); for (auto& p : ps_) p.second.set_value(X{}); }
    void setDelayedValue(int i, const X& v) { std::lock_guard<std::mutex> l(m_); mv(pi_, usedI_, i, v); }
    void setDelayedValue(const std::string& n, const X& v) { std::lock_guard<std::mutex> l(m_); mv(ps_, usedS_, n, v); }
    bool isRecognized(int i) { std::lock_guard<std::mutex> l(m_); return pi_.count(i) > 0 || usedI_.count(i) > 0; }
    bool isRecognized(const std::string& n) { std::lock_guard<std::mutex> l(m_); return ps_.count(n) > 0 || usedS_.count(n) > 0; }
    bool isCompleted(int i) { std::lock_guard<std::mutex> l(m_); return usedI_.count(i) > 0; }
    bool isCompleted(const std::string& n) { std::lock_guard<std::mutex> l(m_); return usedS_.count(n) > 0; }
    void fulfillAllPromises(const X& v)
    {
        std::lock_guard<std::mutex> l(m_);
        while (!pi_.empty()) mv(pi_, usedI_, int(pi_.begin()->first), v);
        while (!ps_.empty()) mv(ps_, usedS_, std::string(ps_.begin()->first), v);
    }
    std::future<X> getFuture(int i)
    {
        std::lock_guard<std::mutex> l(m_);
        pi_[i] = std::promise<X>();
        return pi_[i].get_future();
    }
    std::future<X> getFuture(const std::string& n)
    {
        std::lock_guard<std::mutex> l(m_);
        ps_[n] = std::promise<X>();
        return ps_[n].get_future();
    }
    void finishedWithValue(int i) { std::lock_guard<std::mutex> l(m_); usedI_.erase(i); }
    void finishedWithValue(const std::string& n) { std::lock_guard<std::mutex> l(m_); usedS_.erase(n); }
};
}  // namespace gmlc::concurrency
