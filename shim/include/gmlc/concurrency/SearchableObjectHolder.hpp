#pragma once
#include "TripWire.hpp"
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::concurrency {
template<class X, class T = int>
class SearchableObjectHolder {
    mutable std::mutex m_;
    std::map<std::string, std::shared_ptr<X>, std::less<>> objs_;
    std::map<std::string, std::vector<T>, std::less<>> types_;

  public:
    bool addObject(std::string_view name, std::shared_ptr<X> obj, T type)
    {
        std::lock_guard<std::mutex> l(m_);
        const bool ok = objs_.emplace(std::string(name), std::move(obj)).second;
        if (ok) types_[std::string(name)].push_back(type);
        return ok;
    }
    bool addType(std::string_view name, T type)
    {
        std::lock_guard<std::mutex> l(m_);
        if (objs_.find(name) == objs_.end()) return false;
        types_[std::string(name)].push_back(type);
        return true;
    }
    bool copyObject(std::string_view from, std::string_view to)
    {
        std::lock_guard<std::mutex> l(m_);
        auto f = objs_.find(from);
        if (f == objs_.end()) return false;
        const bool ok = objs_.emplace(std::string(to), f->second).second;
        if (ok) types_[std::string(to)] = types_[std::string(from)];
        return ok;
    }
    bool empty() const { std::lock_guard<std::mutex> l(m_); return objs_.empty(); }
    std::vector<std::shared_ptr<X>> getObjects() const
    {
        std::lock_guard<std::mutex> l(m_);
        std::vector<std::shared_ptr<X>> r;
        for (auto& o : objs_) r.push_back(o.second);
        return r;
    }
    bool removeObject(std::string_view name)
    {
        std::shared_ptr<X> keep;
        std::lock_guard<std::mutex> l(m_);
        auto f = objs_.find(name);
        if (f == objs_.end()) return false;
        keep = f->second;
        objs_.erase(f);
        if (auto t = types_.find(name); t != types_.end()) types_.erase(t);
        return true;
    }
    bool removeObject(const std::function<bool(const std::shared_ptr<X>&)>& op)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto it = objs_.begin(); it != objs_.end(); ++it) {
            if (op(it->second)) { types_.erase(it->first); objs_.erase(it); return true; }
        }
        return false;
    }
    bool checkObjectType(std::string_view name, T type) const
    {
        std::lock_guard<std::mutex> l(m_);
        auto t = types_.find(name);
        if (t == types_.end()) return false;
        for (auto& x : t->second) if (x == type) return true;
        return false;
    }
    std::shared_ptr<X> findObject(std::string_view name)
    {
        std::lock_guard<std::mutex> l(m_);
        auto f = objs_.find(name);
        return (f == objs_.end()) ? nullptr : f->second;
    }
    std::shared_ptr<X> findObject(const std::function<bool(const std::shared_ptr<X>&)>& op)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto& o : objs_) if (op(o.second)) return o.second;
        return nullptr;
    }
    std::shared_ptr<X> findObject(const std::function<bool(const std::shared_ptr<X>&)>& op, T type)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto& o : objs_) {
            auto t = types_.find(o.first);
            if (t == types_.end()) continue;
            bool has = false;
            for (auto& x : t->second) has = has || (x == type);
            if (has && op(o.second)) return o.second;
        }
        return nullptr;
    }
};
}  // namespace gmlc::concurrency
