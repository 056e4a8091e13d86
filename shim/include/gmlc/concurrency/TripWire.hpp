#pragma once
#include <atomic>
#include <memory>
namespace gmlc::concurrency {
using triplineType = std::shared_ptr<std::atomic<bool>>;
inline triplineType shim_tripline()
{
    static triplineType* line = new triplineType(std::make_shared<std::atomic<bool>>(false));
    return *line;
}
class TripWireDetector {
    triplineType l_{shim_tripline()};

  public:
    bool isTripped() const { return l_->load(); }
};
class TripWireTrigger {
    triplineType l_{shim_tripline()};

  public:
    TripWireTrigger() = default;
    ~TripWireTrigger() { l_->store(true); }
    TripWireTrigger(TripWireTrigger&&) = default;
    TripWireTrigger(const TripWireTrigger&) = delete;
};
}  // namespace gmlc::concurrency
#define DECLARE_TRIPLINE()
#define DECLARE_INDEXED_TRIPLINES(COUNT)
