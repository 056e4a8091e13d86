#pragma once
#include "BlockingPriorityQueue.hpp"
namespace gmlc::containers {
template<class T>
using BlockingQueue = BlockingPriorityQueue<T>;
}  // namespace gmlc::containers
