// Instances of the thread pool's submission, for extraction only.
#include "common/simple_thread_pool.h"
namespace static_map {
namespace common {
template std::future<int> ThreadPool::enqueue<const std::function<int(int)>&, int>(const std::function<int(int)>&, int&&);
template std::future<void> ThreadPool::enqueue<const std::function<void()>&>(const std::function<void()>&);
}  // namespace common
}  // namespace static_map
