// Instantiates the bracketing search of the repository for one sample type.
#include "common/simple_time.h"
namespace static_map {
struct StampedSample {
  SimpleTime time;
  int value;
};
template std::pair<int, int> TimeStampBinarySearch<StampedSample>(const std::vector<StampedSample>&,
                                                                 const SimpleTime&);
}  // namespace static_map
