// Instances of the data collector's templates, for extraction only.
#include "builder/data/data_collector.h"
namespace static_map {
namespace data {
template void DataCollector::AddSensorData<pcl::PointXYZI>(const pcl::PointCloud<pcl::PointXYZI>::Ptr&);
template void DataCollector::AddSensorData<pcl::PointXYZ>(const pcl::PointCloud<pcl::PointXYZ>::Ptr&);
}  // namespace data
}  // namespace static_map
