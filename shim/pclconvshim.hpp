// Stand-in for pcl_conversions: PCL's own PointCloud2 conversion does the work, as in the original.
#ifndef VERIF_PCLCONVSHIM_HPP_
#define VERIF_PCLCONVSHIM_HPP_
#include "rosshim.hpp"
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include <pcl/io/pcd_io.h>

namespace pcl_conversions
{
inline void fromPCL(const std::uint64_t & pcl_stamp, builtin_interfaces::msg::Time & stamp)
{
  stamp.sec = static_cast<int32_t>(pcl_stamp / 1000000ull);
  stamp.nanosec = static_cast<uint32_t>((pcl_stamp % 1000000ull) * 1000ull);
}
inline void fromPCL(const pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m)
{
  fromPCL(p.header.stamp, m.header.stamp);
  m.header.frame_id = p.header.frame_id;
  m.height = p.height; m.width = p.width;
  m.fields.clear();
  for (const auto & f : p.fields) {
    sensor_msgs::msg::PointField g;
    g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count;
    m.fields.push_back(g);
  }
  m.is_bigendian = p.is_bigendian; m.point_step = p.point_step; m.row_step = p.row_step;
  m.is_dense = p.is_dense; m.data = p.data;
}
inline void moveFromPCL(pcl::PCLPointCloud2 & p, sensor_msgs::msg::PointCloud2 & m) {fromPCL(p, m);}
inline void toPCL(const sensor_msgs::msg::PointCloud2 & m, pcl::PCLPointCloud2 & p)
{
  p.header.stamp = static_cast<std::uint64_t>(m.header.stamp.sec) * 1000000ull + m.header.stamp.nanosec / 1000ull;
  p.header.frame_id = m.header.frame_id;
  p.height = m.height; p.width = m.width;
  p.fields.clear();
  for (const auto & f : m.fields) {
    pcl::PCLPointField g;
    g.name = f.name; g.offset = f.offset; g.datatype = f.datatype; g.count = f.count;
    p.fields.push_back(g);
  }
  p.is_bigendian = m.is_bigendian; p.point_step = m.point_step; p.row_step = m.row_step;
  p.is_dense = m.is_dense; p.data = m.data;
}
}  // namespace pcl_conversions

namespace pcl
{
template<typename T>
void toROSMsg(const pcl::PointCloud<T> & cloud, sensor_msgs::msg::PointCloud2 & msg)
{
  pcl::PCLPointCloud2 p;
  pcl::toPCLPointCloud2(cloud, p);
  pcl_conversions::fromPCL(p, msg);
}
template<typename T>
void fromROSMsg(const sensor_msgs::msg::PointCloud2 & msg, pcl::PointCloud<T> & cloud)
{
  pcl::PCLPointCloud2 p;
  pcl_conversions::toPCL(msg, p);
  pcl::fromPCLPointCloud2(p, cloud);
}
namespace io
{
inline int loadPCDFile(const std::string & file, sensor_msgs::msg::PointCloud2 & msg)
{
  pcl::PCLPointCloud2 p;
  const int r = pcl::io::loadPCDFile(file, p);
  pcl_conversions::fromPCL(p, msg);
  return r;
}
}  // namespace io
}  // namespace pcl
#endif  // VERIF_PCLCONVSHIM_HPP_
